/* P21:  web requests which use up their processor time
   P22:  observatory look-ups */
#include "util.h"
#include <math.h>
#include <signal.h>

namespace {
const char *STATIONS =
   "<pre>\nCode  Long.   cos      sin    Name\n"
   "500   0.000000.000000 0.000000Geocentric\n"
   "568 204.528000.941705+0.337234Maunakea\n"
   "703 249.267360.845315+0.533213Catalina Sky Survey\n"
   "I11 289.263450.866020-0.499760Gemini South\n</pre>\n";

struct Req { std::string prog, body, what; std::map<std::string, std::string> env; };

std::string hex( const std::string &v)
{
   std::string r;
   for( unsigned char c : v) r += isalnum( c) ? std::string( 1, (char)c) : strf( "%%%02X", c);
   return r;
}
Req make_req( Tape &w)
{
   Req r;
   const std::string bnd = "------------------------d74496d66958873e";
   auto field = [&]( const char *name, const std::string &v) { r.body += "--" + bnd + "\r\nContent-Disposition: form-data; name=\"" + name + "\"\r\n\r\n" + v + "\r\n"; };
   u32 k = w.choose( 4);
   int n = 1 + (int)w.choose( 4);
   if( k < 2)
      {
      std::string t;
      for( int i = 0; i < n; i++)
         if( !k) t += strf( "     K23A%02dB  C2023 03 %02d.%05d %02d 12 %05.2f +%02d 00 00.0                      703\n", i, 3 + (int)w.choose( 3), (int)w.choose( 100000), (int)w.choose( 24), w.choose( 6000) / 100., (int)w.choose( 20));
         else
            {
            int f = (int)w.choose( 100000);
            t += strf( "     K20K42H  S2020 12 25.%05d14 45 21.50 +04 41 41.2                V~5zHCC54\n", f);
            t += strf( "     K20K42H  s2020 12 25.%05d1 - 3522.9048 + 2925.0063 + 5163.4745   70582C54\n", f);
            }
      r.prog = k ? "add_off_cgi" : "cgicheck";
      field( "TextArea", t);
      field( "upfile", "");
      if( !k) field( "radius", "40");
      r.body += "--" + bnd + "--\r\n";
      r.env["CONTENT_TYPE"] = "multipart/form-data; boundary=" + bnd;
      r.env["CONTENT_LENGTH"] = strf( "%zu", r.body.size( ));
      }
   else
      {
      std::string q;
      if( k == 2)
         {
         r.prog = "parallax_cgi";
         if( w.chance( 1, 2)) q = std::string( "mpc_code=") + (w.chance( 1, 2) ? "703" : "I11");
         else q = strf( "lat=%s&lon=%s&alt=%d", hex( strf( "%.4f", 10. + w.choose( 500000) / 10000.)).c_str( ), hex( strf( "%.4f", -100. + w.choose( 2000000) / 10000.)).c_str( ), (int)w.choose( 3000));
         }
      else
         {
         r.prog = "desigcgi";
         for( int i = 0; i < n; i++)
            q += (i ? "&" : "") + std::string( w.chance( 1, 2) ? strf( "packed=K%02dA%02d%c", 10 + (int)w.choose( 14), (int)w.choose( 60), 'A' + (int)w.choose( 25)) : "unpacked=" + hex( strf( "%d A%c%d", 2000 + (int)w.choose( 25), 'A' + (int)w.choose( 25), (int)w.choose( 300))));
         }
      r.env["REQUEST_METHOD"] = "GET";
      r.env["QUERY_STRING"] = q;
      r.what = " " + q;
      }
   return r;
}
std::string no_clock( const std::string &o)
{
   std::string r;
   for( auto &l : split_lines( o)) if( l.compare( 0, 9, "Run time:")) r += l + "\n";
   return r;
}
void setup( Sim &s)
{
   std::string cat = "Name        |Tp      .       |Te      |q          |i  .      |Om .      |om .      |e         |rms |n_o  |Tfirst  |Tlast   |Perts  |H .  |G . ^\n";
   const size_t len = cat.size( ) - 1;
   for( int i = 0; i < 6; i++)
      {
      std::string l = strf( "   %d     2023%02d14.1234567 20230225 %11.8f %10.6f %10.6f %10.6f %10.8f 0.50   100 20010101 20230101 M-v 3Eh %5.2f  0.15",
                  1000 + i, i + 1, 1.9 + i * .1, 5.123456 + i, 123.456789 + i * 30., 12.345678 + i * 50., .1 + i * .03, 12.34 + i * .3);
      l.resize( len, ' ');
      cat += l + "\n";
      }
   s.fs.put( "/work/mpcorb.sof", cat);
   s.fs.put( "/work/ObsCodes.html", STATIONS);
   s.fs.put( "/work/ObsCodes.htm", STATIONS);
   s.fs.put( "/work/rovers.txt", "# none\n");
   s.on_system = []( Proc *, const char *) { return 256; };
}
Proc *start( Sim &s, const Req &r, int slot, const std::string &name)
{
   Module *m = get_module( r.prog, slot);
   m->restore( );
   Proc *p = s.spawn( name, m, program( m, { r.prog}));
   p->in = r.body;
   p->env = r.env;
   return p;
}
}

SCENARIO( P21, runaway, 1)
{
   Tape &w = sim.w;
   setup( sim);
   sim.stdio_buf = pick( w, { 4096, 1024, 128, 16384 });
   sim.switch_num = pick( w, { 10, 2, 40, 80 });
   if( w.chance( 1, 4)) sim.fault.read_short = 200000;
   if( w.chance( 1, 4)) sim.fault.write_short = 200000;
   g_sim = &sim;
   int rounds = 1 + (int)w.choose( 2), slot = 0, pid0 = sim.next_pid;
   for( int r = 0; r < rounds; r++)
      {
      if( w.chance( 1, 2)) sim.next_pid = pid0;
      int n = 1 + (int)w.choose( 3);
      struct Job { Proc *p; Req q; std::string want; bool timed; u64 total; };
      std::vector<Job> jobs;
      for( int k = 0; k < n; k++)
         {
         Job j;
         j.q = make_req( w);
         j.timed = w.chance( 2, 3);
         {
         RefWorld ref;
         setup( ref.sim);
         ref.sim.next_pid = sim.pid_of( sim.next_pid);
         Proc *p = start( ref.sim, j.q, 63, "ref");
         ref.sim.run( );
         j.want = no_clock( p->out);
         j.total = p->bb;
         bool ok = p->clean( );
         std::string d = p->describe( );
         u64 lb = p->limit_bb, fb = p->first_input_bb;
         long soft = p->cpu_limit, hard = p->cpu_hard;
         ref.leave( );
         g_sim = &sim;
         if( !ok) sim.violate( "reference-run-failed", j.q.prog + ": " + d);
         else if( soft < 0) sim.violate( "no-limit", j.q.prog + " answers a request without a limit on its processor time");
         else if( lb > fb) sim.violate( "limit-too-late", j.q.prog + " looks at the request before limiting its processor time");
         else if( soft < 1 || soft > 600 || hard <= soft || hard > soft + 600)
            sim.violate( "useless-limit", strf( "%s: soft limit %ld s, hard limit %ld s", j.q.prog.c_str( ), soft, hard));
         }
         j.p = start( sim, j.q, slot, strf( "%s#%d", j.q.prog.c_str( ), slot));
         slot++;
         if( j.timed) j.p->xcpu_bb = 1 + (j.total > 60000 && w.chance( 1, 2) ? j.total - w.choose( 60000) : w.choose( (u32)j.total));
         sim.sample += "; " + j.q.prog + j.q.what + (j.timed ? strf( " (time used up at %llu of %llu)", (unsigned long long)j.p->xcpu_bb, (unsigned long long)j.total) : "");
         jobs.push_back( j);
         }
      sim.run( );
      for( auto &j : jobs)
         {
         std::string o = no_clock( j.p->out);
         if( !j.p->xcpu_hit)
            {
            if( !j.p->clean( )) sim.violate( "request-failed", j.p->name + ": " + j.p->describe( ) + " " + j.p->err.substr( 0, 200));
            else if( o != j.want) sim.violate( "wrong-page", j.p->name + ": " + first_diff( o, j.want));
            continue;
            }
         if( j.p->cpu_limit < 0 || j.p->limit_bb >= j.p->xcpu_bb)
            {
            if( j.p->first_input_bb && j.p->first_input_bb < j.p->xcpu_bb) sim.violate( "no-limit", j.p->name);
            continue;                     /* before it did anything */
            }
         if( j.p->end == END_SIGNAL && j.p->code == SIGXCPU && (!j.p->first_input_bb || j.p->first_input_bb > j.p->xcpu_bb))
            continue;                     /* limited, handler about to be installed, request not looked at */
         if( j.p->xcpu_returned || j.p->end != END_EXIT)
            { sim.violate( "not-ended", j.p->name + " is out of time but " + (j.p->xcpu_returned ? "runs on" : j.p->describe( ))); continue; }
         sim.count( "probe.ended_in_time");
         size_t c = 0;
         while( c < o.size( ) && c < j.want.size( ) && o[c] == j.want[c]) c++;
         std::string tail = o.substr( c);
         for( auto &ch : tail) ch = (char)tolower( ch);
         if( tail.find( "time") == std::string::npos)
            sim.violate( "not-told", j.p->name + " ran out of time;  the page goes on with '" + tail.substr( 0, 100) + "'");
         if( tail.find( "</h1>") == std::string::npos && tail.find( '<') == std::string::npos)
            sim.violate( "not-told", j.p->name + ": no message: '" + tail.substr( 0, 100) + "'");
         }
      }
   if( sim.step_limit_hit) sim.violate( "no-progress", "requests still running after the step limit");
   sim.nontrivial = true;
}

/* ---- P22:  observatory look-ups */
namespace {
const double MAJOR = 6378137., MINOR = 6356752.314140347;
struct Station { std::string code, name, line; double lon, lat, rc, rs; bool bad = false; };
void forward( double lat, double alt, double *rc, double *rs)
{
   double u = atan( sin( lat) * MINOR / (cos( lat) * MAJOR));
   *rc = cos( u) + alt / MAJOR * cos( lat);
   *rs = MINOR / MAJOR * sin( u) + alt / MAJOR * sin( lat);
}
Station rnd_station( Tape &w, int k, bool rover)
{
   Station s;
   s.code = strf( "%c%02d", "RXQA7"[w.choose( 5)], (int)w.choose( 12));
   const bool long_code = rover && w.chance( 1, 4);
   if( long_code) s.code += "ABz1"[w.choose( 4)];
   s.name = strf( "Site %d%c", k, rover ? 'r' : 'o');
   double lat = (-85. + w.choose( 170001) / 1000.) * M_PI / 180., alt = (double)w.choose( 3000);
   s.lon = w.choose( 360000) / 1000.;
   s.lat = lat;
   if( w.chance( 1, 25)) s.lon = 0.;
   if( w.chance( 1, 12)) s.lat = lat = (w.chance( 1, 2) ? M_PI : -M_PI) / 2.;       /* a pole */
   if( w.chance( 1, 20)) alt = -(double)w.choose( 400);
   if( rover && (long_code || w.chance( 1, 2)))
      {                          /* longitude, latitude, altitude */
      double l = s.lon > 180. ? s.lon - 360. : s.lon;
      if( w.chance( 1, 3))       /* degrees, minutes and seconds run together */
         {
         int ld = (int)w.choose( 180), lm = (int)w.choose( 60), ls = (int)w.choose( 600), bd = (int)w.choose( 85), bm = (int)w.choose( 60), bs = (int)w.choose( 600);
         u32 k = w.choose( 4);
         if( k == 0) { ld = 0; lm = (int)w.choose( 4); }
         if( k == 1) { bd = 0; bm = (int)w.choose( 2); }
         double sl = w.chance( 1, 2) ? -1. : 1., sb = w.chance( 1, 2) ? -1. : 1.;
         double vl = ld * 10000. + lm * 100. + ls / 10., vb = bd * 10000. + bm * 100. + bs / 10.;
         if( vl < 400. && vb < 100.) { bd = 12; vb += 120000.; }
         s.line = strf( "%-4s!%+15.1f %+14.1f %9.3f   ", s.code.c_str( ), sl * vl, sb * vb, alt);
         s.lon = sl * (ld + lm / 60. + ls / 36000.);
         s.lat = lat = sb * (bd + bm / 60. + bs / 36000.) * M_PI / 180.;
         if( s.lon < 0.) s.lon += 360.;
         }
      else
         s.line = strf( "%-4s!%+15.9f %+14.9f %9.3f   ", s.code.c_str( ), l, lat * 180. / M_PI, alt);
      forward( lat, alt, &s.rc, &s.rs);
      s.line.resize( 47, ' ');
      s.line += s.name;
      }
   else
      {
      forward( lat, alt, &s.rc, &s.rs);
      const bool coarse = w.chance( 1, 4);
      double unit = coarse ? 1e+5 : 1e+6;
      s.rc = floor( s.rc * unit + .5) / unit;
      s.rs = floor( s.rs * unit + .5) / unit;
      s.line = strf( coarse ? "%-4s%8.4f %7.5f %+8.5f %s" : "%-4s%9.5f%8.6f%+9.6f%s", s.code.c_str( ), s.lon, s.rc, s.rs, s.name.c_str( ));
      if( coarse) s.lon = atof( strf( "%8.4f", s.lon).c_str( ));
      }
   if( w.chance( 1, 30)) { s.line = s.code + " unreadable rubbish where numbers should be"; s.bad = true; }
   return s;
}
/* the number after 'label' in 'o';  NaN if it isn't there */
double number( const std::string &o, const std::string &label, int which = 0)
{
   size_t k = o.find( label);
   if( k == std::string::npos) return NAN;
   const char *p = o.c_str( ) + k + label.size( );
   char *e;
   double v = strtod( p, &e);
   if( e == p) return NAN;
   if( which) { p = e; v = strtod( p, &e); if( e == p) return NAN; }
   return v;
}
}
/* everything shown about one place agrees with everything else shown about it.  'lon' NaN:  not given */
std::string consistent( const std::string &o, double lon, double rc, double rs)
{
   auto angle = [&]( const std::string &label, double v, int which) -> std::string {
      size_t k = 0;
      for( int i = 0; i <= which; i++) { k = o.find( label, k); if( k == std::string::npos) return "no " + label; k += label.size( ); }
      k = o.find( " = ", k);
      int d, m; double sec; char sign;
      if( k == std::string::npos || sscanf( o.c_str( ) + k + 3, "%c%d %d %lf", &sign, &d, &m, &sec) != 4) return "angle unreadable";
      double shown = (d + m / 60. + sec / 3600.) * (sign == '-' ? -1. : 1.);
      if( m > 59 || sec >= 60. || !(fabs( shown - v) < 1.2e-5 / 3600. + 6e-10)) return label + strf( "%.9f but %c%d %d %f", v, sign, d, m, sec);
      return "";
      };
   std::string e = angle( "Latitude  ", number( o, "Latitude  "), 0);
   if( !e.empty( )) return e;
   double m1 = number( o, "In meters: "), m2 = number( o, "In meters: ", 1);
   if( !(fabs( m1 - rc * MAJOR) < .02 && fabs( m2 - rs * MAJOR) < .02)) return strf( "in meters %.5f %.5f", m1, m2);
   if( lon == 0.) return "";
   double l = number( o, "Longitude ");
   e = angle( "Longitude ", l, 0);
   if( !e.empty( )) return e;
   if( l < 0. || l > 180.)
      {
      size_t k = o.find( "Longitude ", o.find( "Longitude ") + 5);
      if( k == std::string::npos || !(fabs( fabs( atof( o.c_str( ) + k + 10) - l) - 360.) < 1e-8)) return "second form of the longitude";
      e = angle( "Longitude ", atof( o.c_str( ) + k + 10), 1);
      if( !e.empty( )) return e;
      }
   double c = cos( l * M_PI / 180.), sn = sin( l * M_PI / 180.);
   for( int unit = 0; unit < 2; unit++)
      {
      const char *t = unit ? "xyz in meters " : "xyz in Earth radii ";
      size_t k = o.find( t);
      double x, y, z, u = unit ? MAJOR : 1.;
      if( k == std::string::npos || sscanf( o.c_str( ) + k + strlen( t), "%lf %lf %lf", &x, &y, &z) != 3) return std::string( t) + "not shown";
      if( !(fabs( x - c * rc * u) < 2e-7 * u && fabs( y - sn * rc * u) < 2e-7 * u && fabs( z - rs * u) < 2e-7 * u)) return strf( "%s%.7f %.7f %.7f", t, x, y, z);
      }
   size_t k = o.find( "maps?q=");
   if( k != std::string::npos)
      {
      double la, lo;
      if( sscanf( o.c_str( ) + k + 7, "%lf,%lf", &la, &lo) != 2 || !(fabs( la - number( o, "Latitude  ")) < 1e-6) || !(fabs( fmod( lo - l + 900., 360.) - 180.) < 1e-6)) return "map link elsewhere";
      }
   return "";
}
SCENARIO( P22, observatories, 1)
{
   Tape &w = sim.w;
   sim.stdio_buf = pick( w, { 4096, 1024, 64, 16384 });
   sim.switch_num = pick( w, { 10, 2, 40, 80 });
   std::vector<Station> rov, obs;
   for( int n = (int)w.choose( 6), k = 0; k < n; k++) rov.push_back( rnd_station( w, k, true));
   for( int n = 1 + (int)w.choose( 12), k = 0; k < n; k++) obs.push_back( rnd_station( w, k, false));
   auto file = [&]( const std::vector<Station> &v, const char *head, const char *tail) {
      std::string t = head;
      for( auto &s : v) t += s.line + "\n";
      return t + tail;
      };
   std::string rt = file( rov, w.chance( 1, 2) ? "# rovers\n" : "", w.chance( 1, 4) ? "# end\n" : ""), ot = file( obs, w.chance( 1, 2) ? "<pre>\nCode  Long.   cos      sin    Name\n" : "", w.chance( 1, 2) ? "</pre>\n" : "");
   if( w.chance( 1, 4) && !rt.empty( )) rt.pop_back( );           /* no line end at the end of the file */
   if( w.chance( 1, 4) && !ot.empty( )) ot.pop_back( );
   u32 missing = w.choose( 10);                                   /* 1:  no rover list,  2:  no observatory list */
   bool faults = w.chance( 1, 2);
   if( faults)
      {
      sim.fault.read_eio = on_off( w, 1, 2, 60000);
      sim.fault.open_fail = on_off( w, 1, 3, 60000);
      sim.fault.alloc_fail = on_off( w, 1, 3, 60000);
      sim.fault.read_short = on_off( w, 1, 2, 200000);
      sim.fault.budget = 1 + (int)w.choose( 2);
      }
   const char *cli_dirs[] = { "/home/u/.find_orb/", "/work/" }, *cgi_dirs[] = { "/home/projectp/public_html/cgi_bin/fo/", "/work/" };
   u32 where = w.choose( 2);
   for( auto dirs : { cli_dirs, cgi_dirs })
      {
      if( missing != 1) sim.fs.put( std::string( dirs[where]) + "rovers.txt", rt);
      if( missing != 2) sim.fs.put( std::string( dirs[where]) + "ObsCodes.htm", ot);
      }
   sim.sample = strf( "%zu rovers, %zu observatories%s", rov.size( ), obs.size( ), missing == 1 ? ", no rover list" : missing == 2 ? ", no observatory list" : "");
   auto find = [&]( const std::string &code) -> const Station * {
      for( auto v : { &rov, &obs}) for( auto &s : *v) if( s.code == code && !s.bad) return &s;
      return NULL;
      };
   auto unsure = [&]( const std::string &code) {       /* first record not readable */
      for( auto v : { &rov, &obs}) for( auto &s : *v) if( s.code == code) return s.bad;
      return false;
      };
   /* regions, as in geo_rect.txt:  the first that encloses the place names it */
   struct Region { double lon1, lat1, lon2, lat2; std::string name; };
   std::vector<Region> regions;
   const bool region_file = w.chance( 1, 2);
   if( region_file)
      {
      std::string t = w.chance( 1, 2) ? "# longitude, latitude ranges\n" : "";
      for( int k = 0, nr = (int)w.choose( 6); k < nr; k++)
         {
         Region r;
         r.lon1 = -180. + w.choose( 3600) / 10. + .0304; r.lon2 = r.lon1 + w.choose( 1700) / 10. + .1; if( r.lon2 > 180. && w.chance( 1, 2)) r.lon2 -= 360.;
         r.lat1 = -90. + w.choose( 1200) / 10. + .0304; r.lat2 = r.lat1 + w.choose( 600) / 10. + .1;
         if( w.chance( 1, 4)) std::swap( r.lat1, r.lat2);
         r.name = strf( "Region %c%d", 'A' + k, (int)w.choose( 100));
         std::string l = strf( "%-10.4f%-10.4f%-10.4f%-10.4fR:", r.lon1, r.lat1, r.lon2, r.lat2) + r.name;
         t += l + "\n";
         regions.push_back( r);
         }
      if( w.chance( 1, 4) && !t.empty( )) t.pop_back( );
      sim.fs.put( "/work/geo_rect.txt", t);
      }
   struct Job { Proc *p; std::vector<std::string> codes; bool cgi, home, numbers; double lon, lat, alt, rc, rs; };
   std::vector<Job> jobs;
   int n = 1 + (int)w.choose( 3);
   for( int k = 0; k < n; k++)
      {
      Job j;
      j.cgi = w.chance( 1, 3);
      j.home = !w.chance( 1, 8);
      int nc = !j.cgi && w.chance( 1, 4) ? 2 : 1;
      for( int i = 0; i < nc; i++)
         {
         auto &v = w.chance( 1, 3) && !rov.empty( ) ? rov : obs;
         u32 odd = w.choose( 40);
         j.codes.push_back( odd < 4 ? strf( "Z%02d", (int)w.choose( 100)) : odd == 4 && !j.cgi && nc == 1 ? std::string( "R") : v[w.choose( (u32)v.size( ))].code);
         if( j.codes.back( ).size( ) > 3 && (j.cgi || nc == 2 || w.chance( 1, 4))) j.codes.back( ).resize( 3);      /* these take three-character codes only */
         }
      j.numbers = w.chance( 1, 4);
      std::string query;
      if( j.numbers)
         {
         j.lat = (int)( w.choose( 178000) - 89000) / 1000.; j.lon = 2.5 + w.choose( 355000) / 1000.; j.alt = (int)w.choose( 5000) - 200.;
         if( w.chance( 1, 10)) j.lat = w.chance( 1, 2) ? 90. : -90.;
         if( w.chance( 1, 3)) j.lon -= 360.;
         if( fabs( j.lat) < .01) j.lat = 7.25;
         forward( j.lat * M_PI / 180., j.alt, &j.rc, &j.rs);
         if( fabs( j.lat) == 90.) j.rc = 0.;
         double u = w.chance( 1, 2) ? MAJOR : 1., c = cos( j.lon * M_PI / 180.), sn = sin( j.lon * M_PI / 180.);
         u32 form = w.choose( 4);
         if( fabs( j.rc) < .01 && form == 2) form = 1;
         auto sexa = [&]( double v) {
            long t = lround( fabs( v) * 3600000.);
            return strf( "%s%ld %02ld %02ld.%03ld", v < 0. ? "-" : "", t / 3600000, t / 60000 % 60, t / 1000 % 60, t % 1000);
            };
         if( form == 0)
            {
            std::string a = sexa( j.lon), b = sexa( j.lat);
            if( j.cgi) query = "lon=" + hex( a) + "&lat=" + hex( b) + strf( "&alt=%.2f", j.alt);
            else j.codes = { a, b, strf( "%.2f", j.alt) };
            }
         else if( form == 1)
            {
            std::string a = strf( "%.9f", j.rc * u), b = strf( "%.9f", j.rs * u);
            if( j.cgi) query = "rho_cos_phi=" + a + "&rho_sin_phi=" + hex( b);
            else j.codes = { a, b };
            j.lon = 0.;
            }
         else if( form == 2)
            {
            std::string a = strf( "%.10f", j.rc * c * u), b = strf( "%.10f", j.rc * sn * u), z = strf( "%.10f", j.rs * u);
            if( j.cgi) query = "xyz0=" + hex( a) + "&xyz1=" + hex( b) + "&xyz2=" + hex( z);
            else if( u > 1. && fabs( j.rc * c * u) < 500. && fabs( j.rc * sn * u) < 500.) j.codes = { strf( "%.6f", j.lon), strf( "%.6f", j.lat), strf( "%.6f", j.alt) };
            else j.codes = { a, b, z };
            }
         else
            {
            if( j.cgi) query = strf( "lon=%s&lat=%s&alt=%.3f", hex( strf( "%.6f", j.lon)).c_str( ), hex( strf( "%.6f", j.lat)).c_str( ), j.alt);
            else j.codes = { strf( "%.6f", j.lon), strf( "%.6f", j.lat), strf( "%.3f", j.alt) };
            }
         }
      Module *m = get_module( j.cgi ? "parallax_cgi" : "parallax", k);
      m->restore( );
      std::vector<std::string> args = { "parallax" };
      if( !j.cgi) args.insert( args.end( ), j.codes.begin( ), j.codes.end( ));
      j.p = sim.spawn( strf( j.cgi ? "parallax.cgi#%d" : "parallax#%d", k), m, program( m, args));
      if( j.cgi) { j.p->env["REQUEST_METHOD"] = "GET"; j.p->env["QUERY_STRING"] = j.numbers ? query : "mpc_code=" + j.codes[0]; }
      else if( j.home) j.p->env["HOME"] = "/home/u";
      sim.sample += strf( "; %s%s", j.cgi ? "web " : j.home ? "" : "(no HOME) ", j.numbers && j.cgi ? query.c_str( ) : j.codes[0].c_str( )) + (j.codes.size( ) > 1 ? " " + j.codes[1] : "");
      jobs.push_back( j);
      }
   sim.run( );
   for( auto &j : jobs)
      {
      if( j.p->mem_error) sim.violate( "memory", j.p->mem_note);
      if( j.p->end == END_SIGNAL && j.p->code == SIGSEGV) { sim.violate( "crash", j.p->describe( )); continue; }
      const std::string &o = j.p->out;
      auto region = [&]( double lat, double lon) {
         std::string want;
         for( auto &r : regions)
            {
            double l = lon, hi = r.lon2 < r.lon1 ? r.lon2 + 360. : r.lon2;
            if( hi - r.lon1 > 180.) continue;                /* too wide for the format to say which way around */
            while( l < r.lon1) l += 360.;
            while( l > r.lon1 + 360.) l -= 360.;
            if( want.empty( ) && l < hi && (lat - r.lat1) * (lat - r.lat2) < 0.) want = r.name;
            }
         const std::string mark = "This point is somewhere in ";
         size_t k = o.find( mark);
         std::string got = k == std::string::npos ? "" : split_lines( o.substr( k + mark.size( )))[0];
         if( got == want || (got.empty( ) && j.p->n_hard_faults)) return true;
         sim.violate( "wrong-region", j.p->name + strf( " %.6f %.6f: '%s' should be '%s'", lat, lon, got.c_str( ), want.c_str( )));
         return false;
         };
      if( j.numbers)
         {
         if( !j.p->clean( ) || o.find( "Parallax constants") == std::string::npos)
            {
            if( !j.p->n_hard_faults) sim.violate( "no-answer", j.p->name + ": " + j.p->describe( ) + o.substr( 0, 200) + j.p->err.substr( 0, 200));
            continue;
            }
         double lon = j.lon == 0. ? 0. : number( o, "Longitude "), rc = number( o, "Parallax constants "), rs = number( o, "Parallax constants ", 1), lat = number( o, "Latitude  "), alt = number( o, "Altitude ");
         std::string e;
         if( !(fabs( fmod( lon - j.lon + 900., 360.) - 180.) < 3e-7)) e = strf( "longitude %.9f should be %.9f", lon, j.lon);
         else if( !(fabs( lat - j.lat) < 3e-7)) e = strf( "latitude %.9f should be %.9f", lat, j.lat);
         else if( !(fabs( alt - j.alt) < .03)) e = strf( "altitude %.4f should be %.4f", alt, j.alt);
         else if( !(fabs( rc - j.rc) < 6e-9 && fabs( rs - j.rs) < 6e-9)) e = strf( "parallax constants %.9f %.9f should be %.9f %.9f", rc, rs, j.rc, j.rs);
         else e = consistent( o, j.lon, rc, rs);
         if( !e.empty( )) sim.violate( "wrong-place", j.p->name + ": " + e);
         else if( j.lon != 0.) region( lat, lon);
         sim.count( "probe.place_from_numbers");
         continue;
         }
      bool readable = missing != 1 && missing != 2 && !j.p->n_hard_faults && (j.cgi || j.home || where == 1);
      const Station *s = find( j.codes[0]), *s2 = j.codes.size( ) > 1 ? find( j.codes[1]) : s;
      bool good = s && s2;
      for( auto &c : j.codes) if( unsure( c)) readable = false;
      bool got = o.find( "Parallax constants") != std::string::npos;
      if( !j.p->clean( ))
         {
         if( readable && good) sim.violate( "not-found", j.p->name + ": " + j.p->describe( ) + ": " + o.substr( 0, 200) + j.p->err.substr( 0, 200));
         else sim.count( "probe.failure_reported");
         continue;
         }
      if( !got)
         {
         if( readable && good) sim.violate( "not-found", j.p->name + " " + j.codes[0] + ": " + o.substr( 0, 300));
         else sim.count( "probe.failure_reported");
         continue;
         }
      if( !good)
         { sim.violate( "made-up", j.p->name + ": a position for " + j.codes[0] + ", which is not listed or not readable: " + o.substr( 0, 300)); continue; }
      double lon = s->lon == 0. ? 0. : number( o, "Longitude "), rc = number( o, "Parallax constants "), rs = number( o, "Parallax constants ", 1);
      double lat = number( o, "Latitude  "), alt = number( o, "Altitude "), frc, frs;
      forward( lat * M_PI / 180., alt, &frc, &frs);
      double dl = fmod( lon - s->lon + 900., 360.) - 180.;
      if( !(fabs( dl) < 1e-7))
         sim.violate( "wrong-observatory", strf( "%s %s: longitude %.9f, listed %.9f", j.p->name.c_str( ), j.codes[0].c_str( ), lon, s->lon));
      else if( !(fabs( rc - s->rc) < 2e-9 && fabs( rs - s->rs) < 2e-9))
         sim.violate( "wrong-observatory", strf( "%s %s: parallax constants %.9f %.9f, listed %.9f %.9f", j.p->name.c_str( ), j.codes[0].c_str( ), rc, rs, s->rc, s->rs));
      else if( !(fabs( frc - s->rc) < 2e-9 && fabs( frs - s->rs) < 2e-9))
         sim.violate( "wrong-observatory", strf( "%s %s: latitude %.9f and altitude %.3f do not fit the parallax constants", j.p->name.c_str( ), j.codes[0].c_str( ), lat, alt));
      double llon = number( o, s->code + " !"), llat = number( o, s->code + " !", 1);
      if( !(fabs( fmod( llon - s->lon + 900., 360.) - 180.) < 1e-7 && fabs( llat - s->lat * 180. / M_PI) < 1e-3))
         sim.violate( "wrong-observatory", strf( "%s: record shown at %.9f %.9f, listed at %.9f %.6f", s->code.c_str( ), llon, llat, s->lon, s->lat * 180. / M_PI));
      std::string e = consistent( o, s->lon, rc, rs);
      if( !e.empty( )) sim.violate( "wrong-observatory", j.p->name + " " + j.codes[0] + ": " + e);
      else if( s->lon != 0.) region( lat, lon);
      if( o.find( s->name) == std::string::npos) sim.violate( "wrong-observatory", j.p->name + " " + j.codes[0] + ": name '" + s->name + "' not shown: " + o.substr( 0, 200));
      if( s2 != s && j.codes.size( ) > 1)
         {
         double d = number( o, "(" + j.codes[1] + ") is "), l1 = s->lat, l2 = s2->lat, dl2 = (s2->lon - s->lon) * M_PI / 180.;
         double x = cos( l2) * sin( dl2), y = cos( l1) * sin( l2) - sin( l1) * cos( l2) * cos( dl2), z = sin( l1) * sin( l2) + cos( l1) * cos( l2) * cos( dl2);
         double want = atan2( sqrt( x * x + y * y), z) * MAJOR / 1000., bear = number( o, "at bearing "), wb = atan2( x, y) * 180. / M_PI;
         if( !(fabs( d - want) < .1)) sim.violate( "wrong-distance", strf( "%.3f km expected: ", want) + o.substr( 0, 300));
         else if( want > 100. && want < 19900. && !(fabs( fmod( bear - wb + 900., 360.) - 180.) < .1))
            sim.violate( "wrong-distance", strf( "bearing %.2f expected: ", wb) + o.substr( 0, 300));
         }
      }
   sim.nontrivial = true;
}
