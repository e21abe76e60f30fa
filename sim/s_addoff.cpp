/* add_off:  spacecraft positions fetched from JPL Horizons (a simulated
service behind system( "curl ..."))  P13:  command-line version,  P14:  on-line version */
#include "util.h"
#include <math.h>

namespace {
const double AU_KM = 149597870.7;
struct Craft { const char *code; int idx; double scale; };
const Craft crafts[] = { { "C51", -163, 6900. }, { "C57", -95, 300000. }, { "249", -21, 1500000. }, { "C54", -98, 6.6e+9 }, { "C49", -234, 1.4e+8 },
      { "250", -48, 6950. }, { "274", -170, 1400000. } };
const int N_CRAFT = 7;

/* the service's truth:  position and velocity of a spacecraft at a time in microdays (MJD, TDT) */
void truth( int idx, long long t, double *s)
{
   double scale = 7000.;
   for( auto &c : crafts) if( c.idx == idx) scale = c.scale;
   for( int i = 0; i < 6; i++)
      {
      u64 h = mix64( (u64)t * 6364136223846793005ULL + (u64)( idx * 31 + i));
      double u = (double)( h % 2000001) / 1000000. - 1.;
      if( fabs( u) < .002) u = .0123;
      s[i] = i < 3 ? scale * u : 7.5 * u;
      if( i < 3) s[i] = floor( s[i] * 1e4 + .5) / 1e4;
      }
}
struct Request { int idx = 0; std::vector<long long> t; std::string out; };
bool parse_cmd( const std::string &c, Request &r)
{
   size_t o = c.find( "-o ");
   if( o == std::string::npos) return false;
   o += 3;
   while( o < c.size( ) && (c[o] == ' ' || c[o] == '\'' || c[o] == '"')) o++;
   size_t e = o;
   while( e < c.size( ) && c[e] != ' ' && c[e] != '\'' && c[e] != '"') e++;
   r.out = c.substr( o, e - o);
   size_t k = c.find( "COMMAND='");
   if( k == std::string::npos) return false;
   r.idx = atoi( c.c_str( ) + k + 9);
   k = c.find( "TLIST=");
   if( k == std::string::npos) return false;
   const char *p = c.c_str( ) + k + 6;
   while( *p == '\'' || *p == ',')
      {
      if( *p == ',') { p++; continue; }
      r.t.push_back( llround( atof( p + 1) * 1e+6));
      p = strchr( p + 1, '\'');
      if( !p) return false;
      p++;
      }
   return true;
}
typedef std::pair<int, long long> Key;
struct Told { std::set<Key> asked, must, may; int n_requests = 0; };    /* what the service told one process */

struct Service {
   u32 fault_ppm = 0;
   std::map<Proc *, Told> told;
   int serve( Sim &sim, Proc *p, const char *cmd)
   {
      Request r;
      Told &td = told[p];
      td.n_requests++;
      if( !parse_cmd( cmd, r)) { sim.violate( "bad-request", std::string( "not understood: ") + cmd); return 256; }
      if( strlen( cmd) > 8100) sim.violate( "bad-request", strf( "URL of %zu bytes", strlen( cmd)));
      int kind = 0, rv = 0;
      if( sim.faults_on && fault_ppm && sim.f.chance( fault_ppm, 1000000)) kind = 1 + (int)sim.f.choose( 8);
      sim.now_us += 200000 + sim.f.choose( 5) * 1000000ULL;
      std::string a = "API VERSION: 1.2\n*******\nTarget body name: spacecraft (" + strf( "%d", r.idx) + ")\n$$SOE\n";
      std::vector<std::pair<size_t, Key>> ends;
      for( size_t i = 0; i < r.t.size( ); i++)
         {
         double s[6];
         Key k( r.idx, r.t[i]);
         td.asked.insert( k);
         if( td.must.erase( k)) td.may.insert( k);      /* asked again:  the last answer counts */
         if( kind == 6 && sim.f.choose( 2)) continue;
         truth( r.idx, r.t[i], s);
         a += strf( "%lld.%06lld000 = A.D. 2020-Jan-01 00:00:00.0000 TDB \n %.16E %.16E %.16E\n %.16E %.16E %.16E\n",
                  (2400000500000LL + r.t[i]) / 1000000, (2400000500000LL + r.t[i]) % 1000000, s[0], s[1], s[2], s[3], s[4], s[5]);
         ends.push_back( std::make_pair( a.size( ), k));
         }
      a += "$$EOE\n*******\n";
      static const char *names[] = { "", "curl_failed", "curl_partial", "error_page", "answer_cut_off", "empty_answer", "times_missing", "fork_failed", "no_ephemeris" };
      if( kind) { sim.count( (std::string( "fault.service_") + names[kind]).c_str( )); sim.ev( "service: %s", names[kind]); }
      bool create = true;
      switch( kind)
         {
         case 1: create = false; rv = 6 << 8; break;
         case 2: rv = 18 << 8; a.resize( sim.f.choose( (u32)a.size( ) + 1)); break;
         case 3: a = "<html><head><title>503 Service Unavailable</title></head>\n<body>Try again later = A.D. 2020</body></html>\n"; break;
         case 4: a.resize( 1 + sim.f.choose( (u32)a.size( ))); break;
         case 5: create = false; break;
         case 7: create = false; rv = -1; break;
         case 8: a = "No ephemeris for target \"spacecraft\" prior to A.D. 2014-OCT-01 01:00:00.0000 TDB\n"; break;
         }
      if( create)
         {
         InodeP ino = sim.fs.find( r.out);
         if( ino) ino->data.clear( );
         else ino = sim.fs.create( r.out);
         size_t done = 0;
         while( done < a.size( ))
            {
            size_t n = a.size( ) - done;
            if( n > 400) n = 400;
            sim.yield_point( "curl writes");
            ino->data.append( a, done, n);
            done += n;
            }
         sim.yield_point( "curl closes");
         for( auto &e : ends)
            if( kind != 3 && kind != 8 && e.first <= a.size( ))
               (rv ? td.may : td.must).insert( e.second);
         }
      return rv;
   }
};
double leap( int y) { return y >= 2017 ? 69.184 : y >= 2009 && y < 2012 ? 66.184 : y >= 2006 && y < 2009 ? 65.184 : 69.184; }
int mjd_of( int y, int m, int d)
{
   int a = (14 - m) / 12, yy = y + 4800 - a, mm = m + 12 * a - 3;
   return d + (153 * mm + 2) / 5 + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045 - 2400001;
}
struct Ob { std::string line, old; int craft = -1; long long t = 0; bool is_obs = false; std::string before; std::vector<double> oldv; };     /* 'old', 'before':  the position it came with */
struct File { bool ades = false; std::vector<Ob> items; std::string text; };

File make_file( Tape &w, int big)
{
   File f;
   f.ades = big ? false : w.chance( 1, 3);
   int n = big ? big : 1 + (int)w.choose( 8);
   int y = (int)pick( w, { 2020, 2018, 2010, 2007, 2024 }), mo = 1 + (int)w.choose( 12), d0 = 1 + (int)w.choose( 20);
   std::vector<std::pair<int, int>> used;     /* day, fraction in 1e-6 */
   const int step = w.chance( 1, 3) ? 1 : w.chance( 1, 3) ? 10 : 100;         /* time resolution:  some exposures are less than a second apart */
   bool with_old = w.chance( 1, 2), unknown = w.chance( 1, 4);
   if( f.ades) f.items.push_back( Ob{ "<ades version=\"2022\">\n", "", -1, 0, false });
   int c0 = (int)w.choose( N_CRAFT), c1 = (int)w.choose( N_CRAFT);
   for( int i = 0; i < n; i++)
      {
      Ob o;
      int day = d0 + (int)w.choose( 3), fr = (int)w.choose( 10000) * 100;
      if( big) { day = d0 + i / 5000; fr = (i % 5000) * 100; }
      if( used.size( ) && !big && w.chance( 1, 3)) { auto &u = used[w.choose( (u32)used.size( ))]; day = u.first; fr = u.second; if( fr < 997000 && w.chance( 1, 2)) fr += step * (int)w.choose( 24); }
      used.push_back( std::make_pair( day, fr));
      u32 k = big ? 0 : w.choose( 8);
      o.craft = k == 7 ? -2 : k >= 4 ? c1 : c0;        /* -2:  ground-based or unknown station */
      const char *code = o.craft >= 0 ? crafts[o.craft].code : unknown ? "C48" : "568";
      o.t = (long long)mjd_of( y, mo, day) * 1000000LL + llround( fr + leap( y) / .0864);
      if( !f.ades)
         {
         bool sat = o.craft >= 0 || unknown;
         std::string frac = step == 1 ? strf( "%06d", fr) : step == 10 ? strf( "%05d ", fr / 10) : strf( "%04d0 ", fr / 100);
         o.is_obs = sat;
         if( o.craft < 0) o.craft = -1;
         o.line = strf( "     K20K%02dH  %c%04d %02d %02d.%s12 %02d 21.50 +04 41 41.2          18.3 rV~5zH%s", i % 100, sat ? 'S' : 'C', y, mo, day, frac.c_str( ), i % 60, code);
         o.line.resize( 77);
         o.line += std::string( code) + "\n";
         if( sat && with_old && w.chance( 2, 3))
            {
            bool au = w.chance( 1, 4);
            double ov[3] = { 1234.5678 + 7. * i, -2345.6789, 3456.789 + (double)w.choose( 1000) / 10. };
            if( w.chance( 1, 3)) ov[0] = -ov[0];
            for( int q = 0; au && q < 3; q++) ov[q] /= 10000.;
            o.old = strf( "     K20K%02dH  s%04d %02d %02d.%s%c", i % 100, y, mo, day, frac.c_str( ), au ? '2' : '1');
            for( int q = 0; q < 3; q++)
               {
               o.old += strf( au ? " %c%10.8f" : " %c%10.4f", ov[q] < 0. ? '-' : '+', fabs( ov[q]));
               o.oldv.push_back( atof( strf( au ? "%.8f" : "%.4f", ov[q]).c_str( )) * (au ? AU_KM : 1.));
               }
            o.old += strf( "   ~5zH%s", code);
            o.old.resize( 77);
            o.old += std::string( code) + "\n";
            }
         f.items.push_back( o);
         if( w.chance( 1, 8)) f.items.push_back( Ob{ strf( "COM note %d\n", i), "", -1, 0, false });
         }
      else
         {
         std::string head = strf( "  <optical>\n    <trkSub>a%d</trkSub>\n    <stn>%s</stn>\n", i, code);
         for( auto &l : split_lines( head)) f.items.push_back( Ob{ l + "\n", "", -1, 0, false });
         double sec = fr * .0864;
         int h = (int)( sec / 3600.), mi = (int)( sec / 60.) % 60;
         sec -= h * 3600. + mi * 60.;
         o.line = strf( "    <obsTime>%04d-%02d-%02dT%02d:%02d:%06.3fZ</obsTime>\n", y, mo, day, h, mi, sec);
         o.is_obs = o.craft >= 0;
         if( o.craft < 0) o.craft = -1;
         if( with_old && w.chance( 2, 3))
            {
            if( o.is_obs)
               o.before = strf( "    <sys>ICRF_KM</sys>\n    <ctr>399</ctr>\n    <pos1>%d.25</pos1>\n    <pos2>-2345.6789</pos2>\n    <pos3>3456.789</pos3>\n", 1000 + i);
            else
               o.before = strf( "    <sys>WGS84</sys>\n    <ctr>399</ctr>\n    <pos1>%d.25</pos1>\n    <pos2>-34.6789</pos2>\n    <pos3>1456.7</pos3>\n", 100 + i);
            if( w.chance( 1, 4)) o.before += "    <prog>07</prog>\n";
            if( o.is_obs && o.before.find( "prog") == std::string::npos && w.chance( 1, 4)) o.before += "    <vel1>1.5</vel1>\n    <vel2>-2.5</vel2>\n    <vel3>3.5</vel3>\n";
            if( !o.is_obs)
               {
               for( auto &l : split_lines( o.before)) f.items.push_back( Ob{ l + "\n", "", -1, 0, false });
               o.before.clear( );
               }
            }
         f.items.push_back( o);
         f.items.push_back( Ob{ strf( "    <ra>%d.5</ra>\n", i), "", -1, 0, false });
         f.items.push_back( Ob{ "  </optical>\n", "", -1, 0, false });
         }
      }
   if( f.ades) f.items.push_back( Ob{ "</ades>\n", "", -1, 0, false });
   for( auto &i : f.items) f.text += i.before + i.line + i.old;
   return f;
}
bool close_to( double a, double b, double tol) { return fabs( a - b) <= tol; }

/* compares an 's' line with the true position;  "" if right */
std::string check_s( const std::string &l, const Ob &o, const double *s)
{
   if( l.size( ) < 80 || l[14] != 's') return "no offset line: " + l;
   if( l.compare( 0, 14, o.line, 0, 14) || l.compare( 15, 17, o.line, 15, 17) || l.compare( 77, 3, o.line, 77, 3)) return "offset line for another observation: " + l;
   double unit = l[32] == '2' ? AU_KM : l[32] == '1' ? 1. : 0.;
   if( !unit) return "no unit: " + l;
   for( int i = 0; i < 3; i++)
      {
      double v = atof( l.substr( 35 + i * 12, 10).c_str( )) * unit;
      if( l[34 + i * 12] == '-') v = -v;
      double tol = unit > 1. ? (fabs( s[i]) > 9.8 * AU_KM ? 8. : .8) : fabs( s[i]) > 999000. ? .006 : .0006;
      if( !close_to( v, s[i], tol)) return strf( "component %d is %.4f, the service said %.4f: ", i, v, s[i]) + l;
      }
   return "";
}
/* checks one output against the input and what the service said;  "" if right */
std::string check_output( const File &f, const std::string &text, const Told &td, bool strict, int *n_set, int *n_fail, bool delta = false)
{
   std::vector<std::string> out = split_lines( text);
   size_t k = 0;
   *n_set = *n_fail = 0;
   auto skip = [&]( ) { while( k < out.size( ) && (!out[k].compare( 0, 11, "COM add_off") || out[k].find( "positions set by add_off") != std::string::npos)) k++; };
   auto chomp = []( const std::string &s) { std::string r = s; while( !r.empty( ) && (r.back( ) == '\n' || r.back( ) == '\r')) r.pop_back( ); return r; };
   for( auto &o : f.items)
      {
      skip( );
      double s[6];
      std::string line = chomp( o.line);
      bool must = false, may = false;
      if( o.is_obs && o.craft >= 0)
         {
         Key key( crafts[o.craft].idx, o.t);
         truth( key.first, key.second, s);
         must = strict && td.must.count( key);
         may = td.must.count( key) || td.may.count( key);
         }
      if( o.is_obs && f.ades)
         {
         bool got = false;
         double unit = 1.;
         int n_seen = 0;
         std::vector<std::string> before = split_lines( o.before);
         size_t same = 0;
         while( same < before.size( ) && k + same < out.size( ) && out[k + same] == before[same]) same++;
         if( !before.empty( ) && same == before.size( )) k += same;          /* left as it was */
         else
            {
            if( !before.empty( ) && before.back( ).find( "<prog>") != std::string::npos)
               {
               if( k >= out.size( ) || out[k] != before.back( )) return "position it came with,  or other data,  lost:  " + before.back( );
               k++;
               }
            before.clear( );
            }
         const bool lost = !o.before.empty( ) && before.empty( );
         if( o.before.empty( ) || lost) while( k < out.size( ) && out[k] != line && (out[k].find( "<sys>") != std::string::npos || out[k].find( "<ctr>") != std::string::npos
                         || out[k].find( "<pos") != std::string::npos || out[k].find( "<vel") != std::string::npos))
            {
            const std::string &l = out[k++];
            got = true;
            size_t p = l.find( '>');
            if( l.find( "<sys>") != std::string::npos) unit = l.find( "ICRF_AU") != std::string::npos ? AU_KM : 1.;
            else if( l.find( "<pos") != std::string::npos || l.find( "<vel") != std::string::npos)
               {
               bool pos = l.find( "<pos") != std::string::npos;
               int i = l[p - 1] - '1' + (pos ? 0 : 3);
               if( i < 0 || i > 5) return "odd tag " + l;
               double v = atof( l.c_str( ) + p + 1) * (pos ? unit : unit > 1. ? unit / 86400. : 1.);
               if( !close_to( v, s[i], pos ? (unit > 1. ? 10. : .002) : 2e-5)) return strf( "component %d is %.5f, the service said %.5f: ", i, v, s[i]) + l;
               n_seen++;
               }
            }
         if( k >= out.size( ) || out[k] != line) return "lost or changed line: " + line + (k < out.size( ) ? " got: " + out[k] : "");
         k++;
         if( lost && !got) return "the position it came with is gone:  " + line;
         if( got && n_seen != 6) return "incomplete position for " + line;
         if( got && !may) return "invented position for " + line;
         if( !got && must) return "position missing for " + line;
         (got ? *n_set : *n_fail)++;
         continue;
         }
      bool got = false;
      if( o.is_obs && k < out.size( ) && !out[k].compare( 0, 8, "COM vel "))
         {
         double v[3] = { 0., 0., 0. };
         if( sscanf( out[k].c_str( ) + 31, "%lf%lf%lf", v, v + 1, v + 2) != 3) return "odd velocity line: " + out[k];
         if( !may) return "invented velocity for " + line;
         for( int i = 0; i < 3; i++) if( !close_to( v[i], s[i + 3], 2e-6)) return "wrong velocity: " + out[k];
         k++;
         got = true;
         }
      if( got && delta)       /* differences from the positions they came with */
         {
         int n = 0, n_old = 0;
         bool ok = false, seen = k < out.size( ) && !out[k].compare( 0, 32, "COM delta from orig offsets (km)");
         double v[3] = { 0., 0., 0. };
         if( seen && sscanf( out[k].c_str( ) + 32, "%lf%lf%lf", v, v + 1, v + 2) != 3) return "odd line of differences: " + out[k];
         for( auto &p : f.items) if( p.is_obs && p.craft == o.craft && llabs( p.t - o.t) <= 1)
            {
            n++;
            if( p.oldv.size( ) != 3) continue;
            n_old++;
            bool same = true;
            for( int i = 0; i < 3; i++) if( !close_to( v[i], s[i] - p.oldv[i], .0011 + 1e-12 * fabs( s[i]))) same = false;
            if( same) ok = true;
            }
         if( seen && !ok) return "wrong differences: " + out[k] + " for " + line;
         if( !seen && n == n_old) return "no differences shown for " + line;
         if( seen) k++;
         }
      if( k >= out.size( ) || out[k] != line) return "lost or changed line: " + line + (k < out.size( ) ? " got: " + out[k] : "");
      k++;
      if( !o.is_obs) continue;
      std::string old = chomp( o.old);
      if( k < out.size( ) && out[k].size( ) > 14 && out[k][14] == 's' && !out[k].compare( 0, 14, line, 0, 14) && (got || out[k] != old))
         {
         if( !may) return "invented position: " + out[k];
         std::string e = check_s( out[k], o, s);
         if( !e.empty( )) return e;
         k++;
         got = true;
         }
      else if( got) return "velocity without position for " + line;
      else if( !old.empty( ))
         {
         if( k >= out.size( ) || out[k] != old) return "original offset lost: " + old;
         k++;
         }
      if( !got && must) return "position missing for " + line;
      (got ? *n_set : *n_fail)++;
      }
   skip( );
   if( k < out.size( )) return "extra line: " + out[k];
   return "";
}
std::string after_messages( const File &f, const std::string &text)
{
   size_t k;
   if( f.ades) k = text.find( f.items[0].line);
   else k = text.find( "COM add_off ver");
   return k == std::string::npos ? text : text.substr( k);
}
}  // namespace

SCENARIO( P13, offsets, 1)
{
   Tape &w = sim.w;
   sim.stdio_buf = pick( w, { 4096, 1024, 200 });
   sim.switch_num = pick( w, { 2, 10, 40, 80 });
   Service svc;
   svc.fault_ppm = on_off( w, 2, 3, pick( w, { 200000, 600000, 1000000 }));
   sim.on_system = [&]( Proc *p, const char *cmd) { return svc.serve( sim, p, cmd); };
   if( w.chance( 1, 3))
      {
      u32 k = pick( w, { 1, 4 });
      sim.fault.read_eio = on_off( w, 1, 3, 15000 * k);
      sim.fault.write_fail = on_off( w, 1, 3, 30000 * k);
      sim.fault.alloc_fail = on_off( w, 1, 3, 30000 * k);
      sim.fault.open_fail = on_off( w, 1, 3, 30000 * k);
      sim.fault.close_fail = on_off( w, 1, 4, 30000 * k);
      sim.fault.read_short = on_off( w, 1, 3, 100000);
      sim.fault.write_short = on_off( w, 1, 3, 200000);
      sim.fault.stdout_faults = true;
      sim.fault.budget = 1 + (int)w.choose( 2);
      if( w.chance( 1, 4)) sim.fs.quota = (long)w.choose( 3000);
      }
   if( w.chance( 1, 4)) { sim.fault.kill = 5000; sim.fault.kill_budget = 1; }
   int rounds = 1 + (int)w.choose( 3), slot = 0, pid0 = sim.next_pid;
   int big = w.chance( 1, 60) ? 400 + (int)w.choose( 300) : 0;
   sim.sample = strf( "service faults %u/1e6, %d rounds%s", svc.fault_ppm, rounds, big ? ", large file" : "");
   for( int r = 0; r < rounds; r++)
      {
      if( w.chance( 1, 3)) sim.next_pid = pid0;
      int n = big ? 1 : 1 + (int)w.choose( 3);
      struct Job { Proc *p; File f; std::string out; bool delta = false; };
      std::vector<Job> jobs;
      for( int k = 0; k < n; k++)
         {
         Job j;
         j.f = make_file( w, big);
         std::string in = strf( "in%d_%d.txt", r, k);
         sim.fs.put( "/work/" + in, j.f.text);
         std::vector<std::string> args = { "add_off", in };
         if( w.chance( 2, 3)) { j.out = strf( "/work/out%d_%d.txt", r, k); args.push_back( strf( "out%d_%d.txt", r, k)); }
         if( w.chance( 1, 3)) { j.delta = true; args.push_back( "-d"); }
         if( w.chance( 1, 6)) { args.push_back( w.chance( 1, 2) ? "-v" : "-v2"); }
         Module *m = get_module( "add_off", slot);
         m->restore( );
         j.p = sim.spawn( strf( "add_off#%d", slot++), m, program( m, args));
         jobs.push_back( j);
         sim.sample += strf( "; %s %zu items%s", j.f.ades ? "ADES" : "80-column", j.f.items.size( ), j.out.empty( ) ? " to stdout" : "");
         }
      sim.run( );
      for( auto &j : jobs)
         {
         if( j.p->end == END_KILLED) { sim.count( "probe.killed"); continue; }
         if( j.p->end != END_EXIT) { sim.violate( "crash", j.p->describe( )); continue; }
         if( j.p->mem_error) sim.violate( "memory", j.p->mem_note);
         if( j.p->code)
            {
            if( !j.p->n_hard_faults) sim.violate( "failed-without-cause", j.p->describe( ) + " " + j.p->err.substr( 0, 200));
            else sim.count( "probe.reported_failure");
            continue;
            }
         int n_set, n_fail;
         std::string text = j.out.empty( ) ? after_messages( j.f, j.p->out) : sim.fs.get( j.out);
         const Told &td = svc.told[j.p];
         std::string e = check_output( j.f, text, td, !j.p->n_hard_faults, &n_set, &n_fail, j.delta);
         if( !e.empty( )) { sim.violate( "wrong-output", j.p->name + ": " + e); continue; }
         sim.count( "probe.positions_added", n_set);
         sim.count( "probe.positions_unavailable", n_fail);
         if( td.n_requests > 1) sim.count( "probe.several_requests");
         std::string sum = strf( "%d positions set by add_off; %d failed", n_set, n_fail);
         if( (!j.f.ades || !j.out.empty( )) && (j.out.empty( ) ? text : j.p->out).find( sum) == std::string::npos)
            sim.violate( "wrong-summary", j.p->name + ": expected '" + sum + "' in " + (j.out.empty( ) ? text : j.p->out).substr( 0, 300));
         }
      }
   if( sim.step_limit_hit) sim.violate( "no-progress", "still running after the step limit");
   sim.nontrivial = true;
}

/* P14:  the on-line version,  several requests at once */
SCENARIO( P14, online, 1)
{
   Tape &w = sim.w;
   sim.stdio_buf = pick( w, { 4096, 1024, 200 });
   sim.switch_num = pick( w, { 2, 10, 40, 80 });
   Service svc;
   svc.fault_ppm = on_off( w, 1, 3, pick( w, { 200000, 600000 }));
   sim.on_system = [&]( Proc *p, const char *cmd) { return svc.serve( sim, p, cmd); };
   if( w.chance( 1, 3)) { sim.fault.kill = 8000; sim.fault.kill_budget = 2; }
   sim.fault.read_short = on_off( w, 1, 3, 200000);
   sim.fault.write_short = on_off( w, 1, 3, 200000);
   if( w.chance( 1, 3))
      {
      sim.fault.read_eio = on_off( w, 1, 3, 30000);
      sim.fault.write_fail = on_off( w, 1, 3, 60000);
      sim.fault.alloc_fail = on_off( w, 1, 3, 60000);
      sim.fault.open_fail = on_off( w, 1, 3, 60000);
      sim.fault.close_fail = on_off( w, 1, 4, 60000);
      sim.fault.budget = 1 + (int)w.choose( 2);
      if( w.chance( 1, 4)) sim.fs.quota = (long)w.choose( 3000);
      }
   int rounds = 1 + (int)w.choose( 3), slot = 0, pid0 = sim.next_pid;
   const std::string bnd = "------------------------d74496d66958873e";
   for( int r = 0; r < rounds; r++)
      {
      if( w.chance( 1, 3)) sim.next_pid = pid0;
      int n = 1 + (int)w.choose( 4);
      struct Job { Proc *p; File f; bool none; };
      std::vector<Job> jobs;
      for( int k = 0; k < n; k++)
         {
         Job j;
         j.f = make_file( w, 0);
         j.none = w.chance( 1, 6);
         std::string body;
         auto field = [&]( const char *name, const std::string &v) { body += "--" + bnd + "\r\nContent-Disposition: form-data; name=\"" + name + "\"\r\n\r\n" + v + "\r\n"; };
         bool area = w.chance( 1, 2);
         std::string sent[2], eol = w.chance( 2, 3) ? "\n" : w.chance( 1, 2) ? "\r" : "\r\n";      /* lines may end as on a Mac,  or as browsers do it */
         size_t cut = std::string::npos;
         if( w.chance( 1, 5)) for( auto &i : j.f.items)            /* part of it in each field */
            {
            size_t here = cut == std::string::npos ? 0 : cut;
            here += i.before.size( ) + i.line.size( ) + i.old.size( );
            cut = here;
            if( here > 90 && w.chance( 1, 3)) break;
            }
         if( cut != std::string::npos && ( j.f.text.size( ) < cut + 90 || j.f.ades)) cut = std::string::npos;
         if( cut != std::string::npos) sim.count( "probe.two_fields");
         for( size_t i = 0; i < j.f.text.size( ); i++)
            {
            std::string &d = sent[cut != std::string::npos ? i >= cut : !area];
            if( j.f.text[i] == '\n') d += eol; else d += j.f.text[i];
            }
         if( j.none) sent[0].clear( ), sent[1].clear( );
         field( "TextArea", sent[0]);
         field( "upfile", sent[1]);
         body += "--" + bnd + "--\r\n";
         Module *m = get_module( "add_off_cgi", slot);
         m->restore( );
         j.p = sim.spawn( strf( "request#%d", slot++), m, program( m, { "add_off.cgi" }));
         j.p->in = body;
         j.p->env["CONTENT_TYPE"] = "multipart/form-data; boundary=" + bnd;
         j.p->env["CONTENT_LENGTH"] = strf( "%zu", body.size( ));
         jobs.push_back( j);
         sim.sample += strf( "; %s %zu items", j.none ? "no observations" : j.f.ades ? "ADES" : "80-column", j.f.items.size( ));
         }
      sim.run( );
      for( auto &j : jobs)
         {
         if( j.p->end == END_KILLED) { sim.count( "probe.request_killed"); continue; }
         if( !j.p->clean( )) { sim.violate( "request-failed", j.p->describe( ) + " " + j.p->err.substr( 0, 200)); continue; }
         std::string o;
         for( char c : j.p->out) if( c != '\r') o += c;
         size_t e = o.rfind( "</pre> </body> </html>");
         if( e == std::string::npos && (o.find( "Server is busy") != std::string::npos || o.find( "CGI data reading failed") != std::string::npos) && j.p->n_hard_faults) { sim.count( "probe.failure_told"); continue; }
         if( e == std::string::npos) { sim.violate( "incomplete-page", j.p->name); continue; }
         if( j.none || (!j.f.ades && j.f.text.size( ) < 72))
            {
            if( o.find( "K20K") != std::string::npos || o.find( "<obsTime>") != std::string::npos || o.find( "positions set") != std::string::npos)
               sim.violate( "foreign-observations", j.p->name + " sent no observations but got some: " + o.substr( 0, 300));
            continue;
            }
         bool told = false;
         for( auto s : { "Server is busy", "CGI data reading failed", "Couldn't store the observations", "Couldn't read all of your request", "Couldn't process the observations", "Out of memory" })
            if( o.find( s) != std::string::npos) told = true;
         if( told)
            {
            if( !j.p->n_hard_faults) sim.violate( "failed-without-cause", j.p->name + ": " + o.substr( 0, 300));
            else sim.count( "probe.failure_told");
            continue;
            }
         int n_set, n_fail;
         std::string text = after_messages( j.f, o.substr( 0, e));
         while( text.size( ) > 1 && text[text.size( ) - 1] == '\n' && text[text.size( ) - 2] == '\n') text.pop_back( );
         /* the page may end the observations with an empty line */
         std::vector<std::string> l = split_lines( text);
         text.clear( );
         for( auto &x : l) if( !x.empty( )) text += x + "\n";
         std::string err = check_output( j.f, text, svc.told[j.p], !j.p->n_hard_faults, &n_set, &n_fail);
         if( !err.empty( )) sim.violate( "wrong-page", j.p->name + ": " + err);
         std::string sum = strf( "%d positions set by add_off; %d failed", n_set, n_fail);
         if( !j.f.ades && o.find( sum) == std::string::npos) sim.violate( "wrong-summary", j.p->name + ": expected '" + sum + "' in " + o.substr( 0, 300));
         }
      }
   if( sim.step_limit_hit) sim.violate( "no-progress", "still running after the step limit");
   sim.nontrivial = true;
}
