/* P24:  lists of observatories, roving-observer conversion, asteroid ephemerides, designation pages */
#include "util.h"
#include <math.h>
#include <time.h>
#include <array>
#include <set>

namespace {
const double MAJOR = 6378137., MINOR = 6356752.314140347, D = M_PI / 180.;
void forward( double lat, double alt, double *rc, double *rs)
{
   double u = atan( sin( lat) * MINOR / (cos( lat) * MAJOR));
   *rc = cos( u) + alt / MAJOR * cos( lat);
   *rs = MINOR / MAJOR * sin( u) + alt / MAJOR * sin( lat);
}
void faults( Sim &s)
{
   Tape &w = s.w;
   s.fault.read_short = on_off( w, 1, 2, 200000);
   s.fault.write_short = on_off( w, 1, 3, 200000);
   if( !w.chance( 1, 2)) return;
   s.fault.read_eio = on_off( w, 1, 2, 60000);
   s.fault.open_fail = on_off( w, 1, 3, 60000);
   s.fault.alloc_fail = on_off( w, 1, 3, 60000);
   s.fault.write_fail = on_off( w, 1, 3, 60000);
   s.fault.stdout_faults = s.fault.write_fail != 0;
   s.fault.budget = 1 + (int)w.choose( 2);
}
Proc *start( Sim &s, const std::string &prog, int slot, std::vector<std::string> args)
{
   Module *m = get_module( prog, slot);
   m->restore( );
   return s.spawn( strf( "%s#%d", prog.c_str( ), slot), m, program( m, args));
}
/* how it ended;  true if its output is to be looked at */
bool look_at( Sim &sim, Proc *p, bool must_fail, const std::string &why)
{
   if( p->mem_error) { sim.violate( "memory", p->mem_note); return false; }
   if( p->end != END_EXIT) { sim.violate( "crash", p->name + ": " + p->describe( ) + " " + p->err.substr( 0, 200)); return false; }
   if( p->code)
      {
      if( !must_fail && !p->n_hard_faults) sim.violate( "failed-without-cause", p->name + ": " + p->describe( ) + " " + (p->out + p->err).substr( 0, 300));
      else sim.count( "probe.reported_failure");
      return false;
      }
   if( must_fail) { sim.violate( "failure-not-told", p->name + " reported success although " + why); return false; }
   sim.count( p->n_hard_faults ? "probe.success_despite_fault" : "probe.success");
   return true;
}

/* ---- lists of observatories */
struct Rec
{
   std::string line, code, name;
   enum { OTHER, PARALLAX, LAT_LON, SPACE } kind = OTHER;
   int planet = 3, p1 = 0, p2 = 0;
   double lon = 0., lat = 0., alt = 0., rc = 0., rs = 0.;
   bool geo = false;                      /* centre of a planet */
};
Rec rnd_rec( Tape &w, int k)
{
   Rec r;
   static const char *names[] = { "Mt. Somewhere", "Smith & Sons, Ohio", "A very long name of a station which does not end where most do", "x", "P & Q & R", "50% Peak", "Site (old)", "Obs. \"Alpha\"" };
   r.name = names[w.choose( 8)] + strf( " %d", k);
   r.code = strf( "%c%02d", "RXQA7Z"[w.choose( 6)], (int)w.choose( 100));
   double lat = (-85. + w.choose( 170001) / 1000.) * D, alt = (double)w.choose( 4000) - 100.;
   r.lon = w.choose( 360000) / 1000.;
   if( w.chance( 1, 20)) r.lon = w.chance( 2, 3) ? 0. : 180.;
   u32 kind = w.choose( 14);
   if( kind < 6)                             /* as in the MPC's list */
      {
      static const int dig[][2] = { { 5, 6 }, { 4, 5 }, { 3, 4 }, { 5, 5 }, { 2, 4 } };
      int d = (int)w.choose( 5), q = (int)pick( w, { 0, 0, 0, 1 });
      r.kind = Rec::PARALLAX;
      forward( lat, alt, &r.rc, &r.rs);
      r.p1 = dig[d][0]; r.p2 = dig[d][1];
      if( q) { r.lon = r.rc = r.rs = 0.; r.geo = true; }
      std::string a = strf( "%9.*f", r.p1, r.lon), b = strf( "%.*f", r.p2, r.rc), c = strf( "%+.*f", r.p2, r.rs);
      a = strf( "%*.*f", 4 + r.p1, r.p1, r.lon); a.resize( 9, ' ');
      b.resize( 8, ' '); c.resize( 9, ' ');
      r.line = strf( "%-4s", r.code.c_str( )) + a + b + c + r.name;
      r.lon = atof( a.c_str( )); r.rc = atof( b.c_str( )); r.rs = atof( c.c_str( ));
      if( r.lon >= 360.) r.lon = 359.5, r.line.replace( 4, 9, strf( "%*.*f", 4 + r.p1, r.p1, r.lon) + std::string( 5 - r.p1, ' '));
      }
   else if( kind < 10)                       /* longitude, latitude, altitude */
      {
      r.kind = Rec::LAT_LON;
      if( w.chance( 1, 4)) r.code += "ABz1"[w.choose( 4)];
      double l = r.lon > 180. && w.chance( 2, 3) ? r.lon - 360. : r.lon;
      r.lat = lat / D; r.alt = alt;
      if( kind == 9)
         {
         int ld = 1 + (int)w.choose( 179), lm = (int)w.choose( 60), ls = (int)w.choose( 600), bd = (int)w.choose( 85), bm = (int)w.choose( 60), bs = (int)w.choose( 600);
         if( w.chance( 1, 6)) { bd = 0; bm = (int)w.choose( 2); }          /* next to the equator */
         else if( w.chance( 1, 8)) { ld = 0; lm = (int)w.choose( 4); if( bd == 0) bd = 1; }
         double sl = w.chance( 1, 2) ? -1. : 1., sb = w.chance( 1, 2) ? -1. : 1.;
         r.line = strf( "%-4s!%+15.1f %+14.1f %9.3f   ", r.code.c_str( ), sl * (ld * 10000. + lm * 100. + ls / 10.), sb * (bd * 10000. + bm * 100. + bs / 10.), alt);
         r.lon = sl * (ld + lm / 60. + ls / 36000.);
         r.lat = sb * (bd + bm / 60. + bs / 36000.);
         if( r.lon < 0.) r.lon += 360.;
         }
      else
         {
         r.line = strf( "%-4s!%+15.9f %+14.9f %9.3f   ", r.code.c_str( ), l, r.lat, alt);
         if( kind == 8 && w.chance( 1, 2)) { r.planet = (int)pick( w, { 9000, 4, 10, 9012, 9050 }); r.name += strf( " @%d", r.planet); if( r.planet == 9000) r.planet = 3, r.name.resize( r.name.size( ) - 6); }
         if( r.planet > 9000) { r.lon = r.lat = r.alt = 0.; r.geo = true; }
         }
      if( r.planet == 3) forward( r.lat * D, alt, &r.rc, &r.rs);
      r.line.resize( 47, ' ');
      r.line += r.name;
      }
   else if( kind == 10)
      {
      r.kind = Rec::SPACE; r.planet = -2; r.lon = 0.; r.geo = true;
      r.line = strf( "%-4s", r.code.c_str( )); r.line.resize( 30, ' ');
      r.line = r.code + std::string( 27, ' ') + r.name;
      }
   else if( kind == 11)                      /* a temporary code */
      {
      r.kind = Rec::LAT_LON; r.code = "XXX"; r.name = "Temporary MPC code";
      int ld = (int)w.choose( 180), lm = (int)w.choose( 60), ls = (int)w.choose( 60), bd = (int)w.choose( 85), bm = (int)w.choose( 60), bs = (int)w.choose( 60);
      bool west = w.chance( 1, 2), south = w.chance( 1, 2);
      r.alt = (double)w.choose( 3000);
      r.line = strf( "COM Long. %d %02d %02d %c, Lat. %d %02d %02d %c, Alt. %.0fm, Google Earth", ld, lm, ls, west ? 'W' : 'E', bd, bm, bs, south ? 'S' : 'N', r.alt);
      r.lon = ld + lm / 60. + ls / 3600.; if( west && r.lon) r.lon = 360. - r.lon;
      r.lat = (bd + bm / 60. + bs / 3600.) * (south ? -1. : 1.);
      forward( r.lat * D, r.alt, &r.rc, &r.rs);
      r.geo = r.lon == 0. && r.lat == 0.;
      }
   else
      {
      static const char *other[] = { "# a comment", "Code  Long.   cos      sin    Name", "<pre>", "", "  " , "COD 703", "Some text without any numbers in it, quite long" };
      r.line = other[w.choose( 7)];
      }
   if( r.kind == Rec::LAT_LON && r.lat == 0. && r.lon == 0.) r.geo = true;
   return r;
}
struct Region { double lon1, lat1, lon2, lat2; std::string name; };
double wrap180( double x) { x = fmod( x, 360.); return x > 180. ? x - 360. : x < -180. ? x + 360. : x; }
/* the first region around a place;  '*unsure' if its edge is too near to tell */
std::string region_of( const std::vector<Region> &v, double lon, double lat, bool *unsure)
{
   for( auto &r : v)
      {
      double a = wrap180( r.lon1 - lon), b = a + wrap180( r.lon2 - r.lon1);
      double la = std::min( r.lat1, r.lat2), lb = std::max( r.lat1, r.lat2);
      double m = 2e-3;
      if( fabs( a) > 179.9 || fabs( b) > 179.9) { if( lat > la - m && lat < lb + m) *unsure = true; }
      bool in_lon = a * b < 0., near_lon = fabs( a) < m || fabs( b) < m;
      bool in_lat = lat > la && lat < lb, near_lat = fabs( lat - la) < m || fabs( lat - lb) < m;
      if( (near_lon || in_lon) && (near_lat || in_lat) && (near_lon || near_lat)) *unsure = true;
      if( in_lon && in_lat) return r.name;
      }
   return "";
}
std::string amp( const std::string &s)
{
   std::string r;
   for( char c : s) r += c == '&' ? std::string( "&amp;") : std::string( 1, c);
   return r;
}
}  // namespace

SCENARIO( P24, stations, 3)
{
   Tape &w = sim.w;
   sim.stdio_buf = pick( w, { 4096, 1024, 64, 16384 });
   std::vector<Rec> recs;
   for( int n = 1 + (int)w.choose( w.chance( 1, 8) ? 60 : 14), k = 0; k < n; k++) recs.push_back( rnd_rec( w, k));
   const std::string eol = w.chance( 1, 4) ? "\r\n" : "\n";
   std::string text;
   for( auto &r : recs) text += r.line + eol;
   const bool no_eol = w.chance( 1, 4);
   if( no_eol) text.resize( text.size( ) - eol.size( ));
   std::vector<Region> regions;
   if( w.chance( 2, 3))
      {
      std::string t = w.chance( 1, 2) ? "# longitude, latitude ranges\n" : "";
      for( int k = 0, nr = (int)w.choose( 8); k < nr; k++)
         {
         Region r;
         r.lon1 = -180. + w.choose( 3600) / 10. + .0304; r.lon2 = r.lon1 + w.choose( 1700) / 10. + .1; if( r.lon2 > 180. && w.chance( 1, 2)) r.lon2 -= 360.;
         switch( w.choose( 6)) { case 0: if( r.lon1 < 0.) r.lon1 += 360.; break; case 1: r.lon2 += 360.; break; case 2: r.lon1 -= 360.; break; default: break; }
         r.lat1 = -90. + w.choose( 1200) / 10. + .0304; r.lat2 = r.lat1 + w.choose( 600) / 10. + .1;
         if( w.chance( 1, 4)) std::swap( r.lat1, r.lat2);
         r.name = (w.chance( 1, 4) ? "Region of the long name " : "Region ") + strf( "%c%d", 'A' + k, (int)w.choose( 100));
         t += strf( "%-10.4f%-10.4f%-10.4f%-10.4f", r.lon1, r.lat1, r.lon2, r.lat2) + r.name + eol;
         if( w.chance( 1, 6)) t += "# more" + eol;
         regions.push_back( r);
         }
      sim.fs.put( "/work/geo_rect.txt", t);
      }
   const std::string file = pick( w, { 0, 1 }) ? "ObsCodes.htm" : w.chance( 1, 2) ? "rovers.txt" : "ObsCodes.html";
   bool missing = w.chance( 1, 15), v = w.chance( 1, 3), g = false, no_hdr = false, kml = false;
   u32 mode = w.choose( 4);
   if( !missing) sim.fs.put( "/work/" + file, text);
   std::vector<std::string> args = { "mpc_code" };
   if( file != "ObsCodes.htm" && (file != "ObsCodes.html" || w.chance( 1, 2))) args.push_back( file);
   if( v) args.push_back( "-v");
   std::vector<std::string> hdr;                  /* lines shown at the head;  '%s' is the time */
   if( mode == 1)
      {
      g = true;
      args.push_back( "-g");
      std::string h = "<html>\n<body>\nMade at %s from the lists\n# a remark\n";
      hdr = { "<html>", "<body>", "Made at %s from the lists" };
      if( w.chance( 1, 2))
         {
         h += "# 'rovers' n\nnot for rovers\n# 'rovers' y\nfor all\n";
         hdr.clear( );
         h = "<html>\nMade at %s from the lists\n# a remark\n<p> 100 lines\n<pre>\n";
         hdr = { "<html>", "Made at %s from the lists", "<p> 100 lines" , "<pre>" };
         }
      no_hdr = w.chance( 1, 12);
      if( !no_hdr) sim.fs.put( "/work/mpc_hdr.htm", h);
      }
   if( mode == 2) { kml = true; args.push_back( "-k"); }
   faults( sim);
   sim.sample = strf( "%zu records, %zu regions%s%s%s%s", recs.size( ), regions.size( ), g ? ", links" : "", kml ? ", KML" : "", v ? ", remarks" : "", missing ? ", no file" : "");
   long t0 = (long)( (sim.wall0_us + sim.now_us) / 1000000);
   Proc *p = start( sim, "mpc_code", 1, args);
   sim.run( );
   long t1 = (long)( (sim.wall0_us + sim.now_us) / 1000000);
   sim.nontrivial = recs.size( ) > 1;
   if( !look_at( sim, p, missing || no_hdr, (missing ? file : "mpc_hdr.htm") + std::string( " is missing"))) return;
   std::vector<std::string> l = split_lines( p->out);
   for( auto &x : l) if( !x.empty( ) && x.back( ) == '\r') x.pop_back( );
   size_t at = 0;
   auto next = [&]( ) { return at < l.size( ) ? l[at++] : std::string( "(nothing)"); };
   auto expect = [&]( const std::string &want) {
      std::string got = next( );
      if( got != want) sim.violate( "wrong-line", strf( "line %zu is '", at) + got + "', should be '" + want + "'");
      return got == want;
      };
   for( auto &h : hdr)
      if( h.find( "%s") == std::string::npos) { if( !expect( h)) return; }
      else
         {
         std::string a = next( );
         bool ok = false;
         for( time_t t = t0; t <= t1; t++)
            {
            std::string c = ctime( &t);
            c.pop_back( );
            if( a == h.substr( 0, h.find( "%s")) + c) ok = true;
            }
         if( !ok) { sim.violate( "wrong-time", a); return; }
         if( !expect( h.substr( h.find( "%s") + 2))) return;
         }
   const std::string head = std::string( "Pl Code Longitude  Latitude     Altitude rho_cos   rho_sin_phi  region").substr( g ? 3 : 0);
   if( !kml) { if( !expect( head)) return; }
   else
      for( const char *k : { "<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "<kml xmlns=\"http://www.opengis.net/kml/2.2\">", "<Folder>",
               "      <name> MPC sites </name>", "      <description> MPC observatory sites </description>" })
         if( !expect( k)) return;
   int n_shown = 0;
   for( size_t k = 0; k < recs.size( ); k++)
      {
      const Rec &r = recs[k];
      if( r.kind == Rec::OTHER)
         {
         const bool glued = no_eol && k + 1 == recs.size( );   /* what follows comes on the same line */
         if( !v || (glued && r.line.empty( ))) continue;
         if( !expect( r.line + (glued ? (kml ? "</Folder>" : head) : ""))) return;
         if( glued) l[--at] = kml ? "</Folder>" : head;
         continue;
         }
      const bool link = g && r.planet == 3 && !r.geo;
      if( kml)
         {
         if( r.planet != 3 || r.geo) continue;
         if( !expect( " <Placemark>") || !expect( "    <name>" + r.code + "</name>") || !expect( "    <description>" + amp( r.name) + "</description>") || !expect( "    <Point>")) return;
         std::string c = next( );
         double lo, la;
         if( sscanf( c.c_str( ), "        <coordinates>%lf,%lf</coordinates>", &lo, &la) != 2 || fabs( wrap180( lo - r.lon)) > 1e-6 || lo > 180. || lo < -180.) { sim.violate( "wrong-place", c + strf( ": longitude should be %.6f", wrap180( r.lon))); return; }
         if( r.kind == Rec::LAT_LON ? fabs( la - r.lat) > 1e-6 : [&]( ) { double a, b; forward( la * D, 0., &a, &b); return fabs( atan2( b, a) - atan2( r.rs, r.rc)) > 1e-4 * (r.p2 < 5 ? 10. : 1.); }( ))
            { sim.violate( "wrong-place", c + ": latitude of " + r.line); return; }
         if( !expect( "    </Point>") || !expect( " </Placemark>") || !expect( "")) return;
         continue;
         }
      std::string got = next( ), full = got;
      if( g)
         {
         std::string a = strf( "<a name=\"L%04d\"></a>", n_shown);
         if( got.compare( 0, a.size( ), a)) { sim.violate( "wrong-anchor", got); return; }
         got.erase( 0, a.size( ));
         }
      n_shown++;
      double q[2];
      if( link)
         {
         std::string a = "<a name=\"" + r.code + "\"></a><a href=\"http://maps.google.com/maps?q=";
         size_t e1 = got.find( "\">", a.size( ));
         double la, lo;
         if( got.compare( 0, a.size( ), a) || e1 == std::string::npos || sscanf( got.c_str( ) + a.size( ), "%lf,%lf", &la, &lo) != 2) { sim.violate( "wrong-link", full); return; }
         got.erase( 0, e1 + 2);
         size_t b0 = got.find( "</a> <a href='https://www.bing.com/maps/?cp="), b1 = got.find( "&amp;lvl=20&amp;style=a'>");
         double la2, lo2;
         if( b0 != 27 || b1 == std::string::npos || sscanf( got.c_str( ) + b0 + 44, "%lf~%lf", &la2, &lo2) != 2) { sim.violate( "wrong-link", full); return; }
         if( fabs( la - la2) > 6e-7 || fabs( lo - lo2) > 6e-7 || fabs( wrap180( lo - r.lon)) > 1e-6 || lo > 180.) { sim.violate( "wrong-link", full + strf( ": longitude %f", r.lon)); return; }
         q[0] = la; q[1] = lo;
         got = got.substr( 0, 27) + " " + got.substr( b1 + 25);
         if( got.size( ) < 4 || got.compare( got.size( ) - 4, 4, "</a>")) { sim.violate( "wrong-link", full); return; }
         got.resize( got.size( ) - 4);
         }
      if( g) got = (r.planet > 99 ? "-- " : strf( "%2d ", r.planet)) + got;
      if( got.size( ) < 79) { sim.violate( "short-line", full); return; }
      double lat = atof( got.substr( 19, 10).c_str( )), alt = atof( got.substr( 30, 10).c_str( ));
      double rc = atof( got.substr( 41, 9).c_str( )), rs = atof( got.substr( 51, 10).c_str( )), a, b;
      if( link && (fabs( q[0] - lat) > 1.1e-6)) { sim.violate( "wrong-link", full + ": latitude"); return; }
      forward( lat * D, alt, &a, &b);
      if( r.kind == Rec::LAT_LON)
         {
         if( fabs( lat - r.lat) > 6e-7 + 1e-9 || fabs( alt - r.alt) > 6e-4) { sim.violate( "wrong-place", full + strf( ": should be %.6f %.3f", r.lat, r.alt)); return; }
         if( r.planet == 3 && !r.geo && (fabs( rc - r.rc) > 1e-7 || fabs( rs - r.rs) > 1e-7)) { sim.violate( "wrong-place", full + strf( ": parallax constants should be %.7f %.7f", r.rc, r.rs)); return; }
         if( r.planet != 3 && !r.geo)          /* not on Earth:  the direction is right within the flattening */
            if( fabs( atan2( rs, rc) / D - r.lat) > 3.5) { sim.violate( "wrong-place", full + ": direction"); return; }
         }
      else if( !r.geo && (fabs( a - r.rc) > 2e-8 || fabs( b - r.rs) > 2e-8)) { sim.violate( "wrong-place", full + strf( ": latitude and altitude give %.8f %.8f, listed %.6f %.6f", a, b, r.rc, r.rs)); return; }
      else if( r.geo && (lat || alt)) { sim.violate( "wrong-place", full); return; }
      /* the line as it should be,  with the numbers just checked */
      bool unsure = false;
      std::string reg = r.planet == 3 ? region_of( regions, r.lon, lat, &unsure) : strf( "@%d", r.planet);
      std::string shown_reg = got.substr( 62, 15);
      reg.resize( 15, ' ');
      if( unsure || (p->n_hard_faults && r.planet == 3 && shown_reg == std::string( 15, ' '))) reg = shown_reg;
      std::string slon = strf( "%10.6f", r.lon), src = strf( "%9.7f", rc), srs = strf( "%+10.7f", rs);
      if( r.kind == Rec::PARALLAX)
         {
         slon.resize( 4 + r.p1); slon.resize( 10, ' ');
         src = strf( "%.*f", r.p2, r.rc); src.resize( 9, ' ');
         srs = strf( "%+.*f", r.p2, r.rs); srs.resize( 10, ' ');
         }
      else if( fabs( atof( got.substr( 8, 10).c_str( )) - r.lon) < 1.01e-6) slon = got.substr( 8, 10);
      std::string want = (r.planet > 99 ? std::string( "--") : strf( "%2d", r.planet)) + strf( " %-4s ", r.code.c_str( )) + slon + got.substr( 18, 23) + src + " " + srs + " " + reg + " ";
      if( got[18] != ' ' || got[29] != ' ' || got[40] != ' ') { sim.violate( "wrong-line", full); return; }
      want += " " + (link ? amp( r.name) : r.name);
      if( got != want) { sim.violate( "wrong-line", "'" + got + "', should be '" + want + "'"); return; }
      }
   if( kml) { if( !expect( "</Folder>") || !expect( "</kml>")) return; }
   else if( !expect( head)) return;
   if( g && !expect( "</pre></body></html>")) return;
   if( at != l.size( )) sim.violate( "more-lines", strf( "%zu lines too many, first '", l.size( ) - at) + l[at] + "'");
}

/* ---- observations from temporary codes to roving observers */
SCENARIO( P24, roving, 1)
{
   Tape &w = sim.w;
   sim.stdio_buf = pick( w, { 4096, 1024, 64, 16384 });
   const std::string eol = w.chance( 1, 4) ? "\r\n" : "\n";
   std::string text, want;
   bool have = false, bad = false;
   double lon = 0., lat = 0., alt = 0.;
   std::string why;
   int n_obs = 0;
   for( int k = 0, n = 1 + (int)w.choose( 14); k < n; k++)
      {
      u32 c = w.choose( 12);
      if( !k && !w.chance( 1, 10)) c = 0;
      std::string l;
      bool last_open = k + 1 == n && w.chance( 1, 4);
      const std::string e = last_open ? "" : eol;
      if( c < 2)
         {
         int ld = (int)w.choose( 180), lm = (int)w.choose( 60), ls = (int)w.choose( 60), bd = (int)w.choose( 85), bm = (int)w.choose( 60), bs = (int)w.choose( 60);
         bool west = w.chance( 1, 2), south = w.chance( 1, 2);
         alt = (double)w.choose( 5000);
         l = strf( "COM Long. %d %02d %02d %c, Lat. %d %02d %02d %c, Alt. %.0fm, Google Earth", ld, lm, ls, west ? 'W' : 'E', bd, bm, bs, south ? 'S' : 'N', alt);
         lon = ld + lm / 60. + ls / 3600.; if( west && lon) lon = 360. - lon;
         lat = (bd + bm / 60. + bs / 3600.) * (south ? -1. : 1.);
         have = true;
         if( !bad && w.chance( 1, 25))
            {
            l = w.chance( 1, 2) ? l.substr( 0, l.find( "Alt.")) : "COM Long. somewhere, Lat. north, Alt. high";
            bad = true; why = "a line with a place is malformed";
            }
         if( !bad) want += l + e;
         }
      else if( c == 2) { l = "COD XXX"; if( !bad) want += "COD 247" + e; }
      else if( c < 5)
         {
         static const char *t[] = { "OBS A. Observer", "TEL 0.5-m f/4 reflector + CCD", "COM XXX is used here", "", "COD 703" };
         l = t[w.choose( 5)];
         if( !bad) want += l + e;
         }
      else
         {
         bool x = c > 6;
         l = strf( "     K%02dA%02d%c  C20%02d %02d %02d.%05d %02d %02d %05.2f %c%02d %02d %04.1f          %4.1f V      %s", (int)w.choose( 24), (int)w.choose( 100), 'A' + (int)w.choose( 25), (int)w.choose( 25), 1 + (int)w.choose( 12), 1 + (int)w.choose( 28),
               (int)w.choose( 100000), (int)w.choose( 24), (int)w.choose( 60), w.choose( 6000) / 100., w.chance( 1, 2) ? '-' : '+', (int)w.choose( 90), (int)w.choose( 60), w.choose( 600) / 10., 15. + w.choose( 80) / 10., x ? "XXX" : "703");
         if( l.size( ) != 80) l.resize( 80, 'X');
         n_obs++;
         if( bad) ;
         else if( !x) want += l + e;
         else if( !have) { bad = true; why = "an observation has no place before it"; }
         else
            {
            std::string a = l;
            a.replace( 77, 3, "247"); a[14] = 'V';
            want += a + (e.empty( ) ? eol : e);
            a[14] = 'v';
            a.replace( 32, 29, strf( "1 %9.5f  %+9.5f   %4.0f", lon, lat, alt));
            a[61] = ' ';
            want += a + e;
            }
         }
      text += l + e;
      }
   sim.fs.put( "/work/obs.txt", text);
   faults( sim);
   sim.sample = strf( "%d observations%s", n_obs, bad ? (", " + why).c_str( ) : "");
   Proc *p = start( sim, "xxx2rov", 1, { "xxx2rov", "obs.txt" });
   sim.run( );
   sim.nontrivial = n_obs > 0;
   if( p->end == END_SIGNAL && p->n_hard_faults && p->describe( ).find( "assert( ifile)") != std::string::npos) { sim.count( "probe.reported_failure"); return; }
   if( !look_at( sim, p, bad, why)) return;
   std::vector<std::string> g = split_lines( p->out), e = split_lines( want);
   for( auto v : { &g, &e}) for( auto &x : *v) if( !x.empty( ) && x.back( ) == '\r') x.pop_back( );
   for( size_t i = 0; i < std::max( g.size( ), e.size( )); i++)
      {
      std::string a = i < g.size( ) ? g[i] : "(nothing)", b = i < e.size( ) ? e[i] : "(nothing)";
      if( a == b) continue;
      /* the last digit of the place */
      if( a.size( ) == b.size( ) && a.size( ) == 80 && a[14] == 'v' && a.substr( 0, 34) == b.substr( 0, 34) && a.substr( 55) == b.substr( 55)
               && fabs( atof( a.c_str( ) + 34) - atof( b.c_str( ) + 34)) < 1.01e-5 && fabs( atof( a.c_str( ) + 45) - atof( b.c_str( ) + 45)) < 1.01e-5) continue;
      sim.violate( "wrong-line", strf( "line %zu is '", i + 1) + a + "', should be '" + b + "'");
      return;
      }
}

/* ---- asteroid ephemerides */
namespace {
struct Ast { long number; std::string name; double H, G, M, om, Om, i, e, a; int y, m, d; };
double jdn( int y, int m, int d)
{
   long a = (14 - m) / 12, yy = y + 4800 - a, mm = m + 12 * a - 3;
   return d + (153 * mm + 2) / 5 + 365. * yy + yy / 4 - yy / 100 + yy / 400 - 32045.;
}
void date_of( long jd, int *d, int *m, long *y)
{
   long l = jd + 68569, n = 4 * l / 146097;
   l -= (146097 * n + 3) / 4;
   long i = 4000 * (l + 1) / 1461001;
   l = l - 1461 * i / 4 + 31;
   long j = 80 * l / 2447;
   *d = (int)(l - 2447 * j / 80);
   l = j / 11;
   *m = (int)(j + 2 - 12 * l);
   *y = 100 * (n - 49) + i + l;
}
struct Eph { double ra, dec, dist, r, mag, elong; };
Eph rough( const Ast &o, double jd)
{
   Eph x;
   const double a = o.a, n = .01720209895 / ( a * sqrt( a)), ep = jdn( o.y, o.m, o.d) - .5;
   double lam, beta, R;
   sun_j2000( jd, &lam, &beta, &R);
   double g[3], dist = 0., r = 0.;
   for( int it = 0; it < 4; it++)
      {
      double Ma = fmod( o.M * D + n * ( jd - dist / 173.1446 - ep), 2. * M_PI), E = Ma;
      for( int k = 0; k < 60; k++) E -= ( E - o.e * sin( E) - Ma) / ( 1. - o.e * cos( E));
      double xx = a * ( cos( E) - o.e), yy = a * sqrt( 1. - o.e * o.e) * sin( E);
      double co = cos( o.om * D), so = sin( o.om * D), cO = cos( o.Om * D), sO = sin( o.Om * D), ci = cos( o.i * D), si = sin( o.i * D);
      double u = xx * co - yy * so, v = xx * so + yy * co;
      g[0] = u * cO - v * ci * sO + R * cos( lam); g[1] = u * sO + v * ci * cO + R * sin( lam); g[2] = v * si - R * sin( beta);
      dist = sqrt( g[0] * g[0] + g[1] * g[1] + g[2] * g[2]);
      r = a * ( 1. - o.e * cos( E));
      }
   double ca = ( r * r + dist * dist - R * R) / ( 2. * r * dist), ta = tan( acos( ca > 1. ? 1. : ca) / 2.);
   x.mag = o.H + 5. * log10( r * dist) - 2.5 * log10( ( 1. - o.G) * exp( -3.33 * pow( ta, .63)) + o.G * exp( -1.87 * pow( ta, 1.22)));
   const double ob = 23.4392911 * D, Y = g[1] * cos( ob) - g[2] * sin( ob), Z = g[1] * sin( ob) + g[2] * cos( ob);
   x.ra = atan2( Y, g[0]) / D; if( x.ra < 0.) x.ra += 360.;
   x.dec = asin( Z / dist) / D;
   x.dist = dist; x.r = r;
   double ce = ( R * R + dist * dist - r * r) / ( 2. * R * dist);
   x.elong = acos( ce > 1. ? 1. : ce < -1. ? -1. : ce) / D;
   return x;
}
}
SCENARIO( P24, ephemeris, 2)
{
   Tape &w = sim.w;
   sim.stdio_buf = pick( w, { 4096, 1024, 64, 16384 });
   sim.wall0_us = ((u64)pick( w, { 946684800u, 1700000000u, 1400000000u, 1583020800u, 1900000000u }) + w.choose( 86400 * 30)) * 1000000ull;
   std::vector<Ast> v;
   std::string text;
   int n_num = (int)w.choose( 8), n_un = (int)w.choose( 9);
   if( n_num + n_un == 0) n_num = 1;
   std::set<std::string> names;
   for( int k = 0; k < n_un * 3 && (int)names.size( ) < n_un; k++) names.insert( strf( "%d %c%c%s", 1995 + (int)w.choose( 4), 'A' + (int)w.choose( 3), 'A' + (int)w.choose( 4), w.chance( 1, 2) ? "" : strf( "%d", 1 + (int)w.choose( 30)).c_str( )));
   auto it = names.begin( );
   for( int k = 0; k < n_num + (int)names.size( ); k++)
      {
      Ast o;
      o.number = k < n_num ? k + 1 : 0;
      o.name = k < n_num ? strf( "Name%c%d", 'A' + (int)w.choose( 26), k) : *it++;
      o.H = 5. + w.choose( 1500) / 100.; o.G = pick( w, { 15, 15, 25, 5 }) / 100.;
      o.M = w.choose( 360000000) / 1e+6; o.om = w.choose( 360000000) / 1e+6; o.Om = w.choose( 360000000) / 1e+6; o.i = w.choose( 25000000) / 1e+6; o.e = w.choose( 25000000) / 1e+8; o.a = 1.9 + w.choose( 200000000) / 1e+8;
      if( w.chance( 1, 6)) { o.i /= 200.; o.i = floor( o.i * 1e+6) / 1e+6; }
      o.y = 2000 + (int)w.choose( 24); o.m = 1 + (int)w.choose( 12); o.d = 1 + (int)w.choose( 28);
      std::string l = (o.number ? strf( "%6ld ", o.number) : std::string( 7, ' ')) + strf( "%-19s", o.name.c_str( )) + "A. Computer    ";
      l.resize( 41, ' ');
      l += strf( "%6.2f %5.2f", o.H, o.G);
      l.resize( 106, ' ');
      l += strf( "%04d%02d%02d ", o.y, o.m, o.d);
      l += strf( "%10.6f %10.6f %10.6f %9.6f %10.8f ", o.M, o.om, o.Om, o.i, o.e);
      l += strf( "%12.8f ", o.a);
      l.resize( 267, ' ');
      text += l + "\n";
      v.push_back( o);
      }
   bool missing = w.chance( 1, 15);
   if( !missing) sim.fs.put( "/work/astorb.dat", text);
   faults( sim);
   std::vector<std::string> args = { "astephem" };
   const Ast *o = n_num ? &v[0] : NULL;
   std::string asked = "1";
   u32 which = w.choose( 6);
   if( which)
      {
      if( which == 1) { asked = strf( "%d", (int)w.choose( n_num + n_un + 4)); o = atoi( asked.c_str( )) >= 1 && atoi( asked.c_str( )) <= n_num ? &v[atoi( asked.c_str( )) - 1] : NULL; }
      else if( which == 2) { asked = strf( "%d %c%c%s", 1995 + (int)w.choose( 4), 'A' + (int)w.choose( 3), 'A' + (int)w.choose( 4), w.chance( 1, 2) ? "" : strf( "%d", 1 + (int)w.choose( 30)).c_str( )); o = NULL; for( auto &x : v) if( !x.number && x.name == asked) o = &x; }
      else { o = &v[w.choose( (u32)v.size( ))]; asked = o->number ? strf( "%ld", o->number) : o->name; }
      args.push_back( "-o" + asked);
      }
   double dt = 1.;
   int n = 20;
   if( w.chance( 1, 2)) { dt = pick( w, { 1, 10, 5, 30, 365 }) * (w.chance( 1, 5) ? -1. : 1.); if( w.chance( 1, 4)) dt /= 8.; args.push_back( strf( "-s%g", dt)); }
   if( w.chance( 1, 2)) { n = 1 + (int)w.choose( 40); args.push_back( strf( "-n%d", n)); }
   double start_jd = 0.;
   if( w.chance( 1, 2))
      {
      int y = 1990 + (int)w.choose( 40), m = 1 + (int)w.choose( 12), d = 1 + (int)w.choose( 28);
      static const char *mn[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
      start_jd = jdn( y, m, d) - .5;
      u32 f = w.choose( 4);
      if( f == 0) args.push_back( strf( "-t%d-%s-%02d", y, mn[m - 1], d));   /* all-numeric dates are day-first */
      else if( f == 1) { args.push_back( strf( "-t%d", d)); args.push_back( mn[m - 1]); args.push_back( strf( "%d", y)); }
      else if( f == 2) args.push_back( strf( "-t%.1f", start_jd));
      else { args.push_back( strf( "-t%d", d)); args.push_back( strf( "%d", m)); args.push_back( strf( "%d", y)); }
      }
   sim.sample = strf( "'%s' of %d numbered and %zu others, %d steps of %g", asked.c_str( ), n_num, names.size( ), n, dt);
   double c0 = 2440587.5 + (double)( (sim.wall0_us + sim.now_us) / 86400000000ull);   /* today, 0h */
   Proc *p = start( sim, "astephem", 1, args);
   sim.run( );
   double c1 = 2440587.5 + (double)( (sim.wall0_us + sim.now_us) / 86400000000ull);
   sim.nontrivial = true;
   if( !start_jd && c0 != c1) return;
   if( !look_at( sim, p, missing || !o, missing ? "the file is missing" : asked + " is not in the file")) return;
   std::vector<std::string> l = split_lines( p->out);
   size_t k = 0;
   for( int i = 0; i < n; i++)
      {
      if( i % 24 == 0 && (k >= l.size( ) || l[k++].find( "RA             dec     dist    radius  mag") == std::string::npos)) { sim.violate( "wrong-line", strf( "no heading before line %d", i)); return; }
      if( k >= l.size( )) { sim.violate( "lines-missing", strf( "%d of %d dates", i, n)); return; }
      std::string x = l[k++];
      double t = (start_jd ? start_jd : c0) + i * dt;
      int d, m; long y;
      date_of( (long)floor( t + .5 + .00001), &d, &m, &y);
      static const char *mn[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
      std::string date = strf( "%2d %s %4ld:  ", d, mn[m - 1], y);
      if( x.compare( 0, date.size( ), date) && (start_jd || c0 == c1))
         { sim.violate( "wrong-date", x + "; should be " + date); return; }
      int h, mi; double s, dm, dist, r, mag, el;
      char ds[8];
      if( x.size( ) < 40 || sscanf( x.c_str( ) + date.size( ), "%2dh%2dm%4lfs %6[-+0-9] %lf' %lf %lf %lf %lf", &h, &mi, &s, ds, &dm, &dist, &r, &mag, &el) != 9) { sim.violate( "unreadable", x); return; }
      double ra = 15. * ( h + mi / 60. + s / 3600.), dec = fabs( atof( ds)) + dm / 60.;
      if( strchr( ds, '-')) dec = -dec;
      Eph e = rough( *o, t);
      double cd = cos( e.dec * D), tol = .0006 + .004 / e.dist;
      if( mi > 59 || s >= 60. || dm > 60.) { sim.violate( "unreadable", x); return; }
      if( fabs( wrap180( ra - e.ra)) * cd > tol || fabs( dec - e.dec) > tol) { sim.violate( "wrong-place", x + strf( "; should be near %.4f %.4f, is %.4f %.4f", e.ra, e.dec, ra, dec)); return; }
      if( fabs( dist - e.dist) > .001 || fabs( r - e.r) > .001 || fabs( mag - e.mag) > .06 || fabs( el - e.elong) > .06 + .35 / e.dist + (e.elong < 5. || e.elong > 175. ? 1. : 0.)) { sim.violate( "wrong-circumstances", x + strf( "; should be %.3f %.3f %.2f %.2f", e.dist, e.r, e.mag, e.elong)); return; }
      }
   if( k != l.size( )) sim.violate( "more-lines", l[k]);
}

/* ---- designations on the Web */
namespace {
std::string enc( Tape &w, const std::string &v)
{
   std::string r;
   for( unsigned char c : v) r += isalnum( c) && w.chance( 9, 10) ? std::string( 1, (char)c) : c == ' ' && w.chance( 1, 2) ? std::string( "+") : strf( w.chance( 1, 2) ? "%%%02X" : "%%%02x", c);
   return r;
}
char muta( int v) { return (char)( v < 10 ? '0' + v : v < 36 ? 'A' + v - 10 : 'a' + v - 36); }
}
SCENARIO( P24, designations, 1)
{
   Tape &w = sim.w;
   struct Item { std::string field, value, want; };
   sim.stdio_buf = pick( w, { 4096, 1024, 64, 16384 });
   std::vector<Item> items;
   for( int k = 0, n = 1 + (int)w.choose( 6); k < n; k++)
      {
      Item i;
      u32 c = w.choose( 12);
      bool comet_fragment = false;
      std::string packed, plain;
      if( c < 4)               /* provisional */
         {
         int y = 1950 + (int)w.choose( 75), s = (int)w.choose( 620);
         char a = "ABCDEFGHJKLMNOPQRSTUVWXY"[w.choose( 24)], b = "ABCDEFGHJKLMNOPQRSTUVWXYZ"[w.choose( 25)];
         plain = strf( "%d %c%c", y, a, b) + (s ? strf( "%d", s) : "");
         packed = strf( "%c%02d%c%c%d%c", y < 2000 ? 'J' : 'K', y % 100, a, muta( s / 10), s % 10, b);
         }
      else if( c < 6)          /* numbered */
         {
         int num = 1 + (int)w.choose( w.chance( 1, 2) ? 99999 : 619999);
         plain = strf( "(%d)", num);
         packed = strf( "%c%04d", muta( num / 10000), num % 10000);
         }
      else if( c < 8)          /* comets */
         {
         int y = 1950 + (int)w.choose( 75), s = 1 + (int)w.choose( 99);
         char a = "ABCDEFGHJKLMNOPQRSTUVWXY"[w.choose( 24)], t = "CPD"[w.choose( 3)];
         char fr = w.chance( 1, 3) ? (char)( 'a' + w.choose( 26)) : '0';
         if( fr != '0') comet_fragment = true;
         plain = strf( "%c/%d %c%d", t, y, a, s) + (fr == '0' ? "" : strf( "-%c", fr + 'A' - 'a'));
         packed = strf( "%c%c%02d%c%c%d%c", t, y < 2000 ? 'J' : 'K', y % 100, a, muta( s / 10), s % 10, fr);
         }
      else if( c == 8 && w.chance( 2, 3))     /* beyond the numbers which fit in four digits, or cycles beyond 619 */
         {
         auto four = [&]( long v) { std::string r; for( int q = 0; q < 4; q++, v /= 62) r = muta( (int)( v % 62)) + r; return r; };
         const long v = w.chance( 1, 2) ? w.choose( 14776336) : w.choose( 200000), year = w.choose( 62);
         const char hm = "ABCDEFGHJKLMNOPQRSTUVWXY"[w.choose( 24)];
         const std::string num = "~" + four( v), prov = strf( "_%c%c", muta( (int)year), hm) + four( v), num_u = strf( "(%ld)", v + 620000),
               prov_u = strf( "%ld %c%c%ld", 2000 + year, hm, "ABCDEFGHJKLMNOPQRSTUVWXYZ"[v % 25], 620 + v / 25);
         const u32 f = w.choose( 3);
         i.field = "packed";
         i.value = f == 0 ? num : f == 1 ? prov : num + prov;
         i.want = "'" + i.value + "' unpacks to '" + (f == 0 ? num_u : f == 1 ? prov_u : num_u + " " + prov_u) + "'";
         }
      if( c == 8 && !i.field.empty( )) ;
      else if( c < 8 && (comet_fragment || w.chance( 1, 2))) { i.field = "packed"; i.value = packed; i.want = "'" + packed + "' unpacks to '" + plain + "'"; }
      else if( c < 8) { i.field = "unpacked"; i.value = plain; std::string al = packed.size( ) == 5 ? packed + "       " : packed.size( ) == 7 ? "     " + packed : "    " + packed; i.want = "'" + plain + "' packs to '" + al + "'"; }
      else
         {
         i.field = pick( w, { 0, 1 }) ? "packed" : w.chance( 1, 2) ? "unpacked" : w.chance( 1, 2) ? "other" : w.chance( 1, 2) ? "unpack" : "packed2";
         int len = (int)w.choose( 60);
         for( int q = 0; q < len; q++) i.value += "ABCKJ0123456789 /()~_abz-"[w.choose( 25)];
         if( c == 8) i.value = i.value.substr( 0, 3);
         if( c == 11 && w.chance( 1, 2))        /* certainly none */
            {
            i.value = std::string( "/-)") + i.value.substr( 0, 7) + "(/";
            while( i.value.find( '~') != std::string::npos) i.value.erase( i.value.find( '~'), 1);
            if( i.field == "packed") i.want = "*\n(This does not appear to be a valid packed designation)";
            if( i.field == "unpacked") i.want = "*\n(This was not successfully packed.)";
            }
         }
      if( i.value.size( ) < 4) i.want.clear( );       /* too short to be looked at */
      items.push_back( i);
      }
   auto query = [&]( const std::vector<Item> &v, bool plain) {
      std::string q;
      for( auto &i : v)
         if( plain) { q += (q.empty( ) ? "" : "&") + i.field + "="; for( unsigned char ch : i.value) q += isalnum( ch) ? std::string( 1, (char)ch) : strf( "%%%02X", ch); }
         else q += (q.empty( ) ? "" : "&") + i.field + "=" + enc( w, i.value);
      return q;
      };
   std::string want = "Content-type: text/html\n\n<pre>";
   for( auto &i : items)          /* each alone */
      {
      RefWorld ref;
      Proc *p = start( ref.sim, "desigcgi", 63, { "desigcgi" });
      p->env["REQUEST_METHOD"] = "GET"; p->env["QUERY_STRING"] = query( { i }, true);
      ref.sim.run( );
      bool ok = p->clean( );
      std::string o = p->out, d = p->describe( );
      ref.leave( );
      g_sim = &sim;
      const std::string h = "Content-type: text/html\n\n<pre>";
      if( !ok || o.compare( 0, h.size( ), h)) { sim.violate( "request-failed", i.field + "=" + i.value + ": " + d); return; }
      o.erase( 0, h.size( ));
      if( i.want[0] == '*') { if( o.size( ) < i.want.size( ) || o.compare( o.size( ) - i.want.size( ), std::string::npos, i.want.substr( 1) + "\n")) { sim.violate( "wrong-designation", o + " is none"); return; } }
      else if( !i.want.empty( ) && o != i.want + "\n") { sim.violate( "wrong-designation", o + " should be " + i.want); return; }
      bool silent = (i.field != "packed" && i.field != "unpacked") || i.value.size( ) <= 3;
      if( silent != o.empty( )) { sim.violate( "wrong-page", i.field + "=" + i.value + ": " + o); return; }
      if( !silent && o.find( "'" + i.value + "' " + (i.field == "packed" ? "un" : "") + "packs to '") != 0) { sim.violate( "wrong-page", i.field + "=" + i.value + ": " + o); return; }
      want += o;
      }
   const int how = (int)w.choose( 3);
   sim.switch_num = pick( w, { 10, 2, 40, 80 });
   sim.fault.read_short = on_off( w, 1, 2, 300000);
   sim.fault.write_short = on_off( w, 1, 3, 200000);
   sim.fault.read_eio = on_off( w, 1, 5, 40000);
   sim.fault.alloc_fail = on_off( w, 1, 5, 150000);
   sim.fault.budget = 1;
   sim.sample = strf( "%zu fields, %s", items.size( ), how == 0 ? "GET" : how == 1 ? "POST" : "multipart");
   Proc *p = start( sim, "desigcgi", 1, { "desigcgi" });
   if( how == 0) { p->env["REQUEST_METHOD"] = "GET"; p->env["QUERY_STRING"] = query( items, false); }
   else
      {
      std::string body;
      const std::string bnd = "----WebKitFormBoundaryx7";
      if( how == 1) body = query( items, false) + "\r\n";
      else
         {
         for( auto &i : items) body += "--" + bnd + "\r\nContent-Disposition: form-data; name=\"" + i.field + "\"\r\n\r\n" + i.value + "\r\n";
         body += "--" + bnd + "--\r\n";
         }
      p->env["REQUEST_METHOD"] = "POST";
      p->env["CONTENT_TYPE"] = how == 1 ? "application/x-www-form-urlencoded" : "multipart/form-data; boundary=" + bnd;
      p->env["CONTENT_LENGTH"] = strf( "%zu", body.size( ));
      p->in = body;
      }
   sim.run( );
   sim.nontrivial = items.size( ) > 1;
   if( !p->clean( )) { sim.violate( "crash", p->describe( )); return; }
   if( p->mem_error) { sim.violate( "memory", p->mem_note); return; }
   if( p->out == want) { sim.count( "probe.success"); return; }
   if( !p->n_hard_faults) { sim.violate( "wrong-page", first_diff( p->out, want)); return; }
   /* no more than what was read,  or a message */
   size_t c = 0;
   while( c < p->out.size( ) && c < want.size( ) && p->out[c] == want[c]) c++;
   std::string rest = p->out.substr( c);
   if( !rest.empty( ) && rest.find( "failed : error") == std::string::npos) sim.violate( "wrong-page", first_diff( p->out, want));
   sim.count( "probe.reported_failure");
}
