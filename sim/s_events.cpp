/* P26: times of the Moon's transits (lun_tran), risings and settings (tables), events of Jupiter's satellites (jevent) */
#include "moonsun.h"
#include <algorithm>

namespace {
const int JUP = 72;
const VsopTerms PLANETS = {
   { 48, { { 100013989., 0., 0. }, { 1670700., 3.0984635, 6283.07585 }, { 13956., 3.05525, 12566.1517 } } },
   { JUP, { { 59954691., 0., 0. }, { 9695899., 5.0619179, 529.6909651 }, { 573610., 1.444062, 7.113547 }, { 306389., 5.417347, 1059.38193 } } },
   { JUP + 1, { { 52993480757., 0., 0. }, { 489741., 4.220667, 529.690965 } } },
   { JUP + 6, { { 2268616., 3.5585261, 529.6909651 } } },
   { JUP + 12, { { 520887429., 0., 0. }, { 25209327., 3.4910864, 529.6909651 }, { 610600., 3.84115, 1059.38193 } } } };
const std::string &vsop_file( )
{
   static std::string d;
   if( d.empty( )) d = make_vsop( PLANETS);
   return d;
}
double series( int idx, double t)      /* t in millennia */
{
   double s = 0.;
   for( int k = 0; k < 2; k++)
      {
      auto i = PLANETS.find( idx + k);
      if( k && idx != JUP) break;
      for( auto &q : i->second) s += q.a * cos( q.b + q.c * t) * (k ? t : 1.);
      }
   return s * 1e-8;
}
struct Vec { double x, y, z; };
Vec operator-( Vec a, Vec b) { return Vec{ a.x - b.x, a.y - b.y, a.z - b.z }; }
double len( Vec a) { return sqrt( a.x * a.x + a.y * a.y + a.z * a.z); }
Vec jupiter( double jd)
{
   double t = (jd - 2451545.) / 365250., l = series( JUP, t), b = series( JUP + 6, t), r = series( JUP + 12, t);
   return Vec{ r * cos( b) * cos( l), r * cos( b) * sin( l), r * sin( b) };
}
Vec earth( double jd)
{
   double t = (jd - 2451545.) / 365250., l = earth_lon( t * 10.), r = series( 48, t);
   return Vec{ r * cos( l), r * sin( l), 0. };
}
int (*jsats)( double, double *, int, long) = NULL;
double (*delta_t)( double) = NULL;
const double SPEED[4] = { 203.488955432, 101.374724550, 50.317609110, 21.571071314 };
const double JSCALE = 88000. * 1.609 / 149597870.7;
/* where the satellite is as seen from the Sun (0) or the Earth (1):  x to the east of Jupiter's
centre and y to the north,  where Jupiter's disc is a circle of radius one */
void seen( double jd, int sat, int from, double *x, double *y)
{
   double v[18];
   memset( v, 0, sizeof( v));
   jsats( jd, v, 1 << sat, 0L);
   Vec e = earth( jd), j = jupiter( jd), s = { j.x + v[sat * 3] * JSCALE, j.y + v[sat * 3 + 1] * JSCALE, j.z + v[sat * 3 + 2] * JSCALE };
   if( from) { j = j - e; s = s - e; }
   double d = len( s), dl = atan2( s.y, s.x) - atan2( j.y, j.x);
   dl = centred( dl, 2. * M_PI);
   *x = dl * d / JSCALE;
   *y = (asin( s.z / d) - atan2( j.z, hypot( j.x, j.y))) * d / JSCALE * 1.071374;
}
struct JEvent { double t; int sat, type; bool start, doubtful, hidden; int mate; double tol; };
std::vector<JEvent> sat_events( int sat, double t1, double t2)
{
   std::vector<JEvent> r;
   const double step = 6. / SPEED[sat];
   for( int from = 0; from < 2; from++)
      {
      double x0, y0, x, y;
      seen( t1, sat, from, &x0, &y0);
      for( double t = t1; t < t2; t += step)
         {
         seen( t + step, sat, from, &x, &y);
         if( x0 * x < 0.)
            {
            double a = t, b = t + step, xm, ym;
            for( int i = 0; i < 25; i++)
               {
               seen( (a + b) / 2., sat, from, &xm, &ym);
               if( xm * x0 > 0.) a = (a + b) / 2.; else b = (a + b) / 2.;
               }
            const double c = (a + b) / 2.;
            double lat = fabs( ym);
            bool front = x < 0.;               /* towards the west */
            if( lat < 1.06)
               {
               JEvent e[2];
               for( int k = 0; k < 2; k++)
                  {
                  double in = c, out = c + (k ? 1. : -1.) * 40. / SPEED[sat];
                  for( int i = 0; i < 22; i++)
                     {
                     double m = (in + out) / 2.;
                     seen( m, sat, from, &xm, &ym);
                     if( xm * xm + ym * ym < 1.) in = m; else out = m;
                     }
                  double t_light = len( jupiter( in) - earth( in)) / 173.144632674;
                  e[k] = JEvent{ in + t_light, sat, (front ? 1 : 0) | (from ? 0 : 2), k == 0, lat > .94, false, 0,
                          ( 60. + 60. * ( SPEED[3] / SPEED[sat])) / 86400. * (lat > .8 ? 2. : 1.) };
                  }
               e[0].mate = (int)r.size( ) + 1; e[1].mate = (int)r.size( );
               r.push_back( e[0]); r.push_back( e[1]);
               }
            }
         x0 = x;
         }
      }
   /* out of sight while behind Jupiter or in its shadow */
   for( size_t i = 0; i < r.size( ); i++)
      for( size_t j = 0; j < r.size( ); j++)
         if( r[j].start && !(r[j].type & 1) && i != j && (int)i != r[j].mate)
            {
            const JEvent &a = r[j], &b = r[(size_t)r[j].mate];
            double tol = r[i].tol + a.tol;
            if( fabs( r[i].t - a.t) < tol || fabs( r[i].t - b.t) < tol) r[i].doubtful = true;
            else if( r[i].t > a.t && r[i].t < b.t) { if( a.doubtful) r[i].doubtful = true; r[i].hidden = true; }
            }
   for( auto &e : r)                  /* one of the two may be missing because the scan began between them */
      if( e.t < t1 + 1. || e.t > t2 - .5) e.doubtful = true;
   return r;
}
const char *KIND[4] = { "Occ", "Tra", "Ecl", "Sha" };
struct Listed { double ut; int sat, type; bool start; };
long civil( long y, int m, int d, bool) { return jdn( y, m, d); }
bool read_listed( const std::string &s, Listed *r)
{
   char kind[4] = "", word[8] = "", mon[8] = "";
   int sat, day, h, mi, n = 0;
   long year;
   if( sscanf( s.c_str( ), "sat %d: %3s %5[a-z]%*[ :]%d %3s %ld %d:%d%n", &sat, kind, word, &day, mon, &year, &h, &mi, &n) != 8 || n != (int)s.size( )) return false;
   r->type = -1;
   for( int i = 0; i < 4; i++) if( !strcmp( kind, KIND[i])) r->type = i;
   r->start = !strcmp( word, "start");
   if( r->type < 0 || sat < 1 || sat > 4 || (!r->start && strcmp( word, "end"))) return false;
   int m = 0;
   while( m < 12 && strncmp( mon, "JanFebMarAprMayJunJulAugSepOctNovDec" + m * 3, 3)) m++;
   if( m == 12) return false;
   r->sat = sat - 1;
   r->ut = (double)civil( year, m + 1, day, true) - .5 + h / 24. + mi / 1440.;
   return true;
}
struct JRun { int day, month, year, days, sats; double frac; bool julian, quiet; std::string file, data; std::vector<std::string> args; };
JRun rnd_run( Tape &w)
{
   JRun r = { };
   r.year = w.chance( 1, 4) ? 1600 + (int)w.choose( 700) : 1960 + (int)w.choose( 100);
   r.month = 1 + (int)w.choose( 12); r.day = 1 + (int)w.choose( 28);
   r.frac = w.chance( 1, 3) ? w.choose( 100) / 100. : 0.;
   r.days = w.chance( 1, 5) ? 30 : (int)w.choose( 25);
   r.sats = w.chance( 1, 3) ? 15 : 1 + (int)w.choose( 15);
   r.julian = w.chance( 1, 6);
   r.quiet = w.chance( 1, 3);
   if( w.chance( 1, 2)) r.file = "events";
   if( w.chance( 1, 2)) r.data = "data";
   std::vector<std::string> o;
   r.args = { "jevent", r.frac ? strf( "%.2f", r.day + r.frac) : strf( "%d", r.day), strf( "%d", r.month), strf( "%d", r.year) };
   if( r.days != 30 || w.chance( 1, 2)) o.push_back( strf( "-%c%d", w.chance( 1, 4) ? 'D' : 'd', r.days));
   if( r.sats != 15 || w.chance( 1, 4)) o.push_back( strf( "-s%d", r.sats));
   if( r.julian) o.push_back( "-j");
   if( r.quiet) o.push_back( "-q");
   if( r.file.size( )) o.push_back( "-f" + r.file);
   if( r.data.size( )) o.push_back( "-r" + r.data);
   while( o.size( )) { size_t i = w.choose( (u32)o.size( )); r.args.push_back( o[i]); o.erase( o.begin( ) + i); }
   return r;
}
#define BAD( ...) do { sim.violate( "events", strf( __VA_ARGS__)); return; } while( 0)
void check_events( Sim &sim, const JRun &r, const std::string &out, const std::string &file, const std::string &data)
{
   const long jd0 = r.julian ? ( [&]( ) { long a = (14 - r.month) / 12, yy = r.year + 4800 - a; int mm = r.month + 12 * (int)a - 3; return (153 * mm + 2) / 5 + 365 * yy + yy / 4 - 32083; } )( )
                             : ( [&]( ) { long a = (14 - r.month) / 12, yy = r.year + 4800 - a; int mm = r.month + 12 * (int)a - 3; return (153 * mm + 2) / 5 + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045; } )( );
   const double t1 = (double)jd0 - .5 + r.day + r.frac, t2 = t1 + r.days;
   if( out.find( strf( "JD %f to %f\n", t1, t2)) == std::string::npos) BAD( "'JD %f to %f' isn't there", t1, t2);
   std::string list;
   size_t at = out.find( "Final results:\n");
   if( r.quiet) { if( at != std::string::npos || out.find( "sat ") != std::string::npos) BAD( "not quiet"); }
   else
      {
      if( at == std::string::npos) BAD( "no results shown");
      list = out.substr( at + 15);
      if( r.file.size( ) && list != file) BAD( "file of results differs from what's shown: %s", first_diff( list, file).c_str( ));
      }
   if( r.file.size( )) list = file;
   bool have_list = !r.quiet || r.file.size( );
   std::vector<JEvent> want;
   for( int s = 0; s < 4; s++)
      if( r.sats & (1 << s)) { auto v = sat_events( s, t1 - 2.5, t2 + 2.); for( auto &e : v) want.push_back( e); }
   std::vector<Listed> have;
   if( have_list)
      {
      if( list.size( ) && list.back( ) != '\n') BAD( "results end in mid-line");
      for( auto &l : split_lines( list))
         {
         Listed e;
         if( !read_listed( l, &e)) BAD( "line '%s'", l.c_str( ));
         if( !(r.sats & (1 << e.sat))) BAD( "line '%s' for a satellite not asked for", l.c_str( ));
         if( have.size( ) && e.ut < have.back( ).ut - 1.e-6) BAD( "line '%s' is out of order", l.c_str( ));
         have.push_back( e);
         }
      }
   std::vector<Listed> recs;
   if( r.data.size( ))
      {
      if( data.size( ) % 5) BAD( "%zu bytes of data", data.size( ));
      for( size_t i = 0; i < data.size( ); i += 5)
         {
         int32_t m;
         memcpy( &m, &data[i], 4);
         int c = (unsigned char)data[i + 4];
         double tt = 2451545. + m / 1440.;
         recs.push_back( Listed{ tt - delta_t( tt) / 86400., (c >> 3) - 1, c & 3, (c & 4) != 0 });
         if( (c >> 3) < 1 || (c >> 3) > 4 || !(r.sats & (1 << ((c >> 3) - 1)))) BAD( "data record %zu is of satellite %d", i / 5, c >> 3);
         }
      if( have_list)
         {
         if( recs.size( ) != have.size( )) BAD( "%zu data records for %zu events", recs.size( ), have.size( ));
         for( size_t i = 0; i < recs.size( ); i++)
            if( recs[i].sat != have[i].sat || recs[i].type != have[i].type || recs[i].start != have[i].start || fabs( recs[i].ut - have[i].ut) > 2.05 / 1440.)
               BAD( "data record %zu (sat %d %s, JD %.5f) isn't the event listed there (sat %d %s, JD %.5f)", i, recs[i].sat + 1, KIND[recs[i].type], recs[i].ut, have[i].sat + 1, KIND[have[i].type], have[i].ut);
         }
      else { have = recs; have_list = true; }
      }
   if( !have_list) return;
   std::vector<char> used( want.size( ), 0);
   for( auto &h : have)
      {
      bool found = false;
      for( size_t i = 0; i < want.size( ) && !found; i++)
         {
         const JEvent &e = want[i];
         if( used[i] || e.sat != h.sat || e.type != h.type || e.start != h.start) continue;
         double ut = e.t - delta_t( e.t) / 86400., tol = (e.doubtful ? 3600. / 86400. : e.tol) + 61. / 86400.;
         if( fabs( ut - h.ut) > tol) continue;
         if( getenv( "P26_WORST") && !e.doubtful) fprintf( stdout, "sat %d type %d start %d lat-doubt %d off %.1f s\n", e.sat, e.type, e.start, e.doubtful, (h.ut - ut) * 86400.);
         if( e.hidden && !e.doubtful) BAD( "sat %d %s %s at JD %.5f can't be seen", h.sat + 1, KIND[h.type], h.start ? "start" : "end", h.ut);
         if( e.t < t1 - e.tol || e.t > t2 + e.tol) BAD( "sat %d %s at JD %.5f is outside the time asked for", h.sat + 1, KIND[h.type], h.ut);
         used[i] = 1;
         found = true;
         }
      if( !found) BAD( "sat %d %s %s at JD %.5f: no such event", h.sat + 1, KIND[h.type], h.start ? "start" : "end", h.ut);
      }
   for( size_t i = 0; i < want.size( ); i++)
      {
      const JEvent &e = want[i];
      if( used[i] || e.doubtful || e.hidden || e.t < t1 + e.tol || e.t > t2 - e.tol) continue;
      BAD( "sat %d %s %s at JD %.5f (TT) is missing", e.sat + 1, KIND[e.type], e.start ? "start" : "end", e.t);
      }
   sim.count( "probe.events_checked");
   sim.nontrivial = true;
}
#undef BAD
void setup( )
{
   if( jsats) return;
   Module *m = get_module( "jevent", 0);
   jsats = (int (*)( double, double *, int, long))m->sym( "calc_jsat_loc");
   delta_t = (double (*)( double))m->sym( "td_minus_ut");
}
void faults( Sim &s)
{
   Tape &w = s.w;
   s.switch_num = pick( w, { 0u, 2u, 20u});
   s.stdio_buf = pick( w, { 4096u, 64u, 512u, 4096u});
   s.write_chunk = w.chance( 1, 3) ? pick( w, { 1u << 30, 7u, 100u, 1000u}) : 1u << 30;
   s.fault.read_short = on_off( w, 1, 2, 200000);
   s.fault.write_short = on_off( w, 1, 3, 200000);
   if( !w.chance( 2, 3)) return;
   s.fault.read_eio = on_off( w, 1, 3, 60000);
   if( s.fault.read_eio) s.fault.read_eio_from = (long)w.choose( 3) * (long)w.choose( 20000);
   s.fault.open_fail = on_off( w, 1, 4, 100000);
   s.fault.alloc_fail = on_off( w, 1, 4, 100000);
   s.fault.write_fail = on_off( w, 1, 3, 100000);
   s.fault.close_fail = on_off( w, 1, 4, 100000);
   if( w.chance( 1, 6)) s.fs.quota = (long)w.choose( 3000);
   s.fault.stdout_faults = w.chance( 1, 2);
   s.fault.budget = 1 + (int)w.choose( 2);
   s.fault.kill = on_off( w, 1, 3, 3000); s.fault.kill_budget = 1;
}
void no_faults( Sim &s) { s.fault = FaultCfg( ); s.fs.quota = -1; s.fs.disk_full = false; }
bool look_at( Sim &sim, Proc *p, const std::string &must_fail)
{
   if( p->mem_error) { sim.violate( "memory", p->mem_note); return false; }
   if( p->end == END_KILLED || p->end == END_CUT) { sim.count( "probe.killed"); return false; }
   if( p->end != END_EXIT) { sim.violate( "crash", p->name + ": " + p->describe( ) + " " + p->err.substr( 0, 200)); return false; }
   if( p->code)
      {
      if( must_fail.empty( ) && !p->n_hard_faults) sim.violate( "failed-without-cause", p->name + ": " + p->describe( ) + " " + (p->out + p->err).substr( 0, 300));
      else sim.count( "probe.reported_failure");
      return false;
      }
   if( must_fail.size( )) { sim.violate( "failure-not-told", p->name + " reported success although " + must_fail); return false; }
   sim.count( p->n_hard_faults ? "probe.success_despite_fault" : "probe.success");
   return true;
}
Proc *start( Sim &s, const std::string &prog, int slot, std::vector<std::string> args)
{
   Module *m = get_module( prog, slot);
   m->restore( );
   return s.spawn( strf( "%s#%d", prog.c_str( ), slot), m, program( m, args));
}
std::string spoil_vsop( Sim &sim)
{
   Tape &w = sim.w;
   if( !w.chance( 1, 12)) { sim.fs.put( "/work/vsop.bin", vsop_file( )); return ""; }
   if( w.chance( 1, 3)) return "there is no vsop.bin";
   std::string v = vsop_file( );
   v.resize( w.choose( (u32)v.size( )));
   sim.fs.put( "/work/vsop.bin", v);
   return "vsop.bin was cut short";
}
}  // namespace

SCENARIO( P26, jevent, 1)
{
   Tape &w = sim.w;
   setup( );
   std::string why = spoil_vsop( sim), data;
   const bool two = w.chance( 1, 4);
   const int n_runs = 1 + (int)w.choose( 3);
   if( w.chance( 1, 4)) { data = std::string( 5 * w.choose( 40), (char)( 1 + w.choose( 100))); sim.fs.put( "/work/data", data); }
   if( w.chance( 1, 4)) sim.fs.put( "/work/events", "from an earlier run, and longer than most\n" + std::string( w.choose( 4000), 'x'));
   faults( sim);
   FaultCfg fc = sim.fault;
   for( int k = 0; k < n_runs; k++)
      {
      JRun r = rnd_run( w), r2 = r;
      if( two) { r2 = rnd_run( w); if( r2.file.size( )) r2.args.push_back( "-fevents2"), r2.file = "events2"; if( r2.data.size( )) { for( auto &a : r2.args) if( a == "-rdata") a = "-rdata2"; r2.data = "data2"; }
                 for( auto &a : r2.args) if( a == "-fevents") a = "-fevents2"; }
      for( auto &a : r.args) sim.sample += a + " ";
      sim.sample += "; ";
      bool fine = false;
      for( int pass = 0; pass < 4 && !fine; pass++)
         {
         if( pass == 3) no_faults( sim);
         std::string before = sim.fs.get( "/work/data"), before2 = sim.fs.get( "/work/data2");
         Proc *p = start( sim, "jevent", 0, r.args), *q = two ? start( sim, "jevent", 1, r2.args) : NULL;
         sim.run( );
         for( int x = 0; x < (q ? 2 : 1); x++)
            {
            const JRun &rr = x ? r2 : r;
            std::string now = sim.fs.get( x ? "/work/data2" : "/work/data"), &was = x ? before2 : before;
            if( now.compare( 0, was.size( ), was)) { sim.violate( "events", "the data there already weren't kept"); return; }
            if( look_at( sim, x ? q : p, why))
               {
               if( !x) fine = true;
               if( rr.data.empty( ) && now != was) { sim.violate( "events", "data nobody asked for"); return; }
               check_events( sim, rr, (x ? q : p)->out, sim.fs.get( x ? "/work/events2" : "/work/events"), now.substr( was.size( )));
               }
            if( sim.violations.size( )) { sim.nontrivial = true; return; }
            }
         if( why.size( )) { sim.nontrivial = true; return; }
         }
      if( !fine) { sim.violate( "no-recovery", "the events could not be found after the faults had stopped"); return; }
      sim.fault = fc;
      }
}

namespace {
/* hour angle of the Moon */
double moon_ha( double jd, double lon)
{
   const double t = (jd - 2451545.) / 36525., eps = (23.4392911 - .0130042 * t) * DEG, l = moon_lon( jd) * DEG, b = moon_lat( jd) * DEG;
   const double ra = atan2( sin( l) * cos( eps) - tan( b) * sin( eps), cos( l));
   const double gst = (280.46061837 + 360.98564736629 * (jd - 2451545.) + 3.87933e-4 * t * t) * DEG;
   return centred( gst + lon * DEG - ra, 2. * M_PI);
}
bool us_summer_time( int y, int m, int d)        /* at noon */
{
   auto sunday = [&]( int mm, int nth) { int k = 1; while( (jdn( y, mm, k) + 1) % 7) k++; return k + 7 * (nth - 1); };
   long day = jdn( y, m, d), a, b;
   if( y <= 2006)
      {
      int last = sunday( 10, 4);
      if( last + 7 <= 31) last += 7;
      a = jdn( y, 4, sunday( 4, 1)); b = jdn( y, 10, last);
      }
   else { a = jdn( y, 3, sunday( 3, 2)); b = jdn( y, 11, sunday( 11, 1)); }
   return day >= a && day < b;
}
struct Zip { int code; char state[3]; double lat, lon; int zone, dst; std::string name; };
}

SCENARIO( P26, moon, 1)
{
   Tape &w = sim.w;
   std::string why = spoil_vsop( sim), list;
   std::vector<Zip> z;
   static const char *names[] = { "Bowdoinham", "Honolulu", "Pago Pago", "St. Thomas", "X", "Truth or Consequences, old town" };
   for( int i = 1 + (int)w.choose( 30); i > 0; i--)
      {
      Zip q = { };
      q.code = 501 + (int)w.choose( 99000);
      if( z.size( ) && w.chance( 1, 5)) q.code = z.back( ).code + (w.chance( 1, 2) ? 1 : 10);
      snprintf( q.state, 3, "%c%c", 'A' + (int)w.choose( 26), 'A' + (int)w.choose( 26));
      q.lat = w.chance( 1, 4) ? -15. + w.choose( 4500) / 100. : 24. + w.choose( 47000) / 1000.;
      q.lon = -(65. + w.choose( 105000) / 1000.);
      q.zone = -4 - (int)w.choose( 7); if( w.chance( 1, 12)) { q.zone = 10; q.lon = 144.7 + w.choose( 100) / 1000.; }
      q.dst = (int)w.choose( 2);
      q.name = names[w.choose( 6)];
      bool dup = false;
      for( auto &x : z) dup |= x.code == q.code;
      if( dup) continue;
      z.push_back( q);
      list += strf( "%05d %s   %-11.5f%-13.5f%-4d%d        %s%s", q.code, q.state, q.lat, q.lon, q.zone, q.dst, q.name.c_str( ), w.chance( 1, 6) ? "\r\n" : "\n");
      }
   const bool no_list = w.chance( 1, 25), absent = w.chance( 1, 10);
   if( !no_list) sim.fs.put( "/work/zips5.txt", list);
   const Zip &q = z[w.choose( (u32)z.size( ))];
   int code = q.code;
   if( absent) { code = (int)w.choose( 99999); for( auto &x : z) if( x.code == code) code = 0; why = "the ZIP code isn't listed"; }
   if( no_list) why = "there is no list of ZIP codes";
   const int year = 1950 + (int)w.choose( 140), month = 1 + (int)w.choose( 12);
   std::vector<std::string> a = { "lun_test", strf( "%d", year), strf( "%d", month), strf( w.chance( 1, 4) ? "%d" : "%05d", code) };
   for( auto &x : a) sim.sample += x + " ";
   faults( sim);
   bool fine = false;
   for( int pass = 0; pass < 4 && !fine; pass++)
      {
      if( pass == 3) no_faults( sim);
      Proc *p = start( sim, "lun_test", 0, a);
      sim.run( );
      if( look_at( sim, p, why))
         {
         fine = true;
         auto ll = split_lines( p->out);
         if( ll.size( ) != 32 || p->out.back( ) != '\n') { sim.violate( "moon", strf( "%zu lines", ll.size( ))); return; }
         std::string head = strf( "Lat %f   Lon %f   Time zone %d  DST=%d  %s, %s", atof( strf( "%.5f", q.lat).c_str( )), atof( strf( "%.5f", q.lon).c_str( )), q.zone, q.dst, q.name.c_str( ), q.state);
         if( ll[0] != head) { sim.violate( "moon", "header '" + ll[0] + "' should be '" + head + "'"); return; }
         const double lat = q.lat;
         for( int d = 1; d <= 31; d++)
            {
            int dd = d, mm = month, yy = year;
            if( dd > month_len( yy, mm)) { dd -= month_len( yy, mm); mm++; }
            /* the local day begins at midnight of the time kept at noon */
            const double noon = (double)jdn( yy, mm, dd) - (q.zone + (q.dst && us_summer_time( yy, mm, dd) ? 1 : 0)) / 24.;
            std::string want = strf( "%2d:", d), alt;
            bool sure = true;
            std::string got = ll[(size_t)d];
            if( got.size( ) != 15 || got.compare( 0, 3, want)) { sim.violate( "moon", "line '" + got + "'"); return; }
            for( int k = 0; k < 2; k++)
               {
               double t = noon;
               for( int i = 0; i < 12; i++)
                  t -= centred( moon_ha( t, q.lon) - (k ? M_PI : 0.), 2. * M_PI) / (2. * M_PI) * 1.035;
               double f = (t - noon) + .5, tol = 1. / 86400.;
               std::string s = got.substr( k ? 10 : 4, 5);
               bool ok = false;
               for( int e = -1; e <= 1; e++)
                  {
                  double g = f + e * tol;
                  int m = (int)floor( g * 1440.);
                  ok |= s == ( g < 0. || g >= 1. ? std::string( "--:--") : strf( "%02d:%02d", m / 60, m % 60));
                  }
               if( !ok)
                  { sim.violate( "moon", strf( "day %d: %s at %s, should be at %.3f min (%.4f)", d, k ? "lower transit" : "transit", s.c_str( ), f * 1440., f)); return; }
               }
            (void)lat; (void)sure;
            }
         sim.count( "probe.moon_checked");
         }
      sim.nontrivial = true;
      if( why.size( ) || sim.violations.size( )) return;
      }
   if( !fine) sim.violate( "no-recovery", "no transit times after the faults had stopped");
}

namespace {
/* sine of the altitude of the Sun (3) or the Moon (10) for the place of the tables */
double sin_alt( int body, double jd)
{
   const double t = (jd - 2451545.) / 36525., eps = (23.4392911 - .0130042 * t) * DEG, lat = 44.01 * DEG;
   const double l = body == 10 ? moon_lon( jd) * DEG : earth_lon( t) + M_PI, b = body == 10 ? moon_lat( jd) * DEG : 0.;
   const double ra = atan2( sin( l) * cos( eps) - tan( b) * sin( eps), cos( l));
   const double dec = asin( sin( b) * cos( eps) + cos( b) * sin( eps) * sin( l));
   const double gst = (280.46061837 + 360.98564736629 * (jd - 2451545.) + 3.87933e-4 * t * t) * DEG;
   return sin( lat) * sin( dec) + cos( lat) * cos( dec) * cos( gst - 69.9 * DEG - ra);
}
double alt_above( int body, double jd) { return asin( sin_alt( body, jd)) / DEG - (body == 10 ? .125 : -.83333); }
long greg( long y, int m, int d)
{
   long a = (14 - m) / 12, yy = y + 4800 - a;
   int mm = m + 12 * (int)a - 3;
   return (153 * mm + 2) / 5 + d + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045;
}
/* does an angle that grows from a to b (degrees) pass a multiple of 90?  1,  0,  or -1 if it's too close to tell;
*quad = the quadrant it enters */
int passes( double a, double b, double tol, int *quad)
{
   b = a + centred( b - a, 360.);
   const double q = floor( b / 90.) * 90.;
   *quad = (int)( floor( b / 90.) - 4. * floor( floor( b / 90.) / 4.));
   if( fabs( centred( a, 90.)) < tol || fabs( centred( b, 90.)) < tol) return -1;
   return a < q;
}
}

SCENARIO( P26, riseset, 1)
{
   Tape &w = sim.w;
   std::string why = spoil_vsop( sim);
   const int year = w.chance( 1, 3) ? 1600 + (int)w.choose( 700) : 1950 + (int)w.choose( 100);
   const bool whole = w.chance( 1, 12);
   const int month = 1 + (int)w.choose( 12);
   std::vector<std::string> a = { "tables", strf( "%d", year) };
   if( !whole) a.push_back( strf( "%d", month));
   if( w.chance( 1, 40)) { a.resize( 1); why = "no year was given"; }
   for( auto &x : a) sim.sample += x + " ";
   faults( sim);
   bool fine = false;
   for( int pass = 0; pass < 4 && !fine; pass++)
      {
      if( pass == 3) no_faults( sim);
      Proc *p = start( sim, "tables", 0, a);
      sim.run( );
      if( look_at( sim, p, why))
         {
         fine = true;
         auto ll = split_lines( p->out);
         size_t at = 2;
         if( ll.size( ) < 2 || ll[0] != "       Sun          Moon" || ll[1] != "Day  Rise Set     Rise Set" || p->out.back( ) != '\n') { sim.violate( "riseset", "no heading, or cut off"); return; }
         for( int m = whole ? 1 : month; m <= (whole ? 12 : month); m++)
            {
            const long first = greg( year, m, 1), last = m == 12 ? greg( year + 1, 1, 1) : greg( year, m + 1, 1);
            for( long jd = first; jd < last; jd++, at++)
               {
               const int day = (int)( jd - first) + 1;
               if( at >= ll.size( )) { sim.violate( "riseset", strf( "nothing for %d-%02d-%02d", year, m, day)); return; }
               std::string l = ll[at];
               if( l.size( ) != 39 || l.substr( 0, 2) != (jd % 7 == 6 ? std::string( "Su") : strf( "%2d", day))) { sim.violate( "riseset", strf( "line '%s' for %d-%02d-%02d", l.c_str( ), year, m, day)); return; }
               const double t0 = (double)jd - .5 + 5. / 24.;
               static const int offs[4] = { 4, 10, 17, 23 };
               for( int k = 0; k < 4; k++)
                  {
                  const int body = k < 2 ? 3 : 10;
                  const double sgn = k & 1 ? -1. : 1., tol = 3. / 86400.;
                  std::string s = l.substr( (size_t)offs[k], 5);
                  bool ok = false, some = false, close = false;
                  for( int i = -1; i <= 48; i++)
                     {
                     double x = t0 + i / 48., y = x + 1. / 48., fx = sgn * alt_above( body, x), fy = sgn * alt_above( body, y);
                     if( !( fx <= 0. && fy > 0.)) continue;
                     for( int n = 0; n < 22; n++)
                        {
                        double mid = (x + y) / 2.;
                        if( sgn * alt_above( body, mid) > 0.) y = mid; else x = mid;
                        }
                     const double f = x - t0;
                     if( f < -tol || f > 1. + tol) continue;
                     some = true;
                     if( f < tol || f > 1. - tol) close = true;
                     for( int e = -1; e <= 1; e++)
                        {
                        int mi = (int)floor( (f + e * tol) * 1440.);
                        mi = (mi + 1440) % 1440;
                        ok |= s == strf( "%02d:%02d", mi / 60, mi % 60);
                        }
                     }
                  if( !some || close) ok |= s == "--:--";
                  if( !ok) { sim.violate( "riseset", strf( "%d-%02d-%02d: '%s' has %s for %s", year, m, day, l.c_str( ), s.c_str( ), k == 0 ? "sunrise" : k == 1 ? "sunset" : k == 2 ? "moonrise" : "moonset")); return; }
                  }
               auto sun = [&]( double t) { return earth_lon( (t - 2451545.) / 36525.) / DEG + 180.; };
               static const char *seas[4] = { "Vern Eq ", "Summ Sol", "Autu Eq ", "Wint Sol" }, *ph[4] = { "NM", "1Q", "FM", "3Q" };
               int qs, qm;
               const int ps = passes( sun( t0), sun( t0 + 1.), .005, &qs), pm = passes( moon_lon( t0) - sun( t0), moon_lon( t0 + 1.) - sun( t0 + 1.), .02, &qm);
               std::string got = l.substr( 29), none( 10, ' '), season = std::string( seas[qs]) + "  ", phase = std::string( ph[qm]) + none.substr( 2);
               /* one which is close to midnight may be on the day before or after */
               bool ok = false;
               auto near_sun = [&]( ) { int q = (int)floor( centred( sun( t0 + .5), 360.) / 90. + .5); return std::string( seas[(q + 4) % 4]) + "  "; };
               auto near_moon = [&]( ) { int q = (int)floor( centred( moon_lon( t0 + .5) - sun( t0 + .5), 360.) / 90. + .5); return std::string( ph[(q + 4) % 4]) + none.substr( 2); };
               if( ps == 1) ok = got == season;
               else if( ps == -1 && got == near_sun( )) ok = true;
               else if( pm == 1) ok = got == phase;
               else if( pm == -1) ok = got == near_moon( ) || got == none;
               else ok = got == none;
               if( !ok) { sim.violate( "riseset", strf( "%d-%02d-%02d: '%s'", year, m, day, l.c_str( ))); return; }
               }
            }
         if( at != ll.size( )) { sim.violate( "riseset", "line '" + ll[at] + "' is too much"); return; }
         sim.count( "probe.tables_checked");
         }
      sim.nontrivial = true;
      if( why.size( ) || sim.violations.size( )) return;
      }
   if( !fine) sim.violate( "no-recovery", "no table after the faults had stopped");
}
