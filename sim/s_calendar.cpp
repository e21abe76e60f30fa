/* P25: tables of lunar phases (phases),  of the Chinese calendar (phases,  sorted,
then chinese),  and wall calendars drawn from them (calendar) */
#include "moonsun.h"
#include <algorithm>

namespace {
const std::string &vsop_file( )
{
   static std::string d;
   if( d.empty( )) d = make_vsop( VsopTerms( ));
   return d;
}
std::string strip_progress( const std::string &s)      /* what it says now and then while it runs */
{
   std::string r;
   for( size_t i = 0; i < s.size( ); )
      {
      size_t e = s.find( '\r', i), n = s.find( '\n', i);
      if( !s.compare( i, 3, "JD ") && e != std::string::npos && (n == std::string::npos || e < n)) i = e + 1;
      else r += s[i++];
      }
   return r;
}

const char *MON[12] = { "January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December" };
const double MEAN = 29.530588853;
double mean_time( double k) { return 2451550.09765 + MEAN * k; }
double phase_time( double k)           /* TT */
{
   double t = mean_time( k);
   for( int i = 0; i < 8; i++)
      t -= centred( moon_lon( t) - sun_lon( t) - k * 360., 360.) / 12.19075;
   return t;
}
double term_time( double guess, int m) /* when the Sun gets to 30m degrees */
{
   for( int i = 0; i < 8; i++)
      guess -= centred( sun_lon( guess) - 30. * m, 360.) / .9856474;
   return guess;
}
double (*td_utc)( double) = NULL;
double to_utc( double tt)
{
   static const double steps[] = { 2441317.5, 2441499.5, 2441683.5, 2442048.5, 2442413.5, 2442778.5, 2443144.5, 2443509.5, 2443874.5, 2444239.5, 2444786.5, 2445151.5, 2445516.5, 2446247.5,
               2447161.5, 2447892.5, 2448257.5, 2448804.5, 2449169.5, 2449534.5, 2450083.5, 2450630.5, 2451179.5, 2453736.5, 2454832.5, 2456109.5, 2457204.5, 2457754.5, 2460000.5 };
   const int n = sizeof( steps) / sizeof( steps[0]);
   if( tt > steps[0] + 1. && tt < steps[n - 1])
      {
      int i = 0;
      while( i < n - 2 && tt - (32.184 + 10. + i) / 86400. >= steps[i + 1]) i++;
      return tt - (32.184 + 10. + i) / 86400.;
      }
   return tt - td_utc( tt) / 86400.;
}
/* "12 Jan 2000 18:13:44" -> JD;  -1 if it isn't such a thing */
long jdn_in( long y, int m, int d, bool julian)
{
   long a = (14 - m) / 12, yy = y + 4800 - a, r = d + (153 * (m + 12 * a - 3) + 2) / 5 + 365 * yy + (long)floor( yy / 4.);
   return julian ? r - 32083 : r - (long)floor( yy / 100.) + (long)floor( yy / 400.) - 32045;
}
double read_time( const std::string &s, bool julian, bool has_sec)
{
   int d, h, mi, se = 0, n = 0, m;
   long y;
   char mon[4];
   int got = has_sec ? sscanf( s.c_str( ), "%d %3s %ld %d:%d:%d%n", &d, mon, &y, &h, &mi, &se, &n) : sscanf( s.c_str( ), "%d %3s %ld %d:%d%n", &d, mon, &y, &h, &mi, &n);
   if( got != (has_sec ? 6 : 5) || n != (int)s.size( )) return -1e9;
   for( m = 0; m < 12; m++) if( !strncmp( MON[m], mon, 3)) break;
   if( m == 12 || d < 1 || d > 31 || h > 23 || mi > 59 || se > 60) return -1e9;
   return jdn_in( y, m + 1, d, julian) - .5 + h / 24. + mi / 1440. + se / 86400.;
}

struct Tab {
   double y0, y1;                      /* as the command line has them */
   bool chinese, log, dat, verbose, julian;
   double jd0( ) const { return 2451545. + 365.25 * (y0 - 2000.); }
   double jd1( ) const { return 2451545. + 365.25 * (y1 - 2000.); }
   double tol( ) const { return y0 < 1000. || y1 > 2900. ? 10. : 6.; }   /* seconds */
};
double g_worst;                        /* for probing only */
#define BAD( ...) do { sim.violate( "table", strf( __VA_ARGS__)); return false; } while( 0)
bool check_tables( Sim &sim, const Tab &t, const std::string &out, const std::string &log, const std::string &dat)
{
   static const char *names[4] = { "New moon ", "1st qtr. ", "Full moon", "last qtr." };
   const double k0 = floor( (t.y0 - 2000.) * 12.3685), step = t.chinese ? 1. : .25, tol = t.tol( ) / 86400.;
   std::vector<double> times;          /* of the phases to be listed,  TT */
   if( fabs( phase_time( k0) - t.jd0( )) > 45.) BAD( "oracle: first new moon at %f", phase_time( k0));
   for( double k = k0; ; k += step)
      {
      times.push_back( phase_time( k));
      if( (t.chinese || times.size( ) % 4 == 0) && fabs( times.back( ) - t.jd1( )) < .01) return false;    /* too close to tell whether it is the last one */
      if( (t.chinese || times.size( ) % 4 == 0) && times.back( ) >= t.jd1( )) break;
      }
   auto see = [&]( double x) { if( fabs( x) > g_worst) g_worst = fabs( x); return fabs( x) <= tol; };
   if( t.dat)
      {
      if( dat.size( ) != 4 * (1 + times.size( ))) BAD( "%zu bytes of data,  not %zu", dat.size( ), 4 * (1 + times.size( )));
      int32_t x;
      memcpy( &x, dat.data( ), 4);
      if( x != (int32_t)k0) BAD( "data file starts at lunation %d,  not %d", x, (int)k0);
      for( size_t i = 0; i < times.size( ); i++)
         {
         memcpy( &x, dat.data( ) + 4 * i + 4, 4);
         double d = mean_time( k0 + step * i) + x / 86400. - times[i];
         if( !see( d)) BAD( "phase %zu in the data file is off by %.1f s", i, d * 86400.);
         }
      }
   std::vector<std::string> ll = split_lines( log), stamps;
   size_t n_terms = 0;
   if( t.log)
      {
      if( log.empty( ) || log.back( ) != '\n') BAD( "log ends in mid-line");
      if( !t.chinese && ll.size( ) != times.size( )) BAD( "%zu lines in the log,  not %zu", ll.size( ), times.size( ));
      if( ll.size( ) < times.size( )) BAD( "%zu lines in the log,  fewer than %zu", ll.size( ), times.size( ));
      for( size_t i = 0; i < times.size( ); i++)
         {
         std::string s = ll[i];
         long day = 0;
         if( t.chinese)
            {
            if( s.size( ) < 12 || s.compare( 7, 4, "    ") || sscanf( s.c_str( ), "%7ld", &day) != 1) BAD( "log line '%s'", s.c_str( ));
            s.erase( 0, 11);
            }
         else
            {
            if( s.compare( 0, 11, std::string( names[i % 4]) + ": ")) BAD( "log line '%s' where a %s is due", s.c_str( ), names[i % 4]);
            s.erase( 0, 11);
            }
         stamps.push_back( s);
         double utc = to_utc( times[i]), d = read_time( s, t.julian, true) - utc;
         if( !see( d)) BAD( "log line '%s' is off by %.1f s", ll[i].c_str( ), d * 86400.);
         if( t.chinese && fabs( utc - 1. / 6. - (day + .5)) > .5 + tol) BAD( "log line '%s' on the wrong day (%f)", ll[i].c_str( ), utc - 1. / 6.);
         }
      if( t.chinese)
         {
         int m = (int)floor( sun_lon( t.jd0( )) / 30. + .5);
         double when = term_time( t.jd0( ), m);
         if( fabs( centred( sun_lon( t.jd0( )) / 30., 1.)) > .499) return false;       /* either term might be the first */
         for( size_t i = times.size( ); ; i++, n_terms++)
            {
            if( n_terms)
               {
               double g = when + 365.25 / 12.;
               if( fabs( g - t.jd1( )) < .01) return false;
               if( g >= t.jd1( )) { if( i != ll.size( )) BAD( "%zu lines in the log,  not %zu", ll.size( ), i); break; }
               when = term_time( g, ++m);
               }
            if( i >= ll.size( )) BAD( "log ends after %zu lines", ll.size( ));
            const std::string &s = ll[i];
            long day = 0, year = 0;
            int mon = 0, n = 0;
            if( s.size( ) < 34 || s.compare( 7, 4, " z  ") || sscanf( s.c_str( ), "%7ld", &day) != 1 || sscanf( s.c_str( ) + s.size( ) - 8, "%2d %5ld%n", &mon, &year, &n) != 2 || n != 8)
               BAD( "log line '%s' is not a principal term", s.c_str( ));
            double utc = to_utc( when), d = read_time( s.substr( 11, s.size( ) - 21), t.julian, true) - utc;
            if( !see( d)) BAD( "log line '%s' is off by %.1f s", s.c_str( ), d * 86400.);
            if( fabs( utc - 1. / 6. - (day + .5)) > .5 + tol) BAD( "log line '%s' on the wrong day", s.c_str( ));
            int want = (((m + 1) % 12) + 12) % 12 + 1;
            if( mon != want) BAD( "log line '%s' should be term %d", s.c_str( ), want);
            double since = when - 2451900. - ( want == 12 ? 1 : want - 11) * 30.437;
            if( year != 4637 + (long)floor( since / 365.2422 + .5)) BAD( "log line '%s' has the wrong year", s.c_str( ));
            }
         }
      }
   std::string o = strip_progress( out);
   if( t.verbose) return true;
   if( t.chinese)
      {
      for( auto &s : split_lines( o))
         if( s.compare( 7, 4, " z  ")) BAD( "said '%s'", s.c_str( ));
      return true;
      }
   if( o.size( ) < 2 || o.back( ) != '\n') BAD( "table ends in mid-line");
   std::vector<std::string> ol = split_lines( o);
   if( ol.size( ) * 4 != times.size( )) BAD( "%zu rows in the table,  not %zu", ol.size( ), times.size( ) / 4);
   for( size_t i = 0; i < times.size( ); i++)
      {
      std::string &r = ol[i / 4];      /* each is followed by two blanks */
      size_t e = r.find( "  ", 2);
      while( e != std::string::npos && e < 17) e = r.find( "  ", e + 1);
      if( e == std::string::npos) BAD( "table row '%s'", r.c_str( ));
      std::string s = r.substr( 0, e);
      r.erase( 0, e + 2);
      if( i % 4 == 3 && r.size( )) BAD( "table row goes on with '%s'", r.c_str( ));
      double d = read_time( s, t.julian, false) + 30. / 86400. - to_utc( times[i]);
      if( fabs( d) > 30.5 / 86400. + tol) BAD( "table entry '%s' is off by %.1f s", s.c_str( ), d * 86400.);
      if( t.log && stamps[i].substr( 0, stamps[i].size( ) - 3) != s) BAD( "table has '%s',  log '%s'", s.c_str( ), stamps[i].c_str( ));
      }
   return true;
}
void faults( Sim &s, bool kills)
{
   Tape &w = s.w;
   s.switch_num = pick( w, { 0u, 2u, 20u});
   s.op_cost_us = pick( w, { 20u, 20u, 2000u, 300000u});
   s.stdio_buf = pick( w, { 4096u, 64u, 512u, 4096u});
   s.write_chunk = w.chance( 1, 3) ? pick( w, { 1u << 30, 7u, 100u, 1000u}) : 1u << 30;
   s.fault.read_short = on_off( w, 1, 2, 200000);
   s.fault.write_short = on_off( w, 1, 3, 200000);
   if( !w.chance( 2, 3)) return;
   s.fault.read_eio = on_off( w, 1, 3, 30000);
   if( s.fault.read_eio) s.fault.read_eio_from = (long)w.choose( 3) * (long)w.choose( 20000);
   s.fault.open_fail = on_off( w, 1, 4, 60000);
   s.fault.alloc_fail = on_off( w, 1, 4, 60000);
   s.fault.write_fail = on_off( w, 1, 3, 60000);
   s.fault.close_fail = on_off( w, 1, 4, 100000);
   if( w.chance( 1, 6)) s.fs.quota = (long)w.choose( 6000);
   s.fault.stdout_faults = w.chance( 1, 2);
   s.fault.budget = 1 + (int)w.choose( 2);
   if( kills) { s.fault.kill = on_off( w, 1, 3, 3000); s.fault.kill_budget = 1; }
}
std::vector<std::string> tab_args( Tape &w, const Tab &t, const std::string &logf, const std::string &datf)
{
   std::vector<std::string> a = { "phases", strf( "%.2f", t.y0) }, o;
   o.push_back( strf( "-%c%.2f", w.chance( 1, 4) ? 'M' : 'm', t.y1));
   if( t.log) o.push_back( "-l" + logf);
   if( t.dat) o.push_back( "-d" + datf);
   if( t.chinese) o.push_back( "-c");
   if( t.verbose) o.push_back( "-v");
   if( t.julian) o.push_back( w.chance( 1, 2) ? "-j" : "-J");
   while( o.size( )) { size_t i = w.choose( (u32)o.size( )); a.push_back( o[i]); o.erase( o.begin( ) + i); }
   return a;
}
/* how it ended;  true if its output is to be looked at */
bool look_at( Sim &sim, Proc *p, bool must_fail, const std::string &why)
{
   if( p->mem_error) { sim.violate( "memory", p->mem_note); return false; }
   if( p->end == END_KILLED || p->end == END_CUT) { sim.count( "probe.killed"); return false; }
   if( p->end != END_EXIT) { sim.violate( "crash", p->name + ": " + p->describe( ) + " " + p->err.substr( 0, 200)); return false; }
   if( p->code)
      {
      if( !must_fail && !p->n_hard_faults) sim.violate( "failed-without-cause", p->name + ": " + p->describe( ) + " " + (p->out + p->err).substr( 0, 300));
      else sim.count( "probe.reported_failure");
      return false;
      }
   if( must_fail) { sim.violate( "failure-not-told", p->name + " reported success although " + why); return false; }
   sim.count( p->n_hard_faults ? "probe.success_despite_fault" : "probe.success");
   return true;
}
Proc *start( Sim &s, const std::string &prog, int slot, std::vector<std::string> args)
{
   Module *m = get_module( prog, slot);
   m->restore( );
   return s.spawn( strf( "%s#%d", prog.c_str( ), slot), m, program( m, args));
}
void setup( )
{
   if( !td_utc) td_utc = (double (*)( double))get_module( "phases", 0)->sym( "td_minus_utc");
}
void no_faults( Sim &s) { s.fault = FaultCfg( ); s.fs.quota = -1; s.fs.disk_full = false; }
Tab rnd_tab( Tape &w)
{
   Tab t;
   double y = w.chance( 1, 3) ? (double)( 1972 + w.choose( 60)) : (double)( 1000 + w.choose( 1800));
   if( w.chance( 1, 8)) y = -2500. + w.choose( 6000);
   t.chinese = w.chance( 1, 3);
   t.y0 = y + w.choose( 100) / 100.;
   t.y1 = t.y0 + .1 + w.choose( t.chinese ? 300 : 200) / 100.;
   t.log = w.chance( 3, 4) || t.chinese;
   t.dat = w.chance( 1, 2);
   t.verbose = w.chance( 1, 20);
   t.julian = w.chance( 1, 6);
   return t;
}
}  // namespace

SCENARIO( P25, tables, 2)
{
   Tape &w = sim.w;
   setup( );
   std::string vsop = vsop_file( ), why;
   bool must_fail = w.chance( 1, 12);
   if( must_fail) { vsop.resize( w.choose( (u32)vsop.size( ))); why = "vsop.bin was cut short"; }
   sim.fs.put( "/work/vsop.bin", vsop);
   Tab t = rnd_tab( w);
   bool two = w.chance( 1, 4);         /* two of them,  with files of their own */
   Tab t2 = two ? rnd_tab( w) : t;
   auto a = tab_args( w, t, "log", "dat"), a2 = two ? tab_args( w, t2, "log2", "dat2") : a;
   faults( sim, true);
   bool fine = false, fine2 = !two;
   for( int pass = 0; pass < 4 && (!fine || !fine2); pass++)
      {
      if( pass == 3) no_faults( sim);
      Proc *p = fine ? NULL : start( sim, "phases", 0, a), *q = fine2 ? NULL : start( sim, "phases", 1, a2);
      sim.run( );
      if( p && look_at( sim, p, must_fail, why))
         {
         fine = true;
         if( check_tables( sim, t, p->out, sim.fs.get( "/work/log"), sim.fs.get( "/work/dat"))) sim.nontrivial = true, sim.count( "probe.table_checked");
         if( !t.log && sim.fs.exists( "/work/log")) sim.violate( "table", "a log nobody asked for");
         }
      if( q && look_at( sim, q, must_fail, why))
         {
         fine2 = true;
         if( check_tables( sim, t2, q->out, sim.fs.get( "/work/log2"), sim.fs.get( "/work/dat2"))) sim.nontrivial = true, sim.count( "probe.table_checked");
         }
      if( must_fail || sim.violations.size( )) { sim.nontrivial = true; return; }
      }
   if( getenv( "P25_WORST")) fprintf( stdout, "%.2f %.2f %.1f\n", t.y0, t.y1, g_worst * 86400.), g_worst = 0.;
   if( !fine || !fine2) sim.violate( "no-recovery", "the tables could not be made after the faults had stopped");
}

/* ---- the Chinese calendar */
namespace {
struct ChYear { int months = 0, leap = 0, offset = 0; unsigned mask = 0; };
/* What the rules make of the sorted log:  a year runs from one winter solstice to
the next;  if it has thirteen new moons,  the first month with no principal term is
a leap one,  named after the month before. */
struct Chinese { std::map<long, ChYear> years; long year0 = 0; int complete = 0; std::string listing; bool shown = false; };
Chinese chinese_model( const std::vector<std::string> &lines)
{
   Chinese r;
   struct Mon { long jd; long year; int num; bool leap; };
   std::vector<Mon> months;
   std::vector<size_t> sols;
   for( size_t i = 0; i < lines.size( ); i++)
      if( lines[i][8] == 'z' && atoi( lines[i].c_str( ) + lines[i].size( ) - 8) == 11) sols.push_back( i);
   for( size_t s = 0; s + 1 < sols.size( ); s++)
      {
      long year = atol( lines[sols[s]].c_str( ) + lines[sols[s]].size( ) - 5);
      int num = 12, n = 0;
      bool had = false;
      if( !r.year0) r.year0 = year + 1;
      for( size_t i = sols[s]; i < sols[s + 1]; i++) n += lines[i][8] == ' ';
      r.listing += "\n";
      for( size_t i = sols[s]; i < sols[s + 1]; i++)
         {
         if( lines[i][8] == 'z') { r.listing += lines[i] + "\n"; continue; }
         Mon m = { atol( lines[i].c_str( )), year, num, false };
         if( n == 13 && !had && lines[i + 1][8] == ' ')
            {
            m = months.size( ) ? months.back( ) : Mon{ 0, year, 11, true };
            m.jd = atol( lines[i].c_str( ));
            m.leap = had = true;
            }
         else if( num++ == 12) { num = 1; year++; }
         months.push_back( m);
         r.listing += lines[i].substr( 0, 31) + strf( "%4d%c%5ld\n", m.num, m.leap ? 'i' : ' ', m.year);
         }
      }
   r.complete = (int)sols.size( ) - 2;
   for( size_t i = 0; i + 1 < months.size( ); i++)
      {
      ChYear &y = r.years[months[i].year];
      if( months[i].leap) y.leap = months[i].num;
      else if( months[i].num == 1) y.offset = (int)( months[i].jd + 1 - (months[i].year * 365 + months[i].year / 4 + 757862L));
      if( months[i + 1].jd - months[i].jd == 30) y.mask |= 1u << y.months;
      y.months++;
      }
   return r;
}
}  // namespace

SCENARIO( P25, chinese, 1)
{
   Tape &w = sim.w;
   setup( );
   Tab t = { };
   t.y0 = (w.chance( 1, 4) ? -900. + w.choose( 4000) : 1650. + w.choose( 500)) + w.choose( 100) / 100.;
   t.y1 = t.y0 + 4. + w.choose( 12);
   t.chinese = t.log = true;
   std::string log;
   {
   RefWorld ref;
   ref.sim.fs.put( "/work/vsop.bin", vsop_file( ));
   Proc *p = start( ref.sim, "phases", 0, tab_args( w, t, "log", "dat"));
   ref.sim.run( );
   log = ref.sim.fs.get( "/work/log");
   if( !p->clean( )) { ref.leave( ); sim.violate( "failed-without-cause", "phases " + p->describe( )); return; }
   ref.leave( );
   check_tables( sim, t, p->out, log, "");
   if( sim.violations.size( )) return;
   }
   std::vector<std::string> lines = split_lines( log);
   std::sort( lines.begin( ), lines.end( ));
   while( lines.size( ) && lines.back( )[8] == ' ') lines.pop_back( );   /* whose year's end is not in the file */
   size_t sol = 0;
   while( sol < lines.size( ) && (lines[sol][8] != 'z' || atoi( lines[sol].c_str( ) + lines[sol].size( ) - 8) != 11)) sol++;
   if( sol == lines.size( )) return;
   size_t drop = w.chance( 1, 2) ? sol : (sol > 20 ? sol - w.choose( 20) : w.choose( (u32)sol + 1));
   lines.erase( lines.begin( ), lines.begin( ) + drop);
   Chinese m = chinese_model( lines);
   if( m.complete < 1) return;
   std::string text;
   bool must_fail = w.chance( 1, 15), listing_only = false;
   if( must_fail)                      /* a line too many */
      {
      size_t at = sol - drop + 1 + w.choose( 20);
      for( int i = 0; i < 3; i++) lines.insert( lines.begin( ) + at, lines[at]);
      }
   for( auto &l : lines) text += l + "\n";
   sim.fs.put( "/work/sorted", text);
   const int n_years = 1 + (int)w.choose( (u32)m.complete);
   std::vector<std::string> a = { "chinese", "sorted", strf( "%d", n_years) };
   (void)listing_only;
   std::string want, tail = strf( "Writing %d years,  year0 = %ld\n", n_years, m.year0);
   auto put16 = [&]( long v) { want += (char)( v & 255); want += (char)( (v >> 8) & 255); };
   put16( n_years); put16( m.year0);
   for( int i = 0; i < n_years; i++)
      {
      ChYear &y = m.years[m.year0 + i];
      unsigned long v = y.mask + y.leap * 8192ul + y.offset * 8192ul * 14ul;
      for( int j = 0; j < 3; j++) want += (char)( (v >> (8 * j)) & 255);
      tail += strf( "  Year %4ld: offset %d, intercalary %2d, mask %04x\n", m.year0 + i, y.offset & 255, y.leap, y.mask);
      }
   std::string out = strf( "Looking for %d years of data\n", n_years) + m.listing + tail;
   sim.sample = strf( "%d years of the Chinese calendar from %ld", n_years, m.year0);
   faults( sim, true);
   bool fine = false;
   for( int pass = 0; pass < 4 && !fine; pass++)
      {
      if( pass == 3) no_faults( sim);
      Proc *p = start( sim, "chinese", 0, a);
      sim.run( );
      if( look_at( sim, p, must_fail, "a year has too many lines"))
         {
         fine = true;
         std::string got = sim.fs.get( "/work/chinese.dat");
         if( p->out != out) sim.violate( "chinese", "listing: " + first_diff( p->out, out));
         else if( got != want) sim.violate( "chinese", strf( "chinese.dat differs from what the rules give,  from %ld on,  %d years (%zu, %zu bytes)", m.year0, n_years, got.size( ), want.size( )));
         else sim.count( "probe.chinese_checked");
         sim.nontrivial = true;
         }
      if( must_fail || sim.violations.size( )) { sim.nontrivial = true; return; }
      }
   if( !fine) sim.violate( "no-recovery", "chinese.dat could not be made after the faults had stopped");
}

/* ---- wall calendars */
namespace {
struct Event { int month, day; std::string file_text, text; bool bold, blood, symbol; };
std::string unparen( const std::string &s)
{
   std::string r;
   for( char c : s) if( c == '(') r += "\\050"; else if( c == ')') r += "\\051"; else r += c;
   return r;
}
long hebrew_new_year( long y)          /* JDN of 1 Tishri */
{
   auto elapsed = [ ]( long yr) {
      long m = (235 * yr - 234) / 19, parts = 12084 + 13753 * m, d = 29 * m + parts / 25920;
      return (3 * (d + 1)) % 7 < 3 ? d + 1 : d; };
   long a = elapsed( y - 1), b = elapsed( y), c = elapsed( y + 1);
   int delay = c - b == 356 ? 2 : (b - a == 382 ? 1 : 0);
   return b + delay + 347998;
}
struct Cal {
   int year, month;
   bool dollhouse, single, legal, wrap, kate, phases;
   int jd_style;
};
struct Drawn { int x, y; std::string pre, text; };
/* where things are to be:  columns are days of the week from Sunday */
bool check_month( Sim &sim, const Cal &c, int month, const std::string &ps, const std::vector<Event> &evs, const std::vector<std::pair<double, int>> &ph)
{
   const int width = c.legal ? 1008 : 792, xs = (width - 60) / 7, X = 20, Y = 20, H = 104;
   auto weekday = [ ]( long jd) { return (int)( (jd + 1) % 7); };          /* 0 = Sunday */
   auto sane = [ ]( int &m, long &y) { while( m < 1) m += 12, y--; while( m > 12) m -= 12, y++; };
   std::vector<Drawn> got;
   for( auto &l : split_lines( ps))
      {
      int x, y, n = 0;
      if( sscanf( l.c_str( ), "%d %d moveto %n", &x, &y, &n) != 2 || !n || l.size( ) < 5 || l.compare( l.size( ) - 5, 5, " show")) continue;
      got.push_back( Drawn{ x, y, "", l.substr( n, l.size( ) - 5 - n) });
      }
   /* the symbol font takes lines of its own */
   std::vector<std::string> all = split_lines( ps);
   std::map<std::string, std::vector<Drawn>> where;
   for( auto &d : got) where[d.text].push_back( d);
   auto have = [&]( const std::string &t) { return where.count( t) ? where[t].size( ) : 0; };
   long y = c.year;
   const int nd = month_len( y, month), w1 = weekday( jdn( y, month, 1));
   auto col = [&]( int d) { return (w1 + d - 1) % 7; };
   auto row = [&]( int d) { return (w1 + d - 1) / 7; };
   std::set<int> busy;                 /* cells with a day in them */
   std::vector<int> cell( nd + 1);
   std::vector<bool> dbl( nd + 1, false);
   for( int d = 1; d <= nd; d++)
      {
      int r = row( d);
      bool share = !c.wrap && r == 4 && d + 7 <= nd;
      std::string lab = share ? strf( "(%d/%d)", d, d + 7) : strf( "(%d)", d);
      if( r == 5 && c.wrap) r = 0;
      cell[d] = (r == 5 ? 4 : r) * 7 + col( d);
      dbl[d] = share || r == 5;
      busy.insert( cell[d]);
      if( r == 5) continue;            /* named with the day a week before */
      int n = 0;
      for( auto &q : where[lab]) n += q.x == X + xs * col( d) + 3 && q.y == Y + (5 - r) * H - 15;
      if( n != 1) BAD( "day %s of month %d is in its place %d times", lab.c_str( ), month, n);
      }
   /* events,  in the order of the files,  then the lunar phases */
   struct Want { int day; std::string text; bool phase; };
   std::vector<Want> want;
   for( auto &e : evs) if( e.month == month && e.day <= nd) want.push_back( Want{ e.day, e.text, false });
   for( auto &p : ph)
      {
      static const char *nm[4] = { "New moon", "First quarter", "Full moon", "Last quarter" };
      long day = (long)floor( p.first + .5) - jdn( y, month, 1) + 1;
      if( day >= 1 && day <= nd && !c.kate) want.push_back( Want{ (int)day, strf( "(%s)", nm[p.second]), true });
      }
   size_t n_small = 0;
   std::map<int, std::vector<std::pair<int, int>>> heights;        /* by day:  of the texts */
   std::map<std::string, int> expect;
   std::map<int, int> full;
   for( auto &q : want) if( ++full[cell[q.day]] > 7) return false;     /* more than a cell holds */
   for( auto &q : want)
      {
      std::string t = (dbl[q.day] ? strf( "((%d) ) show ", q.day) : std::string( )) + q.text;
      expect[strf( "%d ", cell[q.day]) + t]++;
      }
   for( auto &e : expect)
      {
      int ce = atoi( e.first.c_str( ));
      std::string t = e.first.substr( e.first.find( ' ') + 1);
      int n = 0;
      for( auto &d : where[t])
         n += d.x >= X + xs * (ce % 7) && d.x < X + xs * (ce % 7 + 1) && d.y <= Y + H * (5 - ce / 7) && d.y > Y + H * (4 - ce / 7);
      if( n != e.second) BAD( "'%s' in cell %d of month %d %d times,  not %d", t.c_str( ), ce, month, n, e.second);
      }
   /* every text in a cell of a day is one that is to be there,  and no two are on top of one another */
   std::map<std::pair<int, int>, int> spots;
   size_t in_cells = 0;
   for( auto &d : got)
      {
      if( d.y >= Y + 5 * H || d.y < Y || d.x < X) continue;
      int ce = (4 - (d.y - Y) / H) * 7 + (d.x - X) / xs;
      if( !busy.count( ce) || (d.x - X) % xs == 1) continue;
      in_cells++;
      if( spots[{ d.x, d.y }]++) BAD( "two texts on the same spot,  %d %d,  in month %d", d.x, d.y, month);
      }
   size_t labels = 0;
   for( int d = 1; d <= nd; d++) labels += row( d) != 5 || c.wrap;
   if( in_cells != labels + want.size( )) BAD( "%zu texts in the days of month %d,  not %zu", in_cells, month, labels + want.size( ));
   /* days of the week,  title */
   static const char *dow[7] = { "(Sunday)", "(Monday)", "(Tuesday)", "(Wednesday)", "(Thursday)", "(Friday)", "(Saturday)" };
   for( int i = 0; i < 7; i++)
      if( !have( dow[i]) || (where[dow[i]][0].x - X) / xs != i) BAD( "%s is not over its column", dow[i]);
   long jd1 = jdn( y, month, 1) - 2;   /* add the day of the month */
   std::string title = strf( "(%s %ld", MON[month - 1], y) + (c.jd_style == 1 ? strf( " (JD %ld.5)", jd1) : c.jd_style == 2 ? strf( " (MJD %ld)", jd1 - 2400000L) : std::string( )) + ")";
   if( have( title) < 1) BAD( "no title %s", title.c_str( ));
   /* small calendars in the cells left over:  two months before,  then those after */
   int off = -2;
   for( int ce = 0; ce < 35; ce++)
      if( !busy.count( ce))
         {
         int m = month + off++;
         long yy = y;
         if( !off) off = 1;
         sane( m, yy);
         const int x0 = X + (ce % 7) * xs + 1, top = Y + H * (5 - ce / 7);
         n_small++;
         std::string name = strf( "(%s %ld)", MON[m - 1], yy);
         bool named = false;
         for( auto &d : where[name]) named |= d.y == top - 12 && d.x >= x0 && d.x < x0 + xs;
         if( !named) BAD( "no %s in cell %d of month %d", name.c_str( ), ce, month);
         const long first = jdn( yy, m, 1);
         const int days = month_len( yy, m), s0 = weekday( first);
         for( int r = 0; r < 6; r++)
            {
            std::string l( 20, ' ');
            for( int j = 0; j < 7; j++)
               {
               int d = r * 7 + j - s0 + 1;
               if( d < 1 || d > days) continue;
               std::string t = strf( "%2d", d);
               for( auto &p : ph) if( (long)floor( p.first + .5) == first + d - 1) t = std::string( "NM1QFM3Q").substr( p.second * 2, 2);
               l.replace( j * 3, 2, t);
               }
            while( l.size( ) && l.back( ) == ' ') l.pop_back( );
            std::string at;
            for( auto &d : got) if( d.x == x0 && d.y == top - 12 * (r + 2)) at += d.text;
            if( at != (l.empty( ) ? l : "(" + l + ")")) BAD( "week %d of %s says '%s',  not '%s'", r + 1, name.c_str( ), at.c_str( ), l.c_str( ));
            }
         std::string tag = c.jd_style == 1 ? strf( "((JD %ld.5))", first - 2) : strf( "((MJD %ld))", first - 2400002L);
         bool tagged = false;
         for( auto &d : where[tag]) tagged |= d.x == x0 && d.y == top - 96;
         if( c.jd_style && !tagged) BAD( "no %s under %s", tag.c_str( ), name.c_str( ));
         }
   sim.count( "probe.small_months", n_small);
   return true;
}
#undef BAD
bool check_calendar( Sim &sim, const Cal &c, const std::string &ps, const std::vector<Event> &evs, const std::vector<std::pair<double, int>> &ph)
{
   if( !c.dollhouse)
      {
      if( ps.size( ) < 40 || ps.back( ) != '\n' || ps.compare( 0, 4, "%!PS")) { sim.violate( "calendar", "not a whole PostScript file"); return false; }
      return check_month( sim, c, c.month, ps, evs, ph);
      }
   if( ps.size( ) < 40 || ps.substr( ps.size( ) - 19) != " grestore showpage\n") { sim.violate( "calendar", "no showpage at the end"); return false; }
   for( int m = 1; m <= 12; m++)
      {
      size_t a = ps.find( strf( "/calendar_%d {", m)), b = a == std::string::npos ? a : ps.find( "} def\n/calendar_", a);
      if( a == std::string::npos) { sim.violate( "calendar", strf( "month %d isn't there", m)); return false; }
      if( !check_month( sim, c, m, ps.substr( a, b == std::string::npos ? b : b - a), evs, ph)) return false;
      }
   return true;
}
std::string words( Tape &w, int max_len)
{
   static const char *t[] = { "Birthday", "of", "Ann", "(1952)", "Perseids", "rent due", "X", "dentist 10:30", "a/b", "Full moon party", "opposition of Mars", "(", ")", "Fred", "50%d", "%s", "New moon" };
   std::string s = t[w.choose( 11)];
   for( int n = (int)w.choose( 4); n > 0; n--) { std::string u = s + " " + t[w.choose( 17)]; if( (int)u.size( ) > max_len) break; s = u; }
   return s;
}
}  // namespace

SCENARIO( P25, calendar, 2)
{
   Tape &w = sim.w;
   setup( );
   Cal c = { };
   c.year = w.chance( 1, 5) ? 1600 + (int)w.choose( 1300) : 1972 + (int)w.choose( 80);
   c.month = 1 + (int)w.choose( 12);
   c.dollhouse = w.chance( 1, 6);
   c.single = w.chance( 1, 2);
   c.legal = w.chance( 1, 5);
   c.wrap = w.chance( 1, 4);
   c.kate = w.chance( 1, 10);
   c.phases = w.chance( 3, 4);
   c.jd_style = w.chance( 1, 3) ? 1 + (int)w.choose( 2) : 0;
   sim.fs.put( "/work/vsop.bin", vsop_file( ));
   /* events */
   std::vector<Event> evs;
   std::string files[2];
   static const char *cats[] = { "dates.txt", "katedate.txt" };
   for( int f = 0; f < (c.kate ? 1 : 2); f++)
      for( int i = (int)w.choose( 10); i > 0; i--)
         {
         if( w.chance( 1, 8)) { static const char *other[] = { "\n", "; comment\n", "  Jan 01 not in use\n", "# May 12 whatever\n" }; files[f] += other[w.choose( 4)]; }
         int m = w.chance( 1, 2) ? c.month : 1 + (int)w.choose( 12), d = 1 + (int)w.choose( 31), n = 1;
         std::vector<int> days = { d };
         std::string head = strf( "%.3s %02d", MON[m - 1], d), text = words( w, 50), pre, show;
         if( w.chance( 1, 5))
            {
            int dow = (int)w.choose( 7);
            head += strf( "/%d ", dow);
            while( (jdn( c.year, m, 1) + days[0] - 1 + 1) % 7 != dow) days[0]++;
            }
         else
            {
            if( w.chance( 1, 5)) for( n = (int)w.choose( 4); n > 0; n--) { days.push_back( 1 + (int)w.choose( 31)); head += strf( ",%d", days.back( )); }
            head += ' ';
            }
         bool bold = w.chance( 1, 10), blood = w.chance( 1, 10);
         if( (int)( head.size( ) + text.size( )) > 74) continue;
         if( blood) pre = "+ ";
         show = blood ? "blood (" : "(";
         files[f] += head + (bold ? "^" : "") + pre + text + (w.chance( 1, 10) ? "\r\n" : "\n");
         for( int q : days) evs.push_back( Event{ m, q, "", show + unparen( text) + ")", bold, blood, false });
         }
   for( int f = 0; f < 2; f++)
      if( files[f].size( )) sim.fs.put( "/work/" + (f ? strf( "date%d.txt", c.year) : std::string( cats[c.kate])), files[f]);
   long rh = hebrew_new_year( c.year + 3761);
   for( int i = 0; i < 2; i++)
      for( int m = 1; m <= 12; m++)
         {
         long d = rh + 9 * i - jdn( c.year, m, 1) + 1;
         if( d >= 1 && d <= month_len( c.year, m)) evs.push_back( Event{ m, (int)d, "", i ? "(Yom Kippur)" : "(Rosh Hashanah)", false, false, false });
         }
   /* phases */
   std::vector<std::pair<double, int>> ph;
   Tab t = { };
   const bool far = w.chance( 1, 2);
   const char *place = far ? "/home/phred/guide9/vsop/phases.dat" : "/work/phases.dat";
   bool unsure = false;
   t.y0 = c.year - .7 - w.choose( 100) / 100.;
   t.y1 = c.year + 2. + w.choose( 100) / 100.;
   t.dat = true;
   if( c.phases)
      for( double k = floor( (c.year - 2000.4) * 12.3685); k < (c.year + 1 - 2000. + .5) * 12.3685; k += .25)
         {
         double u = to_utc( phase_time( k));
         if( fabs( centred( u - .5, 1.)) < 8. / 86400.) unsure = true;
         ph.push_back( { u, (int)floor( fmod( k + 10000., 1.) * 4. + .5) });
         }
   std::vector<std::string> o, a = { "calendar" };
   if( c.dollhouse) { a.push_back( strf( "%d", c.year)); o.push_back( "-d"); }
   else if( w.chance( 1, 2)) { a.push_back( strf( "%d", c.year)); a.push_back( strf( "%d", c.month)); }
   else { a.push_back( strf( "%d", c.month)); a.push_back( strf( "%d", c.year)); }
   if( c.single) o.push_back( "-s");
   if( c.legal) o.push_back( "-l");
   if( c.wrap) o.push_back( "-w");
   if( c.kate) o.push_back( "-k");
   if( c.jd_style) o.push_back( c.jd_style == 1 ? "-j" : "-m");
   bool to_file = w.chance( 1, 2);
   if( to_file) o.push_back( "-ocal.ps");
   bool first = true;
   while( o.size( )) { size_t i = c.dollhouse && first ? 0 : w.choose( (u32)o.size( )); first = false; a.push_back( o[i]); o.erase( o.begin( ) + i); }
   for( auto &s : a) sim.sample += s + " ";
   std::string want;
   faults( sim, true);
   FaultCfg fc = sim.fault;
   auto make_phases = [&]( ) { return start( sim, "phases", 0, { "phases", strf( "%.2f", t.y0), strf( "-m%.2f", t.y1), strf( "-d%s", place) }); };
   const bool together = c.phases && w.chance( 1, 3);      /* while the table of phases is being rewritten */
   if( c.phases && (!together || w.chance( 3, 4)))
      {
      if( !w.chance( 1, 4)) no_faults( sim);
      for( int pass = 0; pass < 2; pass++)
         {
         Proc *p = make_phases( );
         sim.run( );
         if( look_at( sim, p, false, "")) break;
         sim.fs.files.erase( place);       /* said it's not to be used */
         if( together && pass == 0 && w.chance( 1, 2)) break;          /* left as it is */
         no_faults( sim);
         }
      sim.fault = fc;
      if( sim.violations.size( )) return;
      }
   bool fine = false;
   std::string last;
   for( int pass = 0; pass < 4 && !fine; pass++)
      {
      if( pass == 3) no_faults( sim);
      Proc *p = together && pass < 3 ? make_phases( ) : NULL;
      if( together && pass == 3) { make_phases( ); sim.run( ); }
      const bool was_there = sim.fs.exists( place) || !c.phases;
      Proc *q = start( sim, "calendar", 0, a);
      sim.run( );
      if( p) look_at( sim, p, false, "");
      bool spoilt = false;             /* a write failed,  what follows has moved up */
      if( p) for( auto &f : p->fault_notes) spoilt |= f.find( "write_fail") != std::string::npos || f.find( "enospc") != std::string::npos;
      if( p && !p->clean( ) && (spoilt || p->end == END_EXIT)) { sim.fs.files.erase( place); if( q->end == END_EXIT) continue; }       /* said it's not to be used */
      if( q->code && p && q->end == END_EXIT && !q->n_hard_faults) { sim.count( "probe.met_a_partial_table"); continue; }
      if( q->code && together && !q->n_hard_faults && pass < 3 && q->end == END_EXIT) continue;    /* what's left of a table */
      if( look_at( sim, q, false, ""))
         {
         std::string ps = to_file ? sim.fs.get( "/work/cal.ps") : q->out;
         if( p && !was_there) continue;          /* there may have been no table yet */
         fine = true;
         if( !unsure && check_calendar( sim, c, ps, evs, ph)) sim.count( "probe.calendar_checked");
         sim.nontrivial = true;
         if( sim.violations.size( )) return;
         }
      if( sim.violations.size( )) { sim.nontrivial = true; return; }
      }
   if( !fine) { sim.violate( "no-recovery", "the calendar could not be made after the faults had stopped"); return; }
   /* and once more,  undisturbed:  the same */
   std::string had = to_file ? sim.fs.get( "/work/cal.ps") : sim.procs.back( )->out;
   RefWorld ref;
   for( auto &f : ref.saved.sim->fs.files) ref.sim.fs.put( f.first, f.second->data);
   Proc *r = start( ref.sim, "calendar", 1, a);
   ref.sim.run( );
   std::string now = to_file ? ref.sim.fs.get( "/work/cal.ps") : r->out;
   ref.leave( );
   if( !together && now != had) sim.violate( "calendar", "differs from that of an undisturbed run: " + first_diff( had, now));
}
