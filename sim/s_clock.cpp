/* P15: everything that reads the clock, while the clock is stepped */
#include "util.h"
#include <math.h>

namespace {
typedef double (*cur_t)( void);
typedef int64_t (*ns_t)( void);
typedef long double (*gt_t)( long double, const char *, int, int *);
typedef long double (*ph_t)( int, long double);

const int64_t DAY_US = 86400LL * 1000000LL;
const int J2K_FROM_1970 = 10957;           /* 2000 Jan 1 - 1970 Jan 1,  days */

long days_from_civil( long y, int m, int d)     /* since 1970 Jan 1, Gregorian */
{
   y -= m <= 2;
   long era = (y >= 0 ? y : y - 399) / 400;
   unsigned yoe = (unsigned)( y - era * 400);
   unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
   unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
   return era * 146097 + (long)doe - 719468;
}
void civil( long z, long &y, int &m, int &d)
{
   z += 719468;
   long era = (z >= 0 ? z : z - 146096) / 146097;
   unsigned doe = (unsigned)( z - era * 146097);
   unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
   y = (long)yoe + era * 400;
   unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
   unsigned mp = (5 * doy + 2) / 153;
   d = doy - (153 * mp + 2) / 5 + 1;
   m = mp < 10 ? mp + 3 : mp - 9;
   y += m <= 2;
}
int64_t fdiv( int64_t a, int64_t b) { int64_t q = a / b; return q - (a % b < 0); }
/* seconds since 1970 -> days since J2000.0 (1.5 Jan 2000) */
long double t2k( long double sec) { return sec / 86400.L - J2K_FROM_1970 - .5L; }
std::string wall_text( int64_t us)
{
   long y; int m, d;
   int64_t s = fdiv( us, 1000000);
   civil( fdiv( s, 86400), y, m, d);
   int64_t sod = s - fdiv( s, 86400) * 86400;
   return strf( "%04ld-%02d-%02d %02d:%02d:%02d", y, m, d, (int)( sod / 3600), (int)( sod / 60 % 60), (int)( sod % 60));
}
/* An instant to set the clock to:  anything from 1970 to 2260,  often just
before or after midnight,  new year or the turn of a month */
int64_t any_time( Tape &w)
{
   long y = w.chance( 1, 2) ? 2023 + (long)w.choose( 8) : 1970 + (long)w.choose( 290);
   int m = 1, d = 1;
   if( w.chance( 2, 3)) { m = 1 + (int)w.choose( 12); d = 1 + (int)w.choose( 28); }
   int64_t s = (int64_t)days_from_civil( y, m, d) * 86400;
   switch( w.choose( 4))
      {
      case 0: s += (int)w.choose( 86400); break;
      case 1: s += (int)w.choose( 3); break;
      case 2: s -= 1 + (int)w.choose( 3); break;
      case 3: s += 43200 - 2 + (int)w.choose( 4); break;
      }
   if( s < 86400) s = 86400;
   return s * 1000000 + (w.chance( 1, 3) ? (w.chance( 1, 2) ? 999999 : 0) : w.choose( 1000000));
}
const char *MON[12] = { "jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec" };
const char *DOW[7] = { "sun", "mon", "tue", "wed", "thu", "fri", "sat" };
/* Degrees by which the Moon's longitude exceeds the Sun's (principal terms of Meeus,  chapters 25 and 47) */
double elongation( double t2k)
{
   static const struct { int d, m, mp, f; double a; } T[] = {
      { 0, 0, 1, 0, 6.288774 }, { 2, 0, -1, 0, 1.274027 }, { 2, 0, 0, 0, .658314 }, { 0, 0, 2, 0, .213618 }, { 0, 1, 0, 0, -.185116 },
      { 0, 0, 0, 2, -.114332 }, { 2, 0, -2, 0, .058793 }, { 2, -1, -1, 0, .057066 }, { 2, 0, 1, 0, .053322 }, { 2, -1, 0, 0, .045758 },
      { 0, 1, -1, 0, -.040923 }, { 1, 0, 0, 0, -.034720 }, { 0, 1, 1, 0, -.030383 }, { 2, 0, 0, -2, .015327 }, { 0, 0, 1, 2, -.012528 },
      { 0, 0, 1, -2, .010980 }, { 4, 0, -1, 0, .010675 }, { 0, 0, 3, 0, .010034 }, { 4, 0, -2, 0, .008548 }, { 2, 1, -1, 0, -.007888 },
      { 2, 1, 0, 0, -.006766 }, { 1, 0, -1, 0, -.005163 }, { 1, 1, 0, 0, .004987 }, { 2, -1, 1, 0, .004036 }, { 2, 0, 2, 0, .003994 },
      { 4, 0, 0, 0, .003861 }, { 2, 0, -3, 0, .003665 } };
   const double c = t2k / 36525., r = M_PI / 180.;
   const double d = 297.8501921 + 445267.1114034 * c - .0018819 * c * c, m = 357.5291092 + 35999.0502909 * c, mp = 134.9633964 + 477198.8675055 * c + .0087414 * c * c, f = 93.2720950 + 483202.0175233 * c;
   double e = d + .00569 - (1.914602 - .004817 * c) * sin( m * r) - .019993 * sin( 2. * m * r) - .00029 * sin( 3. * m * r);
   for( auto &t : T) e += t.a * sin( (t.d * d + t.m * m + t.mp * mp + t.f * f) * r);
   return e - 360. * floor( e / 360.);
}
enum { Q_NS, Q_JD, Q_NOW, Q_TIME, Q_DOW, Q_PHASE, Q_YY, Q_FIXED, Q_DATE, N_Q };
struct Q {
   int kind = 0;
   std::string text;
   long double off = 0;                   /* days added by trailing offsets */
   int h = 0, mi = 0, s = 0, sel = 0, yy = 0, mm = 1, dd = 1;
   bool two = true, half = false;
   long double initial = 0;
};
std::string offsets( Tape &w, long double &off)
{
   static const struct { char c; long double d; } U[] = { { 'd', 1.L }, { 'h', 1.L / 24 }, { 'm', 1.L / 1440 }, { 's', 1.L / 86400 }, { 'w', 7.L },
                  { 'l', 29.530588853L }, { 'y', 365.25L }, { 'c', 36525.L } };
   std::string r;
   off = 0;
   int n = (int)w.choose( 3);
   for( int i = 0; i < n; i++)
      {
      int u = w.chance( 3, 4) ? (int)w.choose( 5) : (int)w.choose( 8), v = 1 + (int)w.choose( U[u].c == 'c' ? 9 : 99);
      bool neg = w.chance( 1, 2);
      if( w.chance( 1, 8))
         {
         int tenths = v * 10 + (int)w.choose( 10);
         r += strf( " %c%d.%d%c", neg ? '-' : '+', tenths / 10, tenths % 10, U[u].c);
         off += (neg ? -tenths : tenths) / 10.L * U[u].d;
         continue;
         }
      r += strf( " %c%d%c", neg ? '-' : '+', v, U[u].c);
      off += (neg ? -v : v) * U[u].d;
      }
   return r;
}
Q make_q( Tape &w)
{
   Q q;
   q.kind = (int)w.choose( N_Q);
   q.initial = (long double)( (int)w.choose( 80000) - 20000) + (long double)w.choose( 1000) / 1000.;
   switch( q.kind)
      {
      case Q_NOW: q.text = "now" + offsets( w, q.off); break;
      case Q_TIME:
         q.h = (int)w.choose( 24); q.mi = (int)w.choose( 60); q.s = (int)w.choose( 60);
         switch( w.choose( 3))
            {
            case 0: q.text = strf( "now %d:%02d", q.h, q.mi); q.s = 0; break;
            case 1: q.text = strf( "now %d:%02d:%02d", q.h, q.mi, q.s); break;
            case 2: q.text = strf( "now %d:%02d:%02d %s", (q.h + 11) % 12 + 1, q.mi, q.s, q.h < 12 ? "am" : "pm"); break;
            }
         q.text += offsets( w, q.off);
         break;
      case Q_DOW:
         q.sel = (int)w.choose( 7);
         q.text = strf( "now %s", DOW[q.sel]);
         break;
      case Q_PHASE:
         q.sel = (int)w.choose( 4);
         q.text = strf( "now %c%c", "n1f3"[q.sel], "mqmq"[q.sel]) + offsets( w, q.off);
         break;
      case Q_YY:
         q.yy = 1 + (int)w.choose( 99); q.mm = 1 + (int)w.choose( 12); q.dd = 1 + (int)w.choose( 28);
         q.two = w.chance( 4, 5);
         switch( q.yy > 32 ? w.choose( 3) : w.choose( 2))
            {
            case 0: q.text = strf( "%d %s %02d", q.dd, MON[q.mm - 1], q.yy); break;
            case 1: q.text = strf( "%02d %d %d", q.yy, q.mm, q.dd); break;
            case 2: q.text = strf( "%s %d %02d", MON[q.mm - 1], q.dd, q.yy); break;
            }
         if( q.text.find_first_of( "abcdefghijklmnopqrstuvwxyz") != std::string::npos && q.yy <= 32)
            q.text = strf( "%02d %s %d", q.yy, MON[q.mm - 1], q.dd);     /* year first,  as the format says */
         if( w.chance( 1, 4))             /* a decimal day tells which one is the year */
            {
            q.half = true;
            switch( w.choose( 3))
               {
               case 0: q.text = strf( "%d.5 %s %02d", q.dd, MON[q.mm - 1], q.yy); break;
               case 1: q.text = strf( "%02d %s %d.5", q.yy, MON[q.mm - 1], q.dd); break;
               case 2: q.text = strf( "%s %d.5 %02d", MON[q.mm - 1], q.dd, q.yy); break;
               }
            }
         break;
      case Q_FIXED:
         switch( w.choose( 8))
            {
            case 0: q.text = strf( "2%06d.%d", (int)w.choose( 800000), (int)w.choose( 10)); break;
            case 1: q.text = strf( "mjd %d.25", (int)w.choose( 99999)); break;
            case 2: q.text = strf( "%d mar %d", 1 + (int)w.choose( 28), 1600 + (int)w.choose( 600)); break;
            case 3: q.text = strf( "%04d-%02d-%02dT%02d:%02d:%02d", 1800 + (int)w.choose( 400), 1 + (int)w.choose( 12), 1 + (int)w.choose( 28), (int)w.choose( 24), (int)w.choose( 60), (int)w.choose( 60)); break;
            case 4: q.text = strf( "+%d", 1 + (int)w.choose( 400)); break;
            case 5: q.text = strf( "-%dh", 1 + (int)w.choose( 99)); break;
            case 6: q.text = strf( "%d:%02d", (int)w.choose( 24), (int)w.choose( 60)); break;
            case 7: q.text = strf( "%s", DOW[w.choose( 7)]); break;
            }
         break;
      case Q_DATE:
         q.dd = 1 + (int)w.choose( 28);
         q.text = strf( "now %d", q.dd) + offsets( w, q.off);
         break;
      }
   return q;
}
struct Ans { long double v = 0; int64_t ns = 0; double jd = 0; int ut = 0; };

const int FMT = 0x800 | 0x1000;            /* year, month, day */
const int TWO = 0x10000;

void ask( Module *m, const Q &q, Ans &a)
{
   if( q.kind == Q_NS) a.ns = ((ns_t)m->sym( "nanoseconds_since_1970"))( );
   else if( q.kind == Q_JD) a.jd = ((cur_t)m->sym( "current_jd"))( );
   else a.v = ((gt_t)m->sym( "get_time_from_stringl"))( q.initial, q.text.c_str( ), FMT | (q.two ? TWO : 0), &a.ut);
}
/* Answer of a process whose clock stands at some other instant */
const Ans &elsewhere( const Q &q)
{
   static std::map<std::string, Ans> memo;
   std::string key = q.text + strf( "|%.9Lf|%d", q.initial, q.two);
   auto it = memo.find( key);
   if( it != memo.end( )) return it->second;
   if( memo.size( ) > 5000) memo.clear( );
   Module *m = get_module( "lib", 63);
   m->restore( );
   Ans a;
   {
   RefWorld ref;
   ref.sim.wall0_us = 1234567890LL * 1000000LL;
   ref.sim.spawn( "other", m, [&]( ) -> int { ask( m, q, a); return 0; });
   ref.sim.run( );
   }
   return memo[key] = a;
}

void check( Sim &sim, const Q &q, const Ans &a, int64_t us, bool clock_failed)
{
   const long double tol = 2e-9L + 4e-15L * fabsl( a.v);         /* well below a millisecond */
   int64_t sec = fdiv( us, 1000000);
   long day = (long)fdiv( sec, 86400);
   auto bad = [&]( const char *what, long double want)
      {
      sim.violate( what, strf( "'%s' with the clock at %s gave %.9Lf,  expected %.9Lf", q.text.c_str( ), wall_text( us).c_str( ), a.v, want));
      };
   auto ymd = [&]( int mm, int dd) { long y; int m, d; civil( day, y, m, d); (void)mm; return (long double)( days_from_civil( y, m, dd) - J2K_FROM_1970) - .5L; };
   switch( q.kind)
      {
      case Q_NS:
         if( a.ns != (clock_failed ? 0 : us * 1000))
            sim.violate( "wrong-clock", strf( "nanoseconds_since_1970( ) gave %lld with the clock at %s (%lld us)%s", (long long)a.ns, wall_text( us).c_str( ), (long long)us, clock_failed ? ", clock failed" : ""));
         break;
      case Q_JD:
         {
         long double want = 2440587.5L + (clock_failed ? 0.L : (long double)us / (long double)DAY_US);
         if( !(fabsl( a.jd - want) < 2e-9L))
            sim.violate( "wrong-clock", strf( "current_jd( ) gave %.9f with the clock at %s", a.jd, wall_text( us).c_str( )));
         }
         break;
      case Q_NOW:
         {
         long double want = t2k( (long double)sec) + q.off;
         if( !(fabsl( a.v - want) < tol)) bad( "wrong-now", want);
         }
         break;
      case Q_TIME:
         {
         long double want = (long double)( day - J2K_FROM_1970) - .5L + (q.h * 3600 + q.mi * 60 + q.s) / 86400.L + q.off;
         if( !(fabsl( a.v - want) < tol)) bad( "wrong-time-today", want);
         }
         break;
      case Q_DATE:
         {
         long double want = ymd( 0, q.dd) + q.off;
         if( !(fabsl( a.v - want) < tol)) bad( "wrong-day-this-month", want);
         }
         break;
      case Q_DOW:
         {
         int today = (int)( ( (day + 4) % 7 + 7) % 7), diff = q.sel - today;
         if( diff > 3) diff -= 7;
         if( diff < -3) diff += 7;
         long double want = (long double)( day + diff - J2K_FROM_1970) - .5L;
         if( !(fabsl( a.v - want) < tol)) bad( "wrong-weekday", want);
         }
         break;
      case Q_PHASE:
         {
         long double d = fabsl( a.v - q.off - t2k( (long double)sec));
         if( !(d < 29.530588853L / 2 + 1.2L)) bad( "phase-not-nearest", t2k( (long double)sec) + q.off);
         /* the Moon is where its phase says,  within a few minutes */
         double e = elongation( (double)( a.v - q.off)) - 90. * q.sel;
         e -= 360. * floor( e / 360. + .5);
         if( !(fabs( e) < .06)) bad( "wrong-phase", a.v - e / 12.2);
         }
         break;
      case Q_YY:
         {
         long lo = 0, hi = 0;
         if( !q.two) lo = hi = q.yy;
         else
            {
            long y; int m, d;
            civil( day, y, m, d);
            for( int k = 0; k < 2; k++)
               {
               long cy = k ? 1970 + (long)( sec / 31557600) : y;
               long r = 1900 + q.yy;
               while( r < cy - 60) r += 100;
               (k ? hi : lo) = r;
               }
            }
         long double w1 = (long double)( days_from_civil( lo, q.mm, q.dd) - J2K_FROM_1970) - (q.half ? 0.L : .5L);
         long double w2 = (long double)( days_from_civil( hi, q.mm, q.dd) - J2K_FROM_1970) - (q.half ? 0.L : .5L);
         if( !(fabsl( a.v - w1) < tol) && !(fabsl( a.v - w2) < tol)) bad( "wrong-century", w1);
         }
         break;
      case Q_FIXED:
         {
         const Ans &b = elsewhere( q);
         if( a.v != b.v || a.ut != b.ut) bad( "depends-on-clock", b.v);
         }
         break;
      }
}
}

SCENARIO( P15, clock, 3)
{
   Tape &w = sim.w;
   Module *m = get_module( "lib", 0);
   m->restore( );
   sim.wall0_us = any_time( w);
   sim.switch_num = w.choose( 60);
   sim.op_cost_us = pick( w, { 20, 300000, 1 });
   u32 fail = on_off( w, 1, 4, 200000);
   int n = 2 + (int)w.choose( 12);
   std::vector<Q> qs;
   for( int i = 0; i < n; i++) qs.push_back( make_q( w));
   /* someone sets the clock while the client runs */
   std::vector<std::pair<u64, int64_t>> steps;
   int n_steps = (int)w.choose( 5);
   for( int i = 0; i < n_steps; i++)
      {
      u64 wait = 1 + w.choose( 2000000);
      int64_t by;
      switch( w.choose( 4))
         {
         case 0: by = (int64_t)w.choose( 86400) * 1000000; break;
         case 1: by = -(int64_t)w.choose( 86400) * 1000000; break;
         case 2: by = (w.chance( 1, 2) ? 1 : -1) * (int64_t)w.choose( 2000000); break;
         default: by = INT64_MIN; break;
         }
      steps.push_back( std::make_pair( wait, by == INT64_MIN ? any_time( w) : by));
      if( by == INT64_MIN) steps.back( ).first |= 1ULL << 63;
      }
   sim.sample = strf( "%d queries from %s,  clock set %d times", n, wall_text( sim.wall0_us).c_str( ), n_steps);
   for( auto &q : qs) if( !q.text.empty( )) sim.sample += ";  " + q.text;
   sim.nontrivial = n_steps > 0 || fail;
   if( n_steps)
      {
      Proc *c = sim.spawn( "clock setter", get_module( "lib", 1), [&]( ) -> int
         {
         for( auto &s : steps)
            {
            sim.sleep_us( s.first & ~(1ULL << 63));
            int64_t now = sim.wall_us( ), to = (s.first >> 63) ? s.second : now + s.second;
            if( to < DAY_US) to = DAY_US;
            sim.wall0_us += to - now;
            sim.count( "fault.clock_step");
            sim.count( to < now ? "fault.clock_step_back" : "fault.clock_step_forward");
            sim.ev( "clock set to %lld", (long long)to);
            }
         return 0;
         });
      c->faultable = false;
      }
   Proc *p = sim.spawn( "client", m, [&]( ) -> int
      {
      int64_t last = 0;
      int last_steps = -1;
      for( auto &q : qs)
         {
         Ans a;
         if( q.kind == Q_PHASE)
            sim.count( "probe.phase");
         sim.clock_fail = (q.kind == Q_NS || q.kind == Q_JD) ? fail : 0;
         u64 f0 = sim.counters["fault.clock_fail"];
         ask( m, q, a);
         bool failed = sim.counters["fault.clock_fail"] > f0;
         sim.clock_fail = 0;
         check( sim, q, a, sim.last_wall_us, failed);
         sim.count( q.kind == Q_FIXED ? "probe.fixed" : "probe.clock_answer");
         if( q.kind == Q_NS && !failed)
            {
            int st = (int)sim.counters["fault.clock_step"];
            if( st == last_steps && a.ns < last) sim.violate( "clock-backwards", "nanoseconds_since_1970( ) went backward though the clock was not set");
            last = a.ns; last_steps = st;
            }
         sim.sleep_us( 1 + w.choose( 700000));
         }
      return 0;
      });
   sim.run( );
   if( !p->clean( ) && sim.violations.empty( ))
      sim.violate( "abnormal-end", p->describe( ));
}

/* The jd program,  with the clock set while it runs */
SCENARIO( P15, jd_program, 1)
{
   Tape &w = sim.w;
   Module *m = get_module( "jd", 0);
   m->restore( );
   sim.wall0_us = any_time( w);
   std::vector<std::string> args = { "jd" };
   long double off = 0;
   int mode = (int)w.choose( 4);
   Q q;
   switch( mode)
      {
      case 0: break;
      case 1: { std::string s = "now" + offsets( w, off); args.push_back( s); } break;
      case 2: { int h = 1 + (int)w.choose( 99); bool neg = w.chance( 1, 2); args.push_back( strf( "%c%dh", neg ? '-' : '+', h)); off = (neg ? -h : h) / 24.L; } break;
      case 3: do { q = make_q( w); if( w.replay && w.pos >= w.v.size( )) { q.kind = Q_YY; q.yy = 47; q.text = "47 jan 1"; } } while( q.kind != Q_YY); q.two = true; args.push_back( q.text); break;
      }
   u64 step_at = w.choose( 200);
   bool step = w.chance( 1, 2);
   sim.switch_num = 50;
   sim.stdio_buf = pick( w, { 4096, 16 });
   std::string cmd = "jd";
   for( size_t i = 1; i < args.size( ); i++) cmd += " '" + args[i] + "'";
   sim.sample = cmd + " at " + wall_text( sim.wall0_us);
   sim.nontrivial = step;
   if( step)
      sim.spawn( "clock setter", get_module( "lib", 1), [&]( ) -> int
         {
         sim.sleep_us( step_at);
         sim.wall0_us = any_time( w) - (int64_t)sim.now_us;
         sim.count( "fault.clock_step");
         return 0;
         });
   std::vector<int64_t> seen;
   int64_t lo = 0;
   Proc *p = sim.spawn( "jd", m, program( m, args));
   sim.on_op = [&]( Proc *, const char *op, const std::string &) { if( !strcmp( op, "write") && !lo) lo = 1; };
   sim.run( );
   if( !p->clean( )) { sim.violate( "abnormal-end", cmd + ": " + p->describe( )); return; }
   const char *s = strstr( p->out.c_str( ), " = JD ");
   if( !s) { sim.violate( "no-answer", cmd + " printed\n" + p->out.substr( 0, 300)); return; }
   long double jd = strtold( s + 6, NULL);
   sim.count( "probe.jd_runs");
   int64_t us = sim.last_wall_us;
   Ans a;
   if( mode == 3)
      {
      a.v = jd - 2451545.L;
      /* printed with eight decimals */
      Q r = q;
      long double v = a.v;
      a.v = floorl( v * 2.L + .5L) / 2.L;
      if( fabsl( v - a.v) > 1e-7L) a.v = v;
      check( sim, r, a, us, false);
      }
   else
      {
      /* before the step or after it,  the run is shorter than a second */
      long double want = t2k( (long double)fdiv( us, 1000000)) + off + 2451545.L;
      if( !(fabsl( jd - want) < 2e-8L))
         sim.violate( "wrong-now", strf( "%s at %s printed JD %.8Lf,  expected %.8Lf", cmd.c_str( ), wall_text( us).c_str( ), jd, want));
      }
}
