/* Earth orientation parameters:  loading under faults,  histories of loads,
and concurrent queries */
#include "util.h"
#include <math.h>

namespace {
struct eop_t { double dX, dY, dPsi, dEps, dt; };
typedef int (*load_t)( const char *, int *);
typedef int (*get_t)( double, eop_t *, int);
typedef double (*dbl_t)( double);

const double AS = 3.1415926535897932384626433832795028841971693993751058209749445923 / (180. * 3600.);

struct Variant {
   int n_valid = 0, n_nut = 0, last_i = 0;   /* usable lines,  lines with nutation,  MJD of last 'I' line */
   int expect = 0;                           /* return value of a successful load,  or error code */
   int mjd0 = 41684;
   std::vector<double> tab[5];
   InodeP ino;
   std::string name;
};
const int N_VARIANTS = 19;

std::string eop_line( int mjd, char flag, double x, double y, double ut, bool nut, double dpsi, double deps)
{
   char b[220];
   memset( b, ' ', sizeof( b));
   b[187] = '\n';
   char t[40];
   auto put = [&]( int col, const char *s) { memcpy( b + col, s, strlen( s)); };
   put( 0, "730102");
   snprintf( t, sizeof( t), "%8.2f", (double)mjd);
   put( 7, t);
   if( flag != ' ')
      {
      b[16] = flag;
      snprintf( t, sizeof( t), "%9.6f", x); put( 18, t);
      put( 27, " 0.000100");
      snprintf( t, sizeof( t), "%9.6f", y); put( 37, t);
      put( 46, " 0.000100");
      b[57] = flag;
      snprintf( t, sizeof( t), "%10.7f", ut); put( 58, t);
      put( 68, " 0.0000100");
      if( nut)
         {
         b[95] = flag;
         snprintf( t, sizeof( t), "%9.3f", dpsi); put( 97, t);
         put( 106, "    0.500");
         snprintf( t, sizeof( t), "%9.3f", deps); put( 116, t);
         put( 125, "    0.300");
         }
      }
   return std::string( b, 188);
}
double rnd( double v, double scale) { return floor( v * scale + .5) / scale; }

/* Deterministic pool of EOP files;  the host keeps its own table of values */
Variant &variant( int k)
{
   static Variant pool[N_VARIANTS];
   Variant &v = pool[k];
   if( v.ino) return v;
   int n = 16371, blank = 0, pred = 365, nonut = 300, bad_at = -1;
   double leap = 12.;
   v.name = strf( "finals%d.all", k);
   switch( k)
      {
      case 0: n = 16380; blank = 1; break;
      case 1: n = 17001; blank = 90; break;
      case 2: n = 16371; blank = 0; break;        /* shortest acceptable,  ends at EOF */
      case 3: n = 16370; blank = 3; break;        /* one line too short */
      case 4: n = 16900; blank = 0; pred = 90; nonut = 0; break;
      case 5: n = 16500; blank = 5; bad_at = 16450; break;   /* damaged late line:  data end there */
      case 6: n = 16500; blank = 5; bad_at = 8000; break;    /* damaged in the middle */
      case 7: n = 16500; bad_at = 0; break;                  /* damaged at once */
      case 8: n = 4; break;
      case 9: n = 0; break;                       /* empty file */
      case 11: case 12: case 13: case 14: case 15: case 16: n = 16600; blank = 5; bad_at = 16371 + (k - 11) * 30; break;
      case 10: n = 18263; blank = 0; pred = 0; nonut = 0; v.mjd0 = 41684; break;
      case 17: n = 16400; v.mjd0 = 42048; leap = 13.; break;         /* starts with the day after a leap second */
      case 18: n = 16390; nonut = n; break;       /* no nutation;  leap seconds taken back */
      }
   v.ino = InodeP( new Inode);
   v.ino->id = 100000 + k;
   v.ino->frozen = true;
   std::string &s = v.ino->data;
   for( int i = 0; i < n + blank; i++)
      {
      int mjd = v.mjd0 + i;
      char flag = i < n - pred ? 'I' : 'P';
      if( i >= n) flag = ' ';
      double x = rnd( .12 * sin( i / 69. + k) + .05, 1e6), y = rnd( .2 * cos( i / 69.1 + k) + .3, 1e6);
      double dt = 43.37 + k * .01 + i * .0018 + .05 * sin( i / 58.);
      if( k == 17) dt += .8;
      if( k == 18) dt = 44.4 - i * .0018 + .05 * sin( i / 58.);
      double ut = 32.184 + leap - dt;
      if( k == 18 && ut > .6) { leap -= 1.; ut -= 1.; }
      if( ut < -.6) { leap += 1.; ut += 1.; }
      ut = rnd( ut, 1e7);
      bool nut = i < n - nonut;
      double dpsi = rnd( -60. + 40. * sin( i / 900. + k), 1e3), deps = rnd( -5. + 4. * cos( i / 700.), 1e3);
      std::string l = eop_line( mjd, flag, x, y, ut, nut, dpsi, deps);
      if( i == bad_at)
         switch( k)
            {
            case 11: l[13] = '5'; break;               /* not a whole day */
            case 12: l[14] = '5'; break;
            case 13: l[20] = ' '; break;
            case 14: l[27] = '7'; break;
            case 15: l.erase( 100, 7); break;          /* too short */
            case 16: l.insert( 150, "  "); break;      /* too long */
            default: l[12] = '#';
            }
      s += l;
      if( i < n && (bad_at < 0 || i < bad_at))
         {
         v.n_valid++;
         v.tab[0].push_back( x * AS);
         v.tab[1].push_back( y * AS);
         v.tab[2].push_back( 32.184 + leap - ut);
         if( nut) { v.n_nut++; v.tab[3].push_back( dpsi * AS / 1000.); v.tab[4].push_back( deps * AS / 1000.); }
         if( flag == 'I') v.last_i = mjd;
         }
      }
   if( !n) v.expect = -1;
   else if( bad_at == 0) v.expect = -2;
   else if( v.n_valid < 16371) v.expect = -2;
   else v.expect = v.mjd0 + v.n_valid - 1;
   return v;
}
double spline( const std::vector<double> &t, double x, bool *within)
{
   int n = (int)t.size( ), i = (int)floor( x);
   *within = (i >= 1 && i <= n - 3);
   if( !*within) return 0.;
   x -= i;
   double c = (t[i + 1] - t[i - 1]) * .5, y1 = t[i + 1] - t[i];
   double a = (t[i + 2] - t[i]) * .5 - 2. * y1 + c, b = y1 - a - c;
   return t[i] + x * (c + x * (b + x * a));
}
/* what a query must give when 'v' (or nothing) is loaded */
int model( const Variant *v, double jd, int mask, double dflt, eop_t *e)
{
   double r[5] = { 0., 0., 0., 0., 0. };
   int rv = 0;
   if( !v) rv = -1;
   else
      for( int i = 0; i < 5; i++)
         if( mask & (1 << i))
            {
            bool in;
            double y = spline( v->tab[i], jd - (v->mjd0 + 2400000.5), &in);
            if( in) r[i] = y; else rv |= 1 << i;
            }
   e->dX = r[0]; e->dY = r[1]; e->dt = r[2]; e->dPsi = r[3]; e->dEps = r[4];
   if( (mask & 4) && !r[2]) e->dt = dflt;
   return rv;
}
bool close( double a, double b, double tol) { return fabs( a - b) <= tol; }
bool same( const eop_t &a, const eop_t &b)
{
   return close( a.dX, b.dX, 1e-14) && close( a.dY, b.dY, 1e-14) && close( a.dPsi, b.dPsi, 1e-14)
       && close( a.dEps, b.dEps, 1e-14) && close( a.dt, b.dt, 1e-9);
}
std::string show( const eop_t &e) { return strf( "(dX %.9g dY %.9g dPsi %.9g dEps %.9g dt %.9f)", e.dX, e.dY, e.dPsi, e.dEps, e.dt); }

double pick_jd( Tape &w, const Variant *v)
{
   int n = v ? v->n_valid : 17000, nn = v ? v->n_nut : 16000;
   double d = 0.;
   switch( w.choose( 8))
      {
      case 0: d = w.choose( n); break;                      /* grid point */
      case 1: d = w.choose( n) + w.choose( 1000) / 1000.; break;
      case 2: d = n - 6 + (int)w.choose( 10) + w.choose( 4) / 4.; break;   /* near the end */
      case 3: d = nn - 6 + (int)w.choose( 10) + w.choose( 4) / 4.; break;
      case 4: d = (int)w.choose( 6) - 2 + w.choose( 4) / 4.; break;        /* near the start */
      case 5: d = -1000. * (1 + w.choose( 60)); break;
      case 6: d = n + 1000. * w.choose( 60); break;
      case 7: d = 16360 + (int)w.choose( 30) + .5; break;
      }
   return d + 41684 + 2400000.5;
}
/* td_minus_ut( ) with no EOPs loaded */
double default_dt( double jd)
{
   static Module *m = NULL;
   static RefWorld *rw = NULL;
   if( !m) { m = get_module( "lib", 62); rw = new RefWorld; rw->leave( ); }
   rw->enter( );
   dbl_t f = (dbl_t)m->sym( "_Z19default_td_minus_utd", false);
   if( !f) f = (dbl_t)m->sym( "td_minus_ut");
   double r = f( jd);
   rw->leave( );
   return r;
}
}  // namespace

static void eop_history( Sim &sim, bool faults)
{
   Tape &w = sim.w;
   Module *m = get_module( "lib", 0);
   m->restore( );
   sim.stdio_buf = pick( w, { 65536, 4096, 1000, 188 });
   for( int k = 0; k < N_VARIANTS; k++)
      sim.fs.files["/work/" + variant( k).name] = variant( k).ino;
   if( faults)
      {
      u32 k = pick( w, { 1, 3, 10 });
      sim.fault.read_eio = on_off( w, 2, 3, (u32)( k * 20ULL * sim.stdio_buf));
      if( w.chance( 1, 3)) sim.fault.read_eio = on_off( w, 2, 3, 200);
      if( w.chance( 1, 4))          /* only once all but the end has been read */
         {
         sim.fault.read_eio_from = 16371L * 188 - sim.stdio_buf + (long)w.choose( 60) * 188;
         sim.fault.read_eio = sim.stdio_buf > 4096 ? 300000 : 30000;
         }
      sim.fault.read_short = on_off( w, 1, 3, 50000);
      sim.fault.open_fail = on_off( w, 1, 4, 200000);
      sim.fault.alloc_fail = on_off( w, 1, 3, 200000);
      sim.fault.budget = 1 + (int)w.choose( 3);
      }
   int n_ops = 2 + (int)w.choose( 5);
   const Variant *cur = NULL;
   sim.sample = strf( "buffer %u", sim.stdio_buf);
   Proc *p = sim.spawn( "client", m, [&]( ) -> int {
      load_t load = (load_t)m->sym( "load_earth_orientation_params");
      get_t get = (get_t)m->sym( "get_earth_orientation_params");
      dbl_t tdut = (dbl_t)m->sym( "td_minus_ut");
      size_t fds0 = sim.cur->fds.size( );
      for( int op = 0; op < n_ops; op++)
         {
         u32 kind = w.choose( 10);
         if( kind < 7)
            {
            static const int order[] = { 0, 1, 2, 4, 10, 5, 3, 6, 7, 8, 9, 11, 12, 13, 14, 15, 16, 0, 1, 2, 4, 17, 18 };
            Variant &v = variant( order[w.choose( 23)]);
            int date = 777777, hf = sim.cur->n_hard_faults;
            bool want_date = w.chance( 1, 2);
            int rv = load( v.name.c_str( ), want_date ? &date : NULL);
            bool faulted = sim.cur->n_hard_faults != hf;
            sim.sample += strf( "; load %s (%d lines) -> %d%s", v.name.c_str( ), v.n_valid, rv, faulted ? " [fault]" : "");
            sim.ev( "load %s -> %d", v.name.c_str( ), rv);
            if( !faulted && rv != v.expect)
               sim.violate( "load-result", strf( "loading %s (%d usable lines) gave %d, expected %d", v.name.c_str( ), v.n_valid, rv, v.expect));
            if( faulted && rv >= 0 && rv != v.expect)
               sim.violate( "partial-load", strf( "after a fault loading %s gave %d, neither an error nor %d (%s)", v.name.c_str( ), rv, v.expect,
                        sim.cur->fault_notes.back( ).c_str( )));
            if( rv >= 0 && want_date && rv == v.expect && date != v.last_i)
               sim.violate( "load-result", strf( "date of last observed EOPs %d, expected %d", date, v.last_i));
            if( faulted && rv < 0) sim.count( "probe.load_error_reported");
            if( faulted && rv >= 0) sim.count( "probe.load_succeeded_despite_fault");
            if( rv < 0 && cur) sim.count( "probe.failed_reload_over_good_data");
            cur = rv >= 0 ? &v : NULL;
            if( rv > -1 && v.expect < 0) { cur = NULL; return 0; }
            }
         else if( kind == 7)
            {
            int rv = load( "nosuch.all", NULL);
            sim.sample += "; load missing file";
            if( rv != -1) sim.violate( "load-result", strf( "a missing file gave %d", rv));
            cur = NULL;
            }
         else if( kind == 8)
            {
            load( NULL, NULL);
            sim.sample += "; release";
            cur = NULL;
            }
         int d[3] = { 5, 5, 5 }, rv = load( NULL, d);
         if( cur ? (rv || d[0] != cur->mjd0 || d[1] != cur->mjd0 + cur->n_valid || d[2] != cur->mjd0 + cur->n_nut)
                 : (rv != -1 || d[0] || d[1] || d[2]))
            sim.violate( "range-info", strf( "reported range %d..%d..%d (%d) with %s loaded", d[0], d[1], d[2], rv, cur ? cur->name.c_str( ) : "nothing"));
         if( sim.cur->fds.size( ) != fds0)
            { sim.violate( "leak", "file left open after loading"); fds0 = sim.cur->fds.size( ); }
         if( sim.cur->live_allocs && !cur)
            sim.violate( "leak", strf( "%ld blocks still allocated", sim.cur->live_allocs));
         int nq = 1 + (int)w.choose( 4);
         for( int q = 0; q < nq; q++)
            {
            double jd = pick_jd( w, cur);
            int mask = w.chance( 1, 2) ? 31 : (int)w.choose( 32);
            eop_t got, want;
            int gr = get( jd, &got, mask), wr = model( cur, jd, mask, default_dt( jd), &want);
            sim.ev( "query %.3f %d -> %d", jd, mask, gr);
            if( gr != wr || !same( got, want))
               sim.violate( "wrong-values", strf( "JD %.4f mask %d with %s loaded: rval %d %s expected %d %s", jd, mask,
                     cur ? cur->name.c_str( ) : "nothing", gr, show( got).c_str( ), wr, show( want).c_str( )));
            wr = model( cur, jd, 4, default_dt( jd), &want);
            double td = tdut( jd);
            if( !close( td, want.dt, 1e-9))
               sim.violate( "wrong-values", strf( "Delta-T at JD %.4f with %s loaded: %.9f expected %.9f", jd, cur ? cur->name.c_str( ) : "nothing", td, want.dt));
            }
         }
      load( NULL, NULL);
      if( sim.cur->live_allocs)
         sim.violate( "leak", strf( "%ld blocks still allocated after releasing the data", sim.cur->live_allocs));
      return 0;
   });
   sim.run( );
   if( !p->clean( )) sim.violate( "crash", p->describe( ));
   if( p->mem_error) sim.violate( "memory", p->mem_note);
   sim.nontrivial = true;
}
SCENARIO( P05, history, 1) { eop_history( sim, false); }
SCENARIO( P05, faults, 3) { eop_history( sim, true); }

/* P06:  threads querying one loaded table */
SCENARIO( P06, threads, 1)
{
   Tape &w = sim.w;
   static const int good[] = { 0, 1, 2, 4, 10, 13 };
   const Variant *v = w.chance( 1, 12) ? NULL : &variant( good[w.choose( 6)]);
   Module *m = get_module( "libt", 1 + (v ? (int)( v - &variant( 0)) : 20));
   /* one module copy per variant keeps its table loaded for the whole search */
   static std::map<Module *, RefWorld *> loaded;
   if( !loaded.count( m))
      {
      m->restore( );
      RefWorld *rw = new RefWorld;
      rw->sim.stdio_buf = 65536;
      if( v) rw->sim.fs.files["/work/" + v->name] = v->ino;
      Proc *p = rw->sim.spawn( "loader", m, [&]( ) -> int {
         load_t load = (load_t)m->sym( "load_earth_orientation_params");
         return v ? (load( v->name.c_str( ), NULL) < 0) : 0; });
      rw->sim.run( );
      if( !p->clean( )) sim.violate( "load", "fault-free load failed: " + p->describe( ));
      rw->leave( );
      loaded[m] = rw;
      for( auto &s : m->segs) memcpy( s.saved.data( ), s.addr, s.len);   /* restore( ) returns to 'just loaded' */
      }

   m->restore( );
   int n_thr = 2 + (int)w.choose( 3);
   sim.bb_gap = pick( w, { 40, 10, 4, 2, 1, 120 });
   struct Q { int kind, mask, rv; double jd; eop_t e; double d; };
   std::vector<std::vector<Q>> qs( n_thr);
   get_t get = (get_t)m->sym( "get_earth_orientation_params");
   load_t load = (load_t)m->sym( "load_earth_orientation_params");
   dbl_t tdut = (dbl_t)m->sym( "td_minus_ut"), tdutc = (dbl_t)m->sym( "td_minus_utc");
   long double (*tdbtdt)( long double) = (long double (*)( long double))m->sym( "tdb_minus_tdt");
   double shared_jd = pick_jd( w, v);
   auto one = [&]( Q &q) {
      switch( q.kind)
         {
         case 0: q.rv = get( q.jd, &q.e, q.mask); break;
         case 1: q.d = tdut( q.jd); break;
         case 2: q.d = tdutc( q.jd); break;
         case 3: q.d = (double)tdbtdt( (q.jd - 2451545.) / 36525.); break;
         case 4: { int d[3] = { 0, 0, 0}; q.rv = load( NULL, d); q.d = d[0] + d[1] * 1e5 + d[2] * 1e10; } break;
         }
   };
   sim.sample = strf( "%d threads, %s, mean gap %u basic blocks", n_thr, v ? v->name.c_str( ) : "no table", sim.bb_gap);
   std::vector<Proc *> ps;
   for( int t = 0; t < n_thr; t++)
      {
      int n = 1 + (int)w.choose( 6);
      for( int i = 0; i < n; i++)
         {
         Q q;
         memset( &q, 0, sizeof( q));
         q.kind = (int)pick( w, { 0, 0, 0, 1, 1, 2, 3, 4 });
         q.mask = w.chance( 1, 2) ? 31 : (int)w.choose( 32);
         q.jd = w.chance( 1, 5) ? shared_jd : pick_jd( w, v);
         qs[t].push_back( q);
         sim.sample += strf( "; t%d q%d jd %.3f", t, q.kind, q.jd);
         }
      ps.push_back( sim.spawn( strf( "thread%d", t), m, [&, t]( ) -> int { for( auto &q : qs[t]) one( q); return 0; }));
      }
   sim.run( );
   sim.bb_gap = 0;
   for( int t = 0; t < n_thr; t++)
      if( !ps[t]->clean( )) sim.violate( "crash", ps[t]->describe( ));
   std::vector<std::vector<Q>> alone = qs;
   Proc *pa = sim.spawn( "alone", m, [&]( ) -> int { for( auto &v : alone) for( auto &q : v) if( q.kind >= 2) one( q); return 0; });
   sim.run( );
   if( !pa->clean( )) sim.violate( "crash", "alone: " + pa->describe( ));
   if( sim.n_switches) sim.count( "probe.preempted_runs");
   for( int t = 0; t < n_thr; t++)
      for( size_t qi = 0; qi < qs[t].size( ); qi++)
         {
         Q &q = qs[t][qi];
         if( q.kind < 2)
            {
            eop_t want;
            int wr = model( v, q.jd, q.kind ? 4 : q.mask, default_dt( q.jd), &want);
            if( q.kind ? !close( q.d, want.dt, 1e-9) : (q.rv != wr || !same( q.e, want)))
               sim.violate( "wrong-values", strf( "thread %d JD %.4f mask %d: rval %d %s / %.9f, expected %d %s", t, q.jd, q.mask, q.rv,
                        show( q.e).c_str( ), q.d, wr, show( want).c_str( )));
            }
         else
            {
            const Q &r = alone[t][qi];
            if( r.rv != q.rv || r.d != q.d)
               sim.violate( "wrong-values", strf( "thread %d JD %.4f kind %d: %.12g (%d), serial %.12g (%d)", t, q.jd, q.kind, q.d, q.rv, r.d, r.rv));
            }
         sim.ev( "t%d %d %.17g %.17g", t, q.rv, q.d, q.e.dX + q.e.dt);
         }
}
