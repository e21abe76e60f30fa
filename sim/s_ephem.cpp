/* Binary ephemeris files (PS-1996,  VSOP87,  ELP82):  loading and evaluating
under I/O and allocation faults,  truncated files,  and histories of calls */
#include "util.h"
#include <math.h>
extern "C" { FILE *sim_fopen( const char *, const char *); }

namespace {
const double PI = 3.1415926535897932384626433832795028841971693993751058209749445923;
struct Ps { double tzero, dt; int nf[3], n_blocks, total; std::vector<double> fqs; std::vector<std::vector<double>> sec, terms; };
struct Term { double a, b, c; };
struct ElpTerm { int amp, ang; signed char c[11]; };
struct Data {
   std::string ps, vsop, elp;
   Ps p[10];
   std::vector<Term> v[8][3][6];
   std::vector<ElpTerm> e[36];
   double poly[39];
};
template <class T> void app( std::string &s, T x) { s.append( (const char *)&x, sizeof( x)); }
int elp_type( int series) { return series / 3; }
int elp_size( int t) { return t == 0 ? 8 : (t <= 2 ? 13 : (t <= 6 ? 19 : 12)); }

Data *make( int k)
{
   Data *d = new Data;
   Rng r;
   r.seed( 4711 + k);
   auto U = [&]( ) { return (double)( r.next( ) % 2000001) / 1000000. - 1.; };
   /* PS-1996 */
   std::string body;
   std::vector<int32_t> offs;
   for( int pl = 0; pl < 10; pl++)
      {
      Ps &p = d->p[pl];
      offs.push_back( (int32_t)( 40 + body.size( )));
      p.tzero = 2415020.5 + (double)r.below( 200);
      p.dt = 400. * (1 + (double)r.below( 20));
      p.n_blocks = 1 + (int)r.below( pl % 3 == 0 ? 30 : 6);
      p.total = 0;
      for( int i = 0; i < 3; i++) { p.nf[i] = (int)r.below( 5) + (i ? 0 : 1); p.total += p.nf[i]; }
      app( body, p.tzero); app( body, p.dt);
      for( int i = 0; i < 3; i++) app( body, (int16_t)p.nf[i]);
      app( body, (int16_t)p.n_blocks); app( body, (int16_t)p.total);
      for( int i = 0; i < p.total; i++) { p.fqs.push_back( .002 + .1 * fabs( U( ))); app( body, p.fqs.back( )); }
      std::vector<std::string> blocks;
      for( int b = 0; b < p.n_blocks; b++)
         {
         std::string t;
         std::vector<double> sec, terms;
         for( int i = 0; i < 12; i++) { sec.push_back( 1e10 * U( )); app( t, sec.back( )); }
         for( int i = 0; i < p.total; i++)
            {
            unsigned flags = 0;
            std::string bytes;
            for( int j = 0; j < 6; j++)
               {
               unsigned kind = (unsigned)r.below( 4);
               double v = 0.;
               flags |= kind << (2 * j);
               if( kind == 0) { signed char c = (signed char)( (int)r.below( 256) - 128); v = c; app( bytes, c); }
               if( kind == 1) { int16_t c = (int16_t)( U( ) * 32767.); v = c; app( bytes, c); }
               if( kind == 2) { int32_t c = (int32_t)( U( ) * 2147483000.); v = c; app( bytes, c); }
               if( kind == 3) { v = U( ) * 1e9; app( bytes, v); }
               terms.push_back( v);
               }
            app( t, (uint16_t)flags);
            t += bytes;
            }
         p.sec.push_back( sec);
         p.terms.push_back( terms);
         blocks.push_back( t);
         }
      for( auto &b : blocks) app( body, (int16_t)b.size( ));
      for( auto &b : blocks) body += b;
      }
   for( int32_t o : offs) app( d->ps, o);
   d->ps += body;
   /* VSOP */
   body.clear( );
   int n = 0;
   for( int pl = 0; pl < 8; pl++)
      for( int v = 0; v < 3; v++)
         for( int i = 0; i < 6; i++)
            {
            app( d->vsop, (int16_t)n);
            int m = (int)r.below( i ? 3 : 6);
            for( int j = 0; j < m; j++)
               {
               Term t = { (v == 2 && !i && !j ? 5. : 1.) * pow( .2, i) * U( ), PI * (1. + U( )), 1000. * U( ) };
               if( !v && i == 1 && !j) t = { 600. * U( ), 0., 0. };        /* mean motion */
               app( body, t.a); app( body, t.b); app( body, t.c);
               d->v[pl][v][i].push_back( t);
               n++;
               }
            }
   app( d->vsop, (int16_t)n);
   d->vsop += body;
   /* ELP-82 */
   body.clear( );
   std::vector<int32_t> hd;
   for( int s = 0; s < 36; s++)
      {
      int type = elp_type( s), size = elp_size( type), chunk = 10000 / size;
      int m = (int)r.below( 12);
      if( s == 0) m = chunk + 7;
      if( s == 4) m = chunk;
      if( s == 10) m = 2 * chunk;
      if( s == 20) m = 2 * chunk + 1;
      if( s == 35) m = 3;
      hd.push_back( (int32_t)( 37 * 8 + 39 * 8 + body.size( )));
      hd.push_back( m);
      double amp = 3e8;
      for( int j = 0; j < m; j++)
         {
         ElpTerm t;
         memset( &t, 0, sizeof( t));
         amp *= m > 100 ? .99 : .6;
         t.amp = (int)( U( ) < 0. ? -amp : amp);
         if( !t.amp) t.amp = 1;
         t.ang = (int)( 18000000. * (1. + U( )));
         int nc = type == 0 ? 4 : (type <= 2 ? 5 : (type <= 6 ? 11 : 4));
         for( int i = 0; i < nc; i++) t.c[i] = (signed char)( (int)r.below( 9) - 4);
         app( body, (int32_t)t.amp);
         if( type) app( body, (int32_t)t.ang);
         body.append( (const char *)t.c, nc);
         d->e[s].push_back( t);
         }
      }
   hd.push_back( 0); hd.push_back( 0);
   for( int32_t x : hd) app( d->elp, x);
   for( int i = 0; i < 39; i++)
      {
      d->poly[i] = U( ) * (i < 25 ? (i % 5 == 1 ? 8000. : (i % 5 ? .01 : 6.)) : (i < 32 ? 6. : 2000.));
      app( d->elp, d->poly[i]);
      }
   d->elp += body;
   return d;
}
Data &data( int k) { static Data *pool[4]; if( !pool[k]) pool[k] = make( k); return *pool[k]; }

/* --- reference evaluations --- */
bool ref_ps( const Ps &p, int block, double jd, double *out)
{
   double t0 = p.tzero + block * p.dt, x = 2. * (jd - t0) / p.dt - 1., fx = x * p.dt / 2.;
   if( jd < t0 || jd > t0 + p.dt) return false;
   const std::vector<double> &s = p.sec[block], &t = p.terms[block];
   for( int i = 0; i < 3; i++)
      {
      const double *c = &s[i * 4];
      out[i] = c[0] + x * (c[1] + x * (c[2] + x * c[3]));
      out[i + 3] = (c[1] + x * (2. * c[2] + x * 3. * c[3])) * 2. / p.dt;
      }
   int idx = 0;
   for( int m = 0; m < 3; m++)
      for( int j = 0; j < p.nf[m]; j++, idx++)
         for( int i = 0; i < 3; i++)
            {
            double w = p.fqs[idx], a = t[idx * 6 + i * 2], b = t[idx * 6 + i * 2 + 1];
            double v = a * cos( w * fx) + b * sin( w * fx), dv = w * (b * cos( w * fx) - a * sin( w * fx));
            out[i] += pow( x, m) * v;
            out[i + 3] += pow( x, m) * dv + (m ? m * pow( x, m - 1) * 2. / p.dt * v : 0.);
            }
   for( int i = 0; i < 6; i++) out[i] *= 1e-10;
   return true;
}
void ref_vsop( const Data &d, int planet, double t, double prec0, double *out)
{
   out[0] = out[1] = out[2] = 0.;
   if( !planet) return;
   t /= 10.;
   for( int v = 0; v < 3; v++)
      {
      double prec = prec0, power = 1.;
      for( int i = 0; i < 6; i++)
         {
         double sum = 0.;
         for( auto &x : d.v[planet - 1][v][i]) if( fabs( x.a) > prec) sum += x.a * cos( x.b + x.c * t);
         out[v] += sum * power;
         power *= t;
         if( t) prec /= t;
         }
      }
   out[0] -= floor( out[0] / (2. * PI)) * 2. * PI;
}
void ref_elp( const Data &d, double t_cen, double prec0, double *out)
{
   const double as = PI / (180. * 3600.);
   double x0 = t_cen * 100. + 45., t = t_cen - .000091 / (86400. * 36525.) * (26. - 23.8946) * x0 * x0, f[23];
   const double *c = d.poly;
   for( int i = 0; i < 5; i++, c += 5) f[i] = c[0] + t * (c[1] + t * (c[2] + t * (c[3] + t * c[4])));
   for( int i = 0; i < 7; i++, c++) f[i + 9] = c[0] + t * c[7];
   double W10 = (218. + 18. / 60. + 59.95571 / 3600.) * PI / 180., W11 = 1732559343.73604 * as;
   double W20 = (83. + 21. / 60. + 11.67475 / 3600.) * PI / 180., W21 = 14643420.2632 * as;
   double W30 = (125. + 2. / 60. + 40.39816 / 3600.) * PI / 180., W31 = -6967919.3622 * as;
   double T0 = (100. + 27. / 60. + 59.22059 / 3600.) * PI / 180., T1 = 129597742.2758 * as;
   double O0 = (102. + 56. / 60. + 14.42753 / 3600.) * PI / 180., O1 = 1161.2283 * as;
   f[5] = f[0] - f[3] + PI; f[6] = f[3] - f[4]; f[7] = f[0] - f[1]; f[8] = f[0] - f[2]; f[16] = 0.;
   f[17] = W10 + (W11 + 5029.0966 * as) * t;
   f[18] = W10 - T0 + PI + t * (W11 - T1);
   f[19] = T0 - O0 + t * (T1 - O1);
   f[20] = W10 - W20 + t * (W11 - W21);
   f[21] = W10 - W30 + t * (W11 - W31);
   f[22] = T0 + t * T1;
   for( double &x : f) { x = fmod( x, 2. * PI); if( x < 0.) x += 2. * PI; }
   double o[3] = { f[0] + 22639.58578 * as * sin( f[7]), 0., 385000.52719 };
   static const int map0[] = { 5, 6, 7, 8 }, map1[] = { 18, 19, 20, 21, 17 },
         map3[] = { 9, 10, 22, 11, 12, 13, 14, 15, 18, 20, 21 }, map5[] = { 9, 10, 22, 11, 12, 13, 14, 18, 19, 20, 21 };
   for( int s = 0; s < 36; s++)
      {
      int type = s / 3, nc = type == 0 ? 4 : (type <= 2 ? 5 : (type <= 6 ? 11 : 4));
      const int *mp = type == 0 ? map0 : (type <= 2 || type >= 7 ? map1 : (type <= 4 ? map3 : map5));
      double prec = prec0 * (s % 3 == 2 ? 384747980.674 / 1000. : 180. * 3600. / PI), sum = 0.;
      long lprec = (long)( prec * 100000.);
      for( auto &x : d.e[s])
         {
         if( x.amp < lprec && x.amp > -lprec) break;
         double ang = type ? x.ang * (PI / 180.) / 100000. : 0.;
         for( int i = 0; i < nc; i++) ang += x.c[i] * f[mp[i]];
         sum += x.amp * (s == 2 ? cos( ang) : sin( ang));
         }
      sum *= 1e-5;
      if( type == 2 || type == 4 || type == 6 || type == 8) sum *= t;
      if( type == 11) sum *= t * t;
      o[s % 3] += s % 3 == 2 ? sum : sum * as;
      }
   double x = o[2] * cos( o[0]) * cos( o[1]), y = o[2] * sin( o[0]) * cos( o[1]), z = o[2] * sin( o[1]);
   double p = t * (0.10180391e-4 + t * (0.47020439e-6 + t * (-0.5417367e-9 + t * (-0.2507948e-11 + t * 0.463486e-14))));
   double q = t * (-0.113469002e-3 + t * (0.12372674e-6 + t * (0.1265417e-8 + t * (-0.1371808e-11 - t * 0.320334e-14))));
   double r = 2. * sqrt( 1. - p * p - q * q);
   out[0] = (1. - 2. * p * p) * x + 2. * p * q * y + p * r * z;
   out[1] = 2. * p * q * x + (1. - 2. * q * q) * y - q * r * z;
   out[2] = -p * r * x + q * r * y + (1. - 2. * p * p - 2. * q * q) * z;
   out[3] = o[2];
}
bool near( double a, double b, double scale) { return fabs( a - b) <= 1e-8 * (scale + fabs( b)); }
bool near_n( const double *a, const double *b, int n, double scale)
{
   for( int i = 0; i < n; i++) if( !near( a[i], b[i], scale)) return false;
   return true;
}
typedef void *(*ps_load_t)( FILE *, double, int);
typedef int (*ps_unload_t)( void *);
typedef int (*ps_pos_t)( const double, const void *, double *, const int);
typedef int (*vsop_t)( FILE *, int, double *, double, double);
typedef int (*elp_t)( FILE *, double, double, double *);
}  // namespace

static void ephem( Sim &sim, bool faults)
{
   Tape &w = sim.w;
   Module *m = get_module( "lib", 0);
   m->restore( );
   sim.stdio_buf = pick( w, { 4096, 65536, 512, 64, 16 });
   /* dflt: the data sets in the default files;  opened: those of the open streams,  which may be other files altogether */
   Data *first = &data( (int)w.choose( 4)), *second = &data( (int)w.choose( 4));
   const char *names[3] = { "ps_1996.dat", "big_vsop.bin", "elp82.dat" };
   auto full = []( Data *d, int i) -> const std::string & { return i == 0 ? d->ps : (i == 1 ? d->vsop : d->elp); };
   Data *dflt[3] = { first, first, first }, *opened[3] = { NULL, NULL, NULL };
   bool complete[3] = { true, true, true }, alt[3] = { false, false, false };
   for( int i = 0; i < 3; i++)
      {
      sim.fs.put( std::string( "/work/") + names[i], full( first, i));
      sim.fs.put( std::string( "/work/alt_") + names[i], full( second, i));
      }
   if( faults)
      {
      u32 k = pick( w, { 1, 4, 15 });
      sim.fault.read_eio = on_off( w, 2, 3, 3000 * k);
      sim.fault.read_short = on_off( w, 1, 3, 100000);
      sim.fault.open_fail = on_off( w, 1, 4, 30000 * k);
      sim.fault.alloc_fail = on_off( w, 1, 3, 10000 * k);
      sim.fault.budget = 1 + (int)w.choose( 4);
      }
   int n_ops = 2 + (int)w.choose( 9);
   Proc *p = sim.spawn( "client", m, [&]( ) -> int {
      ps_load_t ps_load = (ps_load_t)m->sym( "load_ps1996_series");
      ps_unload_t ps_unload = (ps_unload_t)m->sym( "unload_ps1996_series");
      ps_pos_t ps_pos = (ps_pos_t)m->sym( "get_ps1996_position");
      vsop_t vsop = (vsop_t)m->sym( "calc_big_vsop_loc");
      elp_t elp = (elp_t)m->sym( "compute_elp_xyz");
      struct Handle { void *h; int planet, block; Data *d; };
      std::vector<Handle> hs;
      FILE *fp[3] = { NULL, NULL, NULL };
      size_t fds0 = sim.cur->fds.size( );
      double last_jd = 2430000.5;
      int last_planet = 3;
      for( int op = 0; op < n_ops; op++)
         {
         u32 kind = w.choose( 12);
         int hf = sim.cur->n_hard_faults, which = kind < 4 ? 0 : (kind < 7 ? 1 : 2);
         bool fault_free;
         Data &d = *(fp[which] ? opened[which] : dflt[which]);
         auto ff = [&]( ) { return sim.cur->n_hard_faults == hf && (complete[which] || (fp[which] && alt[which])); };
         auto note = [&]( const std::string &s) { sim.sample += s + (sim.cur->n_hard_faults != hf ? " [fault]" : ""); sim.ev( "%s", s.c_str( )); };
         if( kind < 3 || kind == 3)
            {
            int planet = w.chance( 1, 2) ? last_planet : 1 + (int)w.choose( 10);
            const Ps &P = d.p[planet - 1];
            double jd = P.tzero + P.dt * ((int)w.choose( P.n_blocks * 8) / 8. + (w.chance( 1, 3) ? 0. : .0001 * w.choose( 1000)));
            if( w.chance( 1, 12)) jd = P.tzero - 1. - w.choose( 100);
            if( w.chance( 1, 12)) jd = P.tzero + P.dt * P.n_blocks + w.choose( 100);
            if( w.chance( 1, 6)) jd = last_jd;
            last_jd = jd; last_planet = planet;
            int block = (int)floor( (jd - P.tzero) / P.dt);
            bool in = block >= 0 && block < P.n_blocks;
            void *h = ps_load( fp[0], jd, planet);
            fault_free = ff( );
            note( strf( "; PS load %d at %.2f -> %s", planet, jd, h ? "ok" : "NULL"));
            if( !h && in && fault_free) sim.violate( "spurious-error", strf( "PS-1996 planet %d JD %.4f not loaded though the file is complete", planet, jd));
            if( h && !in) { sim.violate( "wrong-values", strf( "PS-1996 planet %d loaded for JD %.4f outside its range", planet, jd)); return 0; }
            if( h && !fault_free) sim.count( "probe.success_despite_fault_or_truncation");
            if( !h && !fault_free) sim.count( "probe.error_reported");
            if( h) hs.push_back( { h, planet, block, &d});
            }
         else if( kind < 7)
            {
            int planet = w.chance( 1, 2) && last_planet < 9 ? last_planet : (int)w.choose( 9);
            double t = (int)w.choose( 400) / 10. - 20., prec = 0., o[3] = { 9., 9., 9.}, e[3];
            if( t > 0. && w.chance( 1, 4)) prec = .01 * (1 + w.choose( 30));
            last_planet = planet ? planet : 1;
            int rv = vsop( fp[1], planet, o, t, prec);
            fault_free = ff( );
            note( strf( "; VSOP %d t %.1f -> %d", planet, t, rv));
            ref_vsop( d, planet, t, prec, e);
            if( !rv)
               {
               double dl = fmod( o[0] - e[0], 2. * PI);
               if( dl > PI) dl -= 2. * PI;
               if( dl < -PI) dl += 2. * PI;
               bool bad = !(fabs( dl) < 1e-7) || !(o[0] >= 0. && o[0] <= 2. * PI) || !near_n( o + 1, e + 1, 2, 1.);
               if( bad) { sim.violate( "wrong-values", strf( "VSOP planet %d t %.2f: %.12g %.12g %.12g, expected %.12g %.12g %.12g%s", planet, t, o[0], o[1], o[2], e[0], e[1], e[2],
                     fault_free ? "" : " (after a fault, reported as success)")); return 0; }
               }
            else if( fault_free || !planet) sim.violate( "spurious-error", strf( "VSOP planet %d gave %d though the file is complete", planet, rv));
            if( !fault_free && planet) sim.count( rv ? "probe.error_reported" : "probe.success_despite_fault_or_truncation");
            }
         else if( kind < 9)
            {
            double t = (int)w.choose( 400) / 100. - 2., prec = w.chance( 1, 2) ? 0. : pow( 10., -(int)w.choose( 9) - 1.), o[5] = { 9., 9., 9., 9., 777. }, e[4];
            int rv = elp( fp[2], t, prec, o);
            fault_free = ff( );
            note( strf( "; ELP t %.2f prec %g -> %d", t, prec, rv));
            ref_elp( d, t, prec, e);
            if( !rv && !near_n( o, e, 4, fabs( e[3])))
               { sim.violate( "wrong-values", strf( "ELP t %.2f prec %g: %.10g %.10g %.10g %.10g, expected %.10g %.10g %.10g %.10g%s", t, prec, o[0], o[1], o[2], o[3], e[0], e[1], e[2], e[3],
                     fault_free ? "" : " (after a fault, reported as success)")); return 0; }
            if( rv && fault_free) sim.violate( "spurious-error", strf( "ELP gave %d though the file is complete", rv));
            if( o[4] != 777.) sim.violate( "memory", "ELP wrote beyond its four outputs");
            if( !fault_free) sim.count( rv ? "probe.error_reported" : "probe.success_despite_fault_or_truncation");
            }
         else if( kind == 9)
            {
            /* a file is cut short,  removed,  or complete again */
            int i = (int)w.choose( 3);
            if( fp[i]) { fclose( fp[i]); fp[i] = NULL; }
            std::string path = std::string( "/work/") + names[i];
            u32 what = w.choose( 4);
            complete[i] = what < 2;
            if( what < 2)
               {
               dflt[i] = w.chance( 1, 2) ? first : &data( (int)w.choose( 4));
               sim.fs.put( path, full( dflt[i], i));
               note( strf( "; %s (re)placed", names[i]));
               }
            else if( what == 2)
               {
               u32 where = w.choose( 3);
               size_t n = full( dflt[i], i).size( );
               size_t len = where == 0 ? w.choose( (u32)n) : (where == 1 ? n - 1 - w.choose( 40) : w.choose( 1000));
               if( len >= n) len = n - 1;
               sim.fs.put( path, full( dflt[i], i).substr( 0, len));
               sim.count( "fault.truncated_file");
               note( strf( "; %s cut to %d of %d bytes", names[i], (int)len, (int)n));
               }
            else { sim.fs.files.erase( path); sim.count( "fault.missing_file"); note( strf( "; %s removed", names[i])); }
            }
         else
            {
            int i = (int)w.choose( 3);
            if( fp[i]) { fclose( fp[i]); fp[i] = NULL; note( strf( "; close %s", names[i])); }
            else
               {
               alt[i] = w.chance( 1, 2);
               opened[i] = alt[i] ? second : dflt[i];
               fp[i] = sim_fopen( (std::string( alt[i] ? "alt_" : "") + names[i]).c_str( ), "rb");
               note( strf( "; open %s%s -> %s", alt[i] ? "alt_" : "", names[i], fp[i] ? "ok" : "NULL"));
               }
            }
         size_t want = fds0;
         for( int i = 0; i < 3; i++) want += fp[i] ? 1 : 0;
         if( sim.cur->fds.size( ) != want)
            { sim.violate( "leak", strf( "%d files open, expected %d", (int)sim.cur->fds.size( ), (int)want)); return 0; }
         /* every live PS-1996 series keeps giving the right positions */
         for( auto &h : hs)
            {
            const Ps &P = h.d->p[h.planet - 1];
            double jd = P.tzero + P.dt * (h.block + (int)w.choose( 9) / 8.), o[7], e[6];
            for( auto &x : o) x = 555.5;
            if( w.chance( 1, 10)) jd += P.dt * 1.2;
            bool vel = w.chance( 1, 2), in = ref_ps( P, h.block, jd, e);
            int rv = ps_pos( jd, h.h, o, vel);
            if( o[6] != 555.5 || (!vel && (o[3] != 555.5 || o[4] != 555.5 || o[5] != 555.5)))
               { sim.violate( "memory", "get_ps1996_position wrote beyond its outputs"); return 0; }
            if( in != !rv || (in && (!near_n( o, e, 3, 1.) || (vel && !near_n( o + 3, e + 3, 3, .1)))))
               { sim.violate( "wrong-values", strf( "PS-1996 planet %d JD %.4f: %d %.12g %.12g %.12g, expected %d %.12g %.12g %.12g", h.planet, jd, rv, o[0], o[1], o[2], in ? 0 : -1, e[0], e[1], e[2])); return 0; }
            }
         while( hs.size( ) > 3 || (hs.size( ) && w.chance( 1, 4)))
            { ps_unload( hs[0].h); hs.erase( hs.begin( )); }
         }
      for( auto &h : hs) ps_unload( h.h);
      for( int i = 0; i < 3; i++) if( fp[i]) fclose( fp[i]);
      if( sim.cur->live_allocs)
         sim.violate( "leak", strf( "%ld blocks still allocated at the end", sim.cur->live_allocs));
      return 0;
   });
   sim.run( );
   if( !p->clean( )) sim.violate( "crash", p->describe( ));
   if( p->mem_error) sim.violate( "memory", p->mem_note);
   sim.nontrivial = true;
}
SCENARIO( P08, history, 1) { ephem( sim, false); }
SCENARIO( P08, faults, 3) { ephem( sim, true); }
