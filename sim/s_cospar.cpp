/* COSPAR orientation data:  lazy loading,  reloading,  caches,  faults */
#include "util.h"
#include <math.h>
#include <sstream>

namespace {
typedef int (*load_t)( const char *);
typedef double (*rate_t)( int, int);
typedef int (*radii_t)( int, double *);
typedef int (*orient_t)( int, int, double, double *);

/* The real cospar.txt is read from the tree under test once per host process. */
const std::string &real_cospar( )
{
   static std::string s;
   if( s.empty( ))
      {
      const char *r = getenv( "VERIF_REPO");
      std::string path = std::string( r ? r : "/repo") + "/cospar.txt";
      FILE *f = fopen( path.c_str( ), "rb");
      if( !f) { fprintf( stderr, "HARNESS ERROR: cannot read %s\n", path.c_str( )); exit( 3); }
      char b[4096];
      size_t n;
      while( (n = fread( b, 1, sizeof( b), f)) > 0) s.append( b, n);
      fclose( f);
      }
   return s;
}
const int N_VAR = 6;
std::string variant( int k)
{
   if( k == 0) return real_cospar( );
   std::string r;
   switch( k)
      {
      case 1:                          /* other constants for everything */
         for( auto &l : split_lines( real_cospar( )))
            {
            size_t e = l.find( '=');
            std::string t = l;
            if( e != std::string::npos && e < 8 && (l.find( "W") < e || l.find( "a0") < e || l.find( "r=") + 1 == e))
               t = l.substr( 0, e + 1) + "1" + l.substr( l.find_first_not_of( ' ', e + 1) == std::string::npos ? e + 1 : l.find_first_not_of( ' ', e + 1));
            r += t + "\n";
            }
         return r;
      case 2:                          /* small file */
         return "Planet: p\n\nObj: 2 # Venus\n   r=6051.8\n   a0= 272.76\n   d0= 67.16\n   W=160.20-1.4813688d\n\n"
                "Obj: 6\n   r=60268,54364\n   a0= 40.589-0.036T\n   d0= 83.537-0.004T\n   W2= 104.90+812d\n   W= 227.90+844.3d\n\nPlanet: H\nEND\n";
      case 3:                          /* same layout as 2,  other values */
         return "Planet: p\n\nObj: 2 # Venus\n   r=7051.8\n   a0= 172.76\n   d0= 37.16\n   W=60.20+2.4813688d\n\n"
                "Obj: 6\n   r=50268,44364\n   a0= 10.589-0.036T\n   d0= 23.537-0.004T\n   W2= 14.90+712d\n   W= 127.90+744.3d\n\nPlanet: H\nEND\n";
      case 4:                          /* objects in another order,  comments added */
         return "# another file\nRemap: 3001 10\nPlanet: p\nObj: 6\n r=1,2,3\n a0=1\n d0=2\n W=3+4d\nObj: 2\n r=4,5\n a0=10\n d0=20\n W=30-40d\nPlanet: E\n"
                "   E1= 125.045-0.0529921d\n   E2=250.089-0.1059842d\n\nObj: 3001\n  r=1737.4\n  a0=269.9949+.0031T-3.8787sinE1-.1204sinE2\n  d0=66.5392+.0130T+1.5419cosE1\n  W=38.3213+13.17635815d+3.5610sinE1\nPlanet: Z\nEND\n";
      case 5:                          /* squares of the time,  rotation systems for any object,  multiples of the arguments */
         return "Remap: 6 777 2 175 3001 10  4 28\nPlanet: Q\n  Q1 = 12.5+41.25T\n Q2= -17.75-.0123d # some\nObj: 4\n r=33,32,31\n a0=200.5-.1T2+1.5sinQ1\n d0=-40.25+.2T-.3cos2Q2\n W1=10-3d+2e-8d2\n W3 = 20 + 4d -3e-8d2\n W=30+5d+.7T2-.8sin3Q1\n"
                "Obj: 2\n r=7\n a0=80-.25T\n d0=-66+.01T+.02T2\n W2=1+2d\n W1=3+4d\n W=5-6d+1e-7d2\nObj: 6\n r=5,4\n a0=1.5\n d0=80+2cosQ1\n W=.25+810.5d\nPlanet: R\n R1=100-.2d\n R2=5+6T\nObj: 3001\n r=1,2\n a0=270-3sinR1\n d0=60+2cosR2+.5sin2R1\n W=-38+13.2d-1e-9d2+3sinR2\nPlanet: S\nEND\n";
      }
   return r;
}
struct Q { int kind = 0, planet = 0, sys = 0; double jd = 0.; };
struct A { int rv = 0; double v[9] = { 0, 0, 0, 0, 0, 0, 0, 0, 0 }; std::string bad; };

void ask( Module *m, const Q &q, A &a)
{
   for( double &x : a.v) x = -777.;
   if( q.kind == 0) a.rv = ((orient_t)m->sym( "calc_planet_orientation"))( q.planet, q.sys, q.jd, a.v);
   else if( q.kind == 1) { a.rv = 0; a.v[0] = ((rate_t)m->sym( "planet_rotation_rate"))( q.planet, q.sys); }
   else a.rv = ((radii_t)m->sym( "planet_radii"))( q.planet, a.v);
}
/* The answer according to the format described at the end of cospar.txt,  worked out independently of the code under test;
'tdt' is the dynamical time.  a.rv = -1:  an error must be reported.  Returns false where the format leaves the answer open. */
bool model( const std::string &text, const Q &q, double tdt, A &a)
{
   std::vector<std::string> lines;
   for( auto &l0 : split_lines( text))
      {
      if( l0.compare( 0, 3, "END") == 0) break;
      std::string l = l0.substr( 0, l0.find( '#')), t;
      bool remap = l.compare( 0, 6, "Remap:") == 0;
      for( char c : l) if( c >= ' ' && (c != ' ' || remap)) t += c;
      if( !t.empty( )) lines.push_back( t);
      }
   int obj = q.planet;
   std::map<std::string, std::pair<double, double>> args;     /* 'E1' -> constant and rate per day */
   bool in_obj = false, found = false, closed = false;
   double r[3] = { 0., 0., 0. };
   std::string eq[3];
   for( size_t i = 0; i < lines.size( ) && !closed; i++)
      {
      const std::string &l = lines[i];
      if( l.compare( 0, 6, "Remap:") == 0)
         {
         std::istringstream is( l.substr( 6));
         int to, from;
         if( obj > 9 && obj < 1000) while( is >> to >> from) if( from == obj) { obj = to; break; }
         }
      else if( l.compare( 0, 7, "Planet:") == 0 || l.compare( 0, 4, "Obj:") == 0)
         {
         if( found) closed = true;
         in_obj = l[0] == 'O' && atoi( l.c_str( ) + 4) == obj;
         if( l[0] == 'P') args.clear( );
         found |= in_obj;
         }
      else if( in_obj)
         {
         std::string name = l.substr( 0, l.find( '=')), v = l.substr( l.find( '=') + 1);
         if( name == "r") sscanf( v.c_str( ), "%lf,%lf,%lf", r, r + 1, r + 2);
         else if( name == "a0") eq[0] = v;
         else if( name == "d0") eq[1] = v;
         else if( (name == "W" || name == strf( "W%d", q.sys)) && eq[2].empty( )) eq[2] = v;
         }
      else if( isalpha( l[0]) && isdigit( l[1]) && l.find( '=') != std::string::npos)
         {
         char *e;
         size_t k = l.find( '=');
         double c = strtod( l.c_str( ) + k + 1, &e), lin = strtod( e, &e);
         args[l.substr( 0, k)] = std::make_pair( c, *e == 'T' ? lin / 36525. : lin);
         }
      }
   if( !found) { a.rv = -1; return true; }              /* no such object:  an error */
   if( !closed) return false;
   a.rv = 0;
   if( q.kind == 2) { for( int i = 0; i < 3; i++) a.v[i] = r[i]; return true; }
   const double d = tdt - 2451545., T = d / 36525., rad = M_PI / 180.;
   double val[3] = { 0., 0., 0. };
   bool retro = false;
   for( int k = 0; k < 3; k++)
      {
      if( eq[k].empty( )) return false;
      char *e;
      val[k] = strtod( eq[k].c_str( ), &e);
      while( *e)
         {
         double c = strtod( e, &e);
         if( *e == 'd' || *e == 'T')
            {
            double x = *e == 'd' ? d : T;
            bool sq = e[1] == '2';
            if( k == 2 && !sq && c < 0.) retro = true;
            if( q.kind == 1 && k == 2 && *e == 'd') { a.v[0] = c; return true; }
            val[k] += c * x * (sq ? x : 1.);
            e += sq ? 2 : 1;
            }
         else if( !memcmp( e, "sin", 3) || !memcmp( e, "cos", 3))
            {
            bool s = *e == 's';
            double mul = 1.;
            e += 3;
            if( isdigit( *e)) mul = strtol( e, &e, 10);
            std::string nm( 1, *e++);
            while( isdigit( *e)) nm += *e++;
            if( !args.count( nm)) return false;
            double ang = (args[nm].first + args[nm].second * d) * mul * rad;
            val[k] += c * (s ? sin( ang) : cos( ang));
            }
         else return false;
         }
      }
   if( q.kind == 1) { a.v[0] = val[2]; return false; }
   double ra = val[0] * rad, dec = val[1] * rad, om = val[2] * rad + M_PI;
   double x[3] = { sin( ra), -cos( ra), 0. }, y[3] = { -cos( ra) * sin( dec), -sin( ra) * sin( dec), cos( dec) };
   for( int i = 0; i < 3; i++)
      {
      a.v[i] = x[i] * cos( om) - y[i] * sin( om);
      a.v[i + 3] = (y[i] * cos( om) + x[i] * sin( om)) * (retro ? -1. : 1.);
      }
   a.v[6] = cos( ra) * cos( dec); a.v[7] = sin( ra) * cos( dec); a.v[8] = sin( dec);
   return true;
}
/* Answer of a fresh process with the given data (-1: no file at all) */
const A &fresh( int k, const Q &q)
{
   static std::map<std::string, A> memo;
   std::string key = strf( "%d %d %d %d %.9f", k, q.kind, q.planet, q.sys, q.jd);
   auto it = memo.find( key);
   if( it != memo.end( )) return it->second;
   if( memo.size( ) > 20000) memo.clear( );
   Module *m = get_module( "lib", 63);
   m->restore( );
   A a;
   double tdt = q.jd;
   {
   RefWorld ref;
   ref.sim.stdio_buf = 65536;
   if( k >= 0) ref.sim.fs.put( "/work/cospar.txt", variant( k));
   ref.sim.spawn( "fresh", m, [&]( ) -> int { if( k >= 0) ((load_t)m->sym( "load_cospar_file"))( "cospar.txt"); ask( m, q, a); tdt += ((double (*)( double))m->sym( "td_minus_ut"))( q.jd) / 86400.; return 0; });
   ref.sim.run( );
   }
   A want;
   if( !(q.kind == 0 && q.planet == 3) && model( k >= 0 ? variant( k) : "", q, tdt, want))
      {
      bool ok = !a.rv;
      if( want.rv) ok = q.kind == 1 ? a.v[0] == 0. : a.rv != 0;
      else for( int i = 0; i < (q.kind == 0 ? 9 : (q.kind == 1 ? 1 : 3)); i++)
         if( !(fabs( a.v[i] - want.v[i]) <= 2e-7 * (1. + fabs( want.v[i])))) ok = false;
      if( !ok) a.bad = strf( "query %d object %d system %d JD %.3f of file %d: rval %d, %.10g %.10g %.10g; the file says %s%.10g %.10g %.10g", q.kind, q.planet, q.sys, q.jd, k,
                     a.rv, a.v[0], a.v[1], a.v[2], want.rv ? "nothing:  " : "", want.v[0], want.v[1], want.v[2]);
      }
   return memo[key] = a;
}
bool same( const Q &q, const A &x, const A &y)
{
   if( x.rv != y.rv) return false;
   int n = q.kind == 0 ? 9 : (q.kind == 1 ? 1 : 3);
   if( q.kind == 0 && x.rv) return true;           /* matrix of a failed call is unspecified */
   if( q.kind == 2 && x.rv) return true;
   for( int i = 0; i < n; i++)
      if( !(fabs( x.v[i] - y.v[i]) <= 1e-9 * (1. + fabs( y.v[i])))) return false;
   return true;
}
bool is_error( const Q &q, const A &a) { return q.kind == 1 ? a.v[0] == 0. : a.rv != 0; }
}

static void cospar( Sim &sim, bool faults)
{
   Tape &w = sim.w;
   Module *m = get_module( "lib", 0);
   m->restore( );
   sim.stdio_buf = pick( w, { 4096, 65536, 512, 100 });
   int dflt = w.chance( 1, 8) ? -1 : (int)w.choose( N_VAR);
   for( int k = 0; k < N_VAR; k++)
      sim.fs.put( strf( "/work/v%d.txt", k), variant( k));
   if( dflt >= 0) sim.fs.put( "/work/cospar.txt", variant( dflt));
   if( faults)
      {
      u32 k = pick( w, { 1, 3, 10 });
      sim.fault.read_eio = on_off( w, 2, 3, 20000 * k);
      sim.fault.read_short = on_off( w, 1, 3, 100000);
      sim.fault.open_fail = on_off( w, 1, 3, 60000 * k);
      sim.fault.alloc_fail = on_off( w, 1, 3, 60000 * k);
      sim.fault.budget = 1 + (int)w.choose( 4);
      }
   sim.sample = strf( "default file %d", dflt);
   int n_ops = 3 + (int)w.choose( 10);
   static const int planets[] = { 2, 6, 5, 3001, 10, 4, 0, 1, 7, 8, 9, 5001, 6006, 8001, -4, 777, 3, 4001, 4002, 28, 30, 6013, 9001, 7005, -25143, 175, 99 };
   Proc *p = sim.spawn( "client", m, [&]( ) -> int {
      load_t load = (load_t)m->sym( "load_cospar_file");
      std::set<int> cand;              /* what may be loaded: variant number,  -2 = nothing */
      cand.insert( -2);
      Q last;
      last.planet = 2; last.jd = 2455000.5;
      size_t fds0 = sim.cur->fds.size( );
      for( int op = 0; op < n_ops; op++)
         {
         u32 kind = w.choose( 8);
         int hf = sim.cur->n_hard_faults;
         if( kind == 1)
            {
            int k = (int)w.choose( N_VAR + 1);
            int rv = load( k < N_VAR ? strf( "v%d.txt", k).c_str( ) : "missing.txt");
            bool fl = sim.cur->n_hard_faults != hf;
            sim.sample += strf( "; load v%d -> %d%s", k, rv, fl ? " [fault]" : "");
            sim.ev( "load v%d -> %d", k, rv);
            if( k < N_VAR && !fl && rv) sim.violate( "load-result", strf( "loading a good file gave %d", rv));
            if( k == N_VAR && !rv) sim.violate( "load-result", "loading a missing file reported success");
            cand.clear( );
            cand.insert( rv || k == N_VAR ? -2 : k);
            if( fl) sim.count( rv ? "probe.load_error_reported" : "probe.load_ok_despite_fault");
            }
         else if( kind == 2 && w.chance( 1, 2))
            {
            load( NULL);
            sim.sample += "; release";
            cand.clear( );
            cand.insert( -2);
            }
         else if( kind == 3 && w.chance( 1, 2))
            {
            dflt = (int)w.choose( N_VAR + 1) - 1;
            if( dflt < 0) sim.fs.files.erase( "/work/cospar.txt");
            else sim.fs.put( "/work/cospar.txt", variant( dflt));
            sim.sample += strf( "; default file := %d", dflt);
            }
         else
            {
            Q q;
            q.kind = (int)w.choose( 3);
            q.planet = planets[w.choose( 27)];
            q.sys = (int)w.choose( 4);
            q.jd = 2440000.5 + w.choose( 20000) + w.choose( 4) / 4. - (w.chance( 1, 6) ? 30000. : 0.);
            if( w.chance( 1, 2))        /* the same or nearly the same question again */
               {
               u32 what = w.choose( 5);
               q.planet = last.planet;
               if( what != 1) q.sys = last.sys;
               if( what != 2) q.jd = last.jd;
               if( what == 3) q.planet = planets[w.choose( 6)];
               }
            A a;
            ask( m, q, a);
            last = q;
            bool fl = sim.cur->n_hard_faults != hf;
            sim.sample += strf( "; q%d(%d,%d,%.2f)%s", q.kind, q.planet, q.sys, q.jd, fl ? " [fault]" : "");
            sim.ev( "q%d(%d,%d,%.2f) -> %d %.12g", q.kind, q.planet, q.sys, q.jd, a.rv, a.v[0]);
            std::set<int> left;
            bool earth = q.kind == 0 && q.planet == 3;
            for( int c : cand)
               {
               int eff = c == -2 ? dflt : c;
               const A &f = fresh( eff, q);
               g_sim = &sim;
               if( !f.bad.empty( )) { sim.violate( "not-as-in-file", f.bad); return 0; }
               if( same( q, a, f)) left.insert( earth ? c : (eff >= 0 ? eff : -2));
               }
            if( fl && is_error( q, a))
               { left.insert( -2); sim.count( "probe.query_error_reported"); }
            if( left.empty( ))
               {
               const A &f = fresh( *cand.begin( ) == -2 ? dflt : *cand.begin( ), q);
               g_sim = &sim;
               sim.violate( "wrong-answer", strf( "query %d object %d system %d JD %.3f: rval %d, %.10g %.10g %.10g; a fresh process gives %d, %.10g %.10g %.10g",
                     q.kind, q.planet, q.sys, q.jd, a.rv, a.v[0], a.v[1], a.v[2], f.rv, f.v[0], f.v[1], f.v[2]));
               return 0;
               }
            if( fl) for( int c : cand) if( c == -2) left.insert( -2);
            cand = left;
            }
         if( sim.cur->fds.size( ) != fds0)
            { sim.violate( "leak", "file left open"); fds0 = sim.cur->fds.size( ); }
         }
      load( NULL);
      if( sim.cur->live_allocs)
         sim.violate( "leak", strf( "%ld blocks still allocated after releasing the data", sim.cur->live_allocs));
      return 0;
   });
   sim.run( );
   if( !p->clean( )) sim.violate( "crash", p->describe( ));
   if( p->mem_error) sim.violate( "memory", p->mem_note);
   sim.nontrivial = true;
}
SCENARIO( P07, history, 1) { cospar( sim, false); }
SCENARIO( P07, faults, 2) { cospar( sim, true); }
