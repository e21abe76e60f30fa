/* Driver:  seeded search,  determinism gate,  minimiser,  replay. */
#include <sys/personality.h>
#include "core.h"
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <algorithm>

void install_crash_handlers( );

static double wall( )
{
   struct timespec t;
   clock_gettime( CLOCK_MONOTONIC, &t);
   return t.tv_sec + t.tv_nsec * 1e-9;
}

struct Result {
   std::string cls, msg, sample;
   u64 hash = 0, sched = 0, sim_us = 0, steps = 0, switches = 0, fs_hash = 0;
   bool nontrivial = false;
   Tapes tapes;
   std::map<std::string, u64> counters;
   std::vector<std::string> trace;
};

static Result run_one( const Scenario &sc, u64 seed, const Tapes *replay, bool tracing)
{
   Result r;
   const CurState c0 = save_current( );
   Sim *sim = new Sim;
   sim->seed = seed;
   sim->tracing = tracing;
   if( replay)
      {
      sim->w.replay = sim->s.replay = sim->f.replay = true;
      sim->w.v = replay->w;
      sim->s.v = replay->s;
      sim->f.v = replay->f;
      }
   else
      {
      sim->w.rng.seed( mix64( seed ^ 0x1111));
      sim->s.rng.seed( mix64( seed ^ 0x2222));
      sim->f.rng.seed( mix64( seed ^ 0x3333));
      }
   g_sim = sim;
   if( sigsetjmp( g_outside_jmp, 0))           /* a fatal signal outside any simulated process:  code under test run directly, */
      {                                        /* or having spoiled the host's data */
      g_outside_ok = false;
      restore_current( c0);
      r.cls = "crash";
      r.msg = "fatal signal outside a simulated process";
      r.hash = mix64( seed);
      r.tapes.w = sim->w.v; r.tapes.s = sim->s.v; r.tapes.f = sim->f.v;
      return r;                                /* 'sim' is left as it is:  who knows what it holds */
      }
   if( sim->w.chance( 1, 2)) sim->pid_kind = 1 + sim->w.choose( 8);
   g_outside_ok = true;
   sc.fn( *sim);
   g_outside_ok = false;
   g_sim = sim;
   if( !sim->violations.empty( ))
      {
      r.cls = sim->violations[0].cls;
      r.msg = sim->violations[0].msg;
      }
   r.fs_hash = sim->fs.hash( );
   r.hash = mix64( sim->ev_hash ^ mix64( r.fs_hash));
   r.sched = sim->sched_hash;
   r.sim_us = sim->now_us;
   r.steps = sim->steps;
   r.switches = sim->n_switches;
   r.nontrivial = sim->nontrivial;
   r.sample = sim->sample;
   for( auto &c : sim->counters)
      if( c.first.compare( 0, 6, "fault.") == 0) r.nontrivial = true;
   if( sim->n_switches) r.nontrivial = true;
   r.counters = sim->counters;
   r.tapes.w = sim->w.v;
   r.tapes.s = sim->s.v;
   r.tapes.f = sim->f.v;
   r.trace.swap( sim->trace);
   const char *dump = tracing ? getenv( "SIM_DUMP") : NULL;     /* final files of a traced run,  for a look at them */
   if( dump)
      for( auto &fl : sim->fs.files)
         {
         std::string name = fl.first;
         for( char &c : name) if( c == '/') c = '_';
         if( FILE *f = fopen( (std::string( dump) + "/" + name).c_str( ), "wb"))
            {
            fwrite( fl.second->data.data( ), 1, fl.second->data.size( ), f);
            fclose( f);
            }
         }
   delete sim;
   g_sim = NULL;
   return r;
}

static const Scenario *pick_scenario( const std::vector<Scenario *> &v, u64 idx)
{
   int tot = 0;
   for( auto s : v) tot += s->weight;
   int k = (int)( mix64( idx * 7919 + 13) % tot);
   for( auto s : v)
      if( (k -= s->weight) < 0) return s;
   return v[0];
}

static u64 run_seed( u64 base, const std::string &prop, u64 idx)
{
   return mix64( mix64( base) ^ hash_str( prop) ^ mix64( idx + 0xabcdef));
}

/* ---------------------------------------------------------------- replay IO */
static void write_replay( const std::string &path, const std::string &prop, const std::string &scen,
         u64 seed, const Result &r, const Tapes &t, const Tapes &orig)
{
   FILE *o = fopen( path.c_str( ), "w");
   if( !o) { perror( path.c_str( )); exit( 3); }
   fprintf( o, "property %s\nscenario %s\nseed %llu\n", prop.c_str( ), scen.c_str( ), (unsigned long long)seed);
   const std::vector<u32> *v[3] = { &t.w, &t.s, &t.f };
   for( int i = 0; i < 3; i++)
      {
      fprintf( o, "%c", "wsf"[i]);
      for( u32 x : *v[i]) fprintf( o, " %u", x);
      fprintf( o, "\n");
      }
   fprintf( o, "class %s\nhash %016llx\n", r.cls.c_str( ), (unsigned long long)r.hash);
   std::string m = r.msg;
   for( auto &c : m) if( c == '\n') c = '|';
   fprintf( o, "message %s\n", m.c_str( ));
   fprintf( o, "# original decisions: workload %zu schedule %zu fault %zu; minimised: %zu %zu %zu\n",
         orig.w.size( ), orig.s.size( ), orig.f.size( ), t.w.size( ), t.s.size( ), t.f.size( ));
   fprintf( o, "# trace of the minimised run (simulated seconds, process, event):\n");
   size_t n = r.trace.size( );
   for( size_t i = 0; i < n; i++)
      if( n < 3000 || i < 1500 || i + 1500 > n)
         fprintf( o, "# %s\n", r.trace[i].c_str( ));
   fclose( o);
}
static bool read_replay( const char *path, std::string &prop, std::string &scen, u64 &seed, Tapes &t, std::string &cls, u64 &hash)
{
   FILE *f = fopen( path, "r");
   if( !f) return false;
   char *line = NULL;
   size_t cap = 0;
   while( getline( &line, &cap, f) > 0)
      {
      size_t l = strlen( line);
      while( l && line[l - 1] == '\n') line[--l] = 0;
      if( !strncmp( line, "property ", 9)) prop = line + 9;
      else if( !strncmp( line, "scenario ", 9)) scen = line + 9;
      else if( !strncmp( line, "seed ", 5)) seed = strtoull( line + 5, NULL, 10);
      else if( !strncmp( line, "class ", 6)) cls = line + 6;
      else if( !strncmp( line, "hash ", 5)) hash = strtoull( line + 5, NULL, 16);
      else if( line[0] && strchr( "wsf", line[0]) && (line[1] == ' ' || !line[1]))
         {
         std::vector<u32> *v = line[0] == 'w' ? &t.w : (line[0] == 's' ? &t.s : &t.f);
         char *p = line + 1, *e;
         for( ;;)
            {
            u32 x = (u32)strtoul( p, &e, 10);
            if( e == p) break;
            v->push_back( x);
            p = e;
            }
         }
      }
   free( line);
   fclose( f);
   return !prop.empty( );
}

/* --------------------------------------------------------------- minimiser */
static int min_runs;
static double min_deadline;
static bool still_fails( const Scenario &sc, u64 seed, const Tapes &t, const std::string &cls)
{
   if( min_runs <= 0 || wall( ) > min_deadline) return false;
   min_runs--;
   Result r = run_one( sc, seed, &t, false);
   return r.cls == cls;
}
static void trim( std::vector<u32> &v) { while( !v.empty( ) && !v.back( )) v.pop_back( ); }
static Tapes minimise( const Scenario &sc, u64 seed, Tapes best, const std::string &cls)
{
   trim( best.w); trim( best.s); trim( best.f);
   bool progress = true;
   while( progress && min_runs > 0 && wall( ) < min_deadline)
      {
      progress = false;
      for( int which = 0; which < 3; which++)
         {
         auto get = [which]( Tapes &t) -> std::vector<u32> & { return which == 0 ? t.s : (which == 1 ? t.f : t.w); };
            /* drop the whole stream,  then truncate by halves */
         for( size_t keep = 0; keep < get( best).size( ); keep = keep ? keep * 2 : 1)
            {
            Tapes c = best;
            get( c).resize( keep);
            trim( get( c));
            if( get( c).size( ) < get( best).size( ) && still_fails( sc, seed, c, cls))
               { best = c; progress = true; break; }
            }
            /* zero blocks,  then delete blocks */
         for( int mode = 0; mode < 2; mode++)
            for( size_t blk = std::max<size_t>( 1, get( best).size( ) / 2); ; blk /= 2)
               {
               size_t i = 0;
               while( i < get( best).size( ))
                  {
                  Tapes c = best;
                  std::vector<u32> &v = get( c);
                  size_t e = std::min( v.size( ), i + blk);
                  if( mode == 0)
                     {
                     bool any = false;
                     for( size_t j = i; j < e; j++) { any |= v[j] != 0; v[j] = 0; }
                     if( !any) { i += blk; continue; }
                     }
                  else
                     v.erase( v.begin( ) + i, v.begin( ) + e);
                  trim( v);
                  if( still_fails( sc, seed, c, cls))
                     { best = c; progress = true; if( mode == 0) i += blk; }
                  else
                     i += blk;
                  if( min_runs <= 0 || wall( ) > min_deadline) return best;
                  }
               if( blk <= 1) break;
               }
            /* smaller values */
         for( size_t i = 0; i < get( best).size( ); i++)
            {
            u32 x = get( best)[i];
            for( u32 cand : { x / 2, x ? x - 1 : 0 })
               if( cand < get( best)[i])
                  {
                  Tapes c = best;
                  get( c)[i] = cand;
                  if( still_fails( sc, seed, c, cls)) { best = c; progress = true; break; }
                  }
            if( min_runs <= 0 || wall( ) > min_deadline) return best;
            }
         }
      }
   return best;
}

/* ------------------------------------------------------------------ search */
struct Agg {
   u64 runs = 0, nontrivial = 0, sim_us = 0, steps = 0, switches = 0, det_checked = 0, det_bad = 0;
   std::map<std::string, u64> counters;
   std::map<std::string, u64> per_scen;
   std::set<u64> hashes, scheds, fss;
   std::vector<std::string> samples;
   std::vector<std::pair<u64, std::string>> viol;     /* idx, class|msg */
};

static std::string jesc( const std::string &s)
{
   std::string r;
   for( unsigned char c : s)
      if( c == '"' || c == '\\') { r += '\\'; r += c; }
      else if( c == '\n') r += "\\n";
      else if( c < 32 || c > 126) r += strf( "\\u%04x", c);
      else r += c;
   return r;
}

int main( int argc, char **argv)
{
   std::string prop, outdir = ".", replay, only, so_dir = ".", stats_file, dumpcases;
   u64 base = 1, runs = 1000, first = 0;
   int jobs = 8, maxmin = 1500;
   double cap = 600., min_cap = 60.;
   bool show_trace = false, hashes_only = false;
   std::vector<std::string> known;

   int pers = personality( 0xffffffff);      /* the same addresses every time,  if that may be asked for */
   if( pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv( "SIM_NO_REEXEC") && personality( (unsigned)pers | ADDR_NO_RANDOMIZE) != -1)
      {
      setenv( "SIM_NO_REEXEC", "1", 1);
      execv( "/proc/self/exe", argv);
      }
   setenv( "TZ", "UTC", 1);
   for( int i = 1; i < argc; i++)
      {
      std::string a = argv[i];
      auto nxt = [&]( ) { return std::string( i + 1 < argc ? argv[++i] : ""); };
      if( a == "--property") prop = nxt( );
      else if( a == "--seed") base = strtoull( nxt( ).c_str( ), NULL, 10);
      else if( a == "--runs") runs = strtoull( nxt( ).c_str( ), NULL, 10);
      else if( a == "--first") first = strtoull( nxt( ).c_str( ), NULL, 10);
      else if( a == "--jobs") jobs = atoi( nxt( ).c_str( ));
      else if( a == "--cap") cap = atof( nxt( ).c_str( ));
      else if( a == "--min-cap") min_cap = atof( nxt( ).c_str( ));
      else if( a == "--so-dir") so_dir = nxt( );
      else if( a == "--out") outdir = nxt( );
      else if( a == "--stats") stats_file = nxt( );
      else if( a == "--replay") replay = nxt( );
      else if( a == "--only") only = nxt( );
      else if( a == "--known") known.push_back( nxt( ));
      else if( a == "--trace") show_trace = true;
      else if( a == "--hashes") hashes_only = true;
      else { fprintf( stderr, "unknown option %s\n", a.c_str( )); return 3; }
      }
   set_so_dir( so_dir);
   install_crash_handlers( );

   if( !replay.empty( ))
      {
      std::string scen, cls;
      u64 seed = 0, hash = 0;
      Tapes t;
      if( !read_replay( replay.c_str( ), prop, scen, seed, t, cls, hash))
         { fprintf( stderr, "cannot read replay %s\n", replay.c_str( )); return 3; }
      for( auto &sc : scenarios( ))
         if( prop == sc.property && scen == sc.name)
            {
            Result r = run_one( sc, seed, &t, show_trace);
            for( auto &l : r.trace) printf( "%s\n", l.c_str( ));
            printf( "class %s\nhash %016llx\nmessage %s\n", r.cls.c_str( ), (unsigned long long)r.hash, r.msg.c_str( ));
            if( r.cls == cls && r.hash == hash) { printf( "REPRODUCED property=%s\n", prop.c_str( )); return 1; }
            if( r.cls.empty( )) { printf( "NOT REPRODUCED\n"); return 0; }
            printf( "DIFFERENT OUTCOME\n");
            return r.cls == cls ? 4 : 2;
            }
      fprintf( stderr, "no scenario %s/%s\n", prop.c_str( ), scen.c_str( ));
      return 3;
      }

   std::vector<Scenario *> sv;
   for( auto &s : scenarios( ))
      if( prop == s.property && (only.empty( ) || only == s.name)) sv.push_back( &s);
   if( sv.empty( )) { fprintf( stderr, "no scenario for %s\n", prop.c_str( )); return 3; }

   if( hashes_only)           /* for the determinism proof:  one line per run */
      {
      for( u64 i = first; i < first + runs; i++)
         {
         const Scenario *sc = pick_scenario( sv, i);
         Result r = run_one( *sc, run_seed( base, prop, i), NULL, false);
         printf( "%llu %s %016llx %016llx %s\n", (unsigned long long)i, sc->name, (unsigned long long)r.hash, (unsigned long long)r.sched, r.cls.c_str( ));
         }
      return 0;
      }
   if( show_trace)
      {
      for( u64 i = first; i < first + runs; i++)
         {
         const Scenario *sc = pick_scenario( sv, i);
         Result r = run_one( *sc, run_seed( base, prop, i), NULL, true);
         printf( "=== run %llu %s: %s %s\n--- %s\n", (unsigned long long)i, sc->name, r.cls.c_str( ), r.msg.c_str( ), r.sample.c_str( ));
         for( auto &l : r.trace) printf( "%s\n", l.c_str( ));
         }
      return 0;
      }

   double t0 = wall( );
   std::vector<pid_t> kids;
   std::vector<std::string> files;
   fflush( stdout);
   for( int k = 0; k < jobs; k++)
      {
      std::string fn = strf( "%s/.worker_%d_%d", outdir.c_str( ), (int)getpid( ), k);
      files.push_back( fn);
      pid_t pid = fork( );
      if( pid < 0) { perror( "fork"); return 3; }
      if( pid)
         { kids.push_back( pid); continue; }
      Agg a;
      for( u64 i = first + k; i < first + runs; i += jobs)
         {
         if( wall( ) - t0 > cap) break;
         const Scenario *sc = pick_scenario( sv, i);
         u64 sd = run_seed( base, prop, i);
         Result r = run_one( *sc, sd, NULL, false);
         a.runs++;
         a.per_scen[sc->name]++;
         a.sim_us += r.sim_us;
         a.steps += r.steps;
         a.switches += r.switches;
         a.nontrivial += r.nontrivial;
         if( r.nontrivial) a.hashes.insert( r.hash);
         a.scheds.insert( r.sched);
         a.fss.insert( r.fs_hash);
         for( auto &c : r.counters) a.counters[c.first] += c.second;
         if( a.samples.size( ) < 2 && r.nontrivial && !r.sample.empty( ))
            a.samples.push_back( strf( "seed %llu run %llu scenario %s: ", (unsigned long long)base, (unsigned long long)i, sc->name) + r.sample);
         if( (mix64( i) & 15) == 0 || !r.cls.empty( ))
            {                           /* determinism:  same seed twice,  and tape replay */
            Result r2 = run_one( *sc, sd, NULL, false);
            Result r3 = run_one( *sc, sd, &r.tapes, false);
            a.det_checked++;
            if( r2.hash != r.hash || r3.hash != r.hash || r2.cls != r.cls || r3.cls != r.cls)
               {
               a.det_bad++;
               fprintf( stderr, "NONDETERMINISM run %llu scenario %s: %016llx %016llx %016llx\n", (unsigned long long)i, sc->name,
                        (unsigned long long)r.hash, (unsigned long long)r2.hash, (unsigned long long)r3.hash);
               }
            }
         if( !r.cls.empty( ))
            {
            a.viol.push_back( std::make_pair( i, r.cls + "\t" + r.msg));
            if( a.viol.size( ) >= 8) break;
            }
         }
      FILE *o = fopen( fn.c_str( ), "w");
      if( !o) _exit( 3);
      fprintf( o, "agg %llu %llu %llu %llu %llu %llu %llu\n", (unsigned long long)a.runs, (unsigned long long)a.nontrivial,
           (unsigned long long)a.sim_us, (unsigned long long)a.steps, (unsigned long long)a.switches,
           (unsigned long long)a.det_checked, (unsigned long long)a.det_bad);
      for( auto &c : a.counters) fprintf( o, "c %s %llu\n", c.first.c_str( ), (unsigned long long)c.second);
      for( auto &c : a.per_scen) fprintf( o, "p %s %llu\n", c.first.c_str( ), (unsigned long long)c.second);
      for( u64 h : a.hashes) fprintf( o, "h %llx\n", (unsigned long long)h);
      for( u64 h : a.scheds) fprintf( o, "s %llx\n", (unsigned long long)h);
      for( u64 h : a.fss) fprintf( o, "f %llx\n", (unsigned long long)h);
      for( auto &s : a.samples) { std::string x = s; for( auto &c : x) if( c == '\n') c = '|'; fprintf( o, "x %s\n", x.c_str( )); }
      for( auto &v : a.viol) { std::string x = v.second; for( auto &c : x) if( c == '\n') c = '|'; fprintf( o, "v %llu %s\n", (unsigned long long)v.first, x.c_str( )); }
      fprintf( o, "done\n");
      fclose( o);
      _exit( 0);
      }
   bool worker_bad = false;
   for( pid_t p : kids)
      {
      int st;
      if( waitpid( p, &st, 0) < 0 || !WIFEXITED( st) || WEXITSTATUS( st))
         { worker_bad = true; fprintf( stderr, "worker ended abnormally (status %x)\n", st); }
      }
   Agg a;
   for( auto &fn : files)
      {
      FILE *f = fopen( fn.c_str( ), "r");
      if( !f) { worker_bad = true; continue; }
      char *line = NULL;
      size_t lc = 0;
      bool done = false;
      while( getline( &line, &lc, f) > 0)
         {
         size_t l = strlen( line);
         while( l && line[l - 1] == '\n') line[--l] = 0;
         unsigned long long x[7];
         char nm[200];
         if( sscanf( line, "agg %llu %llu %llu %llu %llu %llu %llu", x, x + 1, x + 2, x + 3, x + 4, x + 5, x + 6) == 7)
            { a.runs += x[0]; a.nontrivial += x[1]; a.sim_us += x[2]; a.steps += x[3]; a.switches += x[4]; a.det_checked += x[5]; a.det_bad += x[6]; }
         else if( sscanf( line, "c %199s %llu", nm, x) == 2) a.counters[nm] += x[0];
         else if( sscanf( line, "p %199s %llu", nm, x) == 2) a.per_scen[nm] += x[0];
         else if( sscanf( line, "h %llx", x) == 1) a.hashes.insert( x[0]);
         else if( sscanf( line, "s %llx", x) == 1) a.scheds.insert( x[0]);
         else if( sscanf( line, "f %llx", x) == 1) a.fss.insert( x[0]);
         else if( line[0] == 'x') a.samples.push_back( line + 2);
         else if( sscanf( line, "v %llu", x) == 1)
            {
            const char *q = strchr( line + 2, ' ');
            a.viol.push_back( std::make_pair( (u64)x[0], std::string( q ? q + 1 : "")));
            }
         else if( !strcmp( line, "done")) done = true;
         }
      free( line);
      fclose( f);
      unlink( fn.c_str( ));
      if( !done) worker_bad = true;
      }
   double t_search = wall( ) - t0;
   std::sort( a.viol.begin( ), a.viol.end( ));
   int rc = 0;
   std::string replay_path;
   std::vector<std::string> known_hit;
   if( worker_bad || a.det_bad) rc = 3;
   for( auto &v : a.viol)
      {
      std::string cls = v.second.substr( 0, v.second.find( '\t'));
      bool is_known = std::find( known.begin( ), known.end( ), cls) != known.end( );
      if( is_known)
         {
         if( std::find( known_hit.begin( ), known_hit.end( ), cls) == known_hit.end( )) known_hit.push_back( cls);
         }
      }
   std::string vcls, vmsg;
   /* Report the first violation whose replay file reproduces it exactly in fresh processes.  (Code under test which reads
   memory it never set can behave differently each time;  such runs are passed over if there is a better one.) */
   int tried = 0, found = 0;
   for( int pass = 0; pass < 2 && !found; pass++)
      for( auto &v : a.viol)
         {
         u64 idx = v.first;
         std::string cls = v.second.substr( 0, v.second.find( '\t'));
         if( std::find( known.begin( ), known.end( ), cls) != known.end( )) continue;
         if( ++tried > 12) break;
         vcls = cls;
         vmsg = v.second.substr( v.second.find( '\t') + 1);
         replay_path = strf( "%s/%s-seed%llu-run%llu.replay", outdir.c_str( ), prop.c_str( ), (unsigned long long)base, (unsigned long long)idx);
         fprintf( stderr, "run %llu: %s: %s\nminimising...\n", (unsigned long long)idx, vcls.c_str( ), vmsg.c_str( ));
         int st = 0;
         for( int mini = (pass ? 0 : 1); mini >= 0; mini--)      /* if minimising fails,  the run as it was */
            {
            fflush( stderr);
            pid_t pid = fork( );
            if( !pid)
               {
               const Scenario *sc = pick_scenario( sv, idx);
               u64 sd = run_seed( base, prop, idx);
               Result r = run_one( *sc, sd, NULL, false);
               Tapes m = r.tapes;
               if( mini)
                  {
                  min_runs = maxmin;
                  min_deadline = wall( ) + min_cap / (tried > 1 ? 3 : 1);
                  m = minimise( *sc, sd, r.tapes, r.cls);
                  }
               Result rm = run_one( *sc, sd, &m, true);
               if( rm.cls != r.cls) { m = r.tapes; rm = run_one( *sc, sd, &m, true); }
               write_replay( replay_path, prop, sc->name, sd, rm, m, r.tapes);
               _exit( rm.cls == r.cls && !r.cls.empty( ) ? 0 : 3);
               }
            waitpid( pid, &st, 0);
            if( WIFEXITED( st) && !WEXITSTATUS( st)) break;
            }
         if( !WIFEXITED( st) || WEXITSTATUS( st)) { fprintf( stderr, "minimiser failed\n"); continue; }
         bool good = true;
         for( int k = 0; k < 2 && good; k++)        /* gate:  fresh process must reproduce */
            {
            pid_t pid = fork( );
            if( !pid)
               {
               if( !freopen( "/dev/null", "w", stdout)) _exit( 3);
               execl( "/proc/self/exe", "simhost", "--so-dir", so_dir.c_str( ), "--replay", replay_path.c_str( ), (char *)NULL);
               _exit( 3);
               }
            waitpid( pid, &st, 0);
            int e = WIFEXITED( st) ? WEXITSTATUS( st) : -1;
            if( e != 1 && !(pass && e == 4))
               { fprintf( stderr, "replay did not reproduce (status %x)\n", st); good = false; }
            }
         if( good) { found = 1; break; }
         }
   if( found) rc = 1;
   else if( tried) rc = 3;
   if( !stats_file.empty( ))
      {
      FILE *o = fopen( stats_file.c_str( ), "w");
      if( !o) { perror( stats_file.c_str( )); return 3; }
      fprintf( o, "{\"property\":\"%s\",\"seed\":%llu,\"runs\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%zu,"
         "\"distinct_schedules\":%zu,\"distinct_final_fs\":%zu,\"sim_seconds\":%.6f,\"steps\":%llu,\"switches\":%llu,\"determinism_checked\":%llu,"
         "\"determinism_bad\":%llu,\"search_wall_s\":%.3f,\"total_wall_s\":%.3f,\"runs_per_hour\":%.0f,",
         prop.c_str( ), (unsigned long long)base, (unsigned long long)a.runs, (unsigned long long)a.nontrivial, a.hashes.size( ),
         a.scheds.size( ), a.fss.size( ), a.sim_us / 1e6, (unsigned long long)a.steps, (unsigned long long)a.switches,
         (unsigned long long)a.det_checked, (unsigned long long)a.det_bad, t_search, wall( ) - t0, a.runs / (t_search + 1e-9) * 3600.);
      fprintf( o, "\"counters\":{");
      bool c1 = true;
      for( auto &c : a.counters) { fprintf( o, "%s\"%s\":%llu", c1 ? "" : ",", jesc( c.first).c_str( ), (unsigned long long)c.second); c1 = false; }
      fprintf( o, "},\"per_scenario\":{");
      c1 = true;
      for( auto &c : a.per_scen) { fprintf( o, "%s\"%s\":%llu", c1 ? "" : ",", jesc( c.first).c_str( ), (unsigned long long)c.second); c1 = false; }
      fprintf( o, "},\"samples\":[");
      c1 = true;
      for( size_t i = 0; i < a.samples.size( ) && i < 6; i++) { fprintf( o, "%s\"%s\"", c1 ? "" : ",", jesc( a.samples[i].substr( 0, 1500)).c_str( )); c1 = false; }
      fprintf( o, "],\"violations\":[");
      c1 = true;
      for( auto &v : a.viol) { fprintf( o, "%s\"run %llu: %s\"", c1 ? "" : ",", (unsigned long long)v.first, jesc( v.second.substr( 0, 600)).c_str( )); c1 = false; }
      fprintf( o, "],\"known_hit\":[");
      c1 = true;
      for( auto &v : known_hit) { fprintf( o, "%s\"%s\"", c1 ? "" : ",", jesc( v).c_str( )); c1 = false; }
      fprintf( o, "],\"replay\":\"%s\",\"violation_class\":\"%s\",\"violation_message\":\"%s\",\"rc\":%d}\n", jesc( replay_path).c_str( ), jesc( vcls).c_str( ), jesc( vmsg.substr( 0, 800)).c_str( ), rc);
      fclose( o);
      }
   if( rc == 1)
      printf( "VIOLATION property=%s replay=%s\n%s: %s\n", prop.c_str( ), replay_path.c_str( ), vcls.c_str( ), vmsg.c_str( ));
   return rc;
}
