/* astcheck:  several instances sharing one directory of YYYYMMDD.chk files */
#include "util.h"
#include <math.h>
#include <array>

namespace {
const char *HDR =
       "Name        |Tp      .       |Te      |q          |"
       "i  .      |Om .      |om .      |e         |"
       "rms |n_o  |Tfirst  |Tlast   |Perts  |H .  |G . ^\n";

struct Obj { char name[16]; int tp_y, tp_m, tp_d; double tp_f, q, i, Om, om, e, H, G = .15; };

Obj rnd_obj( Tape &w, int k)
{
   Obj o;
   snprintf( o.name, sizeof( o.name), "%7d", 1000 + k);
   o.tp_y = 2018 + (int)w.choose( 8);
   o.tp_m = 1 + (int)w.choose( 12);
   o.tp_d = 1 + (int)w.choose( 28);
   o.tp_f = w.choose( 10000) / 10000.;
   o.e = .02 + w.choose( 300) / 1000.;
   o.q = (1.3 + w.choose( 2000) / 1000.);
   o.i = w.choose( 25000) / 1000.;
   o.Om = w.choose( 360000) / 1000.;
   o.om = w.choose( 360000) / 1000.;
   o.H = 10. + w.choose( 80) / 10.;
   return o;
}
std::string sof_line( const Obj &o)
{
   char b[400];
   int n = snprintf( b, sizeof( b), "%-12s %04d%02d%02d%8.7f %s %11.8f %10.6f %10.6f %10.6f %10.8f %s %s %s %s %s %5.2f %5.2f",
      o.name, o.tp_y, o.tp_m, o.tp_d, o.tp_f, "20230225", o.q, o.i, o.Om, o.om, o.e,
      "0.50", "  100", "20010101", "20230101", "M-v 3Eh", o.H, o.G);
      /* '%8.7f' prints a leading "0":  drop it so the column is YYYYMMDD.ddddddd */
   std::string s( b, n);
   size_t p = s.find( "0.", 13 + 8);
   if( p == 21) s.erase( p, 1);
   size_t want = strlen( HDR);
   s.resize( want - 1, ' ');
   return s + "\n";
}
struct World {
   std::vector<Obj> cat;
   struct Ob { std::string text; std::string file; };
   std::vector<Ob> obs;
   std::vector<std::vector<std::string>> cmds;     /* candidate command lines */
   std::string dir;                                /* where data files live */
   std::vector<std::string> opts;
};
std::string catalogue( const World &wd)
{
   std::string s = HDR;
   for( auto &o : wd.cat) s += sof_line( o);
   return s;
}
const char *OBSCODES =
   "<pre>\nCode  Long.   cos      sin    Name\n"
   "248   0.000000.000000 0.000000Hipparcos\n"
   "500   0.000000.000000 0.000000Geocentric\n"
   "568 204.528000.941705+0.337234Maunakea\n"
   "703 249.267360.845315+0.533213Catalina Sky Survey\n"
   "I13  16.391900.652200+0.755600Alter Satzberg\n"
   "J11 139.256100.812200+0.581600Shinshiro\n"
   "I11 289.263450.866020-0.499760Gemini South\n</pre>\n";

std::string obs_line( const char *desig, int y, int m, double day, double ra_deg, double dec_deg, const char *stn)
{
   char b[200];
   ra_deg = fmod( ra_deg + 720., 360.);
   double h = ra_deg / 15.;
   int hh = (int)h, mm = (int)( (h - hh) * 60.);
   double ss = ((h - hh) * 60. - mm) * 60.;
   if( ss > 59.99) ss = 59.99;
   double ad = fabs( dec_deg);
   int dd = (int)ad, dm = (int)( (ad - dd) * 60.);
   double ds = ((ad - dd) * 60. - dm) * 60.;
   if( ds > 59.9) ds = 59.9;
   int n = snprintf( b, sizeof( b), "     %-7.7s  C%04d %02d %08.5f %02d %02d %05.2f %c%02d %02d %04.1f                      %s",
         desig, y, m, day, hh, mm, ss, dec_deg < 0. ? '-' : '+', dd, dm, ds, stn);
   std::string s( b, n);
   if( s.size( ) != 80)
      {
      std::string stnc = s.substr( s.size( ) - 3);
      s.resize( s.size( ) - 3);
      s.resize( 77, ' ');
      s += stnc;
      }
   return s + "\n";
}

/* 'related':  each file's date is an easily confused relative of the first one */
World make_world( Sim &sim, int min_ast, int max_ast, bool related = false)
{
   World wd;
   Tape &w = sim.w;
   int n = min_ast + (int)w.choose( max_ast - min_ast + 1);
   for( int i = 0; i < n; i++)
      wd.cat.push_back( rnd_obj( w, i));
   wd.dir = w.chance( 1, 4) ? "/data" : "/work";
   int n_obs = (related ? 2 : 1) + (int)w.choose( 3);
   int year = 2023;
   int day0 = 1 + (int)w.choose( 25), mon = 1 + (int)w.choose( 12);
   const char *stns[3] = { "500", "568", "703" };
   for( int k = 0; k < n_obs; k++)
      {
      World::Ob ob;
      ob.file = strf( "obs%d.txt", k);
      if( related && k)
         {
         int y1 = year, m1 = mon, d1 = day0;
         switch( w.choose( 9))
            {
            case 0: break;
            case 1: year = y1 + 1; break;
            case 2: year = y1 - 1; break;
            case 3: mon = (m1 + 9) % 12 + 1; break;           /* +10 months */
            case 4: day0 = (d1 + 9) % 25 + 1; break;
            case 5: mon = (d1 - 1) % 12 + 1; day0 = m1; break;
            case 6: mon = 1; day0 = 11; break;
            case 7: mon = 11; day0 = 1; break;
            case 8: mon = m1 % 12 + 1; break;
            }
         if( w.chance( 1, 3))
            { mon = pick( w, { 1, 11, 2, 12, 10 }); day0 = (int)pick( w, { 1, 11, 2, 12, 21, 22, 10, 20 }); }
         }
      int n_des = 1 + (int)w.choose( 3);
      for( int d = 0; d < n_des; d++)
         {
         double day = day0 + (int)w.choose( 2) + w.choose( 10000) / 10000.;
         double ra = w.choose( 3600) / 10.;
         double dec = 23.4 * sin( ra * M_PI / 180.) + (double)w.choose( 100) / 10. - 5.;
         const char *stn = stns[w.choose( 3)];
         std::string des = strf( "K23A%02d%c", d, 'A' + k);
         ob.text += obs_line( des.c_str( ), year, mon, day, ra, dec, stn);
         if( w.chance( 2, 3))
            ob.text += obs_line( des.c_str( ), year, mon, day + .04, ra + .01, dec + .005, stn);
         }
      wd.obs.push_back( ob);
      }
   wd.opts = { "-r144000", "-z100000", "-m40", "-M1000" };
   if( w.chance( 3, 4)) wd.opts.push_back( "-h");
   if( wd.dir != "/work") wd.opts.push_back( "-p" + wd.dir);
   for( auto &o : wd.obs)
      {
      std::vector<std::string> c = { "astcheck", o.file };
      c.insert( c.end( ), wd.opts.begin( ), wd.opts.end( ));
      wd.cmds.push_back( c);
      }
   for( u32 n_list = w.chance( 2, 5) ? 1 + w.choose( 2) : 0; n_list; n_list--)
      {
      double ra = w.choose( 360), dec = 23.4 * sin( ra * M_PI / 180.);
      std::vector<std::string> c = { "astcheck", "-c", strf( "2023-%02d-%02d.25", mon, day0), strf( "%.1f", ra), strf( "%.2f", dec), "568" };
      c.insert( c.end( ), wd.opts.begin( ), wd.opts.end( ));
      wd.cmds.push_back( c);
      }
   return wd;
}
void install( Sim &s, const World &wd)
{
   s.fs.put( wd.dir + "/mpcorb.sof", catalogue( wd));
   s.fs.put( wd.dir + "/ObsCodes.html", OBSCODES);
   for( auto &o : wd.obs)
      s.fs.put( "/work/" + o.file, o.text);
}
std::string strip( const std::string &out)
{
   std::string r;
   for( auto &l : split_lines( out))
      if( l.compare( 0, 9, "Run time:"))
         r += l + "\n";
   return r;
}
std::string reference( const World &wd, const std::vector<std::string> &cmd, bool *ok)
{
   RefWorld ref;
   install( ref.sim, wd);
   Module *m = get_module( "astcheck", 63);
   m->restore( );
   Proc *p = ref.sim.spawn( "ref", m, program( m, cmd));
   ref.sim.run( );
   *ok = p->clean( );
   std::string o = strip( p->out);
   if( !*ok) o = p->describe( ) + "\n" + o + p->err;
   return o;
}
struct Refs {
   std::map<std::string, std::pair<bool, std::string>> m;
   const std::pair<bool, std::string> &get( const World &wd, const std::vector<std::string> &cmd)
   {
      std::string k;
      for( auto &c : cmd) k += c + "\x01";
      auto it = m.find( k);
      if( it == m.end( ))
         {
         bool ok;
         std::string o = reference( wd, cmd, &ok);
         it = m.insert( std::make_pair( k, std::make_pair( ok, o))).first;
         }
      return it->second;
   }
};
void knobs( Sim &sim)
{
   sim.stdio_buf = pick( sim.w, { 4096, 1024, 256, 128, 64 });
   sim.write_chunk = pick( sim.w, { 1u << 30, 64, 16 });
   sim.switch_den = 100;
   sim.switch_num = pick( sim.w, { 2, 10, 30, 60, 100 });
}
Proc *launch( Sim &sim, const World &wd, int k, const std::vector<std::string> &cmd)
{
   (void)wd;
   Module *m = get_module( "astcheck", k);
   m->restore( );
   return sim.spawn( strf( "astcheck#%d", k), m, program( m, cmd));
}
std::string cmdline( const std::vector<std::string> &c)
{
   std::string r;
   for( auto &x : c) r += (r.empty( ) ? "" : " ") + x;
   return r;
}
void note_fixed( Sim &sim, const World &wd)
{
   sim.sample += strf( "%d objects, dir %s, stdio buffer %u, switch %u%%", (int)wd.cat.size( ), wd.dir.c_str( ), sim.stdio_buf, sim.switch_num);
}
/* Optional leftover state:  a stale .chk (older catalogue) or foreign debris */
void leftovers( Sim &sim, const World &wd)
{
   if( sim.w.chance( 1, 4))
      {
      World old = wd;
      for( auto &o : old.cat) o.om = fmod( o.om + 77., 360.);
      RefWorld ref;
      install( ref.sim, old);
      Module *m = get_module( "astcheck", 63);
      m->restore( );
      ref.sim.spawn( "older", m, program( m, wd.cmds[0]));
      ref.sim.run( );
      for( auto &f : ref.sim.fs.files)
         if( f.first.size( ) > 4 && f.first.substr( f.first.size( ) - 4) == ".chk")
            sim.fs.put( f.first, f.second->data);
      sim.count( "probe.stale_cache_present");
      sim.sample += ", stale caches from an older catalogue";
      }
}
}  // namespace

/* P01:  parallel instances,  no faults,  all interleavings */
static void parallel( Sim &sim, int lo, int hi)
{
   World wd = make_world( sim, lo, hi);
   Refs refs;
   knobs( sim);
   install( sim, wd);
   leftovers( sim, wd);
   g_sim = &sim;
   int rounds = 1 + (int)sim.w.choose( 2), slot = 0;
   note_fixed( sim, wd);
   for( int r = 0; r < rounds; r++)
      {
      int n = 2 + (int)sim.w.choose( 4);
      std::vector<std::pair<Proc *, std::vector<std::string>>> ps;
      for( int k = 0; k < n; k++)
         {
         auto &c = wd.cmds[sim.w.choose( (u32)wd.cmds.size( ))];
         Proc *p = launch( sim, wd, slot++, c);
         ps.push_back( std::make_pair( p, c));
         if( sim.w.chance( 1, 3))
            { p->state = P_NEW; p->start_us = sim.now_us; }
         sim.sample += "; " + cmdline( c);
         }
      u64 t0 = sim.now_us;
      sim.run( );
      for( auto &x : ps)
         {
         auto &ref = refs.get( wd, x.second);
         g_sim = &sim;
         if( !ref.first)
            sim.violate( "reference-run-failed", "a lone astcheck run on a clean directory failed: " + ref.second.substr( 0, 300));
         else if( !x.first->clean( ))
            sim.violate( "instance-failed", x.first->describe( ) + " although nothing was wrong: " + x.first->out.substr( 0, 200) + x.first->err.substr( 0, 200));
         else if( strip( x.first->out) != ref.second)
            sim.violate( "wrong-matches", x.first->name + " printed something else than a lone run: " + first_diff( strip( x.first->out), ref.second));
         if( x.first->mem_error)
            sim.violate( "memory", x.first->mem_note);
         }
      if( sim.step_limit_hit) sim.violate( "no-progress", "instances still running after the step limit");
      if( sim.now_us - t0 > 200ULL * 1000000ULL)
         sim.violate( "no-progress", "instances took more than 200 simulated seconds");
      if( slot + 6 > 60) break;
      }
   u64 nsleep = sim.counters["op.sleep"];
   if( nsleep) sim.count( "probe.instance_waited", nsleep);
}
SCENARIO( P01, parallel_small, 3) { parallel( sim, 1, 12); }
SCENARIO( P01, parallel_larger, 1) { parallel( sim, 20, 120); }

/* P02 / P03:  faults during a first phase,  then recovery */
static void set_faults( Sim &sim, bool kills)
{
   Tape &w = sim.w;
   FaultCfg &f = sim.fault;
   u32 k = pick( w, { 1, 3, 10 });
   f.read_eio = on_off( w, 1, 3, 4000 * k);
   f.read_short = on_off( w, 1, 3, 100000);
   f.write_fail = on_off( w, 1, 3, 10000 * k);
   f.write_short = on_off( w, 1, 3, 200000);
   f.open_fail = on_off( w, 1, 4, 5000 * k);
   f.close_fail = on_off( w, 1, 4, 30000 * k);
   f.rename_fail = on_off( w, 1, 4, 50000 * k);
   f.unlink_fail = on_off( w, 1, 6, 50000 * k);
   f.alloc_fail = on_off( w, 1, 4, 5000 * k);
   if( kills)
      {
      f.kill = on_off( w, 3, 4, 4000 * k);
      f.kill_budget = 1 + (int)w.choose( 4);
      }
   f.budget = 1 + (int)w.choose( 4);
   f.stdout_faults = w.chance( 1, 3);
   if( w.chance( 1, 3)) f.path_filter = w.chance( 1, 2) ? ".chk" : "mpcorb.sof";
   if( w.chance( 1, 5)) sim.fs.quota = (long)w.choose( 600);
   sim.sample += strf( "; fault rates/1e6: kill %u read_eio %u write_fail %u open %u close %u alloc %u quota %ld budget %d filter '%s'",
      f.kill, f.read_eio, f.write_fail, f.open_fail, f.close_fail, f.alloc_fail, sim.fs.quota, f.budget, f.path_filter.c_str( ));
}
static void faulted( Sim &sim, bool check_recovery, bool check_honest)
{
   World wd = make_world( sim, 1, 40);
   Refs refs;
   knobs( sim);
   install( sim, wd);
   leftovers( sim, wd);
   g_sim = &sim;
   note_fixed( sim, wd);
   set_faults( sim, check_recovery);
   int rounds = 1 + (int)sim.w.choose( 3), slot = 0;
   for( int r = 0; r < rounds; r++)
      {
      int n = 1 + (int)sim.w.choose( 3);
      std::vector<std::pair<Proc *, std::vector<std::string>>> ps;
      for( int k = 0; k < n; k++)
         {
         auto &c = wd.cmds[sim.w.choose( (u32)wd.cmds.size( ))];
         ps.push_back( std::make_pair( launch( sim, wd, slot++, c), c));
         sim.sample += "; " + cmdline( c);
         }
      sim.run( );
      for( auto &x : ps)
         {
         if( x.first->clean( ) && x.first->n_hard_faults) sim.count( "probe.clean_exit_despite_fault");
         if( !x.first->clean( )) sim.count( "probe.failed_exit");
         if( x.first->end == END_HANG || x.first->end == END_CUT)
            sim.violate( "no-progress", x.first->describe( ));
         if( check_honest && x.first->clean( ))
            {
            auto &ref = refs.get( wd, x.second);
            g_sim = &sim;
            std::string o = strip( x.first->out);
            bool announced = o.find( "ObsCodes.html not found") != std::string::npos
                          || o.find( "FAILED to find MPC code") != std::string::npos;
            if( ref.first && o != ref.second)
               {
               if( announced && x.first->n_hard_faults) sim.count( "probe.announced_degradation");
               else sim.violate( "silent-wrong-matches", x.first->name + " exited 0 with other matches: " + first_diff( o, ref.second)
                     + (x.first->fault_notes.empty( ) ? "" : " after " + x.first->fault_notes[0]));
               }
            }
         }
      }
   if( !check_recovery) return;
   /* the machine itself may go down:  a file whose contents were not forced to
      disk keeps its name but may lose its tail */
   if( sim.w.chance( 1, 3))
      {
      for( auto &x : sim.fs.files)
         if( x.first.find( ".chk") != std::string::npos && sim.w.chance( 2, 3))
            {
            size_t n = x.second->data.size( ), cut = pick( sim.w, { 0, 16, 3, 1, 2});
            if( sim.w.chance( 1, 3)) cut = n ? n - 1 - sim.w.choose( (u32)std::min( n, (size_t)8)) : 0;
            else if( cut > 16 || sim.w.chance( 1, 2)) cut = sim.w.choose( (u32)n + 1);
            if( cut > n) cut = n;
            InodeP np( new Inode( *x.second));
            np->data.resize( cut);
            x.second = np;
            sim.count( "fault.power_loss_truncation");
            sim.ev( "power loss: %s cut to %d bytes", x.first.c_str( ), (int)cut);
            }
      sim.sample += "; power loss";
      }
   /* faults stop */
   sim.faults_on = false;
   sim.fs.quota = -1;
   sim.fs.disk_full = false;
   int n = 1 + (int)sim.w.choose( 2);
   u64 t0 = sim.now_us;
   std::vector<std::pair<Proc *, std::vector<std::string>>> ps;
   for( int k = 0; k < n; k++)
      {
      auto &c = wd.cmds[sim.w.choose( (u32)wd.cmds.size( ))];
      ps.push_back( std::make_pair( launch( sim, wd, slot++, c), c));
      sim.sample += "; recovery: " + cmdline( c);
      }
   sim.run( );
   for( auto &x : ps)
      {
      auto &ref = refs.get( wd, x.second);
      g_sim = &sim;
      if( !ref.first)
         sim.violate( "reference-run-failed", ref.second.substr( 0, 300));
      else if( !x.first->clean( ))
         sim.violate( "not-recovered", "after faults stopped " + x.first->describe( ) + ": " + x.first->out.substr( 0, 200) + x.first->err.substr( 0, 200));
      else if( strip( x.first->out) != ref.second)
         sim.violate( "poisoned-cache", "after faults stopped " + x.first->name + ": " + first_diff( strip( x.first->out), ref.second));
      }
   if( sim.step_limit_hit || sim.now_us - t0 > 300ULL * 1000000ULL)
      sim.violate( "no-progress", "recovery took more than 300 simulated seconds");
}
SCENARIO( P02, crash_recovery, 1) { faulted( sim, true, false); }
SCENARIO( P03, honest, 1) { faulted( sim, false, true); }

/* P04:  catalogue replacements between runs.  The property is about catalogues that differ in the
number of objects,  at their beginning or at their end;  so if two in one history differ only elsewhere,
the last orbit is changed,  too */
static void told_apart( World &wd, const std::vector<std::vector<Obj>> &older)
{
   for( bool again = true; again; )
      {
      again = false;
      World w0 = wd;
      const std::string now = catalogue( wd);
      for( auto &c : older)
         {
         w0.cat = c;
         const std::string then = catalogue( w0);
         size_t len = now.find( '\n') + 1;
         if( then.size( ) == now.size( ) && then != now && !then.compare( 0, 2 * len, now, 0, 2 * len)
                  && !then.compare( then.size( ) - len, len, now, now.size( ) - len, len))
            {
            wd.cat.back( ).Om = fmod( wd.cat.back( ).Om + 61., 360.);
            again = true;
            break;
            }
         }
      }
}
SCENARIO( P04, catalogue_history, 1)
{
   World wd = make_world( sim, 8, 60, sim.w.chance( 1, 2));
   knobs( sim);
   install( sim, wd);
   note_fixed( sim, wd);
   int n_ops = 2 + (int)sim.w.choose( 5), slot = 0;
   std::vector<std::vector<Obj>> older;
   for( int op = 0; op < n_ops; op++)
      {
      u32 kind = op ? sim.w.choose( 8) : 0;
      if( kind)
         {
         World before = wd;
         older.push_back( wd.cat);
         const char *what = "";
         size_t n = wd.cat.size( );
         switch( kind)
            {
            case 1: what = "regenerated at a new epoch";
               for( auto &o : wd.cat) { o.om = fmod( o.om + 11. + sim.w.choose( 300), 360.); o.tp_f = fmod( o.tp_f + .37, 1.); }
               break;
            case 2: what = "one object appended"; wd.cat.push_back( rnd_obj( sim.w, 500 + op)); break;
            case 3: what = "last object dropped"; if( n > 3) wd.cat.pop_back( ); break;
            case 4: what = "last object's orbit changed"; wd.cat[n - 1].Om = fmod( wd.cat[n - 1].Om + 60. + sim.w.choose( 240), 360.); break;
            case 5: what = "first object's orbit changed"; wd.cat[0].Om = fmod( wd.cat[0].Om + 60. + sim.w.choose( 240), 360.); break;
            case 6: what = "an older catalogue restored"; wd.cat = older[sim.w.choose( (u32)older.size( ))]; break;
            case 7: what = "a middle object inserted";
               wd.cat.insert( wd.cat.begin( ) + n / 2, rnd_obj( sim.w, 700 + op)); break;
            }
         told_apart( wd, older);
         sim.fs.put( wd.dir + "/mpcorb.sof", catalogue( wd));
         sim.ev( "catalogue: %s", what);
         sim.count( "op.catalogue_replaced");
         sim.sample += strf( "; catalogue: %s", what);
         }
      int n = 1 + (int)sim.w.choose( 2);
      std::vector<std::pair<Proc *, std::vector<std::string>>> ps;
      for( int k = 0; k < n; k++)
         {
         auto &c = wd.cmds[sim.w.choose( (u32)wd.cmds.size( ))];
         ps.push_back( std::make_pair( launch( sim, wd, slot++, c), c));
         sim.sample += "; " + cmdline( c);
         }
      /* the catalogue may also be replaced (by a rename,  as them_cat does) while runs are in progress */
      World wd2 = wd;
      bool during = sim.w.chance( 1, 4);
      if( during)
         {
         older.push_back( wd.cat);
         switch( sim.w.choose( 3))
            {
            case 0: for( auto &o : wd2.cat) o.om = fmod( o.om + 11. + sim.w.choose( 300), 360.); break;
            case 1: wd2.cat.insert( wd2.cat.begin( ) + sim.w.choose( 3), rnd_obj( sim.w, 900 + op)); break;
            case 2: wd2.cat.erase( wd2.cat.begin( )); break;
            }
         told_apart( wd2, older);
         std::string path = wd.dir + "/mpcorb.sof", text = catalogue( wd2);
         int wait = (int)pick( sim.w, { 0, 2000, 300, 10000, 50000 });
         Proc *rp = sim.spawn( "replacer", get_module( "astcheck", 62), [&sim, path, text, wait]( ) -> int {
            if( wait) sim.sleep_us( 1 + sim.s.choose( wait));
            sim.fs.put( path, text);
            sim.ev( "catalogue replaced");
            sim.count( "op.catalogue_replaced_during_runs");
            return 0;
         });
         rp->faultable = false;
         sim.sample += "; catalogue replaced meanwhile";
         }
      sim.run( );
      Refs refs, refs2;
      for( auto &x : ps)
         {
         auto &ref = refs.get( wd, x.second);
         auto *ref2 = during ? &refs2.get( wd2, x.second) : &ref;
         g_sim = &sim;
         if( !ref.first || !ref2->first)
            sim.violate( "reference-run-failed", ref.second.substr( 0, 300));
         else if( !x.first->clean( ))
            sim.violate( "instance-failed", x.first->describe( ) + ": " + x.first->out.substr( 0, 200));
         else if( strip( x.first->out) != ref.second && strip( x.first->out) != ref2->second)
            sim.violate( "stale-cache-used", x.first->name + ": " + first_diff( strip( x.first->out), ref.second));
         }
      if( during) wd = wd2;
      }
   sim.nontrivial = true;
}

/* P12:  the web version;  several requests served at once from one directory */
namespace {
struct Request { std::string body, what, obs; double radius = 2.; };
std::string page( const Proc *p)
{
   return strip( p->out);
}
Request request( Tape &w, const World &wd)
{
   Request r;
   const char *bnd = "------------------------d74496d66958873e";
   auto field = [&]( const char *name, const std::string &val, bool file) {
      r.body += std::string( "--") + bnd + "\r\nContent-Disposition: form-data; name=\"" + name + "\"";
      if( file) r.body += "; filename=\"obs.txt\"\r\nContent-Type: text/plain";
      r.body += "\r\n\r\n" + val + "\r\n";
      };
   u32 k = w.choose( 8);
   std::string a = wd.obs[w.choose( (u32)wd.obs.size( ))].text, b = wd.obs[w.choose( (u32)wd.obs.size( ))].text;
   if( w.chance( 1, 4)) field( "radius", "30", false);
   r.what = k == 0 ? "no observations" : k < 4 ? "text" : k < 7 ? "file" : "text and file";
   if( k && (k < 4 || k == 7)) r.obs += a;
   if( k >= 4) r.obs += b;
   field( "TextArea", k && (k < 4 || k == 7) ? a : "", false);
   field( "upfile", k >= 4 ? b : "", true);
   if( w.chance( 1, 3)) { u32 c = w.choose( 2); field( "catalog", c ? "1" : "0", false); r.what += c ? " MPCORB" : " ASTORB"; }
   if( w.chance( 1, 6)) { field( "uncertainties", "on", false); r.what += " uncertainties"; }
   for( u32 n = w.chance( 1, 6) ? (w.chance( 1, 4) ? 30 : 1) : 0; n; n--) field( "unn_only", "1", false);
   r.radius = w.chance( 1, 2) ? 40. : 15.;
   field( "radius", strf( "%.0f", r.radius), false);
   r.body += std::string( "--") + bnd + "--\r\n";
   r.what += strf( " #%llx", (unsigned long long)( hash_str( a) & 0xfff));
   return r;
}
/* what a page or a program's output says about the observations */
std::vector<std::string> matches_of( const std::string &text)
{
   std::vector<std::string> r;
   for( auto l : split_lines( text))
      {
      for( size_t a; (a = l.find( '<')) != std::string::npos && l.find( '>', a) != std::string::npos; )
         l.erase( a, l.find( '>', a) - a + 1);
      while( !l.empty( ) && (l.back( ) == ' ' || l.back( ) == '\r')) l.pop_back( );
      if( l.empty( ) || l.find( "unrecognized command-line option") != std::string::npos) continue;
      if( !l.compare( 0, 9, "Run time:") || !l.compare( 0, 9, "ASTCHECK ") || !l.compare( 0, 13, "Content-type:")) continue;
      r.push_back( l);
      }
   return r;
}
}
SCENARIO( P12, web_requests, 1)
{
   Tape &w = sim.w;
   World wd = make_world( sim, 1, 25);
   wd.dir = "/work";
   knobs( sim);
   auto setup = [&]( Sim &s) {
      s.fs.put( "/work/mpcorb.sof", catalogue( wd));
      s.fs.put( "/work/ObsCodes.html", OBSCODES);
      };
   setup( sim);
   note_fixed( sim, wd);
   bool faults = w.chance( 1, 2);
   if( faults)
      {
      sim.fault.kill = on_off( w, 1, 2, 8000);
      sim.fault.kill_budget = 2;
      sim.fault.read_short = on_off( w, 1, 3, 100000);
      sim.fault.write_short = on_off( w, 1, 3, 200000);
      sim.fault.path_filter = "";
      if( w.chance( 1, 3))             /* the observations may not get stored */
         {
         sim.fault.path_filter = "temp_obs";
         sim.fault.open_fail = on_off( w, 1, 2, 200000);
         sim.fault.write_fail = on_off( w, 1, 2, 300000);
         sim.fault.close_fail = on_off( w, 1, 3, 200000);
         sim.fault.read_eio = on_off( w, 1, 4, 200000);
         sim.fault.budget = 1 + (int)w.choose( 3);
         }
      }
   int rounds = 1 + (int)w.choose( 3), slot = 0;
   int pid0 = sim.next_pid;
   for( int r = 0; r < rounds; r++)
      {
      if( w.chance( 1, 3)) sim.next_pid = pid0;       /* process ids get reused */
      int n = 1 + (int)w.choose( 4);
      std::vector<std::pair<Proc *, Request>> ps;
      for( int k = 0; k < n; k++)
         {
         Request q = request( w, wd);
         Module *m = get_module( "cgicheck", slot);
         m->restore( );
         Proc *p = sim.spawn( strf( "request#%d", slot++), m, program( m, { "cgicheck"}));
         p->in = q.body;
         p->env["CONTENT_TYPE"] = "multipart/form-data; boundary=------------------------d74496d66958873e";
         p->env["REMOTE_ADDR"] = strf( "192.0.2.%d", k + 1);
         ps.push_back( std::make_pair( p, q));
         sim.sample += "; " + q.what;
         }
      sim.run( );
      for( auto &x : ps)
         {
         if( x.first->end == END_KILLED) { sim.count( "probe.request_killed"); continue; }
         std::string ref;
         {
         RefWorld rw;
         setup( rw.sim);
         Module *m = get_module( "cgicheck", 63);
         m->restore( );
         rw.sim.next_pid = x.first->pid;
         Proc *p = rw.sim.spawn( "ref", m, program( m, { "cgicheck"}));
         p->in = x.second.body;
         p->env = x.first->env;
         rw.sim.run( );
         ref = page( p);
         if( !p->clean( )) sim.violate( "reference-run-failed", p->describe( ));
         }
         std::vector<std::string> direct;
         if( !x.second.obs.empty( ))
            {                       /* the program itself,  given the same observations */
            RefWorld rw;
            setup( rw.sim);
            rw.sim.fs.put( "/work/obs.txt", x.second.obs);
            Module *m = get_module( "astcheck", 63);
            m->restore( );
            Proc *p = rw.sim.spawn( "direct", m, program( m, { "astcheck", "obs.txt", strf( "-r%.0f", x.second.radius * 3600.) }));
            rw.sim.run( );
            direct = matches_of( p->out);
            if( !p->clean( )) sim.violate( "reference-run-failed", p->describe( ));
            }
         g_sim = &sim;
         if( x.first->n_hard_faults && ( !x.first->clean( ) || page( x.first) != ref))
            {                 /* the answer may be an error message;  but not half of the matches,  or none */
            const std::string &o = x.first->out;
            bool told = o.find( "Couldn't store the observations") != std::string::npos || o.find( "The search failed") != std::string::npos || ( x.first->end == END_EXIT && x.first->code);
            if( !told) sim.violate( "storage-failure-not-told", x.first->name + " (" + x.second.what + "): " + x.first->describe( ) + " " + first_diff( page( x.first), ref));
            else if( o.find( "The apparent motion and arc") != std::string::npos) sim.violate( "matches-in-spite-of-failure", x.first->name);
            else sim.count( "probe.storage_failure_told");
            }
         else if( !x.first->clean( ))
            sim.violate( "request-failed", x.first->describe( ) + ": " + x.first->out.substr( 0, 200) + x.first->err.substr( 0, 200));
         else if( page( x.first) != ref)
            sim.violate( "wrong-page", x.first->name + " (" + x.second.what + "): " + first_diff( page( x.first), ref));
         else if( !direct.empty( ))
            {
            std::vector<std::string> got = matches_of( x.first->out);
            std::string a, b;
            for( auto &l : got) a += l + "\n";
            for( auto &l : direct) b += l + "\n";
            if( a != b)
               sim.violate( "not-what-astcheck-finds", x.first->name + " (" + x.second.what + "): the page against astcheck run on the same observations: " + first_diff( a, b));
            }
         else if( x.second.obs.empty( ) && x.first->out.find( "No observations were found") == std::string::npos)
            sim.violate( "not-told", x.first->name + ": a request without observations is not told so");
         }
      }
   if( sim.step_limit_hit) sim.violate( "no-progress", "requests still running after the step limit");
   sim.nontrivial = true;
}

/* P20:  several objects in one file;  each is matched as if it were alone */
namespace {
struct BObj { std::string id, text; std::vector<std::string> lines; bool known = true; };
/* output split at the object lines;  what is printed once per run is left out */
std::map<std::string, std::string> segments( const std::string &out, const std::vector<BObj> &objs, std::string *order, std::string *dup)
{
   std::map<std::string, std::string> r;
   std::string cur;
   for( auto &l : split_lines( strip( out)))
      {
      if( l.empty( ) || !l.compare( 0, 9, "ASTCHECK ") || l.find( "objects") != std::string::npos
               || l.find( "An explanation of") == 0 || l.find( "   d_ra ") != std::string::npos || l.find( "FAILED to find MPC code") == 0) continue;
      if( l.find( "The apparent motion and arc") == 0) break;
      for( auto &o : objs)
         if( l.compare( 0, 14, o.id + ": ") == 0)
            {
            cur = o.id;
            if( r.count( cur)) *dup = cur;
            *order += cur + "\n";
            r[cur];
            }
      r[cur] += l + "\n";
      }
   return r;
}
}
SCENARIO( P20, batch, 1)
{
   Tape &w = sim.w;
   World wd = make_world( sim, 2, 40);
   knobs( sim);
   install( sim, wd);
   sim.fs.put( wd.dir + "/rovers.txt", "# rovers\nR01  10.500000.750000+0.660000Rover one\nR02 250.000000.900000-0.434000Rover two\n");
   if( w.chance( 1, 3)) sim.fault.read_short = 100000;
   if( w.chance( 1, 3)) sim.fault.write_short = 200000;
   static const char *stns[] = { "500", "568", "703", "I11", "248", "R01", "R02", "ZZ9", "Q77" };
   int n = 2 + (int)w.choose( 6), year = 2023, mon = 1 + (int)w.choose( 12), day0 = 2 + (int)w.choose( 24);
   int s0 = (int)w.choose( 9);
   double ra0 = w.choose( 3600) / 10.;
   std::vector<BObj> objs;
   std::vector<std::string> all;
   for( int k = 0; k < n; k++)
      {
      BObj o;
      switch( w.choose( 4))
         {
         case 0: o.id = strf( "     K23A%02d%c", 10 + k / 3, 'A' + k % 3); break;
         case 1: o.id = strf( "%05d       ", 433 + k); break;
         case 2: o.id = strf( "%05dK23A10A", 433 + k); break;
         default: o.id = strf( "     K23A10%c", 'a' + k); break;
         }
      int m = w.chance( 1, 3) ? 1 : 2 + (int)w.choose( 3);
      double day = day0 + pick( w, { 1, 0, 2}) - 1 + (w.chance( 1, 3) ? .4985 + w.choose( 20) / 10000. : w.choose( 10000) / 10000.);
      int yr = year, mo = mon;
      if( w.chance( 1, 6)) { yr = 2021; mo = 1 + (int)w.choose( 12); }
      double ra = w.chance( 1, 2) ? ra0 : w.choose( 3600) / 10.;
      double dec = 23.4 * sin( ra * M_PI / 180.) + (double)w.choose( 100) / 10. - 5.;
      int stn = w.chance( 1, 2) ? s0 : (int)w.choose( 9);
      double dra = ((double)w.choose( 40) - 20.) / 1000., ddec = ((double)w.choose( 40) - 20.) / 1000.;
      for( int j = 0; j < m; j++)
         {
         if( j && w.chance( 1, 5)) stn = (int)w.choose( 9);
         std::string l = obs_line( "K23A10A", yr, mo, day + .021 * j, ra + dra * j, dec + ddec * j, stns[stn]);
         l.replace( 0, 12, o.id);
         o.lines.push_back( l);
         o.text += l;
         all.push_back( l);
         }
      for( auto &l : o.lines)
         if( l.substr( 77, 3) == "ZZ9" || l.substr( 77, 3) == "Q77") o.known = false;
      objs.push_back( o);
      sim.sample += strf( "%s%s (%d obs, %s, %d-%02d-%.4f)", k ? "; " : "", o.id.c_str( ), m, stns[stn], yr, mo, day);
      }
   u32 how = w.choose( 3);
   if( how)                              /* lines of the objects mixed up */
      for( size_t i = all.size( ) - 1; i; i--) std::swap( all[i], all[w.choose( (u32)i + 1)]);
   std::string text;
   for( auto &l : all)
      {
      if( w.chance( 1, 20)) text += pick( w, { 0, 1}) ? "COM some remark\n" : "\n";
      text += l;
      }
   sim.fs.put( "/work/batch.txt", text);
   std::vector<std::string> opts = { strf( "-r%d", (int)pick( w, { 144000, 18000, 60000 })), strf( "-z%d", (int)pick( w, { 100000, 60, 200 })), strf( "-m%d", (int)pick( w, { 40, 18, 16 })) };
   if( w.chance( 1, 2)) opts.push_back( strf( "-M%d", (int)pick( w, { 1000, 3, 1 })));
   if( w.chance( 1, 4)) opts.push_back( "-l");
   if( w.chance( 1, 2)) opts.push_back( "-h");
   if( wd.dir != "/work") opts.push_back( "-p" + wd.dir);
   auto cmd = [&]( const char *f) { std::vector<std::string> c = { "astcheck", f }; c.insert( c.end( ), opts.begin( ), opts.end( )); return c; };
   for( auto &o : opts) sim.sample += " " + o;
   g_sim = &sim;
   std::vector<Proc *> ps;
   int n_inst = 1 + (int)w.choose( 2);
   for( int k = 0; k < n_inst; k++) ps.push_back( launch( sim, wd, k, cmd( "batch.txt")));
   if( w.chance( 1, 3)) launch( sim, wd, 3, wd.cmds[w.choose( (u32)wd.cmds.size( ))]);
   sim.run( );
   std::map<std::string, std::string> want;
   std::vector<std::string> ids;
   for( auto &o : objs)
      {
      RefWorld ref;
      install( ref.sim, wd);
      ref.sim.fs.put( wd.dir + "/rovers.txt", sim.fs.get( wd.dir + "/rovers.txt"));
      ref.sim.fs.put( "/work/one.txt", o.text);
      Module *m = get_module( "astcheck", 63);
      m->restore( );
      Proc *p = ref.sim.spawn( "alone", m, program( m, cmd( "one.txt")));
      ref.sim.run( );
      std::string ord, dup;
      auto s = segments( p->out, objs, &ord, &dup);
      bool ok = p->clean( );
      std::string d = p->describe( );
      want[o.id] = s[o.id];
      ids.push_back( o.id);
      ref.leave( );
      g_sim = &sim;
      if( !ok) sim.violate( "reference-run-failed", d);
      else if( s[o.id].empty( )) sim.violate( "object-missing", "a file with only " + o.id + " gives no result for it");
      }
   std::sort( ids.begin( ), ids.end( ));
   std::string want_order;
   for( auto &i : ids) want_order += i + "\n";
   for( Proc *p : ps)
      {
      if( !p->clean( ))
         { sim.violate( "instance-failed", p->describe( ) + ": " + p->out.substr( 0, 200) + p->err.substr( 0, 200)); continue; }
      std::string order, dup;
      auto s = segments( p->out, objs, &order, &dup);
      if( !dup.empty( )) sim.violate( "object-twice", "object " + dup + " is reported twice");
      for( auto &o : objs)
         {
         if( !s.count( o.id)) sim.violate( "object-missing", "no result for " + o.id);
         else if( s[o.id] != want[o.id])
            sim.violate( "depends-on-batch", o.id + " in a batch against alone: " + first_diff( s[o.id], want[o.id]));
         if( !o.known && p->out.find( "FAILED to find MPC code") == std::string::npos && o.lines.size( ) == 1)
            sim.violate( "unknown-station-not-told", o.id);
         }
      if( s.count( "") && !s[""].empty( )) sim.violate( "stray-output", s[""].substr( 0, 200));
      if( order != want_order && order.size( ) == want_order.size( )) sim.count( "probe.other_order");
      if( p->mem_error) sim.violate( "memory", p->mem_note);
      }
   if( sim.step_limit_hit) sim.violate( "no-progress", "still running after the step limit");
   sim.nontrivial = true;
}

/* P23:  what a search shows against positions computed one by one for the same instants (list mode,  alone,  no limits) */
namespace {
struct Place { double ra, dec, mag; };
struct Seen { double jd, ra, dec; std::string stn; };
struct Target { std::string id; std::vector<Seen> obs; };

int32_t jdn( int y, int m, int d) { int a = (14 - m) / 12, yy = y + 4800 - a, mm = m + 12 * a - 3; return d + (153 * mm + 2) / 5 + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045; }

std::map<std::string, Place> places( const World &wd, double jd, const std::string &stn, bool *ok, int centre, bool both = false)
{
   RefWorld ref;
   install( ref.sim, wd);
   Module *m = get_module( "astcheck", 63);
   m->restore( );
   std::vector<std::string> c = { "astcheck", "-c", strf( "%.8f", jd), strf( "%d", centre), "0", stn, "-r640000", "-m99", "-h" };
   if( wd.dir != "/work") c.push_back( "-p" + wd.dir);
   Proc *p = ref.sim.spawn( "list", m, program( m, c));
   ref.sim.run( );
   *ok = p->clean( );
   std::map<std::string, Place> r;
   for( auto &l : split_lines( p->out))
      {
      Place q;
      if( l.size( ) > 40 && sscanf( l.c_str( ) + 26, "%lf %lf %lf", &q.ra, &q.dec, &q.mag) == 3) r[l.substr( 0, 12)] = q;
      }
   if( both)                  /* those all but opposite to the centre are not on the list */
      {
      bool ok2;
      auto r2 = places( wd, jd, stn, &ok2, ( centre + 180) % 360);
      r.insert( r2.begin( ), r2.end( ));
      *ok = *ok && ok2;
      }
   return r;
}
/* where it ought to be,  roughly (some hundredths of a degree),  and how far away;  two-body motion and a low-precision Sun */
double rough( const Obj &o, double jd, double *ra, double *dec, double *mag)
{
   const double D = M_PI / 180., tp = jdn( o.tp_y, o.tp_m, o.tp_d) - .5 + o.tp_f, a = o.q / ( 1. - o.e);
   double lam, beta, R;
   sun_j2000( jd + 69. / 86400., &lam, &beta, &R);
   double g[3], dist = 0., r = 0.;
   for( int it = 0; it < 3; it++)
      {
      double t = jd + 69. / 86400. - dist / 173.1446 - tp, Ma = fmod( .01720209895 / ( a * sqrt( a)) * t, 2. * M_PI), E = Ma;
      for( int k = 0; k < 60; k++) E -= ( E - o.e * sin( E) - Ma) / ( 1. - o.e * cos( E));
      double x = a * ( cos( E) - o.e), y = a * sqrt( 1. - o.e * o.e) * sin( E);
      double co = cos( o.om * D), so = sin( o.om * D), cO = cos( o.Om * D), sO = sin( o.Om * D), ci = cos( o.i * D), si = sin( o.i * D);
      double u = x * co - y * so, v = x * so + y * co;
      g[0] = u * cO - v * ci * sO + R * cos( lam); g[1] = u * sO + v * ci * cO + R * sin( lam); g[2] = v * si - R * sin( beta);
      dist = sqrt( g[0] * g[0] + g[1] * g[1] + g[2] * g[2]);
      r = a * ( 1. - o.e * cos( E));
      }
   double ca = ( r * r + dist * dist - R * R) / ( 2. * r * dist), ta = tan( acos( ca > 1. ? 1. : ca) / 2.);
   if( o.G > 1.) *mag = o.H + 5. * log10( dist) + o.G * log10( r);            /* comet */
   else *mag = o.H + 5. * log10( r * dist) - 2.5 * log10( ( 1. - o.G) * exp( -3.33 * pow( ta, .63)) + o.G * exp( -1.87 * pow( ta, 1.22)));
   const double ob = 23.4392911 * D, Y = g[1] * cos( ob) - g[2] * sin( ob), Z = g[1] * sin( ob) + g[2] * cos( ob);
   *ra = atan2( Y, g[0]) / D; *dec = asin( Z / dist) / D;
   return dist;
}
/* the shift of a place by parallax:  degrees on the sky,  in RA and dec */
void parallax_shift( const std::string &stn, double jd, double ra, double dec, double dist, double *dra, double *ddec)
{
   static const std::map<std::string, std::array<double, 3>> where = { { "568", {{ 204.528, .941705, .337234 }} }, { "703", {{ 249.26736, .845315, .533213 }} },
            { "I11", {{ 289.26345, .866020, -.499760 }} }, { "I13", {{ 16.3919, .6522, .7556 }} }, { "J11", {{ 139.2561, .8122, .5816 }} } };
   *dra = *ddec = 0.;
   auto it = where.find( stn);
   if( it == where.end( )) return;
   const double D = M_PI / 180., p = 6378.140 / 149597870.7 / dist / D;
   /* angles from the equinox of date,  taken back to J2000 (parallax itself changes little by it) */
   double lst = ( 280.46061837 + 360.98564736629 * ( jd - 2451545.) + it->second[0]) * D, h = lst - ra * D;
   *dra = -p * it->second[1] * sin( h);
   *ddec = -p * ( it->second[2] * cos( dec * D) - it->second[1] * cos( h) * sin( dec * D));
}
double wrap180( double d) { return fmod( fmod( d, 360.) + 540., 360.) - 180.; }

struct Want { std::string name; double dra, ddec, dist, mag, mra, mdec; bool sure; };
}
SCENARIO( P23, search, 1)
{
   Tape &w = sim.w;
   World wd;
   int n_cat = 2 + (int)w.choose( 40);
   for( int k = 0; k < n_cat; k++)
      {
      Obj o = rnd_obj( w, k);
      if( w.chance( 1, 4)) o.i = 20. + w.choose( 40000) / 1000.;
      if( w.chance( 1, 6)) { if( w.chance( 1, 2)) snprintf( o.name, sizeof( o.name), "C/20%02d A%d", 10 + k % 80, k % 10); else snprintf( o.name, sizeof( o.name), "%3dP", 10 + k % 900); o.G = 5. + w.choose( 100) / 10.; o.H = 6. + w.choose( 80) / 10.; }
      else if( w.chance( 1, 4)) o.G = w.choose( 50) / 100.;
      if( k && w.chance( 1, 3))             /* a neighbour of the one before */
         {
         Obj p = wd.cat[k - 1];
         p.om = fmod( p.om + w.choose( 600) / 200., 360.); p.i += w.choose( 100) / 200.;
         memcpy( p.name, o.name, sizeof( p.name)); p.H = o.H; p.G = o.G;
         o = p;
         }
      wd.cat.push_back( o);
      }
   wd.dir = w.chance( 1, 4) ? "/data" : "/work";
   knobs( sim);
   static const char *stns[] = { "500", "568", "703", "I11", "I13", "J11" };
   int year = 2023, mon = 1 + (int)w.choose( 12), d0 = 1 + (int)w.choose( 26);
   const double jd0 = jdn( year, mon, d0) - .5;
   int n_tgt = 1 + (int)w.choose( 3);
   bool ok = true;
   std::vector<Target> tgts;
   auto date = [&]( double jd, int *y, int *m, double *d) { *y = year; *m = mon; *d = d0 + ( jd - jd0); };
   std::string text;
   for( int k = 0; k < n_tgt; k++)
      {
      Target t;
      t.id = strf( "     K23A%02d%c", k, 'A' + k);
      int target = (int)w.choose( n_cat), m = w.chance( 1, 3) ? 1 : 2 + (int)w.choose( 2);
      int day = (int)w.choose( 3);
      double frac = w.choose( 100000) / 1e+5;
      if( w.chance( 1, 4)) frac = .4985 + w.choose( 300) / 1e+5;
      double jd = floor( ( jd0 + day + frac) * 1e+5 + .5) / 1e+5;
      std::string stn = stns[w.choose( 6)];
      u32 wrap = k ? 0 : w.choose( 5);                     /* 3, 4:  move the object to RA 180 or 0 */
      auto pl = places( wd, jd, stn, &ok, wrap == 4 ? 0 : 180);
      std::string name = strf( "%-12s", wd.cat[target].name);
      for( int it = 0; wrap >= 3 && ok && it < 4; it++)
         {
         if( !pl.count( name)) break;
         double err = wrap180( ( wrap == 3 ? 180. : 0.) + ( (int)w.choose( 200) - 100) / 1000. - pl[name].ra);
         if( fabs( err) < .15) break;
         wd.cat[target].Om = fmod( wd.cat[target].Om + err * .7 + 720., 360.);
         pl = places( wd, jd, stn, &ok, wrap == 4 ? 0 : 180);
         }
      if( !ok) { g_sim = &sim; sim.violate( "reference-run-failed", "list of positions"); return; }
      if( !pl.count( name)) continue;
      double ra = pl[name].ra, dec = pl[name].dec;
      double off = (double)pick( w, { 0, 1, 10, 30, 100, 300, 60, 120 }) / 60. * ( 1. - pick( w, { 0, 0, 3, 20}) / 1000.), ang = w.choose( 360) * M_PI / 180.;
      double cd = cos( dec * M_PI / 180.);
      double vra = 0., vdec = 0.;
      if( m > 1)
         {
         auto p2 = places( wd, jd + .05, stn, &ok, (int)ra);
         if( ok && p2.count( name)) { vra = wrap180( p2[name].ra - ra) / .05; vdec = ( p2[name].dec - dec) / .05; }
         if( w.chance( 1, 4)) { vra += ( (int)w.choose( 200) - 100) / 3000.; vdec += ( (int)w.choose( 200) - 100) / 3000.; }
         }
      ra += off * cos( ang) / cd; dec += off * sin( ang);
      if( fabs( dec) > 78.) continue;
      for( int j = 0; j < m; j++)
         {
         Seen s;
         s.jd = floor( ( jd + j * .04 + ( j ? w.choose( 100) / 1e+4 : 0.)) * 1e+5 + .5) / 1e+5;
         s.ra = ra + vra * ( s.jd - jd); s.dec = dec + vdec * ( s.jd - jd);
         s.stn = j && w.chance( 1, 4) ? stns[w.choose( 6)] : stn;
         t.obs.push_back( s);
         int y, mo; double dd;
         date( s.jd, &y, &mo, &dd);
         std::string l = obs_line( "K23A10A", y, mo, dd, s.ra, s.dec, s.stn.c_str( ));
         l.replace( 0, 12, t.id);
         /* what the line says,  to its own precision */
         double h, mi, sec; char sg; double de, dm, ds;
         sscanf( l.c_str( ) + 32, "%lf %lf %lf", &h, &mi, &sec);
         sscanf( l.c_str( ) + 44, "%c%lf %lf %lf", &sg, &de, &dm, &ds);
         t.obs.back( ).ra = 15. * ( h + mi / 60. + sec / 3600.);
         t.obs.back( ).dec = ( de + dm / 60. + ds / 3600.) * ( sg == '-' ? -1. : 1.);
         text += l;
         }
      tgts.push_back( t);
      sim.sample += strf( "%s%d obs %.4f %.4f %s at %.5f", k ? "; " : "", m, t.obs[0].ra, t.obs[0].dec, stn.c_str( ), jd);
      }
   if( tgts.empty( )) { g_sim = &sim; sim.nontrivial = false; return; }
   if( w.chance( 1, 3)) sim.fault.read_short = 100000;
   if( w.chance( 1, 3)) sim.fault.write_short = 200000;
   g_sim = &sim;
   install( sim, wd);
   sim.fs.put( "/work/seen.txt", text);
   /* the MPC's own file,  from which columns may be shown:  a line for each object,  with up to two empty lines between its parts */
   std::vector<std::string> mpcorb;
   if( w.chance( 1, 4))
      {
      std::string all;
      for( int k = 0, n = (int)w.choose( 5); k < n; k++) all += strf( "Header line %d\n", k) + (k == 3 ? std::string( 160, '-') + "\n" : "");
      u64 h = w.choose( 1u << 30);
      int blanks = 0;
      for( size_t k = 0; k < wd.cat.size( ); k++)
         {
         std::string l = strf( "%05zu ", k + 1);
         while( l.size( ) < 202) { h = mix64( h); l += h % 4 ? (char)( '!' + h / 7 % 90) : ' '; }
         mpcorb.push_back( l);
         if( k && blanks < 2 && w.chance( 1, 12)) { all += "\n"; blanks++; }
         all += l + "\n";
         }
      sim.fs.put( (w.chance( 1, 2) ? wd.dir : std::string( "/work")) + (w.chance( 1, 3) ? "/MPCORB.DAT" : "/mpcorb.dat"), all);
      }
   {                       /* are the listed positions right?  roughly by themselves,  and well for the change from place to place */
   const Seen &s0 = tgts[0].obs[0];
   auto here = places( wd, s0.jd, s0.stn, &ok, (int)s0.ra), centre = places( wd, s0.jd, "500", &ok, (int)s0.ra);
   g_sim = &sim;
   for( auto &o : wd.cat)
      {
      std::string name = strf( "%-12s", o.name);
      if( !here.count( name) || !centre.count( name)) continue;
      double mag, ra, dec, dra, ddec, dist = rough( o, s0.jd, &ra, &dec, &mag), cd = cos( dec * M_PI / 180.);
      Place &h = here[name], &c = centre[name];
      if( dist < .1 || fabs( dec) > 80.) continue;
      if( fabs( wrap180( c.ra - ra)) * cd > .0006 + .002 / dist || fabs( c.dec - dec) > .0006 + .002 / dist)
         { sim.violate( "wrong-place", name + strf( "listed at %.4f %.4f, should be near %.4f %.4f", c.ra, c.dec, ra, dec)); break; }
      if( fabs( c.mag - mag) > .0075) { sim.violate( "wrong-magnitude", name + strf( "listed with %.2f, should be %.2f", c.mag, mag)); break; }
      parallax_shift( s0.stn, s0.jd, c.ra, c.dec, dist, &dra, &ddec);
      double ga = wrap180( h.ra - c.ra) * cd, gb = h.dec - c.dec;
      if( fabs( ga - dra) > .3 / 3600. || fabs( gb - ddec) > .3 / 3600.)
         { sim.violate( "wrong-parallax", name + strf( "from %s shifted by %.2f %.2f arcsec, should be %.2f %.2f", s0.stn.c_str( ), ga * 3600., gb * 3600., dra * 3600., ddec * 3600.)); break; }
      }
   }
   struct Run { Proc *p; double r, z, m; int max; bool lov; std::vector<std::pair<int, int>> cols; };
   std::map<std::pair<double, std::string>, std::map<std::string, Place>> known;
   int slot = 0;
   for( int round = 0, rounds = 1 + (int)w.choose( 2); round < rounds; round++)
      {
      std::vector<Run> runs;
      for( int k = 0, n = 1 + (int)w.choose( 3); k < n; k++)
         {
         Run r;
         r.r = pick( w, { 18000, 60, 600, 90000, 3600, 7200, 150000, 400000 }); r.z = pick( w, { 10, 100000, 2, 40 }); r.m = pick( w, { 40, 22, 18, 15 }); r.max = (int)pick( w, { 100, 1, 2, 3, 5 }); r.lov = w.chance( 1, 4);
         std::vector<std::string> c = { "astcheck", "seen.txt" };
         if( r.r != 18000. || w.chance( 1, 2)) c.push_back( strf( "-r%.0f", r.r));
         if( r.z != 10. || w.chance( 1, 2)) c.push_back( strf( "-z%.0f", r.z));
         if( r.m != 22. || w.chance( 1, 2)) c.push_back( strf( "-m%.0f", r.m));
         if( r.max != 100 || w.chance( 1, 2)) c.push_back( strf( "-M%d", r.max));
         if( r.lov) c.push_back( "-l");
         if( w.chance( 1, 2)) c.push_back( "-h");
         if( w.chance( 1, 2) && !mpcorb.empty( ))
            {
            std::string e;
            for( int j = 0, nc = 1 + (int)w.choose( 3); j < nc; j++)
               {
               int len = 1 + (int)w.choose( 12), at = 1 + (int)w.choose( 202 - len);
               r.cols.push_back( std::make_pair( at, len));
               e += strf( "%s%d,%d", j ? (w.chance( 1, 2) ? ";" : "; ") : "", at, len);
               }
            c.push_back( "-e" + e);
            sim.count( "probe.columns_of_mpcorb");
            }
         if( wd.dir != "/work") c.push_back( "-p" + wd.dir);
         sim.sample += strf( " [r%.0f z%.0f m%.0f M%d]", r.r, r.z, r.m, r.max);
         r.p = launch( sim, wd, slot++, c);
         runs.push_back( r);
         }
      sim.run( );
      for( auto &r : runs)
         {
         if( !r.p->clean( )) { sim.violate( "instance-failed", r.p->describe( ) + ": " + r.p->err.substr( 0, 200)); continue; }
         /* results by object */
         std::map<std::string, std::vector<std::string>> got;
         std::map<std::string, std::string> head;
         std::string cur;
         for( auto &l : split_lines( r.p->out))
            {
            bool is_head = false;
            for( auto &t : tgts) if( !l.compare( 0, 14, t.id + ": ")) { cur = t.id; head[cur] = l; is_head = true; }
            if( l.find( "The apparent motion and arc") == 0) cur.clear( );
            if( !is_head && !cur.empty( ) && l.size( ) > 60 && ( l.compare( 0, 3, "   ") == 0 || l.compare( 0, 2, "C/") == 0 || l[3] == 'P')) got[cur].push_back( l);
            }
         for( auto &t : tgts)
            {
            const Seen &s0 = t.obs[0];
            double jd2 = s0.jd + 1e-6, ora = 0., odec = 0., cd = cos( s0.dec * M_PI / 180.);
            bool single = true;
            for( size_t j = 1; j < t.obs.size( ); j++)
               if( t.obs[j].stn == s0.stn)
                  {
                  jd2 = t.obs[j].jd;
                  ora = wrap180( t.obs[j].ra - s0.ra) * cd / ( jd2 - s0.jd) * 150.;
                  odec = ( t.obs[j].dec - s0.dec) / ( jd2 - s0.jd) * 150.;
                  single = false;
                  }
            std::map<std::string, Place> p1, p2;
            {
            bool ok2;
            auto memo = [&]( double jd) {
               auto key = std::make_pair( jd, s0.stn + (r.r > 1e+5 ? "*" : ""));
               auto it = known.find( key);
               if( it == known.end( )) it = known.insert( std::make_pair( key, places( wd, jd, s0.stn, &ok2, (int)s0.ra, r.r > 1e+5))).first;
               return it->second;
               };
            p1 = memo( s0.jd);
            p2 = single ? p1 : memo( jd2);
            g_sim = &sim;
            }
            double a, b, hrs;
            if( !head.count( t.id)) { sim.violate( "object-missing", t.id); continue; }
            const std::string tail = head[t.id].substr( 14);
            const bool said_single = tail.find( "only one observation") == 0;
            if( single != said_single && (fabs( ora) > .001 || fabs( odec) > .001))
               sim.violate( "wrong-motion", head[t.id] + strf( ": motion should be %.2f %.2f", ora, odec));
            else if( !single && !said_single && ( sscanf( tail.c_str( ), "%lf\"/hr in RA, %lf\"/hr in dec (%lf hours)", &a, &b, &hrs) != 3
                     || fabs( a - ora) > .6 || fabs( b - odec) > .6 || fabs( hrs - ( jd2 - s0.jd) * 24.) > .006))
               sim.violate( "wrong-motion", head[t.id] + strf( ": motion should be %.2f %.2f over %.3f h", ora, odec, ( jd2 - s0.jd) * 24.));
            std::vector<Want> want;
            for( auto &pl : p1)
               {
               Want x;
               x.name = pl.first;
               x.dra = -wrap180( pl.second.ra - s0.ra) * cd * 3600.; x.ddec = -( pl.second.dec - s0.dec) * 3600.;
               x.dist = sqrt( x.dra * x.dra + x.ddec * x.ddec); x.mag = pl.second.mag;
               x.mra = x.mdec = 0.;
               x.sure = fabs( x.dist - r.r) > .1 && fabs( x.mag - r.m) > .011;
               bool in = x.dist < r.r + .1 && x.mag < r.m + .011;
               if( !single)
                  {
                  if( !p2.count( x.name)) continue;
                  x.mra = wrap180( p2[x.name].ra - pl.second.ra) * cd * 3600. / (( jd2 - s0.jd) * 24.);
                  x.mdec = ( p2[x.name].dec - pl.second.dec) * 3600. / (( jd2 - s0.jd) * 24.);
                  double da = fabs( x.mra - ora), db = fabs( x.mdec - odec);
                  if( fabs( da - r.z) < .03 || fabs( db - r.z) < .03) x.sure = false;
                  if( da > r.z + .03 || db > r.z + .03) in = false;
                  }
               if( in) want.push_back( x);
               }
            std::sort( want.begin( ), want.end( ), []( const Want &p, const Want &q) { return p.dist < q.dist; });
            size_t n_sure = 0;
            for( auto &x : want) n_sure += x.sure;
            auto &g = got[t.id];
            std::string what = r.p->name + " " + t.id.substr( 5) + ": ";
            if( (int)g.size( ) > r.max) { sim.violate( "too-many", what + strf( "%zu shown, at most %d asked for", g.size( ), r.max)); continue; }
            if( g.size( ) < std::min( n_sure, (size_t)r.max))
               {
               std::string miss;
               for( auto &x : want) { bool f = false; for( auto &l : g) if( l.substr( 0, 12) == x.name) f = true; if( !f) miss += strf( " [%s at %.1f,%.1f mag %.2f]", x.name.c_str( ) + 3, x.dra, x.ddec, x.mag); }
               sim.violate( "missed", what + strf( "%zu shown, %zu to %zu are within the limits; not shown:", g.size( ), n_sure, want.size( )) + miss);
               continue;
               }
            double prev = -1.;
            std::set<std::string> names;
            for( auto &l : g)
               {
               double v[6];
               std::string nm = l.substr( 0, 12);
               const Want *x = NULL;
               for( auto &q : want) if( q.name == nm) x = &q;
               if( !names.insert( nm).second) { sim.violate( "twice", what + l); break; }
               if( !x) { sim.violate( "outside-limits", what + l); break; }
               if( sscanf( l.c_str( ) + 26, "%lf %lf %lf %lf %5lf%5lf", v, v + 1, v + 2, v + 3, v + 4, v + 5) != 6) { sim.violate( "unreadable", what + l); break; }
               if( fabs( v[0] - x->dra) > .6 || fabs( v[1] - x->ddec) > .6 || fabs( v[2] - x->dist) > .6 || fabs( v[3] - x->mag) > .061
                        || ( !single && ( fabs( v[4] - x->mra) > .6 || fabs( v[5] - x->mdec) > .6)))
                  { sim.violate( "wrong-values", what + l + strf( " should be %.1f %.1f %.1f %.2f %.1f %.1f", x->dra, x->ddec, x->dist, x->mag, x->mra, x->mdec)); break; }
               if( v[2] < prev) { sim.violate( "not-sorted", what + l); break; }
               std::string tail;
               for( size_t j = 0; j < wd.cat.size( ); j++)
                  if( strf( "%-12s", wd.cat[j].name) == nm)
                     for( auto &cl : r.cols) tail += " " + mpcorb[j].substr( cl.first - 1, cl.second);
               if( l.size( ) < tail.size( ) || l.compare( l.size( ) - tail.size( ), tail.size( ), tail) || ( !r.lov && fabs( v[0]) < 99999. && fabs( v[1]) < 99999. && l.size( ) - tail.size( ) != 64))
                  { sim.violate( "wrong-columns", what + l + " should end in '" + tail + "'"); break; }
               prev = v[2];
               }
            /* the nearest ones,  if not all are shown */
            if( (int)g.size( ) == r.max && !g.empty( ))
               {
               double last = prev;
               for( auto &x : want)
                  if( x.sure && x.dist < last - 1.1 && !names.count( x.name)) { sim.violate( "nearer-one-left-out", what + x.name); break; }
               }
            sim.count( "probe.matches", g.size( ));
            }
         if( r.p->mem_error) sim.violate( "memory", r.p->mem_note);
         }
      }
   if( sim.step_limit_hit) sim.violate( "no-progress", "still running after the step limit");
   sim.nontrivial = true;
}
