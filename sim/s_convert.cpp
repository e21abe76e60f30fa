/* File converters:  P16 them_cat (catalogue of orbital elements replaced in
place),  P17 mpc2sof,  P18 csv2ades, mms, themis, jpl2b32 */
#include "util.h"
#include <math.h>

namespace {
void some_faults( Sim &sim)
{
   Tape &w = sim.w;
   u32 k = pick( w, { 1, 4, 12 });
   sim.fault.read_eio = on_off( w, 1, 2, 20000 * k);
   sim.fault.write_fail = on_off( w, 1, 2, 30000 * k);
   sim.fault.alloc_fail = on_off( w, 1, 3, 30000 * k);
   sim.fault.open_fail = on_off( w, 1, 4, 30000 * k);
   sim.fault.close_fail = on_off( w, 1, 2, 60000 * k);
   sim.fault.rename_fail = on_off( w, 1, 3, 60000 * k);
   sim.fault.unlink_fail = on_off( w, 1, 4, 30000 * k);
   sim.fault.read_short = on_off( w, 1, 3, 200000);
   sim.fault.write_short = on_off( w, 1, 3, 200000);
   sim.fault.stdout_faults = true;
   sim.fault.budget = 1 + (int)w.choose( 3);
}
void no_faults( Sim &sim)
{
   int b = sim.fault.kill_budget;
   (void)b;
   sim.fault = FaultCfg( );
   sim.fs.quota = -1;
}

/* ---------------------------------------------------------------- P16 */
/* A catalogue holds one set of elements (four lines) per day,  after a header. */
struct Cat {
   std::vector<std::string> head;         /* with the changeable lines as tokens */
   int first = 0;
   double end = 0.;
   std::string end_text, updated;
   std::vector<std::pair<int, std::string>> sets;
   std::string text( ) const
   {
      std::string r;
      for( auto &h : head)
         if( h == "@R") r += strf( "# Ephem range: %12.6f %.6f %f\n", (double)first, end, 1.);
         else if( h == "@E") r += end_text;
         else if( h == "@U") r += updated;
         else r += h;
      for( auto &s : sets) r += s.second;
      return r;
   }
};
std::string one_set( Tape &w, int mjd, u32 gen)
{
   u64 h = mix64( (u64)mjd * 1000 + gen);
   std::string r = strf( "# MJD %d.000000 (2019 xxx  gen %u)\n", mjd, gen);
   r += strf( "THEMIS A  %08x\n", (unsigned)h);
   r += strf( "1 30580U 07004A   %05d.00000000  .0000%04u  00000-0  %05u-4 0 %4u7\n", mjd % 100000, (unsigned)( h >> 20) % 10000, (unsigned)( h >> 33) % 100000, gen % 10000);
   r += strf( "2 30580 %8.4f 123.4567 8364%03u  12.3456  78.9012  1.01234567%5u8\n", (double)( h % 1800000) / 10000., (unsigned)( h >> 12) % 1000, gen % 100000);
   (void)w;
   return r;
}
const std::string UPD = "# Last updated with 'them_cat' (q.v.) on  ";
Cat make_cat( Tape &w, int mjd, int n, u32 gen, bool extra)
{
   Cat c;
   c.first = mjd;
   c.end = mjd + n;
   c.end_text = strf( "# Ephemeris end:   gen %u day %d\n", gen, mjd + n);
   c.updated = UPD + "Thu Jan  1 00:00:00 2015\n";
   if( extra) c.head.push_back( "# TLEs for THEMIS A,  from NASA ephemerides\n");
   c.head.push_back( "@R");
   c.head.push_back( strf( "# Worst residual %d\n", (int)w.choose( 9)));
   c.head.push_back( strf( "# Ephemeris start: day %d\n", mjd));
   c.head.push_back( "@E");
   if( extra) { c.head.push_back( "@U"); c.head.push_back( "#\n"); }
   for( int i = 0; i < n; i++) c.sets.push_back( std::make_pair( mjd + i, one_set( w, mjd + i, gen)));
   return c;
}
std::string mask_time( std::string s)      /* the time of the update is not compared */
{
   size_t k = 0;
   while( (k = s.find( UPD, k)) != std::string::npos)
      {
      k += UPD.size( );
      size_t e = s.find( '\n', k);
      if( e == std::string::npos) break;
      if( e - k == 24 && s[k + 3] == ' ' && s[k + 13] == ':' && s[k + 16] == ':') s.replace( k, 24, "<time>");
      }
   return s;
}
}  // namespace

SCENARIO( P16, catalogue, 1)
{
   Tape &w = sim.w;
   sim.stdio_buf = pick( w, { 4096, 1024, 100, 16384 });
   sim.switch_num = pick( w, { 2, 20, 50 });
   int n_cats = 1 + (int)w.choose( 3), slot = 0, pid0 = sim.next_pid;
   const char *names[] = { "themis_a.tle", "themis_d.tle", "data/themis_e.tle" };
   std::vector<Cat> cats;
   std::vector<int> last;
   for( int i = 0; i < n_cats; i++)
      {
      cats.push_back( make_cat( w, 58000 + (int)w.choose( 100), 2 + (int)w.choose( 25), 1, true));
      if( w.chance( 1, 4))                /* some days were never had */
         {
         auto &st = cats.back( ).sets;
         size_t a = w.choose( (u32)st.size( )), n = 1 + w.choose( 4);
         for( ; n && st.size( ) > 1 && a < st.size( ); n--) st.erase( st.begin( ) + a);
         sim.count( "probe.catalogue_with_a_gap");
         }
      sim.fs.put( std::string( "/work/") + names[i], cats[i].text( ));
      }
   int rounds = 1 + (int)w.choose( 4);
   u32 gen = 1;
   sim.sample = strf( "%d catalogues, %d rounds", n_cats, rounds);
   for( int r = 0; r < rounds; r++)
      {
      bool quiet = r == rounds - 1;
      if( quiet) no_faults( sim);
      else
         {
         some_faults( sim);
         sim.fault.kill = on_off( w, 1, 2, 20000);
         sim.fault.kill_budget = 1 + (int)w.choose( 2);
         if( w.chance( 1, 5)) sim.fs.quota = (long)w.choose( 3000);
         }
      if( w.chance( 1, 3)) sim.next_pid = pid0;
      struct Job { Proc *p; int cat; Cat after; std::string before; bool can; };
      std::vector<Job> jobs;
      for( int i = 0; i < n_cats; i++)
         {
         if( !quiet && i && w.chance( 1, 3)) continue;
         Job j;
         j.cat = i;
         Cat &c = cats[i];
         int n_sets = (int)c.sets.size( ), kind = (int)w.choose( 8);
         int at = n_sets > 1 ? 1 + (int)w.choose( (u32)n_sets) : 1;     /* the new data start after this many old sets */
         Cat nw = make_cat( w, c.sets[0].first + at, 1 + (int)w.choose( 20), ++gen, false);
         j.can = true;
         std::string nt = nw.text( );
         if( kind == 7) nw = make_cat( w, c.sets.back( ).first + 3, 4, gen, false);            /* starts too late */
         if( kind == 6) nw = make_cat( w, c.sets[0].first - (int)w.choose( 4), 1 + (int)w.choose( 8), gen, false);     /* or too early */
         if( kind == 5) nw = make_cat( w, c.sets[0].first + 1 + (int)w.choose( 40), 1 + (int)w.choose( 8), gen, false);    /* or anywhere */
         nt = nw.text( );
         j.can = false;          /* the day before the first new one must be there */
         for( auto &s : c.sets) if( s.first == nw.first - 1) j.can = true;
         std::string nname = strf( "new%d_%d.tle", r, i);
         sim.fs.put( "/work/" + nname, nt);
         j.before = c.text( );
         j.after = c;
         while( !j.after.sets.empty( ) && j.after.sets.back( ).first >= nw.first) j.after.sets.pop_back( );
         for( auto &s : nw.sets) j.after.sets.push_back( s);
         j.after.end = nw.end;
         j.after.end_text = nw.end_text;
         Module *m = get_module( "them_cat", slot);
         m->restore( );
         j.p = sim.spawn( strf( "them_cat#%d", slot++), m, program( m, { "them_cat", names[i], nname }));
         jobs.push_back( j);
         sim.sample += strf( "; %s%d+%zu sets", j.can ? "" : "gap ", at, nw.sets.size( ));
         }
      /* whenever a process is about to touch the disk,  each catalogue must be complete */
      bool bad = false;
      sim.on_op = [&]( Proc *, const char *op, const std::string &)
      {
         if( bad) return;
         for( auto &j : jobs)
            {
            std::string path = std::string( "/work/") + names[j.cat];
            if( !sim.fs.exists( path)) { sim.violate( "catalogue-missing", strf( "%s absent during an update (%s)", names[j.cat], op)); bad = true; return; }
            std::string got = mask_time( sim.fs.get( path));
            if( got != mask_time( j.before) && got != mask_time( j.after.text( )))
               { sim.violate( "catalogue-partial", strf( "%s neither old nor new during an update (%s): ", names[j.cat], op) + first_diff( mask_time( j.after.text( )), got)); bad = true; return; }
            }
      };
      sim.run( );
      sim.on_op = nullptr;
      if( bad) return;
      for( auto &j : jobs)
         {
         std::string path = std::string( "/work/") + names[j.cat], got = sim.fs.exists( path) ? mask_time( sim.fs.get( path)) : "<absent>";
         const std::string old = mask_time( j.before), nw = mask_time( j.after.text( ));
         if( j.p->mem_error) sim.violate( "memory", j.p->mem_note);
         if( j.p->clean( ))
            {
            if( !j.can) sim.violate( "joined-with-gap", j.p->name);
            if( got != nw) { sim.violate( "wrong-catalogue", j.p->name + " succeeded: " + first_diff( nw, got)); return; }
            cats[j.cat] = j.after;
            sim.count( "probe.updated");
            }
         else
            {
            if( got != old && got != nw) { sim.violate( "catalogue-lost", j.p->name + " " + j.p->describe( ) + ": " + first_diff( old, got)); return; }
            if( got == nw && got != old && j.can) { cats[j.cat] = j.after; sim.count( "probe.updated_then_failed"); }
            if( j.p->end == END_KILLED) sim.count( "probe.killed");
            else if( j.can && !j.p->n_hard_faults) sim.violate( "failed-without-cause", j.p->describe( ) + " " + j.p->err.substr( 0, 200));
            else if( j.p->end == END_SIGNAL && j.p->code != 6) sim.violate( "crash", j.p->describe( ));
            else sim.count( "probe.refused_or_failed");
            }
         }
      for( auto &c : cats) if( c.updated.size( ) == 0) c.updated = UPD;
      }
   if( sim.step_limit_hit) sim.violate( "no-progress", "still running after the step limit");
   sim.nontrivial = true;
}

/* ---------------------------------------------------------------- P17, P18 */
namespace {
struct Conv {
   const char *so;
   std::vector<std::string> args;
   std::map<std::string, std::string> files;
   std::string out;                       /* "" for standard output */
   std::vector<std::string> keys;         /* must appear in the output in this order */
   int n_records = -1;                    /* fixed-length output:  one record per key,  after one header record */
   std::vector<double> b32;               /* header of a .b32 file:  object, first day, step, count, scale;  where the text begins */
   std::string full;                      /* the whole output;  see same_text( ) */
   struct Orb { std::string te, tail; double tp, period; };
   std::vector<Orb> orbs;                 /* epoch,  end of the record,  perihelion time */
   std::vector<double> values;            /* the numbers which the output should hold */
   std::function<std::vector<double>( const std::string &)> extract;
};
double r01( Tape &w) { return (double)w.choose( 1000000) / 1000000.; }

std::vector<std::string> split_csv( const std::string &s)
{
   std::vector<std::string> r( 1);
   for( char c : s) if( c == ',') r.push_back( ""); else r.back( ) += c;
   return r;
}
double near( double v, int places) { return atof( strf( "%.*f", places, v).c_str( )); }
long day_number( int y, int m, int d)     /* Julian day at noon,  Gregorian calendar */
{
   long a = (14 - m) / 12, yy = y + 4800 - a, mm = m + 12 * a - 3;
   return d + (153 * mm + 2) / 5 + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045;
}
void day_date( long jd, int *y, int *m, int *d)
{
   *y = (int)( (jd - 1721060) / 366);
   while( day_number( *y + 1, 1, 1) <= jd) ++*y;
   for( *m = 1; *m < 12 && day_number( *y, *m + 1, 1) <= jd; ) ++*m;
   *d = (int)( jd - day_number( *y, *m, 1)) + 1;
}
std::string ymd( long jd) { int y, m, d; day_date( jd, &y, &m, &d); return strf( "%04d%02d%02d", y, m, d); }
std::string mpcorb_line( Tape &w, int i, std::string &name, std::vector<double> &val, Conv::Orb &orb)
{
   std::string s( 202, ' ');
   auto put = [&]( int col, const std::string &t) { s.replace( col, t.size( ), t); };
   bool numbered = w.chance( 1, 2);
   put( 0, strf( numbered ? "%05d" : "K20X%02dY", i % 100000));
   const bool no_h = w.chance( 1, 20);
   const std::string hmag = no_h ? "     " : strf( "%5.2f", 3. + 20. * r01( w)), slope = no_h ? "     " : strf( "%5.2f", .05 * (1 + w.choose( 8)));
   put( 8, hmag);
   put( 14, slope);
   long epoch = day_number( 2020, 5, 31) + (w.chance( 1, 2) ? 0L : (long)w.choose( 20000) - 18000L);
   int ey, em, ed;
   day_date( epoch, &ey, &em, &ed);
   const char *hexa = "0123456789ABCDEFGHIJKLMNOPQRSTUV";
   put( 20, strf( "%c%02d%c%c", "JK"[ey / 100 - 19], ey % 100, hexa[em], hexa[ed]));
   const double ma = w.chance( 1, 12) ? near( 180. + (r01( w) - .5) * pow( .1, (double)w.choose( 5)), 5) : near( 359.9 * r01( w), 5);
   put( 26, strf( "%9.5f", ma));
   double argp = near( 359.9 * r01( w), 5), node = near( 359.9 * r01( w), 5), incl = near( 170. * r01( w), 5), ecc = near( .9 * r01( w), 7);
   put( 37, strf( "%9.5f", argp));
   put( 48, strf( "%9.5f", node));
   put( 59, strf( "%9.5f", incl));
   put( 70, strf( "%9.7f", ecc));
   double a = .8 + 4. * r01( w);
   put( 80, strf( "%11.8f", .9856 / (a * sqrt( a))));
   put( 92, strf( "%11.7f", a));
   for( double v : { near( a, 7) * (1. - ecc), incl, node, argp, ecc }) val.push_back( v);
   put( 105, "0"); put( 107, "MPO492748");
   const std::string nobs = strf( "%5d", 3 + (int)w.choose( 9000)), rms = strf( "%4.2f", r01( w)), perts = pick( w, { 0, 1 }) ? "M-h 3Eh" : "M-v 30h";
   put( 117, nobs);
   put( 123, "115");
   long tlast = day_number( 2019, 12, 31) + (w.chance( 1, 2) ? 0L : (long)w.choose( 12000) - 11000L), tfirst = tlast;
   int ly, lm, ld;
   day_date( tlast, &ly, &lm, &ld);
   if( w.chance( 1, 3)) { int n = 1 + (int)w.choose( 300); put( 127, strf( "%4d days", n)); tfirst -= n; }
   else { int n = (int)w.choose( 180); put( 127, strf( "%4d-%4d", ly - n, ly)); tfirst -= 365 * (n + 1); }
   put( 137, rms);
   orb.te = ymd( epoch);
   orb.tail = rms + " " + nobs + " " + ymd( tfirst) + " " + ymd( tlast) + " " + perts + " " + hmag + " " + slope;
   orb.period = 2. * M_PI * near( a, 7) * sqrt( near( a, 7)) / .01720209895;
   orb.tp = (double)epoch - .5 - (ma > 180. ? ma - 360. : ma) / 360. * orb.period;     /* the nearest perihelion */
   put( 142, perts); put( 150, "MPCLINUX"); put( 161, "0000");
   if( numbered) { put( 166, strf( "(%6d)", i)); put( 175, "Name"); name = strf( "      %6d ", i); }
   else if( w.chance( 1, 6))
      {
      name = strf( w.chance( 1, 2) ? "tmp%d" : "P10xy%03dQ", i % 1000);
      put( 166, name);
      name.resize( 13, ' ');
      }
   else { put( 175, strf( "2020 XY%d", i)); name = strf( "2020 XY%d", i); name.resize( 13, ' '); }
   put( 194, ymd( tlast));
   return s + "\n";
}
std::string comet_line( Tape &w, int i, std::string &name, std::vector<double> &val, Conv::Orb &orb)
{
   std::string s( 122, ' ');
   auto put = [&]( int col, const std::string &t) { s.replace( col, t.size( ), t); };
   if( w.chance( 1, 2))
      {
      std::string frag = pick( w, { 0, 0, 1, 2 }) == 0 ? "" : (w.chance( 1, 2) ? strf( "-%c", 'A' + (int)w.choose( 26)) : strf( "-%c%c", 'A' + (int)w.choose( 26), 'A' + (int)w.choose( 26)));
      put( 0, strf( "%3d%c/Name%d%s", i % 400, w.chance( 1, 8) ? 'D' : 'P', i, frag.c_str( )));
      name = s.substr( 0, 4) + frag;
      }
   else
      {
      name = strf( "%c/%d%02d %c%d", "CPDAI"[w.choose( 5)], 17 + (int)w.choose( 4), i % 100, 'A' + (i / 100) % 10, i % 10);
      if( w.chance( 1, 3)) name += strf( "-%c", 'A' + (int)w.choose( 26)) + (w.chance( 1, 2) ? strf( "%c", 'A' + (int)w.choose( 26)) : "");
      put( 3, name);
      if( w.chance( 5, 6)) put( 3 + (int)name.size( ), " (Somebody)");
      }
   name.resize( 13, ' ');
   const bool old = w.chance( 1, 2);
   int mjd = old ? 59000 - (int)w.choose( 120000) : 58000 + (int)w.choose( 900);
   put( 44, strf( "%6d", mjd));
   orb.te = ymd( mjd + 2400001L);
   orb.tail.clear( );
   orb.period = 0.;
   double q = near( .3 + 4. * r01( w), 8), ecc = near( r01( w), 8), incl = near( 170. * r01( w), 5), argp = near( 359.9 * r01( w), 5), node = near( 359.9 * r01( w), 5);
   put( 51, strf( "%11.8f", q));
   put( 64, strf( "%10.8f", ecc));
   put( 75, strf( "%9.5f", incl));
   put( 85, strf( "%9.5f", argp));
   put( 95, strf( "%9.5f", node));
   for( double v : { q, incl, node, argp, ecc }) val.push_back( v);
   int pm = 1 + (int)w.choose( 12), pd = 1 + (int)w.choose( 28), pf = (int)w.choose( 99999);
   const int py = old ? 1700 + (int)w.choose( 400) : 2019;
   put( 105, strf( "%d%02d%02d.%05d", py, pm, pd, pf));
   orb.tp = day_number( py, pm, pd) - .5 + pf * 1e-5;
   return s + "\n";
}
Conv make_mpc2sof( Tape &w, bool big)
{
   Conv c;
   c.so = "mpc2sof";
   int na = big ? (int)pick( w, { 31, 32, 33, 64, 100 }) : (int)w.choose( 12), nc = (int)w.choose( big ? 40 : 10);
   bool no_comets = w.chance( 1, 4), def = w.chance( 1, 2), upper = def && w.chance( 1, 4);
   if( no_comets) nc = 0;
   std::string t = "MINOR PLANET CENTER ORBIT DATABASE\n\n----------------------\n", name;
   Conv::Orb orb;
   std::vector<double> unused;
   c.keys.push_back( "Name        |");
   for( int i = 0; i < na; i++)
      {
      t += mpcorb_line( w, i + 1, name, c.values, orb);
      c.orbs.push_back( orb);
      c.keys.push_back( name);
      if( w.chance( 1, 6)) t += "\n";
      if( w.chance( 1, 10))                     /* not a record:  wrong length */
         { std::string l = mpcorb_line( w, 900 + i, name, unused, orb); t += w.chance( 1, 2) ? l.substr( 0, 201 - w.choose( 195)) + "\n" : " " + l; }
      }
   c.files[def ? (upper ? "MPCORB.DAT" : "mpcorb.dat") : "extract.dat"] = t;
   c.args = { "mpc2sof" };
   if( !def || no_comets) c.args.push_back( def ? "mpcorb.dat" : "extract.dat");
   t = "Num  Name                                    Epoch      q           e        i         w        Node          Tp       Ref\n----------------\n";
   for( int i = 0; i < nc; i++)
      {
      t += comet_line( w, i + 1, name, c.values, orb);
      c.keys.push_back( name);
      c.orbs.push_back( orb);
      if( w.chance( 1, 10))                     /* not a record:  too short */
         t += comet_line( w, 900 + i, name, unused, orb).substr( 0, w.choose( 113)) + "\n";
      }
   if( no_comets) c.args.push_back( "i");
   else if( w.chance( 1, 4))
      {
      const char *cname = pick( w, { 0, 1 }) ? "icomets.txt" : "comets.i";
      c.files[cname] = t;
      if( c.args.size( ) == 1) c.args.push_back( "mpcorb.dat");
      c.args.push_back( cname);
      }
   else c.files["ELEMENTS.COMET"] = t;
   c.out = "mpcorb.sof";
   c.n_records = na + nc;
   c.extract = []( const std::string &out) {
      std::vector<double> r;
      bool first = true;
      for( auto &l : split_lines( out))
         {
         double v[5];
         if( !first && l.size( ) > 80 && sscanf( l.c_str( ) + 13, "%*s %*s %lf %lf %lf %lf %lf", v, v + 1, v + 2, v + 3, v + 4) == 5)
            for( double x : v) r.push_back( x);
         first = false;
         }
      return r; };
   return c;
}
Conv make_other( Tape &w, int which)
{
   Conv c;
   std::string t;
   if( which == 0)
      {
      c.so = "csv2ades";
      int num = 4179 + (int)w.choose( 20), n_files = w.chance( 1, 8) ? 19 + (int)w.choose( 6) : 1 + (int)w.choose( 3);
      bool mags = w.chance( 1, 2);
      std::map<int, std::string> blocks;
      c.args = { "csv2ades", n_files == 1 ? strf( "%d", num) : strf( "%d,%d", num, num + n_files - 1) };
      c.files["gaia.hdr"] = "<?xml version=\"1.0\"?>\n<ades version=\"2022\">\n  <obsBlock>\n*\n  </obsBlock>\n</ades>\n";
      c.keys.push_back( "<obsBlock>");
      std::map<int, std::string> order;
      std::map<int, std::vector<double>> vals;
      for( int f = 0; f < n_files; f++)
         {
         std::string cols = "solution_id,source_id,observation_id,number_mp,epoch,epoch_err,epoch_utc,ra,dec,ra_error_systematic,dec_error_systematic,ra_dec_correlation_systematic,"
             "ra_error_random,dec_error_random,ra_dec_correlation_random,x_gaia,y_gaia,z_gaia,vx_gaia,vy_gaia,vz_gaia,x_gaia_geocentric,y_gaia_geocentric,z_gaia_geocentric,"
             "vx_gaia_geocentric,vy_gaia_geocentric,vz_gaia_geocentric,position_angle_scan,level_of_confidence";
         if( mags) cols += ",g_mag,g_flux,g_flux_error,end";
         /* the columns come in any order (but for those found by the start of their name) */
         std::vector<std::string> names = split_csv( cols);
         std::vector<size_t> order_of( names.size( ));
         for( size_t i = 0; i < names.size( ); i++) order_of[i] = i;
         if( w.chance( 1, 2))
            {
            for( size_t i = names.size( ) - 2; i > 1; i--) std::swap( order_of[i], order_of[1 + w.choose( (u32)i)]);
            auto before = [&]( const char *a, const char *b) {
               size_t ia = 0, ib = 0;
               for( size_t i = 0; i < names.size( ); i++) { if( names[order_of[i]] == a) ia = i; if( names[order_of[i]] == b) ib = i; }
               if( ia > ib) std::swap( order_of[ia], order_of[ib]);
               };
            before( "x_gaia_geocentric", "vx_gaia_geocentric");
            before( "y_gaia_geocentric", "vy_gaia_geocentric");
            before( "z_gaia_geocentric", "vz_gaia_geocentric");
            if( mags) before( "g_flux", "g_flux_error");
            }
         auto in_order = [&]( const std::string &l) {
            std::vector<std::string> v = split_csv( l);
            std::string r;
            for( size_t i = 0; i < order_of.size( ); i++) r += (i ? "," : "") + v[order_of[i]];
            return r + "\n";
            };
         t = "# comment\n" + in_order( cols);
         int n = (int)w.choose( n_files > 3 ? 4 : 12);
         std::string k;
         for( int i = 0; i < n; i++)
            {
            bool other = w.chance( 1, 4);
            /* the range may hold other objects kept in the same file */
            int nobj = other ? num + f + 20 * (w.chance( 1, 2) ? 1 : -1) : num + f;
            if( other && nobj >= num && nobj < num + n_files) nobj = num + n_files + 20;
            double ra = 360. * r01( w), dec = 160. * r01( w) - 80., epoch = 100. + (int)w.choose( 5000) + r01( w), e1 = 3. * r01( w), e2 = 3. * r01( w);
            u32 corr = w.choose( 1000);
            std::string row = strf( "1636148068921376768,-4284966716,%d,%d,%.10f,1.E-9,%.10f,%.12f,%.12f,0.1,0.2,0.9,%.6f,%.6f,0.99%03u", i, nobj, epoch - .0007, epoch, ra, dec, e1, e2, corr);
            std::string rec = strf( "   <optical>\n    <permID>%d</permID>\n    <mode>TDI</mode>\n    <stn>258</stn>\n    <sys>ICRF_KM</sys>\n    <ctr>399</ctr>\n", nobj);
            for( int j = 0; j < 12; j++)
               {
               double v = (r01( w) * 2. - 1.) * (j < 6 ? 1. : .01), au = 149597870.7;
               row += strf( ",%.15f", v);
               if( j >= 6 && j < 9) rec += strf( "    <pos%d>%.4f</pos%d>\n", j - 5, v * au * (1. - 1.550519768e-8), j - 5);
               if( j >= 9) rec += strf( "    <vel%d>%.10f</vel%d>\n", j - 8, v * au / 86400., j - 8);
               if( j >= 6 && !other) vals[(num + f + 11) % 20].push_back( j < 9 ? v * 149597870.7 * (1. - 1.550519768e-8) : v * 149597870.7 / 86400.);
               }
            row += ",12.5,0.9";
            rec += strf( "    <obsTime>\1%.9f\1</obsTime>\n    <ra>%.9f</ra>\n    <dec>%.9f</dec>\n", epoch + 2455197.5, ra, dec);
            rec += strf( "    <rmsRA>%.5f</rmsRA>\n    <rmsDec>%.5f</rmsDec>\n    <rmsCorr>0.99%03u</rmsCorr>\n    <astCat>Gaia3</astCat>\n", e1 / 1000., e2 / 1000., corr);
            if( mags)
               {
               double mag = w.chance( 1, 10) ? r01( w) : 10. + 10. * r01( w), flux = 1000. * (1. + r01( w)), err = 100. * r01( w);
               if( w.chance( 1, 4)) row += ",,,,x";
               else
                  {
                  std::string m = strf( "%.6f", mag).substr( 0, 5 + w.choose( 5));
                  row += "," + m + strf( ",%.6f,%.6f,x", flux, err);
                  rec += "    <mag>" + m + strf( "</mag>\n    <rmsMag>%.3f</rmsMag>\n    <band>G</band>\n    <photCat>Gaia2</photCat>\n", err / flux / log( 2.512));
                  }
               }
            t += in_order( row);
            rec += "   </optical>\n";
            if( !other) { k += strf( "<ra>%.9f</ra>|", ra); blocks[(num + f + 11) % 20] += rec; }
            }
         int fn = (num + f + 11) % 20;
         std::string &tt = c.files[strf( "SsoObservation_%02d.csv", fn)];
         tt += t;
         order[fn] += k;
         }
      for( auto &o : order)
         for( size_t p = 0, e; (e = o.second.find( '|', p)) != std::string::npos; p = e + 1) c.keys.push_back( o.second.substr( p, e - p));
      for( auto &o : vals) c.values.insert( c.values.end( ), o.second.begin( ), o.second.end( ));
      c.extract = []( const std::string &out) {
         std::vector<double> r;
         for( auto &l : split_lines( out))
            if( l.find( "<pos") != std::string::npos || l.find( "<vel") != std::string::npos) r.push_back( atof( l.c_str( ) + l.find( '>') + 1));
         return r; };
      c.keys.push_back( "</ades>");
      c.full = "<?xml version=\"1.0\"?>\n<ades version=\"2022\">\n  <obsBlock>\n";
      for( auto &b : blocks) c.full += b.second;
      c.full += "  </obsBlock>\n</ades>\n";
      }
   else if( which == 1)
      {
      c.so = "mms";
      int freq = (int)pick( w, { 72, 1, 2, 5 }), n = freq == 72 ? 150 + (int)w.choose( 30) : (int)w.choose( 30);
      const int mms = 1 + (int)w.choose( 4), day0 = 22000 + (int)w.choose( 2000);
      std::string body;
      const double t0 = n ? day0 + 2436204.5 + 32.184 / 86400. : 0.;       /* TAI to TT */
      t = "Spacecraft = MMS" + strf( "%d\n", mms) + "Epoch (UTC)   Epoch (TAI)  X Y Z VX VY VZ\n";
      for( int i = 0; i < n; i++)
         {
         std::string l = strf( "2019-155/%02d:%02d:00.000  %.10f", i / 30 % 24, i * 2 % 60, day0 + i / 720.);
         l.resize( 44, ' ');
         for( int j = 0; j < 6; j++) l += strf( " %22.12f", 20000. * r01( w) - 10000.);
         l.resize( 200, ' ');
         t += l + "\n";
         if( i % freq == 0) { c.keys.push_back( l.substr( 46, 60)); body += strf( "%.6f ", t0 + i / 720.) + l.substr( 44, 140) + "\n"; }
         }
      c.full = strf( "%.6f %.6f %d 0,149597870.7,86400 (500) Geocentric: MMS%d = 2015-011%c\n", t0, freq / 720., (n + freq - 1) / freq, mms, 'A' + mms - 1) + body;
      c.full += strf( "\nCreated from 'mms.cpp' (q.v.)\nEphemeris start: \1%.9f\1\nEphemeris end:   \1%.9f\1\n", t0, t0 + ((n + freq - 1) / freq - 1) * freq / 720.);
      if( !n) c.full.clear( );
      c.keys.push_back( "Ephemeris end:");
      c.files["mms.v00"] = t;
      c.args = { "mms", "mms.v00" };
      if( w.chance( 2, 3)) { c.out = "mms.eph"; c.args.push_back( "mms.eph"); }
      if( freq != 72 || w.chance( 1, 2))
         {
         if( w.chance( 1, 3)) { c.args.push_back( "-f"); c.args.push_back( strf( "%d", freq)); }
         else c.args.push_back( strf( "-f%d", freq));
         }
      }
   else if( which == 2)
      {
      c.so = "themis";
      int freq = (int)pick( w, { 144, 1, 2, 10 }), n = freq == 144 ? 290 + (int)w.choose( 30) : 1 + (int)w.choose( 30);
      const int ids[] = { 30580, 30581, 30582, 30797, 30798 };
      u32 sc = w.choose( 5);
      int start = (int)w.choose( 5000), len = 1 + (int)w.choose( 40), ty, tm, td, stop_h = w.chance( 1, 2) ? 0 : (int)w.choose( 24);
      const double t0 = day_number( 2008, 1, 1) + start - .5;
      auto iso = [&]( int d) { day_date( day_number( 2008, 1, 1) + d, &ty, &tm, &td); return strf( "%04d-%02d-%02d", ty, tm, td); };
      std::string body;
      t = "CCSDS_OEM_VERS       = 1.0\n" + strf( "OBJECT_ID            = %d\n", ids[sc]) + "START_TIME           = " + iso( start) + "T00:00:00\nSTOP_TIME            = " + iso( start + len) + strf( "T%02d:00:00\n", stop_h);
      for( int i = 0; i < n; i++)
         {
         std::string l = iso( start) + strf( "T%02d:%02d:00.000", i / 60 % 24, i % 60);
         l.resize( 24, ' ');
         for( int j = 0; j < 6; j++) l += strf( " %18.9f", 20000. * r01( w) - 10000.);
         t += l + "\n";
         if( w.chance( 1, 30)) t += w.chance( 1, 2) ? "\n" : w.chance( 1, 2) ? "COMMENT manoeuvre\n" : "\r\n";
         if( i % freq == 0) { c.keys.push_back( l.substr( 24)); body += strf( "%f ", t0 + i / 1440.) + l.substr( 24) + "\n"; }
         }
      c.full = strf( "%f %f %d -1,149597870.7,86400 (500) Geocentric: NORAD %d = 2007-004%c = THEMIS %c\n", t0, freq / 1440., (n + freq - 1) / freq, ids[sc], "ABCDE"[sc], "ABCDE"[sc]) + body;
      c.full += strf( "\nCreated from 'themis.cpp' (q.v.)\nEphemeris start: \1%.9f\1\nEphemeris end:   \1%.9f\1\n", t0, t0 + len + stop_h / 24.);
      c.keys.push_back( "Ephemeris end:");
      c.files["tha.oem"] = t;
      c.args = { "themis", "tha.oem" };
      if( freq != 144 || w.chance( 1, 2)) c.args.push_back( strf( w.chance( 1, 3) ? "-f|%d" : "-f%d", freq));
      if( w.chance( 2, 3)) { c.out = "tha.eph"; c.args.push_back( w.chance( 1, 3) ? "-o|tha.eph" : "-otha.eph"); }
      if( w.chance( 1, 3) && c.args.size( ) == 4) std::swap( c.args[2], c.args[3]);
      for( size_t j = 2; j < c.args.size( ); j++)
         {
         size_t at = c.args[j].find( '|');
         if( at == std::string::npos) continue;
         std::string v = c.args[j].substr( at + 1);
         c.args[j].resize( at);
         c.args.insert( c.args.begin( ) + j + 1, v);
         }
      }
   else
      {
      c.so = "jpl2b32";
      int n = (int)w.choose( 40), sat = 901 + (int)w.choose( 9);
      t = "*****\n$$SOE\n";
      const double j0 = w.chance( 1, 2) ? 2454858.5 + (int)w.choose( 2000) : 2000000.5 + (int)w.choose( 999000), step = 1 + (int)w.choose( 4);
      double big = 0.;
      for( int i = 0; i < n; i++)
         {
         double v[3];
         for( double &x : v) c.values.push_back( x = r01( w) - .5), big = std::max( big, fabs( x));
         t += strf( "%.9f = A.D. 2009-Jan-%02d 00:00:00.0000 (CT)\n %22.15E%23.15E%23.15E\n", j0 + step * i, 1 + i % 28, v[0], v[1], v[2]);
         if( w.chance( 1, 4)) t += " VX= 2454858.500000000 0.1 0.2\n";
         if( w.chance( 1, 6)) t += strf( "%.9f = A.D. 2009-Jan-%02d 12:00:00.0000 (CT)\n %22.15E%23.15E%23.15E\n", j0 + step * i + .5, 1 + i % 28, 7., 8., 9.);
         }
      if( n > 1) c.b32 = { (double)sat, j0, step, (double)n, big / 1.5e+9, 128. + 12. * n };
      c.extract = [n]( const std::string &out) {
         std::vector<double> r;
         double scale = 0.;
         sscanf( out.c_str( ), "%*s %*s %*s %*s %*s %*s %lf", &scale);
         for( int i = 0; i < 3 * n && 128 + 4 * i + 4 <= (int)out.size( ); i++) { int32_t x; memcpy( &x, out.data( ) + 128 + 4 * i, 4); r.push_back( x * scale); }
         return r; };
      t += "$$EOE\n";
      c.files[strf( "%d.txt", sat)] = t;
      c.args = { "jpl2b32", strf( "%d.txt", sat) };
      c.out = strf( "%d.b32", sat);
      c.keys = { strf( "128 %d", sat), "Ephemeris converted " };
      }
   return c;
}
/* Compares an output with the one expected,  in which numbers count as equal if they differ by no more than one
and a half units of the last expected digit,  and \1JD\1 stands for a date and time.  Returns the first difference. */
bool read_date( const char *&p, double *jd)
{
   int y, mo, d, h, mi, n = 0;
   double sec;
   char mon[4];
   if( sscanf( p, "%4d-%2d-%2dT%2d:%2d:%lfZ%n", &y, &mo, &d, &h, &mi, &sec, &n) == 6 && n) ;
   else if( n = 0, sscanf( p, "%d %3[A-Za-z] %d %d:%d:%lf%n", &d, mon, &y, &h, &mi, &sec, &n) == 6 && n)
      {
      const char *m = strstr( "JanFebMarAprMayJunJulAugSepOctNovDec", mon);
      if( !m || strlen( mon) != 3) return false;
      mo = 1 + (int)( m - "JanFebMarAprMayJunJulAugSepOctNovDec") / 3;
      const char *m0 = "JanFebMarAprMayJunJulAugSepOctNovDec";
      for( mo = 1; mo <= 12 && memcmp( m0 + 3 * (mo - 1), mon, 3); mo++) ;
      if( mo > 12) return false;
      }
   else return false;
   *jd = (double)day_number( y, mo, d) - .5 + h / 24. + mi / 1440. + sec / 86400.;
   p += n;
   return true;
}
std::string same_text( const std::string &got, const std::string &want)
{
   const char *g = got.c_str( ), *w = want.c_str( );
   int line = 1;
   auto diff = [&]( ) {
      const char *a = g, *b = w;
      while( a > got.c_str( ) && a[-1] != '\n') a--;
      while( b > want.c_str( ) && b[-1] != '\n') b--;
      return strf( "line %d is '%s', expected '%s'", line, std::string( a, strcspn( a, "\n")).c_str( ), std::string( b, strcspn( b, "\n")).c_str( ));
      };
   while( *w)
      {
      if( *w == 1)
         {
         char *e;
         double jd = strtod( w + 1, &e), have;
         const char *g0 = g;
         if( !read_date( g, &have) || fabs( have - jd) > (g0[4] == '-' ? .0021 : 1.1) / 86400.) { g = g0; return diff( ); }
         w = e + 1;
         continue;
         }
      if( isdigit( (unsigned char)*w) && isdigit( (unsigned char)*g))
         {
         char *ew, *eg;
         bool word = w > want.c_str( ) && isalpha( (unsigned char)w[-1]);          /* 'THEMIS2',  'pos1' */
         double a = strtod( w, &ew), b = strtod( g, &eg);
         size_t places = 0, intl = strspn( w, "0123456789");
         if( w[intl] == '.') places = strspn( w + intl + 1, "0123456789");
         if( word || !places)
            {
            if( std::string( w, intl) != std::string( g, strspn( g, "0123456789"))) return diff( );
            w += intl; g += intl;
            continue;
            }
         if( fabs( a - b) > 1.5 * pow( 10., -(double)places) + 1e-12 * fabs( a) || eg - g != ew - w) return diff( );
         w = ew; g = eg;
         continue;
         }
      if( *w != *g) return diff( );
      if( *w == '\n') line++;
      w++; g++;
      }
   if( *g) return diff( );
   return "";
}
std::string mask_conv( std::string s)      /* the date of conversion */
{
   size_t k = s.find( "Ephemeris converted ");
   if( k != std::string::npos && k + 44 <= s.size( )) s.replace( k + 20, 24, 24, 'x');
   return s;
}
std::string result_of( Sim &sim, Proc *p, const Conv &c)
{
   if( c.out.empty( )) return p->out;
   std::string path = "/work/" + c.out;
   return sim.fs.exists( path) ? mask_conv( sim.fs.get( path)) : "<no output file>";
}
void run_conv( Sim &sim, const Conv &c)
{
   Tape &w = sim.w;
   std::string want;
   {
   RefWorld ref;
   Sim &rs = ref.sim;
   for( auto &f : c.files) rs.fs.put( "/work/" + f.first, f.second);
   Module *m = get_module( c.so, 0);
   m->restore( );
   Proc *p = rs.spawn( "ref", m, program( m, c.args));
   rs.run( );
   bool ok = p->clean( ) && !p->mem_error;
   want = result_of( rs, p, c);
   std::string d = p->describe( ) + p->mem_note + " " + p->err.substr( 0, 200);
   ref.leave( );
   if( !ok) { sim.violate( "fails-undisturbed", std::string( c.so) + ": " + d); return; }
   }
   size_t pos = 0;
   for( auto &k : c.keys)
      {
      size_t q = want.find( k, pos);
      if( q == std::string::npos) { sim.violate( "record-missing", std::string( c.so) + ": '" + k + "' missing or out of order"); return; }
      pos = q + k.size( );
      }
   if( c.n_records >= 0)
      {
      std::vector<std::string> l = split_lines( want);
      if( (int)l.size( ) != c.n_records + 1) { sim.violate( "wrong-count", strf( "%zu lines for %d objects", l.size( ), c.n_records)); return; }
      for( size_t i = 0; i < l.size( ); i++)
         if( l[i].size( ) != l[0].size( ) || l[i].compare( 0, c.keys[i].size( ), c.keys[i])) { sim.violate( "wrong-record", strf( "record %zu, expected '%s': ", i, c.keys[i].c_str( )) + l[i]); return; }
      }
   if( c.full.size( ))
      {
      std::string d = same_text( want, c.full);
      if( d.size( )) { sim.violate( "wrong-output", std::string( c.so) + ": " + d); return; }
      }
   if( c.b32.size( ))
      {
      double h[9] = { 0. };
      int n = sscanf( want.c_str( ), "%lf %lf %lf %lf %lf %lf %lf %lf %lf", h, h + 1, h + 2, h + 3, h + 4, h + 5, h + 6, h + 7, h + 8);
      const double e[9] = { 128., c.b32[0], c.b32[1], c.b32[2], c.b32[3], 6., c.b32[4], 32., 0. };
      for( int i = 0; i < 9; i++)
         if( n != 9 || !(fabs( h[i] - e[i]) <= (i == 6 ? 1e-5 * e[i] : 1e-7)))
            { sim.violate( "wrong-header", strf( "%s: number %d is %.9g, expected %.9g", c.so, i, h[i], e[i])); return; }
      if( want.size( ) <= c.b32[5] || want.compare( (size_t)c.b32[5], 14, "Ephemeris from"))
         { sim.violate( "wrong-output", std::string( c.so) + ": no text after the data"); return; }
      }
   if( !c.orbs.empty( ))
      {
      std::vector<std::string> l = split_lines( want);
      for( size_t i = 0; i < c.orbs.size( ) && i + 1 < l.size( ); i++)
         {
         const Conv::Orb &o = c.orbs[i];
         std::string r = l[i + 1];
         int y = 0, m = 0;
         double d = 0.;
         if( sscanf( r.c_str( ) + 13, "%4d%2d%lf", &y, &m, &d) != 3) { sim.violate( "wrong-record", "no perihelion time: " + r); return; }
         double tp = day_number( y, m, 1) + d - 1.5, dt = tp - o.tp;
         if( !(fabs( dt) < 1e-5)) { sim.violate( "wrong-value", strf( "perihelion time off by %.7f days: ", dt) + r); return; }
         if( r.compare( 30, 8, o.te)) { sim.violate( "wrong-value", "epoch should be " + o.te + ": " + r); return; }
         std::string tail = r.substr( r.size( ) < 95 ? r.size( ) : 95);
         while( !tail.empty( ) && tail[tail.size( ) - 1] == ' ') tail.pop_back( );
         std::string wt = o.tail;
         while( !wt.empty( ) && wt[wt.size( ) - 1] == ' ') wt.pop_back( );
         if( tail.find_first_not_of( ' ') != std::string::npos) tail = tail.substr( tail.find_first_not_of( ' '));
         if( tail != wt) { sim.violate( "wrong-value", "end of the record should be '" + wt + "': " + r); return; }
         }
      }
   if( c.extract)
      {
      std::vector<double> got = c.extract( want);
      if( got.size( ) != c.values.size( )) { sim.violate( "wrong-count", strf( "%s: %zu numbers, expected %zu", c.so, got.size( ), c.values.size( ))); return; }
      for( size_t i = 0; i < got.size( ); i++)
         if( fabs( got[i] - c.values[i]) > 1e-5 * fabs( c.values[i]) + 6e-5) { sim.violate( "wrong-value", strf( "%s: number %zu is %.9g, expected %.9g", c.so, i, got[i], c.values[i])); return; }
      }
   sim.stdio_buf = pick( w, { 4096, 1024, 128, 16384 });
   for( auto &f : c.files) sim.fs.put( "/work/" + f.first, f.second);
   int rounds = 1 + (int)w.choose( 3);
   sim.sample = strf( "%s, %d rounds", c.so, rounds);
   for( int r = 0; r < rounds; r++)
      {
      if( r == rounds - 1 && rounds > 1) no_faults( sim);
      else
         {
         some_faults( sim);
         if( w.chance( 1, 4)) sim.fs.quota = (long)w.choose( 4000);
         if( w.chance( 1, 4)) { sim.fault.kill = 20000; sim.fault.kill_budget = 1; }
         }
      /* an input file may be missing,  or a Horizons ephemeris end behind a date line:  has to be reported */
      std::string lost, kept;
      if( w.chance( 1, 6))
         {
         auto it = c.files.begin( );
         std::advance( it, w.choose( (u32)c.files.size( )));
         lost = "/work/" + it->first; kept = it->second;
         size_t cut = std::string::npos;
         if( std::string( c.so) == "jpl2b32" && w.chance( 1, 2))
            {
            std::vector<size_t> ends;
            for( size_t k = 0; (k = kept.find( " 00:00:00.0000 (CT)\n", k)) != std::string::npos; k += 20) ends.push_back( k + 20);
            if( ends.size( )) cut = ends[w.choose( (u32)ends.size( ))];
            }
         if( cut != std::string::npos) { sim.fs.put( lost, kept.substr( 0, cut)); sim.count( "fault.truncated_file"); }
         else { sim.fs.files.erase( lost); sim.count( "fault.missing_file"); }
         sim.sample += "; without " + it->first;
         }
      Module *m = get_module( c.so, r + 1);
      m->restore( );
      Proc *p = sim.spawn( strf( "%s#%d", c.so, r), m, program( m, c.args));
      sim.run( );
      if( lost.size( )) sim.fs.put( lost, kept);
      if( p->end == END_KILLED) { sim.count( "probe.killed"); continue; }
      if( p->mem_error) sim.violate( "memory", p->mem_note);
      if( p->end != END_EXIT) { sim.violate( "crash", p->describe( ) + " " + p->err.substr( 0, 200)); return; }
      if( p->code)
         {
         if( lost.size( )) sim.count( "probe.reported_lost_input");
         else if( !p->n_hard_faults) sim.violate( "failed-without-cause", p->describe( ) + " " + p->err.substr( 0, 200));
         else sim.count( "probe.reported_failure");
         continue;
         }
      std::string got = result_of( sim, p, c);
      if( lost.size( )) { sim.violate( "incomplete-output", std::string( c.so) + " reported success without " + lost); return; }
      if( got != want) { sim.violate( "incomplete-output", std::string( c.so) + " reported success: " + first_diff( want, got)); return; }
      sim.count( p->n_hard_faults ? "probe.success_despite_fault" : "probe.success");
      sim.fs.quota = -1;
      }
   if( sim.step_limit_hit) sim.violate( "no-progress", "still running after the step limit");
   sim.nontrivial = true;
}
}  // namespace

SCENARIO( P17, orbits, 1)
{
   bool big = sim.w.chance( 1, 10);
   run_conv( sim, make_mpc2sof( sim.w, big));
}
SCENARIO( P18, gaia, 1) { run_conv( sim, make_other( sim.w, 0)); }
SCENARIO( P18, mms, 1) { run_conv( sim, make_other( sim.w, 1)); }
SCENARIO( P18, themis, 1) { run_conv( sim, make_other( sim.w, 2)); }
SCENARIO( P18, jpl, 1) { run_conv( sim, make_other( sim.w, 3)); }
