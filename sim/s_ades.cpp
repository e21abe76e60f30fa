/* Reading of astrometry:  80-column records,  Tholen sigmas,  ADES PSV and XML
in any mixture (P19) */
#include "util.h"
#include <math.h>
#include "watdefs.h"
#include "mpc_func.h"
extern "C" { FILE *sim_fopen( const char *, const char *); }

namespace {
#define F( name) ((decltype( &name))m->sym( #name))
typedef std::vector<std::string> Lines;
struct Tag { std::string name, value; };
typedef std::vector<Tag> Obs;

const char *codes[] = { "703", "F51", "C51", "247", "W84", "250", "500" };
struct Desig { const char *tag, *name, *packed; };
const Desig desigs[] = {
   { "permID", "433", "00433       " }, { "permID", "99942", "99942       " }, { "permID", "123456", "C3456       " },
   { "permID", "1P", "0001P       " }, { "permID", "619999", "z9999       " }, { "provID", "1995 XA", "     J95X00A" },
   { "provID", "2007 TA418", "     K07Tf8A" }, { "provID", "2019 SH3", "     K19S03H" }, { "provID", "C/2019 Y4", "    CK19Y040" },
   { "provID", "P/2010 A2", "    PK10A020" } };

std::string dec_num( Tape &w, double lo, double hi, int places)
{
   double v = lo + (hi - lo) * w.choose( 1000000) / 1e6;
   return strf( "%.*f", places, v);
}
std::string get( const Obs &o, const char *name)
{
   for( auto &t : o) if( t.name == name) return t.value;
   return "";
}

/* what place_value( ) documents:  at most eight bytes from the point on are
copied;  longer values are rounded to eight places */
bool place( std::string &line, size_t at, const std::string &v, size_t lead)
{
   size_t point = v.find( '.');
   if( point == std::string::npos) point = v.size( );
   std::string s;
   bool overlong = v.size( ) - point > 8;
   if( overlong) s = lead == 2 ? strf( "%11.8f ", atof( v.c_str( ))) : strf( "%12.8f", atof( v.c_str( )));
   else s = std::string( lead - point, '0') + v;
   line.replace( at, s.size( ), s);
   return overlong;
}
double days_2k( const std::string &t)
{
   int y, mo, d, h, mi;
   double s;
   if( sscanf( t.c_str( ), "%d-%d-%dT%d:%d:%lfZ", &y, &mo, &d, &h, &mi, &s) != 6) return -1e9;
   int a = (14 - mo) / 12, yy = y + 4800 - a, mm = mo + 12 * a - 3;
   long jdn = d + (153 * mm + 2) / 5 + 365L * yy + yy / 4 - yy / 100 + yy / 400 - 32045;
   return (double)( jdn - 2451545) - .5 + (h + (mi + s / 60.) / 60.) / 24.;
}
/* The lines one observation is to be turned into.  "@T<number>" stands for a
number which is compared numerically. */
Lines expected( const Obs &o)
{
   std::string line( 80, ' '), line2( 80, ' '), full_ra, full_dec, full_mag, full_t, band, prog, notes;
   bool two = false, perm = false, any_id = false;
   int center = 399;
   double vel[3] = { 0., 0., 0. };
   for( auto &t : o)
      {
      const std::string &n = t.name, &v = t.value;
      if( v.empty( )) continue;
      if( n == "permID" || n == "provID")
         {
         if( n == "provID" && perm) continue;
         for( auto &d : desigs) if( v == d.name) line.replace( 0, 12, d.packed);
         any_id = true;
         perm = n == "permID";
         }
      else if( n == "artSat") { if( !any_id) { any_id = true; line.replace( 0, v.size( ), v); } }
      else if( n == "trkSub") { if( !any_id) { any_id = true; line.replace( v.size( ) < 8 ? 5 : 12 - v.size( ), v.size( ), v); } }
      else if( n == "stn") line.replace( 77, 3, v);
      else if( n == "obsTime")
         {
         std::string p;
         int year = atoi( v.c_str( ));
         p += year < 2000 ? 'J' : year < 2100 ? 'K' : 'L';
         for( size_t i = 2; i < v.size( ); i++)
            {
            if( isdigit( v[i])) p += v[i];
            if( v[i] == 'T') p += ':';
            }
         if( p.size( ) > 17 || year > 2099) full_t = v;
         if( year > 2099) p[0] = 'K';
         if( p.size( ) > 17) p.resize( 17);
         line.replace( 15, p.size( ), p);
         }
      else if( n == "ra") { std::string u = v[0] == '+' ? v.substr( 1) : v; if( place( line, 32, u, 3)) full_ra = u; }
      else if( n == "dec")
         {
         bool sign = v[0] == '-' || v[0] == '+';
         std::string u = sign ? v.substr( 1) : v;
         line[44] = sign ? v[0] : '+';
         if( place( line, 45, u, 2)) full_dec = line[44] + u;
         }
      else if( n == "mag") { line.replace( 65, std::min<size_t>( 5, v.size( )), v.substr( 0, 5)); if( v.size( ) > 5) full_mag = v; }
      else if( n == "band")
         {
         char c = v[0];
         if( v.size( ) > 1 && ((strchr( "PS", c) && strchr( "grizwy", v[1])) || (c == 'A' && strchr( "oc", v[1])) || (c == 'G' && strchr( "br", v[1])))) c = v[1];
         line[70] = c;
         if( v.size( ) > 1) band = v;
         }
      else if( n == "mode") { const char *p = strstr( "CCCD BCMO nVID PPHO eENC pPMT MMIC TMER CTDI EOCC ?UNK ", (v + " ").c_str( )); line[14] = p[-1] == ' ' ? ' ' : p[-1]; if( v == "MIC") line[14] = 'M'; }
      else if( n == "disc") line[12] = v[0];
      else if( n == "notes") { notes = v; line[13] = v[0]; }
      else if( n == "prog") { prog = v; line[13] = "0123456789!\"#$%&'()*+,-./[\\]^_`{|}~"[atoi( v.c_str( ))]; }
      else if( n == "astCat") line[71] = v == "Gaia2" ? 'V' : v == "UCAC4" ? 'q' : v == "2MASS" ? 'L' : '?';
      else if( n == "ref") line.replace( 72, 5, v == "MPEC 2021-D85" ? "ED085" : v == "MPS 12345" ? "b2345" : v == "MPC 12345" ? "12345" : v == "MPEC 2021-Q123" ? "EQ123" : v == "MPS 260061" ? "~000z" : "@0001");
      else if( n == "sys") { two = true; line2[14] = v == "WGS84" ? 'v' : 's'; line2[32] = v == "ICRF_AU" ? '2' : '1'; line[14] = v == "WGS84" ? 'V' : 'S'; }
      else if( n == "ctr") center = atoi( v.c_str( ));
      else if( n.substr( 0, 3) == "vel") vel[n[3] - '1'] = atof( v.c_str( ));
      else if( n.substr( 0, 3) == "pos")
         {
         int k = n[3] - '1';
         std::string u = v;
         if( line[14] == 'S')
            {
            size_t at = 34 + k * 12;
            if( u.find( 'e') != std::string::npos) u = strf( "%.13f", atof( u.c_str( )));
            if( u[0] != '+' && u[0] != '-') u = "+" + u;
            if( u.find( '.') == std::string::npos) u += ".";
            size_t pt = u.find( '.'), dot;
            if( line2[32] == '1') dot = at + 6 + (pt >= 7) + (pt >= 8);
            else dot = at + 2 + (pt == 3);
            line2[at] = u[0];
            std::string digits = u.substr( 1, 10);
            line2.replace( dot - pt + 1, digits.size( ), digits);
            }
         else if( k == 0)
            {
            size_t at = 37 - std::min( u.find( '.'), u.size( ));
            if( u.size( ) > 44 - at) u.resize( 44 - at);
            line2.replace( at, u.size( ), u);
            }
         else if( k == 1)
            {
            bool sign = u[0] == '-' || u[0] == '+';
            line2[45] = sign ? u[0] : '+';
            if( sign) u = u.substr( 1);
            size_t at = 48 - std::min( u.find( '.'), u.size( ));
            if( u.size( ) > 55 - at) u.resize( 55 - at);
            line2.replace( at, u.size( ), u);
            }
         else line2.replace( 61 - u.size( ), u.size( ), u);
         }
      }
   Lines r;
   std::string rra = get( o, "rmsRA"), rdec = get( o, "rmsDec"), rc = get( o, "rmsCorr"), rm = get( o, "rmsMag"), rt = get( o, "rmsTime");
   if( !rra.empty( ))
      {
      std::string s = "COM Sigmas " + rra;
      if( rra != rdec)
         {
         s += "x" + rdec;
         if( !rc.empty( ) && atof( rc.c_str( ))) s += "," + rc;
         }
      if( !rm.empty( )) s += " m:" + rm;
      if( !rt.empty( )) s += " t:" + rt;
      r.push_back( s);
      }
   std::string ids;
   for( const char *n : { "trkSub", "obsID", "trkID"}) if( !get( o, n).empty( )) ids += std::string( " ") + n + ":" + get( o, n);
   if( !ids.empty( )) r.push_back( "COM IDs" + ids);
   if( !full_ra.empty( ) || !full_dec.empty( ) || !full_t.empty( ))
      r.push_back( "COM RA/dec " + (full_ra.empty( ) ? "-" : full_ra) + " " + (full_dec.empty( ) ? "-" : full_dec) + (full_t.empty( ) ? "" : strf( " @T%.15f", days_2k( full_t))));
   if( !full_mag.empty( )) r.push_back( "COM full mag " + full_mag);
   if( !band.empty( ) || !notes.empty( ) || !prog.empty( ))
      r.push_back( "COM ADES tags" + (band.empty( ) ? "" : " band:" + band) + (notes.empty( ) ? "" : " notes:" + notes) + (prog.empty( ) ? "" : " progcode:" + prog));
   if( vel[0] || vel[1] || vel[2])
      {
      double k = line2[32] == '2' ? 1.495978707e+8 / 86400. : 1.;
      r.push_back( strf( "COM vel (km/s) %s  @V%.7f,%.7f,%.7f@%s", line.substr( 15, 14).c_str( ), vel[0] * k, vel[1] * k, vel[2] * k, line.substr( 77).c_str( )));
      }
   r.push_back( line);
   if( two)
      {
      line2.replace( 0, 12, line.substr( 0, 12));
      line2.replace( 15, 17, line.substr( 15, 17));
      if( center != 399) line2.replace( 69, 8, strf( "%8d", center));
      line2.replace( 77, 3, line.substr( 77, 3));
      r.push_back( line2);
      }
   return r;
}
bool same_line( const std::string &want, const std::string &got)
{
   size_t k = want.find( "@T"), v = want.find( "@V");
   if( k != std::string::npos && want.substr( 0, 4) == "COM ")
      return got.size( ) > k && got.substr( 0, k) == want.substr( 0, k) && fabs( atof( got.c_str( ) + k) - atof( want.c_str( ) + k + 2)) < 2e-10;
   if( v != std::string::npos && want.substr( 0, 7) == "COM vel")
      {
      double a[3], b[3];
      char tail[10], tail2[10];
      if( got.size( ) < v || got.substr( 0, v) != want.substr( 0, v)) return false;
      if( sscanf( want.c_str( ) + v, "@V%lf,%lf,%lf@%9s", a, a + 1, a + 2, tail) != 4) return false;
      /* the numbers may touch each other:  fixed width */
      std::string g = got.substr( v);
      if( g.size( ) < 43) return false;
      for( int i = 0; i < 3; i++) b[i] = atof( g.substr( i * 13, 13).c_str( ));
      if( sscanf( g.c_str( ) + 39, "%9s", tail2) != 1) return false;
      for( int i = 0; i < 3; i++) if( fabs( a[i] - b[i]) > 2e-7 + 1e-8 * fabs( a[i])) return false;
      return !strcmp( tail, tail2);
      }
   return want == got;
}

Obs random_obs( Tape &w, const char *want_cols)
{
   Obs o;
   (void)want_cols;
   int id = (int)w.choose( 8);
   if( id != 6 && id != 7) { const Desig &d = desigs[w.choose( 10)]; o.push_back( { d.tag, d.name }); }
   if( id == 5) { const Desig &d = desigs[w.choose( 10)]; if( o[0].name != d.tag) o.push_back( { d.tag, d.name }); }
   if( id == 6) o.push_back( { "artSat", strf( "A%05u", w.choose( 100000)) });
   if( id == 7 || w.chance( 1, 4)) o.push_back( { "trkSub", strf( "%.*s%u", (int)w.choose( 6), "TRKZQ", w.choose( 100000)) });
   if( w.chance( 1, 5)) o.push_back( { "obsID", strf( "Lxxx%u", w.choose( 1000000)) });
   if( w.chance( 1, 5)) o.push_back( { "trkID", strf( "0000%u", w.choose( 1000000)) });
   int where = (int)w.choose( 8);       /* 5,6: spacecraft,  7: roving */
   static const char *modes[] = { "CCD", "CMO", "VID", "PHO", "ENC", "PMT", "MIC", "MER", "TDI", "OCC", "UNK" };
   o.push_back( { "mode", modes[w.choose( 11)] });
   o.push_back( { "stn", where >= 7 ? "247" : where >= 5 ? "C51" : codes[w.choose( 7)] });
   if( where >= 5)
      {
      bool au = where == 6 && w.chance( 1, 2);
      o.push_back( { "sys", where == 7 ? "WGS84" : au ? "ICRF_AU" : "ICRF_KM" });
      if( w.chance( 1, 2) && where < 7) o.push_back( { "ctr", w.chance( 1, 2) ? "399" : "10" });
      for( int i = 0; i < 3; i++)
         {
         std::string v;
         if( where == 7) v = i == 0 ? dec_num( w, 0., 359., (int)w.choose( 12)) : i == 1 ? dec_num( w, -89., 89., (int)w.choose( 12)) : strf( "%u", w.choose( 5000));
         else if( au) v = w.chance( 1, 6) ? strf( "%s%.6e", w.chance( 1, 2) ? "-" : "", w.choose( 1000000) * 1e-8) : dec_num( w, -12., 12., (int)w.choose( 13));
         else v = strf( "%s%.*f", w.chance( 1, 2) ? "-" : w.chance( 1, 2) ? "+" : "", (int)w.choose( 6), w.choose( 1000000) * (w.chance( 1, 3) ? 6.7 : w.chance( 1, 2) ? .067 : .5));
         o.push_back( { strf( "pos%d", i + 1), v });
         }
      if( where != 7 && w.chance( 1, 3))
         for( int i = 0; i < 3; i++) o.push_back( { strf( "vel%d", i + 1), dec_num( w, au ? -.02 : -30., au ? .02 : 30., 6) });
      }
   int fd = (int)pick( w, { 0, 1, 2, 3, 3, 4, 6, 9, 11 });
   std::string t = strf( "%u-%02u-%02uT%02u:%02u:%02u", w.chance( 1, 20) ? 2100 + w.choose( 60) : 1950 + w.choose( 140), 1 + w.choose( 12), 1 + w.choose( 28), w.choose( 24), w.choose( 60), w.choose( 60));
   if( fd) { t += "."; for( int i = 0; i < fd; i++) t += (char)( '0' + w.choose( 10)); }
   o.push_back( { "obsTime", t + "Z" });
   o.push_back( { "ra", std::string( w.chance( 1, 10) ? "+" : "") + dec_num( w, 0., 359.9999, (int)w.choose( 12)) });
   std::string d = dec_num( w, -89.9, 89.9, (int)w.choose( 12));
   if( d[0] != '-' && w.chance( 1, 2)) d = "+" + d;
   o.push_back( { "dec", d });
   if( w.chance( 2, 3))
      {
      std::string s = dec_num( w, 0., 2., 1 + (int)w.choose( 4));
      o.push_back( { "rmsRA", s });
      o.push_back( { "rmsDec", w.chance( 1, 3) ? s : dec_num( w, 0., 2., 3) });
      if( w.chance( 1, 2)) o.push_back( { "rmsCorr", w.chance( 1, 6) ? "0.0" : dec_num( w, -1., 1., 3) });
      }
   else if( w.chance( 1, 6)) o.push_back( { "rmsDec", dec_num( w, 0., 2., 3) });
   if( w.chance( 1, 2)) o.push_back( { "astCat", pick( w, { 0, 1 }) ? "Gaia2" : w.chance( 1, 2) ? "UCAC4" : w.chance( 1, 2) ? "2MASS" : "NoSuchCat" });
   if( w.chance( 3, 4))
      {
      o.push_back( { "mag", dec_num( w, 5., 25., (int)w.choose( 5)) });
      if( w.chance( 1, 3)) o.push_back( { "rmsMag", dec_num( w, 0., 1., 2) });
      static const char *bands[] = { "G", "V", "R", "Pw", "Sr", "Ao", "Ac", "Gb", "Gr", "UNK", "Pz", "c" };
      o.push_back( { "band", bands[w.choose( 12)] });
      }
   else if( w.chance( 1, 4)) o.push_back( { "rmsMag", dec_num( w, 0., 1., 2) });
   if( w.chance( 1, 5)) o.push_back( { "rmsTime", dec_num( w, 0., 9., 2) });
   if( w.chance( 1, 8)) o.push_back( { "notes", w.chance( 1, 2) ? "K" : "Kf" });
   if( w.chance( 1, 8)) o.push_back( { "prog", strf( "%02u", w.choose( 34)) });
   if( w.chance( 1, 8)) o.push_back( { "disc", "*" });
   static const char *refs[] = { "MPEC 2021-D85", "MPS 12345", "MPC 12345", "MPEC 2021-Q123", "MPC 100001", "MPS 260061" };
   if( w.chance( 1, 6)) o.push_back( { "ref", refs[w.choose( 6)] });
   return o;
}

struct Item { std::string text; Lines want; bool soft_end = false; bool is_obs = false; };   /* soft_end: a cut within its last field can't be noticed */

std::string spaces( Tape &w) { return std::string( w.choose( 4), ' '); }

void add_psv( Tape &w, std::vector<Item> &items)
{
   static const char *head[] = { "# version=2017", "# observatory", "! mpcCode 703", "! name Some Place", "# observers", "! name J. Doe", "! name A. N. Other", "# measurers", "! name M. Easurer", "# submitter", "! name S. Ender", "# comment", "! line Remarks are here" };
   static const char *out[] = { "# version=2017", "", "COD 703", "COM Observatory name Some Place", "", "OBS J. Doe", "OBS A. N. Other", "", "MEA M. Easurer", "", "CON S. Ender", "", "COM Remarks are here" };
   if( w.chance( 1, 2))
      for( int i = w.chance( 1, 2) ? 0 : 1; i < 13; i++)
         {
         Item it;
         it.text = head[i];
         if( *out[i]) it.want.push_back( out[i]);
         items.push_back( it);
         }
   int n = 1 + (int)w.choose( 5);
   std::vector<Obs> obs;
   for( int i = 0; i < n; i++) obs.push_back( random_obs( w, ""));
   /* columns:  every tag used,  in a random order which keeps mode < sys < ctr,pos,vel */
   std::vector<std::string> cols;
   for( auto &o : obs) for( auto &t : o)
      {
      bool have = false;
      for( auto &c : cols) if( c == t.name) have = true;
      if( !have) cols.push_back( t.name);
      }
   if( w.chance( 1, 2))
      for( size_t i = cols.size( ) - 1; i > 0; i--) std::swap( cols[i], cols[w.choose( (u32)i + 1)]);
   auto rank = []( const std::string &c) { return c == "mode" ? 0 : c == "sys" ? 1 : c == "ctr" || c.substr( 0, 3) == "pos" || c.substr( 0, 3) == "vel" ? 2 : -1; };
   for( size_t i = 0; i < cols.size( ); i++)
      for( size_t j = i + 1; j < cols.size( ); j++)
         if( rank( cols[i]) >= 0 && rank( cols[j]) >= 0 && rank( cols[j]) < rank( cols[i])) std::swap( cols[i], cols[j]);
   Item h;
   for( auto &c : cols) h.text += (h.text.empty( ) ? "" : "|") + c + spaces( w);
   items.push_back( h);
   for( auto &o : obs)
      {
      Item it;
      Obs ordered;
      for( size_t i = 0; i < cols.size( ); i++)
         {
         std::string v = get( o, cols[i].c_str( ));
         it.text += (i ? "|" : "") + spaces( w) + v + spaces( w);
         ordered.push_back( { cols[i], v });
         }
      it.want = expected( ordered);
      it.soft_end = it.is_obs = true;
      items.push_back( it);
      }
   if( w.chance( 1, 3)) { Item it; it.text = ""; it.want.push_back( ""); items.push_back( it); }
}
void add_xml( Tape &w, std::vector<Item> &items, const char *nl)
{
   auto line = [&]( const std::string &t, const std::string &want = "") { Item it; it.text = t; if( !want.empty( )) it.want.push_back( want); items.push_back( it); };
   std::string ind = spaces( w);
   if( w.chance( 1, 2)) line( "<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>");
   line( "<ades version=\"2017\">");
   line( ind + "<obsBlock>");
   if( w.chance( 1, 2))
      {
      struct H { const char *a, *b, *text, *out; };
      static const H hh[] = { { "observatory", "mpcCode", "703", "COD 703" }, { "observatory", "name", "Some Place", "COM Observatory name Some Place" }, { "submitter", "name", "S. Ender", "CON S. Ender" },
          { "observers", "name", "J. Doe", "OBS J. Doe" }, { "measurers", "name", "M. Easurer", "MEA M. Easurer" }, { "comment", "line", "Remarks are here", "COM Remarks are here" }, { "telescope", "aperture", "0.5", "" } };
      line( ind + "<obsContext>");
      for( auto &x : hh)
         if( w.chance( 2, 3))
            {
            line( ind + "<" + x.a + ">");
            if( w.chance( 1, 3))
               {
               line( ind + "<" + x.b + ">");
               line( ind + x.text, x.out);
               line( ind + "</" + x.b + ">");
               }
            else line( ind + "<" + x.b + ">" + x.text + "</" + x.b + ">", x.out);
            line( ind + "</" + x.a + ">");
            }
      line( ind + "</obsContext>");
      }
   line( ind + "<obsData>");
   int n = 1 + (int)w.choose( 4);
   for( int i = 0; i < n; i++)
      {
      Obs o = random_obs( w, "");
      int style = (int)w.choose( 4);          /* 3: several to a line */
      Item it;
      it.text = ind + "<optical>";
      size_t col = it.text.size( );
      for( auto &t : o)
         {
         std::string s = "<" + t.name + ">" + t.value + "</" + t.name + ">";
         if( style == 2 && w.chance( 1, 4)) s = "<" + t.name + ">" + nl + ind + t.value + nl + "</" + t.name + ">";
         if( style == 3 && col + s.size( ) < 200) col += s.size( );
         else { it.text += nl + ind; col = s.size( ) + ind.size( ); }
         it.text += s;
         if( w.chance( 1, 20)) it.text += std::string( nl) + "<photCat>Gaia2</photCat>";
         }
      if( style != 3 || col > 200 || w.chance( 1, 2)) it.text += nl + ind;
      it.text += "</optical>";
      it.want = expected( o);
      it.is_obs = true;
      items.push_back( it);
      }
   line( "</obsData>");
   line( "</obsBlock>");
   line( "</ades>");
}
void add_old( Tape &w, std::vector<Item> &items)
{
   int n = 1 + (int)w.choose( 3);
   for( int i = 0; i < n; i++)
      {
      Item it;
      std::string rec = strf( "  C2019 09 %02u.%06u00 00 13.041-05 25 38.05         18.6 G      ", 1 + w.choose( 28), w.choose( 1000000));
      switch( w.choose( 4))
         {
         case 0: it.text = "# just some text (not a header)"; it.text[1] = '#'; it.want.push_back( it.text); break;
         case 1: it.text = "     K19S03H" + rec + codes[w.choose( 6)]; it.want.push_back( it.text); break;
         case 2:
            {
            const Desig &d = desigs[5 + w.choose( 3)];
            std::string s1 = strf( "0.%03u", w.choose( 1000)), s2 = w.chance( 1, 3) ? s1 : strf( "0.%03u", w.choose( 1000)), st = codes[w.choose( 6)];
            it.text = strf( "%-12s", d.name) + rec + st + " " + s1 + " " + s2;
            it.want.push_back( "COM Sigmas " + s1 + (s1 == s2 ? "" : "x" + s2));
            it.want.push_back( d.packed + rec + st);
            it.is_obs = true;
            }
            break;
         default: it.text = "COD 703"; it.want.push_back( it.text); break;
         }
      items.push_back( it);
      }
}
struct Stream {
   std::vector<Item> items;
   std::string text;
   std::vector<size_t> ends;
   const char *nl;
   Lines want;                        /* all of it */
   Lines got;
   int rv = 0, err = 0;
   bool no_context = false, cut = false, runaway = false, stopped = false;
   size_t cut_at = 0;
   char buff[400];
   void *ctx = NULL;
   FILE *fp = NULL;
};
Stream make( Tape &w)
{
   Stream s;
   static const char *nls[] = { "\n", "\r\n", "\r" };
   s.nl = nls[w.choose( 3)];
   int n = 1 + (int)w.choose( 4);
   for( int i = 0; i < n; i++)
      switch( w.choose( 3))
         {
         case 0: add_psv( w, s.items); break;
         case 1: add_xml( w, s.items, s.nl); break;
         default: add_old( w, s.items); break;
         }
   for( auto &it : s.items)
      {
      s.text += it.text + s.nl;
      s.ends.push_back( s.text.size( ));
      for( auto &l : it.want) s.want.push_back( l);
      }
   return s;
}
const size_t MAX_LINES = 3000;
int open_fgets_loop_step( Module *m, Stream &s)      /* one line;  0 = ended */
{
   int rv = F( fgets_with_ades_xlation)( s.buff, sizeof( s.buff), s.ctx, s.fp);
   g_sim->ev( "line %d", rv);
   if( !rv) return 0;
   s.got.push_back( s.buff);
   if( rv < 0) { s.rv = rv; if( rv == ADES_OUT_OF_MEMORY) { s.got.pop_back( ); s.stopped = true; return 0; } }
   if( s.got.size( ) > MAX_LINES) { s.runaway = true; return 0; }
   return 1;
}
void judge( Sim &sim, Stream &s, const char *who, bool faulted)
{
   if( s.runaway) { sim.violate( "endless", std::string( who) + ": reading goes on and on: '" + s.got.back( ).substr( 0, 60) + "'"); return; }
   if( s.no_context) return;
   size_t n_fixed = s.want.size( ), n_extra = 0;
   std::string partial;
   if( s.cut)
      {
      size_t i = 0, start = 0;
      n_fixed = 0;
      while( i < s.items.size( ) && s.ends[i] - strlen( s.nl) <= s.cut_at && (!s.items[i].text.empty( ) || s.cut_at > start)) { n_fixed += s.items[i].want.size( ); start = s.ends[i]; i++; }
      if( i < s.items.size( ) && s.cut_at > start)
         {
         partial = s.text.substr( start, s.cut_at - start);
         n_extra = 1;
         const Item &it = s.items[i];
         if( it.soft_end && partial.size( ) > it.text.rfind( '|')) n_extra = 12;
         if( it.text.find( "<optical>") == std::string::npos && !it.is_obs) n_extra = 2;
         }
      }
   if( faulted || s.stopped)          /* what was read has to be right */
      {
      if( s.got.size( ) > n_fixed + n_extra) { sim.violate( "extra-lines", strf( "%s: %zu lines read,  at most %zu expected", who, s.got.size( ), n_fixed + n_extra)); return; }
      }
   else if( s.got.size( ) < n_fixed || s.got.size( ) > n_fixed + n_extra)
      {
      sim.violate( "line-count", strf( "%s: %zu lines read,  %zu expected%s; last: '%s'", who, s.got.size( ), n_fixed, s.cut ? " (file cut short)" : "", s.got.empty( ) ? "" : s.got.back( ).c_str( )));
      return;
      }
   for( size_t i = 0; i < s.got.size( ) && i < n_fixed; i++)
      if( !same_line( s.want[i], s.got[i]))
         {
         sim.violate( "wrong-line", strf( "%s: line %zu:\n  got  '%s'\n  want '%s'", who, i, s.got[i].c_str( ), s.want[i].c_str( )));
         return;
         }
   if( s.cut && s.got.size( ) > n_fixed && n_extra == 1 && partial.find( '<') == std::string::npos)
      {
      std::string p = partial;
      while( !p.empty( ) && (p.back( ) == ' ' || p.back( ) == '\r' || p.back( ) == '\n')) p.pop_back( );
      if( s.got[n_fixed] != p) sim.violate( "made-up-line", std::string( who) + ": '" + s.got[n_fixed] + "' from the incomplete '" + p + "'");
      else sim.count( "probe.partial_line_passed_on");
      }
   sim.count( "probe.lines", s.got.size( ));
}
}

SCENARIO( P19, interleaved, 3)
{
   Tape &w = sim.w;
   Module *m = get_module( "lib", 0);
   m->restore( );
   sim.stdio_buf = pick( w, { 4096, 1024, 100, 16, 7 });
   int n = 1 + (int)w.choose( 3);
   std::vector<Stream> st;
   for( int i = 0; i < n; i++)
      {
      st.push_back( make( w));
      if( (st[i].cut = w.chance( 1, 4)))
         {
         st[i].cut_at = w.choose( (u32)st[i].text.size( ));
         /* an unknown <sys> is documented to stop the program */
         size_t a = st[i].text.rfind( "<sys>", st[i].cut_at), b = a == std::string::npos ? a : st[i].text.find( "</sys>", a);
         if( a != std::string::npos && st[i].cut_at > a && st[i].cut_at < b) st[i].cut_at = a;
         /* a column header cut just after a '|' may look like data of the preceding table */
         for( size_t j = 0; j < st[i].items.size( ); j++)
            if( st[i].items[j].want.empty( ) && st[i].items[j].text.find( '|') != std::string::npos && st[i].cut_at < st[i].ends[j] && (!j || st[i].cut_at > st[i].ends[j - 1]))
               while( st[i].cut_at && strchr( "| ", st[i].text[st[i].cut_at - 1])) st[i].cut_at--;
         sim.count( "fault.torn_file");
         }
      sim.fs.put( strf( "/work/f%d", i), st[i].cut ? st[i].text.substr( 0, st[i].cut_at) : st[i].text);
      sim.sample += strf( "%s%zu items (%zu lines)%s", i ? "; " : "", st[i].items.size( ), st[i].want.size( ), st[i].cut ? " cut" : "");
      }
   sim.fault.read_short = on_off( w, 1, 2, 300000);
   sim.fault.read_eio = on_off( w, 1, 4, 60000);
   sim.fault.alloc_fail = on_off( w, 1, 4, 60000);
   sim.fault.budget = 1;
   bool faulted = false;
   long leaked = 0;
   Proc *p = sim.spawn( "reader", m, [&]( ) -> int {
      std::vector<int> live;
      for( int i = 0; i < n; i++)
         {
         st[i].ctx = F( init_ades2mpc)( );
         if( !st[i].ctx) { st[i].no_context = true; continue; }
         memset( st[i].buff, 0, sizeof( st[i].buff));
         st[i].fp = sim_fopen( strf( "/work/f%d", i).c_str( ), "rb");
         if( st[i].fp) live.push_back( i);
         else st[i].no_context = true;
         }
      while( !live.empty( ))
         {
         size_t k = sim.s.choose( (u32)live.size( ));
         Stream &s = st[live[k]];
         if( !open_fgets_loop_step( m, s)) live.erase( live.begin( ) + k);
         }
      for( auto &s : st)
         {
         if( s.fp) { s.err = ferror( s.fp); fclose( s.fp); }
         if( s.ctx) F( free_ades2mpc_context)( s.ctx);
         }
      leaked = g_sim->cur->live_allocs;
      return 0;
   });
   sim.run( );
   if( !p->clean( )) { sim.violate( "crash", p->describe( ) + " " + p->err.substr( 0, 200)); return; }
   if( p->mem_error) sim.violate( "memory", p->mem_note);
   if( leaked) sim.violate( "leak", strf( "%ld blocks left", leaked));
   for( int i = 0; i < n; i++)
      {
      faulted = st[i].err != 0;
      if( st[i].stopped && !p->n_hard_faults) sim.violate( "failed-without-cause", "out of memory reported");
      judge( sim, st[i], strf( "file %d", i).c_str( ), faulted);
      }
   if( n > 1 || st[0].items.size( ) > 1) sim.nontrivial = true;
}

/* the same,  on threads of one process:  contexts do not share anything */
SCENARIO( P19, threads, 1)
{
   Tape &w = sim.w;
   Module *m = get_module( "libt", 0);
   m->restore( );
   sim.stdio_buf = pick( w, { 4096, 1024, 100 });
   sim.switch_num = pick( w, { 10, 40 });
   sim.bb_gap = pick( w, { 20, 60, 200, 1000 });
   int n = 2 + (int)w.choose( 2);
   std::vector<Stream> st;
   std::vector<Proc *> procs;
   for( int i = 0; i < n; i++)
      {
      st.push_back( make( w));
      sim.fs.put( strf( "/work/f%d", i), st[i].text);
      sim.sample += strf( "%s%zu items (%zu lines)", i ? "; " : "", st[i].items.size( ), st[i].want.size( ));
      }
   for( int i = 0; i < n; i++)
      procs.push_back( sim.spawn( strf( "thread#%d", i), m, [&st, m, i]( ) -> int {
         Stream &s = st[i];
         s.ctx = F( init_ades2mpc)( );
         memset( s.buff, 0, sizeof( s.buff));
         s.fp = sim_fopen( strf( "/work/f%d", i).c_str( ), "rb");
         while( open_fgets_loop_step( m, s))
            ;
         fclose( s.fp);
         F( free_ades2mpc_context)( s.ctx);
         return 0;
         }));
   sim.run( );
   for( int i = 0; i < n; i++)
      {
      if( !procs[i]->clean( )) { sim.violate( "crash", procs[i]->describe( )); return; }
      judge( sim, st[i], strf( "thread %d", i).c_str( ), false);
      }
   sim.nontrivial = true;
}
