/* Library calls:  answers must not depend on earlier calls (P09) nor on other
threads' calls (P10) */
#include "util.h"
#include <math.h>
#include <stdio.h>
#include "watdefs.h"
#include "afuncs.h"
#include "lunar.h"
#include "date.h"
#include "comets.h"
#include "mpc_func.h"
#include "showelem.h"
#include "vislimit.h"
#include "gust86.h"
#include "brentmin.h"
extern "C" {
FILE *sim_fopen( const char *, const char *);
size_t strlcat_err( char *dst, const char *src, size_t dsize);
size_t strlcpy_err( char *dst, const char *src, size_t dsize);
int snprintf_append( char *string, const size_t max_len, const char *format, ...);
int snprintf_err( char *string, const size_t max_len, const char *format, ...);
}

namespace {
struct Res {
   int n = 0;
   double d[40];
   std::string s;
   void add( double x) { if( n < 40) d[n++] = x; }
   void add( const double *x, int k) { for( int i = 0; i < k; i++) add( x[i]); }
};
struct Call { u32 kind = 0, date = 0, arg = 0; };

/* arguments drawn from small pools,  so that different calls share them */
const double jds[] = { 2451545., 2457000.5, 2460400.25, 2415020.5, 2299160.5, 2433282.423, 2440587.5, 2469807.125, 1721058.5, 2451544.5, 2455197.75, 3000000.5,
               2299149.5, 2299170.5, 2200000.5, 2380000.3 };
const double years[] = { 2000., 1950., 2025.3, 1875., 1900., 2100., -500., 2014.5, 2000.000001, 1582.8, 12500., -8500. };
double u01( u32 a, int k) { return (double)( mix64( a * 1000003ULL + k) % 1000000) / 1000000.; }
double jd_of( const Call &c) { return c.date < 16 ? jds[c.date] : 2440000.5 + (double)( mix64( c.date) % 4000000) / 100.; }
double yr_of( u32 k) { k %= 24; return k < 12 ? years[k] : 1800. + 17.3 * k; }

void set_elem( ELEMENTS *e, u32 a, Module *m, bool bound)
{
   memset( e, 0, sizeof( *e));
   e->q = .2 + 3. * u01( a, 1);
   e->ecc = bound ? .95 * u01( a, 2) : (a % 5 == 0 ? 1. : 1.5 * u01( a, 2));
   e->incl = 3.14159265358979 * .9 * u01( a, 3);
   e->arg_per = 6.28 * u01( a, 4);
   e->asc_node = 6.28 * u01( a, 5);
   e->perih_time = 2455000.5 + 3000. * u01( a, 6);
   e->epoch = 2457000.5 + floor( 3000. * u01( a, 7));
   e->abs_mag = 15.3; e->slope_param = .15;
   e->gm = .01720209895 * .01720209895;
   ((decltype( &derive_quantities))m->sym( "derive_quantities"))( e, e->gm);
   e->mean_anomaly = bound && e->t0 > 0. ? (e->epoch - e->perih_time) / e->t0 : 0.;
}
#define F( name) ((decltype( &name))m->sym( #name))
#define G( type, name, mangled) ((type)( m->sym( name, false) ? m->sym( name, false) : m->sym( mangled)))

const char *time_strs[] = { "2014 mar 4 3:14:15", "JD 2457890.123", "mjd 58000", "1999 Dec 31.75", "jan 3", "2000-01-01T12:00:00", "2451545", "4 jul 1776 10:15",
      "year 1987.3", "MJD58000.25", "2020 5 17", "12/25/2010", "220317.3", "g", "14:15:16", "1600 feb 29", "2017-02-03", "3 apr 2018 12:34:56.789", "fm", "nm-3", "tue", "w+2" };
const char *mpc_lines[] = {
      "     K14F00A  C2014 03 17.27158 09 14 54.87 +12 03 43.3          19.4 V      703",
      "00433         C2020 01 02.1234560 34 56.789-05 12 34.56         12.3 G      F51",
      "0001P         A1986 02 15.5     21 12.3    -11 23 45                       413",
      "     CM12345* C2014 03 17.27158 09 14 54.87 +12 03 43.3                      250",
      "     K20X00Y  S2020 12 05.76543 12 34 56.78 -12 34 56.7          20.1 V      C51",
      "     bad line which holds no astrometry at all                               703" };
const char *code_lines[] = {
      "Code  Long.   cos      sin    Name", "000   0.0000 0.62411 +0.77873 Greenwich", "703 249.26736 0.845111  +0.533614 Catalina Sky Survey",
      "413 149.06420 0.855595 -0.516262 Siding Spring Observatory", "250                           Hubble Space Telescope", "W84 289.18569 0.865020 -0.500901 Cerro Tololo-DECam" };
const char *latlons[] = { "n44.01,w69.9,140m", "E149.0611 S31.2733 1165m", "44.01 -69.9 100m", "N 12 34 56 W 100 20 30 2000ft", "S33,E18" };
const char *desigs[] = { "2014 FA1", "1P/Halley", "C/1995 O1", "433", "(123456)", "1997 XF11", "2020-001A", "J/2003 J 2", "620001", "S/2003 J 24", "D/1993 F2", "2099 AA", "P/2010 V1-B" };
const char *packed[] = { "     K14F01A", "0001P       ", "    CJ95O010", "00433       ", "C3456       ", "     J97X11F", "~0000       ", "J003S       ", "    SK03J024", "    PK10V01b", "a0000       ", "     PLS2040" };
/* other packed designations, made up from their parts, some of them not quite right */
std::string made_up_desig( u32 a)
{
   u64 h = a * 0x9e3779b97f4a7c15ull + 12345;
   auto r = [&]( u32 n) { h = h * 6364136223846793005ull + 1442695040888963407ull; return (u32)( (h >> 33) % n); };
   const char *mut = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz._";
   const u32 nm = r( 6) ? 62 : 64;
   std::string n, p;
   switch( r( 8))
      {
      case 0: case 1: n = "~"; for( int i = 0; i < 4; i++) n += mut[r( nm)]; break;
      case 2: case 3: n = std::string( 1, mut[r( 62)]); for( int i = 0; i < 4; i++) n += (char)( '0' + r( 10)); break;
      case 4: for( int i = 0; i < 4; i++) n += (char)( '0' + r( 10)); n += "PCDXAIS"[r( 7)]; break;
      case 5: n = std::string( 4, ' ') + " PCDXAS"[r( 7)]; break;
      case 6: n = std::string( 1, "MVEJSUNP"[r( 8)]); for( int i = 0; i < 3; i++) n += (char)( '0' + r( 10)); n += 'S'; break;
      default: n = "     ";
      }
   switch( r( 7))
      {
      case 0: p = "       "; break;
      case 1: case 2: p = "_"; p += mut[r( nm)]; p += (char)( 'A' + r( 26)); for( int i = 0; i < 4; i++) p += mut[r( nm)]; break;
      case 3: case 4: p = std::string( 1, (char)( 'G' + r( 6))); p += (char)( '0' + r( 10)); p += (char)( '0' + r( 10)); p += (char)( 'A' + r( 26)); p += mut[r( nm)]; p += (char)( '0' + r( 10)); p += r( 2) ? (char)( 'A' + r( 26)) : "0ab"[r( 3)]; break;
      case 5: p = "      "; p += (char)( 'a' + r( 26)); if( r( 2)) p[5] = (char)( 'a' + r( 26)); break;
      default: p = r( 2) ? "PLS" : strf( "T%dS", (int)r( 5)); p += strf( "%04d", (int)r( 10000));
      }
   return n + p;
}
const char *sof_hdr = "Name        |Tp      .       |Te      |q          |i  .      |Om .      |om .      |e         |rms |n_o  |Tlast   |H .  |G . ^\n";
const char *sof_ln[] = {
      "00001       |20181230.123456789|20200101|2.555555555|10.594000 |80.309900 |73.597600 |0.07600000|0.50|  100|20200101| 3.34| 0.15\n",
      "     K14F01A|20191111.5        |20200331|0.987654321|25.123456 |123.45678 |321.98765 |0.56789012|0.33|   12|20191231|21.30| 0.15\n" };

enum { K_SETUP_PREC, K_ECL_PREC, K_PREC_NUT, K_PREC_EOP, K_OBLIQ, K_ALTAZ, K_ALTAZ_INV, K_PRECESS_PT, K_GST, K_ORIENT, K_RATE, K_RADII, K_CHINESE, K_SSAT, K_TRITON, K_GUST, K_VSOP_FREE_BEGIN,
   /* from here on:  no hidden state */
   K_TDUT = K_VSOP_FREE_BEGIN, K_TDUTC, K_TDB, K_NUTATION, K_CONSTELL, K_VARDESIG, K_GALACTIC, K_DIST_PA, K_PHASE, K_JSAT, K_CALENDAR, K_DAYS, K_CTIME, K_SPLIT,
   K_TIMESTR, K_COMET, K_CLASSEL, K_MOID, K_PLANET_ELEM, K_SOF, K_MPCCODE, K_LATLON, K_ANGLE_STR, K_ELLIPSE, K_PACK, K_UNPACK, K_ADES, K_DATE_MPC, K_RADEC_MPC, K_NET, K_SHOWELEM,
   K_VISLIMIT, K_KEPLERISH, K_REPLACE, K_EQPREC, K_EARTHLOC, K_MUTANT,
   K_EARTH2000, K_NUT_DELTA, K_EQ_FROM_J2000, K_COMPUTE_PLANET, K_PRECESS_VEC, K_KEPLER, K_AST_FILE, K_VSOP, K_LUNAR, K_PLUTO, K_BRENT, K_SPLINE, K_UNALIGNED, K_FGETS_ADES, K_VALID_CODE,
   K_YMD, K_QUICK, K_XXX, K_REGION, K_SNPRINTF, K_GALMAT, K_VECTORS, K_DMY, N_KINDS };
const char *kind_names[] = { "setup_precession", "setup_ecliptic_precession", "setup_precession_with_nutation", "setup_precession_with_nutation_eops", "mean_obliquity", "full_ra_dec_to_alt_az",
   "full_alt_az_to_ra_dec", "precess_pt", "green_sidereal_time", "calc_planet_orientation", "planet_rotation_rate", "planet_radii", "chinese calendar", "calc_ssat_loc", "calc_triton_loc", "gust86_posn", "td_minus_ut", "td_minus_utc", "tdb_minus_tdt",
   "nutation", "constell_from_ra_dec", "var_desig", "galactic", "dist_pa", "lunar phase", "calc_jsat_loc", "calendar", "days_in_month", "full_ctime", "split_time",
   "get_time_from_string", "comet_posn", "calc_classical_elements", "find_moid", "setup_planet_elem", "extract_sof_data", "get_mpc_code_info", "get_lat_lon_info", "angle strings", "point_to_ellipse",
   "create_mpc_packed_desig", "unpack_mpc_desig", "ADES translation", "extract_date_from_mpc_report", "get_ra_dec_from_mpc_report", "net codes", "elements_in_mpc_format", "vislimit",
   "phase_angle_correction", "text_search_and_replace", "equatorial precession", "planet sizes", "mutant hex",
   "get_earth_loc", "setup_precession_with_nutation_delta", "setup_equatorial_precession_from_j2000", "compute_planet", "precess_vector", "kepler", "setup_elems_from_ast_file", "calc_vsop_loc", "lunar position", "calc_pluto_loc",
   "brent_min", "interpolation", "unpack_unaligned_mpc_desig", "fgets_with_ades_xlation", "is_valid_mpc_code", "extract_yyyymmdd_to_jd", "quick_atof", "get_xxx_location_info", "extract_region_data", "string functions",
   "galactic matrices", "vector functions", "dmy_to_day" };

bool stateful( u32 kind) { return kind < K_VSOP_FREE_BEGIN || (kind >= K_NUT_DELTA && kind <= K_COMPUTE_PLANET); }

/* A synthetic vsop.bin:  right layout,  made-up coefficients */
const char *vsop_bin( )
{
   static std::vector<char> d;
   if( d.empty( ))
      {
      d.resize( 60874 + 64, 0);
      auto put16 = [&]( size_t at, int v) { d[at] = (char)v; d[at + 1] = (char)( v >> 8); };
      auto put32 = [&]( size_t at, long v) { put16( at, (int)( v & 0xffff)); put16( at + 2, (int)( (v >> 16) & 0xffff)); };
      auto putd = [&]( size_t at, double v) { memcpy( &d[at], &v, 8); };
      for( int i = 0; i <= 144; i++)
         {
         int v = i == 0 ? 0 : (i <= 10 ? 38 + (i - 1) * 82 / 9 : (i <= 134 ? 120 + (i - 10) * 2246 / 124 : 2366 + (i - 134) * 64 / 10));
         put16( i * 2, v);
         }
      for( int i = 0; i < 2430; i++)
         {
         u64 h = mix64( 77000 + i);
         putd( 290 + i * 24, (double)( h % 100000000) / (1. + i % 37));
         putd( 298 + i * 24, (double)( (h >> 32) % 6283) / 1000.);
         putd( 306 + i * 24, (double)( (h >> 20) % 700000) / 100.);
         }
      for( size_t i = 58610; i < 60874; i++) d[i] = (char)mix64( i * 31 + 5);
      for( int i = 0; i < 42; i++) put32( 58610 + i * 4, (long)( mix64( 99 + i) % 40000000) - 20000000);
      for( int i = 0; i < 60; i++)
         {
         size_t at = 59354 + i * 12, lt = 59354 + 720 + i * 8;
         u64 h = mix64( 88000 + i);
         for( int k = 0; k < 4; k++) { d[at + k] = (char)( (int)( (h >> (k * 4)) % 5) - 2); d[lt + k] = (char)( (int)( (h >> (16 + k * 4)) % 5) - 2); }
         put32( at + 4, (long)( (h >> 8) % 6000000) / (1 + i));
         put32( at + 8, -(long)( (h >> 12) % 20000000) / (1 + i));
         put32( lt + 4, (long)( (h >> 24) % 5000000) / (1 + i));
         }
      d[59354] = d[59355] = d[59357] = 0; d[59356] = 1;
      d[60074] = d[60075] = d[60076] = 0; d[60077] = 1;
      d[0xea0a] = 'q';
      static const double fund[25] = { 218.3164477, 481267.88123421, -.0015786, 1. / 538841., -1. / 65194000., 297.8501921, 445267.1114034, -.0018819, 1. / 545868., -1. / 113065000.,
         357.5291092, 35999.0502909, -.0001536, 1. / 24490000., 0., 134.9633964, 477198.8675055, .0087414, 1. / 69699., -1. / 14712000., 93.272095, 483202.0175233, -.0036539, -1. / 3526000., 1. / 863310000. };
      for( int i = 0; i < 25; i++) putd( 60554 + i * 8, fund[i]);
      put32( 60554, 0x6ed5a0b1);
      }
   return d.data( );
}

void invoke( Module *m, const Call &c, Res &r)
{
   double jd = jd_of( c), mat[9], v[8], w[8];
   const u32 a = c.arg;
   char buf[1024];
   memset( buf, 0, sizeof( buf));
   memset( v, 0, sizeof( v));
   memset( mat, 0, sizeof( mat));
   switch( c.kind)
      {
      case K_SETUP_PREC: F( setup_precession)( mat, yr_of( c.date), yr_of( a)); r.add( mat, 9); break;
      case K_ECL_PREC: F( setup_ecliptic_precession)( mat, yr_of( c.date), yr_of( a)); r.add( mat, 9); break;
      case K_PREC_NUT: F( setup_precession_with_nutation)( mat, yr_of( c.date)); r.add( mat, 9); break;
      case K_PREC_EOP: F( setup_precession_with_nutation_eops)( mat, a % 2 ? 2000. + (jd - 2451545.) / 365.25 : yr_of( c.date)); r.add( mat, 9); break;
      case K_OBLIQ: r.add( F( mean_obliquity)( a % 3 ? (yr_of( c.date) - 2000.) / 100. : (jd - 2451545.) / 36525.)); break;
      case K_ALTAZ:
         {
         DPT rd = { 6. * u01( a, 1), 1.5 - 3. * u01( a, 2) }, aa = { 0., 0.}, le = { 0., 0.}, ll = { 6. * u01( a, 3) - 3., 1.4 - 2.8 * u01( a, 4) };
         double ha = 0.;
         F( full_ra_dec_to_alt_az)( &rd, &aa, &le, &ll, jd, &ha);
         r.add( aa.x); r.add( aa.y); r.add( le.x); r.add( le.y); r.add( ha);
         }
         break;
      case K_ALTAZ_INV:
         {
         DPT rd = { 0., 0.}, aa = { 6. * u01( a, 1), 1.5 - 3. * u01( a, 2) }, ll = { 6. * u01( a, 3) - 3., 1.4 - 2.8 * u01( a, 4) };
         F( full_alt_az_to_ra_dec)( &rd, &aa, jd, &ll);
         r.add( rd.x); r.add( rd.y);
         }
         break;
      case K_PRECESS_PT:
         {
         DPT i = { 6. * u01( a, 1), 1.5 - 3. * u01( a, 2) }, o = { 0., 0. };
         F( precess_pt)( &o, &i, yr_of( c.date), yr_of( a));
         r.add( o.x); r.add( o.y);
         }
         break;
      case K_GST: r.add( F( green_sidereal_time)( jd)); break;
      case K_ORIENT:
         {
         static const int pl[] = { 3, 2, 4, 5, 6, 10, 3001, 0 };
         int rv = F( calc_planet_orientation)( pl[a % 8], a / 8 % 4, jd, mat);
         r.add( rv);
         if( !rv) r.add( mat, 9);
         }
         break;
      case K_RATE: r.add( F( planet_rotation_rate)( 2 + a % 7, a / 8 % 4)); break;
      case K_RADII: r.add( F( planet_radii)( 2 + a % 8, v)); if( !r.d[0]) r.add( v, 3); break;
      case K_CHINESE:
         {
         int d = 1, mo = 1;
         long y = 4700;
         F( day_to_dmy)( (long)jd, &d, &mo, &y, CALENDAR_CHINESE);
         r.add( d); r.add( mo); r.add( (double)y);
         r.add( F( get_chinese_intercalary_month)( ));
         r.add( (double)F( dmy_to_day)( d, mo, y, CALENDAR_CHINESE));
         }
         break;
      case K_TDUT: r.add( F( td_minus_ut)( jd)); break;
      case K_TDUTC: r.add( F( td_minus_utc)( jd)); r.add( F( tdb_minus_utc)( jd)); break;
      case K_TDB: r.add( (double)F( tdb_minus_tdt)( (jd - 2451545.) / 36525.)); break;
      case K_NUTATION: F( nutation)( (jd - 2451545.) / 36525., v, v + 1); r.add( v, 2); break;
      case K_CONSTELL: r.add( F( constell_from_ra_dec)( 360. * u01( a, 1), 180. * u01( a, 2) - 90., buf)); r.s = buf; break;
      case K_VARDESIG: F( make_var_desig)( buf, (int)( a % 400)); r.s = buf; r.add( F( decipher_var_desig)( buf)); break;
      case K_GALACTIC:
         F( ra_dec_to_galactic)( 6. * u01( a, 1), 1.5 - 3. * u01( a, 2), v, v + 1);
         F( galactic_to_ra_dec)( v[0], v[1], v + 2, v + 3);
         F( ra_dec_to_supergalactic)( 6. * u01( a, 1), 1.5 - 3. * u01( a, 2), v + 4, v + 5);
         r.add( v, 6);
         break;
      case K_DIST_PA:
         w[0] = 6. * u01( a, 1); w[1] = 1.5 - 3. * u01( a, 2); w[2] = 6. * u01( a, 3); w[3] = 1.5 - 3. * u01( a, 4);
         F( calc_dist_and_posn_ang)( w, w + 2, v, v + 1);
         F( reverse_dist_and_posn_ang)( v + 2, w, v[0], v[1]);
         r.add( v, 4);
         break;
      case K_PHASE: r.add( (double)F( find_nearest_lunar_phase_time)( a % 4, jd - 2451545.)); break;
      case K_JSAT: { double js[16]; memset( js, 0, sizeof( js)); F( calc_jsat_loc)( jd, js, 15, 0L); r.add( js, 12); } break;
      case K_SSAT: F( calc_ssat_loc)( jd, v, (int)( a % 9), 0L); r.add( v, 3); break;
      case K_TRITON: F( calc_triton_loc)( jd, v); r.add( v, 3); break;
      case K_GUST: F( gust86_posn)( jd, (int)( a % 5), v); r.add( v, 6); break;
      case K_CALENDAR:
         {
         static const int cal[] = { 0, 1, 2, 3, 4, 5, 6, 8 };
         int d = 1, mo = 1;
         long y = 1;
         F( day_to_dmy)( (long)jd + (long)( a / 8 % 400), &d, &mo, &y, cal[a % 8]);
         r.add( d); r.add( mo); r.add( (double)y);
         r.add( (double)F( dmy_to_day)( d, mo, y, cal[a % 8]));
         }
         break;
      case K_DAYS: { static const int cal[] = { 0, 1, 2, 3, 4, 5, 6, 8 }; r.add( F( days_in_month)( 1 + a / 8 % 12, 1200 + c.date % 1000, cal[a % 8])); } break;
      case K_CTIME:
         {
         static const int fmt[] = { 0, FULL_CTIME_YMD, FULL_CTIME_FORMAT_JD | FULL_CTIME_5_PLACES, FULL_CTIME_MILLISECS | FULL_CTIME_DAY_OF_WEEK_FIRST, FULL_CTIME_FORMAT_DAY | FULL_CTIME_YMD | FULL_CTIME_5_PLACES,
            FULL_CTIME_FORMAT_YEAR | FULL_CTIME_6_PLACES, FULL_CTIME_FORMAT_MJD | FULL_CTIME_3_PLACES, FULL_CTIME_TIME_ONLY | FULL_CTIME_2_PLACES, FULL_CTIME_YMD | FULL_CTIME_MONTHS_AS_DIGITS | FULL_CTIME_LEADING_ZEROES,
            FULL_CTIME_DAY_OF_YEAR | FULL_CTIME_YMD, CALENDAR_JULIAN, CALENDAR_HEBREW | FULL_CTIME_YMD | FULL_CTIME_MONTHS_AS_DIGITS, FULL_CTIME_DAY_OF_WEEK_LAST | FULL_CTIME_DATE_ONLY };
         int f = fmt[a % 13];
         if( a >= 26)                  /* any combination of places,  units and flags */
            f = (int)( mix64( a) & 0xfff7f0) | (mix64( a) >> 40) % 2 * CALENDAR_JULIAN;
         if( (f & FULL_CTIME_FORMAT_MASK) == 0x700) f ^= 0x100;
         F( full_ctime)( buf, jd, f);
         r.s = buf;
         F( full_ctimel)( buf, jd - 2451545., f);
         r.s += std::string( "|") + buf;
         }
         break;
      case K_SPLIT:
         {
         long y = 0;
         int mo = 0, d = 0, h = 0, mi = 0;
         double s = F( split_time)( jd, &y, &mo, &d, &h, &mi, a % 2 ? 6 : 0);
         r.add( s); r.add( (double)y); r.add( mo); r.add( d); r.add( h); r.add( mi);
         s = F( decimal_day_to_dmy)( jd, &y, &mo, a % 7);
         r.add( s); r.add( (double)y); r.add( mo);
         }
         break;
      case K_TIMESTR:
         {
         int ut = 0;
         std::string t = time_strs[a % 22];
         if( a >= 44)
            {
            u64 h = mix64( a);
            static const char *mn[] = { "jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec" };
            int y = 1500 + (int)( h % 600), mo = (int)( h >> 10) % 12, dd = 1 + (int)( h >> 14 & 0xff) % 28, hh = (int)( h >> 22 & 0xff) % 24, mi = (int)( h >> 30 & 0xff) % 60;
            if( mo < 0) mo += 12;
            const int kind = (int)( h >> 40 & 31);
            if( kind > 21)             /* anything at all */
               {
               static const char *tok[] = { " ", " ", "-", "/", ":", ".", "jan", "feb", "mon", "now", "jd", "mjd", "gps", "ut", "td", "tai", "bc", "ad", "am", "pm", "y", "nm", "1q", "f", "h", "d", "m", "s", "+", "-", "%", "J", "B", "0", "1", "5.5", "12", "13.25", "31", "32", "99", "366", "1582", "2000", "-4712", "2451545", "1e9", "T", "Z", ",", "\t", "easter", "julian", "persian" };
               for( u64 g = mix64( h), n = 1 + h % 7; n--; g = mix64( g)) t += tok[g % ( sizeof( tok) / sizeof( tok[0]))];
               }
            else switch( kind & 15)
               {
               case 0: t = strf( "%d %s %d %d:%02d", y, mn[mo], dd, hh, mi); break;
               case 1: t = strf( "%d %s %d.25", dd, mn[mo], y); break;
               case 2: t = strf( "%02d.%02d.%d", dd, mo + 1, y); break;
               case 3: t = strf( "%d-%02d-%02dT%02d:%02d:%02d.5", y, mo + 1, dd, hh, mi, mi); break;
               case 4: t = strf( "%d %s %d bc", dd, mn[mo], 1 + y % 500); break;
               case 5: t = strf( "%d/%d/%d %d:%02d pm", mo + 1, dd, y, 1 + hh % 12, mi); break;
               case 6: t = strf( "+%dh", hh); break;
               case 7: t = strf( "%d:%02d:%02d +%dd -%dm", hh, mi, mi, dd, mi + 1); break;
               case 8: t = strf( "%d %03d", y, dd + 40); break;
               case 9: t = strf( "GPS %05d", y * 10 + mo % 7); break;
               case 10: t = strf( "unix %d.5", y * 100000 + mi); break;
               case 11: t = strf( "y%d.75", y); break;
               case 12: t = strf( "%d %s nm+%d", y, mn[mo], dd % 5); break;
               case 13: t = strf( "%s", mn[mo]); break;
               case 14: t = strf( "%d%s%d", dd, mn[mo], y); break;
               case 15: t = strf( "fm%+d", dd % 7 - 3); break;
               }
            }
         r.add( F( get_time_from_string)( jd, t.c_str( ), a / 22 % 2 ? FULL_CTIME_YMD : 0, &ut));
         r.add( ut);
         }
         break;
      case K_COMET:
         {
         ELEMENTS e;
         set_elem( &e, a, m, false);
         F( comet_posn_and_vel)( &e, jd_of( c), v, v + 4);
         r.add( v, 7);
         }
         break;
      case K_CLASSEL:
         {
         ELEMENTS e, f;
         set_elem( &e, a, m, true);
         F( comet_posn_and_vel)( &e, 2457000.5, v, w);
         double st[6] = { v[0], v[1], v[2], w[0], w[1], w[2] };
         memset( &f, 0, sizeof( f));
         f.gm = e.gm;
         F( calc_classical_elements)( &f, st, 2457000.5, 1);
         r.add( f.q); r.add( f.ecc); r.add( f.incl); r.add( f.arg_per); r.add( f.asc_node); r.add( f.perih_time);
         }
         break;
      case K_MOID:
         {
         ELEMENTS e, p;
         moid_data_t md;
         memset( &md, 0, sizeof( md));
         memset( &p, 0, sizeof( p));
         set_elem( &e, a, m, true);
         F( setup_planet_elem)( &p, 3, .14);
         r.add( F( find_moid_full)( &p, &e, a % 2 ? &md : NULL));
         r.add( md.barbee_speed);
         }
         break;
      case K_PLANET_ELEM: { ELEMENTS p; memset( &p, 0, sizeof( p)); F( setup_planet_elem)( &p, 1 + a % 8, (jd - 2451545.) / 36525.); r.add( p.q); r.add( p.ecc); r.add( p.incl); r.add( p.arg_per); r.add( p.asc_node); } break;
      case K_SOF:
         {
         ELEMENTS e;
         memset( &e, 0, sizeof( e));
         double extra[20];
         memset( extra, 0, sizeof( extra));
         static const char *h2 = "Name        |Tp               |Te      |q          |i         |Om        |om        |e         |rms |n_o  |Tfirst  |Tlast   |Twrite  |H    |G    |C ^\n";
         std::string l2 = strf( "%-12s|20%02u0%u1%u.%06u|20200101|%11.9f|%10.6f|%10.6f|%10.6f|%10.8f|0.%02u|%5u|19990101|20200101|20210304|%5.2f| 0.15| %c \n", desigs[a % 13], c.date % 30, 1 + a % 9, a % 10, (unsigned)( mix64( a) % 1000000),
            .5 + 3. * u01( a, 1), 170. * u01( a, 2), 360. * u01( a, 3), 360. * u01( a, 4), .95 * u01( a, 5), a % 100, a, 10. + 10. * u01( a, 6), a % 4 ? '0' : '3');
         e.gm = .01720209895 * .01720209895;
         r.add( F( extract_sof_data_ex)( &e, a < 24 ? sof_ln[a % 2] : l2.c_str( ), a < 24 ? sof_hdr : h2, a % 3 ? extra : NULL));
         r.add( e.q); r.add( e.ecc); r.add( e.incl); r.add( e.perih_time); r.add( e.epoch); r.add( extra, 4);
         }
         break;
      case K_MPCCODE:
         {
         mpc_code_t i;
         memset( &i, 0, sizeof( i));
         r.add( F( get_mpc_code_info)( &i, code_lines[a % 6]));
         r.add( i.lat); r.add( i.lon); r.add( i.alt); r.add( i.rho_cos_phi); r.add( i.rho_sin_phi); r.add( i.planet); r.add( i.prec1); r.add( i.prec2);
         r.s = std::string( i.code, strnlen( i.code, 5)) + (i.name ? i.name : "");
         }
         break;
      case K_LATLON:
         {
         mpc_code_t i;
         memset( &i, 0, sizeof( i));
         r.add( F( get_lat_lon_info)( &i, latlons[a % 5]));
         r.add( i.lat); r.add( i.lon); r.add( i.alt);
         }
         break;
      case K_ANGLE_STR:
         {
         int n = 0;
         r.add( F( get_ra_from_string)( a % 2 ? "12 34 56.789" : "12h34m", &n)); r.add( n);
         r.add( F( get_dec_from_string)( a % 2 ? "-12 34 56.7" : "45.678", &n)); r.add( n);
         F( output_angle_to_buff)( buf, 24. * u01( a, 1), a % 4);
         r.s = buf;
         F( output_signed_angle_to_buff)( buf, 90. - 180. * u01( a, 2), a % 4);
         r.s += buf;
         }
         break;
      case K_ELLIPSE:
         r.add( F( point_to_ellipse)( 1., .6 + .39 * u01( a, 1), 3. * u01( a, 2) - 1.5, 3. * u01( a, 3) - 1.5, v)); r.add( v, 1);
         r.add( F( lat_alt_to_parallax)( 3. * u01( a, 2) - 1.5, 3000. * u01( a, 3), v, v + 1, 6378140., 6356755.)); r.add( v, 2);
         break;
      case K_PACK: r.add( F( create_mpc_packed_desig)( buf, desigs[a % 13])); r.s = std::string( buf, strnlen( buf, 20)); break;
      case K_UNPACK:
         {
         for( u32 k = 0; k < 24; k++)
            {
            const std::string t = k ? made_up_desig( a * 24 + k) : packed[a % 12];
            r.add( F( unpack_mpc_desig)( buf, t.c_str( ))); r.s += buf; r.s += '|';
            r.add( F( unpack_mpc_desig)( NULL, t.c_str( )));      /* only its kind */
            }
         }
         break;
      case K_ADES:
         {
         static const char *l[] = { "# version=2017", "permID |provID     |mode|stn |obsTime                 |ra         |dec        |astCat|mag  |band", "433    |           |CCD |703 |2020-01-02T03:04:05.678Z|123.456789 |-12.345678 |Gaia2 |12.34|G",
                  "       |2014 FA1   |CCD |F51 |2020-01-03T03:04:05.678Z| 23.456789 | 12.345678 |Gaia2 |22.34|V" };
         void *ctx = F( init_ades2mpc)( );
         for( int i = 0; i < 4; i++)
            {
            memset( buf, 0, sizeof( buf));
            int rv = F( xlate_ades2mpc)( ctx, buf, l[i]);
            r.add( rv);
            if( rv > 0) r.s += buf;
            }
         F( free_ades2mpc_context)( ctx);
         }
         break;
      case K_DATE_MPC: { unsigned fmt = 0; 
            std::string l = mpc_lines[a % 6];
            if( a >= 24)
               {
               static const char *dt[] = { "2456336.641592653", "M056336.641592653", "2013 02 13.1415  ", "2013 02 13 15:23 ", "K130213.141592653", "K130213:152337605", "2013 02 13.141593", "J990213:1523     ", "2013 02 13.14    ", "K13021314159265  " };
               l.replace( 15, 17, dt[a % 10]);
               }
            r.add( F( extract_date_from_mpc_report)( l.c_str( ), &fmt)); r.add( fmt); } break;
      case K_RADEC_MPC:
         {
         int rf = 0, df = 0;
         std::string l = mpc_lines[a % 5];
         if( a >= 24)
            {
            static const char *rs[] = { "02 45 12.345", "123.4567890 ", "12.345678901", "102345123456", "12 34.56    ", "12 34.567   ", "123 45 12.3 ", "0123456789  " };
            static const char *ds[] = { "+12 34 56.78", "-12.3456789 ", "-12 34.56   ", "+12345612345", "-01 02 03   ", "+12 34.5    " };
            l.replace( 32, 12, rs[a % 8]); l.replace( 44, 12, ds[a / 8 % 6]);
            }
         r.add( F( get_ra_dec_from_mpc_report)( l.c_str( ), &rf, v, v + 1, &df, v + 2, v + 3));
         r.add( v, 4); r.add( rf); r.add( df);
         }
         break;
      case K_NET: { static const char *n[] = { "Gaia-DR2", "UCAC-4", "USNO-A2.0", "Tycho-2", "Gaia-DR1", "None" }; char b = F( net_name_to_byte_code)( n[a % 6]); r.add( b); const char *s = F( byte_code_to_net_name)( b); r.s = s ? s : "(null)"; } break;
      case K_SHOWELEM:
         {
         ELEMENTS e;
         set_elem( &e, a, m, true);
         F( elements_in_mpc_format)( buf, sizeof( buf), &e, desigs[a % 13], a % 2, 1 + (int)( a / 3 % 12) + (a % 3 ? 0 : SHOWELEM_PERIH_TIME_MASK) + (int)( a / 5 % 4) * SHOWELEM_OMIT_PQ_MASK);
         r.s = buf;
         }
         break;
      case K_VISLIMIT:
         {
         BRIGHTNESS_DATA b;
         memset( &b, 0, sizeof( b));
         b.zenith_ang_moon = 1.2 * u01( a, 1); b.zenith_ang_sun = 1.7 + u01( a, 2); b.moon_elongation = 3. * u01( a, 3);
         b.ht_above_sea_in_meters = 1000.; b.latitude = .7; b.temperature_in_c = 10.; b.relative_humidity = 40.; b.year = 2020.; b.month = 3.;
         b.zenith_angle = 1.3 * u01( a, 4); b.dist_moon = 1.; b.dist_sun = 2.; b.mask = 31;
         F( set_brightness_params)( &b);
         F( compute_sky_brightness)( &b);
         r.add( F( compute_limiting_mag)( &b));
         F( compute_extinction)( &b);
         r.add( b.brightness, 5); r.add( b.extinction, 5);
         }
         break;
      case K_KEPLERISH: r.add( F( phase_angle_correction_to_magnitude)( 2. * u01( a, 1), .15)); break;
      case K_REPLACE: strcpy( buf, "the quick brown fox jumps over the lazy dog"); r.add( F( text_search_and_replace)( buf, a % 2 ? "the" : "o", a % 3 ? "A" : "")); r.s = buf; break;
      case K_EQPREC:
         w[0] = u01( a, 1); w[1] = u01( a, 2); w[2] = u01( a, 3);
         F( equatorial_to_ecliptic)( w);
         F( rotate_vector)( w, u01( a, 4), a % 3);
         r.add( w, 3);
         break;
      case K_EARTHLOC: r.add( F( planet_radius_in_meters)( (int)( a % 11))); r.add( F( planet_axis_ratio)( (int)( a % 11))); break;
      case K_MUTANT: F( encode_value_in_mutant_hex)( buf, 3, (int)( a % 200000)); r.s = buf; r.add( F( get_mutant_hex_value)( buf, 3)); break;
      case K_EARTH2000: G( int (*)( double, double *), "get_earth_loc", "_Z13get_earth_locdPd")( (jd - 2451545.) / 365250., v); r.add( v, 6); break;
      case K_NUT_DELTA: F( setup_precession_with_nutation_delta)( mat, yr_of( c.date), a % 3 ? u01( a, 1) : 0., a % 2 ? u01( a, 2) : 0.); r.add( mat, 9); break;
      case K_EQ_FROM_J2000: G( int (*)( double *, double), "setup_equatorial_precession_from_j2000", "_Z38setup_equatorial_precession_from_j2000Pdd")( mat, yr_of( c.date)); r.add( mat, 9); break;
      case K_COMPUTE_PLANET: { double o[16]; memset( o, 0, sizeof( o)); static const int pl[] = { 1, 2, 3, 4, 5, 6, 7, 8, 10 }; F( compute_planet)( vsop_bin( ), pl[a % 9], (jd - 2451545.) / 36525., o); r.add( o, 15); } break;
      case K_PRECESS_VEC:
         {
         F( set_identity_matrix)( mat);
         F( spin_matrix)( mat, mat + 3, u01( a, 1) * 6.);
         F( pre_spin_matrix)( mat + 1, mat + 2, u01( a, 2) * 6.);
         w[0] = u01( c.date, 1); w[1] = u01( c.date, 2) - .5; w[2] = u01( c.date, 3);
         F( precess_vector)( mat, w, v); F( deprecess_vector)( mat, w, v + 3);
         r.add( v, 6);
         F( precess_ra_dec)( mat, v, w, (int)( a % 2)); r.add( v, 2);
         F( invert_orthonormal_matrix)( mat); r.add( mat, 9);
         }
         break;
      case K_KEPLER:
         {
         static const double ec[] = { 0., .1, .5, .9, .99, .9999, 1.0001, 1.3, 2.5, .999999 };
         r.add( G( double (*)( double, double), "kepler", "_Z6keplerdd")( ec[c.date % 10], (u01( a, 1) - .5) * (a % 3 ? 6. : .01)));
         }
         break;
      case K_AST_FILE:
         {
         uint32_t e[6] = { (uint32_t)( u01( a, 1) * 3.6e9), (uint32_t)( (a % 7 ? 1. + 3. * u01( a, 2) : 22. + 19. * u01( a, 2)) * 1e8), (uint32_t)( u01( a, 3) * 9e7), (uint32_t)( u01( a, 4) * 3.6e9), (uint32_t)( u01( a, 5) * 3.6e9), (uint32_t)( u01( a, 6) * 1.7e9) };
         ELEMENTS el;
         memset( &el, 0, sizeof( el));
         F( setup_elems_from_ast_file)( &el, e, jds[c.date % 12]);
         r.add( el.q); r.add( el.ecc); r.add( el.perih_time);
         F( comet_posn)( &el, 2457000.5, v); r.add( v, 4);
         }
         break;
      case K_VSOP: r.add( F( calc_vsop_loc)( vsop_bin( ), (int)( a % 9), (int)( a / 9 % 3), (jd - 2451545.) / 36525., a % 4 ? 0. : 1e5)); break;
      case K_LUNAR:
         {
         double fd[9];
         F( lunar_fundamentals)( vsop_bin( ), (jd - 2451545.) / 36525., fd);
         r.add( fd, 9);
         F( lunar_lon_and_dist)( vsop_bin( ), fd, v, v + 1, a % 3 ? 0L : 3000L);
         r.add( v, 2); r.add( F( lunar_lat)( vsop_bin( ), fd, a % 3 ? 0L : 3000L));
         }
         break;
      case K_PLUTO: F( calc_pluto_loc)( vsop_bin( ), v, (jd - 2451545.) / 36525., a % 3 ? 0L : 100L); r.add( v, 3); break;
      case K_BRENT:
         {
         brent_min_t b;
         memset( &b, 0, sizeof( b));
         double x0 = 3. * u01( a, 1), k = u01( a, 2);
         auto f = [&]( double x) { return (x - x0) * (x - x0) + k * cos( x * 3.); };
         double xs[3] = { x0 - 2., x0 + .1, x0 + 2. };
         F( brent_min_init)( &b, xs[0], f( xs[0]), xs[1], f( xs[1]), xs[2], f( xs[2]));
         b.tolerance = 1e-4; b.ytolerance = 0.;
         double x = x0;
         for( int i = 0; i < 12; i++) { x = F( brent_min_next)( &b); if( F( brent_min_add)( &b, f( x))) break; }
         r.add( x); r.add( b.xmin); r.add( b.xmax);
         r.add( F( fit_parabola)( xs, b.y, v, v + 1)); r.add( v, 2);
         }
         break;
      case K_SPLINE:
         {
         double t[12];
         int err = 0;
         for( int i = 0; i < 12; i++) t[i] = u01( c.date, i);
         double x = 12. * u01( a, 1) - (a % 5 == 0);
         r.add( G( double (*)( const double *, int, double, int *), "cubic_spline_interpolate_within_table", "_Z37cubic_spline_interpolate_within_tablePKdidPi")( t, 12, x, &err)); r.add( err);
         r.add( G( double (*)( const double *, int, double, int, double *), "lagrange_interpolate_within_table", "_Z33lagrange_interpolate_within_tablePKdidiPd")( t, 12, x, 2 + (int)( a % 6), v)); r.add( v, 1);
         }
         break;
      case K_UNALIGNED: { std::string t = a % 3 ? made_up_desig( a * 24 + 7) : packed[a / 3 % 12]; if( a % 3 == 1) t += "xyz"; size_t i = t.find_first_not_of( ' '); t = i == std::string::npos ? "" : t.substr( i); while( t.size( ) && t.back( ) == ' ') t.pop_back( ); r.add( F( unpack_unaligned_mpc_desig)( buf, t.c_str( ))); r.s = buf; } break;
      case K_FGETS_ADES:
         {
         FILE *f = sim_fopen( a % 2 ? "ades1" : "ades0", "rb");
         if( !f) break;
         void *ctx = F( init_ades2mpc)( );
         while( F( fgets_with_ades_xlation)( buf, sizeof( buf), ctx, f)) r.s += std::string( buf) + "/";
         F( free_ades2mpc_context)( ctx);
         fclose( f);
         }
         break;
      case K_VALID_CODE: { static const char *cd[] = { "703 ", "F51 ", "XX", "70", "   ", "W84a", "!!! ", "abcd" }; r.add( F( is_valid_mpc_code)( cd[a % 8])); } break;
      case K_YMD: { std::string t = strf( "%04d%02d%02d.%d", 1800 + (int)( c.date * 7 % 400), 1 + (int)( a % 12), 1 + (int)( a / 12 % 28), (int)( mix64( a) % 100000)); r.add( F( extract_yyyymmdd_to_jd)( t.c_str( ))); } break;
      case K_QUICK: { std::string t = strf( a % 2 ? "%.9f" : "%+.3f", 1000. * u01( a, 1) - 300.) + (a % 3 ? "x" : " 12"); r.add( G( double (*)( const char *), "quick_atof", "_Z10quick_atofPKc")( t.c_str( ))); } break;
      case K_XXX:
         {
         static const char *l[] = { "COM Long. 239 18 45 E, Lat. 33 54 11 N, Alt. 100m, Google Earth", "COM Long. 69 54 W, Lat. 44 0 35.1 N, Alt. 50m", "COM Long. 12.5 E, Lat. 33.1 S, Alt. 900m", "COM Long. x", "COD 703" };
         mpc_code_t i;
         memset( &i, 0, sizeof( i));
         r.add( F( get_xxx_location_info)( &i, l[a % 5]));
         r.add( i.lat); r.add( i.lon); r.add( i.alt); r.add( i.rho_cos_phi); r.add( i.rho_sin_phi);
         }
         break;
      case K_REGION:
         {
         FILE *f = sim_fopen( "geo_rect.txt", "rb");
         if( !f) break;
         r.add( F( extract_region_data_for_lat_lon)( f, buf, 180. * u01( a, 1) - 90., 360. * u01( a, 2) - 180.));
         r.s = buf;
         fclose( f);
         }
         break;
      case K_SNPRINTF:
         {
         std::string t( a % 40, (char)( 'a' + a % 26));
         r.add( F( snprintf_err)( buf, 100, "%s|%d", t.c_str( ), (int)a));
         r.add( F( snprintf_append)( buf, 100, "-%u", a));
         r.add( (double)F( strlcat_err)( buf, "+", 100));
         r.s = buf;
         r.add( (double)F( strlcpy_err)( buf, t.c_str( ), 50));
         r.s += buf;
         }
         break;
      case K_GALMAT: r.add( F( j2000_to_galactic_matrix)( ), 9); r.add( F( j2000_to_supergalactic_matrix)( ), 9); F( supergalactic_to_ra_dec)( 1.5 - 3. * u01( a, 1), 6. * u01( a, 2), v, v + 1); r.add( v, 2); break;
      case K_VECTORS:
         for( int i = 0; i < 6; i++) w[i] = u01( a, i) - .5;
         F( vector_cross_product)( v, w, w + 3); r.add( v, 3);
         r.add( F( dot_product)( w, w + 3)); r.add( F( vector3_length)( w)); r.add( F( normalize_vect3)( w)); r.add( w, 3);
         F( polar3_to_cartesian)( v, u01( a, 7), u01( a, 8)); r.add( v, 3);
         F( ecliptic_to_equatorial)( v); r.add( v, 3);
         r.add( F( acose)( 2.2 * u01( a, 9) - 1.1)); r.add( F( asine)( 2.2 * u01( a, 9) - 1.1));
         break;
      case K_DMY: r.add( (double)F( dmy_to_day)( 1 + (int)( a % 28), 1 + (int)( a / 28 % 12), 1500 + (long)c.date * 9, 6)); break;
      }
}
bool same( const Res &x, const Res &y, double tol)
{
   if( x.n != y.n || x.s != y.s) return false;
   for( int i = 0; i < x.n; i++)
      {
      if( !memcmp( &x.d[i], &y.d[i], sizeof( double))) continue;
      if( std::isnan( x.d[i]) && std::isnan( y.d[i])) continue;
      if( !(fabs( x.d[i] - y.d[i]) <= tol * (1. + fabs( y.d[i])))) return false;
      }
   return true;
}
std::string show( const Res &r)
{
   std::string s;
   for( int i = 0; i < r.n && i < 6; i++) s += strf( "%s%.12g", i ? " " : "", r.d[i]);
   if( !r.s.empty( )) s += " '" + r.s.substr( 0, 80) + "'";
   return s;
}
std::string name( const Call &c) { return strf( "%s(%u,%u)", kind_names[c.kind], c.date, c.arg); }

/* configuration of the library:  what a call may legitimately depend on */
const char *dt_strings[] = { NULL, "", "-10000,948:2715.6,573.36,46.5;948,1620:50.6,67.5,22.5", "-10000,10000:o2000,64,10,20", "1600,2100:o2000,100,50,30" };
const char *month_pool[] = { "Enero", "Xxx", "Mai" };
struct Config {
   int dt = 0, eop = -1, month[3] = { -1, -1, -1 }, dow[2] = { -1, -1 };
   std::string key( ) const { return strf( "%d %d %d %d %d %d %d", dt, eop, month[0], month[1], month[2], dow[0], dow[1]); }
};
const int month_no[] = { 3, 12, 5 }, dow_no[] = { 0, 4 };

/* a small Earth orientation file:  shortest acceptable length */
InodeP eop_file( int k)
{
   static InodeP f[3];
   if( f[k]) return f[k];
   f[k] = InodeP( new Inode);
   f[k]->id = 200000 + k;
   f[k]->frozen = true;
   double leap = 12.;
   for( int i = 0; i < 16400; i++)
      {
      char b[189];
      memset( b, ' ', sizeof( b));
      double dt = 43.37 + (k == 1) * .3 + i * .0018, ut = 32.184 + leap - dt;
      if( ut < -.6) { leap += 1.; ut += 1.; }
      char t[40];
      auto put = [&]( int col, const char *s) { memcpy( b + col, s, strlen( s)); };
      put( 0, "730102");
      snprintf( t, sizeof( t), "%8.2f", 41684. + i); put( 7, t);
      b[16] = 'I';
      snprintf( t, sizeof( t), "%9.6f", .1 + .05 * k + i * 1e-6); put( 18, t);
      snprintf( t, sizeof( t), "%9.6f", .3 - i * 1e-6); put( 37, t);
      b[57] = 'I';
      snprintf( t, sizeof( t), "%10.7f", ut); put( 58, t);
      b[95] = 'I';
      snprintf( t, sizeof( t), "%9.3f", -60. + k * 20. + i * .001); put( 97, t);
      snprintf( t, sizeof( t), "%9.3f", -5. + i * .0003); put( 116, t);
      b[187] = '\n';
      f[k]->data.append( b, 188);
      }
   return f[k];
}
static std::map<std::string, InodeP> call_files( )
{
   FS fs;
   fs.files["/work/eop0"] = eop_file( 0);
   fs.files["/work/eop1"] = eop_file( 1);
   fs.files["/work/eop2"] = eop_file( 2);
   static std::string cosp;
   if( cosp.empty( ))
      {
      const char *r = getenv( "VERIF_REPO");
      FILE *f = fopen( (std::string( r ? r : "/repo") + "/cospar.txt").c_str( ), "rb");
      if( !f) { fprintf( stderr, "HARNESS ERROR: no cospar.txt\n"); exit( 3); }
      char b[4096];
      size_t n;
      while( (n = fread( b, 1, sizeof( b), f)) > 0) cosp.append( b, n);
      fclose( f);
      }
   fs.put( "/work/cospar.txt", cosp);
   fs.put( "/work/geo_rect.txt", "# rectangles\n-10.0     35.0      5.0       45.0      Iberia\n-75.0     40.0      -65.0     48.0      New England\n110.0     -40.0     155.0     -10.0     Australia\n170.0     -60.0     -170.0    60.0      Date line\n");
   fs.put( "/work/ades0", "# version=2017\n# observatory\n! mpcCode 703\npermID |provID     |mode|stn |obsTime                 |ra         |dec        |astCat|mag  |band\n"
      "433    |           |CCD |703 |2020-01-02T03:04:05.678Z|123.456789 |-12.345678 |Gaia2 |12.34|G\n       |2014 FA1   |CCD |F51 |2020-01-03T03:04:05.678Z| 23.456789 | 12.345678 |Gaia2 |22.34|V\n");
   fs.put( "/work/ades1", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<ades version=\"2017\">\n<obsBlock>\n<obsContext>\n<observatory><mpcCode>F51</mpcCode></observatory>\n<submitter><name>A. Observer</name></submitter>\n</obsContext>\n<obsData>\n"
      "<optical>\n<provID>2014 FA1</provID>\n<mode>CCD</mode>\n<stn>F51</stn>\n<obsTime>2020-01-03T03:04:05.678Z</obsTime>\n<ra>23.456789</ra>\n<dec>12.345678</dec>\n<astCat>Gaia2</astCat>\n<mag>22.34</mag>\n<band>V</band>\n</optical>\n</obsData>\n</obsBlock>\n</ades>\n");
   int id = 300000;
   for( auto &f : fs.files) { f.second->id = id++; f.second->frozen = true; }
   return fs.files;
}
/* the files are only read:  every world shares them */
void put_files( FS &fs)
{
   static const std::map<std::string, InodeP> all = call_files( );
   for( auto &f : all) fs.files[f.first] = f.second;
}
void apply( Module *m, const Config &c)
{
   if( c.dt) F( reset_td_minus_dt_string)( dt_strings[c.dt]);
   for( int i = 0; i < 3; i++) if( c.month[i] >= 0) F( set_month_name)( month_no[i], month_pool[c.month[i]]);
   for( int i = 0; i < 2; i++) if( c.dow[i] >= 0) F( set_day_of_week_name)( dow_no[i], month_pool[c.dow[i]]);
}
/* Answer of a fresh process with the given configuration */
const Res &fresh( const Config &cfg, const Call &c)
{
   static std::map<std::string, Res> memo;
   std::string key = cfg.key( ) + "/" + name( c);
   auto it = memo.find( key);
   if( it != memo.end( )) return it->second;
   if( memo.size( ) > 50000) memo.clear( );
   Module *m = get_module( "gustz", 50 + cfg.eop);      /* where unset locals are zero */
   static std::map<Module *, RefWorld *> worlds;
   RefWorld *&rw = worlds[m];
   if( !rw)
      {
      rw = new RefWorld;
      rw->sim.stdio_buf = 65536;
      put_files( rw->sim.fs);
      m->restore( );
      if( cfg.eop >= 0)
         {
         Proc *p = rw->sim.spawn( "loader", m, [&]( ) -> int { return F( load_earth_orientation_params)( strf( "eop%d", cfg.eop).c_str( ), NULL) <= 0; });
         rw->sim.run( );
         if( !p->clean( )) rw->sim.violate( "load", "fault-free load failed");
         for( auto &s : m->segs) memcpy( s.saved.data( ), s.addr, s.len);
         }
      rw->leave( );
      }
   rw->enter( );
   m->restore( );
   Res r;
   {
   RefWorld inner;
   inner.sim.stdio_buf = 65536;
   put_files( inner.sim.fs);
   inner.sim.spawn( "fresh", m, [&]( ) -> int { apply( m, cfg); invoke( m, c, r); return 0; });
   inner.sim.run( );
   }
   rw->leave( );
   return memo[key] = r;
}
Call draw( Tape &w, const std::vector<Call> &prev)
{
   Call c;
   c.kind = w.choose( 3) == 0 ? w.choose( N_KINDS) : w.choose( K_VSOP_FREE_BEGIN);
   if( c.kind == K_MOID && !w.chance( 1, 6)) c.kind = K_TDUT;
   c.date = w.choose( 3) ? w.choose( 12) : w.choose( 64);
   c.arg = w.choose( 3) ? w.choose( 24) : w.choose( 1000);
   if( prev.size( ) && w.chance( 1, 2))            /* repeat or vary an earlier call */
      {
      const Call &p = prev[prev.size( ) - 1 - w.choose( (u32)( prev.size( ) < 4 ? prev.size( ) : 4))];
      u32 what = w.choose( 6);
      if( what == 0) c = p;
      else if( what == 1) { c.kind = p.kind; c.date = p.date; }
      else if( what == 2) { c.kind = p.kind; c.arg = p.arg; }
      else if( what == 3) { c.date = p.date; c.arg = p.arg; }
      else if( what == 4) { c.kind = p.kind; c.date = p.arg % 24; c.arg = p.date; }
      else { c.kind = p.kind; c.date = p.date + 24 * (p.date < 24); c.arg = p.arg; }
      }
   return c;
}
}  // namespace

SCENARIO( P09, history, 1)
{
   Tape &w = sim.w;
   Module *m = get_module( "gust", 0);
   m->restore( );
   sim.stdio_buf = 65536;
   put_files( sim.fs);
   int n_ops = 2 + (int)w.choose( 14);
   bool may_eop = w.chance( 1, 12);
   Proc *p = sim.spawn( "client", m, [&]( ) -> int {
      Config cfg;
      std::vector<Call> calls;
      std::vector<std::string> keep;
      for( int op = 0; op < n_ops; op++)
         {
         u32 k = w.choose( 12);
         if( k == 1)
            {
            cfg.dt = (int)w.choose( 5);
            F( reset_td_minus_dt_string)( dt_strings[cfg.dt]);
            if( !cfg.dt) cfg.dt = 1;            /* NULL and "" both mean the default */
            sim.sample += strf( "; Delta-T string %d", cfg.dt);
            }
         else if( k == 2)
            {
            int i = (int)w.choose( 5), v = (int)w.choose( 3);
            if( i < 3) { cfg.month[i] = v; F( set_month_name)( month_no[i], month_pool[v]); }
            else { cfg.dow[i - 3] = v; F( set_day_of_week_name)( dow_no[i - 3], month_pool[v]); }
            sim.sample += strf( "; rename %d to %s", i, month_pool[v]);
            }
         else if( may_eop && k >= 3 && k < 6)
            {
            int e = (int)w.choose( 4) - 1;          /* the third differs from the first only in polar motion and nutation */
            int rv = F( load_earth_orientation_params)( e < 0 ? NULL : strf( "eop%d", e).c_str( ), NULL);
            if( e >= 0 && rv <= 0) sim.violate( "load", strf( "fault-free load gave %d", rv));
            cfg.eop = e;
            sim.sample += strf( "; EOP %d", e);
            }
         Call c = draw( w, calls);
         if( calls.size( ) && k >= 1 && k < 6 && w.chance( 1, 2)) c = calls.back( );      /* the same,  now that something it may depend on has changed */
         else if( may_eop && w.chance( 1, 4)) { c.kind = K_ORIENT; c.arg &= ~7u; c.date = w.chance( 1, 2); }
         Res r;
         sim.ev( "call %s", name( c).c_str( ));
         invoke( m, c, r);
         calls.push_back( c);
         sim.sample += "; " + name( c);
         sim.ev( "%s -> %s", name( c).c_str( ), show( r).c_str( ));
         const Res &f = fresh( cfg, c);
         if( !same( r, f, 1e-9))
            { sim.violate( "history-dependent", strf( "%s: %s; a fresh process gives %s", name( c).c_str( ), show( r).c_str( ), show( f).c_str( ))); return 0; }
         if( stateful( c.kind)) sim.count( "probe.calls_with_cached_state");
         }
      return 0;
   });
   sim.run( );
   if( !p->clean( )) sim.violate( "crash", p->describe( ));
   if( p->mem_error) sim.violate( "memory", p->mem_note);
   sim.nontrivial = true;
}

SCENARIO( P10, threads, 1)
{
   Tape &w = sim.w;
   Module *m = get_module( "libt", 0);
   m->restore( );
   int n_thr = 2 + (int)w.choose( 3);
   std::vector<std::vector<Call>> cs( n_thr);
   std::vector<std::vector<Res>> got( n_thr), alone( n_thr);
   u32 focus = K_VSOP_FREE_BEGIN + w.choose( N_KINDS - K_VSOP_FREE_BEGIN);
   if( stateful( focus)) focus = K_TIMESTR;
   sim.sample = strf( "%d threads", n_thr);
   std::vector<Call> all;
   for( int t = 0; t < n_thr; t++)
      {
      int n = 1 + (int)w.choose( 4);
      for( int i = 0; i < n; i++)
         {
         Call c = draw( w, all);
         if( stateful( c.kind)) c.kind = focus;
         if( c.kind == K_MOID && !w.chance( 1, 5)) c.kind = K_TIMESTR;
         all.push_back( c);
         cs[t].push_back( c);
         sim.sample += strf( "; t%d %s", t, name( c).c_str( ));
         }
      got[t].resize( n);
      alone[t].resize( n);
      }
   put_files( sim.fs);
   {
   RefWorld rw;
   put_files( rw.sim.fs);
   rw.sim.spawn( "alone", m, [&]( ) -> int {
      for( int t = 0; t < n_thr; t++)
         for( size_t i = 0; i < cs[t].size( ); i++) invoke( m, cs[t][i], alone[t][i]);
      return 0;
      });
   rw.sim.run( );
   }
   m->restore( );
   sim.bb_gap = pick( w, { 60, 20, 8, 3, 1, 300, 1500 });
   std::vector<Proc *> ps;
   for( int t = 0; t < n_thr; t++)
      ps.push_back( sim.spawn( strf( "thread%d", t), m, [&, t]( ) -> int {
         for( size_t i = 0; i < cs[t].size( ); i++) invoke( m, cs[t][i], got[t][i]);
         return 0; }));
   sim.run( );
   sim.bb_gap = 0;
   if( sim.n_switches) sim.count( "probe.preempted_runs");
   for( int t = 0; t < n_thr; t++)
      {
      if( !ps[t]->clean( )) sim.violate( "crash", ps[t]->describe( ));
      for( size_t i = 0; i < cs[t].size( ); i++)
         {
         sim.ev( "t%d %s -> %s", t, name( cs[t][i]).c_str( ), show( got[t][i]).c_str( ));
         if( ps[t]->clean( ) && !same( got[t][i], alone[t][i], 0.))
            sim.violate( "interference", strf( "thread %d %s: %s; alone %s", t, name( cs[t][i]).c_str( ), show( got[t][i]).c_str( ), show( alone[t][i]).c_str( )));
         }
      }
}
