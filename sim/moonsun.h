#pragma once
/* Where the Sun and the Moon are,  independently of the code under test,  from published
terms (VSOP87,  Meeus' form of ELP),  and a vsop.bin made from the same terms */
#include "util.h"
#include <math.h>
#include <map>

namespace {
const double TAU = 2. * M_PI, DEG = M_PI / 180.;
/* Sun:  the larger terms of VSOP87 for the Earth,  1e-8 radians,  equinox of date */
struct Vt { double a, b, c; };
const std::vector<Vt> L_TERMS[3] = {
   { { 175347046., 0., 0. }, { 3341656., 4.6692568, 6283.07585 }, { 34894., 4.6261, 12566.1517 }, { 3497., 2.7441, 5753.3849 }, { 3418., 2.8289, 3.5231 }, { 3136., 3.6277, 77713.7715 },
     { 2676., 4.4181, 7860.4194 }, { 2343., 6.1352, 3930.2097 }, { 1324., .7425, 11506.7698 }, { 1273., 2.0371, 529.691 }, { 1199., 1.1096, 1577.3435 }, { 990., 5.233, 5884.927 }, { 902., 2.045, 26.298 },
     { 857., 3.508, 398.149 }, { 780., 1.179, 5223.694 }, { 753., 2.533, 5507.553 }, { 505., 4.583, 18849.228 }, { 492., 4.205, 775.523 } },
   { { 628331966747., 0., 0. }, { 206059., 2.678235, 6283.07585 }, { 4303., 2.6351, 12566.1517 } },
   { { 52919., 0., 0. }, { 8720., 1.0721, 6283.0758 }, { 309., .867, 12566.152 } } };
inline double earth_lon( double t)            /* t in centuries;  radians */
{
   double s = 0., p = 1.;
   t /= 10.;
   for( auto &l : L_TERMS)
      {
      double x = 0.;
      for( auto &q : l) x += q.a * cos( q.b + q.c * t);
      s += x * p;
      p *= t;
      }
   return s * 1e-8;
}
inline double light_time( double t)           /* centuries */
{
   t /= 10.;
   double r = 1.00014 + .01670700 * cos( 3.0984635 + 6283.07585 * t) + .00013956 * cos( 3.05525 + 12566.1517 * t);
   return r * 499.00478 / 86400. / 36525.;
}
inline double sun_lon( double jd)             /* degrees */
{
   double t = (jd - 2451545.) / 36525.;
   return earth_lon( t - light_time( t)) / DEG + 180.;
}
const struct { int d, m, mp, f; long a; } MOON[] = {
      { 0, 0, 1, 0, 6288774 }, { 2, 0, -1, 0, 1274027 }, { 2, 0, 0, 0, 658314 }, { 0, 0, 2, 0, 213618 }, { 0, 1, 0, 0, -185116 },
      { 0, 0, 0, 2, -114332 }, { 2, 0, -2, 0, 58793 }, { 2, -1, -1, 0, 57066 }, { 2, 0, 1, 0, 53322 }, { 2, -1, 0, 0, 45758 },
      { 0, 1, -1, 0, -40923 }, { 1, 0, 0, 0, -34720 }, { 0, 1, 1, 0, -30383 }, { 2, 0, 0, -2, 15327 }, { 0, 0, 1, 2, -12528 },
      { 0, 0, 1, -2, 10980 }, { 4, 0, -1, 0, 10675 }, { 0, 0, 3, 0, 10034 }, { 4, 0, -2, 0, 8548 }, { 2, 1, -1, 0, -7888 },
      { 2, 1, 0, 0, -6766 }, { 1, 0, -1, 0, -5163 }, { 1, 1, 0, 0, 4987 }, { 2, -1, 1, 0, 4036 }, { 2, 0, 2, 0, 3994 },
      { 4, 0, 0, 0, 3861 }, { 2, 0, -3, 0, 3665 }, { 0, 1, -2, 0, -2689 }, { 2, 0, -1, 2, -2602 }, { 2, -1, -2, 0, 2390 } };
const double FUND[25] = { 218.3164591, 481267.88123421, -.0015786, 1. / 538841., -1. / 65194000., 297.8501921, 445267.1114034, -.0018819, 1. / 545868., -1. / 113065000.,
         357.5291092, 35999.0502909, -.0001536, 1. / 24490000., 0., 134.9633964, 477198.8675055, .0087414, 1. / 69699., -1. / 14712000., 93.272095, 483202.0175233, -.0036539, -1. / 3526000., 1. / 863310000. };
inline double moon_lon( double jd)
{
   const double t = (jd - 2451545.) / 36525., e = 1. - .002516 * t - .0000074 * t * t;
   double f[5];
   for( int i = 0; i < 5; i++) f[i] = FUND[i * 5] + t * (FUND[i * 5 + 1] + t * (FUND[i * 5 + 2] + t * (FUND[i * 5 + 3] + t * FUND[i * 5 + 4])));
   double s = 3958. * sin( (119.75 + 131.849 * t) * DEG) + 1962. * sin( (f[0] - f[4]) * DEG) + 318. * sin( (53.09 + 479264.29 * t) * DEG);
   for( auto &q : MOON) s += q.a * sin( (q.d * f[1] + q.m * f[2] + q.mp * f[3] + q.f * f[4]) * DEG) * pow( e, abs( q.m));
   return f[0] + s * 1e-6;
}
inline double centred( double x, double cycle) { return x - cycle * floor( x / cycle + .5); }
/* a vsop.bin with the Sun's and Moon's larger terms,  and those of the planets given
(index = (planet - 1) * 18 + (longitude,  latitude,  radius) * 6 + power;  planet > 1) */
typedef std::map<int, std::vector<Vt>> VsopTerms;
const struct { int d, m, mp, f; long b; } MOON_LAT[] = {
      { 0, 0, 0, 1, 5128122 }, { 0, 0, 1, 1, 280602 }, { 0, 0, 1, -1, 277693 }, { 2, 0, 0, -1, 173237 }, { 2, 0, -1, 1, 55413 }, { 2, 0, -1, -1, 46271 } };
inline std::string make_vsop( VsopTerms terms)
{
   std::string d( 22 * 2767, 0);
   auto put16 = [&]( size_t at, int v) { d[at] = (char)( v & 255); d[at + 1] = (char)( (v >> 8) & 255); };
   auto put32 = [&]( size_t at, long v) { put16( at, (int)( v & 0xffff)); put16( at + 2, (int)( (v >> 16) & 0xffff)); };
   auto putd = [&]( size_t at, double v) { memcpy( &d[at], &v, 8); };
   for( int i = 0; i < 3; i++) terms[36 + i] = L_TERMS[i];
   int n = 0x78;
   for( int i = 0; i < 145; i++)
      {
      int loc = !i ? 0 : (i < 10 ? 38 : (i < 134 ? n : 0x93e));
      put16( i * 2, loc);
      if( i < 18 || i > 132 || !terms.count( i)) continue;
      for( auto &q : terms[i])
         {
         size_t at = 290 + 24 * (size_t)n++;
         putd( at, q.a); putd( at + 8, q.b); putd( at + 16, q.c);
         }
      }
   size_t at = 59354;
   for( auto &q : MOON)
      {
      d[at] = (char)q.d; d[at + 1] = (char)q.m; d[at + 2] = (char)q.mp; d[at + 3] = (char)q.f;
      put32( at + 4, q.a);
      at += 12;
      }
   d[0xea0a] = 'q';
   at = 60074;
   for( auto &q : MOON_LAT)
      {
      d[at] = (char)q.d; d[at + 1] = (char)q.m; d[at + 2] = (char)q.mp; d[at + 3] = (char)q.f;
      put32( at + 4, q.b);
      at += 8;
      }
   for( int i = 0; i < 25; i++) putd( 60554 + i * 8, FUND[i]);
   return d;
}
inline double moon_lat( double jd)
{
   const double t = (jd - 2451545.) / 36525.;
   double f[5], s = 0.;
   for( int i = 0; i < 5; i++) f[i] = FUND[i * 5] + t * (FUND[i * 5 + 1] + t * (FUND[i * 5 + 2] + t * (FUND[i * 5 + 3] + t * FUND[i * 5 + 4])));
   for( auto &q : MOON_LAT) s += q.b * sin( (q.d * f[1] + q.m * f[2] + q.mp * f[3] + q.f * f[4]) * DEG);
   return s * 1e-6;
}
inline long jdn( long y, int m, int d)        /* Julian calendar before 1582 October 15 */
{
   bool greg = y > 1582 || (y == 1582 && (m > 10 || (m == 10 && d >= 15)));
   long a = (14 - m) / 12, yy = y + 4800 - a;
   int mm = m + 12 * (int)a - 3;
   long r = d + (153 * mm + 2) / 5 + 365 * yy + (long)floor( yy / 4.);
   return greg ? r - (long)floor( yy / 100.) + (long)floor( yy / 400.) - 32045 : r - 32083;
}
inline int month_len( long y, int m) { return (int)( jdn( y + m / 12, m % 12 + 1, 1) - jdn( y, m, 1)); }
}
