#pragma once
#include "core.h"
#include <math.h>
/* Runs a fault-free, single-process reference execution in a world of its own. */
struct RefWorld {
   CurState saved;
   Sim sim;
   RefWorld( ) : saved( save_current( )) {
      sim.w.replay = sim.s.replay = sim.f.replay = true;
      sim.faults_on = false;
      if( saved.sim) sim.wall0_us = saved.sim->wall0_us;
      go( );
   }
   void go( ) { CurState c = saved; c.sim = &sim; c.cur = c.pending = NULL; restore_current( c); }
   ~RefWorld( ) { leave( ); }
   /* while a RefWorld exists, g_sim is its Sim;  call leave( ) to switch back */
   void leave( ) { restore_current( saved); }
   void enter( ) { saved = save_current( ); go( ); }
};
static inline u32 pick( Tape &t, std::initializer_list<u32> l)
{
   return *( l.begin( ) + t.choose( (u32)l.size( )));
}
/* fault rates (ppm):  0 is 'off' so that minimisation switches kinds off */
static inline u32 rate( Tape &t, u32 hi) { return t.choose( 3) == 0 ? 0 : (u32)( hi / (1 + t.choose( 8))); }
/* A fault class is either off or on for a run:  choice 0 = off. */
static inline u32 on_off( Tape &t, u32 num, u32 den, u32 val) { return t.chance( num, den) ? val : 0; }

/* the Sun seen from the Earth,  in the ecliptic of J2000;  radians and AU,  to some arcseconds */
inline void sun_j2000( double jd, double *lam_out, double *beta_out, double *r_out)
{
   /*  from the larger terms of VSOP87,  in the ecliptic of J2000 */
   static const double l0[][3] = { { 3341656., 4.6692568, 6283.07585 }, { 34894., 4.6261, 12566.1517 }, { 3497., 2.7441, 5753.3849 }, { 3418., 2.8289, 3.5231 }, { 3136., 3.6277, 77713.7715 },
      { 2676., 4.4181, 7860.4194 }, { 2343., 6.1352, 3930.2097 }, { 1324., .7425, 11506.7698 }, { 1273., 2.0371, 529.691 }, { 1199., 1.1096, 1577.3435 }, { 990., 5.233, 5884.927 }, { 902., 2.045, 26.298 },
      { 857., 3.508, 398.149 }, { 780., 1.179, 5223.694 }, { 753., 2.533, 5507.553 }, { 505., 4.583, 18849.228 }, { 492., 4.205, 775.523 } };
   static const double r0[][3] = { { 1670700., 3.0984635, 6283.07585 }, { 13956., 3.05525, 12566.1517 }, { 3084., 5.1985, 77713.7715 }, { 1628., 1.1739, 5753.3849 }, { 1576., 2.8469, 7860.4194 },
      { 925., 5.453, 11506.770 }, { 542., 4.564, 3930.210 } };
   const double T = ( jd - 2451545.) / 365250.;
   double lam = 175347046. + 628331966747. * T + T * ( 206059. * cos( 2.678235 + 6283.07585 * T) + 4303. * cos( 2.6351 + 12566.1517 * T)), R = 100013989. + T * 103019. * cos( 1.10749 + 6283.07585 * T);
   for( auto &q : l0) lam += q[0] * cos( q[1] + q[2] * T);
   for( auto &q : r0) R += q[0] * cos( q[1] + q[2] * T);
   lam = lam * 1e-8 - ( 13.969713 * T + .0309 * T * T) * M_PI / 180.; R *= 1e-8;
   *beta_out = T * 227778e-8 * cos( 3.4137662 + 6283.07585 * T);
   *lam_out = lam + M_PI; *r_out = R;
}
