#include "allp.h"
namespace spec {
typedef std::size_t S;
typedef uint32_t U;
/* the published MT19937 generator: state after seeding, regeneration, tempering */
struct ref19937
{ U x[624]; U p;
  ref19937(U seed) : p(624) { x[0]=seed; for(U i=1;i<624;i++) x[i]=1812433253u*(x[i-1]^(x[i-1]>>30))+i; }
  U next()
  { if(p>=624)
    { for(U i=0;i<624;i++) { U y=(x[i]&0x80000000u)|(x[i+1<624?i+1:i+1-624]&0x7fffffffu); U m=x[i+397<624?i+397:i+397-624]^(y>>1); x[i]=m^((y&1u)?0x9908b0dfu:0u); } p=0; }
    U y=x[p]; p++; y^=y>>11; y^=(y<<7)&0x9d2c5680u; y^=(y<<15)&0xefc60000u; y^=y>>18; return y; } };
/* numbers lo..hi-1 of the sequence; the ones before are drawn but not compared */
template <class G> void same(G& r, U seed, U lo, U hi) { ref19937 q(seed); for(U i=0;i<hi;i++) { U x=r.rand_mask(0xffffffffu), y=q.next(); if(i>=lo) V::eq("output",x,y); } }
template <class G> void sequence(U lo, U hi) { U s=V::any<U>("seed"); G r(s); same(r,s,lo,hi); }
void P12_rng_a__szm() { sequence<rng>(0,230); }
void P12_rng_b__szm() { sequence<rng>(230,460); }
void P12_rng_c__szm() { sequence<rng>(460,640); }
void P12_rng_d__szm() { sequence<rng>(1244,1252); }
void P12_mt_a__szm() { sequence<mt>(0,230); }
void P12_mt_b__szm() { sequence<mt>(230,460); }
void P12_mt_c__szm() { sequence<mt>(460,640); }
void P12_mt_d__szm() { sequence<mt>(1244,1252); }
/* default seed; seeding again restarts the sequence; a copy continues it independently */
void P12_default__szm() { rng r; same(r,5489u,0,4); mt m; same(m,5489u,0,4); }
void P12_reseed__szm() { U s=V::any<U>("seed"); rng r(V::any<U>("other")); r.rand_mask(7u); r.init(s); same(r,s,0,4); }
void P12_copy__szm()
{ U s=V::any<U>("seed"); rng r(s); r.rand_mask(7u); rng c=r; mt m(s); m.rand_mask(7u); mt d(m); 
  for(U i=0;i<3;i++) { U x=r.rand_mask(0xffffffffu); V::eq("rng copy",c.rand_mask(0xffffffffu),x); U y=m.rand_mask(0xffffffffu); V::eq("mt copy",d.rand_mask(0xffffffffu),y); } }
}
