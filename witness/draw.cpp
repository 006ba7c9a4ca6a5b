#include "allp.h"
namespace spec {
typedef std::size_t S;
typedef uint32_t U;
/* the next words of the generator become arbitrary values (their sequence is the subject of P12) */
template <class G> auto words(G& g, S n, int) -> decltype(g.MT[0],g.uint_index,void()) { for(S i=0;i<n;i++) g.MT[i]=V::elem<U>("W",i); g.uint_index=0; }
template <class G> auto words(G& g, S n, int) -> decltype(g.uint_mt[0],g.mti,void()) { for(S i=0;i<n;i++) g.uint_mt[i]=V::elem<U>("W",i); g.mti=0; }
template <class G> void words(G& g, S n, long) {}
const U full = 0xffffffffu;
const double top = 4294967295.0, span = 4294967296.0;
template <class M> void column(const M& m, S n) { V::eq("rows",m.no_rows(),n); V::eq("cols",m.no_cols(),1); }
/* every form of drawing is a fixed map of the successive words of the generator */
void P13_rng_rand__szu()
{ U s=7u; rng r(s); words(r,8,0); rng q(r);
  for(U i=0;i<3;i++) { U u=q.rand_mask(full); double x=r.rand(); V::eq("uniform",x*top,(double)u); V::check("not negative",x>=0); V::check("at most one",x<=1); } }
void P13_rng_rand_vec__szu()
{ U s=7u; S n=V::var<S>("n",1,4); rng r(s); words(r,8,0); rng q(r); matrix<double> m=r.rand((U)n); column(m,n);
  for(S i=0;i<n;i++) { U u=q.rand_mask(full); V::eq("uniform",m(i)*top,(double)u); } V::eq("nothing more is drawn",r.rand_mask(full),q.rand_mask(full)); }
void P13_rng_rand_mat__szu()
{ U s=7u; S n=V::var<S>("n",1,3), k=V::var<S>("k",1,3); rng r(s); words(r,8,0); rng q(r); matrix<double> m=r.rand((U)n,(U)k); V::eq("rows",m.no_rows(),n); V::eq("cols",m.no_cols(),k);
  for(S j=0;j<k;j++) for(S i=0;i<n;i++) { U u=q.rand_mask(full); V::eq("uniform",m(i,j)*top,(double)u); } V::eq("nothing more is drawn",r.rand_mask(full),q.rand_mask(full)); }
template <class G> void masked() { U s=7u, k=V::any<U>("mask"); G r(s); words(r,8,0); G q(r); for(U i=0;i<3;i++) { U u=q.rand_mask(full); V::eq("masked",r.rand_mask(k),u&k); } }
template <class G> void masked_vec()
{ U s=7u, k=V::any<U>("mask"); S n=V::var<S>("n",1,4); G r(s); words(r,8,0); G q(r); matrix<unsigned int> m=r.rand_mask(k,(U)n); column(m,n);
  for(S i=0;i<n;i++) { U u=q.rand_mask(full); V::eq("masked",m(i),u&k); } V::eq("nothing more is drawn",r.rand_mask(full),q.rand_mask(full)); }
void P13_rng_mask__szu() { masked<rng>(); }
void P13_rng_mask_vec__szu() { masked_vec<rng>(); }
void P13_mt_mask__szu() { masked<mt>(); }
void P13_mt_mask_vec__szu() { masked_vec<mt>(); }
void P13_rng_bernoulli__szu()
{ U s=7u; S n=V::var<S>("n",1,4); rng r(s); words(r,8,0); rng q(r); matrix<int8_t> m=r.bernoulli(n); column(m,n);
  for(S i=0;i<n;i++) { U u=q.rand_mask(full); V::eq("lowest bit",(int)m(i),(int)(u&1u)); } V::eq("nothing more is drawn",r.rand_mask(full),q.rand_mask(full)); }
void P13_mt_rand_vec__szu()
{ U s=7u; S n=V::var<S>("n",1,4); mt r(s); words(r,8,0); mt q(r); matrix<double> m=r.rand((U)n); column(m,n);
  for(S i=0;i<n;i++) { U u=q.rand_mask(full); V::eq("uniform",m(i)*top,(double)u); } V::eq("nothing more is drawn",r.rand_mask(full),q.rand_mask(full)); }
void P13_mt_bernoulli__szu()
{ U s=7u; double p=V::any<double>("p"); mt r(s); words(r,8,0); mt q(r); U u=q.rand_mask(full); unsigned b=r.bernoulli(p); 
  V::check("one exactly with the probability",(b==1)==((double)u+0.5<=p*span)); V::check("zero or one",b==0||b==1); if(p>=1) V::eq("certain",b,1u); if(p<=0) V::eq("impossible",b,0u); }
void P13_mt_randint__szu()
{ U s=7u, k=V::any<U>("max"); V::assume(k>=1); mt r(s); words(r,8,0); mt q(r); U u=q.rand_mask(full), x=r.randint(k); V::check("at least one",x>=1); V::check("at most the maximum",x<=k); V::eq("remainder",x,u%k+1); }
/* the chosen index k: the draw lies in the interval of length p(k) that follows the smaller probabilities */
template <class F> void weighted(S n, F draw)
{ U s=7u; mt r(s); words(r,8,0); mt q(r); matrix<double> p(n,1); double t=0; for(S i=0;i<n;i++) { double e=V::elem<double>("p",i); V::assume(e>=0); p(i)=e; t+=e; } V::assume(t==1);
  double x=((double)q.rand_mask(full)+0.5)/span; unsigned k=draw(r,p); V::check("in range",k<n);
  if(k<n) { double lo=0, hi=0; for(S i=0;i<n;i++) { if(p(i)<p(k)) lo+=p(i); if(p(i)<=p(k)) hi+=p(i); } V::check("not below its interval",lo<=x); V::check("not above its interval",x<=hi); V::check("a possible value",p(k)>0); } }
void P13_mt_nonuniform__szu() { weighted(V::var<S>("n",2,3),[](mt& r, matrix<double>& p) { return r.nonuniform(p); }); }
void P13_mt_nonuniform_set__szu() { weighted(V::var<S>("n",2,3),[](mt& r, matrix<double>& p) { r.set_probabilities(p); return r.nonuniform(); }); }
void P13_mt_nonuniform_vec__szu()
{ U s=7u; S n=V::var<S>("n",2,3), l=V::var<S>("l",1,2); mt r(s); words(r,8,0); mt q(r); matrix<double> p(n,1); double t=0; for(S i=0;i<n;i++) { double e=V::elem<double>("p",i); V::assume(e>=0); p(i)=e; t+=e; } V::assume(t==1);
  matrix<unsigned int> m=r.nonuniform(p,(U)l); column(m,l);
  for(S j=0;j<l;j++) { double x=((double)q.rand_mask(full)+0.5)/span; unsigned k=m(j); V::check("in range",k<n); double lo=0; if(k<n) { for(S i=0;i<k;i++) lo+=p(i); V::check("not below its interval",lo<=x); V::check("not above its interval",x<lo+p(k)); } } }
/* Gaussian drawing is the polar method: pairs outside of the unit disc are rejected, the first inside gives two values */
struct polar { double a, b, w; template <class G> polar(G& q) { U u=q.rand_mask(full), v=q.rand_mask(full); a=2*((double)u/top)-1; b=2*((double)v/top)-1; w=a*a+b*b; } };
void P13_rng_randn__szu() { rng r(7u); words(r,8,0); rng q(r); polar p(q); V::assume(p.w<1&&p.w>0); V::eq("value",r.randn(),p.a*std::sqrt(-2*std::log(p.w)/p.w)); V::eq("nothing more is drawn",r.rand_mask(full),q.rand_mask(full)); }
void P13_rng_randn_reject__szu() { rng r(7u); words(r,8,0); rng q(r); polar o(q); V::assume(o.w>=1); polar p(q); V::assume(p.w<1&&p.w>0); V::eq("value",r.randn(),p.a*std::sqrt(-2*std::log(p.w)/p.w)); V::eq("nothing more is drawn",r.rand_mask(full),q.rand_mask(full)); }
template <class G> void gauss(S n)
{ G r(7u); words(r,8,0); G q(r); matrix<double> e(n,1);
  for(S i=0;i<n;i+=2) { polar p(q); V::assume(p.w<1&&p.w>0); double f=std::sqrt(-2*std::log(p.w)/p.w); e(i)=p.a*f; if(i+1<n) e(i+1)=p.b*f; }
  matrix<double> m=r.randn((U)n); column(m,n); for(S i=0;i<n;i++) V::eq("value",m(i),e(i)); V::eq("nothing more is drawn",r.rand_mask(full),q.rand_mask(full)); }
void P13_rng_randn_vec__szu() { gauss<rng>(V::var<S>("n",1,4)); }
void P13_mt_randn_vec__szu() { gauss<mt>(V::var<S>("n",1,4)); }
}
