#include "all.h"
namespace spec {
typedef std::size_t S;
typedef uint32_t U;
typedef std::complex<double> C;
/* square constellations: the grid with unit spacing centred at the origin, each point once */
double level(S i, S l) { return (double)i-((double)l-1)/2; }
S side(unsigned m) { return m==4?2:m==16?4:m==64?8:16; }
void P14_qam_points__sz() { unsigned k=V::var<unsigned>("k",1,4), m=1u<<(2*k); S l=side(m); qam q(m); matrix<C> s=q.get_constellation(); V::eq("rows",s.no_rows(),l); V::eq("cols",s.no_cols(),l);
  for(S i=0;i<l;i++) for(S j=0;j<l;j++) { V::eq("in-phase",s(i,j).real(),level(i,l)); V::eq("quadrature",s(i,j).imag(),level(j,l)); } }
/* a point sent and received with a displacement below half of the spacing is recovered */
void P14_qam_near__sz() { unsigned k=V::var<unsigned>("k",1,3), m=1u<<(2*k); S l=side(m); S i=V::var<S>("i",0,7), j=V::var<S>("j",0,7); V::assume(i<l&&j<l); qam q(m); double x=V::any<double>("x"), y=V::any<double>("y"); V::assume(x<0.5&&x>-0.5&&y<0.5&&y>-0.5);
  C z=q.demodulate_symbol(C(level(i,l)+x,level(j,l)+y)); V::eq("in-phase",z.real(),level(i,l)); V::eq("quadrature",z.imag(),level(j,l)); }
/* every other received value gives a nearest point */
void P14_qam_far__sz() { qam q(4u); double x=V::any<double>("x"), y=V::any<double>("y"); C z=q.demodulate_symbol(C(x,y)); double a=z.real(), b=z.imag();
  V::check("a point",(a==0.5||a==-0.5)&&(b==0.5||b==-0.5)); double d=(x-a)*(x-a)+(y-b)*(y-b);
  for(S i=0;i<2;i++) for(S j=0;j<2;j++) { double u=x-level(i,2), v=y-level(j,2); V::check("nearest",d<=u*u+v*v); } }
void P14_qam_noise__sz() { unsigned k=V::var<unsigned>("k",1,4), m=1u<<(2*k); qam q(m); double e=V::any<double>("e"), r=q.get_noise_deviation(e); S l=side(m); double es=0; for(S i=0;i<l;i++) for(S j=0;j<l;j++) es+=level(i,l)*level(i,l)+level(j,l)*level(j,l);
  V::eq("half the noise density",r*r*m*2*k*2,es*std::pow(10.0,-(e/10))); }
/* additive noise of the documented deviation, independent samples of the default generator */
double power(double a) { return a*a; }
double power(C a) { return a.real()*a.real()+a.imag()*a.imag(); }
template <class T> double scale(const matrix<T>& a, float snr, unsigned ovs) { double p=0; for(S i=0;i<a.size();i++) p+=power(a(i)); return std::sqrt(0.5*ovs*p/a.size()/std::pow(10.0,(double)(snr/10))); }
template <class T> void input(matrix<T>& a, S n) { for(S i=0;i<n;i++) a(i)=V::elem<T>("A",i); }
void P14_awgn_real__szu()
{ S n=V::var<S>("n",1,3); float snr=V::any<float>("snr"); matrix<double> a(n,1); input(a,n); matrix<double> z=awgn(a,snr); V::eq("rows",z.no_rows(),n); V::eq("cols",z.no_cols(),1); double s=scale(a,snr,1); rng g; for(S i=0;i<n;i++) V::eq("sample",z(i),s*g.randn()); }
void P14_awgn_ovs__szu()
{ float snr=V::any<float>("snr"); matrix<double> a(2,1); input(a,2); matrix<double> z=awgn(a,snr,3); double s=scale(a,snr,3); rng g; for(S i=0;i<2;i++) V::eq("sample",z(i),s*g.randn()); }
void P14_awgn_complex__szu()
{ S n=V::var<S>("n",1,2); float snr=V::any<float>("snr"); matrix<C> a(n,1); input(a,n); auto z=awgn(a,snr); V::eq("rows",z.no_rows(),n); V::eq("cols",z.no_cols(),1); double s=scale(a,snr,1); rng g; for(S i=0;i<n;i++) { double x=g.randn(), y=g.randn(); V::eq("power of a sample",power((C)z(i)),s*s*(x*x+y*y)); } }
/* root-raised cosine: the sampled frequency response transformed back, symmetric, with unit energy */
double raised(double f, double a) { if(f<0) f=-f; if(f<=(1-a)/2) return 1; if(f>(1+a)/2) return 0; return 0.5*(1+std::cos(3.141592653589793238462643383279*(f-(1-a)/2)/a)); }
void P14_rrc__sz()
{ S h=V::var<S>("h",0,3), l=V::var<S>("l",1,3), k=V::var<S>("k",1,4); int n=2*(int)h+1; double al=(double)k/4; rrcosine r((unsigned)l,al,n); matrix<double> t=r.get(); V::eq("taps",t.size(),(S)n);
  double e=0; for(int i=0;i<n;i++) { V::eq("symmetric",t(i),t(n-1-i)); e+=t(i)*t(i); } V::eq("unit energy",e,1.0);
  matrix<double> g(n,1); for(int i=0;i<n;i++) { double x=0; for(int m=-(int)h;m<=(int)h;m++) x+=std::sqrt(raised((double)l*m/n,al))*std::cos(2*3.141592653589793238462643383279*m*(i-(int)h)/n); g(i)=x; }
  for(int i=0;i<n;i++) V::eq("shape of the response",t(i)*g((int)h),g(i)*t((int)h)); V::check("positive centre",t((int)h)>0); }
}
