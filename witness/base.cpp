#include "all.h"
namespace spec {
typedef std::complex<double> Z;
typedef std::size_t S;

/* ---- reductions: a vector reduces to 1x1, anything else per column ---- */
template <class T> void sum_mat()
{ S R=V::dim("R"),C=V::dim("C"); V::assume(R>1); V::assume(C>1); matrix<T> a=mk<T>("A",R,C); matrix<T> t=sum(a); V::eq("rows",t.no_rows(),(S)1); V::eq("cols",t.no_cols(),C); S j=V::idx("j",C);
  T s(0); for(S i=0;i<R;i++) s+=V::elem<T>("A",i+j*R); V::eq("sum",t(j),s); }
template <class T> void sum_vec()
{ S N=V::dim("N"); matrix<T> a=mk<T>("A",N,1), b=mk<T>("B",1,N); matrix<T> t=sum(a); V::eq("size",t.size(),(S)1); T s(0); for(S i=0;i<N;i++) s+=V::elem<T>("A",i); V::eq("column",t(0),s);
  matrix<T> u=sum(b); V::eq("size'",u.size(),(S)1); T w(0); for(S i=0;i<N;i++) w+=V::elem<T>("B",i); V::eq("row",u(0),w); }
void P07_sum_mat_d(){ sum_mat<double>(); }
void P07_sum_mat_i(){ sum_mat<int>(); }
void P07_sum_mat_z(){ sum_mat<Z>(); }
void P07_sum_vec_d(){ sum_vec<double>(); }
void P07_sum_vec_i(){ sum_vec<int>(); }
void P07_sum_stdvec()
{ S N=V::dim0("N"); std::vector<double> v(N); for(S i=0;i<N;i++) v[i]=V::elem<double>("A",i); double s(0); for(S i=0;i<N;i++) s+=V::elem<double>("A",i); V::eq("sum",susa::sum(v),s); }
void P07_mean_mat()
{ S R=V::dim("R"),C=V::dim("C"); V::assume(R>1); V::assume(C>1); matrix<double> a=mk<double>("A",R,C); matrix<double> t=mean(a); V::eq("cols",t.no_cols(),C); V::eq("rows",t.no_rows(),(S)1); S j=V::idx("j",C);
  double s(0); for(S i=0;i<R;i++) s+=V::elem<double>("A",i+j*R); V::eq("mean",t(j),s/(double)R); }
void P07_mean_vec()
{ S N=V::dim("N"); matrix<double> a=mk<double>("A",N,1), b=mk<double>("B",1,N); matrix<double> t=mean(a); V::eq("size",t.size(),(S)1); double s(0); for(S i=0;i<N;i++) s+=V::elem<double>("A",i); V::eq("column",t(0),s/(double)N);
  matrix<double> u=mean(b); V::eq("size'",u.size(),(S)1); double w(0); for(S i=0;i<N;i++) w+=V::elem<double>("B",i); V::eq("row",u(0),w/(double)N); }
void P07_norm_mat()
{ S R=V::dim("R"),C=V::dim("C"); V::assume(R>1); V::assume(C>1); matrix<double> a=mk<double>("A",R,C); matrix<double> t=norm(a); V::eq("cols",t.no_cols(),C); V::eq("rows",t.no_rows(),(S)1); S j=V::idx("j",C);
  double s(0); for(S i=0;i<R;i++) s+=V::elem<double>("A",i+j*R)*V::elem<double>("A",i+j*R); V::eq("norm",t(j),std::sqrt(s)); }
void P07_norm_vec()
{ S N=V::dim("N"); matrix<double> a=mk<double>("A",N,1), b=mk<double>("B",1,N); matrix<double> t=norm(a); V::eq("size",t.size(),(S)1); double s(0); for(S i=0;i<N;i++) s+=V::elem<double>("A",i)*V::elem<double>("A",i); V::eq("column",t(0),std::sqrt(s));
  matrix<double> u=norm(b); V::eq("size'",u.size(),(S)1); double w(0); for(S i=0;i<N;i++) w+=V::elem<double>("B",i)*V::elem<double>("B",i); V::eq("row",u(0),std::sqrt(w)); }
/* min / max: shape and validity of the positions, one position per reduced slice */
void P07_min_mat()
{ S R=V::dim("R"),C=V::dim("C"); V::assume(R>1); V::assume(C>1); matrix<double> a=mk<double>("A",R,C); matrix<S> t=min(a); V::eq("rows",t.no_rows(),(S)1); V::eq("cols",t.no_cols(),C); S j=V::idx("j",C); 
  double m=V::elem<double>("A",j*R); S p=0; for(S i=1;i<R;i++) if(V::elem<double>("A",i+j*R)<m){ m=V::elem<double>("A",i+j*R); p=i; } V::eq("position",t(j),p); }
void P07_max_mat()
{ S R=V::dim("R"),C=V::dim("C"); V::assume(R>1); V::assume(C>1); matrix<double> a=mk<double>("A",R,C); matrix<S> t=max(a); V::eq("rows",t.no_rows(),(S)1); V::eq("cols",t.no_cols(),C); S j=V::idx("j",C); 
  double m=V::elem<double>("A",j*R); S p=0; for(S i=1;i<R;i++) if(V::elem<double>("A",i+j*R)>m){ m=V::elem<double>("A",i+j*R); p=i; } V::eq("position",t(j),p); }
void P07_min_vec()
{ S N=V::dim("N"); matrix<double> a=mk<double>("A",N,1); matrix<S> t=min(a); V::eq("size",t.size(),(S)1); double m=V::elem<double>("A",0); S p=0; for(S i=1;i<N;i++) if(V::elem<double>("A",i)<m){ m=V::elem<double>("A",i); p=i; } V::eq("position",t(0),p);
  matrix<double> b=mk<double>("B",1,N); matrix<S> u=min(b); V::eq("size",u.size(),(S)1); double n=V::elem<double>("B",0); S q=0; for(S i=1;i<N;i++) if(V::elem<double>("B",i)<n){ n=V::elem<double>("B",i); q=i; } V::eq("position",u(0),q); }
void P07_max_vec()
{ S N=V::dim("N"); matrix<double> a=mk<double>("A",N,1); matrix<S> t=max(a); V::eq("size",t.size(),(S)1); double m=V::elem<double>("A",0); S p=0; for(S i=1;i<N;i++) if(V::elem<double>("A",i)>m){ m=V::elem<double>("A",i); p=i; } V::eq("position",t(0),p);
  matrix<double> b=mk<double>("B",1,N); matrix<S> u=max(b); V::eq("size",u.size(),(S)1); double n=V::elem<double>("B",0); S q=0; for(S i=1;i<N;i++) if(V::elem<double>("B",i)>n){ n=V::elem<double>("B",i); q=i; } V::eq("position",u(0),q); }
void P07_diff()
{ S N=V::dim("N"); std::vector<double> v(N); for(S i=0;i<N;i++) v[i]=V::elem<double>("A",i); std::vector<double> d=diff(v); V::eq("size",d.size(),N-1); V::assume(N>1); S i=V::idx("i",N-1); V::eq("difference",d[i],V::elem<double>("A",i+1)-V::elem<double>("A",i)); }
void P07_mean_stdvec()
{ S N=V::dim("N"); std::vector<double> v(N); for(S i=0;i<N;i++) v[i]=V::elem<double>("A",i); double s(0); for(S i=0;i<N;i++) s+=V::elem<double>("A",i); V::eq("mean",mean(v),s/(double)N); }
void P07_var_stdvec()
{ S N=V::dim("N"); std::vector<double> v(N); for(S i=0;i<N;i++) v[i]=V::elem<double>("A",i); double s(0); for(S i=0;i<N;i++) s+=V::elem<double>("A",i); double m=s/(double)N;
  double q(0); for(S i=0;i<N;i++) q+=(V::elem<double>("A",i)-m)*(V::elem<double>("A",i)-m); V::eq("variance",var(v),q/(double)N); V::eq("deviation",stdv(v),std::sqrt(q/(double)N)); }

/* ---- element-wise maps ---- */
void P05_conj()
{ S R=V::dim("R"),C=V::dim("C"); matrix<Z> a=mk<Z>("A",R,C); matrix<Z> t=conj(a); V::eq("rows",t.no_rows(),R); V::eq("cols",t.no_cols(),C); S i=V::idx("i",R),j=V::idx("j",C); Z z=V::elem<Z>("A",i+j*R); V::eq("re",t(i,j).real(),z.real()); V::eq("im",t(i,j).imag(),-z.imag()); }
void P05_to_complex()
{ S R=V::dim("R"),C=V::dim("C"); matrix<double> a=mk<double>("A",R,C); matrix<Z> t=to_complex(a); V::eq("rows",t.no_rows(),R); V::eq("cols",t.no_cols(),C); S i=V::idx("i",R),j=V::idx("j",C); V::eq("re",t(i,j).real(),V::elem<double>("A",i+j*R)); V::eq("im",t(i,j).imag(),0.0); }
void P05_real_imag()
{ S R=V::dim("R"),C=V::dim("C"); matrix<Z> a=mk<Z>("A",R,C); matrix<double> r=real(a), m=imag(a), g=mag(a); V::eq("rows",r.no_rows(),R); V::eq("cols",r.no_cols(),C); V::eq("irows",m.no_rows(),R); V::eq("icols",m.no_cols(),C); V::eq("mrows",g.no_rows(),R); V::eq("mcols",g.no_cols(),C);
  S i=V::idx("i",R),j=V::idx("j",C); Z z=V::elem<Z>("A",i+j*R); V::eq("real",r(i,j),z.real()); V::eq("imag",m(i,j),z.imag()); V::eq("mag",g(i,j),z.real()*z.real()+z.imag()*z.imag()); }
void P05_sign()
{ S R=V::dim("R"),C=V::dim("C"); matrix<double> a=mk<double>("A",R,C); matrix<int8_t> t=sign(a); V::eq("rows",t.no_rows(),R); V::eq("cols",t.no_cols(),C); S i=V::idx("i",R),j=V::idx("j",C); double x=V::elem<double>("A",i+j*R); V::eq("sign",(int)t(i,j),x>0?1:x<0?-1:0); V::eq("scalar sign",(int)sign(x),x>0?1:x<0?-1:0); }
void P05_log()
{ S R=V::dim("R"),C=V::dim("C"); matrix<double> a=mk<double>("A",R,C); matrix<double> t=log(a); V::eq("rows",t.no_rows(),R); V::eq("cols",t.no_cols(),C); S i=V::idx("i",R),j=V::idx("j",C); V::eq("log",t(i,j),std::log(V::elem<double>("A",i+j*R))); }
void P05_abs_i()
{ S R=V::dim("R"),C=V::dim("C"); matrix<int> a=mk<int>("A",R,C); matrix<int> t=abs(a); V::eq("rows",t.no_rows(),R); V::eq("cols",t.no_cols(),C); S i=V::idx("i",R),j=V::idx("j",C); int x=V::elem<int>("A",i+j*R); V::eq("abs",t(i,j),std::abs(x)); }
void P05_abs_d()
{ S R=V::dim("R"),C=V::dim("C"); matrix<double> a=mk<double>("A",R,C); matrix<double> t=abs(a); V::eq("rows",t.no_rows(),R); V::eq("cols",t.no_cols(),C); S i=V::idx("i",R),j=V::idx("j",C); double x=V::elem<double>("A",i+j*R); V::eq("abs",t(i,j),std::abs(x)); }
void P05_abs_stdvec()
{ S N=V::dim0("N"); std::vector<double> v(N); for(S i=0;i<N;i++) v[i]=V::elem<double>("A",i); std::vector<double> t=susa::abs(v); V::eq("size",t.size(),N); V::assume(N>0); S i=V::idx("i",N); V::eq("abs",t[i],std::abs(V::elem<double>("A",i))); }

/* ---- scalar functions ---- */
void P05_round()
{ double x=V::any<double>("x"); int k=V::var<int>("k",-3,0); V::eq("to an integer",susa::round(x,k),std::round(x)); V::eq("to an integer by default",susa::round(x),std::round(x));
  V::eq("one decimal",susa::round(x,1),std::round(x*10.0)/10.0); V::eq("three decimals",susa::round(x,3),std::round(x*1000.0)/1000.0); }
void P05_round_mat()
{ S R=V::dim("R"),C=V::dim("C"); matrix<double> a=mk<double>("A",R,C); matrix<double> t=susa::round(a,2), u=susa::round(a); V::eq("rows",t.no_rows(),R); V::eq("cols",t.no_cols(),C); V::eq("rows'",u.no_rows(),R); V::eq("cols'",u.no_cols(),C);
  S i=V::idx("i",R),j=V::idx("j",C); double x=V::elem<double>("A",i+j*R); V::eq("two decimals",t(i,j),std::round(x*100.0)/100.0); V::eq("integer",u(i,j),std::round(x)); }
/* Abramowitz and Stegun 26.2.17 */
void P18_normcdf()
{ double x=V::any<double>("x"); double f=susa::normcdf(x); double y=x<0?-x:x; double t=1.0/(1.0+0.2316419*y);
  double p=0.319381530*t-0.356563782*t*t+1.781477937*t*t*t-1.821255978*t*t*t*t+1.330274429*t*t*t*t*t;
  double q=0.39894228*std::exp(-x*x/2.0)*p; V::eq("approximation of the normal distribution function",f,x<0?q:1.0-q); V::eq("tail",susa::qfunc(x),1.0-f); }
void P18_symmetry()
{ double x=V::any<double>("x"); V::assume(x!=0.0); V::eq("symmetry",susa::normcdf(x)+susa::normcdf(-x),1.0); V::eq("complement",susa::normcdf(x)+susa::qfunc(x),1.0); }

/* ---- integer helpers ---- */
void P21_pow_u(){ unsigned b=V::any<unsigned>("b"); V::eq("b^0",susa::pow(b,0u),1u); V::eq("b^1",susa::pow(b,1u),b); V::eq("b^2",susa::pow(b,2u),b*b); }
void P21_pow_i(){ int b=V::var<int>("b",-1000,1000); V::eq("b^0",susa::pow(b,0u),1); V::eq("b^1",susa::pow(b,1u),b); V::eq("b^2",susa::pow(b,2u),b*b); }
void P21_pow_n(){ unsigned n=V::var<unsigned>("n",0,30); unsigned p=1; for(unsigned i=0;i<n;i++) p*=2u; V::eq("2^n",susa::pow(2u,n),p); }
void P21_pow_in(){ int b=V::var<int>("b",-9,9); unsigned n=V::var<unsigned>("n",0,9); int p=1; for(unsigned i=0;i<n;i++) p*=b; V::eq("b^n",susa::pow(b,n),p); }
void P21_pow_im(){ int b=V::var<int>("b",-2,2); unsigned n=V::var<unsigned>("n",0,30); int p=1; for(unsigned i=0;i<n;i++) p*=b; V::eq("b^n",susa::pow(b,n),p); }
void P21_pow_unit(){ unsigned n=V::any<unsigned>("n"); V::eq("1^n",susa::pow(1u,n),1u); V::eq("1^n",susa::pow(1,n),1); if(n>0){ V::eq("0^n",susa::pow(0u,n),0u); V::eq("0^n",susa::pow(0,n),0); } }
void P21_pow_sign__sz(){ unsigned n=V::var<unsigned>("n",0,40); V::eq("(-1)^n",susa::pow(-1,n),n%2?-1:1); unsigned k=V::var<unsigned>("k",0,6); unsigned m[7]={63,64,127,255,256,257,1000}; V::eq("(-1)^n",susa::pow(-1,m[k]),m[k]%2?-1:1); }
void P21_mod_big(){ long a=V::any<long>("a"), m=V::any<long>("m"); V::assume(m>0&&a>=0); long r=susa::mod(a,m); V::check("residue",r>=0&&r<m); V::check("congruent",(a-r)%m==0); }
void P21_mod_bigneg(){ long a=V::any<long>("a"), m=V::any<long>("m"); V::assume(m>0&&a<0); long r=susa::mod(a,m); V::check("residue",r>=0&&r<m); V::check("congruent",r==0?a%m==0:r-m==a%m); }
void P21_mod_pp(){ long a=V::var<long>("a",0,1000000), m=V::var<long>("m",1,1000); long r=susa::mod(a,m); V::check("residue",r>=0&&r<m); V::check("congruent",(a-r)%m==0); }
void P21_mod_np(){ long a=V::var<long>("a",-1000000,-1), m=V::var<long>("m",1,1000); long r=susa::mod(a,m); V::check("residue",r>=0&&r<m); V::check("congruent",(a-r)%m==0); }
void P21_mod_pn(){ long a=V::var<long>("a",0,1000000), m=V::var<long>("m",-1000,-1); long r=susa::mod(a,m); V::check("residue takes the sign of the modulus",r<=0&&r>m); V::check("congruent",(a-r)%m==0); }
void P21_mod_nn(){ long a=V::var<long>("a",-1000000,-1), m=V::var<long>("m",-1000,-1); long r=susa::mod(a,m); V::check("residue takes the sign of the modulus",r<=0&&r>m); V::check("congruent",(a-r)%m==0); }
template <class T> void lg() { T y=V::any<T>("x"), k=V::var<T>("k",0,(T)(8*sizeof(T)-1)); T b=(T)((T)1<<k); V::assume(y>=b&&y-b<b); V::eq("position of the leading one",susa::log2(y),k); }
void P21_log2_u__sz(){ lg<unsigned>(); }
void P21_log2_b__sz(){ lg<unsigned char>(); }
void P21_log2_s__sz(){ lg<unsigned short>(); }
}
