#include "all.h"
namespace spec {
typedef std::size_t S;

/* ---- decompositions and the solvers built on them; __sz scenarios are analysed at fixed sizes with symbolic elements ---- */
template <class F> double dot(S n, F f) { double s(0); for(S k=0;k<n;k++) s+=f(k); return s; }
void P09_lu__sz()
{ S N=V::var<S>("N",1,4); matrix<double> a=mk<double>("A",N,N); lu<double> d(a); bool ok=d.decompose();
  if(!ok) return;
  const matrix<double>& l=d.get_lower(); const matrix<double>& u=d.get_upper();
  V::eq("rows",l.no_rows(),N); V::eq("cols",u.no_cols(),N);
  for(S i=0;i<N;i++) for(S j=0;j<N;j++)
  { if(i<j) V::eq("lower is lower triangular",l(i,j),0.0);
    if(i==j) V::eq("unit diagonal",l(i,j),1.0);
    if(i>j) V::eq("upper is upper triangular",u(i,j),0.0);
    if(i==j&&i+1<N) V::check("pivots of a successful decomposition are nonzero",u(i,i)!=0.0);
    double s(0); for(S k=0;k<N;k++) s+=l(i,k)*u(k,j); V::eq("L*U = A",s,V::elem<double>("A",i+j*N)); } }
/* one analysis for each combination of signs of the first column */
inline S order() { unsigned g=V::var<unsigned>("g",0,7); S N=V::var<S>("N",1,3); V::assume(N>2||g==0); if(N>2) for(S i=0;i<3;i++) { if((g>>i)&1u) V::assume(V::elem<double>("A",i)>=0); else V::assume(V::elem<double>("A",i)<0); } return N; }
void P09_lup_solve__szu8()
{ S N=order(); matrix<double> a=mk<double>("A",N,N), b=mk<double>("B",N,1); lup<double> d(a); bool ok=d.decompose();
  if(!ok) return;
  matrix<double> x=d.solve(b); V::eq("size",x.size(),N);
  for(S i=0;i<N;i++)
  { V::check("pivots of a successful decomposition are nonzero",d.get_lu()(i,i)!=0.0);
    double s(0); for(S k=0;k<N;k++) s+=V::elem<double>("A",i+k*N)*x(k); V::eq("A*x = b",s,V::elem<double>("B",i)); } }
void P09_lup_invert__sz()
{ S N=V::var<S>("N",1,2); matrix<double> a=mk<double>("A",N,N); lup<double> d(a); bool ok=d.decompose();
  if(!ok) return;
  matrix<double> x=d.invert(); V::eq("rows",x.no_rows(),N); V::eq("cols",x.no_cols(),N);
  for(S i=0;i<N;i++) for(S j=0;j<N;j++)
  { double s(0); for(S k=0;k<N;k++) s+=V::elem<double>("A",i+k*N)*x(k,j); V::eq("A*X = I",s,i==j?1.0:0.0); } }
void P09_lup_alt__szu8()
{ S N=order(); matrix<double> a=mk<double>("A",N,N); lup<double> d(a); bool ok=d.decompose_alt();
  if(!ok) return;
  const matrix<double>& f=d.get_lu(); const matrix<double>& p=d.get_pivot();
  for(S i=0;i<N;i++) for(S j=0;j<N;j++)
  { double s(0); for(S k=0;k<=i&&k<=j;k++) s+=(k==i?1.0:f(i,k))*f(k,j);
    double t(0); for(S k=0;k<N;k++) t+=p(i,k)*V::elem<double>("A",k+j*N);
    V::eq("L*U = P*A",s,t); } }
void P09_linsolve__sz()
{ S N=V::var<S>("N",1,2); matrix<double> a=mk<double>("A",N,N), b=mk<double>("B",N,1); lup<double> d(a); bool ok=d.decompose();
  if(!ok) return;
  matrix<double> x=linsolve(a,b); V::eq("size",x.size(),N);
  for(S i=0;i<N;i++)
  { double s(0); for(S k=0;k<N;k++) s+=V::elem<double>("A",i+k*N)*x(k); V::eq("A*x = b",s,V::elem<double>("B",i)); }
  V::eq("the matrix is not modified",a(N-1,0),V::elem<double>("A",N-1)); V::eq("the right side is not modified",b(N-1),V::elem<double>("B",N-1)); }
void P09_inv__sz()
{ S N=V::var<S>("N",1,2); matrix<double> a=mk<double>("A",N,N); lup<double> d(a); bool ok=d.decompose();
  if(!ok) return;
  matrix<double> x=inv(a); V::eq("rows",x.no_rows(),N); V::eq("cols",x.no_cols(),N);
  for(S i=0;i<N;i++) for(S j=0;j<N;j++)
  { double s(0); for(S k=0;k<N;k++) s+=V::elem<double>("A",i+k*N)*x(k,j); V::eq("A*X = I",s,i==j?1.0:0.0); } }
inline double ab(double x) { if(x<0) return -x; return x; }
void P09_lup_pivot__sz()
{ S N=V::var<S>("N",1,2); matrix<double> a=mk<double>("A",N,N); lup<double> d(a,0.125); bool ok=d.decompose();
  double p=V::elem<double>("A",0), q=V::elem<double>("A",1);
  if(N==1) { if(ab(p)<0.125) V::check("refuses a pivot below the tolerance",!ok); else V::check("accepts pivots from the tolerance on",ok); return; }
  bool first=!(ab(p)<ab(q)); double m=first?p:q;
  if(ab(m)<0.125) { V::eq("no usable pivot in the first column",ok,false); return; }
  double r=first?V::elem<double>("A",3)-q/p*V::elem<double>("A",2):V::elem<double>("A",2)-p/q*V::elem<double>("A",3);
  if(ab(r)<0.125) V::check("refuses a pivot below the tolerance",!ok); else V::check("accepts pivots from the tolerance on",ok);
  if(!ok) return;
  const matrix<double>& f=d.get_lu();
  V::eq("the pivot is the largest element of its column",f(0,0),m); V::eq("second pivot",f(1,1),r); }
void P09_lup_alt_pivot__sz()
{ S N=V::var<S>("N",1,2); matrix<double> a=mk<double>("A",N,N); lup<double> d(a,0.125); bool ok=d.decompose_alt();
  double p=V::elem<double>("A",0), q=V::elem<double>("A",1);
  if(N==1) { if(std::abs(p)<0.125) V::check("refuses a pivot below the tolerance",!ok); else V::check("accepts pivots from the tolerance on",ok); return; }
  bool first=!(std::abs(p)<std::abs(q)); double m=first?p:q;
  if(std::abs(m)<0.125) { V::eq("no usable pivot in the first column",ok,false); return; }
  double r=first?V::elem<double>("A",3)-q/p*V::elem<double>("A",2):V::elem<double>("A",2)-p/q*V::elem<double>("A",3);
  if(std::abs(r)<0.125) V::check("refuses a pivot below the tolerance",!ok); else V::check("accepts pivots from the tolerance on",ok);
  if(!ok) return;
  const matrix<double>& f=d.get_lu();
  V::eq("the pivot is the largest element of its column",f(0,0),m); V::eq("second pivot",f(1,1),r); }
void P09_lu_cx__sz()
{ S N=V::var<S>("N",1,3); matrix<std::complex<double>> a=mk<std::complex<double>>("A",N,N); lu<std::complex<double>> d(a); bool ok=d.decompose();
  if(!ok) return;
  const matrix<std::complex<double>>& l=d.get_lower(); const matrix<std::complex<double>>& u=d.get_upper();
  for(S i=0;i<N;i++) for(S j=0;j<N;j++)
  { std::complex<double> s(0); for(S k=0;k<N;k++) s+=l(i,k)*u(k,j); V::eq("L*U = A",s,V::elem<std::complex<double>>("A",i+j*N)); } }
template <class F> void rank_spec(S R, S C, unsigned int r, F A)
{ bool one=false, two=false;
  for(S i=0;i<R;i++) for(S j=0;j<C;j++) if(A(i,j)!=0.0) one=true;
  for(S i=0;i<R;i++) for(S k=i+1;k<R;k++) for(S j=0;j<C;j++) for(S l=j+1;l<C;l++) if(A(i,j)*A(k,l)-A(i,l)*A(k,j)!=0.0) two=true;
  if(!one) { V::eq("the zero matrix has rank 0",r,0u); return; }
  V::check("a nonzero element gives rank at least 1",r>=1);
  if(!two) { V::eq("without a nonzero 2x2 minor the rank is 1",r,1u); return; }
  V::check("a nonzero 2x2 minor gives rank at least 2",r>=2);
  V::check("the rank is at most the number of rows and of columns",r<=R&&r<=C); }
void P09_rank__szu()
{ S R=V::var<S>("R",1,2), C=V::var<S>("C",1,3); matrix<double> a=mk<double>("A",R,C);
  unsigned int r=rank<double,std::allocator>(a,0.0);
  rank_spec(R,C,r,[&](S i, S j) { return V::elem<double>("A",i+j*R); });
  V::eq("the argument is not modified",a(R-1,C-1),V::elem<double>("A",R*C-1)); }
/* larger systems that are triangular: the substitutions visit every position, with little pivoting */
inline double lower(S i, S j) { if(i<j) return 0; if(i==j) return 1; double v=V::elem<double>("A",i*8+j); V::assume(v<1&&v>=0); return v; }
inline double upper(S i, S j) { if(i>j) return 0; double v=V::elem<double>("A",i*8+j); if(i==j) V::assume(v>1); return v; }
template <class F> matrix<double> build(S N, F f) { matrix<double> a(N,N,0.0); for(S j=0;j<N;j++) for(S i=0;i<N;i++) a(i,j)=f(i,j); return a; }
template <class F, class G> void solution(S N, const matrix<double>& x, F f, G b) { for(S i=0;i<N;i++) V::eq("A*x = b",dot(N,[&](S k) { return f(i,k)*x(k); }),b(i)); }
template <class F> void large(F f, S hi)
{ S N=V::var<S>("N",3,7), w=V::var<S>("which",0,2); V::assume(N<=hi); matrix<double> a=build(N,f), b=mk<double>("B",N,1);
  if(w==0) { lup<double> d(a); V::check("succeeds",d.decompose()); solution(N,d.solve(b),f,[](S i) { return V::elem<double>("B",i); }); }
  if(w==1) solution(N,linsolve(a,b),f,[](S i) { return V::elem<double>("B",i); });
  if(w==2) { matrix<double> x=inv(a); V::eq("rows",x.no_rows(),N); V::eq("cols",x.no_cols(),N); for(S j=0;j<N;j++) solution(N,x.col(j),f,[&](S i) { if(i==j) return 1.0; return 0.0; }); } }
void P09_large_lower__sz2() { large(lower,7); }
void P09_large_upper__sz2() { large(upper,7); }
}
