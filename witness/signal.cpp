#include "all.h"
namespace spec {
typedef std::complex<double> Z;
typedef std::size_t S;
void P08_upsample()
{ S R=V::dim("R"),C=V::dim("C"),U=V::dim("U"); matrix<double> a=mk<double>("A",R,C); matrix<double> t=upsample(a,U); V::eq("rows",t.no_rows(),R*U); V::eq("cols",t.no_cols(),C);
  S i=V::idx("i",R),j=V::idx("j",C); V::eq("kept sample",t(i*U,j),V::elem<double>("A",i+j*R)); S u=V::idx("u",U); if(u>0) V::eq("inserted zero",t(i*U+u,j),0.0); }
void P08_downsample()
{ S R=V::dim("R"),C=V::dim("C"),D=V::dim("D"); V::assume(D<=R); matrix<double> a=mk<double>("A",R,C); matrix<double> t=downsample(a,D); V::eq("rows",t.no_rows(),R/D); V::eq("cols",t.no_cols(),C);
  S i=V::idx("i",R/D),j=V::idx("j",C); V::eq("sample",t(i,j),V::elem<double>("A",i*D+j*R)); }
template <class T> void toep2()
{ S R=V::dim("R"),C=V::dim("C"); matrix<T> c=mk<T>("c",R,1), r=mk<T>("r",1,C); matrix<T> t=toeplitz(c,r); V::eq("rows",t.no_rows(),R); V::eq("cols",t.no_cols(),C); S i=V::idx("i",R),j=V::idx("j",C);
  if(i>j) V::eq("below diagonal",t(i,j),V::elem<T>("c",i-j)); else V::eq("on and above diagonal",t(i,j),V::elem<T>("r",j-i)); }
void P08_toeplitz2_d(){ toep2<double>(); }
void P08_toeplitz2_i(){ toep2<int>(); }
void P08_toeplitz1()
{ S N=V::dim("N"); matrix<double> c=mk<double>("c",N,1); matrix<double> t=toeplitz(c); V::eq("rows",t.no_rows(),N); V::eq("cols",t.no_cols(),N); S i=V::idx("i",N),j=V::idx("j",N);
  if(i>=j) V::eq("below",t(i,j),V::elem<double>("c",i-j)); else V::eq("above",t(i,j),V::elem<double>("c",j-i)); }
void P08_convmtx_col()
{ S N=V::dim("N"),L=V::dim("L"); V::assume(N>1); matrix<double> a=mk<double>("A",N,1); matrix<double> t=convmtx(a,L); V::eq("rows",t.no_rows(),N+L-1); V::eq("cols",t.no_cols(),L); S i=V::idx("i",N+L-1),j=V::idx("j",L);
  if(i>=j&&i-j<N) V::eq("band",t(i,j),V::elem<double>("A",i-j)); else V::eq("zero",t(i,j),0.0); }
void P08_convmtx_row()
{ S N=V::dim("N"),L=V::dim("L"); V::assume(N>1); matrix<double> a=mk<double>("A",1,N); matrix<double> t=convmtx(a,L); V::eq("rows",t.no_rows(),L); V::eq("cols",t.no_cols(),N+L-1); S i=V::idx("i",L),j=V::idx("j",N+L-1);
  if(j>=i&&j-i<N) V::eq("band",t(i,j),V::elem<double>("A",j-i)); else V::eq("zero",t(i,j),0.0); }
/* FIR: y(i) = sum_k b(k) x(i-k) */
template <class T> void fir_col()
{ S N=V::dim("N"),L=V::dim("L"),E=V::dim0("E"); V::assume(N>1); matrix<T> x=mk<T>("X",N,1), b=mk<T>("B",L,1), a(1,1,T(1)); matrix<T> y=filter(b,a,x,E); V::eq("rows",y.no_rows(),N+E); V::eq("cols",y.no_cols(),(S)1); S i=V::idx("i",N+E);
  T s(0); for(S k=0;k<L;k++) s+=((k<=i&&i-k<N)?V::elem<T>("X",i-k):T(0))*V::elem<T>("B",k); V::eq("element",y(i),s); }
template <class T> void fir_row()
{ S N=V::dim("N"),L=V::dim("L"),E=V::dim0("E"); V::assume(N>1); matrix<T> x=mk<T>("X",1,N), b=mk<T>("B",1,L), a(1,1,T(1)); matrix<T> y=filter(b,a,x,E); V::eq("rows",y.no_rows(),(S)1); V::eq("cols",y.no_cols(),N+E); S i=V::idx("i",N+E);
  T s(0); for(S k=0;k<L;k++) s+=((k<=i&&i-k<N)?V::elem<T>("X",i-k):T(0))*V::elem<T>("B",k); V::eq("element",y(i),s); }
template <class T> void fir_mat()
{ S N=V::dim("N"),M=V::dim("M"),L=V::dim("L"),E=V::dim0("E"); V::assume(N>1); V::assume(M>1); matrix<T> x=mk<T>("X",N,M), b=mk<T>("B",L,1), a(1,1,T(1)); matrix<T> y=filter(b,a,x,E); V::eq("rows",y.no_rows(),N+E); V::eq("cols",y.no_cols(),M); S i=V::idx("i",N+E),j=V::idx("j",M);
  T s(0); for(S k=0;k<L;k++) s+=((k<=i&&i-k<N)?V::elem<T>("X",i-k+j*N):T(0))*V::elem<T>("B",k); V::eq("element",y(i,j),s); }
void P08_fir_col_d(){ fir_col<double>(); }
void P08_fir_row_d(){ fir_row<double>(); }
void P08_fir_mat_d(){ fir_mat<double>(); }
void P08_fir_col_i(){ fir_col<int>(); }
/* a one-sample input is a signal too */
void P08_fir_one()
{ S L=V::dim("L"),E=V::dim0("E"); matrix<double> x=mk<double>("X",1,1), b=mk<double>("B",L,1), a(1,1,1.0); matrix<double> y=filter(b,a,x,E); V::eq("size",y.size(),1+E); S i=V::idx("i",1+E); V::eq("element",y(i),i<L?V::elem<double>("X",0)*V::elem<double>("B",i):0.0); }
void P08_iir_col()
{ S N=V::dim("N"),L=V::dim("L"),K=V::dim("K"); V::assume(N>1); matrix<double> x=mk<double>("X",N,1), b=mk<double>("B",L,1), a=mk<double>("A",K,1); matrix<double> y=filter(b,a,x); V::eq("rows",y.no_rows(),N); V::eq("cols",y.no_cols(),(S)1); }
/* recursive filters, at fixed sizes: y(i) = sum b(k) x(i-k) - sum_{k>0} a(k) y(i-k) */
template <class F> double iir_ref(S i, S N, S L, S K, F X, double* y)
{ double s(0); for(S k=0;k<L;k++) if(k<=i&&i-k<N) s+=V::elem<double>("B",k)*X(i-k);
  for(S k=1;k<K;k++) if(k<=i) s-=V::elem<double>("A",k)*y[i-k];
  y[i]=s; return s; }
void P08_iir_vec__sz()
{ S N=V::var<S>("N",1,5),L=V::var<S>("L",1,3),K=V::var<S>("K",1,4),E=V::var<S>("E",0,2); bool row=V::var<S>("row",0,1)==1; V::assume(N>1||!row);
  matrix<double> x=row?mk<double>("X",1,N):mk<double>("X",N,1), b=mk<double>("B",L,1), a=mk<double>("A",K,1); matrix<double> y=filter(b,a,x,E);
  V::eq("rows",y.no_rows(),row?1:N+E); V::eq("cols",y.no_cols(),row?N+E:1); double w[8];
  for(S i=0;i<N+E;i++) V::eq("element",y(i),iir_ref(i,N,L,K,[](S k){ return V::elem<double>("X",k); },w)); }
void P08_iir_mat__sz()
{ S N=V::var<S>("N",2,4),C=V::var<S>("C",2,3),L=V::var<S>("L",1,3),K=V::var<S>("K",1,4),E=V::var<S>("E",0,2);
  matrix<double> x=mk<double>("X",N,C), b=mk<double>("B",1,L), a=mk<double>("A",1,K); matrix<double> y=filter(b,a,x,E);
  V::eq("rows",y.no_rows(),N+E); V::eq("cols",y.no_cols(),C); double w[8];
  for(S j=0;j<C;j++) for(S i=0;i<N+E;i++) V::eq("element",y(i,j),iir_ref(i,N,L,K,[&](S k){ return V::elem<double>("X",k+j*N); },w)); }
void P08_conv_col()
{ S N=V::dim("N"),L=V::dim("L"); V::assume(N>1); V::assume(L>1); matrix<double> x=mk<double>("X",N,1), b=mk<double>("B",L,1); matrix<double> y=conv(x,b); V::eq("size",y.size(),N+L-1); V::eq("rows",y.no_rows(),N+L-1); S i=V::idx("i",N+L-1);
  double s(0); for(S k=0;k<L;k++) s+=((k<=i&&i-k<N)?V::elem<double>("X",i-k):0.0)*V::elem<double>("B",k); V::eq("element",y(i),s); }
void P08_conv_row()
{ S N=V::dim("N"),L=V::dim("L"); V::assume(N>1); V::assume(L>1); matrix<double> x=mk<double>("X",1,N), b=mk<double>("B",1,L); matrix<double> y=conv(x,b); V::eq("size",y.size(),N+L-1); V::eq("cols",y.no_cols(),N+L-1); S i=V::idx("i",N+L-1);
  double s(0); for(S k=0;k<L;k++) s+=((k<=i&&i-k<N)?V::elem<double>("X",i-k):0.0)*V::elem<double>("B",k); V::eq("element",y(i),s); }
void P08_conv_vec_scalar()
{ S N=V::dim("N"); matrix<double> x=mk<double>("X",N,1), b=mk<double>("B",1,1); S i=V::idx("i",N); matrix<double> y=conv(x,b); V::eq("size",y.size(),N); V::eq("element",y(i),V::elem<double>("X",i)*V::elem<double>("B",0)); }
void P08_conv_scalar_vec()
{ S N=V::dim("N"); matrix<double> x=mk<double>("X",N,1), b=mk<double>("B",1,1); S i=V::idx("i",N); matrix<double> z=conv(b,x); V::eq("size'",z.size(),N); V::eq("element'",z(i),V::elem<double>("X",i)*V::elem<double>("B",0)); }
}
