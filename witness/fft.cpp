#include "all.h"
namespace spec {
typedef std::size_t S;
typedef std::complex<double> Z;
const double pi=3.14159265358979323846;
/* X(k) = sum_n x(n) exp(-2 pi i n k / N) */
inline double ang(S n, S k, S N) { return -2*pi*n*k/N; }
template <class M> void transform(const M& r, S k, S N, S off)
{ double re=0, im=0; for(S n=0;n<N;n++) { re+=V::elem<double>("A",off+n)*std::cos(ang(n,k,N)); im+=V::elem<double>("A",off+n)*std::sin(ang(n,k,N)); }
  V::eq("real part",r.real(),re); V::eq("imaginary part",r.imag(),im); }
void P10_dft_col() { S N=V::dim("N"), k=V::idx("k",N); matrix<double> a=mk<double>("A",N,1); fft<double> f; matrix<Z> r=f.dft(a); V::eq("rows",r.no_rows(),N); V::eq("cols",r.no_cols(),(S)1); transform(r(k),k,N,0); }
void P10_dft_row() { S N=V::dim("N"), k=V::idx("k",N); matrix<double> a=mk<double>("A",1,N); fft<double> f; matrix<Z> r=f.dft(a); V::eq("rows",r.no_rows(),(S)1); V::eq("cols",r.no_cols(),N); transform(r(k),k,N,0); }
void P10_dft_matrix() { S R=V::dim("R"), C=V::dim("C"), k=V::idx("k",R), j=V::idx("j",C); V::assume(R>1&&C>1); matrix<double> a=mk<double>("A",R,C); fft<double> f; matrix<Z> r=f.dft(a); V::eq("rows",r.no_rows(),R); V::eq("cols",r.no_cols(),C); transform(r(k,j),k,R,j*R); }
void P10_dft_small__sz() { S N=V::var<S>("N",1,8); matrix<double> a=mk<double>("A",N,1); fft<double> f; matrix<Z> r=f.dft(a); for(S k=0;k<N;k++) transform(r(k),k,N,0); }
void P10_radix2_col__sz() { S N=(S)1<<V::var<S>("L",0,4); matrix<double> a=mk<double>("A",N,1); fft<double> f; matrix<Z> r=f.radix2(a); V::eq("rows",r.no_rows(),N); V::eq("cols",r.no_cols(),(S)1); for(S k=0;k<N;k++) transform(r(k),k,N,0); }
void P10_radix2_long__sz() { S N=(S)1<<V::var<S>("L",5,6); matrix<double> a=mk<double>("A",N,1); fft<double> f; matrix<Z> r=f.radix2(a); for(S k=0;k<N;k++) transform(r(k),k,N,0); }
void P10_radix2_row__sz() { S N=(S)1<<V::var<S>("L",0,3); matrix<double> a=mk<double>("A",1,N); fft<double> f; matrix<Z> r=f.radix2(a); V::eq("rows",r.no_rows(),(S)1); V::eq("cols",r.no_cols(),N); for(S k=0;k<N;k++) transform(r(k),k,N,0); }
void P10_radix2_matrix__sz() { S R=(S)1<<V::var<S>("L",1,3), C=V::var<S>("C",2,3); matrix<double> a=mk<double>("A",R,C); fft<double> f; matrix<Z> r=f.radix2(a); V::eq("rows",r.no_rows(),R); V::eq("cols",r.no_cols(),C); for(S j=0;j<C;j++) for(S k=0;k<R;k++) transform(r(k,j),k,R,j*R); }
/* long transforms of two samples among zeros */
void P10_radix2_impulse__sz3() { S q=V::var<S>("q",0,2), N=(S)1<<V::var<S>("L",7,8); S n1=q==0?(S)1:q==1?N-1:N/4+2, n2=(n1+N/2+1+q)%N;
  matrix<double> a(N,1,0.0); double x=V::any<double>("x"), y=V::any<double>("y"); a(n1)=x; a(n2)=y; fft<double> f; matrix<Z> r=f.radix2(a); V::eq("rows",r.no_rows(),N);
  for(S k=0;k<N;k+=N/32) { V::eq("real part",r(k).real(),x*std::cos(ang(n1,k,N))+y*std::cos(ang(n2,k,N))); V::eq("imaginary part",r(k).imag(),x*std::sin(ang(n1,k,N))+y*std::sin(ang(n2,k,N))); } }
}
