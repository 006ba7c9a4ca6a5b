#include "all.h"
namespace spec {
typedef std::complex<double> Z;
typedef std::size_t S;

/* ---- rearrangements ---- */
template <class T> void transp()
{ S R=V::dim("R"),C=V::dim("C"); matrix<T> a=mk<T>("A",R,C); matrix<T> t=transpose(a); S i=V::idx("i",R),j=V::idx("j",C);
  V::eq("rows",t.no_rows(),C); V::eq("cols",t.no_cols(),R); V::eq("size",t.size(),R*C); V::eq("element",t(j,i),V::elem<T>("A",i+j*R)); V::eq("operand kept",a(i,j),V::elem<T>("A",i+j*R)); }
void P06_transpose_d(){ transp<double>(); }
void P06_transpose_z(){ transp<Z>(); }
void P06_hermitian(){ S R=V::dim("R"),C=V::dim("C"); matrix<Z> a=mk<Z>("A",R,C); matrix<Z> t=hermitian(a); S i=V::idx("i",R),j=V::idx("j",C); Z x=V::elem<Z>("A",i+j*R);
  V::eq("rows",t.no_rows(),C); V::eq("cols",t.no_cols(),R); V::eq("real part",t(j,i).real(),x.real()); V::eq("conjugated",t(j,i).imag(),-x.imag()); V::eq("argument kept",a(i,j).imag(),x.imag()); }
void P06_transpose_i(){ transp<int>(); }
void P06_concat_rows()
{ S R=V::dim("R"),Q=V::dim("Q"),C=V::dim("C"); V::assume(R!=Q); matrix<double> a=mk<double>("A",R,C), b=mk<double>("B",Q,C); matrix<double> t=concat(a,b);
  V::eq("rows",t.no_rows(),R+Q); V::eq("cols",t.no_cols(),C); S i=V::idx("i",R),k=V::idx("k",Q),j=V::idx("j",C); V::eq("upper",t(i,j),V::elem<double>("A",i+j*R)); V::eq("lower",t(R+k,j),V::elem<double>("B",k+j*Q)); }
void P06_concat_cols()
{ S R=V::dim("R"),C=V::dim("C"),D=V::dim("D"); V::assume(C!=D); matrix<double> a=mk<double>("A",R,C), b=mk<double>("B",R,D); matrix<double> t=concat(a,b);
  V::eq("rows",t.no_rows(),R); V::eq("cols",t.no_cols(),C+D); S i=V::idx("i",R),j=V::idx("j",C),k=V::idx("k",D); V::eq("left",t(i,j),V::elem<double>("A",i+j*R)); V::eq("right",t(i,C+k),V::elem<double>("B",i+k*R)); }
void P06_concat_same()
{ S R=V::dim("R"),C=V::dim("C"); matrix<double> a=mk<double>("A",R,C), b=mk<double>("B",R,C); matrix<double> t=concat(a,b);
  V::eq("rows",t.no_rows(),R+R); V::eq("cols",t.no_cols(),C); S i=V::idx("i",R),j=V::idx("j",C); V::eq("upper",t(i,j),V::elem<double>("A",i+j*R)); V::eq("lower",t(R+i,j),V::elem<double>("B",i+j*R)); }
void P06_fliplr()
{ S R=V::dim("R"),C=V::dim("C"); V::assume(C>1); matrix<double> a=mk<double>("A",R,C); matrix<double> t=fliplr(a); S i=V::idx("i",R),j=V::idx("j",C);
  V::eq("rows",t.no_rows(),R); V::eq("cols",t.no_cols(),C); V::eq("element",t(i,j),V::elem<double>("A",i+(C-1-j)*R)); }
void P06_flipud()
{ S R=V::dim("R"),C=V::dim("C"); V::assume(R>1); matrix<double> a=mk<double>("A",R,C); matrix<double> t=flipud(a); S i=V::idx("i",R),j=V::idx("j",C);
  V::eq("rows",t.no_rows(),R); V::eq("cols",t.no_cols(),C); V::eq("element",t(i,j),V::elem<double>("A",(R-1-i)+j*R)); }
void P06_eye()
{ S N=V::dim("N"); matrix<double> t=eye<double>(N); S i=V::idx("i",N),j=V::idx("j",N); V::eq("rows",t.no_rows(),N); V::eq("cols",t.no_cols(),N); V::eq("element",t(i,j),i==j?1.0:0.0); }

/* ---- products ---- */
template <class T> void mm()
{ S R=V::dim("R"),K=V::dim("K"),C=V::dim("C"); matrix<T> a=mk<T>("A",R,K), b=mk<T>("B",K,C); matrix<T> t=matmul(a,b); S i=V::idx("i",R),j=V::idx("j",C);
  V::eq("rows",t.no_rows(),R); V::eq("cols",t.no_cols(),C); T s(0); for(S k=0;k<K;k++) s+=V::elem<T>("A",i+k*R)*V::elem<T>("B",k+j*K); V::eq("element",t(i,j),s); }
void P08_matmul_d(){ mm<double>(); }
void P08_matmul_f(){ mm<float>(); }
void P08_matmul_i(){ mm<int>(); }
void P08_matmul_z(){ mm<Z>(); }
template <class T> void kr()
{ S R=V::dim("R"),C=V::dim("C"),P=V::dim("P"),Q=V::dim("Q"); matrix<T> a=mk<T>("A",R,C), b=mk<T>("B",P,Q); matrix<T> t=kron(a,b);
  V::eq("rows",t.no_rows(),R*P); V::eq("cols",t.no_cols(),C*Q); S i=V::idx("i",R),j=V::idx("j",C),k=V::idx("k",P),l=V::idx("l",Q);
  V::eq("element",t(i*P+k,j*Q+l),(T)(V::elem<T>("A",i+j*R)*V::elem<T>("B",k+l*P))); }
void P08_kron_d(){ kr<double>(); }
void P08_kron_i(){ kr<int>(); }
void P08_kron_z(){ kr<Z>(); }
template <class T> void det12()
{ matrix<T> a=mk<T>("A",1,1); V::eq("1x1",det(a),(double)V::elem<T>("A",0)); matrix<T> b=mk<T>("B",2,2);
  V::eq("2x2",det(b),(double)(V::elem<T>("B",0)*V::elem<T>("B",3)-V::elem<T>("B",1)*V::elem<T>("B",2))); }
void P09_det12_d(){ det12<double>(); }
void P09_det_nonsquare(){ S R=V::dim("R"),C=V::dim("C"); V::assume(R!=C); matrix<double> a=mk<double>("A",R,C); V::eq("non-square",det(a),0.0); }
void P09_det3()
{ matrix<double> b=mk<double>("B",3,3);
#define E(r,c) V::elem<double>("B",(r)+(c)*3)
  V::eq("3x3",det(b),E(0,0)*(E(1,1)*E(2,2)-E(2,1)*E(1,2))-E(0,1)*(E(1,0)*E(2,2)-E(2,0)*E(1,2))+E(0,2)*(E(1,0)*E(2,1)-E(2,0)*E(1,1)));
#undef E
}
/* expansion along the first row over all column subsets */
template <class T> T laplace(S N, S row, unsigned cols)
{ if(row==N) return T(1); T s(0); S k=0; for(S j=0;j<N;j++) if(cols>>j&1u) { T t=V::elem<T>("B",row+j*N)*laplace<T>(N,row+1,cols&~(1u<<j)); if(k%2==0) s+=t; else s-=t; k++; } return s; }
void P09_det_order__sz() { S N=V::var<S>("N",3,5); matrix<double> b=mk<double>("B",N,N); V::eq("expansion",det(b),laplace<double>(N,0,(1u<<N)-1)); }
}
