#include "all.h"
namespace spec {
typedef std::complex<double> Z;
typedef std::size_t S;

/* ---- construction, element access, shape ---- */
template <class T> void ctor_init()
{ S R=V::dim("R"),C=V::dim("C"); T v=V::any<T>("v"); matrix<T> a(R,C,v); S i=V::idx("i",R),j=V::idx("j",C);
  V::eq("rows",a.no_rows(),R); V::eq("cols",a.no_cols(),C); V::eq("size",a.size(),R*C);
  V::eq("value",a(i,j),v); V::eq("get",a.get(i,j),v); }
void P05_ctor_init_d(){ ctor_init<double>(); }
void P05_ctor_init_i(){ ctor_init<int>(); }
template <class T> void ctor_tuple()
{ S R=V::dim("R"),C=V::dim("C"); T v=V::any<T>("v"); matrix<T> a(std::make_tuple(R,C),v); S i=V::idx("i",R),j=V::idx("j",C);
  V::eq("rows",a.no_rows(),R); V::eq("cols",a.no_cols(),C); V::eq("size",a.size(),R*C); V::eq("value",a(i,j),v);
  matrix<T> b(a.shape()); V::eq("brows",b.no_rows(),R); V::eq("bcols",b.no_cols(),C); V::eq("bsize",b.size(),R*C); b.set_all(v); V::eq("set_all",b(i,j),v); }
void P05_ctor_tuple_d(){ ctor_tuple<double>(); }
template <class T> void access()
{ S R=V::dim("R"),C=V::dim("C"); matrix<T> a=mk<T>("A",R,C); S i=V::idx("i",R),j=V::idx("j",C); const matrix<T>& c=a;
  V::eq("col-major (r,c)",a(i,j),V::elem<T>("A",i+j*R)); V::eq("const (r,c)",c(i,j),V::elem<T>("A",i+j*R)); V::eq("get(r,c)",a.get(i,j),V::elem<T>("A",i+j*R));
  S k=V::idx("k",R*C); V::eq("linear",a(k),V::elem<T>("A",k)); V::eq("const linear",c(k),V::elem<T>("A",k)); V::eq("get(k)",a.get(k),V::elem<T>("A",k)); }
void P05_access_d(){ access<double>(); }
void P05_access_i(){ access<int>(); }
template <class T> void write()
{ S R=V::dim("R"),C=V::dim("C"); matrix<T> a=mk<T>("A",R,C); S i=V::idx("i",R),j=V::idx("j",C); T v=V::any<T>("v"); a(i,j)=v;
  S p=V::idx("p",R),q=V::idx("q",C);
  if(p==i&&q==j) V::eq("written",a(p,q),v); else V::eq("others kept",a(p,q),V::elem<T>("A",p+q*R)); }
void P05_write_d(){ write<double>(); }
void P05_shape()
{ S R=V::dim("R"),C=V::dim("C"); matrix<int> a(R,C,0); 
  V::check("square",a.is_square()==(R==C)); V::check("vector",a.is_vector()==((R==1)!=(C==1))); V::check("scalar",a.is_scalar()==(R==1&&C==1));
  V::eq("shape rows",std::get<0>(a.shape()),R); V::eq("shape cols",std::get<1>(a.shape()),C); V::eq("size",a.size(),R*C); }

/* ---- copies ---- */
template <class T> void copy_ctor()
{ S R=V::dim("R"),C=V::dim("C"); matrix<T> a=mk<T>("A",R,C); matrix<T> b(a); S i=V::idx("i",R),j=V::idx("j",C);
  V::eq("rows",b.no_rows(),R); V::eq("cols",b.no_cols(),C); V::eq("size",b.size(),R*C); V::eq("copied",b(i,j),V::elem<T>("A",i+j*R));
  b(i,j)=V::any<T>("v"); V::eq("source unchanged",a(i,j),V::elem<T>("A",i+j*R)); }
void P03_copy_ctor_d(){ copy_ctor<double>(); }
void P03_copy_ctor_z(){ copy_ctor<Z>(); }
template <class T> void assign()
{ S R=V::dim("R"),C=V::dim("C"),P=V::dim("P"),Q=V::dim("Q"); matrix<T> a=mk<T>("A",R,C); matrix<T> b=mk<T>("B",P,Q); b=a; S i=V::idx("i",R),j=V::idx("j",C);
  V::eq("rows",b.no_rows(),R); V::eq("cols",b.no_cols(),C); V::eq("size",b.size(),R*C); V::eq("copied",b(i,j),V::elem<T>("A",i+j*R));
  b(i,j)=V::any<T>("v"); V::eq("source unchanged",a(i,j),V::elem<T>("A",i+j*R)); }
void P03_assign_d(){ assign<double>(); }
void P03_assign_empty()
{ S R=V::dim("R"),C=V::dim("C"); matrix<double> a=mk<double>("A",R,C); matrix<double> b; b=a; S i=V::idx("i",R),j=V::idx("j",C);
  V::eq("copied",b(i,j),V::elem<double>("A",i+j*R)); matrix<double> e; b=e; V::eq("rows",b.no_rows(),(S)0); V::eq("cols",b.no_cols(),(S)0); V::eq("size",b.size(),(S)0); b=a; V::eq("copied again",b(i,j),V::elem<double>("A",i+j*R)); }
void P03_copy_of_empty()
{ S R=V::dim("R"),C=V::dim("C"); matrix<double> a=mk<double>("A",R,C); matrix<double> e; matrix<double> b(e); b=a; S i=V::idx("i",R),j=V::idx("j",C);
  V::eq("copied",b(i,j),V::elem<double>("A",i+j*R)); }
void P03_self_assign()
{ S R=V::dim("R"),C=V::dim("C"); matrix<double> a=mk<double>("A",R,C); matrix<double>& r=a; a=r; S i=V::idx("i",R),j=V::idx("j",C);
  V::eq("rows",a.no_rows(),R); V::eq("cols",a.no_cols(),C); V::eq("kept",a(i,j),V::elem<double>("A",i+j*R)); }
void P03_move()
{ S R=V::dim("R"),C=V::dim("C"); matrix<double> a=mk<double>("A",R,C); matrix<double> b(std::move(a)); S i=V::idx("i",R),j=V::idx("j",C);
  V::eq("rows",b.no_rows(),R); V::eq("cols",b.no_cols(),C); V::eq("size",b.size(),R*C); V::eq("moved",b(i,j),V::elem<double>("A",i+j*R)); }
void P03_move_then_assign()
{ S R=V::dim("R"),C=V::dim("C"); matrix<double> a=mk<double>("A",R,C); matrix<double> b(std::move(a)); a=b; S i=V::idx("i",R),j=V::idx("j",C);
  V::eq("reassigned",a(i,j),V::elem<double>("A",i+j*R)); }
void P03_moved_from_copy()
{ S R=V::dim("R"),C=V::dim("C"); matrix<double> a=mk<double>("A",R,C); matrix<double> b(std::move(a)); matrix<double> c(a); matrix<double> d; d=a; }
void P03_moved_from_empty()
{ S R=V::dim("R"),C=V::dim("C"); matrix<double> a=mk<double>("A",R,C); matrix<double> b(std::move(a)); V::eq("size",a.size(),(S)0); V::eq("rows",a.no_rows(),(S)0); V::eq("cols",a.no_cols(),(S)0); }

/* ---- rows, columns, sub-blocks ---- */
template <class T> void row_col()
{ S R=V::dim("R"),C=V::dim("C"); const matrix<T> a=mk<T>("A",R,C); S i=V::idx("i",R),j=V::idx("j",C);
  matrix<T> r=a.row(i); V::eq("row rows",r.no_rows(),(S)1); V::eq("row cols",r.no_cols(),C); V::eq("row",r(j),V::elem<T>("A",i+j*R));
  matrix<T> c=a.col(j); V::eq("col rows",c.no_rows(),R); V::eq("col cols",c.no_cols(),(S)1); V::eq("col",c(i),V::elem<T>("A",i+j*R)); }
void P06_row_col_d(){ row_col<double>(); }
void P06_row_col_z(){ row_col<Z>(); }
void P06_as_vec()
{ S R=V::dim("R"),C=V::dim("C"); matrix<double> a=mk<double>("A",R,C); S i=V::idx("i",R),j=V::idx("j",C);
  std::vector<double> r=a.get_row_as_vec(i); V::eq("row len",r.size(),C); V::eq("row",r[j],V::elem<double>("A",i+j*R));
  std::vector<double> c=a.get_col_as_vec(j); V::eq("col len",c.size(),R); V::eq("col",c[i],V::elem<double>("A",i+j*R)); }
void P06_set_row()
{ S R=V::dim("R"),C=V::dim("C"); matrix<double> a=mk<double>("A",R,C), b=mk<double>("B",1,C); S k=V::idx("k",R); bool ok=a.set_row(k,b); V::check("accepted",ok);
  S i=V::idx("i",R),j=V::idx("j",C); if(i==k) V::eq("row set",a(i,j),V::elem<double>("B",j)); else V::eq("others kept",a(i,j),V::elem<double>("A",i+j*R)); }
void P06_set_col()
{ S R=V::dim("R"),C=V::dim("C"); matrix<double> a=mk<double>("A",R,C), b=mk<double>("B",R,1); S k=V::idx("k",C); bool ok=a.set_col(k,b); V::check("accepted",ok);
  S i=V::idx("i",R),j=V::idx("j",C); if(j==k) V::eq("col set",a(i,j),V::elem<double>("B",i)); else V::eq("others kept",a(i,j),V::elem<double>("A",i+j*R)); }
void P06_swap_rows()
{ S R=V::dim("R"),C=V::dim("C"); matrix<double> a=mk<double>("A",R,C); S p=V::idx("p",R),q=V::idx("q",R); a.swap_rows(p,q);
  S i=V::idx("i",R),j=V::idx("j",C); if(i==p) V::eq("p",a(i,j),V::elem<double>("A",q+j*R)); else if(i==q) V::eq("q",a(i,j),V::elem<double>("A",p+j*R)); else V::eq("others kept",a(i,j),V::elem<double>("A",i+j*R)); }
void P06_swap_cols()
{ S R=V::dim("R"),C=V::dim("C"); matrix<double> a=mk<double>("A",R,C); S p=V::idx("p",C),q=V::idx("q",C); a.swap_cols(p,q);
  S i=V::idx("i",R),j=V::idx("j",C); if(j==p) V::eq("p",a(i,j),V::elem<double>("A",i+q*R)); else if(j==q) V::eq("q",a(i,j),V::elem<double>("A",i+p*R)); else V::eq("others kept",a(i,j),V::elem<double>("A",i+j*R)); }
void P06_shrink()
{ S R=V::dim("R"),C=V::dim("C"); V::assume(R>1); V::assume(C>1); matrix<double> a=mk<double>("A",R,C); S p=V::idx("p",R),q=V::idx("q",C); matrix<double> b=a.shrink(p,q);
  V::eq("rows",b.no_rows(),R-1); V::eq("cols",b.no_cols(),C-1); S i=V::idx("i",R-1),j=V::idx("j",C-1);
  V::eq("minor",b(i,j),V::elem<double>("A",(i<p?i:i+1)+(j<q?j:j+1)*R)); }
void P06_reshape()
{ S R=V::dim("R"),C=V::dim("C"); matrix<double> a=mk<double>("A",R,C); matrix<double> b=a.reshape(C,R); V::eq("rows",b.no_rows(),C); V::eq("cols",b.no_cols(),R); S k=V::idx("k",R*C); V::eq("kept",b(k),V::elem<double>("A",k)); V::eq("source rows",a.no_rows(),R);
  matrix<double> c=a.reshape(R*C,1); V::eq("crows",c.no_rows(),R*C); V::eq("ccols",c.no_cols(),(S)1); V::eq("ckept",c(k),V::elem<double>("A",k)); }
void P06_resize()
{ S R=V::dim("R"),C=V::dim("C"),P=V::dim("P"),Q=V::dim("Q"); matrix<double> a=mk<double>("A",R,C); bool ok=a.resize(P,Q); V::check("ok",ok); V::eq("rows",a.no_rows(),P); V::eq("cols",a.no_cols(),Q); V::eq("size",a.size(),P*Q);
  S i=V::idx("i",P),j=V::idx("j",Q); a(i,j)=1; }
void P06_left()
{ S R=V::dim("R"),C=V::dim("C"); V::assume(R>1); V::assume(C>1); matrix<double> a=mk<double>("A",R,C); S n=V::dim("n"); V::assume(n<=C); matrix<double> b=a.left(n); V::eq("rows",b.no_rows(),R); V::eq("cols",b.no_cols(),n); S i=V::idx("i",R),j=V::idx("j",n); V::eq("left",b(i,j),V::elem<double>("A",i+j*R)); }
void P06_left_vec()
{ S N=V::dim("N"); V::assume(N>1); S n=V::dim("n"); V::assume(n<=N); S j=V::idx("j",n); matrix<double> a=mk<double>("A",1,N), c=mk<double>("C",N,1); 
  matrix<double> b=a.left(n); V::eq("rows",b.no_rows(),(S)1); V::eq("cols",b.no_cols(),n); V::eq("left",b(j),V::elem<double>("A",j));
  matrix<double> d=c.left(n); V::eq("crows",d.no_rows(),n); V::eq("ccols",d.no_cols(),(S)1); V::eq("cleft",d(j),V::elem<double>("C",j)); }
void P06_right()
{ S R=V::dim("R"),C=V::dim("C"); V::assume(R>1); V::assume(C>1); matrix<double> a=mk<double>("A",R,C); S n=V::dim("n"); V::assume(n<=C); matrix<double> b=a.right(n); V::eq("rows",b.no_rows(),R); V::eq("cols",b.no_cols(),n); S i=V::idx("i",R),j=V::idx("j",n); V::eq("right",b(i,j),V::elem<double>("A",i+(C-n+j)*R)); }
void P06_right_vec()
{ S N=V::dim("N"); V::assume(N>1); S n=V::dim("n"); V::assume(n<=N); S j=V::idx("j",n); matrix<double> a=mk<double>("A",1,N), c=mk<double>("C",N,1); 
  matrix<double> b=a.right(n); V::eq("rows",b.no_rows(),(S)1); V::eq("cols",b.no_cols(),n); V::eq("right",b(j),V::elem<double>("A",N-n+j));
  matrix<double> d=c.right(n); V::eq("crows",d.no_rows(),n); V::eq("ccols",d.no_cols(),(S)1); V::eq("cright",d(j),V::elem<double>("C",N-n+j)); }
void P06_mid()
{ S R=V::dim("R"),C=V::dim("C"); V::assume(R>1); V::assume(C>1); matrix<double> a=mk<double>("A",R,C); S e=V::idx("e",C); S b=V::idx("b",C); V::assume(b<e); matrix<double> m=a.mid(b,e); V::eq("rows",m.no_rows(),R); V::eq("cols",m.no_cols(),e-b+1); S i=V::idx("i",R),j=V::idx("j",e-b+1); V::eq("mid",m(i,j),V::elem<double>("A",i+(b+j)*R)); }
void P06_mid_vec()
{ S N=V::dim("N"); V::assume(N>1); S e=V::idx("e",N), b=V::idx("b",N); V::assume(b<e); S j=V::idx("j",e-b+1); matrix<double> a=mk<double>("A",1,N), c=mk<double>("C",N,1); 
  matrix<double> m=a.mid(b,e); V::eq("rows",m.no_rows(),(S)1); V::eq("cols",m.no_cols(),e-b+1); V::eq("mid",m(j),V::elem<double>("A",b+j));
  matrix<double> d=c.mid(b,e); V::eq("crows",d.no_rows(),e-b+1); V::eq("ccols",d.no_cols(),(S)1); V::eq("cmid",d(j),V::elem<double>("C",b+j)); }

/* ---- element-wise operators ---- */
#define EW(NAME,EXPR,REF) \
template <class T> void NAME(){ S R=V::dim("R"),C=V::dim("C"); matrix<T> a=mk<T>("A",R,C), b=mk<T>("B",R,C); T s=V::any<T>("s"); \
  matrix<T> t=EXPR; S i=V::idx("i",R),j=V::idx("j",C); T x=V::elem<T>("A",i+j*R), y=V::elem<T>("B",i+j*R); \
  V::eq("rows",t.no_rows(),R); V::eq("cols",t.no_cols(),C); V::eq("size",t.size(),R*C); V::eq("element",t(i,j),(T)(REF)); \
  V::eq("left operand kept",a(i,j),x); V::eq("right operand kept",b(i,j),y); }
EW(add_mm,a+b,x+y) EW(sub_mm,a-b,x-y) EW(mul_mm,a*b,x*y) EW(div_mm,a/b,x/y)
EW(add_ms,a+s,x+s) EW(sub_ms,a-s,x-s) EW(mul_ms,a*s,x*s) EW(div_ms,a/s,x/s)
EW(add_sm,s+a,s+x) EW(sub_sm,s-a,s-x) EW(mul_sm,s*a,s*x)
#define EWT(NAME) void P05_##NAME##_d(){ NAME<double>(); } void P05_##NAME##_f(){ NAME<float>(); } void P05_##NAME##_z(){ NAME<Z>(); }
#define EWI(NAME) EWT(NAME) void P05_##NAME##_i(){ NAME<int>(); }
EWI(add_mm) EWI(sub_mm) EWI(mul_mm) EWT(div_mm) EWI(add_ms) EWI(sub_ms) EWI(mul_ms) EWT(div_ms) EWI(add_sm) EWI(sub_sm) EWI(mul_sm)
template <class T> void add_assign()
{ S R=V::dim("R"),C=V::dim("C"); matrix<T> a=mk<T>("A",R,C), b=mk<T>("B",R,C); matrix<T> t=(a+=b); S i=V::idx("i",R),j=V::idx("j",C); T x=V::elem<T>("A",i+j*R), y=V::elem<T>("B",i+j*R);
  V::eq("updated",a(i,j),(T)(x+y)); V::eq("returned",t(i,j),(T)(x+y)); V::eq("operand kept",b(i,j),y); }
template <class T> void sub_assign()
{ S R=V::dim("R"),C=V::dim("C"); matrix<T> a=mk<T>("A",R,C), b=mk<T>("B",R,C); matrix<T> t=(a-=b); S i=V::idx("i",R),j=V::idx("j",C); T x=V::elem<T>("A",i+j*R), y=V::elem<T>("B",i+j*R);
  V::eq("updated",a(i,j),(T)(x-y)); V::eq("returned",t(i,j),(T)(x-y)); V::eq("operand kept",b(i,j),y); }
EWI(add_assign) EWI(sub_assign)
void P05_aliased()
{ S R=V::dim("R"),C=V::dim("C"); matrix<double> a=mk<double>("A",R,C); S i=V::idx("i",R),j=V::idx("j",C); double x=V::elem<double>("A",i+j*R);
  a+=a; V::eq("a+=a",a(i,j),x+x); matrix<double> b=mk<double>("B",R,C); b-=b; double y=V::elem<double>("B",i+j*R); V::eq("b-=b",b(i,j),y-y); }

/* ---- equality ---- */
template <class T> void equality()
{ S R=V::dim("R"),C=V::dim("C"); matrix<T> a=mk<T>("A",R,C), b=mk<T>("B",R,C); S k=V::idx("k",R*C);
  bool e=(a==b), n=(a!=b); V::check("complementary",e!=n); if(e) V::eq("equal means every element",a(k),b(k)); }
void P05_equality_d(){ equality<double>(); }
void P05_equality_i(){ equality<int>(); }
void P05_equality_reflexive()
{ S R=V::dim("R"),C=V::dim("C"); matrix<int> a=mk<int>("A",R,C); matrix<int> b(a); V::check("copy equal",a==b); V::check("copy not different",!(a!=b)); }
void P05_equality_differs()
{ S R=V::dim("R"),C=V::dim("C"); matrix<int> a=mk<int>("A",R,C); matrix<int> b(a); S k=V::idx("k",R*C); b(k)=a(k)+1; V::assume(a(k)<1000); V::assume(a(k)>-1000); V::check("one different element",!(a==b)); V::check("one different element !=",a!=b); }
void P05_equality_shape()
{ S R=V::dim("R"),C=V::dim("C"),P=V::dim("P"),Q=V::dim("Q"); matrix<int> a=mk<int>("A",R,C), b=mk<int>("B",P,Q); if(R!=P||C!=Q){ V::check("shape differs",!(a==b)); V::check("shape differs !=",a!=b);} }

/* ---- conversions ---- */
#define CV(NAME,F,G) void P05_conv_##NAME(){ S R=V::dim("R"),C=V::dim("C"); matrix<F> a=mk<F>("A",R,C); matrix<G> b=(matrix<G>)a; S i=V::idx("i",R),j=V::idx("j",C); V::eq("rows",b.no_rows(),R); V::eq("cols",b.no_cols(),C); V::eq("converted",b(i,j),(G)V::elem<F>("A",i+j*R)); V::eq("source kept",a(i,j),V::elem<F>("A",i+j*R)); }
CV(i_d,int,double) CV(d_i,double,int) CV(d_f,double,float) CV(f_d,float,double) CV(i_i8,int,int8_t) CV(i_u8,int,uint8_t) CV(u8_i,uint8_t,int)
#define CZ(NAME,F,G) void P05_conv_z_##NAME(){ S R=V::dim("R"),C=V::dim("C"); typedef std::complex<F> A_; typedef std::complex<G> B_; matrix<A_> a=mk<A_>("A",R,C); matrix<B_> b=(matrix<B_>)a; S i=V::idx("i",R),j=V::idx("j",C); V::eq("rows",b.no_rows(),R); V::eq("cols",b.no_cols(),C); A_ x=V::elem<A_>("A",i+j*R); V::eq("re",b(i,j).real(),(G)x.real()); V::eq("im",b(i,j).imag(),(G)x.imag()); }
CZ(f_d,float,double) CZ(d_f,double,float) CZ(d_i,double,int) CZ(d_i8,double,int8_t) CZ(d_u8,double,uint8_t)
}
