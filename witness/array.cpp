#include "all.h"
namespace spec {
typedef std::size_t S;
typedef array<double> A3;
inline void fillarr(A3& a, const char* n, S total) { V::input(a(0), total, n); }

void P05_array_index3()
{ S A=V::dim("A"),B=V::dim("B"),C=V::dim("C"); A3 a({A,B,C}); fillarr(a,"X",A*B*C); S i=V::idx("i",A),j=V::idx("j",B),k=V::idx("k",C);
  V::eq("first index runs fastest",a(i,j,k),V::elem<double>("X",i+j*A+k*A*B)); V::eq("get list",a.get({i,j,k}),V::elem<double>("X",i+j*A+k*A*B)); V::eq("raw",a.get_raw_index(i,j,k),i+j*A+k*A*B); }
void P05_array_index2()
{ S A=V::dim("A"),B=V::dim("B"); A3 a({A,B}); fillarr(a,"X",A*B); S i=V::idx("i",A),j=V::idx("j",B); V::eq("element",a(i,j),V::elem<double>("X",i+j*A)); V::eq("get",a.get(i,j),V::elem<double>("X",i+j*A)); S m=V::idx("m",A*B); V::eq("linear",a(m),V::elem<double>("X",m)); }
void P05_array_index1()
{ S A=V::dim("A"); A3 a({A}); fillarr(a,"X",A); S i=V::idx("i",A); V::eq("element",a(i),V::elem<double>("X",i)); V::eq("again",a(i),V::elem<double>("X",i)); }
void P05_array_write()
{ S A=V::dim("A"),B=V::dim("B"); A3 a({A,B}); fillarr(a,"X",A*B); S i=V::idx("i",A),j=V::idx("j",B),p=V::idx("p",A),q=V::idx("q",B); double v=V::any<double>("v"); a(i,j)=v;
  if(p==i&&q==j) V::eq("written",a(p,q),v); else V::eq("others kept",a(p,q),V::elem<double>("X",p+q*A)); }
void P03_array_copy()
{ S A=V::dim("A"),B=V::dim("B"); A3 a({A,B}); fillarr(a,"X",A*B); A3 b(a); S i=V::idx("i",A),j=V::idx("j",B); V::eq("copied",b(i,j),V::elem<double>("X",i+j*A)); b(i,j)=V::any<double>("v"); V::eq("source unchanged",a(i,j),V::elem<double>("X",i+j*A)); }
void P03_array_assign()
{ S A=V::dim("A"),B=V::dim("B"),C=V::dim("C"),D=V::dim("D"); A3 a({A,B}); fillarr(a,"X",A*B); A3 b({C,D}); fillarr(b,"Y",C*D); b=a; S i=V::idx("i",A),j=V::idx("j",B); V::eq("copied",b(i,j),V::elem<double>("X",i+j*A)); b(i,j)=V::any<double>("v"); V::eq("source unchanged",a(i,j),V::elem<double>("X",i+j*A)); }
void P03_array_self_assign()
{ S A=V::dim("A"),B=V::dim("B"); A3 a({A,B}); fillarr(a,"X",A*B); A3& r=a; a=r; S i=V::idx("i",A),j=V::idx("j",B); V::eq("kept",a(i,j),V::elem<double>("X",i+j*A)); }
void P03_array_assign_empty()
{ S A=V::dim("A"),B=V::dim("B"); A3 a({A,B}); fillarr(a,"X",A*B); A3 e; A3 f(e); A3 b; b=a; S i=V::idx("i",A),j=V::idx("j",B); V::eq("copied",b(i,j),V::elem<double>("X",i+j*A)); f=a; V::eq("copied",f(i,j),V::elem<double>("X",i+j*A)); b=e; b=a; V::eq("copied again",b(i,j),V::elem<double>("X",i+j*A)); }
void P03_array_move()
{ S A=V::dim("A"),B=V::dim("B"); A3 a({A,B}); fillarr(a,"X",A*B); A3 b(std::move(a)); S i=V::idx("i",A),j=V::idx("j",B); V::eq("moved",b(i,j),V::elem<double>("X",i+j*A)); A3 c(a); a=b; V::eq("reassigned",a(i,j),V::elem<double>("X",i+j*A)); }
void P06_array_clone()
{ S A=V::dim("A"),B=V::dim("B"),N=V::dim("N"); A3 a({A,B}); std::vector<double> d(N); for(S k=0;k<N;k++) d[k]=V::elem<double>("D",k); a.clone(&d[0],N); S m=V::idx("m",N); V::eq("cloned",a(m),V::elem<double>("D",m)); }
void P05_array_const3()
{ S A=V::dim("A"),B=V::dim("B"),C=V::dim("C"); A3 a({A,B,C}); fillarr(a,"X",A*B*C); S i=V::idx("i",A),j=V::idx("j",B),k=V::idx("k",C); const A3& c=a; double x=V::elem<double>("X",i+j*A+k*A*B);
  V::eq("constant access",c(i,j,k),x); V::eq("get",c.get(i,j,k),x); V::eq("get vector",c.get(std::vector<S>{i,j,k}),x); V::eq("get list",c.get({i,j,k}),x); }
void P05_array_index4()
{ S A=V::dim("A"),B=V::dim("B"),C=V::dim("C"),D=V::dim("D"); A3 a({A,B,C,D}); fillarr(a,"X",A*B*C*D); S i=V::idx("i",A),j=V::idx("j",B),k=V::idx("k",C),l=V::idx("l",D); S m=i+A*(j+B*(k+C*l));
  V::eq("access",a(i,j,k,l),V::elem<double>("X",m)); V::eq("raw",a.get_raw_index(i,j,k,l),m); }
void P05_array_write3()
{ S A=V::dim("A"),B=V::dim("B"),C=V::dim("C"); A3 a({A,B,C}); fillarr(a,"X",A*B*C); S i=V::idx("i",A),j=V::idx("j",B),k=V::idx("k",C); double v=V::any<double>("v"); a(i,j,k)=v; S m=V::idx("m",A*B*C);
  if(m==i+j*A+k*A*B) V::eq("written",a(m),v); else V::eq("others kept",a(m),V::elem<double>("X",m)); }
}
