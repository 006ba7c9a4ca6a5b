#include "all.h"
/* any allocation may fail (assertions compiled out): nothing is leaked, released twice or accessed through a null pointer */
namespace spec {
typedef std::size_t S;
#define TRY(code) try { code } catch (const std::bad_alloc&) {}
void P02_matrix_ctor__fault(){ S R=V::dim("R"),C=V::dim("C"); TRY(matrix<double> a(R,C); matrix<double> b(R,C,1.0); matrix<double> c(std::tuple<S,S>(R,C)); ) }
void P02_matrix_copy__fault(){ S R=V::dim("R"),C=V::dim("C"); TRY(matrix<double> a(R,C,1.0); matrix<double> b(a); matrix<double> c(std::move(a)); ) }
void P02_matrix_assign__fault(){ S R=V::dim("R"),C=V::dim("C"); TRY(matrix<double> a(R,C,1.0); matrix<double> b(C,R,1.0); b=a; b=b; ) }
void P02_matrix_resize__fault(){ S R=V::dim("R"),C=V::dim("C"); TRY(matrix<double> a(R,C,1.0); a.resize(C+1,R+1); a.resize(R,C); ) }
void P02_matrix_plus__fault(){ S R=V::dim("R"),C=V::dim("C"); TRY(matrix<double> a(R,C,1.0); matrix<double> b=a+a; ) }
void P02_matrix_scale__fault(){ S R=V::dim("R"),C=V::dim("C"); TRY(matrix<double> a(R,C,1.0); matrix<double> b=a*2.0; ) }
void P02_matrix_row__fault(){ S R=V::dim("R"),C=V::dim("C"); TRY(matrix<double> a(R,C,1.0); matrix<double> b=a.row(0); matrix<double> c=a.col(0); ) }
void P02_transpose__fault(){ S R=V::dim("R"),C=V::dim("C"); TRY(matrix<double> a(R,C,1.0); matrix<double> b=transpose(a); ) }
void P02_matmul__fault(){ S R=V::dim("R"),C=V::dim("C"); TRY(matrix<double> a(R,C,1.0); matrix<double> b(C,R,1.0); matrix<double> c=matmul(a,b); ) }
void P02_sum__fault(){ S R=V::dim("R"),C=V::dim("C"); TRY(matrix<double> a(R,C,1.0); matrix<double> b=sum(a); matrix<double> c=mean(a); ) }
void P02_array__fault(){ S A=V::dim("A"),B=V::dim("B"),N=V::dim("N"); TRY(array<int> a({A,B}); array<int> b(a); array<int> c({N}); c=a; array<int> d(std::move(c)); ) }
void P02_array_clone__fault(){ S A=V::dim("A"),N=V::dim("N"); std::vector<int> d(N); TRY(array<int> a({A}); a.clone(&d[0],N); ) }
void P02_bitset__fault(){ unsigned N=(unsigned)V::dim("N"); TRY(bitset a(N); a.set(0); bitset b(a); b=a; ) }
void P02_filter__fault(){ S N=V::dim("N"); TRY(matrix<double> x(N,1,1.0); matrix<double> b(2,1,1.0); matrix<double> a(1,1,1.0); matrix<double> y=filter(b,a,x); ) }
void P02_conv__fault(){ S N=V::dim("N"),M=V::dim("M"); TRY(matrix<double> x(N,1,1.0); matrix<double> b(M,1,1.0); matrix<double> y=conv(b,x); ) }
void P02_concat__fault(){ S R=V::dim("R"),C=V::dim("C"); TRY(matrix<double> a(R,C,1.0); matrix<double> b=concat(a,a); ) }
}
