#include "all.h"
/* analysed with SUSA_NASSERT: assertions compiled out, the remaining guards must keep misuse harmless */
namespace spec {
typedef std::size_t S;
typedef matrix<double> M;
inline M A(S R, S C) { return mk<double>("A",R,C); }
#define RC S R=V::dim("R"), C=V::dim("C"); M a=A(R,C); S i=V::any<S>("i"), j=V::any<S>("j"); S m=V::idx("m",R*C)
#define KEPT V::eq("elements kept",a(m),V::elem<double>("A",m)); V::eq("size kept",a.size(),R*C)
void P11_off_write_row(){ RC; V::assume(i>=R); a(i,j)=V::any<double>("v"); KEPT; }
void P11_off_write_col(){ RC; V::assume(j>=C); a(i,j)=V::any<double>("v"); KEPT; }
void P11_off_write_lin(){ RC; V::assume(i>=R*C); a(i)=V::any<double>("v"); KEPT; }
void P11_off_empty(){ M a; S i=V::any<S>("i"); a(i)=1.0; a(i,i)=1.0; V::eq("still empty",a.size(),(S)0); }
void P11_off_set_row(){ RC; S N=V::dim("N"); M b=mk<double>("B",1,N); V::assume(i>=R); bool ok=a.set_row(i,b); V::check("rejected",!ok); KEPT; }
void P11_off_set_row_short(){ RC; S N=V::dim("N"); M b=mk<double>("B",1,N); V::assume(N<C); bool ok=a.set_row(i,b); V::check("rejected",!ok); KEPT; }
void P11_off_set_col(){ RC; S N=V::dim("N"); M b=mk<double>("B",1,N); V::assume(j>=C); bool ok=a.set_col(j,b); V::check("rejected",!ok); KEPT; }
void P11_off_set_col_short(){ RC; S N=V::dim("N"); M b=mk<double>("B",1,N); V::assume(N<R); bool ok=a.set_col(j,b); V::check("rejected",!ok); KEPT; }
void P11_off_swap_rows(){ RC; V::assume(i>=R||j>=R); a.swap_rows(i,j); KEPT; }
void P11_off_swap_cols(){ RC; V::assume(i>=C||j>=C); a.swap_cols(i,j); KEPT; }
void P11_off_reshape(){ RC; V::assume(i*j!=R*C); M r=a.reshape(i,j); V::eq("empty result",r.size(),(S)0); KEPT; }
void P11_off_row(){ RC; V::assume(i>=R); M r=a.row(i); KEPT; }
void P11_off_col(){ RC; V::assume(j>=C); M r=a.col(j); KEPT; }
void P11_off_row_vec(){ RC; V::assume(i>=R); a.get_row_as_vec(i); KEPT; }
void P11_off_col_vec(){ RC; V::assume(j>=C); a.get_col_as_vec(j); KEPT; }
void P11_off_shrink(){ RC; V::assume(i>=R||j>=C); M r=a.shrink(i,j); KEPT; }
void P11_off_left_mat(){ RC; V::assume(R>1&&C>1); V::assume(i>C); M r=a.left(i); KEPT; }
void P11_off_right_mat(){ RC; V::assume(R>1&&C>1); V::assume(i>C); M r=a.right(i); KEPT; }
void P11_off_mid_mat(){ RC; V::assume(R>1&&C>1); V::assume(j>=C); M r=a.mid(i,j); KEPT; }
void P11_off_mid_order(){ RC; V::assume(R>1&&C>1); V::assume(i>j); M r=a.mid(i,j); KEPT; }
#define VEC S R=V::dim("R"); V::assume(R>1); S i=V::any<S>("i"), j=V::any<S>("j"); S m=V::idx("m",R)
#define KEPTV V::eq("elements kept",a(m),V::elem<double>("A",m))
void P11_off_left_col(){ VEC; M a=A(R,1); V::assume(i>R); M r=a.left(i); KEPTV; }
void P11_off_left_row(){ VEC; M a=A(1,R); V::assume(i>R); M r=a.left(i); KEPTV; }
void P11_off_right_col(){ VEC; M a=A(R,1); V::assume(i>R); M r=a.right(i); KEPTV; }
void P11_off_right_row(){ VEC; M a=A(1,R); V::assume(i>R); M r=a.right(i); KEPTV; }
void P11_off_mid_col(){ VEC; M a=A(R,1); V::assume(j>=R); M r=a.mid(i,j); KEPTV; }
void P11_off_mid_row(){ VEC; M a=A(1,R); V::assume(j>=R); M r=a.mid(i,j); KEPTV; }
void P11_off_read_row(){ RC; V::assume(i>=R); const M& c=a; double v=c(i,j); KEPT; }
void P11_off_read_col(){ RC; V::assume(j>=C); const M& c=a; double v=c(i,j); KEPT; }
void P11_off_read_lin(){ RC; V::assume(i>=R*C); const M& c=a; double v=c(i); KEPT; }
void P11_off_get_row(){ RC; V::assume(i>=R); const M& c=a; double v=c.get(i,j); KEPT; }
void P11_off_get_col(){ RC; V::assume(j>=C); const M& c=a; double v=c.get(i,j); KEPT; }
void P11_off_get_lin(){ RC; V::assume(i>=R*C); const M& c=a; double v=c.get(i); KEPT; }
void P11_off_transpose_empty(){ M a; M r=transpose(a); V::eq("still empty",a.size(),(S)0); }
#define TWO RC; S P=V::dim("P"), Q=V::dim("Q"); M b=mk<double>("B",P,Q); V::assume(R!=P||C!=Q)
void P11_off_add(){ TWO; M r=a+b; KEPT; }
void P11_off_sub(){ TWO; M r=a-b; KEPT; }
void P11_off_mul(){ TWO; M r=a*b; KEPT; }
void P11_off_div(){ TWO; M r=a/b; KEPT; }
void P11_off_addto(){ TWO; a+=b; KEPT; }
void P11_off_subfrom(){ TWO; a-=b; KEPT; }
void P11_off_matmul(){ RC; S P=V::dim("P"), Q=V::dim("Q"); M b=mk<double>("B",P,Q); V::assume(C!=P); M r=matmul(a,b); KEPT; }
#define ARR3 S P=V::dim("P"), Q=V::dim("Q"), R=V::dim("R"); array<double> a({P,Q,R}); V::input(a(0),P*Q*R,"X"); const array<double>& c=a; S i=V::any<S>("i"), j=V::any<S>("j"), k=V::any<S>("k"); S m=V::idx("m",P*Q*R); V::assume(i+j*P+k*P*Q>=P*Q*R)
void P11_off_array_write(){ ARR3; a(i,j,k)=V::any<double>("v"); V::eq("elements kept",a(m),V::elem<double>("X",m)); }
void P11_off_array_read(){ ARR3; double v=c(i,j,k); v=c.get({i,j,k}); v=c.get(std::vector<S>{i,j,k}); V::eq("elements kept",a(m),V::elem<double>("X",m)); }
}
