#include "all.h"
namespace spec {
typedef std::size_t S;
typedef matrix<double> M;
/* After V::misuse() a failing assertion is the required outcome: no path may get past the call. */
inline void stopped() { V::check("an assertion stops the program", false); }
#define MIS(NAME, SETUP, WHEN, CALL) void P11_##NAME() { SETUP; V::assume(WHEN); V::misuse(); CALL; stopped(); }
inline M A(S R, S C) { return mk<double>("A",R,C); }
inline M B(S R, S C) { return mk<double>("B",R,C); }
#define RC S R=V::dim("R"), C=V::dim("C"); M a=A(R,C); const M& c=a; S i=V::any<S>("i"), j=V::any<S>("j"); double v=0
MIS(get_row, RC, i>=R, v=c.get(i,j))
MIS(get_col, RC, j>=C, v=c.get(i,j))
MIS(get_lin, RC, i>=R*C, v=c.get(i))
MIS(read_row, RC, i>=R, v=c(i,j))
MIS(read_col, RC, j>=C, v=c(i,j))
MIS(read_lin, RC, i>=R*C, v=c(i))
MIS(write_row, RC, i>=R, a(i,j)=1)
MIS(write_col, RC, j>=C, a(i,j)=1)
MIS(write_lin, RC, i>=R*C, a(i)=1)
MIS(empty_read, M a; const M& c=a; S i=V::any<S>("i"); double v=0, true, v=c(i))
MIS(empty_read2, M a; const M& c=a; S i=V::any<S>("i"); double v=0, true, v=c(i,i))
MIS(empty_write, M a; S i=V::any<S>("i"), true, a(i)=1)
MIS(row_vec, RC, i>=R, a.get_row_as_vec(i))
MIS(col_vec, RC, j>=C, a.get_col_as_vec(j))
MIS(zero_rows, S C=V::dim0("C"), true, M a((S)0,C))
MIS(zero_cols, S C=V::dim0("C"), true, M a(C,(S)0))
MIS(zero_rows_init, S C=V::dim0("C"), true, M a((S)0,C,1.0))
MIS(zero_cols_init, S C=V::dim0("C"), true, M a(C,(S)0,1.0))
MIS(zero_shape, S C=V::dim0("C"), true, M a(std::tuple<S,S>(0,C)))
MIS(zero_shape_init, S C=V::dim0("C"), true, M a(std::tuple<S,S>(C,0),1.0))
MIS(zero_resize_rows, RC, true, a.resize(0,i))
MIS(zero_resize_cols, RC, true, a.resize(i,0))
#define TWO S R=V::dim("R"), C=V::dim("C"), P=V::dim("P"), Q=V::dim("Q"); M a=A(R,C), b=B(P,Q)
#define SHAPES(NAME, CALL) MIS(NAME##_rows, TWO, R!=P, CALL) MIS(NAME##_cols, TWO, C!=Q, CALL)
SHAPES(add, M r=a+b)
SHAPES(sub, M r=a-b)
SHAPES(mul, M r=a*b)
SHAPES(div, M r=a/b)
SHAPES(addto, a+=b)
SHAPES(subfrom, a-=b)
MIS(matmul, TWO, C!=P, M r=matmul(a,b))
MIS(matmul_empty_l, S R=V::dim("R"); S C=V::dim("C"); M a; M b=B(R,C), true, M r=matmul(a,b))
MIS(matmul_empty_r, S R=V::dim("R"); S C=V::dim("C"); M a=A(R,C); M b, true, M r=matmul(a,b))
MIS(reshape, RC, i*j!=R*C, M r=a.reshape(i,j))
MIS(shrink_row, RC, i>=R, M r=a.shrink(i,j))
MIS(shrink_col, RC, j>=C, M r=a.shrink(i,j))
MIS(left_vec, S R=V::dim("R"); V::assume(R>1); M a=A(R,1); S i=V::any<S>("i"), i>R, M r=a.left(i))
MIS(left_row, S R=V::dim("R"); V::assume(R>1); M a=A(1,R); S i=V::any<S>("i"), i>R, M r=a.left(i))
MIS(right_vec, S R=V::dim("R"); V::assume(R>1); M a=A(R,1); S i=V::any<S>("i"), i>R, M r=a.right(i))
MIS(right_row, S R=V::dim("R"); V::assume(R>1); M a=A(1,R); S i=V::any<S>("i"), i>R, M r=a.right(i))
MIS(left_mat, RC; V::assume(R>1&&C>1), i>C, M r=a.left(i))
MIS(right_mat, RC; V::assume(R>1&&C>1), i>C, M r=a.right(i))
MIS(mid_order, RC, i>=j, M r=a.mid(i,j))
MIS(mid_vec, S R=V::dim("R"); M a=A(R,1); S i=V::any<S>("i"); S j=V::any<S>("j"), j>=R, M r=a.mid(i,j))
MIS(mid_mat, RC; V::assume(R>1&&C>1), j>=C, M r=a.mid(i,j))
MIS(swap_rows, RC, i>=R, a.swap_rows(i,j))
MIS(swap_rows2, RC, j>=R, a.swap_rows(i,j))
MIS(swap_cols, RC, i>=C, a.swap_cols(i,j))
MIS(swap_cols2, RC, j>=C, a.swap_cols(i,j))
#define PUT RC; S N=V::dim("N"); M b=B(1,N)
MIS(set_row, PUT, i>=R, a.set_row(i,b))
MIS(set_row_short, PUT, N<C, a.set_row(i,b))
MIS(set_col, PUT, j>=C, a.set_col(j,b))
MIS(set_col_short, PUT, N<R, a.set_col(j,b))
MIS(row, RC, i>=R, M r=a.row(i))
MIS(col, RC, j>=C, M r=a.col(j))
MIS(transpose_empty, M a, true, M r=transpose(a))
MIS(lu_shape, RC, R!=C, lu<double> l(a))
MIS(lup_shape, RC, R!=C, lup<double> l(a))
MIS(least_many, S N=V::dim("N"); M a=A(N,1); unsigned k=V::any<unsigned>("k"), k>=N, select_least(a,k))
MIS(most_many, S N=V::dim("N"); M a=A(N,1); unsigned k=V::any<unsigned>("k"), k>=N, select_most(a,k))
MIS(least_matrix, S R=V::dim("R"); S C=V::dim("C"); M a=A(R,C), R>1&&C>1, select_least(a,1u))
MIS(sort_matrix, S R=V::dim("R"); S C=V::dim("C"); M a=A(R,C), R>1&&C>1, sort(a))
MIS(dijkstra_shape, RC, R!=C, dijkstra(a,0u))
MIS(convmtx_matrix, S R=V::dim("R"); S C=V::dim("C"); M a=A(R,C), R>1&&C>1, convmtx(a,(S)2))
MIS(radix2_size, S N=V::var<S>("N",1,64); M a=A(N,1); fft<double> f, (N&(N-1))!=0, f.radix2(a))
#define ARR3 S P=V::dim("P"), Q=V::dim("Q"), R=V::dim("R"); array<double> a({P,Q,R}); V::input(a(0),P*Q*R,"X"); const array<double>& c=a; S i=V::any<S>("i"), j=V::any<S>("j"), k=V::any<S>("k"); double v=0
MIS(array_write, ARR3, i+j*P+k*P*Q>=P*Q*R, a(i,j,k)=1)
MIS(array_read, ARR3, i+j*P+k*P*Q>=P*Q*R, v=c(i,j,k))
MIS(array_get, ARR3, i+j*P+k*P*Q>=P*Q*R, v=c.get({i,j,k}))
MIS(array_getv, ARR3, i+j*P+k*P*Q>=P*Q*R, v=c.get(std::vector<S>{i,j,k}))
MIS(array_lin, ARR3, i>=P*Q*R, a(i)=1)
MIS(array_many, ARR3, true, v=c(i,j,k,(S)0))
MIS(code_inputs, unsigned n=V::any<unsigned>("n"); unsigned k=V::any<unsigned>("k"); unsigned m=V::any<unsigned>("m"), k!=1, ccode c(n,k,m))
MIS(code_memory, unsigned n=V::any<unsigned>("n"); unsigned m=V::any<unsigned>("m"), m>=32||m==0, ccode c(n,1u,m))
MIS(code_generator, unsigned i=V::any<unsigned>("i"); ccode c(2,1,2), i>=2, c.set_generator(7u,i))
MIS(rrc_order, int n=V::var<int>("n",-100,100), n<=0||n%2==0, rrcosine r(8.0,0.5,n))
}
