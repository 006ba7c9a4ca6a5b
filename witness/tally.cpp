#include "all.h"
/* the allocation tally: bytes of live storage obtained through the logging allocator */
namespace spec {
typedef std::size_t S;
typedef std::complex<double> Z;
typedef matrix<double, allocator_log<double>> L;
typedef array<int, allocator_log<int>> LA;
inline S tally() { return memory_tacker::instance().read(); }
inline S bytes(const L& a) { return a.size()*sizeof(double); }
void P20_construct(){ S R=V::dim("R"),C=V::dim("C"); S t=tally(); { L a(R,C); V::eq("construct",tally()-t,R*C*8); { L b(R,C,1.0); V::eq("construct",tally()-t,2*R*C*8); L c(std::tuple<S,S>(R,C)); V::eq("construct",tally()-t,3*R*C*8); } V::eq("destroy",tally()-t,R*C*8); } V::eq("destroy",tally(),t); }
void P20_copy(){ S R=V::dim("R"),C=V::dim("C"); S t=tally(); { L a(R,C,1.0); L b(a); V::eq("copy",tally()-t,2*R*C*8); } V::eq("destroy",tally(),t); }
void P20_assign(){ S R=V::dim("R"),C=V::dim("C"),P=V::dim("P"),Q=V::dim("Q"); S t=tally(); { L a(R,C,1.0); L b(P,Q,2.0); b=a; V::eq("assign",tally()-t,2*R*C*8); b=b; V::eq("self",tally()-t,2*R*C*8); L e; e=a; V::eq("into empty",tally()-t,3*R*C*8); } V::eq("destroy",tally(),t); }
void P20_move(){ S R=V::dim("R"),C=V::dim("C"); S t=tally(); { L a(R,C,1.0); L b(std::move(a)); V::eq("move",tally()-t,R*C*8); } V::eq("destroy",tally(),t); }
void P20_resize(){ S R=V::dim("R"),C=V::dim("C"),P=V::dim("P"),Q=V::dim("Q"); S t=tally(); { L a(R,C,1.0); a.resize(P,Q); V::eq("resize",tally()-t,P*Q*8); a.resize(Q,P); V::eq("same size",tally()-t,P*Q*8); } V::eq("destroy",tally(),t); }
void P20_ops(){ S R=V::dim("R"),C=V::dim("C"); S t=tally(); { L a(R,C,1.0); L b=a+a; L c=transpose(a); V::eq("results",tally()-t,3*R*C*8); a+=b; V::eq("in place",tally()-t,3*R*C*8); L r=a.row(0); V::eq("row",tally()-t,(3*R*C+C)*8); } V::eq("destroy",tally(),t); }
void P20_array(){ S A=V::dim("A"),B=V::dim("B"),N=V::dim("N"); S t=tally(); { LA a({A,B}); V::eq("construct",tally()-t,A*B*4); LA b(a); V::eq("copy",tally()-t,2*A*B*4); LA c({N}); c=a; V::eq("assign",tally()-t,3*A*B*4); LA d(std::move(c)); V::eq("move",tally()-t,3*A*B*4); } V::eq("destroy",tally(),t); }
void P20_array_clone(){ S A=V::dim("A"),B=V::dim("B"),N=V::dim("N"); S t=tally(); { LA a({A,B}); std::vector<int> d(N); a.clone(&d[0],N); V::eq("clone",tally()-t,N*4); } V::eq("destroy",tally(),t); }
void P20_direct(){ S N=V::dim("N"),K=V::dim("K"); S t=tally(); allocator_log<double> x; double* p=x.allocate(N); double* q=x.allocate(K); V::eq("live",tally()-t,(N+K)*8); x.deallocate(p,N); V::eq("live",tally()-t,K*8); x.deallocate(q,K); V::eq("none",tally(),t); }
typedef matrix<signed char, allocator_log<signed char>> L1;
typedef matrix<Z, allocator_log<Z>> L16;
typedef array<short, allocator_log<short>> LA2;
void P20_bytes(){ S R=V::dim("R"),C=V::dim("C"),P=V::dim("P"),Q=V::dim("Q"); S t=tally(); { L1 a(R,C); V::eq("construct",tally()-t,R*C); L1 b(P,Q,1); V::eq("construct",tally()-t,R*C+P*Q); b=a; V::eq("assign",tally()-t,2*R*C); b.resize(P,Q); V::eq("resize",tally()-t,R*C+P*Q); L1 c(std::move(b)); V::eq("move",tally()-t,R*C+P*Q); } V::eq("destroy",tally(),t); }
void P20_complex(){ S R=V::dim("R"),C=V::dim("C"),P=V::dim("P"),Q=V::dim("Q"); S t=tally(); { L16 a(R,C); V::eq("construct",tally()-t,16*R*C); L16 b(P,Q); V::eq("construct",tally()-t,16*R*C+16*P*Q); b=a; V::eq("assign",tally()-t,32*R*C); b.resize(P,Q); V::eq("resize",tally()-t,16*R*C+16*P*Q); } V::eq("destroy",tally(),t); }
void P20_shorts(){ S A=V::dim("A"),B=V::dim("B"),N=V::dim("N"); S t=tally(); { LA2 a({A,B}); V::eq("construct",tally()-t,A*B*2); LA2 c({N}); c=a; V::eq("assign",tally()-t,2*A*B*2); LA2 d(std::move(c)); V::eq("move",tally()-t,2*A*B*2); } V::eq("destroy",tally(),t); }
void P20_direct_sizes(){ S N=V::dim("N"); S t=tally(); allocator_log<char> x; char* p=x.allocate(N); V::eq("live",tally()-t,N); allocator_log<short> y; short* q=y.allocate(N); V::eq("live",tally()-t,3*N); allocator_log<Z> z; Z* r=z.allocate(N); V::eq("live",tally()-t,19*N); x.deallocate(p,N); V::eq("live",tally()-t,18*N); z.deallocate(r,N); V::eq("live",tally()-t,2*N); y.deallocate(q,N); V::eq("none",tally(),t); }
}
namespace spec {
/* any of the allocations may fail: whatever was obtained until then is released, and the tally says so */
void P20_construct__fault(){ S R=V::dim("R"),C=V::dim("C"); S t=tally(); try { L a(R,C,1.0); L b(a); V::eq("copy",tally()-t,bytes(a)+bytes(b)); } catch (const std::bad_alloc&) {} V::eq("destroy",tally(),t); }
void P20_assign__fault(){ S R=V::dim("R"),C=V::dim("C"),P=V::dim("P"),Q=V::dim("Q"); S t=tally(); try { L a(R,C,1.0); L b(P,Q,2.0); b=a; V::eq("assign",tally()-t,bytes(a)+bytes(b)); b.resize(P,Q); V::eq("resize",tally()-t,bytes(a)+bytes(b)); } catch (const std::bad_alloc&) {} V::eq("destroy",tally(),t); }
void P20_array__fault(){ S A=V::dim("A"),B=V::dim("B"); S t=tally(); try { LA a({A,B}); LA b(a); } catch (const std::bad_alloc&) {} V::eq("destroy",tally(),t); }
void P20_direct__fault(){ S N=V::dim("N"); S t=tally(); allocator_log<double> x; try { double* p=x.allocate(N); x.deallocate(p,N); } catch (const std::bad_alloc&) {} V::eq("none",tally(),t); }
}
