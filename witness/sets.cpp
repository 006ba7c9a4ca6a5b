#include "all.h"
namespace spec {
typedef std::size_t S;
/* ---- bitset ---- */
void P15_empty(){ S N=V::dim("N"); bitset b(N); S i=V::idx("i",N); V::check("nothing in a new set",!b.exists(i)); V::check("any",!b.any()); }
void P15_insert(){ S N=V::dim("N"); bitset b(N); S i=V::idx("i",N),j=V::idx("j",N); b.set(i); V::check("member",b.exists(i)); if(j!=i) V::check("only member",!b.exists(j)); V::check("any",b.any()); }
void P15_push(){ S N=V::dim("N"); bitset b(N); S i=V::idx("i",N); b.push(i); V::check("member",b.exists(i)); }
void P15_two(){ S N=V::dim("N"); bitset b(N); S i=V::idx("i",N),j=V::idx("j",N),k=V::idx("k",N); b.set(i); b.set(j); V::check("first kept",b.exists(i)); V::check("second",b.exists(j)); if(k!=i&&k!=j) V::check("no other",!b.exists(k)); }
void P15_remove(){ S N=V::dim("N"); bitset b(N); S i=V::idx("i",N),j=V::idx("j",N); b.set(i); b.set(j); b.reset(j); V::check("removed",!b.exists(j)); if(i!=j) V::check("other kept",b.exists(i)); }
void P15_remove_absent(){ S N=V::dim("N"); bitset b(N); S i=V::idx("i",N),j=V::idx("j",N); V::assume(i!=j); b.set(i); b.reset(j); V::check("still absent",!b.exists(j)); V::check("other kept",b.exists(i)); }
void P15_fill(){ S N=V::dim("N"); bitset b(N); b.set(); S i=V::idx("i",N); V::check("every element is a member",b.exists(i)); V::check("any",b.any()); V::check("nothing beyond",!b.exists(N)); }
void P15_clear(){ S N=V::dim("N"); bitset b(N); S i=V::idx("i",N),j=V::idx("j",N); b.set(i); b.reset(); V::check("cleared",!b.exists(j)); V::check("any",!b.any()); }
void P15_range(){ S N=V::dim("N"),x=V::dim0("x"); V::assume(x>=N); bitset b(N); b.set(x); S i=V::idx("i",N); V::check("ignored",!b.exists(i)); V::check("outside",!b.exists(x)); b.reset(x); }
void P15_pop(){ S N=V::dim("N"); bitset b(N); V::eq("empty pop",b.pop(),N); S i=V::idx("i",N); b.set(i); S p=b.pop(); V::eq("popped the only member",p,i); V::check("removed",!b.exists(i)); }
void P15_zero(){ bitset b(0); V::check("any",!b.any()); V::check("exists",!b.exists(0)); V::eq("pop",b.pop(),(S)0); b.set(0); b.reset(0); b.set(); b.reset(); }
void P03_bitset_copy(){ S N=V::dim("N"); bitset b(N); S i=V::idx("i",N),j=V::idx("j",N); b.set(i); bitset c(b); V::check("copied",c.exists(i)); c.set(j); if(j!=i) V::check("source unchanged",!b.exists(j)); }
void P03_bitset_assign(){ S N=V::dim("N"),M=V::dim("M"); bitset b(N), c(M); S i=V::idx("i",N); b.set(i); c=b; V::check("copied",c.exists(i)); b.reset(); V::check("independent",c.exists(i)); bitset& r=c; c=r; V::check("self",c.exists(i)); }
void P03_bitset_zero(){ bitset z(0); S N=V::dim("N"); bitset b(N), c(z); b=z; V::check("empty",!b.any()); c=b; }

/* ---- storage base ---- */
struct mem_access : memory<double> { void grow(S n){ allocate(n); } void drop(){ deallocate(); } double& at(S i){ return _matrix[i]; } };
void P03_memory_copy(){ S N=V::dim("N"); mem_access a; a.grow(N); S i=V::idx("i",N); V::input(a.at(0),N,"X"); mem_access b(a); V::eq("size",b.size(),N); V::eq("copied",b.at(i),V::elem<double>("X",i)); b.at(i)=V::any<double>("v"); V::eq("independent",a.at(i),V::elem<double>("X",i)); }
void P03_memory_assign(){ S N=V::dim("N"),M=V::dim("M"); mem_access a,b; a.grow(N); b.grow(M); S i=V::idx("i",N); V::input(a.at(0),N,"X"); b=a; V::eq("size",b.size(),N); V::eq("copied",b.at(i),V::elem<double>("X",i)); mem_access e; b=e; V::eq("emptied",b.size(),(S)0); b=a; V::eq("copied",b.at(i),V::elem<double>("X",i)); mem_access& r=b; b=r; V::eq("self",b.at(i),V::elem<double>("X",i)); }
void P03_memory_move(){ S N=V::dim("N"); mem_access a; a.grow(N); S i=V::idx("i",N); V::input(a.at(0),N,"X"); mem_access b(std::move(a)); V::eq("size",b.size(),N); V::eq("moved",b.at(i),V::elem<double>("X",i)); V::eq("source empty",a.size(),(S)0); a=b; V::eq("reassigned",a.at(i),V::elem<double>("X",i)); }
void P03_memory_grow(){ S N=V::dim("N"),M=V::dim("M"); mem_access a; a.grow(N); V::input(a.at(0),N,"X"); a.grow(N+M); S i=V::idx("i",N); V::eq("size",a.size(),N+M); V::eq("kept",a.at(i),V::elem<double>("X",i)); a.drop(); V::eq("released",a.size(),(S)0); a.drop(); a.grow(M); V::eq("size",a.size(),M); S j=V::idx("j",M); a.at(j)=1; }
}
