#include "all.h"
namespace spec {
typedef std::size_t S;
typedef uint32_t U;
template <class T> matrix<T> vec(S N, bool row) { return row?mk<T>("A",1,N):mk<T>("A",N,1); }
/* the same values as in A, in non-decreasing order */
template <class T> void sorted(bool row)
{ S N=V::var<S>("N",2,4); matrix<T> r=sort(vec<T>(N,row)); V::eq("size",r.size(),N);
  for(S i=0;i+1<N;i++) V::check("ascending",r(i)<=r(i+1));
  double t=V::any<double>("t"), p=1, q=1; for(S i=0;i<N;i++) { p*=t-r(i); q*=t-V::elem<T>("A",i); } V::eq("permutation",p,q); }
void P22_sort_col__sz() { sorted<double>(false); }
void P22_sort_row__sz() { sorted<double>(true); }
void P22_sort_int__sz() { sorted<int>(false); }
template <class T> void sorted_ix(bool row)
{ S N=V::var<S>("N",2,4); matrix<U> r=sort_indices(vec<T>(N,row)); V::eq("size",r.size(),N);
  for(S i=0;i<N;i++) V::check("in range",r(i)<N);
  for(S i=0;i+1<N;i++) V::check("ascending",V::elem<T>("A",r(i))<=V::elem<T>("A",r(i+1)));
  for(S i=0;i<N;i++) for(S j=0;j<i;j++) V::check("distinct",r(i)!=r(j)); }
void P22_sort_indices_col__sz() { sorted_ix<double>(false); }
void P22_sort_indices_row__sz() { sorted_ix<double>(true); }
/* k distinct indices, in order, none of the others is strictly better */
template <class T, class F, class G> void selected(const matrix<U>& r, S K, S N, F ok, G better)
{ V::eq("size",r.size(),K);
  for(S i=0;i<K;i++) { V::check("allowed index",r(i)<N&&ok(r(i))); for(S j=0;j<i;j++) V::check("distinct",r(i)!=r(j)); }
  for(S i=0;i+1<K;i++) V::check("in order",!better(V::elem<T>("A",r(i+1)),V::elem<T>("A",r(i))));
  for(S j=0;j<N;j++) if(ok(j)) { bool in=false; for(S i=0;i<K;i++) if(r(i)==j) in=true; if(!in) V::check("no better element is left",!better(V::elem<T>("A",j),V::elem<T>("A",r(K-1)))); } }
template <class T> struct less_ { bool operator()(T a, T b) { return a<b; } };
template <class T> struct more_ { bool operator()(T a, T b) { return a>b; } };
struct all_ { bool operator()(S) { return true; } };
struct not0_ { bool operator()(S i) { return i!=0; } };
void P22_select_least__sz() { S N=V::var<S>("N",2,4), K=V::var<S>("K",1,3); V::assume(K<N); selected<double>(select_least(vec<double>(N,false),(U)K),K,N,all_(),less_<double>()); }
void P22_select_most__sz() { S N=V::var<S>("N",2,4), K=V::var<S>("K",1,3); V::assume(K<N); selected<double>(select_most(vec<double>(N,true),(U)K),K,N,all_(),more_<double>()); }
void P22_select_limited__sz()
{ S N=V::var<S>("N",3,5), K=V::var<S>("K",1,2); V::assume(K+1<N); matrix<U> l(N-1,1); for(S i=0;i+1<N;i++) l(i)=(U)(N-1-i);
  selected<double>(select_limited_least(vec<double>(N,false),l,(U)K),K,N,not0_(),less_<double>()); }
template <class T> void found(S N, bool row)
{ T x=V::any<T>("x"); bitset s=find(vec<T>(N,row),x);
  for(S i=0;i<N;i++) V::check("found exactly the equal elements",s.exists(i)==(V::elem<T>("A",i)==x));
  V::check("nothing beyond",!s.exists(N)); }
void P22_find_small__sz() { S N=V::var<S>("N",2,3); found<double>(N,false); }
/* two free positions among others that differ from the value */
void P22_find_row__sz() { S N=V::var<S>("N",7,9), p=V::var<S>("p",0,8), q=V::var<S>("q",0,8); V::assume(p<q&&q<N); double x=V::any<double>("x"); for(S i=0;i<N;i++) V::assume(i==p||i==q||V::elem<double>("A",i)!=x); found<double>(N,true); }
/* walking back over the predecessors follows edges and has the least total weight of all paths; weight 0 is no edge */
void P22_dijkstra__sz()
{ const U inf=1u<<30; S N=V::var<S>("N",1,3), src=V::var<S>("src",0,2); V::assume(src<N); matrix<U> g(N,N); 
  for(S i=0;i<N*N;i++) { U w=V::elem<U>("A",i); V::assume(w<=1000); g(i)=w; }
  matrix<U> p=dijkstra(g,(U)src); V::eq("size",p.size(),N);
  U d[3]; for(S i=0;i<N;i++) d[i]=i==src?0:inf;
  for(S r=0;r+1<N;r++) for(S i=0;i<N;i++) for(S j=0;j<N;j++) { U w=g(i,j); if(w!=0&&d[i]<inf&&d[i]+w<d[j]) d[j]=d[i]+w; }
  for(S v=0;v<N;v++) if(v!=src&&d[v]<inf)
  { S x=v; U len=0; for(S t=0;t<N&&x!=src;t++) { S y=p(x); V::check("predecessor is a node",y<N); if(y>=N) return; U w=g(y,x); V::check("predecessor over an edge",w!=0); len+=w; x=y; } V::check("ends at the source",x==src); V::eq("least total weight",len,d[v]); } }
}
