#include "allp.h"
namespace spec {
typedef std::size_t S;
typedef uint32_t U;

/* ---- convolutional code; memory, generators and lengths are fixed per analysis, states and data bits are symbolic ---- */
struct code
{ U m, n, g[3]; ccode c;
  code(U mm, U nn) : m(mm), n(nn), c(nn,1,mm)
  { for(U j=0;j<n;j++) { U d0=V::var<U>(j==0?"g0":j==1?"g1":"g2",0,7), d1=V::var<U>(j==0?"h0":j==1?"h1":"h2",0,1); g[j]=d1*8+d0; c.set_generator(d1*10+d0,j); } }
  /* output j for register contents w: bit m is the input, lower bits the memory */
  U out(U w, U j) { U p=0; for(U t=0;t<=m;t++) p^=((w>>t)&1u)&((g[j]>>t)&1u); return p; } };
void P16_next_state__sz()
{ U m=V::var<U>("m",1,10); ccode c(1,1,m); U s=V::any<U>("s"); V::assume(s<(1u<<m));
  V::eq("input 0",c.next_state(s,false),s>>1); V::eq("input 1",c.next_state(s,true),(s>>1)+(1u<<(m-1)));
  V::check("state in range",c.next_state(s,true)<(1u<<m)); }
void P16_prev_states__sz()
{ U m=V::var<U>("m",1,10); ccode c(2,1,m); U s=V::any<U>("s"); V::assume(s<(1u<<m)); std::vector<U> p=c.prev_states(s); V::eq("two predecessors",p.size(),(S)2);
  for(S k=0;k<2;k++) { V::check("in range",p[k]<(1u<<m)); bool b=((s>>(m-1))&1u)!=0; V::eq("leads back",c.next_state(p[k],b),s); } V::check("distinct",p[0]!=p[1]); }
void P16_octal__sz()
{ U d0=V::var<U>("d0",0,7), d1=V::var<U>("d1",0,7), d2=V::var<U>("d2",0,7), d3=V::var<U>("d3",0,7); ccode c(2,1,2); V::eq("four digits",c.oct_to_dec(d3*1000+d2*100+d1*10+d0),d3*512+d2*64+d1*8+d0); }
void P16_count() { U x=V::any<U>("x"); ccode c(2,1,2); U n=0; for(U i=0;i<32;i++) n+=(x>>i)&1u; V::eq("ones",(U)c.count_1bits(x),n); V::eq("zeros",(U)c.count_0bits(x),32-n); }
void P16_rate() { U n=V::var<U>("n",1,8); ccode c(n,1,2); V::eq("rate",(double)c.rate()*n,1.0); }
void P16_next_output__sz3()
{ code k(V::var<U>("m",1,3),V::var<U>("n",1,3)); U s=V::any<U>("s"); V::assume(s<(1u<<k.m));
  for(U b=0;b<2;b++) { U o=k.c.next_output(s,b!=0); for(U j=0;j<k.n;j++) V::eq("output bit",(o>>j)&1u,k.out(s+(b<<k.m),j)); V::check("no other bits",(o>>k.n)==0); } }
/* long registers: octal generators of any number of digits, one pattern of taps each */
struct longcode
{ U m, g; ccode c;
  longcode() : m(V::var<U>("m",4,20)), c(1,1,m)
  { U p=V::var<U>("p",0,3), full=(2u<<m)-1; g=p==0?full:p==1?(1u<<m)+1:p==2?full/3:full&~(1u<<(m/2)); U d=0, e=1; for(U x=g;x!=0;x/=8) { d+=(x%8)*e; e*=10; } c.set_generator(d,0); }
  U out(U w) { U r=0; for(U t=0;t<=m;t++) r^=((w>>t)&1u)&((g>>t)&1u); return r; } };
void P16_output_long__sz()
{ longcode k; U s=V::any<U>("s"); V::assume(s<(1u<<k.m)); for(U b=0;b<2;b++) V::eq("output",(U)k.c.next_output(s,b!=0),k.out(s+(b<<k.m))); }
void P16_encode_long__sz()
{ longcode k; S L=8; S z=V::var<S>("z",0,4); matrix<uint8_t> u(L,1,(uint8_t)0); for(S i=z;i<z+2;i++) u(i)=V::elem<uint8_t>("B",i);
  matrix<uint8_t> o=k.c.encode(u); U w=0; for(S i=0;i<L;i++) { w=(w>>1)+((u(i)!=0?1u:0u)<<k.m); V::eq("encoded bit",(U)o(i),k.out(w)); } }
/* the encoder is the shift register the generators describe, started from the zero state */
void P16_encode__sz3()
{ code k(V::var<U>("m",1,3),V::var<U>("n",1,3)); k.c.set_internal_state(V::var<U>("st",0,1));
  S L=V::var<S>("L",1,4); matrix<uint8_t> u(L,1); for(S i=0;i<L;i++) { u(i)=V::elem<uint8_t>("B",i); }
  matrix<uint8_t> o=k.c.encode(u); V::eq("length",o.size(),L*k.n);
  for(S i=0;i<L;i++) for(U j=0;j<k.n;j++) { U w=0; for(U t=0;t<=k.m;t++) if(t<=i&&V::elem<uint8_t>("B",i-t)!=0) w+=1u<<(k.m-t); V::eq("encoded bit",(U)o(i*k.n+j),k.out(w,j)); }
  matrix<uint8_t> o2=k.c.encode(u); for(S i=0;i<L*k.n;i++) V::eq("encoding starts from the zero state",(U)o2(i),(U)o(i)); }
/* the decoder computes the exact a posteriori ratio over all paths from and to the zero state */
void P16_bcjr__sz2()
{ code k(V::var<U>("m",1,2),V::var<U>("n",1,2)); U m=k.m, n=k.n;
  S L=V::var<S>("L",1,3); matrix<double> y(L*n,1); for(S i=0;i<L*n;i++) y(i)=V::elem<double>("Y",i);
  double e=V::any<double>("e"); matrix<double> r=k.c.decode_bcjr(y,e); 
  for(S i=0;i<L;i++)
  { double one=0, zero=0;
    for(U w=0;w<(1u<<L);w++)
    { U s=0; double p=1; 
      for(S t=0;t<L;t++) { U b=(w>>t)&1u; double a=0; for(U j=0;j<n;j++) a+=y(n*t+j)*(k.out(s+(b<<m),j)?1:-1); p*=std::exp(2*e*a); s=(s>>1)+(b<<(m-1)); }
      if(s==0) { if((w>>i)&1u) one+=p; else zero+=p; } }
    V::eq("likelihood ratio",r(i)*zero,one); } }
/* longer codes: whole received samples except for one, signal-to-noise ratio such that the weights are powers of two */
void P16_bcjr_long__sz4()
{ U q=V::var<U>("q",0,1), m=V::var<U>("m",2,3); S L=V::var<S>("L",4,5), t0=V::var<S>("t",0,9); V::assume(L>m&&t0<2*L); const U n=2; U g[2]={m==2?5u:15u,m==2?7u:13u}; const U o[2]={m==2?5u:17u,m==2?7u:15u};
  ccode c(n,1,m); for(U j=0;j<n;j++) c.set_generator(o[j],j);
  matrix<double> y(L*n,1); for(S i=0;i<L*n;i++) y(i)=(double)((i*i+3*i*q+q)%5)-2.0;
  y(t0)=V::any<double>("y"); double e=std::log(2.0)/2; matrix<double> r=c.decode_bcjr(y,e); 
  for(S i=0;i<L;i++)
  { double one=0, zero=0;
    for(U w=0;w<(1u<<L);w++)
    { U s=0; double p=1; 
      for(S t=0;t<L;t++) { U b=(w>>t)&1u, f=s+(b<<m); double a=0; for(U j=0;j<n;j++) { U x=f&g[j], z=0; while(x) { z^=x&1u; x>>=1; } a+=y(n*t+j)*(z?1:-1); } p*=std::exp(2*e*a); s=(s>>1)+(b<<(m-1)); }
      if(s==0) { if((w>>i)&1u) one+=p; else zero+=p; } }
    V::eq("likelihood ratio",r(i)*zero,one); } }

/* ---- inter-symbol interference channel: number of taps, constellation size and length fixed per analysis; taps, amplitudes and signals symbolic ---- */
inline U ipow(U b, U e) { U r=1; for(U i=0;i<e;i++) r*=b; return r; }
inline U digit(U s, U k, U base) { for(U i=0;i<k;i++) s/=base; return s%base; }
struct chan
{ U M, P; matrix<double> taps, pam; channel<double> c; U states;
  static matrix<double> row(const char* n, U k) { matrix<double> r(1,k); for(U i=0;i<k;i++) r(i)=V::elem<double>(n,i); return r; }
  static matrix<double> signs() { matrix<double> r(1,2); r(0)=-1; r(1)=1; return r; }
  chan(U m, U p, bool) : M(m), P(p), taps(row("H",m)), pam(signs()), c(taps,pam), states(ipow(p,m-1)) {}
  chan(U m, U p) : M(m), P(p), taps(row("H",m)), pam(row("A",p)), c(taps,pam), states(ipow(p,m-1)) {}
  /* noise-free output when the memory holds state s (digit 0 is the most recent symbol) and symbol b is sent */
  double out(U s, U b) { double r=V::elem<double>("H",0)*V::elem<double>("A",b); for(U t=1;t<M;t++) r+=V::elem<double>("H",t)*V::elem<double>("A",digit(s,t-1,P)); return r; }
  U next(U s, U b) { return (s*P+b)%states; } };
void P17_trellis__sz()
{ U M=V::var<U>("M",2,7), P=V::var<U>("P",2,4); V::assume(P==2||M<=4); chan k(M,P); 
  for(U s=0;s<k.states;s++) { for(U b=0;b<P;b++) { V::eq("next state",k.c.next_state(s,b),k.next(s,b)); V::eq("output",k.c.next_output(s,b),k.out(s,b)); }
  matrix<U> p=k.c.prev_states(s); V::eq("as many predecessors as symbols",p.size(),(S)k.P);
  for(U i=0;i<k.P;i++) { V::check("in range",p(i)<k.states); V::eq("leads to the state",k.next(p(i),s%k.P),s); for(U j=0;j<i;j++) V::check("distinct",p(i)!=p(j)); } } }
void P17_encode__sz()
{ U M=V::var<U>("M",2,5), P=V::var<U>("P",2,3); V::assume(P==2||M<5); chan k(M,P); S L=V::var<S>("L",1,5);
  matrix<double> x(L,1); for(S i=0;i<L;i++) x(i)=V::elem<double>("X",i);
  for(U s=0;s<k.states;s++)
  { matrix<double> y=k.c.encode_isi(x,s); V::eq("length",y.size(),L+k.M-1);
  for(S i=0;i<L+k.M-1;i++)
  { double r=0; for(S t=0;t<k.M;t++) { double v; if(i<t) v=V::elem<double>("A",digit(s,(U)(t-i-1),k.P)); else if(i-t<L) v=V::elem<double>("X",i-t); else v=V::elem<double>("A",digit(s,(U)(k.M-2-(i-t-L)),k.P)); r+=V::elem<double>("H",t)*v; }
    V::eq("filtered signal",y(i),r); } } }
/* ratio of the total weight of the paths from and to the zero state that send symbol 1 and symbol 0 at each position */
void P17_bcjr__sz()
{ chan k(V::var<U>("M",2,3),2); S L=V::var<S>("L",1,3); matrix<double> y(L,1); for(S i=0;i<L;i++) y(i)=V::elem<double>("Y",i);
  double e=V::any<double>("e"); matrix<double> r=k.c.decode_bcjr(y,e);
  for(S i=0;i<L;i++)
  { double one=0, zero=0;
    for(U w=0;w<(1u<<L);w++)
    { U s=0; double p=1; for(S t=0;t<L;t++) { U b=(w>>t)&1u; double d=V::elem<double>("Y",t)-k.out(s,b); p*=std::exp(-e*(d*d)); s=k.next(s,b); }
      if(s==0) { if((w>>i)&1u) one+=p; else zero+=p; } }
    V::eq("likelihood ratio",r(i)*zero,one); } }
/* the decoded symbols minimise the squared distance among all sequences from and to the given state */
struct dist
{ chan& k; U s0; S L; 
  template <class F> double operator()(F x) 
  { double p=0; U l=k.M-1;
    for(S t=0;t<L+l;t++)
    { double d=V::elem<double>("Y",t);
      for(S u=0;u<k.M;u++) d-=V::elem<double>("H",u)*(t<u?V::elem<double>("A",digit(s0,(U)(u-t-1),k.P)):t-u<L?x(t-u):V::elem<double>("A",digit(s0,(U)(l-1-(t-u-L)),k.P)));
      p+=d*d; }
    return p; } };
void P17_mlse__sz()
{ chan k(2,2); U s0=V::var<U>("s",0,1); S L=V::var<S>("L",1,3);
  matrix<double> y(L+1,1); for(S i=0;i<L+1;i++) y(i)=V::elem<double>("Y",i);
  matrix<double> r=k.c.decode_mlse(y,s0); V::eq("length",r.size(),L);
  dist d{k,s0,L}; double best=d([&](S t){ return r(t); });
  for(U w=0;w<(1u<<L);w++) V::check("no sequence is closer",best<=d([&](S t){ return V::elem<double>("A",(w>>t)&1u); })); }

/* longer sequences over given taps, one sample disturbed by an arbitrary amount */
void P17_mlse_long__sz()
{ U M=V::var<U>("M",2,3); S L=V::var<S>("L",3,6); U w=V::var<U>("w",0,63), s0=V::var<U>("s",0,3); S t0=V::var<S>("t",0,7); V::assume(w<(1u<<L)&&s0<(1u<<(M-1))&&t0<L+M-1);
  const double h[3]={1.0,M==2?-0.75:0.5,-0.25}; matrix<double> taps(1,M); for(U i=0;i<M;i++) taps(i)=h[i];
  channel<double> c(taps,chan::signs()); double v[12]; S n=L+2*(M-1);
  for(U i=0;i<M-1;i++) v[M-2-i]=digit(s0,i,2)?1:-1;
  for(U i=0;i<M-1;i++) v[n-1-i]=digit(s0,i,2)?1:-1;
  for(S i=0;i<L;i++) v[M-1+i]=((w>>i)&1u)?1:-1;
  matrix<double> y(L+M-1,1); for(S t=0;t<L+M-1;t++) { double r=0; for(U u=0;u<M;u++) r+=h[u]*v[M-1+t-u]; y(t)=r; }
  y(t0)=y(t0)+V::any<double>("e");
  matrix<double> r=c.decode_mlse(y,s0); V::eq("length",r.size(),L);
  auto away=[&](auto x) { for(S i=0;i<L;i++) v[M-1+i]=x(i); double p=0; for(S t=0;t<L+M-1;t++) { double q=y(t); for(U u=0;u<M;u++) q-=h[u]*v[M-1+t-u]; p+=q*q; } return p; };
  double best=away([&](S i) { return r(i); }); for(S i=0;i<L;i++) V::check("a symbol",r(i)==1||r(i)==-1);
  for(U x=0;x<(1u<<L);x++) V::check("no sequence is closer",best<=away([&](S i) { return ((x>>i)&1u)?1.0:-1.0; })); }
/* without noise a sequence is recovered from its convolution alone, without the initial state */
void P17_mlse_open__sz()
{ chan k(2,2,true); V::assume(V::elem<double>("H",0)!=0); S L=V::var<S>("L",3,4); U w=V::var<U>("w",0,15); V::assume(w<(1u<<L));
  matrix<double> x(L,1); for(S i=0;i<L;i++) x(i)=k.pam((w>>i)&1u);
  matrix<double> r=k.c.decode_mlse(conv(x,k.taps)); V::eq("length",r.size(),L); for(S i=0;i<L;i++) V::eq("recovered",r(i),x(i)); }

/* ---- modulation ---- */
void P17_bpsk() { S R=V::dim("R"), C=V::dim("C"), i=V::idx("i",R), j=V::idx("j",C); matrix<uint8_t> a=mk<uint8_t>("A",R,C); matrix<int8_t> r=bpsk(a); V::eq("rows",r.no_rows(),R); V::eq("cols",r.no_cols(),C); V::eq("symbol",(int)r(i,j),a(i,j)!=0?1:-1); }
}
