/* Every public operation, used with every element type it is meant for.  The
 * unit is only type-checked: each error is a public operation that cannot be
 * used as documented.  It is also the population of the effect analysis. */
#include "all.h"
#include <complex>
#include <string>
#include <tuple>
#include <vector>
namespace api {
typedef std::complex<float> cf;
typedef std::complex<double> cd;
typedef std::size_t S;

template <class T, class A> void container(const matrix<T, A>& c, matrix<T, A>& m, T x)
{
  typedef matrix<T, A> M;
  M a; M b((S)1, (S)2); M d((S)1, (S)2, x); M e(std::tuple<S, S>(1, 2)); M f(std::tuple<S, S>(1, 2), x); M g(c); M h(std::move(g));
  a = c; a = std::move(b);
  T v = c(0); v = c(0, 1); v = c.get(0); v = c.get(0, 1); m(0) = v; m(0, 1) = v;
  S n = c.size() + c.no_rows() + c.no_cols(); n += std::get<0>(c.shape());
  bool q = c.is_square() || c.is_vector() || c.is_scalar(); (void)q; (void)n;
  m.set_all(x); m.swap_cols(0, 1); m.swap_rows(0, 1);
  bool r = m.set_row(0, c); r = m.set_col(0, c); r = m.resize(2, 3); (void)r;
  std::vector<T> s = m.get_col_as_vec(0); s = m.get_row_as_vec(0);
  a = c.row(0); a = c.col(0); a = c.shrink(1, 1); a = m.reshape(1, 2); a = c.left(1); a = c.right(1); a = c.mid(0, 1);
  a += c; a -= c;
  a = c + c; a = c - c; a = c * c; a = c / c; a = c + x; a = c - x; a = c * x; a = c / x; a = x + c; a = x - c; a = x * c;
  a = matmul(c, c); a = transpose(c); a = concat(c, c); a = fliplr(c); a = flipud(c);
  a = sum(c); a = conv(c, c); a = kron(c, c); a = convmtx(c, 3); a = toeplitz(c); a = toeplitz(c, c); a = upsample(c, 2); a = downsample(c, 2);
}
template <class T> void text(matrix<T>& m) { matrix<T> a(std::string("[1 2;3 4]")); m = "[1 2;3 4]"; m = std::string("[1 2]"); std::cout << m; }
template <class T> void eyes() { matrix<T> a = eye<T>(3); }
template <class T> void ordered(const matrix<T>& c, std::vector<T>& v, T x)
{
  matrix<S> k = susa::min(c); k = susa::max(c); 
  std::vector<T> d = diff(v); T s = sum(v); s = mean(v); double w = var(v); w = stdv(v); (void)s; (void)w;
  matrix<unsigned> u = select_least(c, 1u); u = select_most(c, 1u); u = select_limited_least(c, u, 1u); u = sort_indices(c); matrix<T> z = sort(c); bitset f = find(c, x);
}
template <class T> void real_type(const matrix<T>& c, T x)
{
  matrix<T> a = mean(c); a = norm(c); a = susa::log(c); a = susa::abs(c);
  a = filter(c, c, c); a = linsolve(c, c); a = inv(c); double d = det(c); (void)d; 
  lu<T> l(c); bool b = l.decompose(); a = l.get_lower(); a = l.get_upper(); lup<T> p(c); b = p.decompose(); b = p.decompose_alt(); (void)b; a = p.solve(c); a = p.invert(); a = p.get_lu(); a = p.get_pivot();
  matrix<std::complex<T>> k = to_complex(c); a = real(k); a = imag(k); a = mag(k); k = conj(k);
  fft<T> t; k = t.radix2(c); k = t.dft(c);
  channel<T> h(c, c); a = h.encode_isi(c, 0u); a = h.decode_mlse(c); a = h.decode_mlse(c, 0u); a = h.decode_bcjr(c, x); 
}
template <class T> void arrays(const array<T>& c, array<T>& a, T x)
{
  array<T> b; array<T> d({2, 3}); array<T> e(c); array<T> f(std::move(e)); b = c; b = d;
  a(0, 1, 2) = x; a(3) = x; T v = c(0, 1, 2); v = c(3); v = c.get(0, 1, 2); v = c.get(3); v = c.get({0, 1, 2}); v = c.get(std::vector<S>{0, 1}); S n = c.get_raw_index(0, 1); (void)v; (void)n; a.clone(&x, 1);
}
template <class T> void storage(const memory<T>& c) { memory<T> a; memory<T> b(c); memory<T> d(std::move(b)); a = c; S n = a.size(); (void)n; }

void uses()
{
#define CONT(T) { matrix<T> m; T x{}; container<T, std::allocator<T>>(m, m, x); matrix<T, allocator_log<T>> l; container<T, allocator_log<T>>(l, l, x); }
  CONT(int) CONT(unsigned) CONT(long) CONT(std::uint8_t) CONT(std::int8_t) CONT(std::size_t) CONT(float) CONT(double) CONT(cf) CONT(cd)
#define TEXT(T) { matrix<T> m; text<T>(m); }
  TEXT(int) TEXT(float) TEXT(double) TEXT(cf) TEXT(cd)
  eyes<int>(); eyes<float>(); eyes<double>(); eyes<cd>();
#define ORD(T) { matrix<T> m; std::vector<T> v; ordered<T>(m, v, T()); }
  ORD(int) ORD(unsigned) ORD(float) ORD(double)
  { matrix<float> m; real_type<float>(m, 0); } { matrix<double> m; real_type<double>(m, 0); }
  { cmatrix<double> m; matrix<cd> r = filter(m, m, m); r = mean(m); r = hermitian(m); lu<cd> l(m); l.decompose(); }
  { matrix<double> m; matrix<std::int8_t> s = sign(m); matrix<double> r = filter(matrix<double>(m), m, m); unsigned k = rank(m); (void)k; }
#define ARRT(T) { array<T> a; arrays<T>(a, a, T()); memory<T> s; storage<T>(s); }
  ARRT(int) ARRT(float) ARRT(double) ARRT(cd)
  { matrix<int> g; matrix<unsigned> p = dijkstra(g, 0u); matrix<float> h; p = dijkstra(h, 0u); }
  { std::vector<int> vi; vi = susa::abs(vi); std::vector<double> vd; vd = susa::abs(vd); std::vector<float> vf; vf = susa::abs(vf); int a = susa::pow(2, 3u); unsigned b = susa::pow(2u, 3u); unsigned c = susa::log2(8u); long e = susa::mod(7L, 3L); double f = normcdf(0.5) + qfunc(0.5); (void)a; (void)b; (void)c; (void)e; (void)f; }
  { ccode c(2, 1, 2); c.set_generator(7, 0); c.set_generator(5, 1); matrix<std::uint8_t> m; m = c.encode(m); matrix<double> r; c.decode_bcjr(r, 1.0); ccode d(c); d = c; ccode e; c.next_state(0u, true); c.next_output(0u, true); c.rate(); c.set_internal_state(0u); }
  { qam q(16); cmatrix<double> k = q.get_constellation(); cd z = q.demodulate_symbol(cd(0, 0)); double s = q.get_noise_deviation(1.0); (void)s; matrix<std::int8_t> b = bpsk(matrix<std::uint8_t>()); rrcosine r(8.0, 0.5, 4); matrix<double> t = r.get(); }
  { rng r; rng s(7u); matrix<double> m = r.rand(3u); m = r.rand(2u, 2u); m = r.randn(3u); double d = r.rand(); d = r.randn(); (void)d; r.rand_mask(3u); matrix<unsigned> u = r.rand_mask(3u, 2u); matrix<std::int8_t> b = r.bernoulli((S)3); r.init(1u); }
  { mt g(1u); mt h(g); h = g; mt z; g.bernoulli(0.5); g.randint(3u); g.rand_mask(3u); matrix<unsigned> u = g.rand_mask(3u, 2u); matrix<double> m = g.randn(3u); m = g.rand(3u); g.nonuniform(m); u = g.nonuniform(m, 2u); }
  { bitset b(9); bitset c(b); c = b; b.set(1); b.reset(1); b.push(1); b.pop(); b.exists(1); b.set(); b.reset(); b.any(); }
  { matrix<float> m; svd(m, m, m, m); tic(); toc(); toc_print(); std::string t = timestamp(); }
}
}
