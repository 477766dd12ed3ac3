"""Mock radial/angular rules (contents = uninterpreted functions of rule id and index) for the composite grids."""
from lib import *
MOCK = '''
#include <integratorxx/quadrature.hpp>
#include <integratorxx/composite_quadratures/product_quadrature.hpp>
#include <integratorxx/composite_quadratures/spherical_quadrature.hpp>
#include <integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp>
using namespace IntegratorXX;
extern "C" double uf_rp(size_t, size_t); extern "C" double uf_rw(size_t, size_t);
extern "C" double uf_ax(size_t, size_t); extern "C" double uf_ay(size_t, size_t); extern "C" double uf_az(size_t, size_t); extern "C" double uf_aw(size_t, size_t);
extern "C" void sink_p(const double*, size_t); extern "C" void sink_w(const double*, size_t);
extern "C" void sink_c(double, double, double); extern "C" void sink_n(size_t);
struct RQ; struct AQ;
template <> struct IntegratorXX::quadrature_traits<RQ> {
  using point_type = double; using weight_type = double; using point_container = std::vector<double>; using weight_container = std::vector<double>;
  static std::tuple<point_container, weight_container> generate(size_t id, size_t n) {
    point_container p(n); weight_container w(n);
    for(size_t i = 0; i < n; ++i) { p[i] = uf_rp(id, i); w[i] = uf_rw(id, i); }
    return std::make_tuple(std::move(p), std::move(w)); }
};
template <> struct IntegratorXX::quadrature_traits<AQ> {
  using point_type = std::array<double,3>; using weight_type = double; using point_container = std::vector<point_type>; using weight_container = std::vector<double>;
  static std::tuple<point_container, weight_container> generate(size_t id, size_t n) {
    point_container p(n); weight_container w(n);
    for(size_t i = 0; i < n; ++i) { p[i] = point_type{uf_ax(id, i), uf_ay(id, i), uf_az(id, i)}; w[i] = uf_aw(id, i); }
    return std::make_tuple(std::move(p), std::move(w)); }
};
struct RQ : Quadrature<RQ> { RQ(size_t id, size_t n) : Quadrature<RQ>(id, n) {} };
struct AQ : Quadrature<AQ> { AQ(size_t id, size_t n) : Quadrature<AQ>(id, n) {} };
using SQ = SphericalQuadrature<RQ, AQ>; using PQ = PrunedSphericalQuadrature<RQ, AQ>; using GP = RadialGridPartition<AQ>;
using pt3 = std::array<double,3>; using SB = SphericalQuadratureBase<std::vector<pt3>, std::vector<double>>;
template <class Q> static void out(const Q& q) {
  sink_p((const double*)q.points().data(), q.points().size()); sink_w(q.weights().data(), q.weights().size());
  auto c = q.center(); sink_c(c[0], c[1], c[2]); sink_n(q.npts()); }
'''
def uf(name, seed, *a): return uf_value(name, tuple(int(x) for x in a), seed)
def rp(s, i, k): return uf('uf_rp', k, s, i)
def rw(s, i, k): return uf('uf_rw', k, s, i)
def ap(s, i, k): return [uf('uf_a' + c, k, s, i) for c in 'xyz']
def aw(s, i, k): return uf('uf_aw', k, s, i)
def rsym(*n): return [T_('sym', x) for x in n]
CEN = ('cx', 'cy', 'cz')
def renv_of(names):
    return lambda rng, env: {n: mp.mpf(rng.uniform(-3, 3)) for n in names}
def sinks(I):
    got = {}
    for nm, a, snap, i in I.sinks: got.setdefault(nm, []).append((a, snap))
    return got
def read_at(I, o, snap, off, size=8, ty='d'):
    """read an object as it was when the sink was called"""
    return I.conv(I._scan(o, snap.get(o.id, 0), off, size, ty), ty)
# The library's own base rules replaced, through their public customisation point, by rules of uninterpreted contents
# (functions of rule, size and index): what the factories do with any rule is then visible symbolically. The rules themselves are P01-P06.
MOCKFAC = '''
#include <integratorxx/generators/spherical_factory.hpp>
#include <integratorxx/quadratures/all.hpp>
using namespace IntegratorXX;
extern "C" double uf_mbx(size_t, size_t, size_t); extern "C" double uf_mbw(size_t, size_t, size_t);
extern "C" double uf_max(size_t, size_t, size_t); extern "C" double uf_may(size_t, size_t, size_t); extern "C" double uf_maz(size_t, size_t, size_t); extern "C" double uf_maw(size_t, size_t, size_t);
#define MOCKB(ID, Q) template <> struct IntegratorXX::quadrature_traits<Q<double,double>> { \\
  using point_type = double; using weight_type = double; using point_container = std::vector<double>; using weight_container = std::vector<double>; \\
  inline static constexpr bool bound_inclusive = quadrature_traits<Q<float,float>>::bound_inclusive; \\
  template <class... A> static std::tuple<point_container, weight_container> generate(size_t n, A&&...) { \\
    point_container p(n); weight_container w(n); for(size_t i = 0; i < n; ++i) { p[i] = uf_mbx(ID, n, i); w[i] = uf_mbw(ID, n, i); } \\
    return std::make_tuple(std::move(p), std::move(w)); } };
MOCKB(1, GaussChebyshev2) MOCKB(2, UniformTrapezoid)
#define MOCKA(ID, Q) template <> struct IntegratorXX::quadrature_traits<Q<double>> { \\
  using point_type = std::array<double,3>; using weight_type = double; using point_container = std::vector<point_type>; using weight_container = std::vector<double>; \\
  using real = quadrature_traits<Q<float>>; \\
  static int64_t npts_by_algebraic_order(int64_t o) { return real::npts_by_algebraic_order(o); } \\
  static int64_t algebraic_order_by_npts(int64_t n) { return real::algebraic_order_by_npts(n); } \\
  static int64_t next_algebraic_order(int64_t o) { return real::next_algebraic_order(o); } \\
  static std::tuple<point_container, weight_container> generate(size_t n) { \\
    point_container p(n); weight_container w(n); for(size_t i = 0; i < n; ++i) { p[i] = point_type{uf_max(ID, n, i), uf_may(ID, n, i), uf_maz(ID, n, i)}; w[i] = uf_maw(ID, n, i); } \\
    return std::make_tuple(std::move(p), std::move(w)); } };
MOCKA(1, AhrensBeylkin) MOCKA(2, Delley) MOCKA(3, LebedevLaikov) MOCKA(4, Womersley)
#include <integratorxx/generators/impl/impl.hpp>
'''
