// P20: uniform point samplers against specification Uniform.tla.
#include <algorithm>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/hollowcylinder.hh>
#include <frackit/sampling/makepointsampler.hh>
#include <frackit/sampling/makeuniformpointsampler.hh>
#include "json.hh"
#include "geo.hh"
using namespace Frackit;
// distributions on an interval that yield given fractions of it
static std::vector<double> fr_[3]; static std::size_t at_[3];
template<int K> struct Frac { double lo, hi; Frac(double a, double b) : lo(a), hi(b) {} template<class G> double operator()(G&) { return lo + fr_[K].at(at_[K]++)*(hi - lo); } };
struct FracT { using DistributionBase1 = Frac<0>; using DistributionBase2 = Frac<1>; using DistributionBase3 = Frac<2>; };
#ifdef PY
#include "py.hh"
namespace py = pybind11;
struct PyPoints { py::object o; P3 operator()() { return pyx::out<P3>(pyx::call(o, "__call__")); } };
template<int K> py::object creator() { return py::cpp_function([] (double a, double b) { return py::cpp_function([a, b] { int g = 0; return Frac<K>(a, b)(g); }); }); }
template<class T, class G> PyPoints pyMakePointSampler(const G& g) { pyx::mod("sampling"); return {pyx::call("sampling", "makePointSampler", g, creator<0>(), creator<1>(), creator<2>())}; }
template<class G> PyPoints pyMakeUniform(const G& g) { pyx::mod("random").attr("seed")(7); return {pyx::call("sampling", "makePointSampler", g)}; }
#define makePointSampler pyMakePointSampler
#define makeUniformPointSampler pyMakeUniform
#endif
int main(int argc, char** argv) { const int N = atoi(argv[2]); return caseLoop(argc, argv, [&] (int idx, const J& c) { Rng rng(envSeed()*179 + idx, 0); const std::string kind = c["kind"].S(); const double scales[] = {1, 1e-3, 1e4, 0.2}; const double u = scales[rng.n(4)];
    for (auto& f : fr_) f.clear(); for (auto& a : at_) a = 0; for (const auto& f : c["fracs"]) for (int i = 0; i < 3; ++i) fr_[i].push_back(f[i].i()/8.0);
    const Emb e = rng.n(3) ? rotEmb(rng, u, 10) : identityEmb(u); const A3 base = kind == "box" ? A3{0,0,0} : e.at(1, -2, 3), n = e.r[2]; A3 b1{1,0,0}, b2{0,1,0};
    // local coordinates: x, y, z or squared radius, angle (turns), height
    auto local = [&] (const P3& p) { if (kind == "box") return (1/u)*arr(p); const A3 r = (1/u)*(arr(p) - base); const double h = dot(r, n); const A3 q = r - h*n; double t = std::atan2(dot(q, b2), dot(q, b1))/(2*M_PI); if (t < 0) t += 1; return A3{dot(q, q), t, h}; };
    auto check = [&] (auto&& geo, bool basis) { std::ostringstream o; o << kind << ", unit " << u; auto s = makePointSampler<FracT>(geo); int k = 0;
        for (const auto& p : c["points"]) { ++k; const P3 x = s(); const A3 l = local(x); for (int i = 0; i < 3; ++i) { double want = p[i].i()/8.0; const double size = 1 + std::abs(c["intervals"][i][1].i()) + std::abs(c["intervals"][i][0].i()); if (i == 1 && kind != "box") { if (!basis || p[0].i() == 0) continue; double d = std::abs(l[1] - want); d = std::min(d, std::abs(d - 1)); if (d > 1e-7) deviate(o.str(), ": angle ", l[1], " turns instead of ", want, " (point ", k, ")"); } else if (std::abs(l[i] - want) > 1e-7*size) deviate(o.str(), ": local coordinate ", i, " is ", l[i], " instead of ", want, " (point ", k, ")"); } if (!geo.contains(x)) deviate(o.str(), ": the point ", k, " is not contained in the domain"); }
        // uniform sampling: in the domain, and evenly over cells of equal volume
        auto uni = makeUniformPointSampler(geo); int parts[3]; for (int i = 0; i < 3; ++i) parts[i] = c["parts"][i].i(); const int C = parts[0]*parts[1]*parts[2]; std::vector<int> cnt(C, 0);
        for (int j = 0; j < N; ++j) { const P3 x = uni(); const A3 l = local(x); int id = 0; for (int i = 0; i < 3; ++i) { const double a = c["intervals"][i][0].i(), b = c["intervals"][i][1].i(), t = (l[i] - a)/(b - a); if (t < -1e-7 || t > 1 + 1e-7) deviate(o.str(), ": sampled point outside, local coordinate ", i, " = ", l[i]); id = id*parts[i] + std::max(0, std::min(parts[i] - 1, int(t*parts[i]))); } ++cnt[id]; }
        const double m = double(N)/C, sd = std::sqrt(m); for (int j = 0; j < C; ++j) if (std::abs(cnt[j] - m) > 9*sd) deviate(o.str(), ": ", cnt[j], " of ", N, " points in cell ", j, " of ", C, " cells of equal volume"); };
    if (kind == "box") { A3 lo{u*c["lo"][0].i(), u*c["lo"][1].i(), u*c["lo"][2].i()}, hi; for (int i = 0; i < 3; ++i) hi[i] = lo[i] + u*c["len"][i].i(); check(Box<double>(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]), true); }
    else { const double ri = u*c["rin"].i(), ro = u*c["rout"].i(), h = u*c["height"].i(); if (kind == "cylinder") { const A3 a = e.r[0], b = cross(n, a); if (rng.n(2)) { b1 = a; b2 = b; check(Cylinder<double>(Dsk(pt(base), dir(a), dir(b), ro, ro), h), true); } else { const Cylinder<double> g(Circle<double,3>(pt(base), dir(n), ro), h); b1 = arr(g.base1()); b2 = arr(g.base2()); check(g, true); } }
        else { const HollowCylinder<double> g(pt(base), dir(n), ri, ro, h); b1 = arr(g.base1()); b2 = arr(g.base2()); check(g, true); } } }); }
