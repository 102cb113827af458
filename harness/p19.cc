// P19 and user-defined distributions of P20: samplers fed with the draws of specification Samplers.tla.
#include <algorithm>
#include <map>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/sampling/disksampler.hh>
#include <frackit/sampling/polygonsampler.hh>
#include <frackit/sampling/quadrilateralsampler.hh>
#include <frackit/sampling/boxpointsampler.hh>
#include <frackit/sampling/cylinderpointsampler.hh>
#include "json.hh"
#include "geo.hh"
using namespace Frackit;
#ifdef PY
#include "py.hh"
#endif
enum Tag { major_, minor_, ax_, ay_, az_, strike_, dip_, ls_, ld_, n_, center_, x_, y_, z_, r2_, phi_, h_ };
struct Script { std::vector<double> v; std::size_t at = 0; double next() { if (v.empty()) deviate("a distribution is used that is not part of the sampler"); if (at < v.size()) return v[at++]; if (++at > v.size() + 100) {
#ifdef PY
    pyx::pending = "draws from a distribution without end";
#endif
    deviate("draws from a distribution without end"); } return v.back(); } };
static std::map<int, Script> scripts;
template<int T, class V = double> struct Dist { using result_type = V; template<class G> V operator()(G&) { return V(scripts[T].next()); } };
static std::vector<P3> centers;
struct Centers : public PointSampler<P3> { P3 operator()() override { return centers.at(std::size_t(scripts[center_].next())); } };
struct DiskT { using MajorAxisLengthDistribution = Dist<major_>; using MinorAxisLengthDistribution = Dist<minor_>; using XAngleDistribution = Dist<ax_>; using YAngleDistribution = Dist<ay_>; using ZAngleDistribution = Dist<az_>; };
struct PolyT { using StrikeAngleDistribution = Dist<strike_>; using DipAngleDistribution = Dist<dip_>; using StrikeLengthDistribution = Dist<ls_>; using DipLengthDistribution = Dist<ld_>; using NumCornersDistribution = Dist<n_, int>; };
struct BoxT { using DistributionBase1 = Dist<x_>; using DistributionBase2 = Dist<y_>; using DistributionBase3 = Dist<z_>; };
struct CylT { using DistributionBase1 = Dist<r2_>; using DistributionBase2 = Dist<phi_>; using DistributionBase3 = Dist<h_>; };
#ifdef PY
namespace py = pybind11;
template<int T, class V> py::object fn(Dist<T, V>) { return py::cpp_function([] { return V(scripts[T].next()); }); }
static py::object fn(Centers) { return py::cpp_function([] { return Centers()(); }); }
static py::object fn(std::normal_distribution<double> d) { return py::cpp_function([d] () mutable { static std::mt19937 g(7); return d(g); }); }
static py::object fn(double d) { return py::float_(d); }
static py::object fn(const Cylinder<double>& c) { return pyx::in(c); }
template<class G> struct PySampler { py::object o; template<class... A> PySampler(const char* n, const A&... a) { pyx::mod("random").attr("seed")(7); o = pyx::make("sampling", n, fn(a)...); } G operator()() { return pyx::out<G>(pyx::call(o, "__call__")); } };
#define SAMPLER(N, G, ...) struct Py##N : PySampler<G> { template<class... A> Py##N(const A&... a) : PySampler<G>(#N, a...) {} __VA_ARGS__ };
template<class, class> SAMPLER(DiskSampler, Dsk)
template<int, class, class> SAMPLER(PolygonSampler, Poly, std::vector<P3> sampleCorners() { return pyx::out<std::vector<P3>>(pyx::call(this->o, "sampleCorners")); })
template<int, class, class> SAMPLER(QuadrilateralSampler, Quad)
template<class, class> SAMPLER(BoxPointSampler, P3)
template<class, class> SAMPLER(CylinderPointSampler, P3)
#define DiskSampler PyDiskSampler
#define PolygonSampler PyPolygonSampler
#define QuadrilateralSampler PyQuadrilateralSampler
#define BoxPointSampler PyBoxPointSampler
#define CylinderPointSampler PyCylinderPointSampler
#endif
static A3 axis(const J& a) { return (1.0/a["n"].i())*A3{double(a["v"][0].i()), double(a["v"][1].i()), double(a["v"][2].i())}; }
static void near(double a, double b, double tol, const std::string& what) { if (!(std::abs(a - b) <= tol)) deviate(what, ": ", a, " instead of ", b); }
static void near(const A3& a, const A3& b, double tol, const std::string& what) { if (!(norm(a - b) <= tol)) deviate(what, ": ", a[0], " ", a[1], " ", a[2], " instead of ", b[0], " ", b[1], " ", b[2]); }
// corners in order around the polygon
static void checkPoly(const std::vector<P3>& cs, const J& s, const A3& center, double u, const std::string& what) { const int n = s["n"].i(); if (int(cs.size()) != n) deviate(what, ": ", cs.size(), " corners instead of ", n);
    const A3 N = axis(s["plane"]["normal"]), S = axis(s["plane"]["strike"]), D = axis(s["plane"]["dip"]); const double ls = u*s["ls"].i(), ld = u*s["ld"].i(), size = std::max(ls, ld), tol = 1e-9*(size + norm(center));
    A3 lo{1e300,1e300,1e300}, hi = -1.0*lo; double sl = 1e300, sh = -1e300, dl = 1e300, dh = -1e300; for (const auto& p : cs) { const A3 a = arr(p); for (int i = 0; i < 3; ++i) { lo[i] = std::min(lo[i], a[i]); hi[i] = std::max(hi[i], a[i]); } const A3 r = a - arr(cs[0]); near(dot(r, N), 0, tol, what + ": corner off the plane"); sl = std::min(sl, dot(r, S)); sh = std::max(sh, dot(r, S)); dl = std::min(dl, dot(r, D)); dh = std::max(dh, dot(r, D)); }
    near(0.5*(lo + hi), center, tol, what + ": centre");
    if (sh - sl > ls + tol || sh - sl < 0.7*ls) deviate(what, ": extent ", sh - sl, " in strike direction, drawn ", ls); if (dh - dl > ld + tol || dh - dl < 0.7*ld) deviate(what, ": extent ", dh - dl, " in dip direction, drawn ", ld);
    // convex: turns to one side only and once around (in coordinates relative to the drawn lengths)
    double turn = 0; int sign = 0; for (int i = 0; i < n; ++i) { auto loc = [&] (int k) { const A3 r = arr(cs[k % n]) - arr(cs[0]); return std::array<double,2>{dot(r, S)/ls, dot(r, D)/ld}; }; const auto a = loc(i), b = loc(i + 1), c = loc(i + 2); const double e0 = b[0]-a[0], e1 = b[1]-a[1], f0 = c[0]-b[0], f1 = c[1]-b[1]; const double cr = e0*f1 - e1*f0, t = std::atan2(cr, e0*f0 + e1*f1); turn += t; const double eps = 1e-8 + 10*tol/std::min(ls, ld); if (std::abs(cr) > eps) { const int sg = cr > 0 ? 1 : -1; if (sign && sg != sign) deviate(what, ": the polygon is not convex"); sign = sg; } }
    if (std::abs(std::abs(turn) - 2*M_PI) > 1e-3) deviate(what, ": the corners do not run once around (", turn, ")"); }
int main(int argc, char** argv) { return caseLoop(argc, argv, [&] (int idx, const J& c) { for (int v = 0; v < atoi(argv[2]); ++v) { Rng rng(envSeed()*173 + idx, v); const std::string kind = c["kind"].S(); const double scales[] = {1, 1e-2, 1e3, 1e-5, 0.3, 1e-6}; const double u = scales[rng.n(6)];
    auto load = [&] { scripts.clear(); const std::map<std::string, int> tags{{"major",major_},{"minor",minor_},{"ax",ax_},{"ay",ay_},{"az",az_},{"strike",strike_},{"dip",dip_},{"ls",ls_},{"ld",ld_},{"n",n_},{"center",center_},{"x",x_},{"y",y_},{"z",z_},{"r2",r2_},{"phi",phi_},{"h",h_}};
        for (const auto& s : c["scripts"].o) { const int t = tags.at(s.first); for (const auto& d : s.second) { double x = d.i(); if (t == ax_ || t == ay_ || t == az_ || t == strike_ || t == dip_ || t == phi_) { const J& a = c["angles"][d.i() - 1]; x = std::atan2(double(a[1].i()), double(a[0].i())) + 2*M_PI*(rng.n(3) - 1); } else if (t == r2_) x *= u*u; else if (t == n_ || t == center_) ; else x *= u; scripts[t].v.push_back(x); } } };
    centers.clear(); for (int k = 0; k < 200; ++k) centers.push_back(P3(u*rng.u(-30, 30), u*rng.u(-30, 30), u*rng.u(-30, 30)));
    // At("center") is the position (from one) in the script
    load(); auto& cs = scripts[center_].v; for (std::size_t k = 0; k < cs.size(); ++k) cs[k] = double(k); auto center = [&] (const J& s) { return arr(centers[s["center"].i() - 1]); };
    std::ostringstream o; o << kind << ", unit " << u; const std::string w0 = o.str();
    auto run = [&] (auto& sampler, auto&& check) { int k = 0; for (const auto& l : c["log"]) { std::ostringstream q; q << w0 << ", sample " << ++k; if (l["r"].S() == "refused") { if (!throws([&] { sampler(); })) deviate(q.str(), ": inadmissible draws are not refused"); return; } check(sampler(), l["s"], q.str()); } };
    if (kind == "disk") { DiskSampler<double, DiskT> s(Centers{}, Dist<major_>{}, Dist<minor_>{}, Dist<ax_>{}, Dist<ay_>{}, Dist<az_>{}); run(s, [&] (const Dsk& d, const J& e, const std::string& w) { near(arr(d.center()), center(e), 1e-12*(u*60), w + ": centre"); near(d.majorAxisLength(), u*e["major"].i(), 1e-12*u, w + ": major axis"); near(d.minorAxisLength(), u*e["minor"].i(), 1e-12*u, w + ": minor axis");
        const A3 a = axis(e["axes"]["major"]), b = axis(e["axes"]["minor"]); near(arr(d.majorAxis()), a, 1e-9, w + ": direction of the major axis"); near(arr(d.minorAxis()), b, 1e-9, w + ": direction of the minor axis"); const A3 n = arr(d.normal()); if (std::abs(std::abs(dot(n, cross(a, b))) - 1) > 1e-9) deviate(w, ": normal"); }); }
    else if (kind == "poly") { PolygonSampler<3, double, PolyT> s(Centers{}, Dist<strike_>{}, Dist<dip_>{}, Dist<ls_>{}, Dist<ld_>{}, Dist<n_, int>{}); const bool raw = rng.n(3) == 0;
        if (raw) { auto f = [&] { return s.sampleCorners(); }; run(f, [&] (const std::vector<P3>& p, const J& e, const std::string& w) { checkPoly(p, e, center(e), u, w); }); }
        else run(s, [&] (const Poly& p, const J& e, const std::string& w) { std::vector<P3> q; for (std::size_t i = 0; i < p.numCorners(); ++i) q.push_back(p.corner(i)); checkPoly(q, e, center(e), u, w); }); }
    else if (kind == "quad") { QuadrilateralSampler<3, double, PolyT> s(Centers{}, Dist<strike_>{}, Dist<dip_>{}, Dist<ls_>{}, Dist<ld_>{}); run(s, [&] (const Quad& p, const J& e, const std::string& w) { checkPoly({p.corner(0), p.corner(1), p.corner(3), p.corner(2)}, e, center(e), u, w); });
        // the deprecated sampler: edge lengths (not below the minimum) on both sides of the drawn point
        bool ok = true; for (const auto& l : c["log"]) ok &= l["r"].S() == "ok"; if (!ok) return; load(); for (std::size_t k = 0; k < scripts[center_].v.size(); ++k) scripts[center_].v[k] = double(k); scripts.erase(ls_); scripts.erase(ld_);
        const double min = u*rng.u(0.1, 1.2); QuadrilateralSampler<3, double, PolyT> old(Centers{}, Dist<strike_>{}, Dist<dip_>{}, std::normal_distribution<double>(u, 0.5*u), min); int k = 0;
        for (const auto& l : c["log"]) { std::ostringstream q; q << w0 << " (edge lengths), sample " << ++k; const Quad p = old(); const J& e = l["s"]; const A3 m = center(e), S = axis(e["plane"]["strike"]), D = axis(e["plane"]["dip"]); double X[4], Y[4]; for (int i = 0; i < 4; ++i) { const A3 r = arr(p.corner(i)) - m; X[i] = 2*dot(r, D); Y[i] = 2*dot(r, S); near(dot(r, axis(e["plane"]["normal"])), 0, 1e-9*u, q.str() + ": corner off the plane"); }
            near(X[0], X[2], 1e-9*u, q.str()); near(X[1], X[3], 1e-9*u, q.str()); near(Y[0], -Y[2], 1e-9*u, q.str()); near(Y[1], -Y[3], 1e-9*u, q.str()); for (double x : {-X[0], X[1], Y[2], Y[3]}) if (x < min*(1 - 1e-9)) deviate(q.str(), ": edge length ", x, " below the minimum ", min); } }
    else if (kind == "box") { BoxPointSampler<double, BoxT> s(Dist<x_>{}, Dist<y_>{}, Dist<z_>{}); run(s, [&] (const P3& p, const J& e, const std::string& w) { near(arr(p), u*A3{double(e["c"][0].i()), double(e["c"][1].i()), double(e["c"][2].i())}, 1e-12*u, w); }); }
    else { const Emb e = rng.n(4) ? rotEmb(rng, u, 10) : identityEmb(u); const A3 n = e.r[2], base = e.at(1, 2, 3); const A3 a = e.r[0], b = cross(n, a); const double H = rng.u(0.5, 20); const Cylinder<double> cyl = rng.n(2) ? Cylinder<double>(Dsk(pt(base), dir(a), dir(b), 3*u, 3*u), H*u) : Cylinder<double>(Circle<double,3>(pt(base), dir(n), 3*u), H*u);
        const A3 b1 = arr(cyl.base1()), b2 = arr(cyl.base2()); if (std::abs(dot(b1, n)) + std::abs(dot(b2, n)) + std::abs(dot(b1, b2)) > 1e-9) deviate(w0, ": base of the cylinder"); CylinderPointSampler<double, CylT> s(cyl, Dist<r2_>{}, Dist<phi_>{}, Dist<h_>{});
        run(s, [&] (const P3& p, const J& t, const std::string& w) { const double r = std::sqrt(double(t["r2"].i())), q = t["phi"][2].i(); near(arr(p), base + u*(r*t["phi"][0].i()/q*b1 + r*t["phi"][1].i()/q*b2 + double(t["h"].i())*n), 1e-10*u*30, w); }); } } }); }
