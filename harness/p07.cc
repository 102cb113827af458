#include <algorithm>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/geometry/ellipsearc.hh>
#include <frackit/geometry/dimension.hh>
#include <frackit/intersection/intersect.hh>
#include "cyl.hh"
#ifdef PY
#include "pyshadow.hh"
#endif
using Arc = EllipseArc<double,3>; using Ell = Ellipse<double,3>;
struct Got { std::vector<P3> p; std::vector<Seg3> s; std::vector<Arc> a; int full = 0, empty = 0; };
template<class R> Got gotOf(const R& r) { Got g; for (const auto& v : r) std::visit([&] (const auto& x) { using T = std::decay_t<decltype(x)>;
    if constexpr (std::is_same_v<T, P3>) g.p.push_back(x); else if constexpr (std::is_same_v<T, Seg3>) g.s.push_back(x); else if constexpr (std::is_same_v<T, Arc>) { if (x.isFullEllipse()) g.full++; else g.a.push_back(x); }
    else if constexpr (std::is_same_v<T, Ell>) g.full++; else g.empty++; }, v); return g; }
static std::string str(const Got& g) { std::ostringstream o; o.precision(9); if (g.empty) o << g.empty << "x empty "; if (g.full) o << g.full << "x full ellipse "; for (auto& p : g.p) o << "point " << str(p) << " "; for (auto& s : g.s) o << "segment " << str(s.source()) << " " << str(s.target()) << " ";
    for (auto& a : g.a) o << "arc from " << str(a.source()) << " over " << str(a.getPoint(0.5)) << " to " << str(a.target()) << " "; return o.str(); }
struct Want { bool full = false; std::vector<P3> p; std::vector<std::pair<P3,P3>> s; std::vector<std::pair<int,int>> a; };
static std::string str(const Want& w) { std::ostringstream o; o.precision(9); if (w.full) o << "full ellipse "; for (auto& p : w.p) o << "point " << str(p) << " "; for (auto& s : w.s) o << "segment " << str(s.first) << " " << str(s.second) << " "; for (auto& a : w.a) o << "arc of " << a.second << " cells from node " << a.first << " "; const auto t = o.str(); return t.empty() ? "nothing" : t; }
static void check(const Cut& q, const Got& g, const Want& w, double tol, const std::string& what) {
    auto bad = [&] (const std::string& why) { deviate(what, ": ", why, "; got ", str(g), "; expected ", str(w)); };
    const bool none = !w.full && w.p.empty() && w.s.empty() && w.a.empty();
    if ((g.empty > 0) != none || g.empty > 1) bad(none ? "common part where there is none" : "no common part found");
    if (g.full != int(w.full)) bad("full ellipse");
    if (g.p.size() != w.p.size()) bad("number of points"); if (g.s.size() != w.s.size()) bad("number of segments"); if (g.a.size() != w.a.size()) bad("number of arcs");
    for (const auto& p : w.p) if (std::none_of(g.p.begin(), g.p.end(), [&] (const auto& x) { return dist(x, p) <= tol; })) bad("wrong point");
    for (const auto& s : w.s) if (std::none_of(g.s.begin(), g.s.end(), [&] (const auto& x) { return (dist(x.source(), s.first) <= tol && dist(x.target(), s.second) <= tol) || (dist(x.target(), s.first) <= tol && dist(x.source(), s.second) <= tol); })) bad("wrong segment");
    for (const auto& a : w.a) if (std::none_of(g.a.begin(), g.a.end(), [&] (const auto& x) {
        const int i = nodeOf(q, x.source(), tol), j = nodeOf(q, x.target(), tol), k = a.first, l = 1 + (a.first - 1 + a.second) % 12; if (!((i == k && j == l) || (i == l && j == k))) return false;
        auto t = [] (const double* n) { return std::atan2(n[1], n[0])/(2*M_PI); }; double t0 = t(NODE[k-1]), t1 = t(NODE[l-1]), tm = turn(q, x.getPoint(0.5)); while (t1 <= t0) t1 += 1; while (tm < t0) tm += 1; return tm < t1; })) bad("wrong arc"); 
    // the parts lie on the plane and on the cylinder
    for (const auto& x : g.a) for (int k = 0; k <= 4; ++k) { const A3 d = arr(x.getPoint(k/4.0)) - q.e.o; const double X = dot(d, q.e.r[0])/q.e.s, Y = dot(d, q.e.r[1])/q.e.s; if (std::abs(std::hypot(X, Y) - 5)*q.e.s > tol || dist(x.getPoint(k/4.0), q.at(X, Y)) > tol) bad("arc off the common curve"); } }
// The boolean operations of the geometry kernel find a wrong common part of the planar geometry g and the solid cylinder, as
// shown by a point that is clearly within both but far from the part the kernel reports, or by one in that part but clearly off g.
template<class G> bool kernelFails(const Cut& q, const CylinderSurface<double>& S, const G& g) {
    if (q.axial) return false; auto F = OCCUtilities::getFaces(OCCUtilities::intersect(OCCUtilities::getShape(g), OCCUtilities::getShape(S.cylinder()), 1e-9*q.size));
    for (int k = 0; k < 12; ++k) for (double r : {4.9, 4.95, 4.99, 4.999, 5.001, 5.01, 5.05}) { const double* m = NODE[k]; const double* n = NODE[(k + 1) % 12]; const double x = m[0] + n[0], y = m[1] + n[1], R = std::hypot(x, y);
        const double z = q.m*(q.a*x*r/R + q.b*y*r/R - q.c0); const P3 p = q.at(x*r/R, y*r/R); double d = 1e300; for (const auto& f : F) { BRepExtrema_DistShapeShape e(OCCUtilities::getShape(p), f); if (e.IsDone()) d = std::min(d, e.Value()/q.e.s); }
        const bool in = r < 5 && g.contains(p, 1e-9*q.size) && z >= 0 && z <= q.H, near = r < 5 && g.contains(p, 1e-4*q.e.s) && z >= -1e-4 && z <= q.H + 1e-4;
        if ((in && d > 1e-4) || (!near && d < 1e-6)) return true; }
    return false; }
int main(int argc, char** argv) { const int variants = atoi(argv[2]);
    return caseLoop(argc, argv, [&] (int idx, const J& c) { for (int v = 0; v < variants; ++v) {
        const bool fx = c.has("fixed"); Rng rng(fx ? c["fixed"]["seed"].i()*151 + c["fixed"]["idx"].i() : envSeed()*151 + idx, v); const Emb e = v == 0 && (fx ? c["fixed"]["idx"].i() : idx) % 3 == 0 ? identityEmb() : rotEmb(rng, std::exp(rng.u(-3, 4)), 15, rng.n(2)); const Cut q = mkCut(c, e); Want w;
        if (q.axial) { for (std::size_t i = 0; i < c["parts"].size(); ++i) { const J& p = c["parts"][i]; if (p["kind"].S() == "none") continue; auto at = [&] (const char* k) { return e.p(c["a"].d(), p["y"].d(), num(p["is"][k])); };
            if (p["kind"].S() == "point") w.p.push_back(at("lo")); else w.s.push_back({at("lo"), at("hi")}); } }
        else { w.full = c["full"].B(); for (std::size_t i = 0; i < c["pts"].size(); ++i) { const int k = int(c["pts"][i].i()); w.p.push_back(q.at(NODE[k-1][0], NODE[k-1][1])); } for (std::size_t i = 0; i < c["arcs"].size(); ++i) w.a.push_back({int(c["arcs"][i][0].i()), int(c["arcs"][i][1].i())}); }
        std::ostringstream o; o << "scale " << e.s << ", cylinder surface - "; const auto S = mkSurface(q, rng.n(2)); const double tol = 5e-6*q.size;
        onCutShape(c, q, rng, [&] (const auto& g, const std::string& n) { try { check(q, gotOf(intersect(S, g)), w, tol, o.str() + n); check(q, gotOf(intersect(g, S)), w, tol, o.str() + n + " (arguments swapped)"); check(q, gotOf(intersect(S, g, 1e-7*q.size)), w, tol, o.str() + n + " (explicit tolerance)"); }
            catch (const Deviation& d) { if (!kernelFails(q, S, g)) throw; if (kernelNote.empty()) kernelNote = std::string("wrong common part from the boolean operations of the geometry kernel: ") + d.what(); } }); } kernelFlush(); }); }
