#include <algorithm>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/geometry/ellipsearc.hh>
#include <frackit/geometry/dimension.hh>
#include <frackit/entitynetwork/constraints.hh>
#include "dist.hh"
#ifdef PY
#include "py.hh"
struct Con { pybind11::object o = (pyx::mod("entitynetwork"), pyx::make("entitynetwork", "EntityNetworkConstraints")); Con() {} template<class C> Con(const C&) {}
#define SET(N) template<class... A> void N(const A&... a) { pyx::call(o, #N, a...); }
    SET(setMinDistance) SET(setMinIntersectingAngle) SET(setMinIntersectionMagnitude) SET(setMinIntersectionDistance) SET(neglectMinDistance) SET(neglectMinIntersectionAngle) SET(neglectMinIntersectionMagnitude) SET(neglectMinIntersectionDistance) SET(setIntersectionEpsilon) SET(setDefaultIntersectionEpsilon) SET(allowEquiDimensionalIntersections)
    template<class A, class B> bool evaluate(const A& a, const B& b) const { return pyx::out<bool>(pyx::call(o, "evaluate", a, b)); } };
#else
using Con = EntityNetworkConstraints<double>;
#endif
using Cyl = CylinderSurface<double>; using Ptr = std::shared_ptr<Geometry>;
// what an entity can be passed as
enum Rep { DISK, QUAD, POLY, FACE, PTR };
static const char* rn[] = {"Disk", "Quadrilateral", "Polygon", "face", "pointer"};
struct Entity { bool disk = false; std::vector<P3> c; std::shared_ptr<Dsk> d;
    bool can(Rep r) const { switch (r) { case DISK: return disk; case QUAD: return !disk && c.size() == 4; case POLY: return !disk; case FACE: return true; default: return disk || c.size() == 4; } }
    Quad quad() const { return Quad(c[0], c[1], c[3], c[2]); } Poly poly() const { return Poly(c); }
    TopoDS_Face face() const { return disk ? OCCUtilities::getShape(*d) : OCCUtilities::getShape(poly()); }
    Ptr ptr() const { if (disk) return std::make_shared<Dsk>(*d); return std::make_shared<Quad>(quad()); } };
template<class F> bool as(const Entity& e, Rep r, F&& f) { switch (r) { case DISK: return f(*e.d); case QUAD: return f(e.quad()); case POLY: return f(e.poly()); case FACE: return f(e.face()); default: return f(e.ptr()); } }
template<class F> bool asList(const std::vector<const Entity*>& l, Rep r, F&& f) {
    switch (r) { case DISK: { std::vector<Dsk> v; for (auto e : l) v.push_back(*e->d); return f(v); } case QUAD: { std::vector<Quad> v; for (auto e : l) v.push_back(e->quad()); return f(v); }
        case POLY: { std::vector<Poly> v; for (auto e : l) v.push_back(e->poly()); return f(v); } case FACE: { std::vector<TopoDS_Face> v; for (auto e : l) v.push_back(e->face()); return f(v); }
        default: { std::vector<Ptr> v; for (auto e : l) v.push_back(e->ptr()); return f(v); } } }
static bool polyQuad(Rep a, Rep b) { return a == POLY && (b == QUAD || b == PTR); }
// quadrilateral - polygon is not offered by the library
template<class A, class B> constexpr bool offered() { constexpr bool qa = std::is_same_v<A, Quad> || std::is_same_v<A, Ptr>, qb = std::is_same_v<B, Quad> || std::is_same_v<B, Ptr>, pa = std::is_same_v<A, Poly>, pb = std::is_same_v<B, Poly>;
    constexpr bool fa = std::is_same_v<A, TopoDS_Face>, fb = std::is_same_v<B, TopoDS_Face>; (void)fa; (void)fb; return !(qa && pb) && !(pa && qb); }
template<class T> struct Elem { using type = T; }; template<class T> struct Elem<std::vector<T>> { using type = T; };
template<class A, class B> bool ask(const Con& c, const A& a, const B& b) {
    if constexpr (offered<typename Elem<A>::type, typename Elem<B>::type>()) return c.evaluate(a, b); else throw std::logic_error("harness: combination not offered"); }
static Entity mk(const J& S, const std::string& mode, const Emb& e, Rng& rng) {
    Entity E; const int fl = rng.n(4); auto rect = [&] (auto&& at, double a, double b, double c, double d) { E.c = {e.p(at(a, c)), e.p(at(b, c)), e.p(at(b, d)), e.p(at(a, d))}; };
    if (mode == "line") { const Frame f = frameOf(e, {0,0,0}, {1,0,0}, {0, S["d"][0].d(), S["d"][1].d()}); E.disk = S["s"]["kind"].S() == "disk"; if (E.disk) E.d = std::make_shared<Dsk>(mkDisk(S["s"], f, fl)); else E.c = corners(S["s"], f); }
    else if (mode == "space") { for (const auto& c : S["c"]) E.c.push_back(e.p(v3(c))); }
    else if (mode == "par") { E.disk = true; const double o = S["o"].d(), r = S["r"].d()*e.s; E.d = std::make_shared<Dsk>(e.p(0.6*o, 0.8*o, S["h"].d()), dir((fl & 1 ? 1. : -1.)*e.d({1,0,0})), dir((fl & 2 ? 1. : -1.)*e.d({0,1,0})), r, r); }
    else if (mode == "flat") rect([] (double x, double y) { return A3{x, y, 0}; }, S["x0"].d(), S["x1"].d(), S["y0"].d(), S["y1"].d());
    else { const std::string t = S["t"].S();
        if (t == "axial") { const double a = S["a"].d(); rect([&] (double y, double z) { return A3{a, y, z}; }, S["y0"].d(), S["y1"].d(), S["z0"].d(), S["z1"].d()); }
        else if (t == "disk") { E.disk = true; const double r = S["r"].d()*e.s; E.d = std::make_shared<Dsk>(e.p(0, 0, S["h"].d()), dir((fl & 1 ? 1. : -1.)*e.d({0.6,0.8,0})), dir((fl & 2 ? 1. : -1.)*e.d({-0.8,0.6,0})), r, r); }
        else if (t == "slope") { const double m = S["m"].d(), c = S["c"].d(); rect([&] (double x, double y) { return A3{x, y, c + m*y}; }, S["x0"].d(), S["x1"].d(), S["y0"].d(), S["y1"].d()); }
        else { const double h = S["h"].d(); rect([&] (double x, double y) { return A3{x, y, h}; }, S["x0"].d(), S["x1"].d(), S["y0"].d(), S["y1"].d()); } }
    if (!E.disk) { std::rotate(E.c.begin(), E.c.begin() + rng.n(int(E.c.size())), E.c.end()); if (rng.n(2)) std::reverse(E.c.begin(), E.c.end()); }
    return E; }
int main(int argc, char** argv) { const int variants = atoi(argv[2]);
    return caseLoop(argc, argv, [&] (int idx, const J& cs) {
        const std::string mode = cs["mode"].S();
        for (int v = 0; v < variants; ++v) {
            Rng rng(envSeed()*97 + idx, v); Emb e = v == 0 ? identityEmb() : rotEmb(rng, mode == "flat" ? 1.0 : std::exp(rng.u(-2, 4)), 10, rng.n(2)); const double s = e.s;
            std::vector<Entity> E(4); std::shared_ptr<Cyl> cyl; std::ostringstream w; w << mode << ", scale " << s << ", "; int at = 0;
            for (int i = 0; i < 4; ++i) if (mode == "cyl" && i == 0) { const double H = cs["scene"][0]["H"].d(); const bool up = rng.n(2); cyl = std::make_shared<Cyl>(Circle<double,3>(e.p(0, 0, up ? 0 : H), dir((up ? 1. : -1.)*e.d({0,0,1})), 5*s), H*s); } else E[i] = mk(cs["scene"][i], mode, e, rng);
            Con con = rng.n(2) ? Con() : makeDefaultConstraints<double>();
            for (const auto& h : cs["hist"]) { ++at; const std::string op = h["op"].S();
                if (op == "set") { const std::string f = h["f"].S(); const double t = h["t"][0].d()/h["t"][1].d();
                    if (f == "dist") con.setMinDistance(t*s); else if (f == "bd") con.setMinIntersectionDistance(t*s); else if (f == "mag") con.setMinIntersectionMagnitude(t*s); else con.setMinIntersectingAngle(std::acos(std::sqrt(t))); }
                else if (op == "neglect") { const std::string f = h["f"].S(); if (f == "dist") con.neglectMinDistance(); else if (f == "bd") con.neglectMinIntersectionDistance(); else if (f == "mag") con.neglectMinIntersectionMagnitude(); else con.neglectMinIntersectionAngle(); }
                else if (op == "equi") con.allowEquiDimensionalIntersections(h["b"].B());
                else if (op == "eps") { if (h["b"].B()) con.setIntersectionEpsilon(1e-6*s); else con.setDefaultIntersectionEpsilon(); }
                else { const std::string want = h["want"].S(); if (want == "?") continue; if (h["risk"].B()) continue;
                    std::vector<const Entity*> I, K; for (const auto& i : h["I"]) I.push_back(&E[i.i() - 1]); for (const auto& j : h["J"]) K.push_back(&E[j.i() - 1]);
                    std::shuffle(K.begin(), K.end(), rng.g); const bool withCyl = mode == "cyl", single = I.size() == 1 && K.size() == 1;
                    if (rng.n(4) == 0) { const Con copy(con); con = Con(); con = copy; }
                    for (int rep = 0; rep < 2; ++rep) {
                        std::vector<Rep> ra, rb; for (Rep r : {DISK, QUAD, POLY, FACE, PTR}) { if (withCyl && r == FACE) continue; bool a = true, b = true; for (auto x : I) a = a && (withCyl || x->can(r)); for (auto x : K) b = b && x->can(r); if (a) ra.push_back(r); if (b) rb.push_back(r); }
                        if (rb.empty()) break; // no common type for the list
                        Rep A = ra[rng.n(int(ra.size()))], B = rb[rng.n(int(rb.size()))];
                        if (mode == "flat" && A != FACE && B != FACE) A = FACE;
                        if (!withCyl) { if (polyQuad(A, B)) B = FACE; else if (polyQuad(B, A)) A = FACE; }
                        const bool swap = rng.n(2), la = I.size() > 1 || rng.n(4) == 0, lb = K.size() > 1 || rng.n(4) == 0; bool got = false; std::ostringstream what;
                        what << w.str() << "operation " << at << ", " << (withCyl ? "CylinderSurface" : rn[A]) << (la && !withCyl ? " list" : "") << " - " << rn[B] << (lb ? " list" : "") << (swap ? ", swapped" : "");
                        auto both = [&] (const auto& a, const auto& b) { return swap ? ask(con, b, a) : ask(con, a, b); };
                        auto second = [&] (const auto& a) { return lb ? asList(K, B, [&] (const auto& b) { return both(a, b); }) : as(*K[0], B, [&] (const auto& b) { return both(a, b); }); };
                        try { if (withCyl) got = second(*cyl); else got = la ? asList(I, A, second) : as(*I[0], A, second); }
                        catch (const std::logic_error& x) { deviate(what.str(), ": ", x.what()); } catch (const std::exception& x) { deviate(what.str(), ": throws ", x.what()); }
                        require(got == (want == "T"), what.str(), ": ", got ? "admissible" : "not admissible", ", expected the opposite"); (void)single;
                    } } } } }); }
