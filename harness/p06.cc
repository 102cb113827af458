#include "geo.hh"
#include <variant>
#include <frackit/intersection/intersect.hh>
#ifdef PY
#include "pyshadow.hh"
#endif
using namespace Frackit;
struct Expect { std::string kind; P3 lo, hi; double tol; };
static std::string kindOf(const P3&) { return "point"; } static std::string kindOf(const Seg3&) { return "segment"; }
static std::string kindOf(const Poly&) { return "polygon"; } static std::string kindOf(const Line3&) { return "line"; } static std::string kindOf(const Plane3&) { return "plane"; }
static std::string kindOf(const TopoDS_Face&) { return "face"; } template<int w, class c> std::string kindOf(const EmptyIntersection<w,c>&) { return "none"; }
static void at(const P3& g, const Expect& e) { require(dist(g, e.lo) <= e.tol, "point ", str(g), ", expected ", str(e.lo), " (off by ", dist(g, e.lo), ", tolerance ", e.tol, ")"); }
static void at(const Seg3& g, const Expect& e) {
    const double d1 = std::max(dist(g.source(), e.lo), dist(g.target(), e.hi)), d2 = std::max(dist(g.source(), e.hi), dist(g.target(), e.lo));
    require(std::min(d1, d2) <= e.tol, "segment ", str(g.source()), " - ", str(g.target()), ", expected ", str(e.lo), " - ", str(e.hi), " (off by ", std::min(d1,d2), ", tolerance ", e.tol, ")"); }
template<class T> void at(const T&, const Expect&) {}
template<class Var> void check(const Var& r, const Expect& e, const std::string& what) {
    std::visit([&] (const auto& g) {
        require(kindOf(g) == e.kind, what, ": result is a ", kindOf(g), ", expected ", e.kind);
        try { at(g, e); } catch (const Deviation& d) { deviate(what, ": ", d.what()); } }, r); }
template<class A, class B> void both(const A& a, const B& b, const Expect& e, const std::string& what, double eps) {
    check(intersect(a, b), e, what); check(intersect(b, a), e, what + " (arguments swapped)");
    check(intersect(a, b, eps), e, what + " (explicit tolerance)"); }
template<class F> void onShape(const J& s, bool quads, const Frame& f, Rng& rng, F&& fn) {
    if (s["kind"].S() == "disk") fn(mkDisk(s, f, rng.n(4)), "disk");
    else if (quads && s["c"].size() == 4) fn(mkQuad(s, f, rng.n(4), rng.n(2)), "quadrilateral");
    else fn(mkPoly(s, f, rng.n(int(s["c"].size())), rng.n(2)), "polygon"); }

static void pairs(int idx, const J& c, int variants) {
    const bool pa = c["A"]["kind"].S() == "poly", pb = c["B"]["kind"].S() == "poly";
    const bool q4 = (!pa || c["A"]["c"].size() == 4) && (!pb || c["B"]["c"].size() == 4);
    for (int v = 0; v < variants; ++v) {
        Rng rng(envSeed()*131 + idx, v); const int place = (v + idx) % 4;
        const Emb e = makeEmb(place, rng);
        const Frame fa = frameOf(e, {0,0,0}, {1,0,0}, {0, c["da"][0].d(), c["da"][1].d()});
        const Frame fb = frameOf(e, {0,0,0}, {1,0,0}, {0, c["db"][0].d(), c["db"][1].d()});
        const double size = std::max(bound(c["A"]), bound(c["B"]))*e.s;
        const bool quads = q4 && rng.n(3) > 0;
        Expect x; x.kind = c["kind"].S(); x.tol = 2e-6*size;
        if (x.kind != "none") { x.lo = e.p(num(c["is"]["lo"]), 0, 0); x.hi = e.p(num(c["is"]["hi"]), 0, 0); }
        std::ostringstream w; w << "placement " << place << " scale " << e.s << ", ";
        onShape(c["A"], quads || !pb, fa, rng, [&] (const auto& a, const char* na) {
            onShape(c["B"], quads || !pa, fb, rng, [&] (const auto& b, const char* nb) {
                using A = std::decay_t<decltype(a)>; using B = std::decay_t<decltype(b)>;
                if constexpr (!((std::is_same_v<A,Quad> && std::is_same_v<B,Poly>) || (std::is_same_v<A,Poly> && std::is_same_v<B,Quad>)))
                    both(a, b, x, w.str() + na + " - " + nb, 1e-7*size); }); 
            // the common line itself with A: the interval on the axis
            using A = std::decay_t<decltype(a)>;
            if constexpr (!std::is_same_v<A, Poly>) {
                Expect l; l.kind = c["ka"].S(); l.tol = x.tol;
                if (l.kind != "none") { l.lo = e.p(num(c["ia"]["lo"]), 0, 0); l.hi = e.p(num(c["ia"]["hi"]), 0, 0); }
                const double away = rng.u(-3,3); 
                both(a, Line3(e.p(away,0,0), dir(e.d({rng.n(2) ? 1. : -1.,0,0}))), l, w.str() + na + " - line in its plane", 1e-7*size);
                // a line through the probe point, leaving the plane
                const P3 q = pt(fa.at(c["pt"][0].d()/2, c["pt"][1].d()/2));
                Expect t; t.kind = c["pa"].i() >= 0 ? "point" : "none"; t.lo = q; t.tol = x.tol;
                A3 n = cross(fa.d(1,0), fa.d(0,1)); A3 ld = n + rng.u(-2,2)*fa.d(1,0) + rng.u(-2,2)*fa.d(0,1);
                const double back = rng.u(-5,5)*e.s;
                both(a, Line3(pt(arr(q) + back*ld), dir(ld)), t, w.str() + na + " - crossing line (point " + (c["pa"].i() == 0 ? "on the boundary" : c["pa"].i() > 0 ? "inside" : "outside") + ")", 1e-7*size);
            }
            // the two supporting planes meet in the axis
            auto pl = intersect(a.supportingPlane(), Plane3(pt(fb.at(rng.u(-4,4), rng.u(-4,4))), dir(cross(fb.d(1,0), fb.d(0,1)))));
            require(std::holds_alternative<Line3>(pl), w.str(), "planes do not meet in a line");
            const auto& L = std::get<Line3>(pl);
            for (double t : {-7.0, 0.0, 5.0}) require(L.contains(e.p(t,0,0), 1e-6*size), w.str(), "common line of the planes misses ", str(e.p(t,0,0)));
            require(std::abs(norm(cross(arr(L.direction()), e.d({1,0,0})))) < 1e-6, w.str(), "direction of the common line");
        });
    }
}
static A3 rat(const J& a) { const double d = a[3].d(); return {a[0].d()/d, a[1].d()/d, a[2].d()/d}; }
static void segs(int idx, const J& c, int variants) {
    for (int v = 0; v < variants; ++v) {
        Rng rng(envSeed()*137 + idx, v); const int place = (v + idx) % 4; const Emb e = makeEmb(place, rng);
        auto P = [&] (const J& q) { return e.p(q[0].d(), q[1].d(), q[2].d()); };
        Seg3 a(P(c["a"][0]), P(c["a"][1])), b(P(c["b"][0]), P(c["b"][1]));
        if (rng.n(2)) a = Seg3(a.target(), a.source()); if (rng.n(2)) b = Seg3(b.target(), b.source());
        Expect x; x.kind = c["kind"].S(); x.tol = 1e-5*e.s;
        if (x.kind != "none") { x.lo = e.p(rat(c["lo"])); x.hi = e.p(rat(c["hi"])); }
        std::ostringstream w; w << "placement " << place << " scale " << e.s << ", segment - segment";
        both(a, b, x, w.str(), 1e-7*e.s*3);
    }
}
static void planes(int idx, const J& c, int variants) {
    for (int v = 0; v < variants; ++v) {
        Rng rng(envSeed()*139 + idx, v); const int place = (v + idx) % 4; const Emb e = makeEmb(place, rng);
        auto A = [&] (const J& q) { return A3{q[0].d(), q[1].d(), q[2].d()}; };
        const A3 n1 = A(c["n1"]), n2 = A(c["n2"]), p1 = A(c["p1"]), p2 = A(c["p2"]), q = A(c["q"]), d = A(c["d"]);
        Plane3 a(e.p(p1), dir(e.d(n1))), b(e.p(p2), dir(e.d(n2))); Line3 l(e.p(q), dir(e.d(d)));
        std::ostringstream w; w << "placement " << place << " scale " << e.s << ", ";
        const double tol = 1e-6*e.s*30;
        for (int sw = 0; sw < 2; ++sw) {
            auto r = sw ? intersect(b, a) : intersect(a, b);
            std::visit([&] (const auto& g) { require(kindOf(g) == c["pp"].S(), w.str(), "plane - plane is a ", kindOf(g), ", expected ", c["pp"].S());
                using G = std::decay_t<decltype(g)>;
                if constexpr (std::is_same_v<G, Plane3>) require(g.contains(e.p(p1), tol) && g.contains(e.p(p2), tol) && norm(cross(arr(g.normal()), e.d((1/norm(n1))*n1))) < 1e-6, w.str(), "wrong common plane");
                if constexpr (std::is_same_v<G, Line3>) for (double t : {-3., 0., 4.}) { const P3 x = pt(arr(g.supportingPoint()) + t*e.s*arr(g.direction()));
                    require(a.contains(x, tol) && b.contains(x, tol), w.str(), "common line leaves the planes at ", str(x)); } }, r);
            auto s = sw ? intersect(l, a) : intersect(a, l);
            std::visit([&] (const auto& g) { require(kindOf(g) == c["pl"].S(), w.str(), "plane - line is a ", kindOf(g), ", expected ", c["pl"].S());
                using G = std::decay_t<decltype(g)>;
                if constexpr (std::is_same_v<G, P3>) require(dist(g, e.p(rat(c["hit"]))) < tol, w.str(), "plane - line point ", str(g), ", expected ", str(e.p(rat(c["hit"]))));
                if constexpr (std::is_same_v<G, Line3>) require(g.contains(l.supportingPoint(), tol) && norm(cross(arr(g.direction()), arr(l.direction()))) < 1e-6, w.str(), "wrong common line"); }, s);
        }
    }
}
// faces in a common or in parallel planes, concave faces
static void refuse(int idx, const J& c, int variants) {
    Rng rng(envSeed()*149 + idx, 0); const int place = idx % 4; const Emb e = makeEmb(place, rng);
    const Frame fa = frameOf(e, {0,0,0}, {1,0,0}, {0,1,0}), fb = frameOf(e, {0,0,c["h"].d()}, {1,0,0}, {0,1,0});
    const bool pa = c["A"]["kind"].S() == "poly", pb = c["B"]["kind"].S() == "poly";
    const bool q4 = (!pa || c["A"]["c"].size() == 4) && (!pb || c["B"]["c"].size() == 4) && rng.n(3) > 0;
    onShape(c["A"], q4 || !pb, fa, rng, [&] (const auto& a, const char* na) {
        onShape(c["B"], q4 || !pa, fb, rng, [&] (const auto& b, const char* nb) {
            using A = std::decay_t<decltype(a)>; using B = std::decay_t<decltype(b)>;
            if constexpr (!((std::is_same_v<A,Quad> && std::is_same_v<B,Poly>) || (std::is_same_v<A,Poly> && std::is_same_v<B,Quad>))) {
                for (int sw = 0; sw < 2; ++sw) {
                    bool empty = false; bool refused = throws([&] { empty = sw ? isEmptyIntersection(intersect(b, a)) : isEmptyIntersection(intersect(a, b)); });
                    if (c["h"].i() != 0) require(!refused && empty, na, " - ", nb, " in parallel planes: ", refused ? "refused" : "not empty");
                    else if (c["share"].B()) require(refused, na, " - ", nb, " sharing area in one plane: answered", empty ? " empty" : "");
                    else require(refused || empty, na, " - ", nb, " disjoint in one plane: not empty"); } } }); });
}
static void concave(int idx, const J& c, int variants) {
    Rng rng(envSeed()*151 + idx, 0); const Emb e = makeEmb(idx % 4, rng);
    const Frame fa = frameOf(e, {0,0,0}, {1,0,0}, {0,1,0}), fb = frameOf(e, {0,0,0}, {1,0,0}, {0,0,1});
    for (int sh = 0; sh < int(c["A"]["c"].size()); ++sh) for (int rev = 0; rev < 2; ++rev) {
        // B is a big square through the origin, so that the bounding boxes overlap
        std::vector<P3> sq{pt(fb.at(-9,-9)), pt(fb.at(9,-9)), pt(fb.at(9,9)), pt(fb.at(-9,9))};
        const Poly a = mkPoly(c["A"], fa, sh, rev);
        require(!a.isConvex(), "concave polygon (start corner ", sh, rev ? ", reversed" : "", ") reported as convex");
        require(throws([&] { intersect(a, Poly(sq)); }) && throws([&] { intersect(Poly(sq), a); }), "concave polygon - polygon was not refused");
        if (c["A"]["c"].size() == 4) {
            const Quad q = mkQuad(c["A"], fa, sh, rev), s2(sq[0], sq[1], sq[3], sq[2]);
            require(!q.isConvex(), "concave quadrilateral (start corner ", sh, rev ? ", reversed" : "", ") reported as convex");
            require(throws([&] { intersect(q, s2); }) && throws([&] { intersect(s2, q); }), "concave quadrilateral - quadrilateral was not refused"); } }
}
int main(int argc, char** argv) {
    const int variants = argc > 2 ? atoi(argv[2]) : 2;
    return caseLoop(argc, argv, [&] (int idx, const J& c) {
        if (c.has("da")) pairs(idx, c, variants); else if (c.has("a")) segs(idx, c, variants);
        else if (c.has("n1")) planes(idx, c, variants); else if (c.has("share")) refuse(idx, c, variants);
        else concave(idx, c, variants); });
}
