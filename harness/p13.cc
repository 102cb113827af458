#include "geo.hh"
#include <frackit/geometry/triangle.hh>
#include <frackit/geometry/circle.hh>
#include <frackit/geometry/ellipse.hh>
#include <frackit/geometry/ellipsearc.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/hollowcylinder.hh>
#include <frackit/distance/pointongeometry.hh>
#include <frackit/occ/breputilities.hh>
using namespace Frackit;
struct Place { A3 org, ex, ey, ez; double s; A3 at(A3 p) const { return org + s*(p[0]*ex + p[1]*ey + p[2]*ez); } A3 d(A3 p) const { return p[0]*ex + p[1]*ey + p[2]*ez; } };
static Place placeOf(const Emb& e) { return {e.o, e.r[0], e.r[1], e.r[2], e.s}; }
#ifdef PY
#include "py.hh"
template<class G, class... A> bool has(const G& g, const A&... a) { return pyx::out<bool>(pyx::call(pyx::in(g), "contains", a...)); }
#else
template<class G, class... A> bool has(const G& g, const A&... a) { return g.contains(a...); }
#endif
static A3 v3(const J& a) { return {a[0].d(), a[1].d(), a[2].d()}; }
// levels: 1 = a third of the tolerance outside, 2 = six times the tolerance outside
template<class Query> void probe(const J& probes, const Place& f, double eps, bool levels, const std::string& what, Query&& q) {
    for (const auto& x : probes) {
        const int lev = x["lev"].i(); if (lev && !levels) continue;
        A3 l = (1/x["d"].d())*v3(x["p"]), p = f.at(l);
        if (lev) { const A3 n = f.d(v3(x["n"])); p = p + ((lev == 1 ? 0.3 : 6.0)*eps/norm(n))*n; }
        q(pt(p), lev, [&] (bool got, const char* form) {
            if (got != x["in"].B()) deviate(what, form, lev == 1 ? " rejects a point outside by less than the tolerance" : lev == 2 ? " accepts a point outside by more than the tolerance" :
                x["in"].B() ? " rejects a point of the closed set" : " accepts a point outside", ": local (", l[0], ", ", l[1], ", ", l[2], ")", " eps ", eps); }); } }
template<class G> void full(const G& g, const J& probes, const Place& f, double eps, const std::string& what, bool levels = true) {
    probe(probes, f, eps, levels, what, [&] (const P3& p, int lev, auto&& ok) { ok(has(g, p, eps), "::contains(p, eps)"); if (!lev) ok(has(g, p), "::contains(p)"); }); }
template<class G> void inplane(const G& g, const J& probes, const Place& f, double eps, const std::string& what) {
    full(g, probes, f, eps, what);
    // known to be on the plane: the check of the plane may be skipped
    probe(probes, f, eps, true, what, [&] (const P3& p, int lev, auto&& ok) {
        if (std::abs(Vector<double,3>(g.supportingPlane().projection(p), p).length()) < 1e-3*eps) { ok(has(g, p, eps, false), "::contains(p, eps, false)"); if (!lev) ok(has(g, p, false), "::contains(p, false)"); } }); }
static void run(int idx, const J& c, int variants) {
    for (int v = 0; v < variants; ++v) {
        Rng rng(envSeed()*173 + idx, v); const int place = (v + idx) % 4; const Emb e = makeEmb(place, rng);
        std::ostringstream w; w << "placement " << place << " scale " << e.s << ", "; const std::string W = w.str();
        const Place f = placeOf(e); const Frame fr = frameOf(e, {0,0,0}, {1,0,0}, {0,1,0});
        if (c.has("convex")) {
            const J& S = c["S"]; const double eps = 1e-6*e.s*(1 + rng.n(3)*4);
            if (S["kind"].S() == "disk") inplane(mkDisk(S, fr, rng.n(4)), c["pr"], f, eps, W + "Disk");
            else { const int n = int(S["c"].size()), sh = rng.n(n); const bool rev = rng.n(2);
                if (c["convex"].B()) { const Poly p = mkPoly(S, fr, sh, rev); require(p.isConvex(), W, "convex polygon reported concave"); inplane(p, c["pr"], f, eps, W + "Polygon"); }
                if (n == 4) { auto C = corners(S, fr, sh, rev); const bool collinear = norm(cross(arr(C[1])-arr(C[0]), arr(C[3])-arr(C[0]))) < 1e-9*e.s*e.s;
                    if (!collinear && norm(cross(arr(C[1])-arr(C[0]), arr(C[2])-arr(C[0]))) > 1e-9*e.s*e.s) inplane(mkQuad(S, fr, sh, rev), c["pr"], f, eps, W + "Quadrilateral"); }
                if (n == 3) { auto C = corners(S, fr, sh, rev); Triangle<double,3> t(C[0], C[1], C[2]); inplane(t, c["pr"], f, eps, W + "Triangle"); } }
        } else if (c.has("box")) {
            const A3 lo = v3(c["box"][0]), hi = v3(c["box"][1]); Emb b = permEmb(rng, scaleOf(rng.n(7)), 20); if (v == 0) b = identityEmb();
            // axis-aligned boxes: map both corners and sort
            const A3 p = b.at(lo), q = b.at(hi); Box<double> box(std::min(p[0],q[0]), std::min(p[1],q[1]), std::min(p[2],q[2]), std::max(p[0],q[0]), std::max(p[1],q[1]), std::max(p[2],q[2]));
            const double eps = 1e-6*b.s; full(box, c["pr"], placeOf(b), eps, W + "Box");
            if (v == 0) { const auto solid = OCCUtilities::getShape(box); int k = 0; probe(c["pr"], placeOf(b), std::max(1e-5*b.s, 1e-6), true, "B-Rep of Box", [&] (const P3& x, int lev, auto&& ok) { if (lev || (++k + idx) % 40 == 0) ok(pointOnGeometry(x, solid, std::max(1e-5*b.s, 1e-6)), ""); }); }
        } else if (c.has("m")) {
            Sphere<double> s(e.p(v3(c["m"])), c["r"].d()*e.s); const double eps = 1e-6*e.s*c["r"].d(); full(s, c["pr"], f, eps, W + "Sphere");
            if (v == 0) { const auto solid = OCCUtilities::getShape(s); int k = 0; probe(c["pr"], f, std::max(1e-5*e.s, 1e-6), true, "B-Rep of Sphere", [&] (const P3& x, int lev, auto&& ok) { if ((++k + idx) % 40 == 0) ok(pointOnGeometry(x, solid, std::max(1e-5*e.s, 1e-6)), ""); }); }
        } else if (c.has("H")) {
            const double R = c["R"].d()*e.s, H = c["H"].d()*e.s, eps = 1e-6*std::max(R, H);
            const A3 ax = e.d({0,0,1}); const Circle<double,3> base(e.p(0,0,0), dir(ax), R);
            const Place g = f;
            Cylinder<double> cyl(base, H); full(cyl, c["solid"], g, eps, W + "Cylinder");
            CylinderSurface<double> lat(base, H); full(lat, c["surface"], g, eps, W + "CylinderSurface");
            if (c["ri"].i() < 5) { HollowCylinder<double> hc(e.p(0,0,0), dir(ax), R*c["ri"].d()/5, R, H); full(hc, c["hollow"], g, eps, W + "HollowCylinder");
                full(hc.fullCylinder(), c["solid"], g, eps, W + "HollowCylinder::fullCylinder"); }
            if (v == 0) { const auto solid = OCCUtilities::getShape(cyl); int k = 0; probe(c["solid"], g, std::max(1e-5*e.s, 1e-6), true, "B-Rep of Cylinder", [&] (const P3& x, int lev, auto&& ok) { if ((++k + idx) % 30 == 0) ok(pointOnGeometry(x, solid, std::max(1e-5*e.s, 1e-6)), ""); }); }
        } else if (c.has("arc")) {
            const int flip = rng.n(4); const Dsk d = mkDisk(c["S"], fr, flip); const Ellipse<double,3> ell = d.boundingEllipse();
            auto end = [&] (const J& q) { return e.p(q[0].d()/q[2].d(), q[1].d()/q[2].d(), 0); };
            P3 a = end(c["ends"]["a"]), b = end(c["ends"]["b"]); if (flip == 1 || flip == 2) std::swap(a, b);
            const double eps = 1e-6*e.s;
            full(ell, c["ell"], f, eps, W + "Ellipse"); inplane(ell, c["ell"], f, eps, W + "Ellipse");
            EllipseArc<double,3> arc(ell, a, b); require(arc.isFullEllipse() == (c["i"].i() == c["j"].i()), W, "EllipseArc::isFullEllipse");
            full(arc, c["arc"], f, 1e-6, W + (c["i"].i() == c["j"].i() ? "full EllipseArc" : "EllipseArc"), false);
            if (c["S"]["k"][0].i() == c["S"]["k"][1].i()) full(Circle<double,3>(d.center(), d.normal(), d.majorAxisLength()), c["ell"], f, eps, W + "Circle");
        } else {
            const double eps = 1e-6*e.s; A3 a = v3(c["a"]), b = 0.25*v3(c["b"]); P3 pa = e.p(a), pb = e.p(b); if (rng.n(2)) std::swap(pa, pb);
            Seg3 s(pa, pb); full(s, c["seg"], f, eps, W + "Segment");
            probe(c["line"], f, eps, false, W + "Segment", [&] (const P3& x, int, auto&&) { require(s.contains(x, eps, false) == s.contains(x, eps, true), W, "Segment::contains on the line depends on the flag"); });
            full(s.supportingLine(), c["line"], f, eps, W + "Line");
            A3 W3 = v3(c["w"]); if (norm(W3) > 0) full(Plane3(e.p(a), dir(e.d(W3))), c["plane"], f, eps, W + "Plane");
        }
    }
}
int main(int argc, char** argv) { const int variants = argc > 2 ? atoi(argv[2]) : 2; return caseLoop(argc, argv, [&] (int idx, const J& c) { run(idx, c, variants); }); }
