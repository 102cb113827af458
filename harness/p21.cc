#include "geo.hh"
#include <frackit/geometry/triangle.hh>
#include <frackit/geometry/circle.hh>
#include <frackit/geometry/ellipse.hh>
#include <frackit/geometry/ellipsearc.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometryutilities/getboundingbox.hh>
#include <frackit/precision/defaultepsilon.hh>
#include <frackit/intersection/intersect.hh>
#include <frackit/occ/breputilities.hh>
#include <BRep_Builder.hxx>
#include <TopoDS_Compound.hxx>
#ifdef PY
#include "pyshadow.hh"
#endif
using namespace Frackit;
using B3 = BoundingBox<double>;
static A3 v3(const J& a) { return {a[0].d(), a[1].d(), a[2].d()}; }
struct Ext { A3 lo, hi; };
static void compare(const B3& b, const Ext& x, double size, const std::string& what) {
    const double g[6] = {b.xMin(), b.yMin(), b.zMin(), b.xMax(), b.yMax(), b.zMax()}; const double tol = 4e-7 + 1e-6*size;
    for (int i = 0; i < 3; ++i) {
        if (!(g[i] <= x.lo[i] + 1e-9*size)) deviate(what, ": the box does not enclose the geometry, lower side ", i, " at ", g[i], ", extent ", x.lo[i]);
        if (!(g[3+i] >= x.hi[i] - 1e-9*size)) deviate(what, ": the box does not enclose the geometry, upper side ", i, " at ", g[3+i], ", extent ", x.hi[i]);
        if (!(g[i] >= x.lo[i] - tol) || !(g[3+i] <= x.hi[i] + tol)) deviate(what, ": the box is not tight in direction ", i, ": [", g[i], ", ", g[3+i], "], extent [", x.lo[i], ", ", x.hi[i], "]"); } }
static Ext mapped(const Emb& e, A3 lo, A3 hi) { const A3 p = e.at(lo), q = e.at(hi); Ext r; for (int i = 0; i < 3; ++i) { r.lo[i] = std::min(p[i], q[i]); r.hi[i] = std::max(p[i], q[i]); } return r; }
static Ext ext(const J& x, const Emb& e, double k) { A3 lo, hi; for (int i = 0; i < 3; ++i) { const double r = std::sqrt(x[i]["q"].d()); lo[i] = (x[i]["lo"].d() - r)/k; hi[i] = (x[i]["hi"].d() + r)/k; } return mapped(e, lo, hi); }
static double dim(const Ext& x) { double s = 0; for (int i = 0; i < 3; ++i) s = std::max({s, x.hi[i] - x.lo[i], std::abs(x.lo[i]), std::abs(x.hi[i])}); return s; }
template<class G> void one(const G& g, const Ext& x, const std::string& what) {
    compare(getBoundingBox(g), x, dim(x), what); compare(OCCUtilities::getBoundingBox(OCCUtilities::getShape(g)), x, dim(x), what + " (B-Rep)"); }
static void shapes(int idx, const J& c, int variants) {
    for (int v = 0; v < variants; ++v) {
        Rng rng(envSeed()*41 + idx, v); Emb e = v == 0 ? identityEmb() : permEmb(rng, scaleOf(rng.n(7)), 20);
        std::ostringstream w; w << "scale " << e.s << ", "; const std::string W = w.str();
        const double k = c["frame"]["k"].d(); A3 f[3]; for (int i = 0; i < 3; ++i) f[i] = (1/k)*v3(c["frame"]["m"][i]); const A3 o = v3(c["c"]);
        const Frame fr = frameOf(e, o, f[0], f[1]);
        const J& S = c["poly"]["s"]; const int n = int(S["c"].size()); const Ext xp = ext(c["poly"]["e"], e, k); const Poly p = mkPoly(S, fr, rng.n(n), rng.n(2)); one(p, xp, W + "Polygon");
        if (n == 4) one(mkQuad(S, fr, rng.n(n), rng.n(2)), xp, W + "Quadrilateral");
        auto sc = corners(c["seg"]["s"], fr); if (rng.n(2)) std::swap(sc[0], sc[1]); const Ext xs = ext(c["seg"]["e"], e, k); const Seg3 sg(sc[0], sc[1]); one(sg, xs, W + "Segment");
        const double a = c["ell"]["a"].d(), b = c["ell"]["b"].d(); const A3 d1 = (rng.n(2) ? 1. : -1.)*e.d(f[0]), d2 = (rng.n(2) ? 1. : -1.)*e.d(f[1]);
        const Dsk dk(e.p(o), dir(d1), dir(d2), a*e.s, b*e.s); const Ext xe = ext(c["ell"]["e"], e, k); one(dk, xe, W + "Disk"); one(dk.boundingEllipse(), xe, W + "Ellipse");
        one(Circle<double,3>(e.p(o), dir(cross(d1, d2)), a*e.s), ext(c["circ"], e, k), W + "Circle");
        const Circle<double,3> base(e.p(o), dir(e.d(f[2])), c["cyl"]["r"].d()*e.s); const Ext xc = ext(c["cyl"]["e"], e, k); const Cylinder<double> cy(base, c["cyl"]["h"].d()*e.s);
        one(cy, xc, W + "Cylinder"); one(cy.lateralFace(), xc, W + "CylinderSurface");
        const Ext xb = ext(c["sph"]["e"], e, k); one(Sphere<double>(e.p(o), c["sph"]["r"].d()*e.s), xb, W + "Sphere"); one(Box<double>(pt(xb.lo), pt(xb.hi)), xb, W + "Box");
        { // arc in a coordinate plane
          const Frame g = frameOf(e, {0,0,0}, {1,0,0}, {0,1,0}); const J& A = c["arc"]; const double r = A["r"].d(), ka = A["k"][1].d()*r*e.s, kb = A["k"][0].d()*r*e.s;
          const Ellipse<double,3> ell(e.p(0,0,0), dir(g.d(1,0)), dir(g.d(0,1)), ka, kb); auto at = [&] (const J& q) { return pt(g.at(q[0].d(), q[1].d())); };
          one(EllipseArc<double,3>(ell, at(A["a"]), at(A["b"])), ext(A["e"], e, 1), W + "EllipseArc"); }
        // several shapes together
        TopoDS_Compound comp; BRep_Builder bld; bld.MakeCompound(comp); bld.Add(comp, OCCUtilities::getShape(p)); bld.Add(comp, OCCUtilities::getShape(sg)); bld.Add(comp, OCCUtilities::getShape(dk));
        Ext u = xp; for (const Ext& y : {xs, xe}) for (int i = 0; i < 3; ++i) { u.lo[i] = std::min(u.lo[i], y.lo[i]); u.hi[i] = std::max(u.hi[i], y.hi[i]); }
        compare(getBoundingBox(comp), u, dim(u), W + "compound"); } }
static void boxPairs(int idx, const J& c, int variants) {
    for (int v = 0; v < variants; ++v) {
        Rng rng(envSeed()*43 + idx, v); const Emb e = v == 0 ? identityEmb() : permEmb(rng, scaleOf(rng.n(7)), 3);
        for (const auto& q : c["pairs"]) {
            A3 alo, ahi, blo, bhi; const char* ax[3] = {"x", "y", "z"}; for (int i = 0; i < 3; ++i) { const J& t = q[ax[i]]; alo[i] = t[0][0].d(); ahi[i] = t[0][1].d(); blo[i] = t[1][0].d(); bhi[i] = t[1][1].d(); }
            const bool dflt = rng.n(2); Ext a = mapped(e, alo, ahi), b = mapped(e, blo, bhi);
            const B3 A(pt(a.lo), pt(a.hi)), B(pt(b.lo), pt(b.hi));
            // the default tolerance depends on the sizes of the boxes; two points have none
            const double def = 0.5*(defaultEpsilon(A) + defaultEpsilon(B)), sz = std::max(norm(A3(a.lo)), norm(A3(a.hi))) + e.s; const bool useDef = dflt && def > 1e-9*sz;
            const double eps = useDef ? def : 1e-6*e.s; const int lev = q["lev"].i();
            if (lev) { const int x = q["ax"].i() - 1; const double d = (lev == 1 ? 0.4 : 3.0)*eps/e.s; // move b away from a along axis x
                if (blo[x] >= ahi[x] && !(bhi[x] <= alo[x] && rng.n(2))) { blo[x] += d; bhi[x] += d; } else { blo[x] -= d; bhi[x] -= d; } b = mapped(e, blo, bhi); }
            const B3 C(pt(b.lo), pt(b.hi));
            if (!useDef && dflt && lev) continue;
            auto chk = [&] (bool got, const char* form) { if (got != q["over"].B()) deviate("boxes, scale ", e.s, form, got ? ": reported to overlap, but are disjoint: [" : ": reported disjoint, but overlap: [", str(pt(a.lo)), ", ", str(pt(a.hi)), "] and [", str(pt(b.lo)), ", ", str(pt(b.hi)), "] eps ", eps); };
            if (useDef) { chk(doIntersect(A, C), ""); chk(doIntersect(C, A), " (swapped)"); }
            // degenerate boxes touching exactly: tolerance zero is not required to work
            chk(doIntersect(A, C, eps), " (explicit tolerance)"); chk(doIntersect(C, A, eps), " (explicit tolerance, swapped)"); } } }
static void hide(int idx, const J& c, int variants) {
    if (c["kind"].S() == "none") return;
    for (int v = 0; v < variants; ++v) {
        Rng rng(envSeed()*131 + idx, v); const Emb e = makeEmb((v + idx) % 4, rng);
        const Frame fa = frameOf(e, {0,0,0}, {1,0,0}, {0, c["da"][0].d(), c["da"][1].d()}), fb = frameOf(e, {0,0,0}, {1,0,0}, {0, c["db"][0].d(), c["db"][1].d()});
        auto box = [&] (const J& s, const Frame& f) -> B3 { if (s["kind"].S() == "disk") return getBoundingBox(mkDisk(s, f, rng.n(4))); if (s["c"].size() == 4 && rng.n(2)) return getBoundingBox(mkQuad(s, f, rng.n(4), rng.n(2))); return getBoundingBox(mkPoly(s, f, rng.n(int(s["c"].size())), rng.n(2))); };
        const B3 a = box(c["A"], fa), b = box(c["B"], fb);
        const double size = std::max(bound(c["A"]), bound(c["B"]))*e.s;
        require(doIntersect(a, b), "boxes of geometries sharing a ", c["kind"].S(), " are reported disjoint, scale ", e.s);
        require(doIntersect(b, a), "boxes of geometries sharing a ", c["kind"].S(), " are reported disjoint (swapped), scale ", e.s);
        const P3 x = e.p(num(c["is"]["lo"]), 0, 0), y = e.p(num(c["is"]["hi"]), 0, 0); for (const P3& p : {x, y}) for (const B3& q : {a, b}) require(q.contains(p, 1e-7*size), "the box of a geometry misses a point of it, scale ", e.s); } }
int main(int argc, char** argv) { const int variants = argc > 2 ? atoi(argv[2]) : 2; return caseLoop(argc, argv, [&] (int idx, const J& c) {
    if (c.has("frame")) shapes(idx, c, variants); else if (c.has("pairs")) boxPairs(idx, c, variants); else hide(idx, c, variants); }); }
