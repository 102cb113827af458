#include "geo.hh"
#include <BRep_Builder.hxx>
#include <TopoDS_Compound.hxx>
#include <frackit/geometry/triangle.hh>
#include <frackit/geometry/circle.hh>
#include <frackit/geometry/ellipse.hh>
#include <frackit/geometry/ellipsearc.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/hollowcylinder.hh>
#include <frackit/magnitude/length.hh>
#include <frackit/magnitude/area.hh>
#include <frackit/magnitude/volume.hh>
#include <frackit/magnitude/magnitude.hh>
#include <frackit/magnitude/containedmagnitude.hh>
#include <frackit/occ/breputilities.hh>
#include <BRepPrimAPI_MakeBox.hxx>
#include <BRepBuilderAPI_MakeFace.hxx>
#ifdef PY
#include "pyshadow.hh"
#endif
using namespace Frackit;
static A3 v3(const J& a) { return {a[0].d(), a[1].d(), a[2].d()}; }
static double rat(const J& a) { return a[0].d()/a[1].d(); }
// length of the ellipse arc (a cos t, b sin t), t from t0 to t1 (Gauss-Legendre on small pieces)
static double arcLen(double a, double b, double t0, double t1) {
    static const double x[4] = {0.1834346424956498, 0.5255324099163290, 0.7966664774136267, 0.9602898564975363}, w[4] = {0.3626837833783620, 0.3137066458778873, 0.2223810344533745, 0.1012285362903763};
    const int n = 64; double s = 0; const double h = (t1 - t0)/n;
    for (int i = 0; i < n; ++i) for (int k = 0; k < 8; ++k) { const double t = t0 + h*(i + 0.5 + 0.5*(k < 4 ? x[k] : -x[k-4]));
        s += 0.5*h*w[k%4]*std::hypot(a*std::sin(t), b*std::cos(t)); }
    return s; }
static double angleOf(double c, double s) { double t = std::atan2(s, c); return t < 0 ? t + 2*M_PI : t; }
static double spanArc(double a, double b, double t0, double t1) { if (t1 <= t0) t1 += 2*M_PI; return arcLen(a, b, t0, t1); }
// area of a node sequence: shoelace plus circular segments (stretch k in y)
static double areaOf(const J& rest, double k) {
    double s = 0; const int n = int(rest.size());
    for (int i = 0; i < n; ++i) { const J& P = rest[i]["p"]; const J& Q = rest[(i+1)%n]["p"]; const double x0 = rat(P[0]), y0 = rat(P[1]), x1 = rat(Q[0]), y1 = rat(Q[1]);
        s += 0.5*(x0*y1 - x1*y0);
        if (rest[i]["arc"].B()) { double t = angleOf(x1, y1/k) - angleOf(x0, y0/k); if (t < 0) t += 2*M_PI; const double r2 = x0*x0 + y0*y0/k/k; s += 0.5*r2*k*(t - std::sin(t)); } }
    return s; }
static void near(double got, double want, double scaleUnit, const std::string& what, double rel = 1e-7) {
    if (!(std::abs(got - want) <= rel*std::max(std::abs(want), scaleUnit))) deviate(what, ": ", got, ", expected ", want); }
template<class G> void both(const G& g, double want, const std::string& what, bool shape = true) {
    near(computeMagnitude(g), want, 0, what + " computeMagnitude");
    if (shape) near(computeMagnitude(OCCUtilities::getShape(g)), want, 0, what + " computeMagnitude of the B-Rep", 1e-6); }

static void plain(const J& c, const Emb& e, const std::string& W, Rng& rng) {
    const Frame f = frameOf(e, {0,0,0}, {1,0,0}, {0,1,0}); const double s = e.s;
    { const J& S = c["poly"]; const int n = int(S["c"].size()), sh = rng.n(n); const bool rev = rng.n(2); const double A = 0.5*s*s*rat(c["area2"]);
      const Poly p = mkPoly(S, f, sh, rev); both(p, A, W + "Polygon"); near(computeArea(p), A, 0, W + "Polygon computeArea"); near(p.area(), A, 0, W + "Polygon::area");
      if (n == 4) { const Quad q = mkQuad(S, f, sh, rev); both(q, A, W + "Quadrilateral"); near(computeArea(q), A, 0, W + "Quadrilateral computeArea"); }
      auto C = corners(S, f, sh, rev); const Triangle<double,3> t(C[0], C[1], C[2]); const double T = 0.5*norm(cross(arr(C[1]) - arr(C[0]), arr(C[2]) - arr(C[0])));
      near(computeMagnitude(t), T, 0, W + "Triangle");
      double per = 0; for (int i = 0; i < n; ++i) { per += dist(C[i], C[(i+1)%n]); near(computeMagnitude(p.edge(i)), dist(p.edge(i).source(), p.edge(i).target()), 0, W + "edge of Polygon"); }
      const auto wires = OCCUtilities::getWires(OCCUtilities::getShape(p)); require(wires.size() == 1, W, "polygon face has one wire"); near(computeMagnitude(wires[0]), per, 0, W + "wire of Polygon"); near(computeLength(wires[0]), per, 0, W + "wire length of Polygon"); }
    { const P3 a = e.p(v3(c["seg"][0])), b = e.p(v3(c["seg"][1])); const double L = s*norm(v3(c["seg"][0]) - v3(c["seg"][1])); const Seg3 g(a, b); both(g, L, W + "Segment"); near(computeLength(g), L, 0, W + "Segment computeLength"); near(computeMagnitude(a), 0, 0, W + "Point"); }
    { const double r = c["r"].d(), k = c["k"][0].d()/c["k"][1].d(), a = s*r, b = s*r*k; const int flip = rng.n(4);
      const A3 ma = (flip & 1 ? -1.0 : 1.0)*f.d(1,0), mi = (flip & 2 ? -1.0 : 1.0)*f.d(0,1); const bool rev = flip == 1 || flip == 2;
      const Dsk d(e.p(0,0,0), dir(ma), dir(mi), a, b); both(d, M_PI*a*b, W + "Disk"); near(computeArea(d), M_PI*a*b, 0, W + "Disk computeArea");
      const double full = arcLen(a, b, 0, 2*M_PI); const auto ell = d.boundingEllipse(); both(ell, full, W + "Ellipse"); near(computeLength(ell), full, 0, W + "Ellipse computeLength");
      near(computeLength(OCCUtilities::getGeomHandle(ell)), full, 0, W + "length of the ellipse curve");
      if (k == 1) { Circle<double,3> ci(d.center(), d.normal(), a); both(ci, 2*M_PI*a, W + "Circle"); }
      auto pos = [&] (const J& q) { return pt(f.at(q[0].d(), k*q[1].d())); };
      auto len = [&] (const J& p, const J& q) { return spanArc(a, b, angleOf(p[0].d(), p[1].d()), angleOf(q[0].d(), q[1].d())); };
      const J& I = c["ij"][0]; const J& K = c["ij"][1]; const J& M = c["mid"];
      auto mk = [&] (const J& p, const J& q) { return rev ? EllipseArc<double,3>(ell, pos(q), pos(p)) : EllipseArc<double,3>(ell, pos(p), pos(q)); };
      const auto arc = mk(I, K); require(arc.isFullEllipse() == c["full"].B(), W, "EllipseArc::isFullEllipse"); const double L = c["full"].B() ? full : len(I, K);
      both(arc, L, W + (c["full"].B() ? "full EllipseArc" : "EllipseArc")); near(computeLength(arc), L, 0, W + "EllipseArc computeLength"); near(computeLength(OCCUtilities::getGeomHandle(arc)), L, 0, W + "length of the arc curve");
      if (c["split"].B()) near(computeMagnitude(mk(I, M)) + computeMagnitude(mk(M, K)), computeMagnitude(arc), 0, W + "two parts of an EllipseArc"); }
    { const A3 o = e.o; A3 z = s*v3(c["box"]); const Box<double> b(o[0], o[1], o[2], o[0]+z[0], o[1]+z[1], o[2]+z[2]); both(b, z[0]*z[1]*z[2], W + "Box"); near(computeVolume(b), z[0]*z[1]*z[2], 0, W + "Box computeVolume"); both(b, z[0]*z[1]*z[2], W + "Box");
      double surf = 0; for (std::size_t i = 0; i < b.numFaces(); ++i) surf += computeMagnitude(b.face(i)); const double S = 2*(z[0]*z[1] + z[0]*z[2] + z[1]*z[2]); near(surf, S, 0, W + "faces of Box");
      const auto sh = OCCUtilities::getShape(b); const auto shells = OCCUtilities::getShells(sh); require(shells.size() == 1, W, "box has one shell"); near(computeArea(shells[0]), S, 0, W + "shell of Box", 1e-6); near(computeMagnitude(shells[0]), S, 0, W + "shell of Box", 1e-6);
      near(computeVolume(OCCUtilities::getShape(b)), z[0]*z[1]*z[2], 0, W + "Box solid", 1e-6);
      double ed = 0; for (std::size_t i = 0; i < b.numEdges(); ++i) ed += computeLength(b.edge(i)); near(ed, 4*(z[0]+z[1]+z[2]), 0, W + "edges of Box"); }
    { const double R = s*c["r"].d(), H = s*c["H"].d(), ri = R*c["ri"].d()/5; const Circle<double,3> base(e.p(0,0,0), dir(e.d({0,0,1})), R);
      Cylinder<double> cy(base, H); both(cy, M_PI*R*R*H, W + "Cylinder"); near(computeMagnitude(cy.topFace()) + computeMagnitude(cy.bottomFace()), 2*M_PI*R*R, 0, W + "caps of Cylinder");
      CylinderSurface<double> cs(base, H); both(cs, 2*M_PI*R*H, W + "CylinderSurface"); both(cy.lateralFace(), 2*M_PI*R*H, W + "lateral face of Cylinder");
      Sphere<double> sp(e.p(0,0,0), R); both(sp, 4.0/3.0*M_PI*R*R*R, W + "Sphere");
      if (c["ri"].i() > 0) { HollowCylinder<double> h(e.p(0,0,0), dir(e.d({0,0,1})), ri, R, H); near(computeMagnitude(h), M_PI*H*(R*R - ri*ri), 0, W + "HollowCylinder"); near(computeVolume(h.fullCylinder()), M_PI*R*R*H, 0, W + "HollowCylinder::fullCylinder");
        near(computeArea(h.innerLateralFace()), 2*M_PI*ri*H, 0, W + "inner lateral face of HollowCylinder"); near(computeArea(h.outerLateralFace()), 2*M_PI*R*H, 0, W + "outer lateral face of HollowCylinder"); } }
}
// all forms of an entity contained in a domain
template<class E, class D> void contained(const E& g, const D& dom, double want, double unit, const std::string& what, double rel = 2e-6) {
    near(computeContainedMagnitude(g, dom), want, unit, what, rel); }
template<class D> void entityIn(const J& c, const Frame& f, const D& dom, const std::string& W, Rng& rng, double k, bool band = false) {
    const J& S = c["ent"]; const double s = f.e.s, want = s*s*(areaOf(c["rest"], k) - (band ? areaOf(c["cut"], k) : 0.0));
    if (S["kind"].S() == "disk") { const double fac = S.has("f") ? S["f"].d()/4 : 1.0; Frame g = f; g.e.s *= 1; Dsk d0 = mkDisk(S, f, rng.n(4)); Dsk d(d0.center(), d0.majorAxis(), d0.minorAxis(), d0.majorAxisLength()*fac, d0.minorAxisLength()*fac);
        double w = want; if (fac < 1 && want > 0) w = d.majorAxisLength()*d.minorAxisLength()*M_PI;
        contained(d, dom, w, d.area(), W + "Disk"); contained(OCCUtilities::getShape(d), dom, w, d.area(), W + "face of Disk");
        contained(std::shared_ptr<Geometry>(std::make_shared<Dsk>(d)), dom, w, d.area(), W + "pointer to Disk"); }
    else { const int n = int(S["c"].size()), sh = rng.n(n); const bool rev = rng.n(2); const Poly p = mkPoly(S, f, sh, rev); contained(p, dom, want, p.area(), W + "Polygon");
        if (n == 4) { const Quad q = mkQuad(S, f, sh, rev); contained(q, dom, want, q.area(), W + "Quadrilateral"); contained(OCCUtilities::getShape(q), dom, want, q.area(), W + "face of Quadrilateral");
            contained(std::shared_ptr<Geometry>(std::make_shared<Quad>(q)), dom, want, q.area(), W + "pointer to Quadrilateral"); }
        near(computeContainedMagnitude(p.corner(0), dom), 0, 0, W + "Point"); } }
static void segIn(const J& c, const Frame& f, std::function<double(const Seg3&)> size, const std::string& W, bool band = false) {
    const J& a = c["seg"][0]; const J& b = c["seg"][1]; const A3 A = f.at(a[0].d(), a[1].d()), B = f.at(b[0].d(), b[1].d()); const double L = norm(A - B); if (L == 0) return;
    double want = c["part"].size() ? (rat(c["part"][1]) - rat(c["part"][0]))*L : 0.0; if (band && c["cutseg"].size()) want -= (rat(c["cutseg"][1]) - rat(c["cutseg"][0]))*L; near(size(Seg3(pt(A), pt(B))), want, L, W + "Segment", 2e-6); }

static void run(int idx, const J& c, int variants) {
    for (int v = 0; v < variants; ++v) {
        Rng rng(envSeed()*97 + idx, v);
        if (!c.has("dom")) { const Emb e = makeEmb((v + idx) % 4, rng); std::ostringstream w; w << "placement " << (v + idx) % 4 << " scale " << e.s << ", "; plain(c, e, w.str(), rng); continue; }
        static const double scales[4] = {1.0, 0.01, 20.0, 0.3};
        const double s = scales[rng.n(4)]; const std::string D = c["dom"].S(); const bool general = v % 2;
        if (D == "box") {
            const J& t = c["tilt"]; const double h = t[2].d();
            Emb e = general ? rotEmb(rng, s, 20, false) : permEmb(rng, s, 20); if (v == 0) e = identityEmb();
            const Frame f = frameOf(e, {0,0,0}, {1,0,0}, {0, t[0].d()/h, t[1].d()/h});
            std::ostringstream w; w << (general ? "rotated box" : "box") << " scale " << s << ", "; const std::string W = w.str();
            A3 lo, hi; for (int i = 0; i < 3; ++i) { lo[i] = rat(c["box"][i][0]); hi[i] = rat(c["box"][i][1]); }
            const double k = c["ent"]["kind"].S() == "disk" ? c["ent"]["k"][0].d()/c["ent"]["k"][1].d() : 1.0;
            auto all = [&] (const auto& dom) { entityIn(c, f, dom, W, rng, k); segIn(c, f, [&] (const Seg3& g) { return computeContainedMagnitude(g, dom); }, W);
                if (c["pts"].size() && v < 2) { // arcs of the rim
                    const int n = int(c["pts"].size()); const double a = e.s*c["ent"]["u"][0].d(), b = a*k; const int i = rng.n(n), j = (i + 1 + rng.n(n - 1)) % n; double want = 0;
                    auto pos = [&] (int q) { return pt(f.at(c["pts"][q][0].d(), k*c["pts"][q][1].d())); }; auto ang = [&] (int q) { return angleOf(c["pts"][q][0].d(), c["pts"][q][1].d()); };
                    for (int q = i; q != j; q = (q + 1) % n) if (c["rim"][q].B()) want += spanArc(a, b, ang(q), ang((q + 1) % n));
                    const Ellipse<double,3> ell(pt(f.at(0,0)), dir(f.d(1,0)), dir(f.d(0,1)), a, b);
                    const bool seam = (n - i) % n > 0 && (n - i) % n < (j - i + n) % n && c["rim"][n-1].B() != c["rim"][0].B();
                    near(computeContainedMagnitude(EllipseArc<double,3>(ell, pos(i), pos(j)), dom), want, a, W + (seam ? "EllipseArc cut at its zero angle" : "EllipseArc"), 2e-6); } };
            if (!general) { const A3 p = e.at(lo), q = e.at(hi); all(Box<double>(std::min(p[0],q[0]), std::min(p[1],q[1]), std::min(p[2],q[2]), std::max(p[0],q[0]), std::max(p[1],q[1]), std::max(p[2],q[2]))); }
            else { const A3 o = e.at(lo); const A3 z = e.d({0,0,1}), x = e.d({1,0,0}); gp_Ax2 ax(gp_Pnt(o[0],o[1],o[2]), gp_Dir(z[0],z[1],z[2]), gp_Dir(x[0],x[1],x[2])); const double s = e.s;
                TopoDS_Solid solid = TopoDS::Solid(BRepPrimAPI_MakeBox(ax, s*(hi[0]-lo[0]), s*(hi[1]-lo[1]), s*(hi[2]-lo[2])).Shape()); all(solid);
#ifndef PY
                if (c["band"].size()) { // the box without a band
                    const double x0 = rat(c["band"][0]), x1 = rat(c["band"][1]); const A3 ob = e.at({x0, lo[1] - 1, lo[2] - 1}); gp_Ax2 bx(gp_Pnt(ob[0],ob[1],ob[2]), gp_Dir(z[0],z[1],z[2]), gp_Dir(x[0],x[1],x[2]));
                    const TopoDS_Shape bandShape = BRepPrimAPI_MakeBox(bx, s*(x1-x0), s*(hi[1]-lo[1]+2), s*(hi[2]-lo[2]+2)).Shape();
                    TopoDS_Compound two; BRep_Builder twoB; twoB.MakeCompound(two); const auto parts = OCCUtilities::getSolids(OCCUtilities::cut(solid, bandShape, 1e-7*s)); for (const auto& q : parts) twoB.Add(two, q); require(parts.size() == 2, W, "box without a band has not two parts");
                    entityIn(c, f, two, W + "without a band, ", rng, k, true); segIn(c, f, [&] (const Seg3& g) { return computeContainedMagnitude(g, two); }, W + "without a band, ", true); }
#endif
            }
        } else if (D == "cyl") {
            const Emb e = v == 0 ? identityEmb() : rotEmb(rng, s, 20, rng.n(2)); const double R = s*c["R"].d(), H = s*c["H"].d();
            const Cylinder<double> cy(Circle<double,3>(e.p(0,0,0), dir(e.d({0,0,1})), R), H); std::ostringstream w; w << "cylinder, kind " << c["kind"].i() << " scale " << e.s << ", ";
            const double Hl = c["H"].d(), z = c["kind"].i() == 0 ? Hl*c["z"][0].d()/c["z"][1].d() : c["beyond"].i() ? -0.5*Hl : 1.25*Hl;
            const double phi = rng.u(0, 2*M_PI), C = std::cos(phi), S = std::sin(phi);
            const double s0 = e.s; const Cylinder<double> cyl(Circle<double,3>(e.p(0,0,0), dir(e.d({0,0,1})), s0*c["R"].d()), s0*Hl);
            const Frame f = c["kind"].i() == 1 ? frameOf(e, {c["d"].d()*C, c["d"].d()*S, 0}, {-S, C, 0}, {0,0,1}) : frameOf(e, {0,0,z}, {C,S,0}, {-S,C,0});
            entityIn(c, f, cyl, w.str(), rng, 1.0); if (!c["skipSeg"].B()) segIn(c, f, [&] (const Seg3& g) { return computeContainedMagnitude(g, cyl); }, w.str());
        } else {
            const Emb e = v == 0 ? identityEmb() : rotEmb(rng, s, 20, rng.n(2)); const Sphere<double> sp(e.p(0,0,0), e.s*c["R"].d()); std::ostringstream w; w << "sphere scale " << e.s << ", ";
            const Frame f = frameOf(e, {0,0,c["d"].d()}, {1,0,0}, {0,1,0}); entityIn(c, f, sp, w.str(), rng, 1.0);
        } }
}
int main(int argc, char** argv) { const int variants = argc > 2 ? atoi(argv[2]) : 2; return caseLoop(argc, argv, [&] (int idx, const J& c) { run(idx, c, variants); }); }
