// shapes of Distances.tla as geometries
#ifndef VERIF_DIST_HH
#define VERIF_DIST_HH
#include <BRepClass3d_SolidClassifier.hxx>
#include "geo.hh"
#include <variant>
#include <frackit/geometry/circle.hh>
#include <frackit/geometry/ellipse.hh>
#include <frackit/geometry/ellipsearc.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/occ/breputilities.hh>
#include <BRepPrimAPI_MakeBox.hxx>
#include <BRepExtrema_DistShapeShape.hxx>
using namespace Frackit;
using AnyGeo = std::variant<P3, Seg3, Poly, Quad, Box<double>, TopoDS_Solid, Dsk, Ellipse<double,3>, Circle<double,3>, EllipseArc<double,3>, Cylinder<double>, CylinderSurface<double>, Sphere<double>>;
static const char* kindName(const AnyGeo& g) { static const char* n[] = {"Point", "Segment", "Polygon", "Quadrilateral", "Box", "box-shaped solid", "Disk", "Ellipse", "Circle", "EllipseArc", "Cylinder", "CylinderSurface", "Sphere"}; return n[g.index()]; }
static A3 v3(const J& a) { return {a[0].d(), a[1].d(), a[2].d()}; }
static bool axisAligned(const Emb& e) { for (const auto& r : e.r) { int z = 0; for (double x : r) z += x == 0; if (z != 2) return false; } return true; }
// polytopes
static AnyGeo mkGeo(const J& S, const Emb& e, Rng& rng) {
    const std::string k = S["kind"].S();
    if (k == "point") return e.p(v3(S["c"][0]));
    if (k == "seg") { P3 a = e.p(v3(S["c"][0])), b = e.p(v3(S["c"][1])); if (rng.n(2)) std::swap(a, b); return Seg3(a, b); }
    if (k == "poly") { const int n = int(S["c"].size()), sh = rng.n(n); const bool rev = rng.n(2); std::vector<P3> c; for (int i = 0; i < n; ++i) c.push_back(e.p(v3(S["c"][((rev ? n - i : i) + sh) % n])));
        if (n == 4 && rng.n(2)) return Quad(c[0], c[1], c[3], c[2]); return Poly(c); }
    if (k == "box") { const A3 l = v3(S["c"][0]), z = v3(S["c"][1]);
        if (axisAligned(e)) { const A3 p = e.at(l), q = e.at(l + z); return Box<double>(std::min(p[0],q[0]), std::min(p[1],q[1]), std::min(p[2],q[2]), std::max(p[0],q[0]), std::max(p[1],q[1]), std::max(p[2],q[2])); }
        // a right-handed frame at the low or high x side
        const bool lefth = dot(cross(e.r[0], e.r[1]), e.r[2]) < 0; A3 o = e.at(l), x = e.d({1,0,0}), Z = e.d({0,0,1}); if (lefth) { o = e.at({l[0] + z[0], l[1], l[2]}); x = -1.0*x; }
        return TopoDS::Solid(BRepPrimAPI_MakeBox(gp_Ax2(gp_Pnt(o[0],o[1],o[2]), gp_Dir(Z[0],Z[1],Z[2]), gp_Dir(x[0],x[1],x[2])), e.s*z[0], e.s*z[1], e.s*z[2]).Shape()); }
    const double a = e.s*S["a"].d(), b = e.s*S["b"].d(); const A3 X = e.d({1,0,0}), Y = e.d({0,1,0}), Z = e.d({0,0,1}); const P3 o = e.p(0,0,0); const double s1 = rng.n(2) ? 1 : -1, s2 = rng.n(2) ? 1 : -1;
    if (k == "disk") return Dsk(o, dir(s1*X), dir(s2*Y), a, b);
    if (k == "ellipse" || k == "arc") return Ellipse<double,3>(o, dir(s1*X), dir(s2*Y), a, b);
    if (k == "circle") return Circle<double,3>(o, dir(s1*Z), a);
    if (k == "sphere") return Sphere<double>(o, a);
    // cylinders: base at z = 0, or upside down
    const bool up = rng.n(2); const Circle<double,3> base(up ? o : e.p(0,0,S["b"].d()), dir(up ? Z : -1.0*Z), a);
    if (k == "cyl") return Cylinder<double>(base, b);
    return CylinderSurface<double>(base, b); }
template<class G> TopoDS_Shape shapeOf(const G& g) { return OCCUtilities::getShape(g); }
static TopoDS_Shape shapeOf(const AnyGeo& g) { return std::visit([] (const auto& x) -> TopoDS_Shape { return OCCUtilities::getShape(x); }, g); }
static double sq(const J& a) { return std::sqrt(a[0].d()/a[1].d()); }
// Wrong extremum of the geometry kernel: the distance is overestimated by OCC itself, which contradicts its own distances of
// the known nearest points p of a and q of b (p on a, q on b, each as far from the other shape as expected). Noted; the case goes on.
static std::string kernelNote;
static bool kernelExtremum(const TopoDS_Shape& a, const TopoDS_Shape& b, const P3& p, const P3& q, double got, double want, double tol) {
    if (!(got > want)) return false;
    auto raw = [] (const TopoDS_Shape& x, const TopoDS_Shape& y) { BRepExtrema_DistShapeShape d(x, y, 1e-7); return d.IsDone() ? d.Value() : 1e300; };
    const double slack = 1e-3*std::abs(got - want); if (std::abs(raw(a, b) - got) > slack && std::abs(raw(b, a) - got) > slack) return false;
    const TopoDS_Shape P = OCCUtilities::getShape(p), Q = OCCUtilities::getShape(q);
    return raw(P, a) <= tol && raw(Q, b) <= tol && std::abs(raw(P, b) - want) <= tol && std::abs(raw(Q, a) - want) <= tol; }
static void nearK(double got, double want, double size, const TopoDS_Shape& a, const TopoDS_Shape& b, const P3& p, const P3& q, const std::string& what) {
    const double tol = 2e-6*size + 2.5e-7; if (std::abs(got - want) <= tol) return;
    std::ostringstream o; o.precision(12); o << what << ": " << got << ", expected " << want;
    if (kernelExtremum(a, b, p, q, got, want, tol)) { if (kernelNote.empty()) kernelNote = "wrong extremum of the geometry kernel: " + o.str(); return; }
    deviate(o.str()); }
static void kernelFlush() { if (!kernelNote.empty()) { const std::string s = kernelNote; kernelNote.clear(); deviate(s); } }
static void nearD(double got, double want, double size, const std::string& what) {
    if (!(std::abs(got - want) <= 2e-6*size + 2.5e-7)) deviate(what, ": ", got, ", expected ", want); }
#endif
