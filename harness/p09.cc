#include <algorithm>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/geometry/ellipsearc.hh>
#include <frackit/geometry/dimension.hh>
#include <frackit/geometryutilities/getboundingbox.hh>
#include <frackit/intersection/intersectionangle.hh>
#include "dist.hh"
using Engine = IntersectionAngle<double>;
static const Engine angle{};
static void same(double got, double want, const std::string& what) { if (!(std::abs(got - want) <= 2e-6)) deviate(what, ": ", got, ", expected ", want); }
static A3 any(Rng& r, A3 n) { A3 t = std::abs(n[0]) < 0.7*norm(n) ? A3{1,0,0} : A3{0,1,0}; A3 u = cross(n, t); u = (1/norm(u))*u; A3 w = cross((1/norm(n))*n, u); const double a = r.u(0, 6.3); return std::cos(a)*u + std::sin(a)*w; }
// surfaces through p with unit normal n there (size s)
struct Tangent { Rng& r; A3 p, n; double s;
    A3 off(A3 u, A3 w) { return p + (0.3*s*r.u(-1,1))*u + (0.3*s*r.u(-1,1))*w; }
    Dsk disk() { const A3 u = any(r, n), w = cross(n, u); return Dsk(pt(off(u, w)), dir(u), dir((r.n(2) ? 1. : -1.)*w), 2*s, s); }
    std::vector<P3> c4() { const A3 u = any(r, n), w = cross(n, u), o = off(u, w); std::vector<P3> c{pt(o - s*u - s*w), pt(o + s*u - 1.2*s*w), pt(o + 1.5*s*u + s*w), pt(o - s*u + s*w)}; if (r.n(2)) std::reverse(c.begin(), c.end()); return c; }
    Quad quad() { auto c = c4(); return Quad(c[0], c[1], c[3], c[2]); }
    Poly poly() { return Poly(c4()); }
    CylinderSurface<double> cyl() { const A3 d = any(r, n); const double R = s*(0.5 + r.u(0, 2)), side = r.n(2) ? 1 : -1; const A3 o = p - (side*R)*n - (s*r.u(0.2, 1))*d; return CylinderSurface<double>(Circle<double,3>(pt(o), dir(d), R), 2*s); }
    Sphere<double> ball() { const double R = s*(0.5 + r.u(0, 2)); return Sphere<double>(pt(p - R*n), R); } };
using Surface = std::variant<Dsk, Quad, Poly, CylinderSurface<double>, TopoDS_Face>;
static const char* sname(const Surface& g) { static const char* n[] = {"Disk", "Quadrilateral", "Polygon", "CylinderSurface", "face"}; return n[g.index()]; }
static TopoDS_Face faceOfSurface(const Surface& g) { return std::visit([] (const auto& x) -> TopoDS_Face { return TopoDS::Face(OCCUtilities::getShape(x)); }, g); }
static Surface make(Tangent t, int k) { switch (k) { case 0: return t.disk(); case 1: return t.quad(); case 2: return t.poly(); case 3: return t.cyl();
    case 4: { const auto f = OCCUtilities::getFaces(OCCUtilities::getShape(t.ball())); return f[0]; } default: return faceOfSurface(make(t, t.r.n(4))); } }
template<class G> constexpr bool planar() { return IsPlanarGeometry<G>::value; }
static TopoDS_Edge edgeOf(const Seg3& s) { return OCCUtilities::getShape(s); }
static void dirs(int idx, const J& c, int variants) {
    for (int v = 0; v < variants; ++v) {
        Rng rng(envSeed()*91 + idx, v); const Emb e = makeEmb(v, rng); const double s = e.s; std::ostringstream w; w << "scale " << s << ", "; 
        const A3 n1 = (rng.n(2) ? 1/norm(v3(c["n"][0])) : -1/norm(v3(c["n"][0])))*e.d(v3(c["n"][0])), n2 = (rng.n(2) ? 1/norm(v3(c["n"][1])) : -1/norm(v3(c["n"][1])))*e.d(v3(c["n"][1])), p = e.at(0.3, 0.4, -0.2); const bool par = c["par"].B();
        double want = std::acos(std::min(1.0, c["dot"].d()/std::sqrt(c["a"].d()*c["b"].d()))); { const double cr = norm(cross(n1, n2)); if (want < 0.1) want = std::asin(cr); } const P3 P = pt(p);
        A3 line = cross(n1, n2); line = par ? any(rng, n1) : (1/norm(line))*line;
        const Plane3 p1(pt(p + (par ? 0.0 : s)*line), dir(n1)), p2(P, dir(n2)); const std::string W = w.str() + (par ? "parallel " : "") + "normals, ";
        same(angle(p1, p2), want, W + "Plane - Plane"); same(angle(p2, p1), want, W + "Plane - Plane"); same(angle(p1, p2, Line3(P, dir(line))), want, W + "Plane - Plane in a Line");
        for (int rep = 0; rep < 4; ++rep) {
            const Surface a = make({rng, p, n1, s}, rng.n(6)), b = make({rng, p, n2, s}, rng.n(6)); const std::string X = W + sname(a) + " - " + sname(b);
            const Seg3 seg(P, pt(p + (0.5*s)*line));
            std::visit([&] (const auto& x, const auto& y) { using A = std::decay_t<decltype(x)>; using B = std::decay_t<decltype(y)>; constexpr bool fa = std::is_same_v<A, TopoDS_Face>, fb = std::is_same_v<B, TopoDS_Face>, ca = std::is_same_v<A, CylinderSurface<double>>, cb = std::is_same_v<B, CylinderSurface<double>>;
                if constexpr (!(ca && cb) && !(ca && fb) && !(cb && fa)) {
                    same(angle(x, y, P), want, X + " in a Point"); same(angle(y, x, P), want, X + " in a Point, swapped");
                    std::vector<std::variant<P3, Seg3>> l{P}; same(angle(x, y, l), want, X + ", list of variants");
                    same(angle(x, y, std::variant<Seg3, P3>(P)), want, X + ", variant");
                    if constexpr (!fa && !fb && !ca && !cb) { same(angle(x, y, seg), want, X + " in a Segment"); same(angle(x, y, std::variant<Seg3, P3>(seg)), want, X + ", variant of a Segment"); }
                } }, a, b);
            // in an edge: two planar faces share the direction of the line
            if (!par) { const Surface q = make({rng, p, n1, s}, rng.n(3)), r = make({rng, p, n2, s}, rng.n(3)); const auto f = faceOfSurface(q), g = faceOfSurface(r); const auto E = edgeOf(seg);
                same(angle(f, g, E), want, W + "faces in an edge"); same(angle(g, f, E), want, W + "faces in an edge");
                std::visit([&] (const auto& x) { using A = std::decay_t<decltype(x)>; if constexpr (IsPlanarGeometry<A>::value) { same(angle(x, g, E), want, X + " planar geometry and face in an edge"); same(angle(g, x, E), want, X + " face and planar geometry in an edge");
                    same(angle(x, g, g), 0, X + " overlap in a face"); same(angle(g, x, g), 0, X + " overlap in a face");
                    std::vector<std::variant<P3, TopoDS_Edge, TopoDS_Face>> m{P, E}; same(angle(x, g, m), want, X + " list with an edge"); m.push_back(g); std::shuffle(m.begin(), m.end(), rng.g); same(angle(x, g, m), 0, X + " list with a face"); } }, q);
                same(angle(f, g, f), 0, W + "faces overlapping in a face"); }
        } } }
static void cyl(int idx, const J& c, int variants) {
    for (int v = 0; v < variants; ++v) {
        Rng rng(envSeed()*93 + idx, v); const Emb e = makeEmb(v, rng); const double s = e.s, R = 1; std::ostringstream w; w << "scale " << s << ", "; const std::string W = w.str();
        const A3 n = (1/norm(v3(c["n"])))*v3(c["n"]), np = (1/norm(v3(c["np"])))*v3(c["np"]); 
        auto q = [&] (int k) -> A3 { return {c["q"][k][0].d()/3125, c["q"][k][1].d()/3125, 0}; }; auto onPlane = [&] (A3 x) { x[2] = -(n[0]*x[0] + n[1]*x[1])/n[2]; return x; }; // the plane goes through the origin
        const double hi = std::hypot(n[0], n[1])/std::abs(n[2]) + 1; const bool up = rng.n(2); const CylinderSurface<double> cs(Circle<double,3>(e.p(0,0,up ? -hi : hi), dir(up ? e.d({0,0,1}) : e.d({0,0,-1})), R*s), 2*hi*s); const auto F = OCCUtilities::getShape(cs);
        auto ang = [&] (double num, double nn) { return std::acos(std::min(1.0, num/3125/std::sqrt(nn))); };
        const double nn = c["nn"].d(), npp = c["npp"].d(); const int k0 = rng.n(5);
        // points and segments
        { const P3 P = e.p(onPlane(q(k0))); const double want = ang(c["ang"][k0].d(), nn); Tangent t{rng, e.at(onPlane(q(k0))), e.d(n), s}; const auto d = t.disk(); const auto qd = t.quad(); const auto pl = t.poly();
          same(angle(d, cs, P), want, W + "Disk - CylinderSurface in a Point"); same(angle(cs, qd, P), want, W + "CylinderSurface - Quadrilateral in a Point"); same(angle(cs, pl, P), want, W + "CylinderSurface - Polygon in a Point");
          same(angle(d, F, P), want, W + "Disk - lateral face in a Point"); same(angle(F, qd, P), want, W + "lateral face - Quadrilateral in a Point"); same(angle(F, OCCUtilities::getShape(pl), P), want, W + "lateral face - face in a Point"); }
        { const A3 a = q(k0); const double want = ang(c["pang"][k0].d(), npp); const Seg3 sg(e.p(a[0], a[1], -0.6), e.p(a[0], a[1], 0.7)); Tangent t{rng, e.at(a), e.d(np), s}; const auto d = t.disk(); const auto qd = t.quad(); const auto pl = t.poly(); const auto E = edgeOf(sg);
          same(angle(d, cs, sg), want, W + "Disk - CylinderSurface in a Segment"); same(angle(cs, qd, sg), want, W + "CylinderSurface - Quadrilateral in a Segment"); same(angle(pl, cs, Seg3(sg.target(), sg.source())), want, W + "Polygon - CylinderSurface in a Segment");
          same(angle(d, F, E), want, W + "Disk - lateral face in an edge"); same(angle(F, OCCUtilities::getShape(qd), E), want, W + "lateral face - face in an edge");
          // several segments and points: the smallest angle
          double mx = 0; std::vector<std::variant<P3, Seg3>> l; std::vector<std::variant<P3, TopoDS_Edge>> m; for (int k = 0; k < 5; ++k) if (rng.n(2) || k == k0) { mx = std::max(mx, c["pang"][k].d()); const A3 b = q(k); if (rng.n(2)) { l.push_back(e.p(b)); m.push_back(e.p(b)); } else { const Seg3 sk(e.p(b[0], b[1], -0.5), e.p(b[0], b[1], 0.5)); l.push_back(sk); m.push_back(edgeOf(sk)); } }
          std::reverse(l.begin(), l.begin() + rng.n(int(l.size()) + 1)); same(angle(qd, cs, l), ang(mx, npp), W + "Quadrilateral - CylinderSurface, list of points and segments"); same(angle(cs, d, l), ang(mx, npp), W + "CylinderSurface - Disk, list of points and segments");
          same(angle(qd, F, m), ang(mx, npp), W + "Quadrilateral - lateral face, list"); same(angle(OCCUtilities::getShape(pl), F, m), ang(mx, npp), W + "face - lateral face, list"); }
        // arcs and ellipses
        { A3 maj = {n[0], n[1], 0}; if (norm(maj) < 1e-12) maj = {1,0,0}; maj = (1/norm(maj))*maj; A3 mi = {-maj[1], maj[0], 0}; const A3 M = onPlane(maj); const double a = norm(M)*R, f1 = rng.n(2) ? 1 : -1, f2 = rng.n(2) ? 1 : -1; const bool rev = f1*f2*dot(cross(e.r[0], e.r[1]), e.r[2]) < 0; (void)rev;
          const Ellipse<double,3> ell(e.p(0,0,0), dir(f1*e.d(M)), dir(f2*e.d(mi)), a*s, R*s);
          const double want = ang(c["arc"].d(), nn), full = std::acos(std::min(1.0, std::sqrt(c["ell2"].d()/nn))); Tangent t{rng, e.at(0,0,0), e.d(n), s}; const auto d = t.disk(); const auto qd = t.quad(); const auto pl = t.poly();
          same(angle(d, cs, ell), full, W + "Disk - CylinderSurface in an Ellipse"); same(angle(cs, pl, ell), full, W + "CylinderSurface - Polygon in an Ellipse");
          P3 p0 = e.p(onPlane(q(0))), p4 = e.p(onPlane(q(4))); const bool isFull = c["full"].B(); if (isFull) p4 = p0;
          // counterclockwise about the axis, or the other way round for an ellipse of the other sense
          if (f1*f2 < 0) std::swap(p0, p4); const EllipseArc<double,3> arc(ell, p0, p4);
          same(angle(d, cs, arc), want, W + "Disk - CylinderSurface in an EllipseArc"); same(angle(cs, qd, arc), want, W + "CylinderSurface - Quadrilateral in an EllipseArc");
          std::vector<std::variant<P3, EllipseArc<double,3>, Seg3>> l{arc, e.p(onPlane(q(2)))}; same(angle(pl, cs, l), want, W + "list with an EllipseArc");
          const auto E = OCCUtilities::getShape(arc); same(angle(d, F, E), want, W + "Disk - lateral face in an edge (arc)"); same(angle(F, pl, E), want, W + "lateral face - Polygon in an edge (arc)"); same(angle(OCCUtilities::getShape(qd), F, E), want, W + "face - lateral face in an edge (arc)"); }
    } }
int main(int argc, char** argv) { const int variants = atoi(argv[2]);
    return caseLoop(argc, argv, [&] (int idx, const J& c) { if (c.has("par")) dirs(idx, c, variants); else cyl(idx, c, variants); }); }
