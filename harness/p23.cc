#include "geo.hh"
#include <frackit/common/math.hh>
#include <frackit/geometry/circle.hh>
#include <frackit/geometry/ellipse.hh>
#include <frackit/geometry/ellipsearc.hh>
using namespace Frackit;
static A3 v3(const J& a) { return {a[0].d(), a[1].d(), a[2].d()}; }
static void near(A3 got, A3 want, double tol, const std::string& w) { if (!(norm(got - want) <= tol)) deviate(w, ": (", got[0], ", ", got[1], ", ", got[2], "), expected (", want[0], ", ", want[1], ", ", want[2], ")"); }
static void same(double got, double want, double tol, const std::string& w) { if (!(std::abs(got - want) <= tol)) deviate(w, ": ", got, ", expected ", want); }
template<int wd> struct Dim;
template<> struct Dim<1> { using P = Point<double,1>; using V = Vector<double,1>; static P p(A3 a) { return P(a[0]); } static V v(A3 a) { return V(a[0]); } static A3 a(const P& x) { return {x.x(),0,0}; } static A3 a(const V& x) { return {x.x(),0,0}; } };
template<> struct Dim<2> { using P = Point<double,2>; using V = Vector<double,2>; static P p(A3 a) { return P(a[0],a[1]); } static V v(A3 a) { return V(a[0],a[1]); } static A3 a(const P& x) { return {x.x(),x.y(),0}; } static A3 a(const V& x) { return {x.x(),x.y(),0}; } };
template<> struct Dim<3> { using P = Point<double,3>; using V = Vector<double,3>; static P p(A3 a) { return P(a[0],a[1],a[2]); } static V v(A3 a) { return V(a[0],a[1],a[2]); } static A3 a(const P& x) { return arr(x); } static A3 a(const V& x) { return arr(x); } };
static A3 cut(A3 a, int wd) { for (int i = wd; i < 3; ++i) a[i] = 0; return a; }
#ifdef PY
#include "py.hh"
// the same operation in Python; operations in place also change the object
template<class R, class A, class B> R py(const char* op, const A& a, const B& b, const std::string& w) { const pybind11::object o = pyx::in(a); const R r = pyx::out<R>(pyx::guard([&] { return o.attr(op)(pyx::in(b)); }));
    if constexpr (std::is_same_v<R, A>) { using D = Dim<A::worldDimension()>; const bool place = std::string(op).substr(0, 3) == "__i"; const A x = pyx::out<A>(o); near(D::a(x), D::a(place ? r : a), 0, w + (place ? ": another object is changed" : ": changes its operand")); } return r; }
template<int wd> void pyOp(const std::string& o, const typename Dim<wd>::P& p, const typename Dim<wd>::P& q, const typename Dim<wd>::V& v, const typename Dim<wd>::V& u, double k, double s, A3 want, const std::string& W) { using D = Dim<wd>; using P = typename D::P; using V = typename D::V; const double tol = 5e-9*s; const std::string w = W + " (Python)"; const std::string n = "_" + std::to_string(wd);
    if (o == "P+=V") near(D::a(py<P>("__iadd__", p, v, w)), want, tol, w); else if (o == "P-=V") near(D::a(py<P>("__isub__", p, v, w)), want, tol, w); else if (o == "P+V") near(D::a(py<P>("__add__", p, v, w)), want, tol, w); else if (o == "P-V") near(D::a(py<P>("__sub__", p, v, w)), want, tol, w);
    else if (o == "P*=") near(D::a(py<P>("__imul__", p, k, w)), want, tol, w); else if (o == "P/=") near(D::a(py<P>("__itruediv__", p, 2.0, w)), want, tol, w); else if (o == "V*=") near(D::a(py<V>("__imul__", v, k, w)), want, tol, w); else if (o == "V/=") near(D::a(py<V>("__itruediv__", v, 2.0, w)), want, tol, w);
    else if (o == "V+V") near(D::a(py<V>("__add__", v, u, w)), want, tol, w); else if (o == "V-V") near(D::a(py<V>("__sub__", v, u, w)), want, tol, w); else if (o == "V=PP") near(D::a(pyx::out<V>(pyx::make("geometry", ("Vector" + n).c_str(), p, q))), want, tol, w);
    else if (o == "dot") same(py<double>("__mul__", v, u, w), dot(D::a(v), D::a(u)), 1e-5*s*s, w); else if (o == "setP") { const A3 a = D::a(p); std::vector<double> l; for (int i = 0; i < wd; ++i) l.push_back(a[i]); near(D::a(pyx::out<P>(pyx::make("geometry", "Point", l))), a, 0, w); near(D::a(pyx::out<V>(pyx::make("geometry", "Vector", l))), a, 0, w);
        if constexpr (wd == 3) { near(D::a(pyx::out<P>(pyx::make("geometry", "Point", a[0], a[1], a[2]))), a, 0, w); near(D::a(pyx::out<V>(pyx::make("geometry", "Vector", a[0], a[1], a[2]))), a, 0, w); } if constexpr (wd == 2) { near(D::a(pyx::out<P>(pyx::make("geometry", "Point", a[0], a[1]))), a, 0, w); near(D::a(pyx::out<V>(pyx::make("geometry", "Vector", a[0], a[1]))), a, 0, w); } }
    else if (o == "eq") { require(pyx::out<bool>(pyx::call(pyx::in(p), "isEqual", q, 1e-6*s)) == p.isEqual(q, 1e-6*s), w); }
    if (norm(D::a(v)) > 0) { near(D::a(pyx::out<V>(pyx::make("geometry", "Vector", pyx::make("geometry", "Direction", v)))), (1/norm(D::a(v)))*D::a(v), 1e-12, w + ": Direction"); same(pyx::out<double>(pyx::call(pyx::in(v), "length")), norm(D::a(v)), 1e-10*s*1e3, w + ": length"); } }
inline void pyRotate(V3& v, const D3& d, double a) { const pybind11::object o = pyx::in(v); pyx::call("common", "rotate", o, d, a); v = pyx::out<V3>(o); }
inline void pyRotate(std::vector<V3>& l, const D3& d, double a) { for (auto& v : l) pyRotate(v, d, a); }
#define rotate pyRotate
#define toDegrees(x) pyx::out<double>(pyx::call("common", "toDegrees", x))
#define toRadians(x) pyx::out<double>(pyx::call("common", "toRadians", x))
#endif
// scaling all vectors and points by s must scale every answer accordingly
template<int wd> void hist(const J& c, double s) {
    using D = Dim<wd>; typename D::P P[4]; typename D::V V[4]; const double tol = 1e-11*s;
    for (int i = 1; i <= 3; ++i) { P[i] = D::p(s*A3{double(i),0,-double(i)}); V[i] = D::v(s*A3{1,double(i-2),2}); }
    int n = 0;
    for (const auto& e : c["hist"]) {
        const std::string o = e["op"].S(); const int i = e["i"].i(), j = e["j"].i(), l = e["l"].i(); const double k = e["c"].d();
        const std::string W = "step " + std::to_string(n++) + " " + o + " in " + std::to_string(wd) + "d";
        auto want = [&] { return s*cut(v3(e["r"]), wd); };
#ifdef PY
        pyOp<wd>(o, P[i], P[l], V[j], V[l], k, s, o[0] == 'P' || o[0] == 'V' ? want() : A3{}, W);
#endif
        if (o == "P+=V") { auto& r = (P[i] += V[j]); require(&r == &P[i], W); near(D::a(P[i]), want(), tol*500, W); }
        else if (o == "P-=V") { P[i] -= V[j]; near(D::a(P[i]), want(), tol*500, W); }
        else if (o == "P+V") { auto before = D::a(P[i]); near(D::a(P[i] + V[j]), want(), tol*500, W); near(D::a(P[i]), before, 0, W + " changed its operand"); }
        else if (o == "P-V") { near(D::a(P[i] - V[j]), want(), tol*500, W); }
        else if (o == "P*=") { P[i] *= k; near(D::a(P[i]), want(), tol*500, W); }
        else if (o == "P/=") { P[i] /= 2.0; near(D::a(P[i]), want(), tol*500, W); }
        else if (o == "V*=") { V[j] *= k; near(D::a(V[j]), want(), tol*500, W); }
        else if (o == "V/=") { V[j] /= 2; near(D::a(V[j]), want(), tol*500, W); }
        else if (o == "V+V") { V[j] = V[j] + V[l]; near(D::a(V[j]), want(), tol*500, W); }
        else if (o == "V-V") { V[j] = V[j] - V[l]; near(D::a(V[j]), want(), tol*500, W); }
        else if (o == "V=PP") { V[j] = typename D::V(P[i], P[l]); near(D::a(V[j]), want(), tol*500, W); }
        else if (o == "V=P+") { V[j] = typename D::V(P[l], P[i] + V[l]); near(D::a(V[j]), want(), tol*500, W); }
        else if (o == "setP") { P[i] = D::p(s*v3(e["r"])); } else if (o == "setV") { V[j] = D::v(s*v3(e["r"])); }
        else if (o == "state") near(D::a(P[i]), want(), tol*500, W);
        else if (o == "eq") { const bool q = norm(D::a(P[i]) - D::a(P[l])) < 1e-9*s; if (wd == 3) require(q == (e["r"][0].i() == 1), W, " state differs");
            require(P[i].isEqual(P[l], 1e-6*s) == q && P[l].isEqual(P[i], 1e-6*s) == q, W, ": isEqual(eps)"); if (s >= 0.01) require(P[i].isEqual(P[l]) == q, W, ": isEqual");
            auto x = D::a(P[l]); x[0] += 0.5e-6*s; auto y = D::a(P[l]); y[0] -= 2e-6*s; require(P[l].isEqual(D::p(x), 1e-6*s) && !P[l].isEqual(D::p(y), 1e-6*s), W, ": tolerance of isEqual"); }
        if (wd == 3) {
            if (o == "dot") same(V[j]*V[l], s*s*e["r"][0].d(), 1e-9*s*s*1e4, W);
            if constexpr (wd == 3) {
                if (o == "cross") { near(arr(crossProduct(V[j], V[l])), s*s*v3(e["r"]), 1e-9*s*s*1e4, W); }
                if (o == "box") { same(boxProduct(V[j], V[l], V[i]), s*s*s*e["r"][0].d(), 1e-9*s*s*s*1e4, W); if (e["r"][0].d() != 0) require(isRightHandSystem(V[j], V[l], V[i]) == (e["r"][0].d() > 0), W, ": isRightHandSystem"); } } }
        else if (o == "dot") same(V[j]*V[l], dot(D::a(V[j]), D::a(V[l])), 1e-9*s*s*1e4, W);
        same(V[j].squaredLength(), dot(D::a(V[j]), D::a(V[j])), 1e-9*s*s*1e4, "squaredLength"); same(V[j].length(), norm(D::a(V[j])), 1e-10*s*1e3, "length");
        const A3 a = D::a(V[j]);
        if (norm(a) > 0) { Direction<double,wd> d(V[j]); const A3 u = D::a(typename D::V(d)); near(u, (1/norm(a))*a, 1e-12, "Direction"); near(D::a(d*2.5), (2.5/norm(a))*a, 1e-11, "Direction*scalar"); d.invert(); near(D::a(typename D::V(d)), (-1/norm(a))*a, 1e-12, "Direction::invert");
            if constexpr (wd == 3) { const A3 m = arr(makeOrthogonalVector(V[j])); require(norm(m) > 0 && std::abs(dot(m, a)) <= 1e-9*norm(a)*norm(m), "makeOrthogonalVector not orthogonal or zero"); } }
    }
}
static void run(int idx, const J& c) {
    Rng rng(envSeed()*191 + idx, 0); const double s = scaleOf(rng.n(7));
    if (c.has("hist")) { hist<3>(c, s); hist<2>(c, s); hist<1>(c, s); hist<3>(c, 1.0); return; }
    const Emb e = makeEmb(idx % 4 == 1 ? 1 : (idx % 4 ? 2 : 0), rng);
    if (c.has("cs")) {
        const A3 ax = v3(c["axis"]); const D3 d(vec(c["stretch"].d()*ax)); const double ang = std::atan2(c["cs"][1].d(), c["cs"][0].d()) + 2*M_PI*c["turns"].d();
        std::vector<V3> list; const double D = c["d"].d();
        for (int i = 0; i < 4; ++i) { V3 v(vec(s*v3(c["vs"][i]))); list.push_back(v); rotate(v, d, ang); near(arr(v), (s/D)*v3(c["rs"][i]), 1e-10*s*20, "rotate(vector)");
            rotate(v, d, -ang); near(arr(v), s*v3(c["vs"][i]), 1e-10*s*20, "rotate back"); }
        rotate(list, d, ang); for (int i = 0; i < 4; ++i) near(arr(list[i]), (s/D)*v3(c["rs"][i]), 1e-10*s*20, "rotate(list of vectors)");
        same(toDegrees(ang), ang/M_PI*180, 1e-10, "toDegrees"); same(toRadians(toDegrees(ang)), ang, 1e-12, "toRadians"); same(toRadians(90.0*c["turns"].d()), M_PI/2*c["turns"].d(), 1e-12, "toRadians");
    } else if (c.has("pv")) {
        const A3 v = s*v3(c["pv"]), w = s*v3(c["pw"]), u = s*v3(c["u"]); const bool par = c["par"].B();
        // also after a common rotation, where scalar products carry round-off
        const A3 rv = e.d(v), rw = e.d(w);
        require(vec(v).isParallel(vec(w)) == par, par ? (c["dot"].i() < 0 ? "isParallel misses opposite vectors" : "isParallel misses parallel vectors") : "isParallel accepts vectors that are not parallel");
        require(vec(rv).isParallel(vec(rw), 1e-6) == par && vec(rw).isParallel(vec(rv), 1e-6) == par, par ? (c["dot"].i() < 0 ? "isParallel misses opposite vectors (rotated)" : "isParallel misses parallel vectors (rotated)") : "isParallel accepts vectors that are not parallel (rotated)");
        require(Vector<double,1>(s).isParallel(Vector<double,1>(-s)), "isParallel in 1d");
        if (c["nz2"].B()) { Vector<double,2> a(v[0], v[1]), b(w[0], w[1]); require(a.isParallel(b) == c["par2"].B(), c["par2"].B() ? "isParallel misses parallel vectors in 2d" : "isParallel accepts non-parallel vectors in 2d"); same(crossProduct(a, b), s*s*c["crs2"].d(), 1e-9*s*s, "crossProduct in 2d"); }
        if (c["box"].i() != 0) require(isRightHandSystem(vec(v), vec(w), vec(u)) == (c["box"].i() > 0), "isRightHandSystem");
    } else if (c.has("onLine")) {
        const double dd = c["dd"].d(), tol = 1e-9*e.s*30; const P3 p = e.p(v3(c["p"])), q = e.p(v3(c["q"])); const D3 d = dir(e.d(v3(c["dir"])));
        Line3 l(e.p(v3(c["o"])), d); near(arr(l.projection(p)), e.at((1/dd)*v3(c["onLine"])), tol, "Line::projection");
        Plane3 pl(e.p(v3(c["o"])), d); const A3 a = e.at((1/dd)*v3(c["onPlane"])), b = e.at((1/dd)*v3(c["onPlaneQ"]));
        near(arr(pl.projection(p)), a, tol, "Plane::projection(point)");
        require(std::abs(dot(arr(pl.base1()), arr(pl.normal()))) < 1e-12 && std::abs(dot(arr(pl.base2()), arr(pl.normal()))) < 1e-12 && std::abs(dot(arr(pl.base1()), arr(pl.base2()))) < 1e-12, "Plane basis not orthogonal");
        near(cross(arr(pl.base1()), arr(pl.base2())), arr(pl.normal()), 1e-9, "Plane basis not right-handed");
        if (v3(c["p"]) != v3(c["q"]) ) { Seg3 sg = pl.projection(Seg3(p, q)); near(arr(sg.source()), a, tol, "Plane::projection(segment) source"); near(arr(sg.target()), b, tol, "Plane::projection(segment) target");
            if (!c["par"].B()) { Line3 L = pl.projection(Line3(p, dir(arr(q) - arr(p)))); 
                for (const P3& x : {pt(a), pt(b)}) require(norm(cross(arr(x) - arr(L.supportingPoint()), arr(L.direction()))) < 1e-7*e.s, "Plane::projection(line) misses the projected points");
                require(dot(arr(L.direction()), b - a) > 0, "Plane::projection(line) runs backwards"); } }
    } else {
        const int i = c["i"].i() - 1, j = c["j"].i() - 1; const double a = c["a"].d()*e.s, k = c["kn"].d()/5; const A3 m = e.at(v3(c["m"]));
        const A3 ex = e.d({1,0,0}), ey = e.d({0,1,0}); const Ellipse<double,3> ell(pt(m), dir(ex), dir(ey), a, k*a); const double tol = 1e-8*a;
        auto pos = [&] (int n) { const J& q = c["pos"][n]; return m + a*q[0].d()/65*ex + k*a*q[1].d()/65*ey; };
        auto ang = [&] (int n) { const J& q = c["pos"][n]; double t = std::atan2(q[1].d(), q[0].d()); return n == 0 ? 0.0 : (t <= 0 ? t + 2*M_PI : t); };
        for (int n = 0; n < 36; ++n) {
            near(arr(ell.getPointFromAngle(ang(n))), pos(n), tol, "Ellipse::getPointFromAngle"); near(arr(ell.getPoint(ang(n)/(2*M_PI))), pos(n), tol, "Ellipse::getPoint");
            const double g = ell.getAngle(pt(pos(n))), h = ell.getParam(pt(pos(n)), n % 2); const double dg = std::abs(g - ang(n)), dh = std::abs(h*2*M_PI - ang(n));
            require(std::min(dg, std::abs(dg - 2*M_PI)) < 1e-6 && g >= 0 && g <= 2*M_PI, "Ellipse::getAngle: ", g, ", expected ", ang(n)); require(std::min(dh, std::abs(dh - 2*M_PI)) < 1e-6, "Ellipse::getParam: ", h);
            const Dsk dk(pt(m), dir(ex), dir(ey), a, k*a); near(arr(dk.getPoint(ang(n)/(2*M_PI), 0.25*(n % 5))), m + 0.25*(n % 5)*(pos(n) - m), tol, "Disk::getPoint"); }
        require(throws([&] { ell.getAngle(pt(m)); }) && throws([&] { ell.getAngle(pt(m + 1.1*(pos(i) - m))); }), "Ellipse::getAngle answers for a point off the ellipse");
        const EllipseArc<double,3> arc(ell, pt(pos(i)), pt(pos(j))); double span = ang(j) - ang(i); if (span <= 1e-9) span += 2*M_PI;
        require(dist(arc.source(), pt(pos(i))) < tol && dist(arc.target(), pt(pos(j))) < tol, "EllipseArc ends");
        const auto& run = c["run"]; for (std::size_t n = 0; n < run.size(); ++n) { const int q = run[n].i() - 1; double t = ang(q) - ang(i); if (t < -1e-9 || (n > 0 && t < 1e-9)) t += 2*M_PI;
            near(arr(arc.getPoint(std::min(1.0, t/span))), pos(q), tol, i == j ? "full EllipseArc::getPoint" : "EllipseArc::getPoint"); }
        // circles: base vectors span the plane, counterclockwise about the normal
        const Circle<double,3> ci(pt(m), dir(e.d({1,2,2})), a); const A3 b1 = arr(ci.base1()), b2 = arr(ci.base2());
        near(cross(b1, b2), arr(ci.normal()), 1e-9, "Circle basis"); near(arr(ci.normal()), e.d({1./3,2./3,2./3}), 1e-9, "Circle normal");
        for (int n = 0; n < 36; n += 5) { const J& q = c["pos"][n]; const A3 w = m + a*q[0].d()/65*b1 + a*q[1].d()/65*b2; near(arr(ci.getPointFromAngle(ang(n))), w, tol, "Circle::getPointFromAngle"); near(arr(ci.getPoint(ang(n)/(2*M_PI))), w, tol, "Circle::getPoint"); }
        const A3 sa = e.at(v3(c["s"])), sb = e.at(v3(c["s"]) + v3(c["t"])); Seg3 sg(pt(sa), pt(sb));
        for (int n = 0; n <= 8; ++n) near(arr(sg.getPoint(n/8.0)), sa + n/8.0*(sb - sa), 1e-9*e.s*10, "Segment::getPoint");
        near(arr(sg.center()), 0.5*(sa + sb), 1e-9*e.s*10, "Segment::center"); near(arr(sg.getReversed().source()), sb, 0, "Segment::getReversed"); near(arr(sg.direction()), (1/norm(sb-sa))*(sb-sa), 1e-9, "Segment::direction");
        same(sg.length(), norm(v3(c["t"]))*e.s, 1e-9*e.s*10, "Segment::length"); same(sg.squaredLength(), dot(v3(c["t"]), v3(c["t"]))*e.s*e.s, 1e-9*e.s*e.s*100, "Segment::squaredLength");
    }
}
int main(int argc, char** argv) { return caseLoop(argc, argv, [&] (int idx, const J& c) { run(idx, c); }); }
