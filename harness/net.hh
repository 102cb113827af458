// Scenes of module Networks: realisation, and comparison of built networks with the fragments of the specification.
#ifndef VERIF_NET_HH
#define VERIF_NET_HH
#include <algorithm>
#include <map>
#include <set>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/geometry/segment.hh>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/dimension.hh>
#include <frackit/common/id.hh>
#include <frackit/entitynetwork/networkbuilder.hh>
#include <frackit/occ/breputilities.hh>
#include <BRepPrimAPI_MakeBox.hxx>
#include <BRepExtrema_DistShapeShape.hxx>
#include <BRepBuilderAPI_MakeVertex.hxx>
#include <BRepClass3d_SolidClassifier.hxx>
#include <BRepAdaptor_Curve.hxx>
#include <BRepGProp.hxx>
#include <GProp_GProps.hxx>
#include <TopExp.hxx>
#include <TopTools_IndexedMapOfShape.hxx>
#include <TopoDS.hxx>
#include <Bnd_Box.hxx>
#include <BRepBndLib.hxx>
#include "json.hh"
#include "geo.hh"
using namespace Frackit;
#ifdef PY
#include <frackit/io/gmshwriter.hh>
#include "py.hh"
// the builders and the writer of the Python package
template<class N> struct PyBuilder { using EntityNetwork = N; pybind11::object o, net; PyBuilder(const char* n) : o(pyx::make("entitynetwork", n)) {}
    template<class E> void addSubDomainEntity(const E& e, Id i) { pyx::call(o, "addSubDomainEntity", e, i); } template<class E> void addSubDomainEntities(const std::vector<E>& e, Id i) { pyx::call(o, "addSubDomainEntities", e, i); }
    template<class D> void addSubDomain(const D& d, Id i) { pyx::call(o, "addSubDomain", d, i); } template<class D> void addConfiningSubDomain(const D& d, Id i) { pyx::call(o, "addConfiningSubDomain", d, i); }
    void setConfineToSubDomainUnion(bool b) { pyx::call(o, "setConfineToSubDomainUnion", b); } void setEpsilon(double e) { pyx::call(o, "setEpsilon", e); } void setDefaultEpsilon() { pyx::call(o, "setDefaultEpsilon"); } void clear() { pyx::call(o, "clear"); }
    const N& build() { net = pyx::call(o, "build"); return net.cast<const N&>(); } bool isBuilt() const { return true; } const N& network() { return net.cast<const N&>(); } };
template<class T> struct PyEntityNetworkBuilder : PyBuilder<EntityNetwork> { PyEntityNetworkBuilder() : PyBuilder<Frackit::EntityNetwork>("EntityNetworkBuilder") {} template<class E> void addEntity(const E& e) { pyx::call(this->o, "addEntity", e); } template<class E> void addEntities(const std::vector<E>& e) { pyx::call(this->o, "addEntities", e); } };
template<class T> struct PyContainedEntityNetworkBuilder : PyBuilder<ContainedEntityNetwork> { PyContainedEntityNetworkBuilder() : PyBuilder<Frackit::ContainedEntityNetwork>("ContainedEntityNetworkBuilder") {} };
struct PyGmshWriter { pybind11::object o; template<class N> PyGmshWriter(const N& n) : o((pyx::mod("io"), pyx::make("io", "GmshWriter", pybind11::object(pybind11::cast(&n))))) {} template<class... A> void write(const A&... a) { pyx::call(o, "write", a...); } };
#define EntityNetworkBuilder PyEntityNetworkBuilder
#define ContainedEntityNetworkBuilder PyContainedEntityNetworkBuilder
#define GmshWriter PyGmshWriter
#endif
// lattice planes at arbitrary positions; doubled coordinates -12..40
struct Grid { Emb e; std::array<std::vector<double>,3> pos; double size = 1, minStep = 1;
    double x(int i, double c) const { const double t = c/2 + 6; int k = std::max(0, std::min(int(pos[i].size()) - 2, int(std::floor(t)))); return pos[i][k] + (t - k)*(pos[i][k+1] - pos[i][k]); }
    A3 at(double a, double b, double c) const { return e.at(x(0,a), x(1,b), x(2,c)); } A3 at(A3 c) const { return at(c[0], c[1], c[2]); } };
inline Grid mkGrid(const Emb& e, Rng& rng, bool uniform) { Grid g; g.e = e; g.minStep = uniform ? 1 : 0.4; for (int i = 0; i < 3; ++i) { double p = -6; for (int k = 0; k < 27; ++k) { g.pos[i].push_back(p); p += uniform ? 1 : rng.u(0.4, 1.6); }
        const double z = g.pos[i][6]; for (double& q : g.pos[i]) q -= z; } g.size = 10*e.s; return g; }
using Cell = std::array<int,3>;
inline Cell cellOf(const J& j) { return {j[0].i(), j[1].i(), j[2].i()}; }
struct Sh { bool disk; Cell lo, hi; int r; int dim() const { int d = 0; for (int i = 0; i < 3; ++i) d += lo[i] < hi[i]; return d; } int normal() const { for (int i = 0; i < 3; ++i) if (lo[i] == hi[i]) return i; return -1; } A3 mid() const { return {0.5*(lo[0]+hi[0]), 0.5*(lo[1]+hi[1]), 0.5*(lo[2]+hi[2])}; } };
inline Sh shOf(const J& j) { return {j["kind"].S() == "disk", cellOf(j["lo"]), cellOf(j["hi"]), j["r"].i()}; }
inline P3 corner(const Grid& g, const Sh& s, int a, int b, bool A, bool B) { A3 c{double(s.lo[0]), double(s.lo[1]), double(s.lo[2])}; if (A) c[a] = s.hi[a]; if (B) c[b] = s.hi[b]; return pt(g.at(c)); }
// the part of the unit cell within the shape: a point of its interior and its measure
inline A3 inner(const Sh& s, const Cell& c) { A3 p{double(c[0]), double(c[1]), double(c[2])}; if (!s.disk) return p; const A3 m = s.mid(); A3 q = p; for (int i = 0; i < 3; ++i) if (c[i] % 2) q[i] = std::max(p[i] - 1, std::min(p[i] + 1, m[i]));
    for (double t : {1.0, 0.7, 0.5, 0.3, 0.2, 0.1, 0.05}) { A3 x = q + t*(p - q); if (norm(x - m) < s.r - 0.02) { bool in = true; for (int i = 0; i < 3; ++i) if (c[i] % 2) in &= std::abs(x[i] - p[i]) < 0.999; if (in) return x; } } return q + 0.02*(p - q); }
// sample points of the part of the cell within the shape (the kernel occasionally misjudges single points)
inline std::vector<A3> inners(const Sh& s, const Cell& c) { const A3 p = inner(s, c); std::vector<A3> r{p}; for (double t : {-0.013, 0.0171, -0.0093}) { A3 q = p; for (int i = 0; i < 3; ++i) if (c[i] % 2) q[i] += t*(i + 1.37); r.push_back(q); } return r; }
inline double measure(const Grid& g, const Sh& s, const Cell& c) { double v = 1; std::vector<int> ax; for (int i = 0; i < 3; ++i) if (c[i] % 2) { v *= (g.x(i, c[i]+1) - g.x(i, c[i]-1))*g.e.s; ax.push_back(i); } if (!s.disk) return v;
    const A3 m = s.mid(); double sum = 0; const int N = 400; for (int k = 0; k < N; ++k) { const double u = c[ax[0]] - 1 + 2*(k + 0.5)/N - m[ax[0]]; const double h = double(s.r)*s.r - u*u; if (h <= 0) continue; const double w = std::sqrt(h); const double lo = std::max(c[ax[1]] - 1 - m[ax[1]], -w), hi = std::min(c[ax[1]] + 1 - m[ax[1]], w); if (hi > lo) sum += (hi - lo)/2/N; } return v*sum; }
// ---- construction
template<class F> void withShape(const Grid& g, const Sh& s, Rng& rng, F&& f) { const int d = s.dim(); std::vector<int> ax; for (int i = 0; i < 3; ++i) if (s.lo[i] < s.hi[i]) ax.push_back(i);
    if (s.disk) { const double t = rng.u(0, 7); A3 u{0,0,0}, v{0,0,0}; u[ax[0]] = std::cos(t); u[ax[1]] = std::sin(t); v[ax[0]] = -std::sin(t); v[ax[1]] = std::cos(t); if (rng.n(2)) v = -1.0*v; const Dsk D(pt(g.at(s.mid())), dir(g.e.d(u)), dir(g.e.d(v)), 0.5*s.r*g.e.s, 0.5*s.r*g.e.s); if (rng.n(2)) f(D); else f(OCCUtilities::getShape(D)); }
    else if (d == 1) { const P3 a = corner(g, s, ax[0], ax[0], false, false), b = corner(g, s, ax[0], ax[0], true, true); const Seg3 S(rng.n(2) ? a : b, rng.n(2) ? a : b); const Seg3 T = rng.n(2) ? Seg3(a, b) : Seg3(b, a); if (rng.n(2)) f(T); else f(OCCUtilities::getShape(T)); }
    else if (d == 2) { const P3 a = corner(g, s, ax[0], ax[1], 0, 0), b = corner(g, s, ax[0], ax[1], 1, 0), c = corner(g, s, ax[0], ax[1], 0, 1), e = corner(g, s, ax[0], ax[1], 1, 1);
        switch (rng.n(3)) { case 0: f(rng.n(2) ? Quad(a, b, c, e) : Quad(c, a, e, b)); break; case 1: f(rng.n(2) ? Poly(std::vector<P3>{a, b, e, c}) : Poly(std::vector<P3>{e, b, a, c})); break; default: f(OCCUtilities::getShape(Quad(b, e, a, c))); } }
    else { const A3 p = g.at(s.lo[0], s.lo[1], s.lo[2]), q = g.at(s.hi[0], s.hi[1], s.hi[2]); const double l[3] = {(g.x(0,s.hi[0]) - g.x(0,s.lo[0]))*g.e.s, (g.x(1,s.hi[1]) - g.x(1,s.lo[1]))*g.e.s, (g.x(2,s.hi[2]) - g.x(2,s.lo[2]))*g.e.s};
        bool axis = true; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) axis &= std::abs(g.e.r[i][k]) == (i == k ? 1 : 0); if (axis && rng.n(2)) { f(Box<double>(p[0], p[1], p[2], q[0], q[1], q[2])); return; }
        A3 o = p; if (dot(cross(g.e.r[0], g.e.r[1]), g.e.r[2]) < 0) o = g.at(s.lo[0], s.hi[1], s.lo[2]);
        f(BRepPrimAPI_MakeBox(gp_Ax2(gp_Pnt(o[0], o[1], o[2]), gp_Dir(g.e.r[2][0], g.e.r[2][1], g.e.r[2][2]), gp_Dir(g.e.r[0][0], g.e.r[0][1], g.e.r[0][2])), l[0], l[1], l[2]).Solid()); } }
template<class Bd> void addDomain(Bd& b, const Grid& g, const J& d, Rng& rng) { withShape(g, shOf(d["box"]), rng, [&] (const auto& s) { using T = std::decay_t<decltype(s)>; if constexpr (!std::is_same_v<T, Seg3> && !std::is_same_v<T, TopoDS_Edge>) { if (d["conf"].B()) b.addConfiningSubDomain(s, Id(d["id"].i())); else b.addSubDomain(s, Id(d["id"].i())); } }); }
// twice the same face or edge, given to different networks
template<class Bd> bool addTwin(Bd& b, const Grid& g, const J& e, bool direct, Rng& rng, std::map<std::string, TopoDS_Shape>& twins) { const Sh s = shOf(e["shape"]); std::ostringstream o; for (int i = 0; i < 3; ++i) o << s.lo[i] << " " << s.hi[i] << " "; o << s.disk; auto it = twins.find(o.str());
    if (it == twins.end()) withShape(g, s, rng, [&] (const auto& x) { it = twins.insert({o.str(), OCCUtilities::getShape(x)}).first; });
    auto add = [&] (const auto& x) { if constexpr (std::is_same_v<Bd, EntityNetworkBuilder<double>>) if (direct) { b.addEntity(x); return; } b.addSubDomainEntity(x, Id(e["id"].i())); };
    if (s.dim() == 1) add(TopoDS::Edge(it->second)); else add(TopoDS::Face(it->second)); return true; }
template<class Bd> void addEnt(Bd& b, const Grid& g, const J& e, bool direct, Rng& rng) { withShape(g, shOf(e["shape"]), rng, [&] (const auto& s) { using T = std::decay_t<decltype(s)>; if constexpr (!std::is_same_v<T, Box<double>> && !std::is_same_v<T, TopoDS_Solid>) { const bool set = rng.n(4) == 0; std::vector<T> v{s};
    if constexpr (std::is_same_v<Bd, EntityNetworkBuilder<double>>) if (direct) { if (set) b.addEntities(v); else b.addEntity(s); return; } if (set) b.addSubDomainEntities(v, Id(e["id"].i())); else b.addSubDomainEntity(s, Id(e["id"].i())); } }); }
// ---- comparison
template<class On> bool anyOn(const Grid& g, const std::vector<A3>& ps, On&& on) { for (const auto& p : ps) if (on(g.at(p))) return true; return false; }
inline double measureOf(const TopoDS_Shape& s, int dim) { GProp_GProps p; if (dim == 1) BRepGProp::LinearProperties(s, p); else if (dim == 2) BRepGProp::SurfaceProperties(s, p); else BRepGProp::VolumeProperties(s, p); return p.Mass(); }
// the solid without faces embedded in it (which confuse the classification of points)
inline TopoDS_Shape hull(const TopoDS_Shape& s) { if (s.ShapeType() != TopAbs_SOLID) return s; BRep_Builder b; TopoDS_Solid r; b.MakeSolid(r); for (TopExp_Explorer x(s, TopAbs_SHELL); x.More(); x.Next()) { TopoDS_Shell sh; b.MakeShell(sh); bool any = false; for (TopExp_Explorer f(x.Current(), TopAbs_FACE); f.More(); f.Next()) if (f.Current().Orientation() == TopAbs_FORWARD || f.Current().Orientation() == TopAbs_REVERSED) { b.Add(sh, f.Current()); any = true; } if (any) b.Add(r, sh); } return r; }
inline bool onShape(const TopoDS_Shape& s, const A3& p, double tol) { Bnd_Box bb; BRepBndLib::Add(s, bb); bb.Enlarge(tol); if (bb.IsOut(gp_Pnt(p[0], p[1], p[2]))) return false;
    if (s.ShapeType() == TopAbs_SOLID) { BRepClass3d_SolidClassifier c(s, gp_Pnt(p[0], p[1], p[2]), tol); return c.State() != TopAbs_OUT; }
    BRepExtrema_DistShapeShape d(s, BRepBuilderAPI_MakeVertex(gp_Pnt(p[0], p[1], p[2])).Vertex()); return d.IsDone() && d.Value() <= tol; }
inline TopAbs_ShapeEnum typeOf(int dim) { return dim == 1 ? TopAbs_EDGE : dim == 2 ? TopAbs_FACE : TopAbs_SOLID; }
inline std::vector<TopoDS_Shape> listed(const TopTools_ListOfShape& l) { std::vector<TopoDS_Shape> r; for (const auto& s : l) r.push_back(s); return r; }
struct Want { std::vector<Cell> cells; std::set<int> own; Sh sh; double m = 0; };
inline std::vector<Want> wanted(const J& c, const Grid& g) { std::vector<Want> r; for (const auto& f : c["frags"]) { Want w; for (const auto& k : f["cells"]) w.cells.push_back(cellOf(k)); for (const auto& o : f["own"]) w.own.insert(o.i()); w.sh = shOf(c["scene"]["ents"][*w.own.begin() - 1]["shape"]); for (const auto& k : w.cells) w.m += measure(g, w.sh, k); r.push_back(w); } return r; }
struct Match { std::vector<int> of; }; // index of the wanted piece of every given shape
// every given shape is one of the wanted pieces, every wanted one is given exactly once
inline Match match(const std::vector<TopoDS_Shape>& got, const std::vector<const Want*>& want, const Grid& g, int dim, double rel, const std::string& what) {
    Match m; std::vector<int> n(want.size(), 0); const double tol = rel*g.minStep*g.e.s; double worst = 1e-4; 
    for (const auto& orig : got) { const TopoDS_Shape s = hull(orig); if (s.ShapeType() != typeOf(dim)) deviate(what, ": unexpected type of fragment ", int(s.ShapeType())); const double a = measureOf(s, dim); int at = -1;
        for (std::size_t k = 0; k < want.size(); ++k) if (anyOn(g, inners(want[k]->sh, want[k]->cells[0]), [&] (const A3& p) { return onShape(s, p, tol); })) { at = int(k); break; }
        if (at < 0) deviate(what, ": a fragment of measure ", a, " that is not part of the expected network");
        for (const auto& c : want[at]->cells) if (!anyOn(g, inners(want[at]->sh, c), [&] (const A3& p) { return onShape(s, p, tol); })) deviate(what, ": a fragment of measure ", a, " covers only a part of an expected fragment of measure ", want[at]->m);
        if (std::abs(a - want[at]->m) > (worst + 20*rel)*std::max(a, want[at]->m)) deviate(what, ": a fragment of measure ", a, " is expected to have the measure ", want[at]->m);
        if (n[at]++) deviate(what, ": a fragment of measure ", a, " is listed twice"); m.of.push_back(at); }
    for (std::size_t k = 0; k < want.size(); ++k) if (!n[k]) deviate(what, ": an expected fragment of measure ", want[k]->m, " is missing (", got.size(), " fragments, expected ", want.size(), ")");
    return m; }
// no two different edges (vertices) of the shapes coincide in parts
inline void conforming(const std::vector<TopoDS_Shape>& shapes, const Grid& g, double rel, const std::string& what) { TopTools_IndexedMapOfShape E, V; for (const auto& s : shapes) { TopExp::MapShapes(s, TopAbs_EDGE, E); TopExp::MapShapes(s, TopAbs_VERTEX, V); } const double tol = rel*g.minStep*g.e.s;
    for (int i = 1; i <= V.Extent(); ++i) for (int j = i + 1; j <= V.Extent(); ++j) if (dist(OCCUtilities::point(TopoDS::Vertex(V(i))), OCCUtilities::point(TopoDS::Vertex(V(j)))) < tol) deviate(what, ": fragments do not share a vertex");
    for (int i = 1; i <= E.Extent(); ++i) { const auto e = TopoDS::Edge(E(i)); if (BRep_Tool::Degenerated(e)) continue; BRepAdaptor_Curve c(e); const double a = c.FirstParameter(), b = c.LastParameter(); std::vector<A3> ps; for (int k = 0; k < 23; ++k) ps.push_back(arr(OCCUtilities::point(c.Value(a + (b-a)*(k + 0.5)/23))));
        for (int j = 1; j <= E.Extent(); ++j) if (j != i) { Bnd_Box bb; BRepBndLib::Add(E(j), bb); bb.Enlarge(tol); int hits = 0; for (const auto& p : ps) if (!bb.IsOut(gp_Pnt(p[0], p[1], p[2])) && onShape(E(j), p, tol)) ++hits; if (hits > 1) deviate(what, ": fragments do not share an edge along their common outline"); } } }
#endif
