#include "json.hh"
#include <algorithm>
#include <memory>
#include <frackit/common/id.hh>
#include <frackit/common/idpair.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/entitynetwork/multigeometryentityset.hh>
#include <frackit/entitynetwork/constraints.hh>
#include <frackit/entitynetwork/constraintsmatrix.hh>
using namespace Frackit;
#ifdef PY
#include "py.hh"
struct PyCon { pyx::py::object o = pyx::make("entitynetwork", "EntityNetworkConstraints"); void setMinDistance(double d) { pyx::call(o, "setMinDistance", d); } };
struct PySets { pyx::py::dict d; template<class G> void addEntity(const G& g, Id i) { pyx::mod("geometry"); auto k = pyx::in(i); if (!d.contains(k)) d[k] = pyx::py::list(); pyx::py::list(pyx::py::reinterpret_borrow<pyx::py::list>(d[k])).append(pyx::in(g)); } };
struct PyMatrix { pyx::py::object o = pyx::make("entitynetwork", "EntityNetworkConstraintsMatrix"); static pyx::py::list l(const IdPair& p) { pyx::py::list r; r.append(pyx::in(p.first())); r.append(pyx::in(p.second())); return r; }
    void addConstraints(const PyCon& c, const IdPair& p) { pyx::call(o, "addConstraints", c.o, l(p)); } void addConstraints(const PyCon& c, std::initializer_list<IdPair> ps) { pyx::py::list r; for (const auto& p : ps) r.append(l(p)); pyx::call(o, "addConstraints", c.o, r); }
    template<class G> bool evaluate(const PySets& s, const G& g, Id i) { return pyx::out<bool>(pyx::call(o, "evaluate", s.d, g, i)); } };
#define CON PyCon()
#define MATRIX PyMatrix
#define SETS PySets
#else
#define CON makeDefaultConstraints<double>()
#define MATRIX EntityNetworkConstraintsMatrix<C>
#define SETS MultiGeometryEntitySet<Dsk, Quad, Poly>
#endif
using P = Point<double,3>; using V = Vector<double,3>; using D = Direction<double,3>;
using Quad = Quadrilateral<double,3>; using Poly = Polygon<double,3>; using Dsk = Disk<double>;
static Dsk mk(Dsk*, double h) { return Dsk(P(0,0,h), D(V(1,0,0)), D(V(0,1,0)), 1.0, 0.7); }
static Quad mk(Quad*, double h) { return Quad(P(-1,-1,h), P(1,-1,h), P(-1,1,h), P(1,1,h)); }
static Poly mk(Poly*, double h) { return Poly(std::vector<P>{P(-1,-1,h), P(1,-1,h), P(1.5,0,h), P(1,1,h), P(-1,1,h)}); }
static const std::size_t idmap[6] = {0, 1, 18446744073709551615ull, 7, 4294967296ull, 4294967303ull};
// (quadrilateral against polygon is not supported by the library, so only one of the two is used in a history)
static int polyMode = 0;
static int real(int t) { return t == 1 ? (polyMode ? 2 : 1) : 0; }
template<class F> auto onType(int t0, F&& f) { const int t = real(t0); return t == 0 ? f((Dsk*)0) : t == 1 ? f((Quad*)0) : f((Poly*)0); }
// the constraint token c requires a distance of c half units; a minimum distance of (c - 0.5)*s is never borderline
int main(int argc, char** argv) {
    return caseLoop(argc, argv, [&] (int idx, const J& c) {
        const double scales[3] = {1.0, 0.01, 37.0}; const double s = 0.5*scales[idx % 3];
        using C = EntityNetworkConstraints<double>; polyMode = idx % 2;
        MATRIX m; SETS sets; int step = 0;
        for (const auto& e : c["hist"]) {
            ++step; const auto op = e["op"].S();
            if (op == "constrain") {
                auto con = CON; con.setMinDistance((e["c"].i() - 0.5)*s);
                std::vector<IdPair> ps; for (const auto& p : e["pairs"]) ps.push_back(IdPair(Id(idmap[p[0].i()]), Id(idmap[p[1].i()])));
                bool refused = throws([&] {
                    if (ps.size() == 1) { if (step % 2) m.addConstraints(con, ps[0]); else m.addConstraints(con, {ps[0]}); }
                    else if (ps.size() == 2) m.addConstraints(con, {ps[0], ps[1]});
                    else m.addConstraints(con, {ps[0], ps[1], ps[2]}); });
                require(refused == (e["r"].S() == "refused"), "step ", step, ": addConstraints ", refused ? "refused" : "accepted");
            } else if (op == "entity") {
                const double h = e["h"].d()*s;
                onType(e["type"].i(), [&] (auto* p) { sets.addEntity(mk(p, h), Id(idmap[e["id"].i()])); return 0; });
            } else {
                const double h = e["h"].d()*s; const Id id(idmap[e["id"].i()]); const int t = e["type"].i();
                std::string got;
                try { bool r = (real(t) < 2 && step % 3 == 0)
                        ? onType(t, [&] (auto* p) { using G = std::decay_t<decltype(*p)>; std::shared_ptr<Geometry> g = std::make_shared<G>(mk(p, h)); return m.evaluate(sets, g, id); })
                        : onType(t, [&] (auto* p) { return m.evaluate(sets, mk(p, h), id); });
                      got = r ? "yes" : "no"; }
                catch (const std::exception& ex) { got = "refused"; if (e["r"].S() != "refused") deviate("step ", step, ": ", ex.what()); }
#ifdef PY
                if (e["r"].S() == "refused") { require(got != "no", "step ", step, ": a candidate without constraints is rejected"); continue; } // the Python matrix admits it
#endif
                require(got == e["r"].S(), "step ", step, ": evaluate(id ", e["id"].i(), ", height ", e["h"].i(), ") -> ", got, ", expected ", e["r"].S());
            }
        }
    });
}
