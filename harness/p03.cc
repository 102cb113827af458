#include "json.hh"
#include <algorithm>
#include <memory>
#include <set>
#include <frackit/common/id.hh>
#include <frackit/geometry/geometry.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/geometry/segment.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/entitynetwork/multigeometryentityset.hh>
using namespace Frackit;
using P = Point<double,3>; using V = Vector<double,3>; using D = Direction<double,3>;
using Quad = Quadrilateral<double,3>; using Poly = Polygon<double,3>; using Dsk = Disk<double>; using Bx = Segment<double,3>;
static double real(int tag) { return tag*1.25 - 3; }
static Dsk mk(Dsk*, int t) { double s = real(t); return Dsk(P(s, 2, 1.0), D(V(0,1,0)), D(V(0,0,1)), 2.0 + t, 1.0 + 0.5*t); }
static Quad mk(Quad*, int t) { double s = real(t); return Quad(P(s,2,1), P(s+1,2,1), P(s,3,1+t), P(s+1,3,1+t)); }
static Poly mk(Poly*, int t) { double s = real(t); std::vector<P> c{P(s,2,1), P(s+1,2,1), P(s+2,3,1), P(s+1,4,1)}; if (t % 2) c.push_back(P(s,3,1)); return Poly(c); }
static Bx mk(Bx*, int t) { double s = real(t); return Bx(P(s, 2, 1), P(s+1+t, 3, 2+t)); }
// the entity must be unchanged: all defining data are compared
static bool same(const P& a, const P& b) { return a.x() == b.x() && a.y() == b.y() && a.z() == b.z(); }
static bool sameD(const D& a, const D& b) { return a.x() == b.x() && a.y() == b.y() && a.z() == b.z(); }
static bool eq(const Dsk& a, const Dsk& b) { return same(a.center(), b.center()) && a.majorAxisLength() == b.majorAxisLength() && a.minorAxisLength() == b.minorAxisLength() && sameD(a.majorAxis(), b.majorAxis()) && sameD(a.minorAxis(), b.minorAxis()); }
static bool eq(const Quad& a, const Quad& b) { for (int i = 0; i < 4; ++i) if (!same(a.corner(i), b.corner(i))) return false; return true; }
static bool eq(const Poly& a, const Poly& b) { if (a.numCorners() != b.numCorners()) return false; for (std::size_t i = 0; i < a.numCorners(); ++i) if (!same(a.corner(i), b.corner(i))) return false; return true; }
static bool eq(const Bx& a, const Bx& b) { return same(a.source(), b.source()) && same(a.target(), b.target()); }
static int typeOf(const Dsk&) { return 0; } static int typeOf(const Quad&) { return 1; } static int typeOf(const Poly&) { return 2; } static int typeOf(const Bx&) { return 3; }
// receives exports; every entity is logged with its type, and the sub-domain it was given for (-1: none)
struct Mock {
    struct E { int type; int pos; int sub; std::shared_ptr<Geometry> g; };
    std::vector<std::pair<std::pair<int,int>, std::shared_ptr<Geometry>>> got; // (type, sub), entity
    template<class G> void addEntity(const G& g) { got.push_back({{typeOf(g), -1}, std::make_shared<G>(g)}); }
    template<class C> void addEntities(const C& c) { for (const auto& g : c) addEntity(g); }
    template<class G> void addSubDomainEntity(const G& g, const Id& s) { got.push_back({{typeOf(g), int(s.get())}, std::make_shared<G>(g)}); }
    template<class C> void addSubDomainEntities(const C& c, const Id& s) { for (const auto& g : c) addSubDomainEntity(g, s); }
};
static bool isTag(const std::shared_ptr<Geometry>& g, int type, int tag) {
    switch (type) {
        case 0: { auto q = dynamic_cast<Dsk*>(g.get()); return q && eq(*q, mk((Dsk*)0, tag)); }
        case 1: { auto q = dynamic_cast<Quad*>(g.get()); return q && eq(*q, mk((Quad*)0, tag)); }
        case 2: { auto q = dynamic_cast<Poly*>(g.get()); return q && eq(*q, mk((Poly*)0, tag)); }
        default: { auto q = dynamic_cast<Bx*>(g.get()); return q && eq(*q, mk((Bx*)0, tag)); } } }
using MES = MultiGeometryEntitySet<Dsk, Quad, Poly, Bx>;
static const std::size_t idmap[7] = {0, 1, 18446744073709551615ull, 7, 4294967296ull, 12, 4294967303ull};
static void checkExport(const Mock& m, const J& sets, int sub, int step) {
    std::size_t total = 0; for (const auto& s : sets) total += s["tags"].size();
    require(m.got.size() == total, "step ", step, ": ", m.got.size(), " entities exported, expected ", total);
    for (const auto& s : sets) {
        std::size_t last = 0; bool first = true;
        for (const auto& t : s["tags"]) {
            int n = 0; std::size_t at = 0;
            for (std::size_t k = 0; k < m.got.size(); ++k)
                if (m.got[k].first.first == s["type"].i() && isTag(m.got[k].second, s["type"].i(), t.i()))
                { ++n; at = k; require(m.got[k].first.second == sub, "step ", step, ": exported for sub-domain ", m.got[k].first.second, ", expected ", sub); }
            require(n == 1, "step ", step, ": entity ", t.i(), " of set ", s["id"].i(), " exported ", n, " times");
            require(first || at > last, "step ", step, ": set ", s["id"].i(), " not exported in insertion order"); last = at; first = false; } } }
int main(int argc, char** argv) {
    return caseLoop(argc, argv, [&] (int idx, const J& c) {
        MES m; int step = 0;
        for (const auto& e : c["hist"]) {
            ++step; const auto op = e["op"].S();
            const Id id(e.has("id") ? idmap[e["id"].i()] : 0);
            if (op == "add") {
                const int t = e["type"].i(), tag = e["tag"].i(); const bool abs = e["how"].S() == "abstract";
                auto doit = [&] (auto* p) { auto g = mk(p, tag); using G = std::decay_t<decltype(g)>;
                    if (abs) { std::shared_ptr<Geometry> q = std::make_shared<G>(g); m.addEntity(q, id); } else m.addEntity(g, id); };
                bool refused = throws([&] { if (t == 0) doit((Dsk*)0); else if (t == 1) doit((Quad*)0); else if (t == 2) doit((Poly*)0); else doit((Bx*)0); });
                require(refused == (e["r"].S() == "refused"), "step ", step, ": adding type ", t, " under id ", e["id"].i(), refused ? " was refused" : " was accepted");
            } else if (op == "addForeign") {
                bool refused = throws([&] { std::shared_ptr<Geometry> q = std::make_shared<Cylinder<double>>(1.0, 2.0); m.addEntity(q, id); });
                require(refused, "step ", step, ": geometry of undeclared type accepted");
            } else if (op == "num") require(m.numEntities(id) == std::size_t(e["r"].i()), "step ", step, ": numEntities(", e["id"].i(), ") = ", m.numEntities(id), ", expected ", e["r"].i());
            else if (op == "total") require(m.numEntities() == std::size_t(e["r"].i()), "step ", step, ": numEntities() = ", m.numEntities(), ", expected ", e["r"].i());
            else if (op == "apply") {
                int n = 0; const auto& tags = e["tags"];
                bool r = m.applyOnSet(id, [&] (const auto& vec) { ++n;
                    using G = typename std::decay_t<decltype(vec)>::value_type;
                    require(typeOf(vec.empty() ? mk((G*)0, 1) : vec[0]) == e["type"].i(), "step ", step, ": function applied to a set of another type");
                    require(vec.size() == tags.size(), "step ", step, ": set has ", vec.size(), " entities, expected ", tags.size());
                    for (std::size_t k = 0; k < vec.size(); ++k) require(eq(vec[k], mk((G*)0, tags[k].i())), "step ", step, ": entity ", k, " of the set differs from the one added"); });
                require(r == (e["r"].S() == "ok") && n == (r ? 1 : 0), "step ", step, ": applyOnSet reached ", n, " sets and returned ", r);
            } else if (op == "exportAll") {
                Mock b; const int sub = e["sub"].i();
                if (sub < 0) m.exportEntitySets(b); else m.exportEntitySets(b, Id(sub));
                checkExport(b, e["sets"], sub, step);
            } else if (op == "exportSel") {
                Mock b; const Id sub(e["sub"].i()); std::vector<Id> s; for (const auto& x : e["sel"]) s.push_back(Id(idmap[x.i()]));
                switch (s.size()) {
                    case 0: { std::initializer_list<Id> l{}; m.exportEntitySets(l, b, sub); break; }
                    case 1: m.exportEntitySets({s[0]}, b, sub); break;
                    case 2: m.exportEntitySets({s[0], s[1]}, b, sub); break;
                    default: m.exportEntitySets({s[0], s[1], s[2]}, b, sub); }
                checkExport(b, e["sets"], e["sub"].i(), step);
            } else { std::cerr << "unknown op"; std::_Exit(3); }
        }
        for (std::size_t k = 0; k < c["ids"].size(); ++k)
            require(m.numEntities(Id(idmap[c["ids"][k].i()])) == std::size_t(c["nums"][k].i()), "end: wrong number of entities under id ", c["ids"][k].i());
        require(m.numEntities() == std::size_t(c["total"].i()), "end: total");
        Mock b; m.exportEntitySets(b); checkExport(b, c["sets"], -1, 9999);
    });
}
