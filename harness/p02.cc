#include "json.hh"
#include <tuple>
#include <memory>
#include <frackit/common/id.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/geometry/box.hh>
#include <frackit/sampling/multigeometrysampler.hh>
#include <frackit/sampling/geometrysampler.hh>
#include <frackit/sampling/sequentialsamplingstrategy.hh>
using namespace Frackit;
using P = Point<double,3>; using V = Vector<double,3>; using D = Direction<double,3>;
using Quad = Quadrilateral<double,3>; using Poly = Polygon<double,3>; using Dsk = Disk<double>; using Bx = Box<double>;
// the geometry a sampler returns encodes which sampler made it and in which call
template<class G> G make(double s, double c);
template<> Dsk make<Dsk>(double s, double c) { return Dsk(P(s, c, 1.0), D(V(1,0,0)), D(V(0,1,0)), 2.0, 1.0); }
template<> Quad make<Quad>(double s, double c) { return Quad(P(s,c,1), P(s+1,c,1), P(s,c+1,1), P(s+1,c+1,1)); }
template<> Poly make<Poly>(double s, double c) { return Poly(std::vector<P>{P(s,c,1), P(s+1,c,1), P(s+1,c+1,1), P(s,c+1,1)}); }
template<> Bx make<Bx>(double s, double c) { return Bx(s, c, 1, s+1, c+1, 2); }
template<class G> struct Sampler : public GeometrySampler<G> {
    std::shared_ptr<int> calls; int tag;
    Sampler(std::shared_ptr<int> c, int t) : calls(c), tag(t) {}
    G operator()() override { ++*calls; return make<G>(tag, *calls); }
};
static std::pair<double,double> tagOf(const std::shared_ptr<Geometry>& g, int type) {
    P p;
    if (type == 0) { auto q = dynamic_cast<Dsk*>(g.get()); require(q, "sample is not a disk"); p = q->center(); }
    else if (type == 1) { auto q = dynamic_cast<Quad*>(g.get()); require(q, "sample is not a quadrilateral"); p = q->corner(0); }
    else if (type == 2) { auto q = dynamic_cast<Poly*>(g.get()); require(q, "sample is not a polygon"); p = q->corner(0); }
    else { auto q = dynamic_cast<Bx*>(g.get()); require(q, "sample is not a box"); p = P(q->xMin(), q->yMin(), 0); }
    return {p.x(), p.y()};
}
struct Reverse : public SamplingStrategy { std::size_t k = 0;
    Id getNextId() override { if (idList_.empty()) throw std::runtime_error("empty"); return idList_[idList_.size() - 1 - (k++ % idList_.size())]; } };
struct Sticky : public SamplingStrategy { std::size_t k = 0;
    Id getNextId() override { if (idList_.empty()) throw std::runtime_error("empty"); return idList_[(k++/2) % idList_.size()]; } };

int main(int argc, char** argv) {
    return caseLoop(argc, argv, [&] (int idx, const J& c) {
        using MS = MultiGeometrySampler<Dsk, Quad, Poly, Bx>;
        const auto st = c["strategy"].S();
        std::unique_ptr<MS> ms;
        if (st == "default") ms = std::make_unique<MS>();
        else if (st == "sequential") ms = std::make_unique<MS>(SequentialSamplingStrategy());
        else if (st == "reverse") { if (idx % 2) ms = std::make_unique<MS>(Reverse()); else { ms = std::make_unique<MS>(); ms->setSamplingStrategy(Reverse()); } }
        else ms = std::make_unique<MS>(Sticky());
        static const std::size_t idmap[7] = {0, 1, 18446744073709551615ull, 7, 4294967296ull, 12, 4294967297ull};
        std::vector<std::shared_ptr<int>> calls; int step = 0;
        for (const auto& e : c["hist"]) {
            ++step;
            if (e["op"].S() == "register") {
                auto cnt = std::make_shared<int>(0); const int tag = 100*(int(calls.size())+1);
                const Id id(idmap[e["id"].i()]); const int t = e["type"].i();
                bool refused = throws([&] {
                    if (t == 0) ms->addGeometrySampler(Sampler<Dsk>(cnt, tag), id);
                    else if (t == 1) ms->addGeometrySampler(Sampler<Quad>(cnt, tag), id);
                    else if (t == 2) ms->addGeometrySampler(Sampler<Poly>(cnt, tag), id);
                    else ms->addGeometrySampler(Sampler<Bx>(cnt, tag), id); });
                require(refused == (e["r"].S() == "refused"), "step ", step, ": registering id ", e["id"].i(), refused ? " refused" : " accepted");
                if (!refused) calls.push_back(cnt);
                require(*cnt == 0, "step ", step, ": sampler called on registration");
            } else {
                Id id(424242); std::shared_ptr<Geometry> g; bool refused = throws([&] { g = (*ms)(id); });
                require(refused == (e["r"].S() == "refused"), "step ", step, ": draw ", refused ? "refused" : "not refused");
                if (refused) continue;
                require(bool(g), "step ", step, ": null sample");
                require(id.get() == idmap[e["id"].i()], "step ", step, ": reported id ", id.get(), ", expected ", idmap[e["id"].i()]);
                auto t = tagOf(g, e["type"].i());
                require(t.first == 100*e["sampler"].i() && t.second == e["call"].i(), "step ", step, ": sample made by sampler ", t.first/100, " in call ", t.second,
                        ", expected sampler ", e["sampler"].i(), " in call ", e["call"].i());
            }
        }
        for (std::size_t k = 0; k < calls.size(); ++k)
            require(*calls[k] == c["calls"][k].i(), "end: sampler ", k+1, " was called ", *calls[k], " times, expected ", c["calls"][k].i());
    });
}
