// P17: replays histories of the specification Builder.tla into the network builders.
#include "netcmp.hh"
// lattice of an epoch: unit 10^sc, the steps 22-24 and 26-28 in the third direction are as wide as the gaps of the probes
static Grid grid(int sc, Rng& rng, bool plain) { const double u = std::pow(10.0, sc); Emb e = plain ? identityEmb() : rotEmb(rng, u, 10, rng.n(2)); e.s = u; Grid g = mkGrid(e, rng, true); g.e.s = u; auto& z = g.pos[2]; auto narrow = [&] (int k, double gap) { const double d = z[k+1] - z[k] - gap; for (std::size_t i = k + 1; i < z.size(); ++i) z[i] -= d; }; narrow(11 + 6, std::pow(10.0, -4.5)); narrow(13 + 6, 1e-8); return g; }
template<class Bd> struct Replay {
    static constexpr bool contained = std::is_same_v<Bd, ContainedEntityNetworkBuilder<double>>;
    const J& c; Rng& rng; Bd b; Grid g; const J* last = nullptr; std::string at; int idx;
    void compare(const typename Bd::EntityNetwork& n, const J& res, const std::string& what) { if (res.has("undefined")) return; Scene S; S.c = &res; S.s = &res["scene"]; S.g = g; S.what = what; S.rel = 1e-4; S.fine = 2e-9; S.want = wanted(res, g);
        if constexpr (contained) checkContained(n, S); else checkPlain(n, S); }
    template<class F> void act(const J& o, const std::string& what, F&& f) { const bool refuse = o["r"].S() == "refused"; bool thrown = false; std::string msg; try { f(); } catch (const Deviation&) { throw; } catch (const std::exception& e) { thrown = true; msg = e.what(); } catch (const Standard_Failure& e) { thrown = true; msg = "OCC"; }
        if (thrown && !refuse) deviate(what, ": refused (", msg, ")"); if (!thrown && refuse) deviate(what, ": not refused"); }
    void ent(const J& e, int id, bool refused) { const Sh s = shOf(e["shape"]); const int how = rng.n(3); withShape(g, s, rng, [&] (const auto& x) { using T = std::decay_t<decltype(x)>; std::vector<T> v{x};
        if constexpr (!contained) if (id == 0 || (refused && rng.n(2))) { if (how == 0) b.addEntities(v); else if (id == 0 && how == 1) b.addSubDomainEntity(x, Id(0)); else b.addEntity(x); return; }
        if (how == 0) b.addSubDomainEntities(v, Id(id)); else b.addSubDomainEntity(x, Id(id)); }); }
    void dom(const J& d) { withShape(g, shOf(d["box"]), rng, [&] (const auto& x) { if (d["conf"].B()) b.addConfiningSubDomain(x, Id(d["id"].i())); else b.addSubDomain(x, Id(d["id"].i())); }); }
    void run() { g = grid(c["sc"].i(), rng, idx % 3 == 0); int k = 0, sc = c["sc"].i();
        for (const auto& o : c["hist"]) { const std::string op = o["op"].S(); std::ostringstream w; w << "step " << ++k << " (" << op << ")"; at = w.str();
            if (op == "ent") act(o, at, [&] { ent(o["e"], o["e"]["id"].i(), o["r"].S() == "refused"); });
            else if (op == "ents") act(o, at, [&] { for (const auto& e : o["es"]) ent(e, e["id"].i(), false); });
            else if (op == "dom") act(o, at, [&] { dom(o["d"]); });
            else if (op == "build") { act(o, at, [&] { const auto& n = b.build(); if (o["r"].S() == "refused") return; last = &o["res"]; if (!b.isBuilt()) deviate(at, ": not built afterwards"); if (&b.network() != &n) deviate(at, ": network() is another network"); compare(n, *last, at); }); if (o["r"].S() == "refused") last = nullptr; }
            else if (op == "network") act(o, at, [&] { const auto& n = b.network(); if (last) compare(n, *last, at); });
            else if (op == "built") { if (b.isBuilt() != o["r"].B()) deviate(at, ": isBuilt() is ", b.isBuilt()); }
            else if (op == "union") b.setConfineToSubDomainUnion(o["v"].B());
            else if (op == "eps") b.setEpsilon(std::pow(10.0, 0.1*o["l"].i()));
            else if (op == "defeps") b.setDefaultEpsilon();
            else if (op == "clear") { b.clear(); last = nullptr; sc = o["sc"].i(); g = grid(sc, rng, rng.n(3) == 0); }
            else if (op == "nothing") { b.addSubDomainEntities(std::vector<Quad>(), Id(o["id"].i())); if constexpr (!contained) b.addEntities(std::vector<Seg3>()); }
            else deviate("unknown operation"); } } };
int main(int argc, char** argv) { return caseLoop(argc, argv, [&] (int idx, const J& c) { for (int v = 0; v < atoi(argv[2]); ++v) { Rng rng(envSeed()*167 + idx, v);
    if (c["contained"].B()) { Replay<ContainedEntityNetworkBuilder<double>> r{c, rng}; r.idx = idx + v; r.run(); } else { Replay<EntityNetworkBuilder<double>> r{c, rng}; r.idx = idx + v; r.run(); } } }); }
