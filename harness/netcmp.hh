// Comparison of built networks with the pieces predicted by the specification.
#ifndef VERIF_NETCMP_HH
#define VERIF_NETCMP_HH
#include "net.hh"
#include <functional>
struct Scene { const J* c; const J* s; Grid g; std::string what; double rel; std::vector<Want> want; std::function<void()> after; double giant = 0; /* one more, distant entity of this size */ double fine = 0; /* relative distance of different vertices (0: rel) */ double near() const { return fine > 0 ? fine : rel; } };
// numbers: fragments with one owner identify the number of that entity
inline void numbers(const TopTools_DataMapOfShapeInteger& map, const std::vector<TopoDS_Shape>& got, const std::vector<const Want*>& want, const Match& m, const J& ents, int id, bool exact, const std::string& what, int others = 0) {
    std::map<int,int> no; // entity -> number
    auto num = [&] (const TopoDS_Shape& f) { int n = 0; if (!map.Find(f, n)) deviate(what, ": a fragment without number"); return n; };
    for (int round = 0; round < 2; ++round) for (std::size_t k = 0; k < got.size(); ++k) { const Want& w = *want[m.of[k]]; std::vector<int> own; for (int o : w.own) if (id < 0 || ents[o-1]["id"].i() == id) own.push_back(o); const int n = num(got[k]);
        if (exact) { if (std::none_of(own.begin(), own.end(), [&] (int o) { return ents[o-1]["no"].i() == n; })) deviate(what, ": a fragment of entity ", ents[own[0]-1]["no"].i(), " carries the number ", n); continue; }
        if (own.size() == 1 && round == 0) { auto it = no.insert({own[0], n}); if (it.first->second != n) deviate(what, ": fragments of one entity carry the numbers ", n, " and ", it.first->second); }
        if (own.size() > 1 && round == 1) { bool ok = false; for (int o : own) ok |= !no.count(o) || no[o] == n; if (!ok) deviate(what, ": a shared fragment carries the number ", n, " of none of its entities"); } }
    std::map<int,int> inv; for (auto& x : no) { auto it = inv.insert({x.second, x.first}); if (it.first->second != x.first) deviate(what, ": fragments of different entities carry the number ", x.second); }
    if (int(map.Extent()) != int(got.size()) + others) deviate(what, ": ", map.Extent(), " numbered fragments, but ", got.size(), " fragments"); }
inline void checkPlain(const EntityNetwork& n, const Scene& S) { const J& ents = (*S.s)["ents"]; const int dim = shOf(ents[0]["shape"]).dim(); if (n.entityDimension() != dim) deviate(S.what, ": wrong entity dimension");
    auto got = listed(n.entityFragments()); int others = 0; if (S.giant > 0) { got.erase(std::remove_if(got.begin(), got.end(), [&] (const TopoDS_Shape& s) { const bool is = measureOf(s, dim) > 0.9*S.giant*S.giant; others += is; return is; }), got.end()); if (others != 1) deviate(S.what, ": a distant entity has ", others, " fragments"); }
    std::vector<const Want*> w; for (auto& x : S.want) w.push_back(&x); const Match m = match(got, w, S.g, dim, S.rel, S.what);
    bool single = true; for (const auto& e : ents) single &= e["id"].i() == ents[0]["id"].i(); numbers(n.entityFragmentsIndexMap(), got, w, m, ents, -1, single, S.what, others); conforming(got, S.g, S.near(), S.what); }
inline void checkContained(const ContainedEntityNetwork& n, const Scene& S) { const J& ents = (*S.s)["ents"]; const J& doms = (*S.s)["doms"]; const int ddim = doms.size() ? shOf(doms[0]["box"]).dim() : shOf(ents[0]["shape"]).dim() + 1, dim = ents.size() ? shOf(ents[0]["shape"]).dim() : ddim - 1; if ((ents.size() && n.entityDimension() != dim) || (doms.size() && n.domainDimension() != ddim)) deviate(S.what, ": wrong dimensions");
    std::multiset<int> ids, exp; for (const auto& i : n.subDomainIds()) ids.insert(int(i.get())); for (const auto& d : doms) exp.insert(d["id"].i()); if (ids != exp) deviate(S.what, ": wrong ids of sub-domains");
    std::vector<TopoDS_Shape> all; std::vector<std::pair<TopoDS_Shape, const Want*>> entFrags; std::vector<TopTools_IndexedMapOfShape> facets(doms.size());
    for (std::size_t k = 0; k < doms.size(); ++k) { const int id = doms[k]["id"].i(); std::ostringstream o; o << S.what << ", sub-domain " << id;
        std::vector<Want> pcs; for (const auto& f : (*S.c)["domFrags"][k]) { Want w; w.sh = shOf(doms[k]["box"]); for (const auto& q : f) { w.cells.push_back(cellOf(q)); w.m += measure(S.g, w.sh, w.cells.back()); } pcs.push_back(w); }
        std::vector<const Want*> w; for (auto& x : pcs) w.push_back(&x); const auto sol = listed(n.subDomainFragments(Id(id))); match(sol, w, S.g, ddim, S.rel, o.str()); for (auto& s : sol) { all.push_back(s); TopExp::MapShapes(s, typeOf(dim), facets[k]); }
        w.clear(); for (auto& x : S.want) if (std::any_of(x.own.begin(), x.own.end(), [&] (int q) { return ents[q-1]["id"].i() == id; })) w.push_back(&x);
        const auto got = listed(n.subDomainEntityFragments(Id(id))); const Match m = match(got, w, S.g, dim, S.rel, o.str() + " (entities)"); numbers(n.subDomainEntityFragmentsIndexMap(Id(id)), got, w, m, ents, id, true, o.str());
        for (std::size_t i = 0; i < got.size(); ++i) { all.push_back(got[i]); entFrags.push_back({got[i], w[m.of[i]]}); } }
    // pieces of entities within a sub-domain or on its boundary are facets of its pieces
    for (std::size_t k = 0; k < doms.size(); ++k) { const Sh b = shOf(doms[k]["box"]); for (const auto& f : entFrags) { const Cell& c = f.second->cells[0]; bool in = true; for (int i = 0; i < 3; ++i) in &= b.lo[i] <= c[i] && c[i] <= b.hi[i]; if (in && !facets[k].Contains(f.first)) deviate(S.what, ": an entity fragment within sub-domain ", doms[k]["id"].i(), " is not a facet of its pieces"); } }
    // no two different facets coincide in parts: neighbours share their interface
    if (ddim == 3) { TopTools_IndexedMapOfShape F; for (auto& s : all) TopExp::MapShapes(s, TopAbs_FACE, F); std::set<Cell> cells; for (const auto& d : doms) { const Sh b = shOf(d["box"]); for (int i = 0; i < 3; ++i) for (int q : {b.lo[i], b.hi[i]}) for (int x = 1; x < 30; x += 2) for (int y = 1; y < 30; y += 2) { Cell c; c[i] = q; c[(i+1)%3] = x; c[(i+2)%3] = y; bool in = true; for (int j = 0; j < 3; ++j) in &= b.lo[j] <= c[j] && c[j] <= b.hi[j]; if (in) cells.insert(c); } }
        for (const auto& c : cells) { int hits = 0; for (double t : {0.13, -0.21, 0.033, -0.47}) { A3 z{c[0] + t, c[1] + 1.31*t, c[2] + 0.85*t}; for (int i = 0; i < 3; ++i) if (c[i] % 2 == 0) z[i] = c[i]; hits = 0; for (int i = 1; i <= F.Extent(); ++i) hits += onShape(F(i), S.g.at(z), S.rel*S.g.minStep*S.g.e.s); if (hits == 1) break; } if (hits != 1) deviate(S.what, ": ", hits, " facets of the fragments at the boundary of a sub-domain, at cell ", c[0], " ", c[1], " ", c[2]); } }
    conforming(all, S.g, S.near(), S.what); }
#endif
