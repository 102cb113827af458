#include <frackit/io/gmshwriter.hh>
#include <frackit/io/brepwriter.hh>
#include <regex>
#include <filesystem>
#include "netcmp.hh"
// ---- exported files
struct Geo { std::map<int, std::vector<int>> vol, surf, line; };
static std::vector<int> ints(const std::string& s) { std::vector<int> r; std::istringstream i(s); std::string t; while (std::getline(i, t, ',')) r.push_back(std::stoi(t)); return r; }
static Geo parseGeo(const std::string& file, const std::string& brep, double atEnt, double atBnd, const std::string& what) { Geo G; std::ifstream in(file); if (!in) deviate(what, ": no .geo file written"); std::string l; bool merge = false; int sizes = 0; std::map<std::string, std::map<int, int>> dummy; std::vector<std::pair<std::string, std::vector<int>>> sized;
    const std::regex M("^Merge \"(.*)\";$"), Z("^(sizeAtEntities|sizeAtBoundary) *= *([-+0-9.eE]+);$"), P("^Physical (Volume|Surface|Line|Curve)\\(([0-9]+)\\) *= *\\{([0-9, ]+)\\};$"), C("^(?:Characteristic Length|MeshSize) *\\{ *PointsOf *\\{ *(Volume|Surface|Line) *\\{([0-9, ]+)\\}; *\\} *\\} *= *(sizeAtEntities|sizeAtBoundary);$"); std::smatch m;
    while (std::getline(in, l)) { if (l.empty() || l.rfind("//", 0) == 0) continue;
        if (std::regex_match(l, m, M)) { if (std::filesystem::path(m[1].str()).filename() != std::filesystem::path(brep).filename() || merge) deviate(what, ": wrong file merged: ", l); merge = true; }
        else if (std::regex_match(l, m, Z)) { ++sizes; const double v = m[1] == "sizeAtEntities" ? atEnt : atBnd; if (std::abs(std::stod(m[2]) - v) > 1e-5*v) deviate(what, ": wrong mesh size: ", l); }
        else if (std::regex_match(l, m, P)) { auto& g = m[1] == "Volume" ? G.vol : m[1] == "Surface" ? G.surf : G.line; if (!g.insert({std::stoi(m[2]), ints(m[3])}).second) deviate(what, ": group defined twice: ", l); }
        else if (std::regex_match(l, m, C)) { if ((m[1] == "Volume") != (m[3] == "sizeAtBoundary") || m[1] == "Line") deviate(what, ": wrong kind of mesh size: ", l); sized.push_back({m[1], ints(m[2])}); }
        else deviate(what, ": unexpected line in the .geo file: ", l); }
    if (!merge || sizes != 2) deviate(what, ": incomplete .geo file"); std::multiset<std::pair<std::string, int>> a, b; for (auto& g : G.vol) for (int i : g.second) a.insert({"Volume", i}); for (auto& g : G.surf) for (int i : g.second) a.insert({"Surface", i}); for (auto& x : sized) for (int i : x.second) b.insert({x.first, i}); if (a != b) deviate(what, ": the mesh sizes are not those of the groups"); return G; }
template<class N> void checkFiles(const N& n, const Scene& S, int idx) { const J& ents = (*S.s)["ents"]; const J& doms = (*S.s)["doms"]; const bool cont = (*S.s)["contained"].B(); const int dim = shOf(ents[0]["shape"]).dim(); const std::string what = S.what + ", files";
    if (dim == 1) { if (!throws([&] () { GmshWriter w(n); }) || !throws([&] () { BRepWriter w(n); })) deviate(what, ": writers accept networks of edges"); return; }
    // the fragments of the defined sub-domains
    std::vector<Want> want; for (const auto& x : S.want) { Want w = x; if (cont) for (auto it = w.own.begin(); it != w.own.end();) { bool def = false; for (const auto& d : doms) def |= d["id"].i() == ents[*it-1]["id"].i(); if (def) ++it; else it = w.own.erase(it); } if (!w.own.empty()) want.push_back(w); }
    if (want.empty() && !cont) return;
    char dirT[] = "/tmp/verif_geoXXXXXX"; if (!mkdtemp(dirT)) deviate("no scratch directory"); const std::string base = std::string(dirT) + "/net"; struct Rm { std::string d; ~Rm() { std::error_code e; std::filesystem::remove_all(d, e); } } rm{dirT}; const double a = 0.25*(1 + idx % 7), b = idx % 3 ? 1.5*(1 + idx % 5) : a;
    { GmshWriter w(n); if (b == a) w.write(base, a); else w.write(base, a, b); if (idx % 4 == 0) { BRepWriter r(n); r.write(base + "2"); } }
    for (const std::string f : {base, base + "2"}) { if (f != base && idx % 4) continue; TopoDS_Shape shape; BRep_Builder bb; if (!BRepTools::Read(shape, (f + ".brep").c_str(), bb)) deviate(what, ": unreadable .brep file");
        TopTools_IndexedMapOfShape V, F, E; TopExp::MapShapes(shape, TopAbs_SOLID, V); TopExp::MapShapes(shape, TopAbs_FACE, F); TopExp::MapShapes(shape, TopAbs_EDGE, E); const double tol = S.rel*S.g.minStep*S.g.e.s;
        // solids
        std::map<int, int> domOf; if (cont) { std::vector<Want> pcs; std::vector<int> ids; for (std::size_t k = 0; k < doms.size(); ++k) for (const auto& q : (*S.c)["domFrags"][k]) { Want w; w.sh = shOf(doms[k]["box"]); for (const auto& z : q) { w.cells.push_back(cellOf(z)); w.m += measure(S.g, w.sh, w.cells.back()); } pcs.push_back(w); ids.push_back(doms[k]["id"].i()); }
            std::vector<const Want*> w; for (auto& x : pcs) w.push_back(&x); std::vector<TopoDS_Shape> got; for (int i = 1; i <= V.Extent(); ++i) got.push_back(V(i)); const Match m = match(got, w, S.g, 3, S.rel, what + " (solids)"); for (std::size_t i = 0; i < got.size(); ++i) domOf[int(i) + 1] = ids[m.of[i]]; } else if (V.Extent()) deviate(what, ": solids in the file of a network without sub-domains");
        // faces
        std::map<int, int> wantOf; std::vector<TopoDS_Shape> got; std::vector<int> gi; TopTools_IndexedMapOfShape SF; for (int i = 1; i <= V.Extent(); ++i) TopExp::MapShapes(V(i), TopAbs_FACE, SF);
        for (int i = 1; i <= F.Extent(); ++i) { bool is = false; for (const auto& w : want) is |= anyOn(S.g, inners(w.sh, w.cells[0]), [&] (const A3& p) { return onShape(F(i), p, tol); }); if (is) { got.push_back(F(i)); gi.push_back(i); } else if (!SF.Contains(F(i))) deviate(what, ": a face in the file that is neither a fragment nor a side of a sub-domain"); }
        std::vector<const Want*> w; for (auto& x : want) w.push_back(&x); const Match m = match(got, w, S.g, 2, S.rel, what + " (faces)"); for (std::size_t i = 0; i < got.size(); ++i) wantOf[gi[i]] = m.of[i];
        if (f != base) continue; const Geo G = parseGeo(f + ".geo", f + ".brep", a, b, what);
        // volume groups
        std::map<int, int> seen; for (auto& g : G.vol) for (int i : g.second) { if (!domOf.count(i) || domOf[i] != g.first) deviate(what, ": volume ", i, " in the group ", g.first); if (seen[i]++) deviate(what, ": volume ", i, " listed twice"); } if (seen.size() != domOf.size()) deviate(what, ": volumes without group");
        // surface groups: one per entity
        std::map<int, int> groupOf; for (auto& g : G.surf) for (int i : g.second) { if (!wantOf.count(i)) deviate(what, ": surface ", i, " of the groups is no fragment of an entity"); if (!groupOf.insert({i, g.first}).second) deviate(what, ": surface ", i, " is in two groups"); } if (groupOf.size() != wantOf.size()) deviate(what, ": ", wantOf.size() - groupOf.size(), " fragments without group");
        std::map<int, int> ofEnt, back; for (auto& x : wantOf) if (want[x.second].own.size() == 1) { const int e = *want[x.second].own.begin(), g = groupOf[x.first]; if (ofEnt.insert({e, g}).first->second != g) deviate(what, ": fragments of one entity in different groups"); if (back.insert({g, e}).first->second != e) deviate(what, ": fragments of different entities in the group ", g); }
        for (auto& x : wantOf) if (want[x.second].own.size() > 1) { bool ok = false; for (int e : want[x.second].own) ok |= !ofEnt.count(e) || ofEnt[e] == groupOf[x.first]; if (!ok) deviate(what, ": a shared fragment in a group of another entity"); }
        // line groups: edges at which at least two fragments meet
        std::map<int, int> lineOf; for (auto& g : G.line) for (int i : g.second) { if (i < 1 || i > E.Extent()) deviate(what, ": line ", i, " of the groups is not in the shape file"); if (!lineOf.insert({i, g.first}).second) deviate(what, ": line ", i, " is in two groups"); }
        auto lattice = [&] (int ax, double x) { double best = 1e300; int at = 0; for (int k = -12; k <= 40; k += 2) if (std::abs(S.g.x(ax, k) - x) < best) { best = std::abs(S.g.x(ax, k) - x); at = k; } return std::make_pair(at, best); };
        for (int i = 1; i <= E.Extent(); ++i) { const auto e = TopoDS::Edge(E(i)); if (BRep_Tool::Degenerated(e)) continue; BRepAdaptor_Curve c(e); const A3 p = arr(OCCUtilities::point(c.Value(c.FirstParameter() + 0.37*(c.LastParameter() - c.FirstParameter())))); const A3 d = p - S.g.e.o; Cell q; int off = 0; A3 lat;
            for (int k = 0; k < 3; ++k) { const double x = dot(d, S.g.e.r[k])/S.g.e.s; auto l = lattice(k, x); if (l.second*S.g.e.s <= tol) { q[k] = l.first; lat[k] = l.first; } else { ++off; int lo = S.g.x(k, l.first) < x ? l.first : l.first - 2; q[k] = lo + 1; lat[k] = lo + 2*(x - S.g.x(k, lo))/(S.g.x(k, lo + 2) - S.g.x(k, lo)); } }
            int meet = 0; if (off <= 1) for (const auto& w : want) { bool in = false; for (const auto& z : w.cells) { bool ic = true; for (int k = 0; k < 3; ++k) ic &= z[k] % 2 ? std::abs(z[k] - q[k]) <= 1 : z[k] == q[k]; in |= ic; } if (in && w.sh.disk && norm(lat - w.sh.mid()) > w.sh.r) in = false; meet += in; }
            if ((meet > 1) != (lineOf.count(i) > 0)) deviate(what, ": line ", i, meet > 1 ? " at an intersection is in no group" : " in a group is not at an intersection"); } } }
template<class Bd> void fill(Bd& b, const Scene& S, Rng& rng) { const J& ents = (*S.s)["ents"]; const J& doms = (*S.s)["doms"]; std::size_t d = 0, e = 0; const int order = rng.n(3); const bool twin = rng.n(2); std::map<std::string, TopoDS_Shape> twins;
    while (d < doms.size() || e < ents.size()) { const bool dom = d < doms.size() && (e == ents.size() || order == 0 || (order == 2 && rng.n(2))); if (dom) addDomain(b, S.g, doms[d++], rng); else { const bool direct = ents[e]["id"].i() == 0 && rng.n(4) != 0; if (twin) addTwin(b, S.g, ents[e], direct, rng, twins); else addEnt(b, S.g, ents[e], direct, rng); ++e; } } }
static bool files = false;
static void run(int idx, const J& c, int v) { Rng rng(envSeed()*163 + idx, v); Scene S; S.c = &c; S.s = &c["scene"]; bool disks = false; for (const auto& e : (*S.s)["ents"]) disks |= e["shape"]["kind"].S() == "disk";
    // small entities and a huge one far away
    const bool giant = !files && !disks && !(*S.s)["contained"].B() && !(*S.s)["doms"].size() && shOf((*S.s)["ents"][0]["shape"]).dim() == 2 && idx % 4 == 2;
    const Emb e = giant ? rotEmb(rng, std::exp(rng.u(-8, -6.5)), 1, rng.n(2)) : v == 0 && idx % 3 == 0 ? identityEmb() : rotEmb(rng, std::exp(rng.u(-3, 5)), 10, rng.n(2)); if (giant) S.giant = std::exp(rng.u(11.5, 13)); S.g = mkGrid(e, rng, disks || rng.n(3) == 0); S.rel = 1e-4; std::ostringstream o; o << "scale " << e.s; if (giant) o << ", with a distant entity of size " << S.giant; S.what = o.str(); S.want = wanted(c, S.g);
    const bool conf = (*S.s)["union"].B(), again = rng.n(3) == 0; const int eps = rng.n(3); if (getenv("DBG") && giant) std::cerr << idx << " giant " << S.giant << " s " << e.s << " eps " << eps << " again " << again << "\n";
    auto go = [&] (auto& b, auto&& check) { fill(b, S, rng); if (S.after) S.after(); if (again) { b.setConfineToSubDomainUnion(!conf); b.build(); b.setConfineToSubDomainUnion(conf); } else if (!conf) b.setConfineToSubDomainUnion(false); if (eps == 0) b.setEpsilon(1e-6*S.g.size); else if (eps == 1) b.setDefaultEpsilon();
        const auto& n = b.build(); if (files) checkFiles(n, S, idx); else check(n, S); if (!b.isBuilt() || &b.network() != &n) deviate(S.what, ": network() is not the network built"); };
    if ((*S.s)["contained"].B()) { ContainedEntityNetworkBuilder<double> b; go(b, checkContained); } else { EntityNetworkBuilder<double> b; if (giant) { const double L = S.giant; const int k = rng.n(3); auto at = [&] (double x, double y) { A3 q{0,0,0}; q[k] = 2*L; q[(k+1)%3] = L*x; q[(k+2)%3] = L*y; return pt(q); }; S.after = [&b, at] { const Quad Q(at(-0.5,-0.5), at(0.5,-0.5), at(-0.5,0.5), at(0.5,0.5)); b.addEntity(Q); }; } go(b, checkPlain); } }
int main(int argc, char** argv) { files = std::string(argv[3]) == "files"; return caseLoop(argc, argv, [&] (int idx, const J& c) { for (int v = 0; v < atoi(argv[2]); ++v) run(idx, c, v); }); }
