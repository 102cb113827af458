#include <algorithm>
#include "dist.hh"
#include <frackit/distance/distance.hh>
#ifdef PY
#include "pyshadow.hh"
#endif
static bool curved; static P3 footA, footB;
template<class A, class B> void allForms(const A& a, const B& b, double want, double size, const std::string& W) {
    const TopoDS_Shape sa = OCCUtilities::getShape(a), sb = OCCUtilities::getShape(b);
    auto near = [&] (double d, const char* form) { if (curved) nearK(d, want, size, sa, sb, footA, footB, W + form); else nearD(d, want, size, W + form); };
    near(computeDistance(a, b), "computeDistance");
    near(computeDistance(b, a), "computeDistance, arguments swapped");
    near(computeDistance(sa, b), "computeDistance(shape, geometry)");
    near(computeDistance(a, sb), "computeDistance(geometry, shape)");
    near(computeDistance(sa, sb), "computeDistance(shape, shape)");
    using Y = std::decay_t<B>; std::variant<Y, P3> v(std::in_place_index<0>, b); if constexpr (!std::is_same_v<Y, TopoDS_Solid>) near(computeDistance(a, v), "computeDistance to a variant"); }
static void pair(const AnyGeo& a, const AnyGeo& b, double want, double size, const std::string& where) {
    const std::string W = where + kindName(a) + " - " + kindName(b) + ", "; curved = a.index() > 5 || b.index() > 5;
    std::visit([&] (const auto& x, const auto& y) { allForms(x, y, want, size, W); }, a, b); }
static void poly(int idx, const J& c, int variants) {
    for (int v = 0; v < variants; ++v) {
        Rng rng(envSeed()*61 + idx, v); const Emb e = makeEmb(v, rng); std::ostringstream w; w << "scale " << e.s << ", ";
        const AnyGeo a = mkGeo(c["A"], e, rng), b = mkGeo(c["B"], e, rng); const double size = 20*e.s, d = e.s*sq(c["d"]);
        pair(a, b, d, size, w.str());
        if (c["line"].size()) { const auto& s = std::get<Seg3>(a); const Line3 l(e.p(v3(c["A"]["c"][0])), dir(arr(s.target()) - arr(s.source()))); const P3 p = e.p(v3(c["B"]["c"][0])); const double dl = e.s*sq(c["line"][0]);
            nearD(computeDistance(p, l), dl, size, w.str() + "Point - Line"); nearD(computeDistance(l, p), dl, size, w.str() + "Line - Point");
            nearD(computeDistance(p, s.supportingLine()), dl, size, w.str() + "Point - supporting Line"); } } }
static void kkt(int idx, const J& c, int variants) {
    for (int v = 0; v < variants; ++v) {
        const bool fx = c.has("fixed"); Rng rng(fx ? c["fixed"]["seed"].i()*67 + c["fixed"]["idx"].i() : envSeed()*67 + idx, v); const double s = std::exp(rng.u(-1.5, 3)); Emb ea = c["A"]["S"]["kind"].S() == "box" && rng.n(3) ? permEmb(rng, s, 15) : rotEmb(rng, s, 15, rng.n(2)); if (v == 0) ea = identityEmb();
        auto contactPoint = [] (const J& q) { return (1/q["d"].d())*v3(q["p"]); };
        const A3 p = contactPoint(c["A"]), q = contactPoint(c["B"]); const A3 n = (1/norm(v3(c["A"]["n"])))*v3(c["A"]["n"]), m = (1/norm(v3(c["B"]["n"])))*v3(c["B"]["n"]);
        static const double gaps[7] = {0, 0.125, 1, 4, 1.0/64, 1.0/512, 1.0/2048}; const bool share = c["share"].B(); const double gap = share ? 0 : gaps[c["gap"].i() % 7];
        // B is turned such that m points against n (any turn will do when the contact points coincide)
        Emb eb = rotEmb(rng, ea.s, 0, rng.n(2));
        if (!share) { const A3 from = eb.d(m), to = -1.0*ea.d(n); A3 ax = cross(from, to); const double co = dot(from, to); 
            if (norm(ax) < 1e-6) { if (co < 0) { A3 t = std::abs(from[0]) < 0.9 ? A3{1,0,0} : A3{0,1,0}; ax = cross(from, t); } else ax = {0,0,0}; }
            if (norm(ax) > 0) { const A3 k = (1/norm(ax))*ax; const double th = std::atan2(norm(cross(from, to)), co);
                for (auto& r : eb.r) r = std::cos(th)*r + std::sin(th)*cross(k, r) + (1 - std::cos(th))*dot(k, r)*k; } }
        const A3 target = ea.at(p) + (gap*ea.s)*ea.d(n); eb.o = target - eb.s*eb.d(q);
        std::ostringstream w; w << (share ? "common point, " : gap == 0 ? "touching, " : "separated, ") << "scale " << ea.s << ", ";
        auto build = [&] (const J& C, const Emb& e, int i) -> AnyGeo { const J& S = C["S"]; AnyGeo g = mkGeo(S, e, rng);
            if (S["kind"].S() != "arc") return g;
            // an arc of the ellipse around the contact point, or ending there
            const auto& ell = std::get<Ellipse<double,3>>(g); const double ce = C["p"][0].d()/S["a"].d(), se = C["p"][1].d()/S["b"].d(); const double t = std::atan2(se, ce); const int lo = i % 3, hi = (i + 1) % 4; // steps of about 0.4
            auto at = [&] (double u) { return e.p(S["a"].d()*std::cos(u), S["b"].d()*std::sin(u), 0); };
            const P3 pc = e.p(contactPoint(C)); const bool turn = dot(cross(arr(ell.majorAxis()), arr(ell.minorAxis())), cross(e.d({1,0,0}), e.d({0,1,0}))) < 0;
            P3 p0 = lo ? at(t - 0.4*lo) : pc, p1 = hi ? at(t + 0.4*hi) : pc; if (!lo && !hi) p1 = at(t + 1); if (turn) std::swap(p0, p1); return EllipseArc<double,3>(ell, p0, p1); };
        const AnyGeo a = build(c["A"], ea, c["arcs"][0].i()), b = build(c["B"], eb, c["arcs"][1].i());
        footA = ea.p(p); footB = eb.p(q); pair(a, b, gap*ea.s, 25*ea.s, w.str()); } }
// lists of the corners and edges of a polytope: the minimum
static void lists(int idx, const J& c) {
    Rng rng(envSeed()*71 + idx, 5); const Emb e = makeEmb(1 + rng.n(3), rng); const J& B = c["B"]; if (B["kind"].S() != "poly" || c["A"]["kind"].S() == "box") return;
    const AnyGeo a = mkGeo(c["A"], e, rng); std::vector<P3> pts; std::vector<Seg3> segs; const int n = int(B["c"].size()); for (int i = 0; i < n; ++i) pts.push_back(e.p(v3(B["c"][i]))); for (int i = 0; i < n; ++i) segs.emplace_back(pts[i], pts[(i+1)%n]);
    std::vector<std::variant<P3, Seg3>> mixed; for (int i = 0; i < n; ++i) if (i % 2) mixed.push_back(segs[i]); else mixed.push_back(pts[i]); for (int i = 0; i < n; ++i) if (i % 2) mixed.push_back(pts[i]); else mixed.push_back(segs[i]);
    std::shuffle(mixed.begin(), mixed.end(), rng.g); std::shuffle(segs.begin(), segs.end(), rng.g); const double want = e.s*sq(c["dab"]);
    std::visit([&] (const auto& x) { nearD(computeDistance(x, segs), want, 20*e.s, std::string(kindName(a)) + " - list of segments"); nearD(computeDistance(x, mixed), want, 20*e.s, std::string(kindName(a)) + " - list of variants");
        double mp = 1e300; for (const auto& p : pts) mp = std::min(mp, double(computeDistance(x, p))); nearD(computeDistance(x, pts), mp, 20*e.s, std::string(kindName(a)) + " - list of points"); }, a); }
int main(int argc, char** argv) { const int variants = atoi(argv[2]);
    return caseLoop(argc, argv, [&] (int idx, const J& c) { if (c.has("dab")) { poly(idx, c, variants); lists(idx, c); } else { kkt(idx, c, variants); kernelFlush(); } }); }
