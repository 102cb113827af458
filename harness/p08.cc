#include <algorithm>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/geometry/ellipsearc.hh>
#include <frackit/geometry/dimension.hh>
#include <BRepAlgoAPI_Section.hxx>
#include <BRepBuilderAPI_MakePolygon.hxx>
#include <BRepBuilderAPI_MakeFace.hxx>
#include <frackit/intersection/intersect.hh>
#include <frackit/magnitude/magnitude.hh>
#include "cyl.hh"
#ifdef PY
#include "pyshadow.hh"
#endif
// the parts of a face intersection
struct Parts { std::vector<P3> p; std::vector<TopoDS_Edge> e; std::vector<TopoDS_Face> f; int empty = 0; };
static std::vector<TopoDS_Edge> lastEdges;
template<class R> Parts partsOf(const R& r) { Parts P; for (const auto& v : r) std::visit([&] (const auto& x) { using T = std::decay_t<decltype(x)>;
    if constexpr (std::is_same_v<T, P3>) P.p.push_back(x); else if constexpr (std::is_same_v<T, TopoDS_Edge>) P.e.push_back(x); else if constexpr (std::is_same_v<T, TopoDS_Face>) P.f.push_back(x); else P.empty++; }, v); lastEdges = P.e; return P; }
static std::string str(const Parts& P) { std::ostringstream o; o.precision(10); if (P.empty) o << P.empty << "x empty "; for (auto& p : P.p) o << "point " << str(p) << " "; for (auto& e : P.e) { auto v = OCCUtilities::getVertices(e); o << "edge"; for (auto& x : v) o << " " << str(OCCUtilities::point(x)); o << " (length " << computeMagnitude(e) << ") "; } for (auto& f : P.f) o << "face of area " << computeMagnitude(f) << " "; return o.str(); }
// The geometry kernel contradicts itself: a point lies on both faces, but not on the section it computes of the two.
static bool kernelSection(const TopoDS_Shape& A, const TopoDS_Shape& B, const std::vector<P3>& common, double size) {
    auto gap = [] (const TopoDS_Shape& a, const P3& p) { BRepExtrema_DistShapeShape d(a, OCCUtilities::getShape(p)); return d.IsDone() ? d.Value() : 1e300; };
    BRepAlgoAPI_Section s(A, B, false); s.SetFuzzyValue(1e-9*size); s.Build(); const bool none = OCCUtilities::getEdges(s.Shape()).empty();
    for (const auto& p : common) if (gap(A, p) < 1e-6*size && gap(B, p) < 1e-6*size && (none || gap(s.Shape(), p) > 1e-3*size)) return true; return false; }
// The geometry kernel does not see that two coinciding edges coincide.
static bool kernelCommon(double size) { for (const auto& a : lastEdges) for (const auto& b : lastEdges) if (!a.IsSame(b)) {
    auto cv = OCCUtilities::getGeomHandle(a); const double u = cv->FirstParameter(), w = cv->LastParameter(); bool all = true;
    for (int i = 1; i < 4; ++i) { BRepExtrema_DistShapeShape d(b, OCCUtilities::getShape(OCCUtilities::point(cv->Value(u + (w - u)*i/4)))); all &= d.IsDone() && d.Value() < 1e-6*size; }
    if (all && OCCUtilities::getEdges(OCCUtilities::intersect(a, b, 1e-9*size)).empty()) return true; }
    return false; }
template<class F> void kernelAware(F&& f, const TopoDS_Shape& A, const TopoDS_Shape& B, const std::vector<P3>& common, double size) {
    try { f(); } catch (const Deviation& d) { if (!kernelSection(A, B, common, size) && !kernelCommon(size)) throw; if (kernelNote.empty()) kernelNote = std::string("wrong section of the geometry kernel: ") + d.what(); } }
struct Expect { std::string kind; P3 lo, hi; double tol; };
// none, one point or a segment covered by edges without gaps and repetitions
static void line(const Parts& P, const Expect& x, const std::string& what) {
    auto bad = [&] (const char* why) { deviate(what, ": ", why, ", got ", str(P), "expected ", x.kind, x.kind == "none" ? "" : " " + str(x.lo), x.kind == "segment" ? " " + str(x.hi) : ""); };
    if (x.kind == "none") { if (P.empty != 1 || !P.p.empty() || !P.e.empty() || !P.f.empty()) bad("not (only) empty"); return; }
    if (P.empty || !P.f.empty()) bad("unexpected part");
    if (x.kind == "point") { if (!P.e.empty() || P.p.size() != 1) bad("not exactly one point"); if (dist(P.p[0], x.lo) > x.tol) bad("wrong place"); return; }
    if (!P.p.empty() || P.e.empty()) bad("not (only) edges");
    const double L = dist(x.lo, x.hi); A3 d = (1/L)*(arr(x.hi) - arr(x.lo)); std::vector<std::pair<double,double>> I;
    for (const auto& e : P.e) { const A3 a = arr(OCCUtilities::point(TopExp::FirstVertex(e))), b = arr(OCCUtilities::point(TopExp::LastVertex(e)));
        double s = dot(a - arr(x.lo), d), t = dot(b - arr(x.lo), d); if (norm(a - arr(x.lo) - s*d) > x.tol || norm(b - arr(x.lo) - t*d) > x.tol || std::abs(computeMagnitude(e) - std::abs(t - s)) > x.tol) bad("edge off the common line"); I.push_back({std::min(s,t), std::max(s,t)}); }
    std::sort(I.begin(), I.end()); double at = 0; for (auto& i : I) { if (std::abs(i.first - at) > x.tol) bad("gap or overlap"); at = i.second; } if (std::abs(at - L) > x.tol) bad("wrong extent"); }
template<class A, class B> void both(const A& a, const B& b, const Expect& e, const std::string& what, double eps) {
    line(partsOf(intersect(a, b)), e, what); line(partsOf(intersect(b, a)), e, what + " (arguments swapped)"); line(partsOf(intersect(a, b, eps)), e, what + " (explicit tolerance)"); }
template<class F> void onShape(const J& s, const Frame& f, Rng& rng, F&& fn) {
    if (s["kind"].S() == "disk") fn(mkDisk(s, f, rng.n(4)), "disk");
    else if (s["c"].size() == 4 && rng.n(2)) fn(mkQuad(s, f, rng.n(4), rng.n(2)), "quadrilateral");
    else fn(mkPoly(s, f, rng.n(int(s["c"].size())), rng.n(2)), "polygon"); }
static P3 mix(const P3& a, const P3& b, double t) { return pt(arr(a) + t*(arr(b) - arr(a))); }
static void pairs(int idx, const J& c, int variants) {
    for (int v = 0; v < variants; ++v) {
        Rng rng(envSeed()*139 + idx, v); Emb e = v == 0 && idx % 3 == 0 ? identityEmb() : rotEmb(rng, std::exp(rng.u(-3, 4)), 15, rng.n(2));
        const Frame fa = frameOf(e, {0,0,0}, {1,0,0}, {0, c["da"][0].d(), c["da"][1].d()}), fb = frameOf(e, {0,0,0}, {1,0,0}, {0, c["db"][0].d(), c["db"][1].d()});
        const double size = std::max(bound(c["A"]), bound(c["B"]))*e.s; Expect x; x.kind = c["kind"].S(); x.tol = 5e-6*size;
        if (x.kind != "none") { x.lo = e.p(num(c["is"]["lo"]), 0, 0); x.hi = e.p(num(c["is"]["hi"]), 0, 0); }
        std::ostringstream w; w << "scale " << e.s << ", ";
        onShape(c["A"], fa, rng, [&] (const auto& a, const std::string& na) { onShape(c["B"], fb, rng, [&] (const auto& b, const std::string& nb) {
            const auto A = OCCUtilities::getShape(a), B = OCCUtilities::getShape(b);
            kernelAware([&] () { both(A, B, x, w.str() + "face of " + na + " - face of " + nb, 1e-7*size);
            if (v == 0) both(A, b, x, w.str() + "face of " + na + " - " + nb, 1e-7*size); else both(a, B, x, w.str() + na + " - face of " + nb, 1e-7*size); },
                A, B, x.kind == "segment" ? std::vector<P3>{mix(x.lo, x.hi, 0.25), mix(x.lo, x.hi, 0.5), mix(x.lo, x.hi, 0.75)} : std::vector<P3>{}, size); }); }); } }
// ---- coplanar faces
static double areaOf(std::vector<std::array<double,2>> h) { double cx = 0, cy = 0; for (auto& p : h) { cx += p[0]/h.size(); cy += p[1]/h.size(); }
    std::sort(h.begin(), h.end(), [&] (auto& a, auto& b) { return std::atan2(a[1]-cy, a[0]-cx) < std::atan2(b[1]-cy, b[0]-cx); }); double s = 0;
    for (std::size_t i = 0; i < h.size(); ++i) { auto& a = h[i]; auto& b = h[(i+1) % h.size()]; s += 0.5*(a[0]*b[1] - a[1]*b[0]); } return std::abs(s); }
static void faces(const Parts& P, double area, const std::vector<P3>& corners, double size, const std::string& what) {
    if (P.empty || !P.p.empty() || !P.e.empty() || P.f.empty()) deviate(what, ": not (only) faces, got ", str(P), "expected a face of area ", area);
    double s = 0; for (auto& f : P.f) s += computeMagnitude(f); if (std::abs(s - area) > 1e-6*size*size) deviate(what, ": wrong area, got ", str(P), "expected a face of area ", area);
    for (auto& c : corners) { bool found = false; for (auto& f : P.f) for (auto& v : OCCUtilities::getVertices(f)) found |= dist(OCCUtilities::point(v), c) <= 5e-6*size; if (!found) deviate(what, ": missing corner ", str(c), ", got ", str(P)); } }
template<class F> void flatShape(const J& s, const Frame& f, Rng& rng, F&& fn) { if (s["c"].size() == 4 && rng.n(2)) fn(mkQuad(s, f, rng.n(4), rng.n(2)), "quadrilateral"); else fn(mkPoly(s, f, rng.n(int(s["c"].size())), rng.n(2)), "polygon"); }
static void flat(int idx, const J& c, int variants) { for (int v = 0; v < variants; ++v) { Rng rng(envSeed()*149 + idx, v); const Emb e = v == 0 && idx % 3 == 0 ? identityEmb() : rotEmb(rng, std::exp(rng.u(-3, 4)), 15, rng.n(2)); const Frame f = frameOf(e, {0,0,0}, {1,0,0}, {0,1,0});
    std::ostringstream w; w << "coplanar, scale " << e.s << ", "; const std::string kind = c["kind"].S();
    if (c["mode"].S() == "circ") { const double a = c["a"].d(), b = c["b"].d(), d = c["d"].d(), ox = c["o"][0].d(), oy = c["o"][1].d(), size = (std::max(a, b) + d)*e.s; double area = 0; const std::string rel = c["rel"].S();
        if (kind == "face") { if (rel == "first") area = M_PI*a*a; else if (rel == "second") area = M_PI*b*b; else { const double A = std::acos((d*d + a*a - b*b)/(2*d*a)), B = std::acos((d*d + b*b - a*a)/(2*d*b)); area = a*a*(A - std::sin(2*A)/2) + b*b*(B - std::sin(2*B)/2); } }
        auto disk = [&] (double x, double y, double r) { const double t = rng.u(0, 7); return Dsk(pt(f.at(x, y)), dir(f.d(std::cos(t), std::sin(t))), dir(f.d(-std::sin(t), std::cos(t))), r*e.s, r*e.s); };
        const Dsk D = disk(0, 0, a), E = disk(ox, oy, b); const auto A = OCCUtilities::getShape(D), B = OCCUtilities::getShape(E); w << "disks";
        auto test = [&] (const Parts& P, const std::string& s) { if (kind == "face") faces(P, area*e.s*e.s, {}, size, s); else { Expect x; x.kind = kind; x.tol = 5e-6*size; if (kind == "point") x.lo = x.hi = pt(f.at(ox*a/d, oy*a/d));
            // rounding turns touching circles into crossing ones: their points may be found
            Parts Q = P; if (kind == "point" && Q.p.size() == 2 && dist(Q.p[0], x.lo) <= x.tol && dist(Q.p[1], x.lo) <= x.tol) Q.p.pop_back(); line(Q, x, s); } };
        test(partsOf(intersect(A, B)), w.str()); test(partsOf(intersect(B, A)), w.str() + " (arguments swapped)"); test(partsOf(intersect(A, E)), w.str() + " (face, disk)"); test(partsOf(intersect(D, B)), w.str() + " (disk, face)"); test(partsOf(intersect(A, B, 1e-7*size)), w.str() + " (explicit tolerance)"); continue; }
    const double size = std::max(bound(c["A"]), bound(c["B"]))*e.s; std::vector<std::array<double,2>> h; std::vector<P3> H; for (const auto& q : c["corners"]) { h.push_back({q[0].d()/q[2].d(), q[1].d()/q[2].d()}); H.push_back(pt(f.at(h.back()[0], h.back()[1]))); }
    flatShape(c["A"], f, rng, [&] (const auto& a, const std::string& na) { flatShape(c["B"], f, rng, [&] (const auto& b, const std::string& nb) { const auto A = OCCUtilities::getShape(a), B = OCCUtilities::getShape(b);
        auto test = [&] (const Parts& P, const std::string& s) { if (kind == "face") faces(P, areaOf(h)*e.s*e.s, H, size, s); else { Expect x; x.kind = kind; x.tol = 5e-6*size; if (!H.empty()) { x.lo = H.front(); x.hi = H.back(); } line(P, x, s); } };
        w << na << " - " << nb; test(partsOf(intersect(A, B)), w.str()); test(partsOf(intersect(B, A)), w.str() + " (arguments swapped)"); test(partsOf(intersect(A, b)), w.str() + " (face, geometry)"); test(partsOf(intersect(a, B)), w.str() + " (geometry, face)"); test(partsOf(intersect(A, B, 1e-7*size)), w.str() + " (explicit tolerance)"); }); }); } }
// ---- cylinder surfaces and planar faces
static void cylinder(int idx, const J& c, int variants) { for (int v = 0; v < variants; ++v) { const bool fx = c.has("fixed"); if (fx) idx = c["fixed"]["idx"].i();
    Rng rng((fx ? c["fixed"]["seed"].i() : envSeed())*157 + idx, v); const Emb e = v == 0 && idx % 3 == 0 ? identityEmb() : rotEmb(rng, std::exp(rng.u(-3, 4)), 15, rng.n(2)); const Cut q = mkCut(c, e); const auto S = mkSurface(q, rng.n(2)); const double tol = 5e-6*q.size;
    const double ptol = !q.axial && c["S"]["kind"].S() == "disk" ? 400*tol : tol; // rims may touch the curve
    std::ostringstream o; o << "scale " << e.s << ", cylinder surface - face of ";
    // a point contact of a rim in a tangent plane is too flat to be located
    if (q.axial && c["A"]["kind"].S() == "disk") for (std::size_t i = 0; i < c["parts"].size(); ++i) if (c["parts"][i]["kind"].S() == "point") return;
    std::vector<P3> common; if (q.axial) { for (const auto& p : c["parts"]) if (p["kind"].S() == "segment") for (double t : {0.25, 0.5, 0.75}) common.push_back(e.p(c["a"].d(), p["y"].d(), num(p["is"]["lo"]) + t*(num(p["is"]["hi"]) - num(p["is"]["lo"])))); }
    else for (const auto& k : c["cells"]) { const double* m = NODE[k.i() - 1]; const double* n = NODE[k.i() % 12]; const double r = std::hypot(m[0] + n[0], m[1] + n[1]); common.push_back(q.at(5*(m[0] + n[0])/r, 5*(m[1] + n[1])/r)); }
    auto test = [&] (Parts P, const std::string& what) {
        // rounding turns touching rims into crossing ones: their points may be found
        for (std::size_t i = 0; i < P.p.size(); ++i) P.p.erase(std::remove_if(P.p.begin() + i + 1, P.p.end(), [&] (const auto& z) { return dist(z, P.p[i]) <= tol; }), P.p.end());
        if (q.axial) { // the parts on either contact line
            std::size_t used = 0, want = 0; bool any = false;
            for (std::size_t i = 0; i < c["parts"].size(); ++i) { const J& p = c["parts"][i]; const double Y = p["y"].d(); Parts L; Expect x; x.kind = p["kind"].S(); x.tol = tol; auto at = [&] (const char* k) { return e.p(c["a"].d(), Y, num(p["is"][k])); };
                auto on = [&] (const P3& z) { const A3 d = arr(z) - e.o; return std::hypot(dot(d, e.r[0])/e.s - c["a"].d(), dot(d, e.r[1])/e.s - Y)*e.s <= tol; };
                if (x.kind != "none") { x.lo = at("lo"); x.hi = at("hi"); any = true; } for (auto& z : P.p) if (on(z)) L.p.push_back(z); for (auto& z : P.e) if (on(OCCUtilities::point(TopExp::FirstVertex(z))) && on(OCCUtilities::point(TopExp::LastVertex(z)))) L.e.push_back(z);
                used += L.p.size() + L.e.size(); if (x.kind == "none") L.empty = L.p.empty() && L.e.empty(); line(L, x, what); }
            if (used != P.p.size() + P.e.size() || !P.f.empty() || P.empty != (any ? 0 : 1)) deviate(what, ": unexpected parts, got ", str(P)); return; }
        auto bad = [&] (const std::string& why) { std::ostringstream w; for (const auto& a : c["arcs"]) w << "arc of " << a[1].i() << " cells from node " << a[0].i() << " "; for (const auto& k : c["pts"]) w << "node " << k.i() << " "; deviate(what, ": ", why, "; got ", str(P), "; expected ", c["full"].B() ? "full ellipse" : w.str()); };
        const std::size_t cells = c["cells"].size(); if (P.empty != (cells || c["pts"].size() ? 0 : 1) || !P.f.empty()) bad("parts"); if (P.p.size() != c["pts"].size()) bad("number of points");
        for (const auto& k : c["pts"]) if (std::none_of(P.p.begin(), P.p.end(), [&] (const auto& p) { return nodeOf(q, p, ptol) == k.i(); })) bad("wrong point");
        double span = 0, want = 0; auto t = [] (int k) { return std::atan2(NODE[k % 12][1], NODE[k % 12][0])/(2*M_PI); }; auto frac = [] (double x) { return x - std::floor(x); };
        for (const auto& k : c["cells"]) want += frac(t(k.i()) - t(k.i() - 1));
        for (const auto& x : P.e) { auto cv = OCCUtilities::getGeomHandle(x); const double a = cv->FirstParameter(), b = cv->LastParameter(); double last = 0; const int N = 64;
            for (int i = 0; i <= N; ++i) { const P3 p = OCCUtilities::point(cv->Value(a + (b - a)*i/N)); const A3 d = arr(p) - e.o; const double X = dot(d, e.r[0])/e.s, Y = dot(d, e.r[1])/e.s; if (std::abs(std::hypot(X, Y) - 5)*e.s > tol || dist(p, q.at(X, Y)) > tol) bad("edge off the common curve");
                const double w = turn(q, p); if (i) { double s = frac(w - last); if (s > 0.5) s = 1 - s; span += s; } last = w; if (i % 2 == 0) continue;
                bool in = false; for (const auto& k : c["cells"]) { const double s = frac(w - t(k.i() - 1) + 1e-7), l = frac(t(k.i()) - t(k.i() - 1)); in |= s <= l + 2e-7; } if (!in) bad("edge outside of the common part"); } }
        if (std::abs(span - want) > 1e-5) bad("extent of the edges"); };
    onCutShape(c, q, rng, [&] (const auto& g, const std::string& n) { const auto F = OCCUtilities::getShape(g); const auto L = OCCUtilities::getShape(S); kernelAware([&] () {
        test(partsOf(intersect(S, F)), o.str() + n); test(partsOf(intersect(F, S)), o.str() + n + " (arguments swapped)"); test(partsOf(intersect(S, F, 1e-7*q.size)), o.str() + n + " (explicit tolerance)");
        test(partsOf(rng.n(2) ? intersect(L, F) : intersect(F, L)), o.str() + n + " (both faces)"); test(partsOf(rng.n(2) ? intersect(g, L) : intersect(L, g)), "lateral face - " + o.str() + n); }, F, L, common, q.size); }); } }
// ---- faces made of unit cells
static void cellFaces(int idx, const J& c, int variants) { for (int v = 0; v < variants; ++v) { const bool fx = c.has("fixed"); if (fx) idx = c["fixed"]["idx"].i();
    Rng rng((fx ? c["fixed"]["seed"].i() : envSeed())*163 + idx, v); const Emb e = v == 0 && idx % 3 == 0 ? identityEmb() : rotEmb(rng, std::exp(rng.u(-3, 4)), 15, rng.n(2)); const bool flat = c["fc"].S() == "flat"; const double size = 24*e.s, tol = 5e-6*size;
    auto at = [&] (double x, double y) { return e.p(x, y, 0); };
    auto mkFace = [&] (const J& C, const std::array<double,2>& up) { std::vector<P3> q; for (const auto& k : C) q.push_back(e.p(k[0].d(), up[0]*k[1].d(), up[1]*k[1].d())); std::rotate(q.begin(), q.begin() + rng.n(int(q.size())), q.end()); if (rng.n(2)) std::reverse(q.begin(), q.end());
        BRepBuilderAPI_MakePolygon m; for (const auto& z : q) m.Add(gp_Pnt(z.x(), z.y(), z.z())); m.Close(); return TopoDS_Face(BRepBuilderAPI_MakeFace(m.Wire(), true).Face()); };
    static const double U[3][2] = {{0, 1}, {0.6, 0.8}, {-0.8, 0.6}}; const double* u = U[rng.n(3)];
    const TopoDS_Face A = mkFace(c["A"], {1, 0}), B = flat ? mkFace(c["B"], {1, 0}) : mkFace(c["B"], {u[0], u[1]});
    using Cell = std::array<int,2>; auto cells = [&] (const char* k) { std::vector<Cell> r; for (const auto& x : c["common"][k]) r.push_back({int(x[0].i()), int(x[1].i())}); std::sort(r.begin(), r.end()); return r; };
    const auto F = cells("faces"), E = cells("edges"), V = cells("points"); const bool none = F.empty() && E.empty() && V.empty();
    auto local = [&] (const P3& p) { const A3 d = arr(p) - e.o; return A3{dot(d, e.r[0])/e.s, dot(d, e.r[1])/e.s, dot(d, e.r[2])/e.s}; };
    auto test = [&] (const Parts& P, const std::string& what) {
        auto bad = [&] (const std::string& why) { std::ostringstream w; w << what << ": " << why << "; got " << str(P) << "; expected " << F.size() << " common cells, " << E.size() << " unit edges, " << V.size() << " points besides"; for (auto& x : V) w << " " << str(at(x[0], x[1])); for (auto& x : E) w << " edge around " << str(at(x[0], x[1])); deviate(w.str()); };
        if (P.empty != (none ? 1 : 0)) bad("empty or not");
        double area = 0; for (const auto& f : P.f) area += computeMagnitude(f); if (std::abs(area - 4*e.s*e.s*F.size()) > 1e-6*size*size) bad("area of the faces");
        for (const auto& x : F) { int n = 0; const auto q = OCCUtilities::getShape(at(x[0], x[1])); for (const auto& f : P.f) { BRepExtrema_DistShapeShape d(q, f); n += d.IsDone() && d.Value() <= tol; } if (n != 1) bad("a common cell is not in exactly one face"); }
        std::vector<Cell> got; for (const auto& x : P.e) { const A3 a = local(OCCUtilities::point(TopExp::FirstVertex(x))), b = local(OCCUtilities::point(TopExp::LastVertex(x))); const double t = tol/e.s; const int ax = std::abs(a[0] - b[0]) > t ? 0 : 1;
            const double lo = std::min(a[ax], b[ax]), hi = std::max(a[ax], b[ax]); if (std::abs(a[1-ax] - b[1-ax]) > t || std::abs(a[2]) > t || std::abs(b[2]) > t || std::abs(computeMagnitude(x)/e.s - (hi - lo)) > t) bad("edge off the grid");
            auto even = [&] (double z) { return 2*int(std::lround(z/2)); }; if (std::abs(lo - even(lo)) > t || std::abs(hi - even(hi)) > t || std::abs(a[1-ax] - even(a[1-ax])) > t || even(lo) == even(hi)) bad("edge ends");
            for (int z = even(lo) + 1; z < even(hi); z += 2) got.push_back(ax == 0 ? Cell{z, even(a[1])} : Cell{even(a[0]), z}); }
        std::sort(got.begin(), got.end()); if (got != E) bad("edges");
        if (P.p.size() != V.size()) bad("number of points"); for (const auto& x : V) if (std::none_of(P.p.begin(), P.p.end(), [&] (const auto& z) { return dist(z, at(x[0], x[1])) <= tol; })) bad("missing point"); };
    std::ostringstream o; o << "scale " << e.s << ", faces of cells in " << (flat ? "one plane" : "two planes"); std::vector<P3> common; for (const auto& x : E) common.push_back(at(x[0], x[1]));
    kernelAware([&] () { test(partsOf(intersect(A, B)), o.str()); test(partsOf(intersect(B, A)), o.str() + " (arguments swapped)"); test(partsOf(intersect(A, B, 1e-7*size)), o.str() + " (explicit tolerance)"); }, A, B, flat ? std::vector<P3>{} : common, size); } }
int main(int argc, char** argv) { const int variants = atoi(argv[2]);
    return caseLoop(argc, argv, [&] (int idx, const J& c) { if (c.has("fc")) cellFaces(idx, c, variants); else if (!c.has("mode")) pairs(idx, c, variants); else if (c.has("corners") || c["mode"].S() == "circ") flat(idx, c, variants); else cylinder(idx, c, variants); kernelFlush(); }); }
