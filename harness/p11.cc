#include <algorithm>
#include "dist.hh"
#include <frackit/distance/distance.hh>
#include <frackit/distance/distancetoboundary.hh>
#include <frackit/distance/pointongeometry.hh>
#include <frackit/distance/pointonboundary.hh>
#ifdef PY
#include "pyshadow.hh"
#endif
static double unit; // size of the configuration
// distance D between the point and the set: on it exactly for tolerances above
template<class F> void levels(F&& f, double D, const std::string& what) {
    const double e0 = 2e-6*unit + 2.5e-7; // accuracy of the distances
    if (D < 1e-9*unit) { for (double e : {1e-6*unit + 1e-6, 0.01*unit, unit}) if (!f(e)) deviate(what, ": a point at distance 0 is not on it for the tolerance ", e); return; }
    for (double e : {1.02*D + e0, 1.5*D + e0, 10*D + e0}) if (!f(e)) deviate(what, ": a point at distance ", D, " is not on it for the tolerance ", e);
    for (double e : {0.98*D - e0, 0.5*D - e0, 1e-3*D}) if (e > 0 && f(e)) deviate(what, ": a point at distance ", D, " is on it for the tolerance ", e); }
template<class F> void dflt(F&& f, double D, const std::string& what) { // default tolerances are below 1e-3 of the size
    if (D < 1e-9*unit) require(f(), what, ": a point at distance 0 is not on it (default tolerance)"); else if (D > 1e-3*unit) require(!f(), what, ": a point at distance ", D, " is on it (default tolerance)"); }
#ifdef PY
template<class F> void refused(F&&, const std::string&) {} // the package forwards these to the shapes
#else
template<class F> void refused(F&& f, const std::string& what) { if (!throws(f)) deviate(what, " is answered, not refused"); }
#endif
template<class P, class G> void pointOn(const P& p, const G& g, double D, const std::string& W) { levels([&] (double e) { return pointOnGeometry(p, g, e); }, D, W + "pointOnGeometry"); }
template<class P, class G> void pointOnBoundary(const P& p, const G& g, double D, const std::string& W, bool def = true) {
    levels([&] (double e) { return pointOnGeometryBoundary(p, g, e); }, D, W + "pointOnGeometryBoundary"); if (def) dflt([&] { return pointOnGeometryBoundary(p, g); }, D, W + "pointOnGeometryBoundary"); }
static TopoDS_Face faceOf(const AnyGeo& g) { return TopoDS::Face(shapeOf(g)); }
static void toBoundary(const AnyGeo& a, const AnyGeo& b, double want, const std::string& where) {
    const std::string W = where + kindName(a) + " to the boundary of " + kindName(b); const TopoDS_Shape sa = shapeOf(a);
    auto eq = [&] (double d, const char* how) { nearD(d, want, unit, W + how); };
    auto geoFace = [&] (const auto& f) { std::visit([&] (const auto& x) { using X = std::decay_t<decltype(x)>; if constexpr (!std::is_same_v<X, TopoDS_Solid>) eq(computeDistanceToBoundary(x, f), " (face)"); }, a); eq(computeDistanceToBoundary(sa, f), " (shape and face)"); };
    auto flat = [&] (const auto& q) { geoFace(OCCUtilities::getShape(q)); eq(computeDistanceToBoundary(sa, q), " (shape)");
        if (auto p = std::get_if<P3>(&a)) { eq(computeDistanceToBoundary(*p, q), ""); pointOnBoundary(*p, q, want, where + kindName(b) + ", "); pointOnBoundary(*p, OCCUtilities::getShape(q), want, where + "face of " + kindName(b) + ", "); }
        else if (auto s = std::get_if<Seg3>(&a)) refused([&] { computeDistanceToBoundary(*s, q); }, W);
        else if (auto s = std::get_if<Quad>(&a)) refused([&] { computeDistanceToBoundary(*s, q); }, W); };
    auto solid = [&] (const auto& s) { std::visit([&] (const auto& x) { using X = std::decay_t<decltype(x)>; if constexpr (!std::is_same_v<X, TopoDS_Solid>) eq(computeDistanceToBoundary(x, s), " (solid)"); }, a); };
    if (auto q = std::get_if<Quad>(&b)) flat(*q);
    else if (auto q = std::get_if<Poly>(&b)) flat(*q);
    else if (auto s = std::get_if<TopoDS_Solid>(&b)) solid(*s);
    else if (auto x = std::get_if<Box<double>>(&b)) { solid(OCCUtilities::getShape(*x));
        if (auto p = std::get_if<P3>(&a)) { eq(computeDistanceToBoundary(*p, *x), ""); refused([&] { pointOnGeometryBoundary(*p, *x, 1.0); }, where + "pointOnGeometryBoundary of a Box"); }
        else if (auto s = std::get_if<Seg3>(&a)) refused([&] { computeDistanceToBoundary(*s, *x); }, W); }
}
static void poly(int idx, const J& c, int variants) {
    for (int v = 0; v < variants; ++v) {
        Rng rng(envSeed()*61 + idx, v); const Emb e = makeEmb(v, rng); std::ostringstream w; w << "scale " << e.s << ", "; unit = 20*e.s;
        const AnyGeo a = mkGeo(c["A"], e, rng), b = mkGeo(c["B"], e, rng);
        if (c["B"]["kind"].S() == "poly" || c["B"]["kind"].S() == "box") {
            toBoundary(a, b, e.s*sq(c["dab"]), w.str());
            for (const auto& q : c["pr"]) { const P3 p = e.p(v3(q["p"])); toBoundary(p, b, e.s*sq(q["b"]), w.str()); const double D = e.s*sq(q["d"]); const std::string W = w.str() + kindName(b) + ", ";
                std::visit([&] (const auto& g) { pointOn(p, g, D, W); pointOn(p, OCCUtilities::getShape(g), D, W + "shape, "); if constexpr (!std::is_same_v<std::decay_t<decltype(g)>, TopoDS_Solid>) dflt([&] { return pointOnGeometry(p, g); }, D, W + "pointOnGeometry"); }, b); } }
        if (c["A"]["kind"].S() == "poly" || c["A"]["kind"].S() == "box") toBoundary(b, a, e.s*sq(c["dba"]), w.str()); } }
static void rim(int idx, const J& c, int variants) {
    for (int v = 0; v < variants; ++v) {
        const bool fx = c.has("fixed"); Rng rng(fx ? c["fixed"]["seed"].i()*73 + c["fixed"]["idx"].i() : envSeed()*73 + idx, v); Emb e = v == 0 ? identityEmb() : rotEmb(rng, std::exp(rng.u(-3, 4)), 15, rng.n(2)); const double s = e.s; std::ostringstream w; w << "scale " << s << ", "; const std::string W = w.str();
        static const int Q[9][2] = {{65,0},{63,16},{60,25},{56,33},{52,39},{39,52},{33,56},{25,60},{16,63}};
        auto pos = [&] (int i) -> std::array<double,2> { const double x = Q[(i-1)%9][0]/65.0, y = Q[(i-1)%9][1]/65.0; switch ((i-1)/9) { case 0: return {x, y}; case 1: return {-y, x}; case 2: return {-x, -y}; default: return {y, -x}; } };
        const double a = c["a"].d(), b = c["b"].d();
        { unit = 4*a*s; const J& E = c["e"]; auto [co, si] = pos(E["i"].i()); const double f = E["f"].d()/8, h = a*E["h"].d()/4, L = a*E["len"].d()/4;
          const A3 p = {a*co - f*b*b*co/a, b*si - f*b*si, 0}; const double pl = std::abs(f)*std::hypot(b*b*co/a, b*si), D = s*std::hypot(pl, h), Din = f < 0 ? D : s*std::abs(h);
          const P3 P = e.p({p[0], p[1], h}); const Seg3 up(P, e.p({p[0], p[1], h >= 0 ? h + L : h - L})); const Dsk d(e.p(0,0,0), dir((rng.n(2) ? 1. : -1.)*e.d({1,0,0})), dir((rng.n(2) ? 1. : -1.)*e.d({0,1,0})), a*s, b*s); const auto F = OCCUtilities::getShape(d);
          const Seg3 through(e.p({p[0], p[1], -std::abs(h) - L}), e.p({p[0], p[1], std::abs(h) + L}));
          auto all = [&] (const auto& g, double want, const std::string& what) { nearD(computeDistanceToBoundary(g, d), want, unit, W + what + " to the boundary of a Disk"); nearD(computeDistanceToBoundary(OCCUtilities::getShape(g), d), want, unit, W + what + " (shape) to the boundary of a Disk");
              nearD(computeDistanceToBoundary(g, F), want, unit, W + what + " to the boundary of the face of a Disk"); nearD(computeDistanceToBoundary(OCCUtilities::getShape(g), F), want, unit, W + what + " (shape) to the boundary of the face of a Disk"); };
          all(P, D, "Point"); all(up, D, "Segment"); all(through, s*pl, "Segment through the plane");
          pointOnBoundary(P, d, D, W + "Disk, "); pointOnBoundary(P, F, D, W + "face of a Disk, "); pointOn(P, d, Din, W + "Disk, "); pointOn(P, F, Din, W + "face of a Disk, "); pointOn(P, d.boundingEllipse(), D, W + "Ellipse, "); }
        { const double R = 8; unit = 30*s; const J& K = c["c"]; auto [co, si] = pos(K["i"].i()); const double rho = K["rho"].d(), z = K["z"].d(), H = K["H"].d(); const bool up = rng.n(2);
          const CylinderSurface<double> cs(Circle<double,3>(e.p(0,0,up ? 0 : H), dir(up ? e.d({0,0,1}) : e.d({0,0,-1})), R*s), H*s); const P3 P = e.p(rho*co, rho*si, z); const double D = s*std::sqrt(c["cd2"].d());
          nearD(computeDistanceToBoundary(P, cs), D, unit, W + "Point to the boundary of a CylinderSurface"); pointOnBoundary(P, cs, D, W + "CylinderSurface, ");
          const double S = s*std::hypot(rho - R, z < 0 ? -z : z > H ? z - H : 0); nearD(computeDistance(P, cs), S, unit, W + "Point - CylinderSurface"); pointOn(P, cs, S, W + "CylinderSurface, ");
          const Cylinder<double> cy(Circle<double,3>(e.p(0,0,up ? 0 : H), dir(up ? e.d({0,0,1}) : e.d({0,0,-1})), R*s), H*s); nearD(computeDistanceToBoundary(P, OCCUtilities::getShape(cy)), s*std::sqrt(c["sd2"].d()), unit, W + "Point to the surface of a solid cylinder");
          refused([&] { computeDistanceToBoundary(P, cy); }, "Point to the boundary of a Cylinder"); refused([&] { pointOnGeometryBoundary(P, cy, 1.0); }, "pointOnGeometryBoundary of a Cylinder");
          const Sphere<double> sp(e.p(0,0,0), R*s); const double B = s*std::abs(std::hypot(rho, z) - R); nearD(computeDistanceToBoundary(P, OCCUtilities::getShape(sp)), B, unit, W + "Point to the surface of a ball"); refused([&] { computeDistanceToBoundary(P, sp); }, "Point to the boundary of a Sphere");
          refused([&] { computeDistanceToBoundary(P, Seg3(P, e.p(0,0,50))); }, "Point to the boundary of a Segment");
          // a disk at right angles to the axis
          const J& I = c["k"]; auto [cd, sd] = pos(I["i"].i()); const double m = I["m"].d(), r = I["r"].d(), zd = I["z"].d(); const Dsk dk(e.p(m*cd, m*sd, zd), dir(e.d({sd, -cd, 0})), dir(e.d({cd, sd, 0})), r*s, r*s);
          const P3 foot0 = P; (void)foot0;
          const double k2 = s*std::sqrt(c["kd2"]["both"].d()), kl = s*std::sqrt(c["kd2"]["low"].d());
          auto soft = [&] (double got, double want, const TopoDS_Shape& A, const TopoDS_Shape& B, double zc, const std::string& what) { // nearest points, for the kernel's wrong extrema
              const double tol = 2e-6*unit + 2.5e-7; if (std::abs(got - want) <= tol) return; double ra = m + r < R ? m + r : m - r > R ? m - r : R; double t; // a point of the disk on the cylinder, if it meets it
              A3 pd, pc; if (m + r >= R && std::abs(m - r) <= R && m > 0) { const double x = (m*m + R*R - r*r)/(2*m), y = std::sqrt(std::max(0.0, R*R - x*x)); pd = {x*cd - y*sd, x*sd + y*cd, zd}; pc = {pd[0], pd[1], zc}; (void)t; }
              else { pd = {ra*cd, ra*sd, zd}; pc = {R*cd, R*sd, zc}; }
              nearK(got, want, unit, A, B, e.p(pd), e.p(pc), what); };
          const double zc = std::abs(zd) <= std::abs(zd - H) ? 0 : H; const auto circ = [&] (double z0) { return OCCUtilities::getShape(Circle<double,3>(e.p(0,0,z0), dir(e.d({0,0,1})), R*s)); };
          soft(computeDistanceToBoundary(dk, cs), k2, OCCUtilities::getShape(dk), OCCUtilities::getShape((zc == 0) == up ? cs.lowerBoundingCircle() : cs.upperBoundingCircle()), zc, W + "Disk to the boundary of a CylinderSurface");
          if (c.has("sl")) { const J& S = c["sl"]; auto [cl, sl] = pos(S["i"].i()); const double r1 = S["p"][0].d(), z1 = S["p"][1].d(), r2 = S["q"][0].d(), z2 = S["q"][1].d(), wd = S["w"].d(); const double both = s*sq(c["sld2"]["both"]), low = s*sq(c["sld2"]["low"]);
            auto foot = [&] (double zr, double& rf, double& zf) { const double l = (r2-r1)*(r2-r1) + (z2-z1)*(z2-z1), u = std::clamp(((R-r1)*(r2-r1) + (zr-z1)*(z2-z1))/l, 0.0, 1.0); rf = r1 + u*(r2-r1); zf = z1 + u*(z2-z1); return std::hypot(rf - R, zf - zr); };
            auto check = [&] (const auto& g, const char* name) { double rf, zf, zc = 0; if (foot(H, rf, zf) < foot(0, rf, zf)) zc = H; const auto G = OCCUtilities::getShape(g);
                auto one = [&] (double got, double want, double z0, const TopoDS_Shape& B, const std::string& what) { double a, b; foot(z0, a, b); nearK(got, want, unit, G, B, e.p(a*cl, a*sl, b), e.p(R*cl, R*sl, z0), W + name + what); };
                const auto rim = OCCUtilities::getShape((zc == 0) == up ? cs.lowerBoundingCircle() : cs.upperBoundingCircle());
                one(computeDistanceToBoundary(g, cs), both, zc, rim, " to the boundary of a CylinderSurface");
                const Dsk base(e.p(0,0,0), dir(e.d({1,0,0})), dir(e.d({0,1,0})), R*s, R*s); const auto ring = OCCUtilities::getShape(base.boundingEllipse());
                one(computeDistanceToBoundary(g, base), low, 0, ring, " to the boundary of a Disk"); one(computeDistanceToBoundary(G, OCCUtilities::getShape(base)), low, 0, ring, " (shape) to the boundary of the face of a Disk"); };
            P3 a = e.p(r1*cl, r1*sl, z1), b = e.p(r2*cl, r2*sl, z2); if (rng.n(2)) std::swap(a, b); check(Seg3(a, b), "slanted Segment");
            if (S["out"].B()) { auto at = [&] (double r, double z, double y) { return e.p(r*cl - y*sl, r*sl + y*cl, z); }; std::vector<P3> v{at(r1, z1, -wd), at(r2, z2, -wd), at(r2, z2, wd), at(r1, z1, wd)}; std::rotate(v.begin(), v.begin() + rng.n(4), v.end()); if (rng.n(2)) std::reverse(v.begin(), v.end());
                const Quad qd(v[0], v[1], v[3], v[2]); check(Poly(v), "slanted Polygon"); check(qd, "slanted Quadrilateral"); } }
          const Dsk big(e.p(0,0,0), dir(e.d({1,0,0})), dir(e.d({0,1,0})), R*s, R*s); soft(computeDistanceToBoundary(dk, big), kl, OCCUtilities::getShape(dk), OCCUtilities::getShape(big.boundingEllipse()), 0, W + "Disk to the boundary of a Disk");
          soft(computeDistanceToBoundary(OCCUtilities::getShape(dk), OCCUtilities::getShape(big)), kl, OCCUtilities::getShape(dk), OCCUtilities::getShape(big.boundingEllipse()), 0, W + "face of a Disk to the boundary of the face of a Disk"); }
    } }
int main(int argc, char** argv) { const int variants = atoi(argv[2]);
    return caseLoop(argc, argv, [&] (int idx, const J& c) { if (c.has("dab")) poly(idx, c, variants); else { rim(idx, c, variants); kernelFlush(); } }); }
