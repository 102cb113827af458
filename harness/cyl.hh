// placing the cases of CylCuts.tla
#ifndef VERIF_CYL_HH
#define VERIF_CYL_HH
#include "dist.hh"
static const double NODE[12][2] = {{5,0},{4,3},{3,4},{0,5},{-3,4},{-4,3},{-5,0},{-4,-3},{-3,-4},{0,-5},{3,-4},{4,-3}};
struct Cut { Emb e; double H, m, a, b, c0; bool flat, axial; double size;
    // the point of the plane above (x, y)
    P3 at(double x, double y) const { return e.p(x, y, m*(a*x + b*y - c0)); } };
static Cut mkCut(const J& c, const Emb& e) { Cut q{e, 0, 0, 0, 0, 0, true, c["mode"].S() == "axial", 0};
    if (q.axial) { q.H = c["H"].d(); q.size = (bound(c["A"]) + 5)*e.s; return q; }
    const J& Q = c["Q"]; q.flat = Q["t"].S() == "flat";
    if (q.flat) { q.H = Q["H"].d(); q.m = 1; q.c0 = -Q["h"].d(); }
    else { q.m = Q["m"][0].d()/Q["m"][1].d(); q.a = Q["a"].d(); q.b = Q["b"].d(); q.c0 = Q["c"].d(); q.H = q.m*(Q["e"].d() - q.c0); }
    q.size = std::max(q.H, 12*(1 + q.m*std::hypot(q.a, q.b)))*e.s; return q; }
static CylinderSurface<double> mkSurface(const Cut& q, int flip) { const A3 Z = q.e.d({0,0,1});
    return flip ? CylinderSurface<double>(Circle<double,3>(q.e.p(0,0,q.H), dir(-1.0*Z), 5*q.e.s), q.H*q.e.s) : CylinderSurface<double>(Circle<double,3>(q.e.p(0,0,0), dir(Z), 5*q.e.s), q.H*q.e.s); }
template<class F> void onCutShape(const J& c, const Cut& q, Rng& rng, F&& fn) {
    if (q.axial) { const J& s = c["A"]; const Frame f = frameOf(q.e, {c["a"].d(),0,0}, {0,0,1}, {0,1,0});
        if (s["kind"].S() == "disk") fn(mkDisk(s, f, rng.n(4)), "disk"); else if (s["c"].size() == 4 && rng.n(2)) fn(mkQuad(s, f, rng.n(4), rng.n(2)), "quadrilateral"); else fn(mkPoly(s, f, rng.n(int(s["c"].size())), rng.n(2)), "polygon");
        return; }
    const J& s = c["S"];
    if (s["kind"].S() == "disk") { const double r = std::sqrt(s["r2"].d()), g = std::hypot(q.a, q.b), x = s["c"][0][0].d(), y = s["c"][0][1].d();
        A3 U = {1,0,0}, V = {0,1,0}; double L = 1; if (!q.flat) { L = std::sqrt(1 + q.m*q.m*g*g); U = {q.a/g/L, q.b/g/L, q.m*g/L}; V = {-q.b/g, q.a/g, 0}; }
        else { const double t = rng.u(0, 7); U = {std::cos(t), std::sin(t), 0}; V = {-std::sin(t), std::cos(t), 0}; }
        fn(Dsk(q.at(x, y), dir((rng.n(2) ? 1 : -1)*q.e.d(U)), dir((rng.n(2) ? 1 : -1)*q.e.d(V)), r*L*q.e.s, r*q.e.s), "disk"); return; }
    const int n = int(s["c"].size()), sh = rng.n(n); const bool rev = rng.n(2); std::vector<P3> p; for (int i = 0; i < n; ++i) { const J& k = s["c"][((rev ? n - i : i) + sh) % n]; p.push_back(q.at(k[0].d(), k[1].d())); }
    if (n == 4 && rng.n(2)) fn(Quad(p[0], p[1], p[3], p[2]), "quadrilateral"); else fn(Poly(p), "polygon"); }
// angle of a point around the axis in multiples of a turn
static double turn(const Cut& q, const P3& p) { const A3 d = arr(p) - q.e.o; return std::atan2(dot(d, q.e.r[1]), dot(d, q.e.r[0]))/(2*M_PI); }
static int nodeOf(const Cut& q, const P3& p, double tol) { for (int k = 0; k < 12; ++k) if (dist(p, q.at(NODE[k][0], NODE[k][1])) <= tol) return k + 1; return 0; }
#endif
