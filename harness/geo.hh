// Realisation of lattice geometry in floating point: similarity embeddings and shape construction.
#ifndef VERIF_GEO_HH
#define VERIF_GEO_HH
#include "json.hh"
#include <random>
#include <array>
#include <frackit/geometry/point.hh>
#include <frackit/geometry/vector.hh>
#include <frackit/geometry/direction.hh>
#include <frackit/geometry/segment.hh>
#include <frackit/geometry/line.hh>
#include <frackit/geometry/plane.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/geometry/box.hh>
namespace fr = Frackit;
using P3 = fr::Point<double,3>; using V3 = fr::Vector<double,3>; using D3 = fr::Direction<double,3>;
using Seg3 = fr::Segment<double,3>; using Line3 = fr::Line<double,3>; using Plane3 = fr::Plane<double,3>;
using Dsk = fr::Disk<double>; using Quad = fr::Quadrilateral<double,3>; using Poly = fr::Polygon<double,3>;
using A3 = std::array<double,3>;
inline A3 operator+(A3 a, A3 b) { return {a[0]+b[0], a[1]+b[1], a[2]+b[2]}; }
inline A3 operator-(A3 a, A3 b) { return {a[0]-b[0], a[1]-b[1], a[2]-b[2]}; }
inline A3 operator*(double s, A3 a) { return {s*a[0], s*a[1], s*a[2]}; }
inline double dot(A3 a, A3 b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
inline A3 cross(A3 a, A3 b) { return {a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}; }
inline double norm(A3 a) { return std::sqrt(dot(a,a)); }
inline A3 arr(const P3& p) { return {p.x(), p.y(), p.z()}; }
inline A3 arr(const V3& p) { return {p.x(), p.y(), p.z()}; }
inline A3 arr(const D3& p) { return {p.x(), p.y(), p.z()}; }
inline P3 pt(A3 a) { return P3(a[0], a[1], a[2]); }
inline V3 vec(A3 a) { return V3(a[0], a[1], a[2]); }
inline D3 dir(A3 a) { return D3(V3(a[0], a[1], a[2])); }
inline double dist(const P3& a, const P3& b) { return norm(arr(a) - arr(b)); }

struct Rng { std::mt19937_64 g; Rng(std::uint64_t a, std::uint64_t b) : g(a*1000003ull + b*7919ull + 12345) {}
    double u(double lo = 0, double hi = 1) { return lo + (hi - lo)*double(g() >> 11)/9007199254740992.0; }
    int n(int k) { return int(g() % std::uint64_t(k)); } };

// x -> o + s*R*x
struct Emb {
    std::array<A3,3> r; A3 o; double s;   // r: images of the unit vectors
    A3 at(double x, double y, double z) const { return o + s*(x*r[0] + y*r[1] + z*r[2]); }
    A3 at(A3 p) const { return at(p[0], p[1], p[2]); }
    A3 d(A3 p) const { return p[0]*r[0] + p[1]*r[1] + p[2]*r[2]; }
    P3 p(double x, double y, double z) const { return pt(at(x,y,z)); }
    P3 p(A3 a) const { return pt(at(a)); }
};
inline Emb identityEmb(double s = 1.0) { return {{A3{1,0,0}, A3{0,1,0}, A3{0,0,1}}, A3{0,0,0}, s}; }
// signed permutation (keeps axis alignment)
inline Emb permEmb(Rng& rng, double s, double shift) {
    Emb e = identityEmb(s); int p[3] = {0,1,2}; for (int i = 2; i > 0; --i) std::swap(p[i], p[rng.n(i+1)]);
    for (int i = 0; i < 3; ++i) { e.r[i] = {0,0,0}; e.r[i][p[i]] = rng.n(2) ? 1.0 : -1.0; e.o[i] = s*shift*rng.u(-1,1); }
    return e; }
// random rotation (proper or with a reflection)
inline Emb rotEmb(Rng& rng, double s, double shift, bool mirror = false) {
    double q[4], n = 0; do { n = 0; for (double& x : q) { x = rng.u(-1,1); n += x*x; } } while (n > 1 || n < 0.01);
    n = std::sqrt(n); for (double& x : q) x /= n; const double w = q[0], x = q[1], y = q[2], z = q[3];
    Emb e; e.s = s;
    e.r[0] = {1-2*(y*y+z*z), 2*(x*y+w*z), 2*(x*z-w*y)};
    e.r[1] = {2*(x*y-w*z), 1-2*(x*x+z*z), 2*(y*z+w*x)};
    e.r[2] = {2*(x*z+w*y), 2*(y*z-w*x), 1-2*(x*x+y*y)};
    if (mirror) e.r[2] = -1.0*e.r[2];
    for (int i = 0; i < 3; ++i) e.o[i] = s*shift*rng.u(-1,1);
    return e; }
// variant v of the placement of a case: 0 plain, 1 axis permutation, >= 2 arbitrary rotations at several scales
inline double scaleOf(int k) { static const double t[7] = {1.0, 1e-3, 1e3, 0.037, 29.0, 1e-2, 311.0}; return t[k % 7]; }
inline Emb makeEmb(int v, Rng& rng, double shift = 15.0) {
    if (v == 0) return identityEmb();
    if (v == 1) return permEmb(rng, scaleOf(rng.n(7)), shift);
    return rotEmb(rng, scaleOf(rng.n(7)), shift, rng.n(2)); }

// a planar frame: x along ex, y along ey (unit vectors before embedding)
struct Frame { Emb e; A3 org, ex, ey;
    A3 at(double x, double y) const { return e.at(org + x*ex + y*ey); }
    A3 d(double x, double y) const { return e.d(x*ex + y*ey); } };
inline Frame frameOf(const Emb& e, A3 org, A3 ex, A3 ey) { return {e, org, (1/norm(ex))*ex, (1/norm(ey))*ey}; }

inline double num(const J& q) { // [p,s,q,d]
    return (q["p"].d() + q["s"].d()*std::sqrt(q["q"].d()))/q["d"].d(); }

inline std::vector<P3> corners(const J& s, const Frame& f, int shift = 0, bool rev = false) {
    std::vector<P3> r; const int n = int(s["c"].size());
    for (int i = 0; i < n; ++i) { const auto& c = s["c"][((rev ? n - i : i) + shift) % n]; r.push_back(pt(f.at(c[0].d(), c[1].d()))); }
    return r; }
inline Poly mkPoly(const J& s, const Frame& f, int shift = 0, bool rev = false) { return Poly(corners(s, f, shift, rev)); }
inline Quad mkQuad(const J& s, const Frame& f, int shift = 0, bool rev = false) { auto c = corners(s, f, shift, rev); return Quad(c[0], c[1], c[3], c[2]); }
// flip: bit 0 negates the minor axis, bit 1 the major axis
inline Dsk mkDisk(const J& s, const Frame& f, int flip = 0) {
    const double ux = s["u"][0].d(), uy = s["u"][1].d(), k = s["k"][0].d()/s["k"][1].d();
    const double L = std::hypot(ux, uy); A3 maj = f.d(ux/L, uy/L), mnr = f.d(-uy/L, ux/L);
    if (flip & 1) mnr = -1.0*mnr; if (flip & 2) maj = -1.0*maj;
    return Dsk(pt(f.at(s["m"][0].d(), s["m"][1].d())), dir(maj), dir(mnr), L*f.e.s, L*k*f.e.s); }
inline double bound(const J& s) { double m = 0;
    if (s["kind"].S() == "poly") { for (const auto& c : s["c"]) m = std::max(m, std::hypot(c[0].d(), c[1].d())); }
    else m = std::hypot(s["m"][0].d(), s["m"][1].d()) + std::hypot(s["u"][0].d(), s["u"][1].d());
    return m; }
inline std::string str(const P3& p) { std::ostringstream o; o.precision(12); o << "(" << p.x() << ", " << p.y() << ", " << p.z() << ")"; return o.str(); }
#endif
