// Replaces the free functions of the library by those of the Python package where the package offers them.
#ifndef VERIF_PYSHADOW_HH
#define VERIF_PYSHADOW_HH
#include <algorithm>
#include <frackit/geometry/point.hh>
#include <frackit/geometry/segment.hh>
#include <frackit/geometry/circle.hh>
#include <frackit/geometry/ellipse.hh>
#include <frackit/geometry/ellipsearc.hh>
#include <frackit/geometry/triangle.hh>
#include <frackit/geometry/box.hh>
#include <frackit/geometry/sphere.hh>
#include <frackit/geometry/cylinder.hh>
#include <frackit/geometry/hollowcylinder.hh>
#include <frackit/distance/distance.hh>
#include <frackit/distance/distancetoboundary.hh>
#include <frackit/magnitude/length.hh>
#include <frackit/magnitude/area.hh>
#include <frackit/magnitude/volume.hh>
#include <frackit/magnitude/magnitude.hh>
#include <frackit/magnitude/containedmagnitude.hh>
#include <frackit/intersection/intersect.hh>
#include <frackit/geometryutilities/getboundingbox.hh>
#include <frackit/occ/breputilities.hh>
#include "py.hh"
namespace pyx {
template<class T, class... L> constexpr bool one = (std::is_same_v<T, L> || ...);
template<class T> constexpr bool isPoint = one<T, Point<double,1>, Point<double,2>, Point<double,3>>;
template<class T> constexpr bool isLen = one<T, Segment<double,3>, Circle<double,3>, Ellipse<double,3>, EllipseArc<double,3>>;
template<class T> constexpr bool isSurf = one<T, Disk<double>, Quadrilateral<double,3>, Polygon<double,3>, CylinderSurface<double>>;
template<class T> constexpr bool isVol = one<T, Box<double>, Sphere<double>, Cylinder<double>>;
template<class T> struct Shaped { static constexpr bool v = isPoint<T> || isLen<T> || isSurf<T> || isVol<T> || isShape<T>; };
template<class... T> struct Shaped<std::variant<T...>> { static constexpr bool v = (Shaped<T>::v && ...); };
template<class T> struct Shaped<std::vector<T>> { static constexpr bool v = Shaped<T>::v; };
// shapes that have parts of a given level (vertex 0 ... solid 5)
template<class T> constexpr int level = std::is_same_v<T, TopoDS_Vertex> ? 0 : std::is_same_v<T, TopoDS_Edge> ? 1 : std::is_same_v<T, TopoDS_Wire> ? 2 : std::is_same_v<T, TopoDS_Face> ? 3 : std::is_same_v<T, TopoDS_Shell> ? 4 : std::is_same_v<T, TopoDS_Solid> ? 5 : isShape<T> ? 6 : -1;
template<class T, class U> constexpr bool toBoundary = Shaped<T>::v && (one<U, Quadrilateral<double,3>, Polygon<double,3>, Disk<double>, CylinderSurface<double>, TopoDS_Face, TopoDS_Solid> || (std::is_same_v<T, Point<double,3>> && std::is_same_v<U, Box<double>>));
}
template<class A, class B> double PYcomputeDistance(const A& a, const B& b) { if constexpr (pyx::Shaped<A>::v && pyx::Shaped<B>::v && !pyx::IsVec<A>::value) return pyx::out<double>(pyx::call("geometry", "computeDistance", a, b)); else return Frackit::computeDistance(a, b); }
template<class A, class B> double PYcomputeDistanceToBoundary(const A& a, const B& b) { if constexpr (pyx::toBoundary<A, B>) return pyx::out<double>(pyx::call("geometry", "computeDistanceToBoundary", a, b)); else return Frackit::computeDistanceToBoundary(a, b); }
template<class A> double PYcomputeMagnitude(const A& a) { if constexpr (pyx::isLen<A> || pyx::isSurf<A> || pyx::isVol<A> || pyx::one<A, Frackit::Vector<double,3>, Frackit::Triangle<double,3>, Frackit::HollowCylinder<double>, TopoDS_Edge, TopoDS_Wire, TopoDS_Face, TopoDS_Shell, TopoDS_Solid>) return pyx::out<double>(pyx::call("geometry", "computeMagnitude", a)); else return Frackit::computeMagnitude(a); }
template<class A> double PYcomputeLength(const A& a) { if constexpr (pyx::isLen<A>) return pyx::out<double>(pyx::call("geometry", "computeLength", a)); else return Frackit::computeLength(a); }
template<class A> double PYcomputeArea(const A& a) { if constexpr (pyx::isSurf<A> || pyx::one<A, Frackit::Triangle<double,3>>) return pyx::out<double>(pyx::call("geometry", "computeArea", a)); else return Frackit::computeArea(a); }
template<class A> double PYcomputeVolume(const A& a) { if constexpr (pyx::isVol<A> || pyx::one<A, Frackit::HollowCylinder<double>>) return pyx::out<double>(pyx::call("geometry", "computeVolume", a)); else return Frackit::computeVolume(a); }
template<class A, class B> double PYcomputeContainedMagnitude(const A& a, const B& b) { if constexpr (pyx::one<A, Frackit::Segment<double,3>, Frackit::Disk<double>, Frackit::Quadrilateral<double,3>, TopoDS_Face> && pyx::one<B, Frackit::Box<double>, Frackit::Cylinder<double>, TopoDS_Solid>) return pyx::out<double>(pyx::call("geometry", "computeContainedMagnitude", a, b)); else return Frackit::computeContainedMagnitude(a, b); }
template<class A> auto PYgetBoundingBox(const A& a) -> decltype(Frackit::getBoundingBox(a)) { using R = decltype(Frackit::getBoundingBox(a)); if constexpr (pyx::isLen<A> || pyx::isSurf<A> || pyx::isVol<A> || pyx::isShape<A>) return pyx::out<R>(pyx::call("geometry", "getBoundingBox", a)); else return Frackit::getBoundingBox(a); }
template<class A, class B, class... E> auto PYintersect(const A& a, const B& b, E... e) { if constexpr (pyx::meets<A, B>()) return pyx::out<Frackit::Intersection<A, B>>(pyx::call("geometry", "intersect", a, b, e...)); else return Frackit::intersect(a, b, e...); }
namespace Frackit::OCCUtilities {
template<class A> auto PYgetShape(const A& a) { using R = std::decay_t<decltype(getShape(a))>; if constexpr (pyx::Shaped<A>::v) return pyx::out<R>(pyx::call("occutilities", "getShape", a)); else return R(getShape(a)); }
template<class A> Box<double> PYgetBoundingBox(const A& a) { return pyx::out<Box<double>>(pyx::call("occutilities", "getBoundingBox", TopoDS_Shape(a))); }
inline TopoDS_Shape PYintersect(const TopoDS_Shape& a, const TopoDS_Shape& b, double e) { return pyx::out<TopoDS_Shape>(pyx::call("occutilities", "intersect", a, b, e)); }
#define PARTS(N, L) template<class A> auto PY##N(const A& a) { using R = decltype(N(a)); if constexpr (pyx::level<A> >= L) return pyx::out<R>(pyx::call("occutilities", #N, a)); else return N(a); }
PARTS(getVertices, 0) PARTS(getEdges, 1) PARTS(getWires, 2) PARTS(getFaces, 3) PARTS(getShells, 4) PARTS(getSolids, 5)
}
#define computeDistance PYcomputeDistance
#define computeDistanceToBoundary PYcomputeDistanceToBoundary
#define computeMagnitude PYcomputeMagnitude
#define computeLength PYcomputeLength
#define computeArea PYcomputeArea
#define computeVolume PYcomputeVolume
#define computeContainedMagnitude PYcomputeContainedMagnitude
#define getBoundingBox PYgetBoundingBox
#define intersect PYintersect
#define getShape PYgetShape
#define getVertices PYgetVertices
#define getEdges PYgetEdges
#define getWires PYgetWires
#define getFaces PYgetFaces
#define getShells PYgetShells
#define getSolids PYgetSolids
#endif
