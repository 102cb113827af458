// Calls into the Python package: the replays of the other properties, carried out through the embedded interpreter.
#ifndef VERIF_PY_HH
#define VERIF_PY_HH
#include <pybind11/embed.h>
#include <pybind11/stl.h>
#include <map>
#include <memory>
#include <variant>
#include <frackit/common/id.hh>
#include <frackit/geometry/disk.hh>
#include <frackit/geometry/quadrilateral.hh>
#include <frackit/geometry/polygon.hh>
#include <frackit/geometry/cylindersurface.hh>
#include <frackit/geometry/hollowcylinder.hh>
#include <frackit/python/geometry/brepwrapper.hh>
#include "json.hh"
namespace pyx {
namespace py = pybind11; using namespace Frackit;
inline py::module_& mod(const std::string& n) {
    static std::map<std::string, py::module_*> m; static bool up = [] { new py::scoped_interpreter(false); return true; }(); (void)up;
    auto*& p = m[n]; if (!p) { for (const char* k : {"common", "precision", "geometry", "occutilities", "sampling", "entitynetwork", "io"}) m[k] = new py::module_(py::module_::import((std::string("frackit.") + k).c_str())); if (!m[n]) m[n] = new py::module_(py::module_::import(n.c_str())); }
    return *m[n]; }
template<class T> struct IsVec : std::false_type {}; template<class T> struct IsVec<std::vector<T>> : std::true_type { using type = T; };
template<class T> struct IsVar : std::false_type {}; template<class... T> struct IsVar<std::variant<T...>> : std::true_type {};
template<class T> constexpr bool isShape = std::is_convertible_v<T, TopoDS_Shape>;
template<class T> using Wrapped = std::conditional_t<isShape<T>, Python::BRepWrapper<T>, T>;
template<class T> py::object in(const T& x) { mod("geometry");
    if constexpr (std::is_base_of_v<py::handle, T>) return py::reinterpret_borrow<py::object>(x);
    else if constexpr (IsVec<T>::value) { py::list l; for (const auto& e : x) l.append(in(e)); return l; }
    else if constexpr (IsVar<T>::value) return std::visit([] (const auto& e) { return in(e); }, x);
    else if constexpr (std::is_same_v<T, std::shared_ptr<Geometry>>) { if (auto d = std::dynamic_pointer_cast<Disk<double>>(x)) return in(*d); if (auto q = std::dynamic_pointer_cast<Quadrilateral<double,3>>(x)) return in(*q); std::cerr << "pointer to an unknown geometry"; std::_Exit(3); }
    else if constexpr (std::is_same_v<T, HollowCylinder<double>>) return mod("geometry").attr("HollowCylinder")(in(x.bottomInnerCircle().center()), in(x.axis()), x.innerRadius(), x.outerRadius(), x.height());
    else if constexpr (isShape<T>) return py::cast(Python::BRepWrapper<T>(x));
    else return py::cast(x); }
template<class T> T out(const py::object& o);
template<class V, std::size_t I = 0> V outVar(const py::object& o) { if constexpr (I == std::variant_size_v<V>) deviate("a result of an unexpected type: ", std::string(py::str(py::type::of(o)))); else { using A = std::variant_alternative_t<I, V>;
    bool is = false; try { is = py::type::of(o).is(py::type::of<Wrapped<A>>()); } catch (const py::error_already_set&) {} catch (const py::cast_error&) {} if (is) return V(out<A>(o)); return outVar<V, I+1>(o); } }
template<class T> T out(const py::object& o) {
    if constexpr (IsVec<T>::value) { T r; for (auto h : o) r.push_back(out<typename IsVec<T>::type>(py::reinterpret_borrow<py::object>(h))); return r; }
    else if constexpr (IsVar<T>::value) return outVar<T>(o);
    else { try { if constexpr (isShape<T>) return o.cast<const Python::BRepWrapper<T>&>().get(); else return o.cast<T>(); } catch (const py::cast_error&) { deviate("a result of an unexpected type: ", std::string(py::str(py::type::of(o)))); } } }
// a call; refusals arrive as exceptions, calls that are not offered for these arguments are deviations
struct Refused : std::runtime_error { using std::runtime_error::runtime_error; };
inline std::string pending; // a deviation met in a function called by Python
template<class F> py::object guard(F&& f) { try { return f(); } catch (py::error_already_set& e) { if (!pending.empty()) { const std::string p = pending; pending.clear(); throw Deviation(p); } const std::string w = e.what(); const bool type = e.matches(PyExc_TypeError) || e.matches(PyExc_AttributeError) || e.matches(PyExc_NameError); if (type) deviate("not offered: ", w.substr(0, 200)); throw Refused(w.substr(0, 300)); } }
template<class... A> py::object call(const char* m, const char* f, const A&... a) { py::module_& M = mod(m); return guard([&] { return M.attr(f)(in(a)...); }); }
template<class... A> py::object call(const py::object& o, const char* f, const A&... a) { return guard([&] { return o.attr(f)(in(a)...); }); }
template<class... A> py::object make(const char* m, const char* cls, const A&... a) { return call(m, cls, a...); }
// the intersections offered by the package
template<class A> constexpr int code() { using namespace Frackit; return std::is_same_v<A, Segment<double,3>> ? 1 : std::is_same_v<A, Quadrilateral<double,3>> ? 2 : std::is_same_v<A, Polygon<double,3>> ? 3 : std::is_same_v<A, Disk<double>> ? 4 : std::is_same_v<A, CylinderSurface<double>> ? 5 : std::is_same_v<A, TopoDS_Face> ? 6 : 0; }
template<class A, class B> constexpr bool meets() { constexpr int a = code<A>(), b = code<B>(); if (a == 0 || b == 0) return false; if (a == 1 || b == 1) return a == b; if (a == 5 && b == 5) return false; return !((a == 2 && b == 3) || (a == 3 && b == 2)); }
}
#endif
