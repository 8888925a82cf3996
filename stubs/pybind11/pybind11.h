// Stand-in for the part of pybind11's and NumPy's interface that PyMatching's bindings use (neither is available offline).
// Values are small tagged records; functions given to def() go into a registry from which a harness calls them with Python-like
// arguments (py_call). Objects are never freed.
#pragma once
#include <array>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
namespace pybind11 {
using ssize_t = ptrdiff_t;
struct cast_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct type_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct value_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct index_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct key_error : std::runtime_error { using std::runtime_error::runtime_error; };
enum Kind { K_NONE, K_BOOL, K_INT, K_FLOAT, K_STR, K_ARRAY, K_TUPLE, K_LIST, K_DICT, K_SET, K_NAME, K_REF, K_CSC, K_ELLIPSIS, K_CAPSULE };
struct Obj;
struct object;
struct attr_ref;
struct item_ref;
struct arg;
struct arg_v;
struct handle {
    Obj* o = nullptr;
    handle() {}
    handle(Obj* o) : o(o) {}
    bool is(const handle& h) const;
    bool is_none() const;
    explicit operator bool() const { return o != nullptr; }
    template <typename T> T cast() const;
    attr_ref attr(const char* name) const;
    template <typename K> item_ref operator[](const K& k) const;
    template <typename... A> object operator()(A&&... a) const;
    ssize_t size() const;
};
struct object : handle {
    object() {}
    object(Obj* o) : handle(o) {}
    object(const handle& h) : handle(h) {}
};
using ArrayElem = char;
template <typename T> struct elem_tag;
template <> struct elem_tag<bool> { static constexpr char v = '?'; };
template <> struct elem_tag<uint8_t> { static constexpr char v = 'B'; };
template <> struct elem_tag<int8_t> { static constexpr char v = 'b'; };
template <> struct elem_tag<uint16_t> { static constexpr char v = 'H'; };
template <> struct elem_tag<int16_t> { static constexpr char v = 'h'; };
template <> struct elem_tag<int32_t> { static constexpr char v = 'i'; };
template <> struct elem_tag<uint32_t> { static constexpr char v = 'I'; };
template <> struct elem_tag<int64_t> { static constexpr char v = 'l'; };
template <> struct elem_tag<uint64_t> { static constexpr char v = 'L'; };
template <> struct elem_tag<double> { static constexpr char v = 'd'; };
struct Obj {
    Kind kind;
    int64_t i = 0;
    double d = 0;
    std::string s;
    std::vector<object> items;   // tuple, list, set; dict: key, value, key, value ...; csc: data, indices, indptr, shape
    char et = 0;                 // array element type
    size_t count = 0;            // array elements
    void* data = nullptr;
    std::vector<ssize_t> shape;
    std::vector<ssize_t> strides;  // in elements; empty: row-major without gaps
    void* ref = nullptr;
    Obj(Kind k) : kind(k) {}
};
inline Obj* mk(Kind k) { return new Obj(k); }
inline bool handle::is_none() const { return o && o->kind == K_NONE; }
inline bool handle::is(const handle& h) const { return o == h.o || (is_none() && h.is_none()); }
struct none : object { none() : object(mk(K_NONE)) {} };
struct ellipsis : object { ellipsis() : object(mk(K_ELLIPSIS)) {} };
struct capsule : object {
    template <typename D> capsule(void* p, D) : object(mk(K_CAPSULE)) { o->ref = p; }
    template <typename D> capsule(const void* p, D) : object(mk(K_CAPSULE)) { o->ref = (void*)p; }
    explicit capsule(void* p) : object(mk(K_CAPSULE)) { o->ref = p; }
};
struct str : object {
    str() : object(mk(K_STR)) {}
    str(const char* s) : object(mk(K_STR)) { o->s = s; }
    str(const std::string& s) : object(mk(K_STR)) { o->s = s; }
};

// ---- conversion between C++ and object
template <typename T> struct conv;
template <typename T> object to_obj(T&& v) { return conv<std::remove_cv_t<std::remove_reference_t<T>>>::to(std::forward<T>(v)); }
inline int64_t int_of(const handle& h) {
    if (h.o && (h.o->kind == K_INT || h.o->kind == K_BOOL)) return h.o->i;
    throw cast_error("not an integer");
}
template <typename T> requires(std::is_integral_v<T> && !std::is_same_v<T, bool>) struct conv<T> {
    static object to(T v) { auto o = mk(K_INT); o->i = (int64_t)v; return o; }
    static T from(const handle& h) {
        int64_t v = int_of(h);
        if (std::is_unsigned_v<T> && v < 0) throw type_error("negative value for an unsigned argument");
        return (T)v;
    }
};
template <> struct conv<bool> {
    static object to(bool v) { auto o = mk(K_BOOL); o->i = v; return o; }
    static bool from(const handle& h) { return int_of(h) != 0; }
};
template <> struct conv<double> {
    static object to(double v) { auto o = mk(K_FLOAT); o->d = v; return o; }
    static double from(const handle& h) { if (h.o && h.o->kind == K_FLOAT) return h.o->d; return (double)int_of(h); }
};
template <> struct conv<float> { static object to(float v) { return conv<double>::to(v); } static float from(const handle& h) { return (float)conv<double>::from(h); } };
template <> struct conv<std::string> {
    static object to(const std::string& v) { return str(v); }
    static std::string from(const handle& h) { if (!h.o || h.o->kind != K_STR) throw cast_error("not a string"); return h.o->s; }
};
template <> struct conv<const char*> {
    static object to(const char* v) { return str(v); }
    static const char* from(const handle& h) { if (!h.o || h.o->kind != K_STR) throw cast_error("not a string"); return h.o->s.c_str(); }
};
template <size_t N> struct conv<char[N]> { static object to(const char* v) { return str(v); } };
template <typename T> requires(std::is_base_of_v<handle, T>) struct conv<T> {
    static object to(const T& v) { return object(v); }
    static T from(const handle& h) { T t; static_cast<handle&>(t) = h; return t; }
};
template <typename C> object seq_to(Kind k, const C& c) { auto o = mk(k); for (auto& x : c) o->items.push_back(to_obj(x)); return o; }
template <typename T> struct conv<std::vector<T>> {
    static object to(const std::vector<T>& v) { return seq_to(K_LIST, v); }
    static std::vector<T> from(const handle& h) { std::vector<T> r; for (auto& x : h.o->items) r.push_back(conv<T>::from(x)); return r; }
};
template <typename T> struct conv<std::set<T>> {
    static object to(const std::set<T>& v) { return seq_to(K_SET, v); }
    static std::set<T> from(const handle& h) { std::set<T> r; for (auto& x : h.o->items) r.insert(conv<T>::from(x)); return r; }
};
template <typename A, typename B> struct conv<std::pair<A, B>> {
    static object to(const std::pair<A, B>& v) { auto o = mk(K_TUPLE); o->items.push_back(to_obj(v.first)); o->items.push_back(to_obj(v.second)); return o; }
};
template <typename... A> struct conv<std::tuple<A...>> {
    static object to(const std::tuple<A...>& v) { auto o = mk(K_TUPLE); std::apply([&](auto&... x) { (o->items.push_back(to_obj(x)), ...); }, v); return o; }
};
template <typename T> struct conv<std::optional<T>> {
    static object to(const std::optional<T>& v) { return v ? to_obj(*v) : object(none()); }
    static std::optional<T> from(const handle& h) { if (h.is_none()) return {}; return conv<T>::from(h); }
};
// bound classes: passed by reference
template <typename T> requires(std::is_class_v<T> && !std::is_base_of_v<handle, T>) struct conv<T> {
    static object to(T&& v) { auto o = mk(K_REF); o->ref = new T(std::move(v)); return o; }
    static object to(const T& v) { auto o = mk(K_REF); o->ref = (void*)&v; return o; }
    static T& from(const handle& h) { if (!h.o || h.o->kind != K_REF) throw cast_error("not an instance"); return *(T*)h.o->ref; }
};
template <typename T> T handle::cast() const { return conv<std::remove_cv_t<std::remove_reference_t<T>>>::from(*this); }
template <typename T> object cast(T&& v) { return to_obj(std::forward<T>(v)); }
template <typename T> T cast(const handle& h) { return h.cast<T>(); }
template <typename T> object cast_h(const handle& h) { return h; }

inline bool obj_eq(const Obj* a, const Obj* b) { return a == b || (a->kind == b->kind && a->i == b->i && a->s == b->s && a->kind != K_FLOAT); }
// ---- keyword arguments
struct arg_v { const char* name; object value; };
struct arg {
    const char* name;
    explicit constexpr arg(const char* n) : name(n) {}
    template <typename T> arg_v operator=(T&& v) const { return {name, to_obj(std::forward<T>(v))}; }
    arg& noconvert(bool = true) { return *this; }
    arg& none(bool = true) { return *this; }
};
namespace literals { constexpr arg operator""_a(const char* n, size_t) { return arg(n); } }
using namespace literals;

// ---- containers
struct item_ref : object {
    Obj* owner; object key;
    item_ref(Obj* ow, object k, object v) : object(v), owner(ow), key(k) {}
    template <typename V> requires(!std::is_same_v<std::remove_cvref_t<V>, item_ref>) item_ref& operator=(V&& v) { set(to_obj(std::forward<V>(v))); return *this; }
    item_ref& operator=(const item_ref& v) { set(object(v.o)); return *this; }
    void set(object v);
};
struct attr_ref : object {
    attr_ref(object v) : object(v) {}
};
struct tuple : object {
    tuple() : object(mk(K_TUPLE)) {}
    explicit tuple(size_t n) : object(mk(K_TUPLE)) { o->items.resize(n); }
    tuple(const object& h) : object(h) {}
};
struct list : object {
    list() : object(mk(K_LIST)) {}
    explicit list(size_t n) : object(mk(K_LIST)) { o->items.resize(n); }
    list(const object& h) : object(h) {}
    template <typename T> void append(T&& v) { o->items.push_back(to_obj(std::forward<T>(v))); }
};
struct set : object {
    set() : object(mk(K_SET)) {}
    template <typename T> bool add(T&& v) { object x = to_obj(std::forward<T>(v)); for (auto& y : o->items) if (obj_eq(y.o, x.o)) return true; o->items.push_back(x); return true; }
};
struct dict : object {
    dict() : object(mk(K_DICT)) {}
    template <typename... A> requires(sizeof...(A) > 0 && (std::is_same_v<std::remove_cvref_t<A>, arg_v> && ...)) explicit dict(A&&... a) : object(mk(K_DICT)) {
        ((o->items.push_back(str(a.name)), o->items.push_back(a.value)), ...);
    }
    bool contains(const object& k) const { for (size_t i = 0; i + 1 < o->items.size(); i += 2) if (obj_eq(o->items[i].o, k.o)) return true; return false; }
};
template <typename... A> tuple make_tuple(A&&... a) { tuple t; (t.o->items.push_back(to_obj(std::forward<A>(a))), ...); return t; }
inline ssize_t handle::size() const { return o->kind == K_ARRAY ? (ssize_t)o->count : o->kind == K_DICT ? (ssize_t)o->items.size() / 2 : (ssize_t)o->items.size(); }
inline size_t len(const handle& h) { return h.size(); }
size_t array_fill(Obj* a, const object& v);
inline void item_ref::set(object v) {
    o = v.o;
    if (owner->kind == K_DICT) {
        for (size_t i = 0; i + 1 < owner->items.size(); i += 2) if (obj_eq(owner->items[i].o, key.o)) { owner->items[i + 1] = v; return; }
        owner->items.push_back(key);
        owner->items.push_back(v);
    } else if (owner->kind == K_ARRAY) {
        array_fill(owner, v);
    } else {
        owner->items.at(key.o->i) = v;
    }
}
template <typename K> item_ref handle::operator[](const K& k) const {
    object key = to_obj(k);
    if (o->kind == K_DICT) {
        for (size_t i = 0; i + 1 < o->items.size(); i += 2) if (obj_eq(o->items[i].o, key.o)) return item_ref(o, key, o->items[i + 1]);
        return item_ref(o, key, object());
    }
    if (o->kind == K_ARRAY) return item_ref(o, key, object());
    return item_ref(o, key, o->items.at(key.o->i));
}
inline attr_ref handle::attr(const char* name) const {
    if (o->kind == K_NAME) { auto r = mk(K_NAME); r->s = o->s + "." + name; return attr_ref(object(r)); }
    if (o->kind == K_CSC) {
        static const char* const names[4] = {"data", "indices", "indptr", "shape"};
        for (int i = 0; i < 4; i++) if (!strcmp(name, names[i])) return attr_ref(o->items[i]);
    }
    throw key_error("attribute");
}
struct module_ : object {
    module_() : object(mk(K_NAME)) {}
    module_(const object& h) : object(h) {}
    static module_ import(const char* n) { auto r = mk(K_NAME); r->s = n; return module_(object(r)); }
    template <typename F, typename... X> module_& def(const char* name, F&& f, X&&...);
};
using module = module_;
inline bool isinstance(const handle& h, const handle& type) { return h.o && type.o && h.o->kind == K_CSC && type.o->s == "scipy.sparse.csc_matrix"; }
extern int py_warnings;
object py_eye(size_t n);
inline object py_name_call(const Obj* f, const std::vector<object>& a) {
    if (f->s == "warnings.warn") { py_warnings++; return none(); }
    if (f->s == "scipy.sparse.eye") return py_eye((size_t)int_of(a[0]));
    throw type_error("call");
}
inline void push_arg(std::vector<object>&, const arg_v&) {}
template <typename T> void push_arg(std::vector<object>& v, T&& x) { v.push_back(to_obj(std::forward<T>(x))); }
template <typename... A> object handle::operator()(A&&... a) const {
    std::vector<object> v;
    (push_arg(v, std::forward<A>(a)), ...);
    return py_name_call(o, v);
}

// ---- functions and classes
using Args = std::vector<object>;
struct Fn { virtual object call(Args& a) = 0; };
template <typename T> decltype(auto) arg_from(const object& o) { return conv<std::remove_cv_t<std::remove_reference_t<T>>>::from(o); }
// holds a converted argument for the duration of the call
template <typename T> struct holder {
    using D = std::remove_cv_t<std::remove_reference_t<T>>;
    using S = decltype(conv<D>::from(std::declval<const handle&>()));
    S v;
    holder(const object& o) : v(conv<D>::from(o)) {}
    T get() { if constexpr (std::is_rvalue_reference_v<T> || !std::is_reference_v<T>) return std::move(v); else return v; }
};
template <typename F, typename R, typename... A> struct FnImpl : Fn {
    F f;
    FnImpl(F f) : f(std::move(f)) {}
    template <size_t... I> object go(Args& a, std::index_sequence<I...>) {
        std::tuple<holder<A>...> h{a.at(I)...};
        if constexpr (std::is_void_v<R>) { std::invoke(f, std::get<I>(h).get()...); return none(); }
        else return to_obj(std::invoke(f, std::get<I>(h).get()...));
    }
    object call(Args& a) override { return go(a, std::index_sequence_for<A...>{}); }
};
struct Entry { const char* name; Fn* f; };
inline std::vector<Entry>& registry() { static std::vector<Entry>* r = new std::vector<Entry>(); return *r; }
template <typename F, typename R, typename... A> void reg(const char* n, F f) { registry().push_back({n, new FnImpl<F, R, A...>(std::move(f))}); }
template <typename F, typename R, typename C, typename... A> void reg_op(const char* n, F f, R (C::*)(A...) const) { reg<F, R, A...>(n, std::move(f)); }
template <typename F, typename R, typename C, typename... A> void reg_op(const char* n, F f, R (C::*)(A...)) { reg<F, R, A...>(n, std::move(f)); }
template <typename F> void reg_any(const char* n, F f) { reg_op(n, f, &F::operator()); }
template <typename R, typename... A> void reg_any(const char* n, R (*f)(A...)) { reg<R (*)(A...), R, A...>(n, f); }
template <typename R, typename C, typename... A> void reg_any(const char* n, R (C::*f)(A...)) { reg<R (C::*)(A...), R, C&, A...>(n, f); }
template <typename R, typename C, typename... A> void reg_any(const char* n, R (C::*f)(A...) const) { reg<R (C::*)(A...) const, R, C&, A...>(n, f); }
template <typename F, typename... X> module_& module_::def(const char* name, F&& f, X&&...) { reg_any(name, std::decay_t<F>(std::forward<F>(f))); return *this; }
template <typename... A> struct init {};
template <typename T, typename... O> struct class_ : object {
    template <typename... X> class_(const object&, const char*, X&&...) : object(mk(K_NAME)) {}
    template <typename... A, typename... X> class_& def(init<A...>, X&&...) { return *this; }
    template <typename F, typename... X> class_& def(const char* name, F&& f, X&&...) { reg_any(name, std::decay_t<F>(std::forward<F>(f))); return *this; }
    template <typename F, typename... X> class_& def_static(const char* name, F&& f, X&&...) { reg_any(name, std::decay_t<F>(std::forward<F>(f))); return *this; }
    template <typename F, typename... X> class_& def_property_readonly(const char*, F&&, X&&...) { return *this; }
};
inline object py_call_args(const char* name, Args a) {
    for (auto& e : registry()) if (!strcmp(e.name, name)) return e.f->call(a);
    throw std::logic_error("no such binding");
}
template <typename T> object py_arg(T&& v) { return to_obj(std::forward<T>(v)); }
template <typename... A> object py_call(const char* name, A&&... a) { return py_call_args(name, Args{py_arg(std::forward<A>(a))...}); }
template <typename T> object py_ref(T& t) { auto o = mk(K_REF); o->ref = &t; return o; }
struct gil_scoped_release { ~gil_scoped_release() {} };
struct gil_scoped_acquire { ~gil_scoped_acquire() {} };
struct return_value_policy { enum E { automatic, copy, move, reference, take_ownership }; };
}  // namespace pybind11
