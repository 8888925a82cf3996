#pragma once
#include "pybind11/pybind11.h"
namespace pybind11 {
struct buffer_info { void* ptr; ssize_t itemsize; ssize_t size; ssize_t ndim; std::vector<ssize_t> shape; std::vector<ssize_t> strides; };
template <typename T, int D> struct unchecked_ref {
    T* p; std::array<ssize_t, D> sh, st;
    T& operator()(ssize_t i) const requires(D == 1) { return p[i * st[0]]; }
    T& operator[](ssize_t i) const requires(D == 1) { return p[i * st[0]]; }
    T& operator()(ssize_t i, ssize_t j) const requires(D == 2) { return p[i * st[0] + j * st[1]]; }
    ssize_t shape(ssize_t k) const { return sh[k]; }
    ssize_t size() const { ssize_t s = 1; for (auto x : sh) s *= x; return s; }
    ssize_t ndim() const { return D; }
    T* data(ssize_t i = 0) const { return p + i * st[0]; }
    T* mutable_data(ssize_t i = 0) const { return p + i * st[0]; }
};
inline ssize_t stride_of(const Obj* a, size_t k) {
    if (!a->strides.empty()) return a->strides[k];
    ssize_t s = 1;
    for (size_t j = k + 1; j < a->shape.size(); j++) s *= a->shape[j];
    return s;
}
/// place of the i-th element in row-major order
inline ssize_t place_of(const Obj* a, size_t i) {
    if (a->strides.empty()) return (ssize_t)i;
    if (a->shape.size() == 1) return (ssize_t)i * a->strides[0];
    return (ssize_t)(i / (size_t)a->shape[1]) * a->strides[0] + (ssize_t)(i % (size_t)a->shape[1]) * a->strides[1];
}
struct array : object { enum { c_style = 1, f_style = 2, forcecast = 16 }; using object::object; array() {} };
template <typename T> Obj* mk_array(const std::vector<ssize_t>& shape, T* data) {
    auto o = mk(K_ARRAY);
    o->et = elem_tag<T>::v;
    o->count = 1;
    for (auto s : shape) o->count *= (size_t)s;
    o->shape = shape;
    o->data = data ? (void*)data : (void*)new T[o->count ? o->count : 1];   // like numpy.empty: contents undefined
    return o;
}
template <typename D> struct elems_copy {
    template <typename S> static Obj* run(const Obj* a) { auto r = mk_array<D>(a->shape, nullptr); for (size_t i = 0; i < a->count; i++) ((D*)r->data)[i] = (D)((S*)a->data)[place_of(a, i)]; return r; }
};
template <typename D, int F = 16> Obj* convert_array(Obj* a) {
    if (!a || a->kind != K_ARRAY || (a->et == elem_tag<D>::v && (a->strides.empty() || !(F & array::c_style)))) return a;
    switch (a->et) {
        case 'B': return elems_copy<D>::template run<uint8_t>(a);
        case 'i': return elems_copy<D>::template run<int32_t>(a);
        case 'I': return elems_copy<D>::template run<uint32_t>(a);
        case 'l': return elems_copy<D>::template run<int64_t>(a);
        case 'L': return elems_copy<D>::template run<uint64_t>(a);
        case 'd': return elems_copy<D>::template run<double>(a);
        case '?': return elems_copy<D>::template run<bool>(a);
    }
    throw type_error("array element type");
}
template <typename T, int F = 16> struct array_t : array {
    array_t() {}
    explicit array_t(size_t n) : array(mk_array<T>({(ssize_t)n}, nullptr)) {}
    explicit array_t(const std::vector<ssize_t>& shape) : array(mk_array<T>(shape, nullptr)) {}
    array_t(std::initializer_list<ssize_t> shape) : array(mk_array<T>(std::vector<ssize_t>(shape), nullptr)) {}
    array_t(size_t n, const T* p, const handle& base = handle()) : array(wrap({(ssize_t)n}, p, base)) {}
    array_t(const std::vector<ssize_t>& shape, const T* p, const handle& base = handle()) : array(wrap(shape, p, base)) {}
    template <typename U, int G> requires(!std::is_same_v<U, T>) array_t(const array_t<U, G>& x) : array(convert_array<T, F>(x.o)) {}
    array_t(const object& x) : array(convert_array<T, F>(x.o)) {}
    // with a base object the array shares the memory, without one it is a copy
    static Obj* wrap(const std::vector<ssize_t>& shape, const T* p, const handle& base) {
        if (base.o) return mk_array<T>(shape, (T*)p);
        auto r = mk_array<T>(shape, nullptr);
        for (size_t i = 0; i < r->count; i++) ((T*)r->data)[i] = p[i];
        return r;
    }
    const T* data() const { return (const T*)o->data; }
    T* mutable_data() { return (T*)o->data; }
    template <typename... I> const T* data(ssize_t i, I... j) const { return &const_cast<array_t*>(this)->mutable_at(i, (ssize_t)j...); }
    template <typename... I> T* mutable_data(ssize_t i, I... j) { return &mutable_at(i, (ssize_t)j...); }
    ssize_t size() const { return (ssize_t)o->count; }
    ssize_t ndim() const { return (ssize_t)o->shape.size(); }
    ssize_t shape(ssize_t k) const { return o->shape.at(k); }
    ssize_t nbytes() const { return (ssize_t)(o->count * sizeof(T)); }
    template <typename... I> T& at(I... i) const { return const_cast<array_t*>(this)->mutable_at(i...); }
    T& mutable_at(ssize_t i) { return ((T*)o->data)[i * stride_of(o, 0)]; }
    T& mutable_at(ssize_t i, ssize_t j) { return ((T*)o->data)[i * stride_of(o, 0) + j * stride_of(o, 1)]; }
    ssize_t strides(ssize_t k) const { return stride_of(o, k) * (ssize_t)sizeof(T); }
    buffer_info request(bool = false) const { return {o->data, (ssize_t)sizeof(T), (ssize_t)o->count, ndim(), o->shape, byte_strides()}; }
    std::vector<ssize_t> byte_strides() const { std::vector<ssize_t> r; for (size_t k = 0; k < o->shape.size(); k++) r.push_back(strides(k)); return r; }
    template <int D = 1> unchecked_ref<const T, D> unchecked() const { return ref<const T, D>(); }
    template <int D = 1> unchecked_ref<T, D> mutable_unchecked() { return ref<T, D>(); }
    template <typename Q, int D> unchecked_ref<Q, D> ref() const {
        if (!o || o->kind != K_ARRAY || ndim() != D) throw std::domain_error("array has incorrect number of dimensions");
        unchecked_ref<Q, D> r;
        r.p = (Q*)o->data;
        for (int k = 0; k < D; k++) r.sh[k] = o->shape[k], r.st[k] = stride_of(o, k);
        return r;
    }
    void resize(const std::vector<ssize_t>& shape, bool = true) {
        size_t n = 1;
        for (auto s : shape) n *= (size_t)s;
        if (n != o->count) throw value_error("resize");
        o->shape = shape;
    }
    array_t reshape(const std::vector<ssize_t>& shape) const { array_t r = *this; auto n = new Obj(*o); r.o = n; r.resize(shape); return r; }
};
template <typename T, int F> struct conv<array_t<T, F>> {
    static object to(const array_t<T, F>& v) { return object(v); }
    static array_t<T, F> from(const handle& h) { array_t<T, F> r; if (h.is_none()) r.o = h.o; else r.o = convert_array<T, F>(h.o); return r; }
};
inline size_t array_fill(Obj* a, const object& v) {
    for (size_t i = 0; i < a->count; i++) switch (a->et) {
        case 'B': ((uint8_t*)a->data)[i] = (uint8_t)int_of(v); break;
        case 'l': ((int64_t*)a->data)[i] = int_of(v); break;
        case 'd': ((double*)a->data)[i] = conv<double>::from(v); break;
        default: throw type_error("array element type");
    }
    return a->count;
}
template <typename T> object py_array(const std::vector<ssize_t>& shape, const std::vector<T>& v) {
    T* p = new T[v.size() ? v.size() : 1];
    for (size_t i = 0; i < v.size(); i++) p[i] = v[i];
    return mk_array<T>(shape, p);
}
/// the same array in another layout: 1 column-major, 2 every second element of a larger array
template <typename T> object py_array_as(int layout, const std::vector<ssize_t>& shape, const std::vector<T>& v) {
    if (!layout) return py_array<T>(shape, v);
    size_t c = shape.size() == 2 ? (size_t)shape[1] : 1, r = (size_t)shape[0];
    T* p = new T[2 * v.size() + 1];
    for (size_t i = 0; i < 2 * v.size() + 1; i++) p[i] = (T)1;
    auto o = mk_array<T>(shape, p);
    o->strides = layout == 1 ? std::vector<ssize_t>{1, (ssize_t)r} : std::vector<ssize_t>{(ssize_t)(2 * c), 2};
    if (shape.size() == 1) o->strides = {2};
    for (size_t i = 0; i < v.size(); i++) p[place_of(o, i)] = v[i];
    return o;
}
template <typename T> object py_array(const std::vector<T>& v) { return py_array<T>({(ssize_t)v.size()}, v); }
inline object py_csc(size_t rows, size_t cols, const std::vector<uint8_t>& data, const std::vector<int32_t>& indices, const std::vector<int32_t>& indptr) {
    auto o = mk(K_CSC);
    o->items = {py_array(data), py_array(indices), py_array(indptr), make_tuple(rows, cols)};
    return o;
}
inline object py_eye(size_t n) {
    std::vector<uint8_t> d(n, 1);
    std::vector<int32_t> idx, ptr;
    for (size_t i = 0; i < n; i++) { idx.push_back(i); ptr.push_back(i); }
    ptr.push_back(n);
    return py_csc(n, n, d, idx, ptr);
}
}  // namespace pybind11
