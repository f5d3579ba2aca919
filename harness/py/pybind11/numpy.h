#pragma once
#include "pybind11.h"
namespace pybind11 {
struct array : object {
    enum { c_style = 1, f_style = 2, forcecast = 16 };
    array() { val.k = Val::List; }
};
// one-dimensional arrays: a list of their elements
template <class T, int F = array::forcecast> struct array_t : array {
    array_t() {}
    template <class C, class = decltype(std::declval<C const&>().begin())> explicit array_t(C const& c)
    {
        for (auto& e : c) val.v.push_back(to_py((T)e, {}));
        own();
    }
    template <class N, class = std::enable_if_t<std::is_integral_v<N>>> explicit array_t(N n)
    {
        buf = std::make_shared<std::vector<T>>(n);
    }
    template <class N, class = std::enable_if_t<std::is_integral_v<N>>>
    array_t(N n, T const* p, handle = {})
    {
        for (N i = 0; i < n; ++i) val.v.push_back(to_py(p[i], {}));
        own();
    }
    T* mutable_data() { return buf->data(); }
    T const* data() const { return buf->data(); }
    ssize_t size() const { return (ssize_t)(buf ? buf->size() : val.v.size()); }
    T& mutable_at(ssize_t i) { return buf->at(i); }
    T at(ssize_t i) const { return buf->at(i); }
    struct View {
        array_t* a;
        T& operator()(ssize_t i) const { return a->buf->at(i); }
        T& operator[](ssize_t i) const { return a->buf->at(i); }
    };
    template <int D = 1> View mutable_unchecked() { return { this }; }
    Val pyval() const
    {
        if (!buf) return val;
        Val v;
        v.k = Val::List;
        for (auto& e : *buf) v.v.push_back(to_py(e, {}));
        return v;
    }
    std::shared_ptr<std::vector<T>> buf;

private:
    void own()
    {
        buf = std::make_shared<std::vector<T>>();
        for (auto& e : val.v) buf->push_back((T)(e.k == Val::Float ? e.d : (double)e.i));
    }
};
} // namespace pybind11
