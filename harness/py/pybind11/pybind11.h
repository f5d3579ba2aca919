// Stand-in for pybind11: registers the same classes, attributes and functions,
// but in a table instead of in a Python interpreter, and converts between C++
// values and a small model of Python values (Val) by pybind11's rules.  The
// check of the Python binding calls what the binding registered through it.
#pragma once
#include <any>
#include <array>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

namespace pybind11 {
using ssize_t = std::ptrdiff_t;
using size_t = std::size_t;

// ---- Python values ----
struct Val {
    enum K { None, Bool, Int, Float, Str, Bytes, List, Tuple, Dict, Inst, Func } k = None;
    __int128 i = 0;
    double d = 0;
    std::string s;
    std::vector<Val> v;                    // items; of a dict: key, value, key, value...
    std::shared_ptr<void> p;               // instance
    std::type_index t = typeid(void);
    bool text() const { return k == Str || k == Bytes; }
    bool seq() const { return k == List || k == Tuple; }
};
using Args = std::vector<Val>;
using Kwargs = std::map<std::string, Val>;

struct builtin_exception : std::runtime_error { using runtime_error::runtime_error; };
struct stop_iteration : builtin_exception { stop_iteration(std::string const& m = "") : builtin_exception(m) {} };
#define PYSTUB_EXC(n) struct n : builtin_exception { n(std::string const& m = "") : builtin_exception(m) {} };
PYSTUB_EXC(index_error) PYSTUB_EXC(key_error) PYSTUB_EXC(value_error) PYSTUB_EXC(type_error)
PYSTUB_EXC(buffer_error) PYSTUB_EXC(import_error) PYSTUB_EXC(attribute_error) PYSTUB_EXC(cast_error)
PYSTUB_EXC(reference_cast_error) PYSTUB_EXC(error_already_set)

enum class return_value_policy : uint8_t {
    automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal
};

// ---- what the binding registered ----
struct Overload {
    size_t nargs = 0;
    std::vector<std::string> names;               // empty name: positional only
    std::vector<std::optional<Val>> defaults;
    std::function<bool(Args const&, bool convert, Val& result)> fn;
};
struct Attr {
    std::vector<Overload> fns;                    // method
    std::function<Val(Val const&)> get;           // property
    std::function<void(Val const&, Val const&)> set;
    std::function<Val()> sget;                    // static value
    std::function<void(Val const&)> sset;
};
struct Class {
    std::string path;
    std::type_index t = typeid(void);
    std::map<std::string, Attr> attrs;
    std::vector<std::pair<std::type_index, void* (*)(void*)>> bases;
};
struct Registry {
    std::map<std::type_index, Class> classes;
    std::map<std::string, std::type_index> by_path;
    std::map<std::string, Attr> module;
    std::vector<void (*)()> inits;
};
inline Registry& reg()
{
    static Registry r;
    return r;
}
inline void* upcast(void* p, std::type_index from, std::type_index to)
{
    if (from == to) return p;
    auto it = reg().classes.find(from);
    if (it == reg().classes.end()) return nullptr;
    for (auto& b : it->second.bases)
        if (void* q = upcast(b.second(p), b.first, to)) return q;
    return nullptr;
}
inline Val call(std::vector<Overload> const& fns, Args args, Kwargs const& kw)
{
    for (int pass = fns.size() > 1 ? 0 : 1; pass < 2; ++pass)
        for (auto& o : fns) {
            if (args.size() > o.nargs) continue;
            Args a = args;
            size_t used = 0;
            bool ok = true;
            for (size_t i = a.size(); i < o.nargs && ok; ++i) {
                auto it = o.names[i].empty() ? kw.end() : kw.find(o.names[i]);
                if (it != kw.end()) a.push_back(it->second), ++used;
                else if (o.defaults[i]) a.push_back(*o.defaults[i]);
                else ok = false;
            }
            if (!ok || used != kw.size()) continue;
            Val r;
            if (o.fn(a, pass == 1, r)) return r;
        }
    throw type_error("incompatible function arguments");
}

// ---- Python objects as seen by C++ ----
struct handle {
    Val val;
    Val const& pyval() const { return val; }
    bool is_none() const { return val.k == Val::None; }
};
struct object : handle {};
struct none : object {};
struct bytes : object {
    bytes() { val.k = Val::Bytes; }
    bytes(std::string const& s) { val.k = Val::Bytes, val.s = s; }
    bytes(char const* s) { val.k = Val::Bytes, val.s = s; }
    bytes(char const* s, size_t n) { val.k = Val::Bytes, val.s.assign(s, n); }
    operator std::string() const { return val.s; }
};
struct str : object {
    str() { val.k = Val::Str; }
    str(std::string const& s) { val.k = Val::Str, val.s = s; }
    str(char const* s) { val.k = Val::Str, val.s = s; }
    str(char const* s, size_t n) { val.k = Val::Str, val.s.assign(s, n); }
    str(bytes const& b) { val.k = Val::Str, val.s = b.val.s; }
    operator std::string() const { return val.s; }
};
struct module_;

// ---- conversions ----
template <class T, class = void> struct caster; // class types: see below
template <class T> using bare = std::remove_cv_t<std::remove_reference_t<T>>;
struct CastCtx {
    return_value_policy pol = return_value_policy::automatic;
    Val const* parent = nullptr;
    Args const* args = nullptr;
};
template <class T> Val to_py(T&& x, CastCtx const& c);

template <class T> struct is_native : std::false_type {};
// value types: load gives an optional<T>
#define PYSTUB_NATIVE(...) struct is_native<__VA_ARGS__> : std::true_type {}
template <> PYSTUB_NATIVE(std::string);
template <> PYSTUB_NATIVE(std::string_view);
template <class A> PYSTUB_NATIVE(std::vector<A>);
template <class A> PYSTUB_NATIVE(std::list<A>);
template <class A> PYSTUB_NATIVE(std::set<A>);
template <class A, size_t N> PYSTUB_NATIVE(std::array<A, N>);
template <class K, class V> PYSTUB_NATIVE(std::map<K, V>);
template <class K, class V> PYSTUB_NATIVE(std::unordered_map<K, V>);
template <class A, class B> PYSTUB_NATIVE(std::pair<A, B>);
template <class... A> PYSTUB_NATIVE(std::tuple<A...>);
template <class A> PYSTUB_NATIVE(std::optional<A>);
template <class... A> PYSTUB_NATIVE(std::variant<A...>);
template <class A> PYSTUB_NATIVE(std::shared_ptr<A>);
template <> PYSTUB_NATIVE(std::nullptr_t);
template <class T> constexpr bool native_v = std::is_arithmetic_v<T> || is_native<T>::value ||
    std::is_base_of_v<handle, T>;

template <class T> std::optional<T> from_py(Val const& v, bool convert);

template <class T> struct as_class {
    static T* load(Val const& v)
    {
        if (v.k != Val::Inst) return nullptr;
        return static_cast<T*>(upcast(v.p.get(), v.t, typeid(T)));
    }
};
template <class C> std::optional<C> load_seq(Val const& v, bool convert)
{
    if (!v.seq()) return {};
    C c;
    for (auto& x : v.v) {
        auto e = from_py<typename C::value_type>(x, convert);
        if (!e) return {};
        c.insert(c.end(), std::move(*e));
    }
    return c;
}
template <class C> std::optional<C> load_map(Val const& v, bool convert)
{
    if (v.k != Val::Dict) return {};
    C c;
    for (size_t i = 0; i < v.v.size(); i += 2) {
        auto k = from_py<typename C::key_type>(v.v[i], convert);
        auto x = from_py<typename C::mapped_type>(v.v[i + 1], convert);
        if (!k || !x) return {};
        c.insert({ std::move(*k), std::move(*x) });
    }
    return c;
}
template <class T> struct loader {
    static std::optional<T> load(Val const& v, bool convert)
    {
        if constexpr (std::is_same_v<T, bool>) {
            if (v.k == Val::Bool) return v.i != 0;
            if (convert && v.k == Val::None) return false;
            return {};
        } else if constexpr (std::is_same_v<T, char>) {
            if (v.k == Val::Str && v.s.size() == 1) return v.s[0];
            return {};
        } else if constexpr (std::is_integral_v<T>) {
            if (v.k != Val::Int && v.k != Val::Bool) return {};
            if (v.i < (__int128)std::numeric_limits<T>::min() ||
                v.i > (__int128)std::numeric_limits<T>::max())
                return {};
            return (T)v.i;
        } else if constexpr (std::is_floating_point_v<T>) {
            if (v.k == Val::Float) return (T)v.d;
            if (convert && (v.k == Val::Int || v.k == Val::Bool)) return (T)v.i;
            return {};
        } else if constexpr (std::is_base_of_v<handle, T>) {
            T t {};
            t.val = v;
            return t;
        } else {
            T* p = as_class<T>::load(v);
            if (!p) return {};
            if constexpr (std::is_copy_constructible_v<T>) return *p;
            else return {};
        }
    }
};
template <> struct loader<std::string> {
    static std::optional<std::string> load(Val const& v, bool)
    {
        if (v.text()) return v.s;
        return {};
    }
};
template <class A> struct loader<std::vector<A>> {
    static auto load(Val const& v, bool c) { return load_seq<std::vector<A>>(v, c); }
};
template <class A> struct loader<std::list<A>> {
    static auto load(Val const& v, bool c) { return load_seq<std::list<A>>(v, c); }
};
template <class A, size_t N> struct loader<std::array<A, N>> {
    static std::optional<std::array<A, N>> load(Val const& v, bool c)
    {
        if (!v.seq() || v.v.size() != N) return {};
        std::array<A, N> a {};
        for (size_t i = 0; i < N; ++i) {
            auto e = from_py<A>(v.v[i], c);
            if (!e) return {};
            a[i] = std::move(*e);
        }
        return a;
    }
};
template <class K, class V> struct loader<std::map<K, V>> {
    static auto load(Val const& v, bool c) { return load_map<std::map<K, V>>(v, c); }
};
template <class K, class V> struct loader<std::unordered_map<K, V>> {
    static auto load(Val const& v, bool c) { return load_map<std::unordered_map<K, V>>(v, c); }
};
template <class A, class B> struct loader<std::pair<A, B>> {
    static std::optional<std::pair<A, B>> load(Val const& v, bool c)
    {
        if (!v.seq() || v.v.size() != 2) return {};
        auto a = from_py<A>(v.v[0], c);
        auto b = from_py<B>(v.v[1], c);
        if (!a || !b) return {};
        return std::pair<A, B>(std::move(*a), std::move(*b));
    }
};
template <class A> struct loader<std::optional<A>> {
    static std::optional<std::optional<A>> load(Val const& v, bool c)
    {
        if (v.k == Val::None) return std::optional<A> {};
        auto a = from_py<A>(v, c);
        if (!a) return {};
        return std::optional<A>(std::move(*a));
    }
};
template <class... A> struct loader<std::variant<A...>> {
    template <class X> static bool one(Val const& v, bool c, std::optional<std::variant<A...>>& r)
    {
        auto x = from_py<X>(v, c);
        if (x) r = std::variant<A...>(std::in_place_type<X>, std::move(*x));
        return !!x;
    }
    static std::optional<std::variant<A...>> load(Val const& v, bool c)
    {
        std::optional<std::variant<A...>> r;
        if ((one<A>(v, false, r) || ...)) return r;
        if (c) (void)(one<A>(v, true, r) || ...);
        return r;
    }
};
template <class A> struct loader<std::shared_ptr<A>> {
    static std::optional<std::shared_ptr<A>> load(Val const& v, bool)
    {
        if (v.k == Val::None) return std::shared_ptr<A>();
        A* p = as_class<A>::load(v);
        if (!p) return {};
        return std::shared_ptr<A>(v.p, p);
    }
};
template <class T> std::optional<T> from_py(Val const& v, bool convert)
{
    return loader<T>::load(v, convert);
}

inline Val py_str(std::string s)
{
    Val v;
    v.k = Val::Str;
    v.s = std::move(s);
    return v;
}
template <class T> struct is_unique : std::false_type {};
template <class T, class D> struct is_unique<std::unique_ptr<T, D>> : std::true_type {};
template <class T> struct is_shared : std::false_type {};
template <class T> struct is_shared<std::shared_ptr<T>> : std::true_type {};
template <class T> struct is_optional : std::false_type {};
template <class T> struct is_optional<std::optional<T>> : std::true_type {};
template <class T> struct is_variant : std::false_type {};
template <class... T> struct is_variant<std::variant<T...>> : std::true_type {};
template <class T> struct is_pair : std::false_type {};
template <class A, class B> struct is_pair<std::pair<A, B>> : std::true_type {};
template <class T> struct is_map : std::false_type {};
template <class K, class V> struct is_map<std::map<K, V>> : std::true_type {};
template <class K, class V> struct is_map<std::unordered_map<K, V>> : std::true_type {};
template <class T> struct is_seq : std::false_type {};
template <class A> struct is_seq<std::vector<A>> : std::true_type {};
template <class A> struct is_seq<std::list<A>> : std::true_type {};
template <class A> struct is_seq<std::set<A>> : std::true_type {};
template <class A, size_t N> struct is_seq<std::array<A, N>> : std::true_type {};

inline void need_class(std::type_index t)
{
    if (!reg().classes.count(t))
        throw type_error(std::string("Unable to convert to a Python type: unregistered ") + t.name());
}
template <class T> Val make_inst(std::shared_ptr<T> p)
{
    need_class(typeid(T));
    Val v;
    v.k = Val::Inst;
    v.t = typeid(T);
    v.p = std::const_pointer_cast<std::remove_const_t<T>>(p);
    return v;
}
template <class T> Val alias(T* p, CastCtx const& c)
{
    using U = std::remove_cv_t<T>;
    std::shared_ptr<void> owner = c.parent ? c.parent->p : nullptr;
    return make_inst(std::shared_ptr<U>(owner, const_cast<U*>(p)));
}
template <class T> Val to_py(T&& x, CastCtx const& c)
{
    using U = bare<T>;
    Val v;
    if constexpr (std::is_same_v<U, bool>) {
        v.k = Val::Bool, v.i = x;
    } else if constexpr (std::is_same_v<U, char>) {
        v = py_str(std::string(1, x));
    } else if constexpr (std::is_integral_v<U>) {
        v.k = Val::Int, v.i = x;
    } else if constexpr (std::is_floating_point_v<U>) {
        v.k = Val::Float, v.d = x;
    } else if constexpr (std::is_same_v<U, std::string> || std::is_same_v<U, std::string_view>) {
        v = py_str(std::string(x));
    } else if constexpr (std::is_convertible_v<U, char const*> && (std::is_pointer_v<U> || std::is_array_v<U>)) {
        if (static_cast<char const*>(x)) v = py_str(x);
    } else if constexpr (std::is_same_v<U, std::nullptr_t>) {
    } else if constexpr (std::is_base_of_v<handle, U>) {
        v = x.pyval();
    } else if constexpr (std::is_same_v<U, Val>) {
        v = x;
    } else if constexpr (is_optional<U>::value) {
        if (x) v = to_py(*std::forward<T>(x), c);
    } else if constexpr (is_variant<U>::value) {
        v = std::visit([&](auto&& y) { return to_py(std::forward<decltype(y)>(y), c); }, std::forward<T>(x));
    } else if constexpr (is_pair<U>::value) {
        v.k = Val::Tuple;
        v.v.push_back(to_py(std::forward<T>(x).first, c));
        v.v.push_back(to_py(std::forward<T>(x).second, c));
    } else if constexpr (is_seq<U>::value) {
        v.k = Val::List;
        for (auto&& e : x) {
            if constexpr (std::is_lvalue_reference_v<T>) v.v.push_back(to_py(e, c));
            else v.v.push_back(to_py(std::move(e), c));
        }
    } else if constexpr (is_map<U>::value) {
        v.k = Val::Dict;
        for (auto&& e : x) {
            v.v.push_back(to_py(e.first, c));
            v.v.push_back(to_py(e.second, c));
        }
    } else if constexpr (is_unique<U>::value || is_shared<U>::value) {
        if (x) v = make_inst(std::shared_ptr<typename U::element_type>(std::forward<T>(x)));
    } else if constexpr (std::is_pointer_v<U>) {
        using E = std::remove_cv_t<std::remove_pointer_t<U>>;
        if (!x) return v;
        if (c.args) // an object Python already knows
            for (auto& a : *c.args)
                if (a.k == Val::Inst && a.t == typeid(E) && a.p.get() == (void const*)x) return a;
        if constexpr (std::is_copy_constructible_v<E>)
            if (c.pol == return_value_policy::copy) return make_inst(std::make_shared<E>(*x));
        if (c.pol == return_value_policy::automatic || c.pol == return_value_policy::take_ownership)
            v = make_inst(std::shared_ptr<E>(const_cast<E*>(x)));
        else v = alias(x, c);
    } else { // bound class or enum
        need_class(typeid(U));
        bool ref = c.pol == return_value_policy::reference || c.pol == return_value_policy::reference_internal ||
            c.pol == return_value_policy::automatic_reference;
        if (std::is_lvalue_reference_v<T> && ref && c.pol != return_value_policy::automatic_reference) {
            if (c.args)
                for (auto& a : *c.args)
                    if (a.k == Val::Inst && a.t == typeid(U) && a.p.get() == (void const*)std::addressof(x))
                        return a;
            v = alias(std::addressof(x), c);
        } else if constexpr (std::is_constructible_v<U, T&&>)
            v = make_inst(std::make_shared<U>(std::forward<T>(x)));
        else throw cast_error("return_value_policy = copy, but type is non-copyable");
    }
    return v;
}
template <class T> object cast(T&& x, return_value_policy p = return_value_policy::automatic)
{
    object o;
    CastCtx c;
    c.pol = p;
    o.val = to_py(std::forward<T>(x), c);
    return o;
}

// ---- arguments of bound functions ----
template <class P> struct ArgIn {
    using U = bare<std::remove_pointer_t<std::remove_reference_t<P>>>;
    static constexpr bool cstr = std::is_same_v<bare<P>, char const*> || std::is_same_v<bare<P>, char*>;
    static constexpr bool by_class = !cstr && !native_v<U>;
    std::optional<std::conditional_t<cstr, std::string, std::conditional_t<by_class, char, U>>> val;
    std::remove_cv_t<U>* ptr = nullptr;
    bool load(Val const& v, bool convert)
    {
        if constexpr (cstr) {
            if (v.text()) val = v.s;
            return !!val;
        } else if constexpr (by_class) {
            if (std::is_pointer_v<bare<P>> && v.k == Val::None) return true;
            ptr = as_class<std::remove_cv_t<U>>::load(v);
            return ptr;
        } else {
            val = from_py<U>(v, convert);
            return !!val;
        }
    }
    P get()
    {
        if constexpr (cstr) return val->data();
        else if constexpr (by_class) {
            if constexpr (std::is_pointer_v<bare<P>>) return ptr;
            else if constexpr (std::is_rvalue_reference_v<P>) return std::move(*ptr);
            else return *ptr;
        } else if constexpr (std::is_lvalue_reference_v<P>) return *val;
        else return static_cast<P>(std::move(*val));
    }
};
struct Extra {
    return_value_policy pol = return_value_policy::automatic;
    std::vector<std::string> names;
    std::vector<std::optional<Val>> defaults;
};
template <class R, class... A>
Overload overload(std::function<R(A...)> f, Extra const& x, bool method)
{
    Overload o;
    o.nargs = sizeof...(A);
    o.names.resize(o.nargs);
    o.defaults.resize(o.nargs);
    size_t first = method && x.names.size() < o.nargs ? 1 : 0;
    if (!x.names.empty() && x.names.size() + first != o.nargs)
        throw std::logic_error("number of annotations does not match the number of arguments");
    for (size_t i = 0; i < x.names.size(); ++i) {
        o.names[first + i] = x.names[i];
        o.defaults[first + i] = x.defaults[i];
    }
    return_value_policy pol = x.pol;
    o.fn = [f, pol](Args const& a, bool convert, Val& result) {
        std::tuple<ArgIn<A>...> in;
        bool ok = true;
        [&]<size_t... I>(std::index_sequence<I...>) {
            ok = (std::get<I>(in).load(a[I], convert) && ...);
        }(std::index_sequence_for<A...>());
        if (!ok) return false;
        CastCtx c;
        c.pol = pol;
        c.parent = a.empty() ? nullptr : &a[0];
        c.args = &a;
        [&]<size_t... I>(std::index_sequence<I...>) {
            if constexpr (std::is_void_v<R>) f(std::get<I>(in).get()...);
            else result = to_py(f(std::get<I>(in).get()...), c);
        }(std::index_sequence_for<A...>());
        return true;
    };
    return o;
}
// any callable as a std::function; methods of T take T& first
template <class T, class R, class C, class... A> auto callable(R (C::*f)(A...))
{
    using S = std::conditional_t<std::is_void_v<T>, C, std::conditional_t<std::is_base_of_v<C, T>, T, C>>;
    return std::function<R(S&, A...)>([f](S& s, A... a) -> R { return (s.*f)(std::forward<A>(a)...); });
}
template <class T, class R, class C, class... A> auto callable(R (C::*f)(A...) const)
{
    using S = std::conditional_t<std::is_void_v<T>, C, std::conditional_t<std::is_base_of_v<C, T>, T, C>>;
    return std::function<R(S const&, A...)>([f](S const& s, A... a) -> R { return (s.*f)(std::forward<A>(a)...); });
}
template <class T, class R, class C, class... A> auto callable(R (C::*f)(A...) noexcept)
{
    return callable<T>(static_cast<R (C::*)(A...)>(f));
}
template <class T, class R, class C, class... A> auto callable(R (C::*f)(A...) const noexcept)
{
    return callable<T>(static_cast<R (C::*)(A...) const>(f));
}
template <class T, class F> auto callable(F f)
{
    return std::function { f };
}

// ---- annotations ----
struct arg_v;
struct arg {
    std::string name;
    explicit arg(char const* n = "") : name(n ? n : "") {}
    arg& none(bool = true) { return *this; }
    arg& noconvert(bool = true) { return *this; }
    template <class T> arg_v operator=(T&& x) const;
};
struct arg_v : arg {
    Val def;
    template <class T> arg_v(arg const& a, T&& x) : arg(a), def(to_py(std::forward<T>(x), {})) {}
    template <class T> arg_v(char const* n, T&& x, char const* = nullptr)
        : arg(n), def(to_py(std::forward<T>(x), {})) {}
    arg_v& none(bool = true) { return *this; }
    arg_v& noconvert(bool = true) { return *this; }
};
template <class T> arg_v arg::operator=(T&& x) const { return arg_v(*this, std::forward<T>(x)); }
namespace literals {
inline arg operator""_a(char const* s, size_t) { return arg(s); }
}
using namespace literals;
template <size_t N, size_t P> struct keep_alive {};
template <class... T> struct call_guard {};
struct doc { doc(char const*) {} };
struct is_method {};
struct is_operator {};
struct is_final {};
struct dynamic_attr {};
struct buffer_protocol {};
struct module_local { module_local(bool = true) {} };
struct arithmetic {};
struct multiple_inheritance {};
struct prepend {};
struct pos_only {};
struct kw_only {};
struct gil_scoped_release {};
struct gil_scoped_acquire {};
inline void apply(Extra& x, return_value_policy p) { x.pol = p; }
inline void apply(Extra& x, arg const& a) { x.names.push_back(a.name), x.defaults.push_back({}); }
inline void apply(Extra& x, arg_v const& a) { x.names.push_back(a.name), x.defaults.push_back(a.def); }
template <class O> void apply(Extra&, O const&) {}
template <class... E> Extra extra(E const&... e)
{
    Extra x;
    (apply(x, e), ...);
    return x;
}
template <class... A> struct overload_cast_t {
    template <class R> constexpr auto operator()(R (*f)(A...)) const { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const { return f; }
};
template <class... A> constexpr overload_cast_t<A...> overload_cast {};
constexpr auto const_ = std::true_type {};

template <class... A> struct init_t {};
template <class... A> init_t<A...> init() { return {}; }
template <class F> struct init_f { F f; };
template <class F> init_f<F> init(F f) { return { std::move(f) }; }

// ---- scopes ----
struct accessor {
    std::function<void(Val)> put;
    template <class T> void operator=(T&& x) { put(to_py(std::forward<T>(x), {})); }
};
inline void set_value(std::map<std::string, Attr>& m, std::string const& n, Val v)
{
    m[n].sget = [v] { return v; };
}
struct module_ : object {
    std::string path_;
    std::string path() const { return path_; }
    std::string& doc() { static std::string d; return d; }
    template <class F, class... E> module_& def(char const* n, F&& f, E const&... e)
    {
        reg().module[n].fns.push_back(overload(callable<void>(f), extra(e...), false));
        return *this;
    }
    accessor attr(char const* n)
    {
        std::string name = n;
        return { [name](Val v) { set_value(reg().module, name, v); } };
    }
    template <class T> void add_object(char const* n, T&& x) { attr(n) = std::forward<T>(x); }
    module_ def_submodule(char const* n, char const* = nullptr)
    {
        module_ m;
        m.path_ = path_ + n + ".";
        return m;
    }
    static module_ import(char const*) { return {}; }
};
using module = module_;

template <class T, class B> constexpr bool is_base_opt = std::is_base_of_v<B, T> && !std::is_same_v<B, T>;
template <class T, class... Opts> class class_ : public object {
protected:
    Class& c() const { return reg().classes.at(typeid(T)); }
    template <class B> void base()
    {
        if constexpr (std::is_class_v<B>)
            if constexpr (is_base_opt<T, B>) {
                if (!reg().classes.count(typeid(B))) throw type_error("referenced unknown base type");
                c().bases.push_back({ typeid(B), [](void* p) -> void* { return static_cast<B*>(static_cast<T*>(p)); } });
            }
    }

public:
    using type = T;
    std::string path() const { return c().path + "."; }
    template <class S, class... E> class_(S const& scope, char const* name, E const&...)
    {
        if (reg().classes.count(typeid(T))) throw import_error(std::string("type is already registered: ") + name);
        Class k;
        k.path = scope.path() + name;
        k.t = typeid(T);
        reg().classes.emplace(typeid(T), k);
        reg().by_path.insert_or_assign(k.path, std::type_index(typeid(T)));
        (base<Opts>(), ...);
    }
    template <class F, class... E> class_& def(char const* n, F&& f, E const&... e)
    {
        c().attrs[n].fns.push_back(overload(callable<T>(f), extra(e...), true));
        return *this;
    }
    template <class F, class... E> class_& def_static(char const* n, F&& f, E const&... e)
    {
        c().attrs[n].fns.push_back(overload(callable<void>(f), extra(e...), false));
        return *this;
    }
    template <class... A, class... E> class_& def(init_t<A...>, E const&... e)
    {
        std::function<std::unique_ptr<T>(A...)> f = [](A... a) {
            if constexpr (std::is_constructible_v<T, A...>) return std::unique_ptr<T>(new T(std::forward<A>(a)...));
            else return std::unique_ptr<T>(new T { std::forward<A>(a)... });
        };
        c().attrs["__init__"].fns.push_back(overload(f, extra(e...), false));
        return *this;
    }
    template <class F, class... E> class_& def(init_f<F> const& f, E const&... e)
    {
        c().attrs["__init__"].fns.push_back(overload(callable<void>(f.f), extra(e...), false));
        return *this;
    }
    template <class D, class C, class... E> class_& def_readwrite(char const* n, D C::*m, E const&...)
    {
        auto get = [m](T const& t) -> D const& { return t.*m; };
        auto set = [m](T& t, D const& d) { t.*m = d; };
        return def_property(n, get, set);
    }
    template <class D, class C, class... E> class_& def_readonly(char const* n, D C::*m, E const&...)
    {
        return def_property_readonly(n, [m](T const& t) -> D const& { return t.*m; });
    }
    template <class G, class... E> class_& def_property_readonly(char const* n, G&& g, E const&... e)
    {
        Extra x = extra(return_value_policy::reference_internal, e...);
        Overload o = overload(callable<T>(g), x, true);
        Attr a;
        a.get = [o](Val const& self) {
            Val r;
            if (!o.fn({ self }, true, r)) throw type_error("incompatible function arguments");
            return r;
        };
        c().attrs[n] = a;
        return *this;
    }
    template <class G, class S, class... E> class_& def_property(char const* n, G&& g, S&& s, E const&... e)
    {
        def_property_readonly(n, g, e...);
        if constexpr (!std::is_same_v<bare<S>, std::nullptr_t>) {
            Overload o = overload(callable<T>(s), {}, true);
            c().attrs[n].set = [o](Val const& self, Val const& v) {
                Val r;
                if (!o.fn({ self, v }, true, r)) throw type_error("incompatible function arguments");
            };
        }
        return *this;
    }
    template <class D, class... E> class_& def_readonly_static(char const* n, D const* p, E const&...)
    {
        c().attrs[n].sget = [p] { return to_py(*p, {}); };
        return *this;
    }
    template <class D, class... E> class_& def_readwrite_static(char const* n, D* p, E const&...)
    {
        c().attrs[n].sget = [p] { return to_py(*p, {}); };
        c().attrs[n].sset = [p](Val const& v) {
            auto x = from_py<D>(v, true);
            if (!x) throw type_error("incompatible value");
            *p = *x;
        };
        return *this;
    }
    template <class G, class... E> class_& def_property_readonly_static(char const* n, G&& g, E const&... e)
    {
        Overload o = overload(callable<void>(g), extra(e...), false);
        c().attrs[n].sget = [o] {
            Val r;
            if (!o.fn({ Val {} }, true, r)) throw type_error("incompatible function arguments");
            return r;
        };
        return *this;
    }
    accessor attr(char const* n)
    {
        std::string name = n;
        return { [name](Val v) { set_value(reg().classes.at(typeid(T)).attrs, name, v); } };
    }
};
template <class T> class enum_ : public class_<T> {
public:
    template <class S, class... E> enum_(S const& scope, char const* name, E const&... e)
        : class_<T>(scope, name, e...)
    {
        class_<T>::def("__int__", [](T const& v) { return (long long)v; });
        class_<T>::def_property_readonly("value", [](T const& v) { return (long long)v; });
        class_<T>::def(pybind11::init([](long long v) { return (T)v; }));
    }
    enum_& value(char const* n, T v, char const* = nullptr)
    {
        if (this->c().attrs.count(n)) throw value_error("element already exists");
        Val x = to_py(v, {});
        set_value(this->c().attrs, n, x);
        return *this;
    }
    enum_& export_values() { return *this; }
};
template <class T, class... A> void register_exception(A const&...) {}
template <class F> void register_exception_translator(F&&) {}
template <class A, class B> void implicitly_convertible() {}
template <class... A> void print(A const&...) {}
} // namespace pybind11
namespace py_stub_detail {
struct Init {
    Init(void (*f)()) { pybind11::reg().inits.push_back(f); }
};
}
#define PYBIND11_MODULE(name, variable, ...)                                     \
    static void pystub_define_##name(::pybind11::module_&);                      \
    static void pystub_run_##name()                                              \
    {                                                                            \
        ::pybind11::module_ m;                                                   \
        pystub_define_##name(m);                                                 \
    }                                                                            \
    static ::py_stub_detail::Init pystub_init_##name(pystub_run_##name);         \
    static void pystub_define_##name(::pybind11::module_& variable)
#define PYBIND11_MAKE_OPAQUE(...)
#define PYBIND11_DECLARE_HOLDER_TYPE(...)
#define PYBIND11_OVERRIDE(...)
