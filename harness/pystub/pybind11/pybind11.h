// stand-in for pybind11 that records what a module binds (analysed, never run)
#pragma once
#include <cstdint>
#include <cstring>
#include <exception>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace pybind11 {
struct Entry {
    void const* cls;
    std::string name;
    int kind; // 1 data member, 2 member function, 3 static object, 4 free or static function, 5 callable object, 6 property
    uint64_t a, b;
};
inline std::vector<Entry>& entries()
{
    static std::vector<Entry> e;
    return e;
}
template <class T> struct Key { static inline char key = 0; };
template <class Sig> struct Slot {
    static std::vector<std::pair<std::string, Sig*>>& list()
    {
        static std::vector<std::pair<std::string, Sig*>> l;
        return l;
    }
};
struct Names {
    void const* cls;
    std::string name;
    void const* scope;
};
inline std::vector<Names>& classes()
{
    static std::vector<Names> n;
    return n;
}
struct Value {
    void const* cls;
    std::string name;
    int64_t v;
};
inline std::vector<Value>& values()
{
    static std::vector<Value> n;
    return n;
}
inline std::vector<std::pair<void const*, std::vector<void const*>>>& inits()
{
    static std::vector<std::pair<void const*, std::vector<void const*>>> l;
    return l;
}
struct module_ { void const* k() const { return nullptr; } };
struct arg {
    arg(char const*) { }
    template <class T> arg operator=(T&&) const { return *this; }
    arg(arg const&) = default;
    arg none(bool = true) const { return *this; }
};
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
struct stop_iteration : std::exception { };
struct bytes {
    std::string s;
    bytes(std::string const& x) : s(x) { }
    bytes(char const* p, size_t n) : s(p, n) { }
    operator std::string() const { return s; }
};
struct str {
    std::string s;
    str(std::string const& x) : s(x) { }
    str(char const* p, size_t n) : s(p, n) { }
};
template <class... A> struct init { };
template <class T> struct self { };
template <class A, class B> void words(A p, B& a, B& b)
{
    uint64_t w[2] = { 0, 0 };
    static_assert(sizeof p <= sizeof w);
    memcpy(w, &p, sizeof p);
    a = w[0];
    b = w[1];
}
template <class F> struct Sig;
template <class C, class R, class... A> struct Sig<R (C::*)(A...) const> { using type = R(A...); };
template <class C, class R, class... A> struct Sig<R (C::*)(A...)> { using type = R(A...); };
template <class T, class... O> struct class_ {
    void const* k() const { return &Key<T>::key; }
    template <class S, class... X> class_(S const& s, char const* name, X const&...) { classes().push_back({ k(), name, s.k() }); }
    void put(char const* n, int kind, uint64_t a, uint64_t b) { entries().push_back({ k(), n, kind, a, b }); }
    template <class F> void bind(char const* n, F f, int kind = 5)
    {
        if constexpr (std::is_member_function_pointer_v<F>) {
            uint64_t a, b;
            words(f, a, b);
            put(n, 2, a, b);
        } else if constexpr (std::is_pointer_v<F>) {
            put(n, 4, reinterpret_cast<uint64_t>(f), 0);
            Slot<std::remove_pointer_t<F>>::list().push_back({ n, f });
        } else {
            using S = typename Sig<decltype(&F::operator())>::type;
            put(n, kind, 0, 0);
            S* p = f;
            Slot<S>::list().push_back({ n, p });
        }
    }
    template <class F, class... X> class_& def(char const* n, F f, X const&...)
    {
        bind(n, f);
        return *this;
    }
    template <class F, class... X> class_& def_static(char const* n, F f, X const&...)
    {
        bind(n, f);
        return *this;
    }
    template <class... A, class... X> class_& def(init<A...>, X const&...)
    {
        inits().push_back({ k(), { static_cast<void const*>(&Key<A>::key)... } });
        return *this;
    }
    template <class C, class D, class... X> class_& def_readwrite(char const* n, D C::*p, X const&...)
    {
        uint64_t a, b;
        words(p, a, b);
        put(n, 1, a, 1);
        return *this;
    }
    template <class C, class D, class... X> class_& def_readonly(char const* n, D C::*p, X const&...)
    {
        uint64_t a, b;
        words(p, a, b);
        put(n, 1, a, 0);
        return *this;
    }
    template <class D, class... X> class_& def_readonly_static(char const* n, D const* p, X const&...)
    {
        put(n, 3, reinterpret_cast<uint64_t>(p), 0);
        return *this;
    }
    template <class G, class S, class... X> class_& def_property(char const* n, G g, S s, X const&...)
    {
        bind(n, g, 6);
        bind(n, s, 6);
        return *this;
    }
    template <class G, class... X> class_& def_property_readonly(char const* n, G g, X const&...)
    {
        bind(n, g, 6);
        return *this;
    }
};
template <class E> struct enum_ {
    void const* k() const { return &Key<E>::key; }
    template <class S, class... X> enum_(S const& s, char const* name, X const&...) { classes().push_back({ k(), name, s.k() }); }
    template <class... X> enum_& value(char const* n, E v, X const&...)
    {
        values().push_back({ k(), n, static_cast<int64_t>(v) });
        return *this;
    }
    enum_& export_values() { return *this; }
};
}
#define PYBIND11_MODULE(name, var) void sv_module(pybind11::module_& var)
