// A stand-in for nanobind (which is not installed here) that records what a module registers and
// lets a monitor call it. It has the value semantics nanobind documents for the types MshIO binds:
// attributes of scalars, strings, vectors and bound classes; functions taking and returning them.
#pragma once
#include <any>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <utility>
#include <vector>

namespace nanobind {
namespace mock {
struct Attr {
    std::function<std::any(const void*)> get;
    std::function<void(void*, const std::any&)> set; // empty: read-only
};
struct Class {
    std::string name;
    std::type_index type = typeid(void);
    bool default_init = false;
    std::map<std::string, Attr> attrs;
    std::map<std::string, std::function<std::any(void*, const std::vector<std::any>&)>> methods;
};
struct Module {
    std::map<std::string, std::shared_ptr<Class>> classes;
    std::map<std::string, std::vector<std::function<std::any(const std::vector<std::any>&)>>> functions; // overloads
};
struct BadCast : std::runtime_error { using runtime_error::runtime_error; };
// Conversion of an argument as Python would do it: exact type, or between arithmetic types if the value fits.
template <class T> T arg(const std::any& a)
{
    using D = std::decay_t<T>;
    if (auto* p = std::any_cast<D>(&a)) return *p;
    if (auto* p = std::any_cast<D*>(&a)) return **p;
    if constexpr (std::is_arithmetic_v<D>) {
        auto fit = [](auto v) -> D { D d = static_cast<D>(v); if (static_cast<decltype(v)>(d) != v || ((d < D()) != (v < decltype(v)()))) throw BadCast("does not fit"); return d; };
        if (auto* p = std::any_cast<int>(&a)) return fit(*p);
        if (auto* p = std::any_cast<long>(&a)) return fit(*p);
        if (auto* p = std::any_cast<size_t>(&a)) return fit(*p);
        if (auto* p = std::any_cast<double>(&a)) { if constexpr (std::is_floating_point_v<D>) return static_cast<D>(*p); }
        if (auto* p = std::any_cast<bool>(&a)) return fit(static_cast<int>(*p));
    }
    if constexpr (std::is_same_v<D, std::string>) { if (auto* p = std::any_cast<const char*>(&a)) return *p; }
    throw BadCast("incompatible argument");
}
template <class R> std::any box(R&& r) { return std::any(std::decay_t<R>(std::forward<R>(r))); }
template <class F, class Tuple, size_t... I> std::any call(F& f, Tuple&&, const std::vector<std::any>& v, std::index_sequence<I...>)
{
    using T = std::remove_reference_t<Tuple>;
    if (v.size() != sizeof...(I)) throw BadCast("wrong number of arguments");
    if constexpr (std::is_void_v<decltype(f(arg<std::tuple_element_t<I, T>>(v[I])...))>) { f(arg<std::tuple_element_t<I, T>>(v[I])...); return {}; }
    else return box(f(arg<std::tuple_element_t<I, T>>(v[I])...));
}
template <class F> struct Sig : Sig<decltype(&std::remove_reference_t<F>::operator())> {};
template <class R, class... A> struct Sig<R (*)(A...)> { using args = std::tuple<std::decay_t<A>...>; };
template <class R, class... A> struct Sig<R (*)(A...) noexcept> { using args = std::tuple<std::decay_t<A>...>; };
template <class R, class... A> struct Sig<R(A...)> { using args = std::tuple<std::decay_t<A>...>; };
template <class R, class C, class... A> struct Sig<R (C::*)(A...)> { using args = std::tuple<std::decay_t<A>...>; };
template <class R, class C, class... A> struct Sig<R (C::*)(A...) const> { using args = std::tuple<std::decay_t<A>...>; };
template <class R, class C, class... A> struct Sig<R (C::*)(A...) noexcept> { using args = std::tuple<std::decay_t<A>...>; };
template <class R, class C, class... A> struct Sig<R (C::*)(A...) const noexcept> { using args = std::tuple<std::decay_t<A>...>; };
template <class F> std::function<std::any(const std::vector<std::any>&)> callable(F f)
{
    using args = typename Sig<F>::args;
    return [f](const std::vector<std::any>& v) mutable { return call(f, args{}, v, std::make_index_sequence<std::tuple_size_v<args>>{}); };
}
} // namespace mock

struct arg { explicit arg(const char*) {} template <class T> arg& operator=(T&&) { return *this; } arg& noconvert(bool = true) { return *this; } arg& none(bool = true) { return *this; } };
inline namespace literals { inline arg operator""_a(const char* s, size_t) { return arg(s); } }
enum class rv_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal, none };
struct gil_scoped_release {};
template <class... T> struct call_guard {};
template <class... T> struct init {};
struct kw_only {};
struct is_operator {};
struct sig { explicit sig(const char*) {} };
template <class... A> struct overload_cast_t {
    template <class R> auto operator()(R (*f)(A...)) const { return f; }
    template <class R, class C> auto operator()(R (C::*f)(A...)) const { return f; }
    template <class R, class C> auto operator()(R (C::*f)(A...) const) const { return f; }
};
template <class... A> inline constexpr overload_cast_t<A...> overload_cast{};

// Objects: enough for __repr__ of nested values.
struct object {
    std::any v;
    struct method { object operator()() const { return object{std::any(std::string("..."))}; } };
    method attr(const char*) const { return {}; }
};
template <class T> object cast(const T& t) { return object{std::any(t)}; }
template <class T> T cast(const object& o) { return mock::arg<T>(o.v); }
using handle = object;
struct str : object { str(const char* s) : object{std::any(std::string(s))} {} const char* c_str() const { return std::any_cast<const std::string&>(v).c_str(); } };
inline object repr(const object& o) { return o.attr("__repr__")(); }

struct module_;
template <class T> struct exception { exception(const module_&, const char*) {} template <class B> exception(const module_&, const char*, const B&) {} };
template <class F> void register_exception_translator(F&&, void* = nullptr) {}
inline void set_leak_warnings(bool) {}

struct module_ {
    mock::Module* m;
    template <class F, class... X> module_& def(const char* name, F&& f, const X&...)
    {
        m->functions[name].push_back(mock::callable<std::decay_t<F>>(std::forward<F>(f)));
        return *this;
    }
    std::string doc;
    struct accessor { template <class T> accessor& operator=(T&&) { return *this; } };
    accessor attr(const char*) { return {}; }
};

template <class T, class... B> class class_ {
public:
    template <class... X> class_(module_& m, const char* name, const X&...)
        : c(std::make_shared<mock::Class>())
    {
        c->name = name; c->type = typeid(T);
        m.m->classes[name] = c;
    }
    template <class... A, class... X> class_& def(init<A...>, const X&...) { if (sizeof...(A) == 0) c->default_init = true; return *this; }
    template <class F, class... X> class_& def(const char* name, F&& f, const X&...)
    {
        if constexpr (std::is_member_function_pointer_v<std::decay_t<F>>) {
            auto g = std::decay_t<F>(f);
            using args = typename mock::Sig<std::decay_t<F>>::args;
            c->methods[name] = [g](void* self, const std::vector<std::any>& v) { auto h = [&](auto&&... a) -> decltype(auto) { return (static_cast<T*>(self)->*g)(a...); }; return mock::call(h, args{}, v, std::make_index_sequence<std::tuple_size_v<args>>{}); };
        } else {
            auto g = std::make_shared<std::decay_t<F>>(f);
            c->methods[name] = [g](void* self, const std::vector<std::any>& v) { std::vector<std::any> w; w.push_back(std::any(static_cast<T*>(self))); w.insert(w.end(), v.begin(), v.end()); return mock::callable<std::decay_t<F>>(*g)(w); };
        }
        return *this;
    }
    template <class F, class... X> class_& def_static(const char*, F&&, const X&...) { return *this; }
    template <class M, class C, class... X> class_& def_rw(const char* name, M C::*p, const X&...)
    {
        static_assert(std::is_base_of_v<C, T>);
        mock::Attr a;
        a.get = [p](const void* o) { return std::any(static_cast<const T*>(o)->*p); };
        a.set = [p](void* o, const std::any& v) { static_cast<T*>(o)->*p = mock::arg<M>(v); };
        c->attrs[name] = a;
        return *this;
    }
    template <class M, class C, class... X> class_& def_ro(const char* name, M C::*p, const X&...)
    {
        mock::Attr a;
        a.get = [p](const void* o) { return std::any(static_cast<const T*>(o)->*p); };
        c->attrs[name] = a;
        return *this;
    }
    template <class G, class S, class... X> class_& def_prop_rw(const char* name, G&& g, S&& s, const X&...)
    {
        mock::Attr a = getter(std::forward<G>(g));
        auto f = std::make_shared<std::decay_t<S>>(s);
        if constexpr (std::is_member_function_pointer_v<std::decay_t<S>>) {
            using args = typename mock::Sig<std::decay_t<S>>::args;
            a.set = [f](void* o, const std::any& v) { (static_cast<T*>(o)->**f)(mock::arg<std::tuple_element_t<0, args>>(v)); };
        } else {
            using args = typename mock::Sig<std::decay_t<S>>::args;
            a.set = [f](void* o, const std::any& v) { (*f)(*static_cast<T*>(o), mock::arg<std::tuple_element_t<1, args>>(v)); };
        }
        c->attrs[name] = a;
        return *this;
    }
    template <class G, class... X> class_& def_prop_ro(const char* name, G&& g, const X&...) { c->attrs[name] = getter(std::forward<G>(g)); return *this; }
private:
    template <class G> mock::Attr getter(G&& g)
    {
        mock::Attr a;
        auto f = std::make_shared<std::decay_t<G>>(g);
        a.get = [f](const void* o) { T& t = *const_cast<T*>(static_cast<const T*>(o)); if constexpr (std::is_member_function_pointer_v<std::decay_t<G>>) return mock::box((t.**f)()); else return mock::box((*f)(t)); };
        return a;
    }
    std::shared_ptr<mock::Class> c;
};
} // namespace nanobind

#define NB_MODULE(name, variable) void vf_python_module(::nanobind::module_& variable)
void vf_python_module(::nanobind::module_&);
