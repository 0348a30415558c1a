// Opaque vocabulary for witness functions: nothing declared here has a body anywhere, so
// every use stays visible as a call in the compiler's intermediate representation.
#pragma once

#include <cstddef>
#include <initializer_list>
#include <new>
#include <tuple>
#include <type_traits>
#include <utility>

#ifndef W_NX
#define W_NX true // opaque functions throw nothing
#endif

#ifndef W_NM
#define W_NM true // and neither do moves
#endif

#define W_FLATTEN __attribute__((flatten))

extern "C" {
// tracked objects
void vc_copy(void *dst, const void *src) noexcept(W_NX);
void vc_move(void *dst, void *src) noexcept(W_NM);
void vc_assign(void *dst, const void *src) noexcept(W_NX);
void vc_massign(void *dst, void *src) noexcept(W_NM);
void vc_dtor(void *obj) noexcept;
bool vc_eq(const void *a, const void *b) noexcept(W_NX);
void mk_val(void *dst, int id) noexcept;        // a fresh value
void mk_dep(void *dst, int id) noexcept(W_NX);  // result of function dependency id
void mk_fun(void *dst, int id) noexcept(W_NX);  // result of function id
// scalars
bool ob_pred(int id) noexcept(W_NX);
int op_dep(int id) noexcept(W_NX);
int op_fun(int id) noexcept(W_NX);
double od_dep(int id) noexcept(W_NX);
double od_fun(int id) noexcept(W_NX);
void op_vfun(int id) noexcept(W_NX);            // a void function
// observations
void op_arg(int fun, int pos, long value) noexcept;
void op_argd(int fun, int pos, double value) noexcept;
void op_argo(int fun, int pos, const void *obj) noexcept;
void op_res(int call, long value) noexcept;
void op_resd(int call, double value) noexcept;
void op_reso(int call, const void *obj) noexcept;
void op_mark(int what) noexcept;
void op_widen(void *object, unsigned long size) noexcept;
void op_caught(int call) noexcept;
void op_ref(int what, const void *address) noexcept;
void op_note(int what, long value) noexcept;
void op_noteo(int what, const void *obj) noexcept;
}

namespace w {

struct fresh {
    int id;
};

enum class from { val, dep, fun };

// A copyable, comparable value all of whose special members are opaque.
struct V {
    long d[2];
    V(from what, int id) noexcept(W_NX) {
        if (what == from::val) mk_val(this, id);
        else if (what == from::dep) mk_dep(this, id);
        else mk_fun(this, id);
    }
    V(const V &o) noexcept(W_NX) { vc_copy(this, &o); }
    V(V &&o) noexcept(W_NM) { vc_move(this, &o); }
    V &operator=(const V &o) noexcept(W_NX) { vc_assign(this, &o); return *this; }
    V &operator=(V &&o) noexcept(W_NM) { vc_massign(this, &o); return *this; }
    ~V() { vc_dtor(this); }
    friend bool operator==(const V &a, const V &b) noexcept(W_NX) { return vc_eq(&a, &b); }
};

// Values of unusual types: what generic code must not depend on.
struct VFinal final : V { using V::V; };
struct VBig : V {
    long pad[14];
    using V::V;
    VBig(const VBig &o) noexcept(W_NX) : V(o) {}
    VBig(VBig &&o) noexcept(W_NM) : V(static_cast<V &&>(o)) {}
    VBig &operator=(const VBig &o) noexcept(W_NX) { V::operator=(o); return *this; }
    VBig &operator=(VBig &&o) noexcept(W_NM) { V::operator=(static_cast<V &&>(o)); return *this; }
};
struct VHuge : V {
    long pad[1000];
    using V::V;
    VHuge(const VHuge &o) noexcept(W_NX) : V(o) {}
    VHuge(VHuge &&o) noexcept(W_NM) : V(static_cast<V &&>(o)) {}
    VHuge &operator=(const VHuge &o) noexcept(W_NX) { V::operator=(o); return *this; }
    VHuge &operator=(VHuge &&o) noexcept(W_NM) { V::operator=(static_cast<V &&>(o)); return *this; }
};
struct alignas(64) VAlign : V { using V::V; };
struct VPoly : V { using V::V; virtual void member() {} };
// with operators of its own that mean something else
struct VOps : V {
    using V::V;
    const void *operator&() const { op_mark(-1); return nullptr; }
    template<typename T> void operator,(T &&) const { op_mark(-2); }
    bool operator!() const { op_mark(-3); return true; }
    explicit operator bool() const { op_mark(-4); return true; }
    const VOps &operator*() const { op_mark(-5); return *this; }
    bool operator<(const VOps &) const { op_mark(-6); return true; }
    bool operator()(int, int, int) const { op_mark(-7); return true; }
};
template<typename T> void operator,(T &&, const VOps &) { op_mark(-2); }
// convertible from anything, and a list of itself
struct VAny : V {
    using V::V;
    template<typename T> requires(!std::is_base_of_v<V, std::remove_cvref_t<T>>) VAny(const T &) : V(from::val, -1) { op_mark(-8); }
};
struct VList : V {
    using V::V;
    VList(std::initializer_list<VList>) : V(from::val, -2) { op_mark(-9); }
};
// plain data
struct P1 { int a; bool operator==(const P1 &) const = default; };
struct P3 { int a; char b; long c; friend bool operator==(const P3 &x, const P3 &y) { return x.a == y.a; } };

enum class EC : unsigned char {};
enum EP : int {};

// As V, but cannot be copied.
struct M {
    long d[2];
    M(from what, int id) noexcept(W_NX) {
        if (what == from::val) mk_val(this, id);
        else if (what == from::dep) mk_dep(this, id);
        else mk_fun(this, id);
    }
    M(M &&o) noexcept(W_NM) { vc_move(this, &o); }
    M &operator=(M &&o) noexcept(W_NM) { vc_massign(this, &o); return *this; }
    ~M() { vc_dtor(this); }
};

inline void arg(int fun, int pos, const V &v) { op_argo(fun, pos, &v); }
inline void arg(int fun, int pos, const P1 &v) { op_arg(fun, pos, v.a); }
inline void arg(int fun, int pos, const P3 &v) { op_arg(fun, pos, v.a); }
inline void arg(int fun, int pos, const M &v) { op_argo(fun, pos, &v); }
inline void arg(int fun, int pos, double v) { op_argd(fun, pos, v); }
template<typename T> requires(std::is_integral_v<T> || std::is_enum_v<T>)
inline void arg(int fun, int pos, T v) { op_arg(fun, pos, static_cast<long>(v)); }
template<typename T>
inline void arg(int fun, int pos, T *v) { op_arg(fun, pos, reinterpret_cast<long>(v)); }
// an empty type carries no information
template<typename T> requires std::is_empty_v<T>
inline void arg(int fun, int pos, const T &) { op_arg(fun, pos, -1); }
template<typename A, typename B>
inline void arg(int fun, int pos, const std::pair<A, B> &v) { arg(fun, pos, v.first); arg(fun, pos, v.second); }
template<typename... Ts>
inline void arg(int fun, int pos, const std::tuple<Ts...> &v) {
    std::apply([&](const auto &...x) { (arg(fun, pos, x), ...); }, v);
}

inline void args(int fun, const auto &...xs) {
    int pos = 0;
    ((arg(fun, pos++, xs)), ...);
}

inline void res(int call, const V &v) { op_reso(call, &v); }
inline void res(int call, const P1 &v) { op_res(call, v.a); }
inline void res(int call, const P3 &v) { op_res(call, v.a); }
inline void res(int call, double v) { op_resd(call, v); }
template<typename T> requires(std::is_integral_v<T> || std::is_enum_v<T>)
inline void res(int call, T v) { op_res(call, static_cast<long>(v)); }
template<typename T>
inline void res(int call, T *v) { op_res(call, reinterpret_cast<long>(v)); }

template<typename T>
T make(from what, int id) {
    if constexpr (std::is_base_of_v<V, T> || std::is_same_v<T, M>) return T(what, id);
    else if constexpr (std::is_same_v<T, P1>) return T{ what == from::dep ? op_dep(id) : op_fun(id) };
    else if constexpr (std::is_same_v<T, P3>) return T{ what == from::dep ? op_dep(id) : op_fun(id), 'x', 5 };
    else if constexpr (std::is_same_v<T, double>) return what == from::dep ? od_dep(id) : od_fun(id);
    else if constexpr (std::is_pointer_v<T>) return reinterpret_cast<T>(static_cast<long>(what == from::dep ? op_dep(id) : op_fun(id)));
    else return static_cast<T>(what == from::dep ? op_dep(id) : op_fun(id));
}

// A function with result type R; what it was called with and that it was called is visible.
template<typename R, int id>
struct Fun {
    R operator()(const auto &...xs) const {
        args(id, xs...);
        if constexpr (std::is_void_v<R>) op_vfun(id);
        else return make<R>(from::fun, id);
    }
};

// The same with state of its own.
template<typename R, int id>
struct StatefulFun {
    int state;
    R operator()(const auto &...xs) {
        op_arg(id, 99, state++);
        args(id, xs...);
        if constexpr (std::is_void_v<R>) op_vfun(id);
        else return make<R>(from::fun, id);
    }
};

template<typename R, int id>
struct Dep {
    R operator()() const { return make<R>(from::dep, id); }
};

template<typename R, int id>
struct StatefulDep {
    int state;
    R operator()() {
        op_arg(1000 + id, 99, state++);
        return make<R>(from::dep, id);
    }
};

// A dependency that changes on every (1 << shift)-th call only.
template<int id, int shift>
struct StepDep {
    int state;
    int operator()() {
        op_arg(1000 + id, 99, state++);
        return (state - 1) >> shift;
    }
};

} // namespace w

// ---------------------------------------------------------------- categories

namespace w {

// 0 T&, 1 const T&, 2 T&&, 3 const T&&, +4 for volatile
template<typename T>
constexpr int cat = (std::is_lvalue_reference_v<T> ? 0 : 2) + (std::is_const_v<std::remove_reference_t<T>> ? 1 : 0)
                  + (std::is_volatile_v<std::remove_reference_t<T>> ? 4 : 0);

template<typename T> constexpr int kind = 9;
template<> inline constexpr int kind<int> = 1;
template<> inline constexpr int kind<long> = 2;
template<> inline constexpr int kind<double> = 3;
template<> inline constexpr int kind<V> = 4;
template<> inline constexpr int kind<M> = 5;
template<> inline constexpr int kind<char> = 6;
template<> inline constexpr int kind<bool> = 7;
template<> inline constexpr int kind<VFinal> = 10;
template<> inline constexpr int kind<VBig> = 11;
template<> inline constexpr int kind<VHuge> = 12;
template<> inline constexpr int kind<VAlign> = 13;
template<> inline constexpr int kind<VPoly> = 14;
template<> inline constexpr int kind<VOps> = 15;
template<> inline constexpr int kind<VAny> = 16;
template<> inline constexpr int kind<VList> = 17;
template<> inline constexpr int kind<P1> = 18;
template<> inline constexpr int kind<P3> = 19;
template<> inline constexpr int kind<EC> = 20;
template<> inline constexpr int kind<EP> = 21;
template<> inline constexpr int kind<std::nullptr_t> = 22;
template<> inline constexpr int kind<unsigned char> = 23;
template<> inline constexpr int kind<unsigned short> = 24;
template<> inline constexpr int kind<unsigned long long> = 25;
template<> inline constexpr int kind<float> = 26;

inline void value(int id, const volatile int &x) { op_note(id, const_cast<const int &>(x)); }
inline void value(int id, const long &x) { op_note(id, x); }
inline void value(int id, const unsigned long &x) { op_note(id, static_cast<long>(x)); }
inline void value(int id, const char &x) { op_note(id, x); }
inline void value(int id, const bool &x) { op_note(id, x); }
inline void value(int id, const double &x) { op_resd(id, x); }
inline void value(int id, const float &x) { op_resd(id, x); }
inline void value(int id, const unsigned char &x) { op_note(id, x); }
inline void value(int id, const unsigned short &x) { op_note(id, x); }
inline void value(int id, const unsigned long long &x) { op_note(id, static_cast<long>(x)); }
template<typename T> requires std::is_enum_v<T> inline void value(int id, const T &x) { op_note(id, static_cast<long>(x)); }
inline void value(int id, const P1 &x) { op_note(id, x.a); }
inline void value(int id, const P3 &x) { op_note(id, x.a * 5 + x.b + x.c); }
inline void value(int id, const V &x) { op_noteo(id, &x); }
inline void value(int id, const M &x) { op_noteo(id, &x); }
template<typename T> requires(std::is_empty_v<T> || std::is_null_pointer_v<T>) inline void value(int, const T &) {}
template<typename... Ts> inline void value(int id, const std::tuple<Ts...> &x) { std::apply([&](const auto &...e) { (value(id, e), ...); }, x); }
template<typename T> inline void value(int id, T *const &x) { op_note(id, reinterpret_cast<long>(x)); }

// type, category, constness and value of an argument
template<typename T>
inline void see(int id, T &&x) {
    op_note(id * 10 + 1, kind<std::remove_cvref_t<T>> * 10 + cat<T &&>);
    value(id * 10 + 2, x);
}

// what an expression of the type T, not bound to a forwarding reference yet, is
template<typename T>
inline void seetype(int id) {
    op_note(id * 10 + 3, kind<std::remove_cvref_t<T>> * 100 + (std::is_reference_v<T> ? 10 : 0) + cat<T>);
}

// A callable that shows all of its arguments, and returns an R.
template<int id, typename R = void>
struct Show {
    R operator()(auto &&...xs) const {
        op_mark(id);
        int pos = 0;
        (see(id * 100 + pos++, static_cast<decltype(xs)>(xs)), ...);
        op_mark(id + 1000 + static_cast<int>(sizeof...(xs)) * 100);
        if constexpr (!std::is_void_v<R>) return make<R>(from::fun, id);
    }
};

// The same with state and shown constness of the call operator, and value category of the object.
template<int id, typename R = void>
struct Counting {
    int state;
    R run(int how, auto &&...xs) const {
        op_note(id, how);
        return Show<id, R>{}(static_cast<decltype(xs)>(xs)...);
    }
    R operator()(auto &&...xs) & { op_note(id, ++state); return run(0, static_cast<decltype(xs)>(xs)...); }
    R operator()(auto &&...xs) const & { op_note(id, state); return run(1, static_cast<decltype(xs)>(xs)...); }
    R operator()(auto &&...xs) && { op_note(id, ++state); return run(2, static_cast<decltype(xs)>(xs)...); }
    R operator()(auto &&...xs) const && { op_note(id, state); return run(3, static_cast<decltype(xs)>(xs)...); }
};

// A callable that owns a tracked value.
template<int id, typename R = void>
struct Owning {
    V own;
    R operator()(auto &&...xs) { op_noteo(id, &own); return Show<id, R>{}(static_cast<decltype(xs)>(xs)...); }
};
template<int id, typename R = void>
struct OwningMove {
    M own;
    R operator()(auto &&...xs) { op_noteo(id, &own); return Show<id, R>{}(static_cast<decltype(xs)>(xs)...); }
};

template<int n> struct E { friend constexpr bool operator==(E, E) { return true; } };

} // namespace w

#define W_FWD(x) static_cast<decltype(x) &&>(x)
