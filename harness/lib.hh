// The instrumented side: builds operands of the code under test from neutral values, runs one
// operation, and reads results back.
#pragma once
#include <logic/array.hh>
#include <logic/struct.hh>
#include <logic/union.hh>
#include "mv.hh"

namespace mv { void tick(); }

#ifndef PART
#define PART 0
#define NPARTS 1
#endif
#ifdef THOROUGH
constexpr bool thorough = true;
#else
constexpr bool thorough = false;
#endif

using mv::Ctx; using mv::Entry; using mv::IA; using mv::MV; using mv::Op; using mv::TypeD; using mv::reg;

template <int a = 0, int b = 0, bool s = false> using L = ::logic::logic<a, b, s>;
template <int a = 0, int b = 0, bool s = false> using B = ::logic::bit<a, b, s>;
template <int w, bool s = false> using LW = ::logic::logic<w - 1, 0, s>;
template <int w, bool s = false> using BW = ::logic::bit<w - 1, 0, s>;
template <int w, bool s, bool is4> using VW = std::conditional_t<is4, LW<w, s>, BW<w, s>>;

template <class X> struct type_of;
template <int a, int b, bool s, bool arr> struct type_of<::logic::logic<a, b, s, arr>> {
    static TypeD get() { return TypeD{a, b, s, true}; }
};
template <int a, int b, bool s, bool arr> struct type_of<::logic::bit<a, b, s, arr>> {
    static TypeD get() { return TypeD{a, b, s, false}; }
};
template <class X> TypeD ty() { return type_of<X>::get(); }

template <class BT> inline void load_bits(BT &b, const uint64_t *v) {
    if constexpr (BT::size <= 64) {
        uint64_t r = v[0];
        if constexpr (BT::is_signed) {
            if ((r >> (BT::size - 1)) & 1) r |= ~(~0ull >> (64 - BT::size));
        }
        b.value = static_cast<decltype(b.value)>(r);
    } else {
        for (size_t i = 0; i < b.value.values.size(); i++) b.value.values[i] = v[i];
    }
}
template <class BT> inline void store_bits(const BT &b, uint64_t *v) {
    if constexpr (BT::size <= 64) {
        v[0] = static_cast<uint64_t>(b.value) & (~0ull >> (64 - BT::size));
    } else {
        for (size_t i = 0; i < b.value.values.size(); i++) v[i] = b.value.values[i];
        if constexpr (BT::size % 64) v[BT::size / 64] &= ~0ull >> (64 - BT::size % 64);
    }
}
template <class X> [[gnu::noinline]] void load(X &x, const MV &m) {
    if constexpr (X::is_4state) {
        load_bits(x.value, m.v);
        load_bits(x.xz_mask, m.m);
    } else {
        load_bits(x, m.v);
    }
}
#ifdef MEMCHECK
#include <valgrind/memcheck.h>
namespace mv { inline const bool counting = (error_count = [] { return uint64_t(VALGRIND_COUNT_ERRORS); }, true); }
template <class X> void defined(const X &x) {
    if (mv::counting && VALGRIND_CHECK_MEM_IS_DEFINED(&x, sizeof x) && mv::current) mv::current->undefined = "the result has uninitialised storage";
}
#else
template <class X> void defined(const X &) {}
#endif
template <class X> [[gnu::noinline]] void store(const X &x, MV &m) {
    defined(x);
    m.clear();
    m.w = int(X::size);
    m.sgn = X::is_signed;
    m.is4 = X::is_4state;
    if constexpr (X::is_4state) {
        store_bits(x.value, m.v);
        store_bits(x.xz_mask, m.m);
    } else {
        store_bits(x, m.v);
    }
}

// what a user can observe of a value besides its bits. compared with an object freshly built from
// the same bits, so a result that carries hidden state (e.g. bits above its width) is noticed
struct Seen {
    uint64_t u = 0;
    int64_t n = 0;
    bool t = false, eq = false;
    bool operator==(const Seen &) const = default;
};
template <class X> Seen see(const X &x, const X &ref) {
    Seen s;
    s.u = x.to_uint64();
    if constexpr (X::size <= 64) s.n = static_cast<int64_t>(x.to_num());
    s.t = static_cast<bool>(x);
    s.eq = x.match(ref);
    return s;
}
template <class X> [[gnu::noinline]] void put(Ctx &c, const X &x) {
    MV &m = c.out[c.nout++];
    store(x, m);
    X ref{}, ref2{};
    load(ref, m);
    load(ref2, m);
    if (!(see(x, ref) == see(ref2, ref)))
        c.fail("result " + m.str() + " has the right bits but does not behave like that value (hidden state above its width)");
}
inline void put(Ctx &c, bool b) {
    MV &m = c.out[c.nout++];
    m.clear();
    m.w = 1; m.sgn = false; m.is4 = false; m.v[0] = b;
}
inline void put_raw(Ctx &c, uint64_t v) {
    MV &m = c.out[c.nout++];
    m.clear();
    m.w = 64; m.sgn = false; m.is4 = false; m.v[0] = v;
}

// ---- operation tags -------------------------------------------------------------------
#define BINOP(NAME, EXPR)                                                          \
    struct T_##NAME {                                                              \
        static constexpr Op op = Op::NAME;                                         \
        template <class A, class C> static auto f(const A &a, const C &b) { return EXPR; } \
    };
#define ASGOP(NAME, EXPR)                                                          \
    struct T_##NAME {                                                              \
        static constexpr Op op = Op::NAME;                                         \
        template <class A, class C> static auto f(A a, const C &b) { EXPR; return a; } \
    };
#define UNOP(NAME, EXPR)                                                           \
    struct T_##NAME {                                                              \
        static constexpr Op op = Op::NAME;                                         \
        template <class A> static auto f(const A &a) { return EXPR; }              \
    };
BINOP(AND, a & b) BINOP(OR, a | b) BINOP(XOR, a ^ b)
ASGOP(ANDE, a &= b) ASGOP(ORE, a |= b) ASGOP(XORE, a ^= b)
BINOP(SHL, a << b) BINOP(SHR, a >> b) BINOP(ASHL, a.ashl(b)) BINOP(ASHR, a.ashr(b))
ASGOP(SHLE, a <<= b) ASGOP(SHRE, a >>= b)
BINOP(ADD, a + b) BINOP(SUB, a - b) BINOP(MUL, a * b) BINOP(DIV, a / b) BINOP(MOD, a % b)
BINOP(EQ, a == b) BINOP(NE, a != b) BINOP(LT, a < b) BINOP(LE, a <= b) BINOP(GT, a > b) BINOP(GE, a >= b)
BINOP(MATCH, a.match(b)) BINOP(NMATCH, a.nmatch(b))
UNOP(NOT, ~a) UNOP(RAND, a.r_and()) UNOP(RNAND, a.r_nand()) UNOP(ROR, a.r_or()) UNOP(RNOR, a.r_nor())
UNOP(RXOR, a.r_xor()) UNOP(RXNOR, a.r_xnor()) UNOP(LNOT, !a) UNOP(BOOL, static_cast<bool>(a))
UNOP(NEG, -a) UNOP(POS, +a) UNOP(TOS, a.to_signed()) UNOP(TOU, a.to_unsigned())

template <class T, class X, class Y> void f_bin(Ctx &c) {
    X a; Y b;
    load(a, c.in[0]); load(b, c.in[1]);
    put(c, T::f(a, b));
}
template <class T, class X> void f_un(Ctx &c) {
    X a;
    load(a, c.in[0]);
    put(c, T::f(a));
}
inline std::string nm(Op o, std::initializer_list<TypeD> ts, const std::string &extra = "") {
    std::string s = mv::op_name(o);
    for (auto &t : ts) s += " " + t.str();
    return extra.empty() ? s : s + " " + extra;
}
template <class T, class X, class Y> Entry &reg_bin(unsigned flags = 0, double weight = 1) {
    return reg(Entry{nm(T::op, {ty<X>(), ty<Y>()}), T::op, {ty<X>(), ty<Y>()}, {}, {}, {}, flags, weight, &f_bin<T, X, Y>});
}
template <class T, class X> Entry &reg_un(unsigned flags = 0, double weight = 1) {
    return reg(Entry{nm(T::op, {ty<X>()}), T::op, {ty<X>()}, {}, {}, {}, flags, weight, &f_un<T, X>});
}

// ---- type lists -----------------------------------------------------------------------
template <auto &ARR, class F, size_t... I> void each_i(F f, std::index_sequence<I...>) {
    (f.template operator()<I>(), ...);
}
// calls f.template operator()<I>() for the indices of ARR that belong to this part; BLOCK neighbours stay together
template <auto &ARR, size_t BLOCK = 1, class F> void each(F f) {
    each_i<ARR>([&]<size_t I>() {
        if constexpr (I / BLOCK % NPARTS == PART) f.template operator()<I>();
    }, std::make_index_sequence<std::size(ARR)>{});
}
#define SUITE(NAME) static void suite_##NAME(); static const bool reg_##NAME = (suite_##NAME(), true); static void suite_##NAME()
