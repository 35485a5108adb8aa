#include "hist.hh"
// Relations between executions; no reference model is involved.
inline void cap(MV &m, bool b) { m.clear(); m.w = 1; m.is4 = false; m.v[0] = b; }
template <class X> void cap(MV &m, const X &x) { store(x, m); }
template <class T, class X, class Y> void ev2(MV &r, const MV &a, const MV &b) { cap(r, T::f(make<X>(a), make<Y>(b))); }
template <class T, class X> void ev1(MV &r, const MV &a) { cap(r, T::f(make<X>(a))); }

// the operators beyond lib.hh's: widening, selects, concatenation, part writes and compound forms
UNOP(EXTEND, a.template extend<int(A::size) + 70>())
UNOP(PARTC, (a.template slice<int(A::size) - 1, int(A::size) / 3>()))
BINOP(CONCAT, a.concat(b))
BINOP(BITSEL, a.get(b))
BINOP(IPARTUP, (a.template slice<int(A::size) / 2 + 1, true>(b)))
ASGOP(UPDC, (a.template update<int(A::size) - 1, int(A::size) / 2>(b)))
ASGOP(UPDR, a.update(int(A::size) - 1, int(A::size) / 3, b))
ASGOP(ASSIGN, a = b)
struct T_PREINC { static constexpr Op op = Op::PREINC; template <class A> static auto f(A a) { ++a; return a; } };
struct T_PREDEC { static constexpr Op op = Op::PREDEC; template <class A> static auto f(A a) { --a; return a; } };

// (a) replaces unknown bits; the same relation must hold when only some of them are replaced
static void refine(Ctx &c, MV &a) {
    uint64_t mode = c.below(4);
    for (int i = 0; i < a.words(); i++) {
        uint64_t pick = mode == 0 ? c.next() : ~0ull, to = mode == 1 ? 0 : mode == 2 ? ~0ull : c.next(), k = a.m[i] & pick;
        a.v[i] = (a.v[i] & ~k) | (to & k);
        a.m[i] &= ~k;
    }
    a.mask();
}
static void check_refined(Ctx &c, const std::string &what, const MV &r0, const MV &r1) {
    c.steps++;
    if (r0.w != r1.w) { c.fail(what + ": widths differ"); return; }
    for (int i = 0; i < r0.words(); i++) {
        uint64_t known = ~r0.m[i];
        if ((r0.v[i] & known) != (r1.v[i] & known) || (r1.m[i] & known)) { c.fail(what + ": known result bits of " + r0.str() + " became " + r1.str()); return; }
    }
}
template <class Y> MV operand(Ctx &c, const MV *rel, bool amount, int wa, bool known = false) {
    MV m;
    mv::gen_value(c, m, ty<Y>(), known ? 0 : -1, rel);
    if (amount && c.below(6)) {
        MV k = m;
        std::memset(m.v, 0, sizeof m.v);
        m.v[0] = c.below(4) ? c.below(uint64_t(wa) + 1) : uint64_t(wa) + c.below(70);
        if (c.below(3)) std::memset(m.m, 0, sizeof m.m);
        m.mask();
    }
    return m;
}
constexpr bool is_shift(Op o) { return o == Op::SHLE || o == Op::SHRE || o == Op::SHL || o == Op::SHR || o == Op::ASHL || o == Op::ASHR; }
template <class T, class X, class Y> void f_ref2(Ctx &c) {
    MV a = operand<X>(c, nullptr, false, 0), b = operand<Y>(c, &a, is_shift(T::op), X::size), r0, r1;
    c.digest = mv::hmix(mv::hmix(a.v[0], a.m[0]), mv::hmix(b.v[0], b.m[0]));
    ev2<T, X, Y>(r0, a, b);
    for (int k = 0; k < 4 && c.anomaly.empty(); k++) {
        MV p = a, q = b;
        refine(c, p);
        refine(c, q);
        ev2<T, X, Y>(r1, p, q);
        check_refined(c, a.str() + ", " + b.str() + " refined to " + p.str() + ", " + q.str(), r0, r1);
    }
    c.trace = a.str() + ", " + b.str();
}
template <class T, class X> void f_ref1(Ctx &c) {
    MV a = operand<X>(c, nullptr, false, 0), r0, r1;
    c.digest = mv::hmix(a.v[0], a.m[0]);
    ev1<T, X>(r0, a);
    for (int k = 0; k < 4 && c.anomaly.empty(); k++) {
        MV p = a;
        refine(c, p);
        ev1<T, X>(r1, p);
        check_refined(c, a.str() + " refined to " + p.str(), r0, r1);
    }
    c.trace = a.str();
}
// (b) no unknown bits: 4-state, 2-state and mixed executions agree
static void check_same(Ctx &c, const std::string &what, const MV &r0, const MV &r1, int w = 0) {
    c.steps++;
    MV p = r0, q = r1;
    if (w) { p.w = q.w = std::min(w, std::min(p.w, q.w)); p.mask(); q.mask(); }
    if (!p.same_bits(q)) c.fail(what + ": " + r0.str() + " and " + r1.str());
}
// operators that take a logic and a bit operand
constexpr bool mixes(Op o) {
    switch (o) {
        case Op::AND: case Op::OR: case Op::XOR: case Op::ADD: case Op::SUB: case Op::MUL: case Op::DIV: case Op::MOD: case Op::SHL: case Op::SHR:
        case Op::EQ: case Op::NE: case Op::LT: case Op::LE: case Op::GT: case Op::GE: case Op::CONCAT: return true;
        default: return false;
    }
}
template <class T, int wa, int wb, bool sa, bool sb, bool zero_ok> void f_kind2(Ctx &c) {
    using XL = LW<wa, sa>; using YL = LW<wb, sb>; using XB = BW<wa, sa>; using YB = BW<wb, sb>;
    MV a = operand<XB>(c, nullptr, false, 0), b = operand<YB>(c, &a, is_shift(T::op), wa), r0, r1, r2;
    if (!zero_ok && b.is_zero()) b.v[0] = 1;
    c.digest = mv::hmix(a.v[0], b.v[0] + 17);
    c.trace = a.str() + ", " + b.str();
    ev2<T, XL, YL>(r0, a, b);
    ev2<T, XB, YB>(r1, a, b);
    check_same(c, c.trace + " 4-state and 2-state", r0, r1);
    if constexpr (mixes(T::op)) {
        ev2<T, XL, YB>(r2, a, b);
        check_same(c, c.trace + " 4-state and mixed", r0, r2);
    }
}
template <class T, int w, bool s> void f_kind1(Ctx &c) {
    MV a = operand<BW<w, s>>(c, nullptr, false, 0), r0, r1;
    c.digest = a.v[0];
    c.trace = a.str();
    ev1<T, LW<w, s>>(r0, a);
    ev1<T, BW<w, s>>(r1, a);
    check_same(c, c.trace + " 4-state and 2-state", r0, r1);
}
// (c) the same numbers held natively and in several words: the low bits agree
template <class T, int wa, int wb, int WA, int WB, bool sa, bool sb, bool is4> void f_wide2(Ctx &c) {
    using X = VW<wa, sa, is4>; using Y = VW<wb, sb, is4>; using P = VW<WA, sa, is4>; using Q = VW<WB, sb, is4>;
    MV a = operand<X>(c, nullptr, false, 0), b = operand<Y>(c, &a, is_shift(T::op), wa), r0, r1;
    c.digest = mv::hmix(mv::hmix(a.v[0], a.m[0]), mv::hmix(b.v[0], b.m[0]));
    c.trace = a.str() + ", " + b.str();
    // recorded finding of C04: long arithmetic right shifts of wide values
    if (T::op == Op::ASHR && !b.has_xz() && b.v[0] >= uint64_t(WA - wa) && b.v[0] < uint64_t(WA)) return;
    bool sx = is_shift(T::op) ? sa : sa && sb;
    MV p = mv::mv_extend(a, WA, sx), q = mv::mv_extend(b, WB, is_shift(T::op) ? false : sx);
    ev2<T, X, Y>(r0, a, b);
    ev2<T, P, Q>(r1, p, q);
    // a logical right shift moves the extension in, and an all-x quotient of known low bits is the same
    if (T::op == Op::SHR && sa) { ev2<T, VW<WA, false, is4>, Q>(r1, mv::mv_extend(a, WA, false), q); }
    check_same(c, c.trace + " native and " + num(WA) + "/" + num(WB) + " bits", r0, r1, r0.w);
}
template <class T, int w, int W, bool s, bool is4> void f_wide1(Ctx &c) {
    using X = VW<w, s, is4>; using P = VW<W, s, is4>;
    MV a = operand<X>(c, nullptr, false, 0), r0, r1;
    c.digest = mv::hmix(a.v[0], a.m[0]);
    c.trace = a.str();
    ev1<T, X>(r0, a);
    ev1<T, P>(r1, mv::mv_extend(a, W, s));
    check_same(c, c.trace + " native and " + num(W) + " bits", r0, r1, r0.w);
}
static void rg(const std::string &name, mv::Fn f, double w = 1) { Entry e; e.name = name; e.op = Op::CUSTOM; e.fn = f; e.weight = w; reg(e); }
template <class T, class X, class Y> void ref2() { rg("REFINE " + nm(T::op, {ty<X>(), ty<Y>()}), &f_ref2<T, X, Y>); }
template <class T, class X> void ref1() { rg("REFINE " + nm(T::op, {ty<X>()}), &f_ref1<T, X>); }
template <class T, int a, int b, bool sa, bool sb, bool z = true> void kind2() { rg("KIND " + nm(T::op, {ty<LW<a, sa>>(), ty<LW<b, sb>>()}), &f_kind2<T, a, b, sa, sb, z>, 0.7); }
template <class T, int a, bool s> void kind1() { rg("KIND " + nm(T::op, {ty<LW<a, s>>()}), &f_kind1<T, a, s>, 0.7); }
template <class T, int a, int b, int A, int Bw, bool sa, bool sb, bool is4> void wide2() { rg("WIDE " + nm(T::op, {ty<VW<a, sa, is4>>(), ty<VW<b, sb, is4>>(), ty<VW<A, sa, is4>>()}), &f_wide2<T, a, b, A, Bw, sa, sb, is4>); }
template <class T, int a, int A, bool s, bool is4> void wide1() { rg("WIDE " + nm(T::op, {ty<VW<a, s, is4>>(), ty<VW<A, s, is4>>()}), &f_wide1<T, a, A, s, is4>); }

constexpr int NATIVE[][4] = {   // widths, and the widths they are widened to
    {8, 8, 128, 128}, {5, 5, 70, 70}, {16, 16, 100, 100}, {31, 32, 65, 130}, {32, 32, 192, 192}, {20, 40, 128, 100}, {33, 9, 100, 90}, {63, 63, 129, 129}, {64, 64, 128, 128}, {64, 64, 200, 200}, {64, 1, 129, 65}, {1, 64, 66, 128},
    {12, 60, 300, 257}, {1, 1, 65, 65}, {2, 3, 256, 192}, {48, 50, 160, 66},
#ifdef THOROUGH
    {3, 3, 67, 67}, {7, 15, 96, 97}, {9, 17, 80, 81}, {24, 24, 127, 127}, {28, 36, 191, 193}, {40, 40, 320, 320}, {56, 8, 150, 250}, {62, 61, 126, 127}, {64, 63, 512, 511}, {10, 64, 70, 1000},
#endif
};
SUITE(c18) {
    each<PAIRS>([]<size_t I>() {
        constexpr int a = PAIRS[I][0], b = PAIRS[I][1];
        constexpr bool s = I % 2, u = (I / 2) % 2;
        using X = LW<a, s>; using Y = LW<b, u>; using Z = BW<b, u>;
        ref2<T_AND, X, Y>(); ref2<T_OR, X, Y>(); ref2<T_XOR, X, Y>(); ref2<T_ADD, X, Y>(); ref2<T_SUB, X, Y>(); ref2<T_MUL, X, Y>(); ref2<T_DIV, X, Y>(); ref2<T_MOD, X, Y>();
        ref2<T_EQ, X, Y>(); ref2<T_NE, X, Y>(); ref2<T_LT, X, Y>(); ref2<T_LE, X, Y>(); ref2<T_GT, X, Y>(); ref2<T_GE, X, Y>();
        ref2<T_SHL, X, Y>(); ref2<T_SHR, X, Y>(); ref2<T_ASHR, X, Y>(); ref2<T_ASHL, X, Y>();
        if constexpr (I % 3 == 0) { ref2<T_CONCAT, X, Y>(); ref2<T_BITSEL, X, Y>(); ref2<T_IPARTUP, X, Y>(); ref2<T_UPDC, X, Y>(); ref2<T_UPDR, X, Y>(); ref2<T_ASSIGN, X, Y>(); ref2<T_ANDE, X, Y>(); ref2<T_ORE, X, Y>(); ref2<T_XORE, X, Y>(); ref2<T_SHLE, X, Y>(); ref2<T_SHRE, X, Y>(); }
        if constexpr (I % 3 == 1) { kind2<T_CONCAT, a, b, s, u>(); kind2<T_UPDC, a, b, s, u>(); kind2<T_UPDR, a, b, s, u>(); kind2<T_ASSIGN, a, b, s, u>(); kind2<T_ANDE, a, b, s, u>(); kind2<T_ORE, a, b, s, u>(); kind2<T_XORE, a, b, s, u>(); kind2<T_SHLE, a, b, s, u>(); kind2<T_SHRE, a, b, s, u>(); }
        if constexpr (I % 2 == 0) { ref2<T_AND, X, Z>(); ref2<T_OR, X, Z>(); ref2<T_ADD, X, Z>(); ref2<T_EQ, X, Z>(); ref2<T_SHL, X, Z>(); }
        kind2<T_AND, a, b, s, u>(); kind2<T_OR, a, b, s, u>(); kind2<T_XOR, a, b, s, u>(); kind2<T_ADD, a, b, s, u>(); kind2<T_SUB, a, b, s, u>(); kind2<T_MUL, a, b, s, u>();
        kind2<T_DIV, a, b, s, u, false>(); kind2<T_MOD, a, b, s, u, false>();
        kind2<T_EQ, a, b, s, u>(); kind2<T_NE, a, b, s, u>(); kind2<T_LT, a, b, s, u>(); kind2<T_LE, a, b, s, u>(); kind2<T_GT, a, b, s, u>(); kind2<T_GE, a, b, s, u>(); kind2<T_MATCH, a, b, s, u>(); kind2<T_NMATCH, a, b, s, u>();
        kind2<T_SHL, a, b, s, u>(); kind2<T_SHR, a, b, s, u>(); kind2<T_ASHR, a, b, s, u>(); kind2<T_ASHL, a, b, s, u>();
    });
    // each operator on one to four of the combinations, in turn
    cross([]<class X, class Y>() {
        constexpr int a = X::size, b = Y::size;
        constexpr bool s = X::is_signed, u = Y::is_signed;
        if constexpr (X::is_4state) {
            ref2<T_AND, X, Y>(); ref2<T_OR, X, Y>(); ref2<T_XOR, X, Y>(); ref2<T_ADD, X, Y>(); ref2<T_MUL, X, Y>(); ref2<T_DIV, X, Y>(); ref2<T_EQ, X, Y>(); ref2<T_LT, X, Y>(); ref2<T_GE, X, Y>(); ref2<T_SHL, X, Y>(); ref2<T_SHR, X, Y>();
            if constexpr (Y::is_4state) { ref2<T_ASHR, X, Y>(); ref2<T_ASSIGN, X, Y>(); ref2<T_UPDC, X, Y>(); ref2<T_BITSEL, X, Y>(); ref2<T_CONCAT, X, Y>(); }
        } else {
            kind2<T_AND, a, b, s, u>(); kind2<T_OR, a, b, s, u>(); kind2<T_ADD, a, b, s, u>(); kind2<T_SUB, a, b, s, u>(); kind2<T_MUL, a, b, s, u>(); kind2<T_DIV, a, b, s, u, false>(); kind2<T_MOD, a, b, s, u, false>();
            kind2<T_EQ, a, b, s, u>(); kind2<T_LT, a, b, s, u>(); kind2<T_LE, a, b, s, u>(); kind2<T_GT, a, b, s, u>(); kind2<T_GE, a, b, s, u>(); kind2<T_MATCH, a, b, s, u>();
            kind2<T_SHL, a, b, s, u>(); kind2<T_SHR, a, b, s, u>(); kind2<T_ASHR, a, b, s, u>(); kind2<T_ASSIGN, a, b, s, u>(); kind2<T_UPDR, a, b, s, u>();
        }
    });
    each<WIDTHS>([]<size_t I>() {
        constexpr int w = WIDTHS[I];
        constexpr bool s = I % 2;
        using X = LW<w, s>;
        ref1<T_NOT, X>(); ref1<T_RAND, X>(); ref1<T_RNAND, X>(); ref1<T_ROR, X>(); ref1<T_RNOR, X>(); ref1<T_RXOR, X>(); ref1<T_RXNOR, X>(); ref1<T_LNOT, X>(); ref1<T_NEG, X>(); ref1<T_TOS, X>(); ref1<T_EXTEND, X>(); ref1<T_PARTC, X>(); ref1<T_PREINC, X>(); ref1<T_PREDEC, X>();
        kind1<T_EXTEND, w, s>(); kind1<T_PARTC, w, !s>(); kind1<T_PREINC, w, s>(); kind1<T_PREDEC, w, !s>(); kind1<T_TOS, w, s>();
        kind1<T_NOT, w, !s>(); kind1<T_RAND, w, !s>(); kind1<T_RNAND, w, s>(); kind1<T_ROR, w, !s>(); kind1<T_RNOR, w, s>(); kind1<T_RXOR, w, !s>(); kind1<T_RXNOR, w, s>(); kind1<T_LNOT, w, s>(); kind1<T_BOOL, w, !s>(); kind1<T_NEG, w, s>(); kind1<T_TOU, w, !s>();
    });
    each<NATIVE>([]<size_t I>() {
        constexpr int a = NATIVE[I][0], b = NATIVE[I][1], A = NATIVE[I][2], D = NATIVE[I][3];
        auto go = []<bool sa, bool sb, bool k>() {
            wide2<T_AND, a, b, A, D, sa, sb, k>(); wide2<T_OR, a, b, A, D, sa, sb, k>(); wide2<T_XOR, a, b, A, D, sa, sb, k>(); wide2<T_ADD, a, b, A, D, sa, sb, k>(); wide2<T_SUB, a, b, A, D, sa, sb, k>(); wide2<T_MUL, a, b, A, D, sa, sb, k>();
            wide2<T_DIV, a, b, A, D, sa, sb, k>(); wide2<T_MOD, a, b, A, D, sa, sb, k>();
            wide2<T_EQ, a, b, A, D, sa, sb, k>(); wide2<T_NE, a, b, A, D, sa, sb, k>(); wide2<T_LT, a, b, A, D, sa, sb, k>(); wide2<T_LE, a, b, A, D, sa, sb, k>(); wide2<T_GT, a, b, A, D, sa, sb, k>(); wide2<T_GE, a, b, A, D, sa, sb, k>(); 
            wide2<T_SHL, a, b, A, D, sa, sb, k>(); wide2<T_ASHR, a, b, A, D, sa, sb, k>(); wide2<T_SHR, a, b, A, D, sa, sb, k>(); wide2<T_SHLE, a, b, A, D, sa, sb, k>(); wide2<T_ANDE, a, b, A, D, sa, sb, k>(); wide2<T_ORE, a, b, A, D, sa, sb, k>(); wide2<T_XORE, a, b, A, D, sa, sb, k>();
        };
        go.template operator()<false, false, true>(); go.template operator()<true, true, true>();
        go.template operator()<true, true, false>(); go.template operator()<false, false, false>();
        if constexpr (I % 2 || thorough) { go.template operator()<true, false, I % 4 == 1>(); go.template operator()<false, true, I % 4 == 3>(); }
        auto un = []<int w, int W, bool s, bool k>() { wide1<T_NOT, w, W, s, k>(); wide1<T_NEG, w, W, s, k>(); wide1<T_ROR, w, W, s, k>(); wide1<T_RNOR, w, W, s, k>(); wide1<T_LNOT, w, W, s, k>(); wide1<T_BOOL, w, W, s, k>(); wide1<T_TOU, w, W, s, k>(); wide1<T_EXTEND, w, W, s, k>(); wide1<T_PREINC, w, W, s, k>(); wide1<T_PREDEC, w, W, s, k>(); if constexpr (s) wide1<T_RAND, w, W, s, k>(); else wide1<T_RXOR, w, W, s, k>(); };
        un.template operator()<a, A, false, true>(); un.template operator()<a, A, true, true>(); un.template operator()<b, D, true, false>(); un.template operator()<b, D, false, false>();
    });
}
