#include "hist.hh"
// Reading operations on objects that every thread shares. The objects are built before any thread
// starts; nothing may write to them, visibly or not.
using ::logic::packed_array;
using ::logic::unpacked_array;
template <class X, uint64_t salt> struct Shared {
    static X init() {
        Ctx *r = new Ctx;
        r->rng_state = salt * 7919 + X::size;
        MV m;
        mv::gen_value(*r, m, TypeD{int(X::size) - 1, 0, X::is_signed, X::is_4state}, salt % 2 ? 0 : -1);
        delete r;
        return make<X>(m);
    }
    static inline const X obj = init();
};
inline void out(Ctx &c, bool b) { put(c, b); }
template <class X> void out(Ctx &c, const X &x) { MV &m = c.out[c.nout++]; store(x, m); }
template <class T, class X, class Y> void f_sh2(Ctx &c) {
    uint64_t k = c.next();
    c.steps = 1; c.digest = k;
    const X &a = k & 1 ? Shared<X, 1>::obj : k & 2 ? Shared<X, 2>::obj : Shared<X, 3>::obj;
    const Y &b = k & 4 ? Shared<Y, 4>::obj : k & 8 ? Shared<Y, 5>::obj : Shared<Y, 1>::obj;
    out(c, T::f(a, b));
}
template <class T, class X> void f_sh1(Ctx &c) {
    uint64_t k = c.next();
    c.steps = 1; c.digest = k;
    const X &a = k & 1 ? Shared<X, 1>::obj : k & 2 ? Shared<X, 2>::obj : Shared<X, 3>::obj;
    out(c, T::f(a));
}
template <class X> void f_read(Ctx &c) {
    uint64_t k = c.next();
    c.steps = 1; c.digest = k;
    const X &a = k & 1 ? Shared<X, 1>::obj : k & 2 ? Shared<X, 2>::obj : Shared<X, 3>::obj;
    constexpr int w = int(X::size), h = w > 1 ? w / 2 : 0;
    int i = int(c.below(uint64_t(w) + 2)) - 1;
    switch (c.below(9)) {
        case 0: { const char *f[] = {"b", "h", "o", "d", "s", "0d", "90b", "40d", "x"}; c.text = a.str(f[c.below(9)]); break; }
        case 1: out(c, a[i]); break;
        case 2: out(c, a.template slice<w - 1, h>()); break;
        case 3: out(c, a.template slice<(w + 1) / 2>(i, i + (w + 1) / 2 - 1)); break;
        case 4: out(c, a.template extend<w + 70>()); break;
        case 5: { X b = a; b.set(0, true); out(c, b); break; }
        case 6: c.text = std::to_string(a.to_uint64()); break;
        case 7: { VW<w + 9, false, X::is_4state> b; b = a; out(c, b); break; }
        default: out(c, a.concat(a));
    }
}
template <class X> void f_lit(Ctx &c) {
    static const char *const texts[] = {"16'hdeadbeef", "'b1010101010101010101", "'d123456789012345678901234567890", "'o7654321076543210", "'hffff_ffff_ffff_ffff_ffff_0", "hello there, world", "'d99999", "'h1234"};
    uint64_t k = c.below(8);
    c.steps = 1; c.digest = k;
    out(c, X(std::string_view(texts[k])));
}
template <class T, int m, int l> struct SharedArrays {
    using P = packed_array<T, m, l>;
    using U = unpacked_array<T, m, l>;
    static U init() { U u; for (auto &e : u.value) e = Shared<T, 2>::obj; return u; }
    static inline const P p = Shared<P, 2>::obj;
    static inline const U u = init();
    static inline const std::array<LW<8, true>, 6> idx = {LW<8, true>(-1), LW<8, true>(0), LW<8, true>(1), LW<8, true>(2), LW<8, true>(3), LW<8, true>()};
    static void read(Ctx &c) {
        uint64_t k = c.below(6), how = c.below(3);
        c.steps = 1; c.digest = k * 3 + how;
        if (how == 0) out(c, p[idx[k]]);
        else if (how == 1) out(c, u[int(k) - 1]);
        else out(c, p.template slice_array<m, l>());
    }
};
static void rg(const std::string &name, mv::Fn f) { Entry e; e.name = name; e.op = Op::CUSTOM; e.fn = f; reg(e); }
template <class X> void reads() { rg("SHARED reads " + ty<X>().str(), &f_read<X>); rg("SHARED literals " + ty<X>().str(), &f_lit<X>); }
template <class X, class Y> void pairs() {
    auto b = []<class T>(T) { rg("SHARED " + nm(T::op, {ty<X>(), ty<Y>()}), &f_sh2<T, X, Y>); };
    b(T_AND{}); b(T_OR{}); b(T_XOR{}); b(T_ADD{}); b(T_SUB{}); b(T_MUL{}); b(T_DIV{}); b(T_MOD{}); b(T_EQ{}); b(T_NE{}); b(T_LT{}); b(T_LE{}); b(T_GT{}); b(T_GE{});
    b(T_SHL{}); b(T_SHR{});
    if constexpr (X::is_4state == Y::is_4state) { b(T_MATCH{}); b(T_NMATCH{}); b(T_ASHL{}); b(T_ASHR{}); }
}
template <class X> void unary() {
    auto b = []<class T>(T) { rg("SHARED " + nm(T::op, {ty<X>()}), &f_sh1<T, X>); };
    b(T_NOT{}); b(T_RAND{}); b(T_RNAND{}); b(T_ROR{}); b(T_RNOR{}); b(T_RXOR{}); b(T_RXNOR{}); b(T_LNOT{}); b(T_BOOL{}); b(T_NEG{}); b(T_TOS{}); b(T_TOU{});
}
constexpr int TYPES[][2] = {{1, 1}, {8, 8}, {20, 33}, {32, 32}, {64, 64}, {63, 65}, {65, 64}, {100, 100}, {128, 7}, {200, 128}, {300, 300}, {5, 100},
#ifdef THOROUGH
    {16, 16}, {33, 66}, {66, 66}, {127, 128}, {192, 192}, {256, 255}, {512, 512}, {1000, 64}, {31, 200}, {48, 48},
#endif
};
SUITE(c20) {
    each<TYPES>([]<size_t I>() {
        constexpr int a = TYPES[I][0], b = TYPES[I][1];
        constexpr bool s = I % 2;
        pairs<LW<a, s>, LW<b, s>>(); pairs<BW<a, s>, BW<b, !s>>(); pairs<LW<a, !s>, BW<b, s>>();
        unary<LW<a, s>>(); unary<BW<a, !s>>(); unary<LW<b, !s>>();
        reads<LW<a, s>>(); reads<BW<a, s>>(); reads<LW<a, !s>>(); reads<BW<b, !s>>();
        rg("SHARED arrays " + ty<LW<a, s>>().str(), &SharedArrays<LW<a, s>, 2, 0>::read);
        rg("SHARED arrays " + ty<BW<a, s>>().str(), &SharedArrays<BW<a, s>, 0, 1>::read);
    });
    cross([]<class X, class Y>() { pairs<X, Y>(); });
}
