#include "lib.hh"
#include "widths.hh"
template <Op o, class X> void f_inc(Ctx &c) {
    X a;
    load(a, c.in[0]);
    if constexpr (o == Op::PREINC) put(c, ++a);
    if constexpr (o == Op::PREDEC) put(c, --a);
    if constexpr (o == Op::POSTINC) put(c, a++);
    if constexpr (o == Op::POSTDEC) put(c, a--);
    put(c, a);
}
template <Op o, class X> void inc() { reg(Entry{nm(o, {ty<X>()}), o, {ty<X>()}, {}, {}, {}, 0, 1, &f_inc<o, X>}); }
// -a, as a method on a 2-state value: the negated value, and negation in place
template <class X> void f_neg(Ctx &c) {
    X a;
    load(a, c.in[0]);
    X const &b = a;
    put(c, b.negate());
    a.negate();
    put(c, a);
    c.nout = 1;
    if (!c.out[0].same_bits(c.out[1])) c.fail("negated in place it is " + c.out[1].str());
}
template <class X> void neg() { reg(Entry{nm(Op::NEG, {ty<X>()}, "negate()"), Op::NEG, {ty<X>()}, {}, {}, {}, 0, 0.5, &f_neg<X>}); }
template <class X> void unary() {
    if constexpr (!X::is_4state) neg<X>();
    reg_un<T_NEG, X>(); reg_un<T_POS, X>(mv::F_NOXZ);
    inc<Op::PREINC, X>(); inc<Op::PREDEC, X>(); inc<Op::POSTINC, X>(); inc<Op::POSTDEC, X>();
}
template <class X> void based() { inc<Op::PREINC, X>(); inc<Op::PREDEC, X>(); inc<Op::POSTINC, X>(); inc<Op::POSTDEC, X>(); }
template <class X, class Y> void addsub() { reg_bin<T_ADD, X, Y>(mv::F_SGN); reg_bin<T_SUB, X, Y>(mv::F_SGN); }
#ifdef VAST   // positions beyond 16 bits
SUITE(c05) {
    addsub<LW<65600>, LW<65600>>(); addsub<BW<65600, true>, BW<70001, true>>(); addsub<LW<70, true>, LW<65600, true>>(); addsub<BW<65600>, BW<33, true>>();
}
#else
SUITE(c05) {
    each<PAIRS>([]<size_t I>() {
        constexpr int wa = PAIRS[I][0], wb = PAIRS[I][1];
        auto signs = []<bool sa, bool sb>() {
            if constexpr (combo(I, sa, sb, 0)) addsub<LW<wa, sa>, LW<wb, sb>>();
            if constexpr (combo(I, sa, sb, 1)) addsub<BW<wa, sa>, BW<wb, sb>>();
            if constexpr (combo(I, sa, sb, 2)) addsub<LW<wa, sa>, BW<wb, sb>>();
        };
        signs.template operator()<false, false>();
        signs.template operator()<true, true>();
        signs.template operator()<false, true>();
        signs.template operator()<true, false>();
    });
    each<WIDTHS>([]<size_t I>() {
        constexpr int w = WIDTHS[I];
        constexpr bool s = I % 2;
        unary<LW<w, s>>(); unary<BW<w, !s>>();
        if constexpr (I % 3 == 0 || thorough) { unary<LW<w, !s>>(); unary<BW<w, s>>(); }
    });
    cross([]<class X, class Y>() { addsub<X, Y>(); });
    sweep_pairs([]<class X, class Y>() { addsub<X, Y>(); });
    sweep_types([]<class X>() { unary<X>(); });
    if constexpr (PART == 0) { addsub<L<11, 4>, L<7, 0>>(); addsub<L<103, 4>, L<99, 0>>(); addsub<L<0, 7>, L<15, 0>>(); addsub<B<80, 0>, B<0, 7>>(); reg_un<T_NEG, B<11, 4>>(); reg_un<T_NEG, L<103, 4, true>>(); based<B<11, 4>>(); based<L<103, 4, true>>(); based<L<66, 3>>(); based<B<80, 5, true>>(); }
}
#endif
