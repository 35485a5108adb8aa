#include "lib.hh"
#include "widths.hh"
template <class X, class Y> void f_cmp(Ctx &c) {
    X a; Y b;
    load(a, c.in[0]); load(b, c.in[1]);
    put(c, a == b); put(c, a != b); put(c, a < b); put(c, a <= b); put(c, a > b); put(c, a >= b);
    put(c, a.match(b)); put(c, a.nmatch(b));
}
template <class X, class Y> void f_cmprev(Ctx &c) {
    X a; Y b;
    load(a, c.in[0]); load(b, c.in[1]);
    put(c, a < b); put(c, a <= b); put(c, a > b); put(c, a >= b);
}
template <class X, class Y> void cmps() {
    reg(Entry{nm(Op::CMPALL, {ty<X>(), ty<Y>()}), Op::CMPALL, {ty<X>(), ty<Y>()}, {}, {}, {}, 0, 1, &f_cmp<X, Y>});
}
template <class X, class Y> void rev() {
    reg(Entry{nm(Op::CMPREV, {ty<X>(), ty<Y>()}), Op::CMPREV, {ty<X>(), ty<Y>()}, {}, {}, {}, 0, 1, &f_cmprev<X, Y>});
}
#ifdef VAST   // positions beyond 16 bits
SUITE(c08) {
    cmps<LW<65600>, LW<65600>>(); cmps<BW<65600, true>, BW<70001, true>>(); cmps<LW<70, true>, LW<65600, true>>(); cmps<BW<65600>, BW<33, true>>(); cmps<LW<65600>, BW<65600>>();
}
#else
SUITE(c08) {
    each<PAIRS>([]<size_t I>() {
        constexpr int wa = PAIRS[I][0], wb = PAIRS[I][1];
        auto signs = []<bool sa, bool sb>() {
            if constexpr (combo(I, sa, sb, 0)) cmps<LW<wa, sa>, LW<wb, sb>>();
            if constexpr (combo(I, sa, sb, 1)) cmps<BW<wa, sa>, BW<wb, sb>>();
            if constexpr (combo(I, sa, sb, 2)) { cmps<LW<wa, sa>, BW<wb, sb>>(); rev<BW<wb, sa>, LW<wa, sb>>(); }
        };
        signs.template operator()<false, false>();
        signs.template operator()<true, true>();
        signs.template operator()<false, true>();
        signs.template operator()<true, false>();
    });
    cross<true>([]<class X, class Y>() {
        if constexpr (!X::is_4state && Y::is_4state) rev<X, Y>(); else cmps<X, Y>();
    });
    sweep_pairs([]<class X, class Y>() { cmps<X, Y>(); });
    if constexpr (PART == 0) { cmps<L<11, 4>, L<7, 0>>(); cmps<L<103, 4>, L<99, 0>>(); cmps<L<0, 7>, L<15, 0>>(); cmps<B<80, 0, true>, B<0, 7, true>>(); cmps<B<0, 7>, B<9, 2>>(); cmps<L<0, 79, true>, L<85, 6, true>>(); }
}
#endif
