#include "lib.hh"
#include "widths.hh"
template <class X, class Y> void pair_ops() {
    reg_bin<T_AND, X, Y>(mv::F_SGN); reg_bin<T_OR, X, Y>(mv::F_SGN); reg_bin<T_XOR, X, Y>(mv::F_SGN);
    if constexpr (X::is_4state == Y::is_4state) { reg_bin<T_ANDE, X, Y>(); reg_bin<T_ORE, X, Y>(); reg_bin<T_XORE, X, Y>(); }
}
#ifdef VAST   // positions beyond 16 bits
SUITE(c02) {
    pair_ops<LW<65600>, LW<65600>>(); pair_ops<BW<65600, true>, BW<70001, true>>(); pair_ops<LW<70, true>, LW<65600, true>>(); pair_ops<BW<65600>, BW<33, true>>(); pair_ops<LW<65600>, BW<65599>>();
}
#else
SUITE(c02) {
    each<PAIRS>([]<size_t I>() {
        constexpr int wa = PAIRS[I][0], wb = PAIRS[I][1];
        auto signs = []<bool sa, bool sb>() {
            if constexpr (combo(I, sa, sb, 0)) pair_ops<LW<wa, sa>, LW<wb, sb>>();
            if constexpr (combo(I, sa, sb, 1)) pair_ops<BW<wa, sa>, BW<wb, sb>>();
            if constexpr (combo(I, sa, sb, 2)) pair_ops<LW<wa, sa>, BW<wb, sb>>();
        };
        signs.template operator()<false, false>();
        signs.template operator()<true, true>();
        signs.template operator()<false, true>();
        signs.template operator()<true, false>();
    });
    cross([]<class X, class Y>() { pair_ops<X, Y>(); });
    each<WIDTHS>([]<size_t I>() {
        constexpr int w = WIDTHS[I];
        reg_un<T_NOT, LW<w>>(); reg_un<T_NOT, LW<w, true>>(); reg_un<T_NOT, BW<w>>(); reg_un<T_NOT, BW<w, true>>();
    });
    sweep_pairs([]<class X, class Y>() {
        reg_bin<T_AND, X, Y>(mv::F_SGN); reg_bin<T_OR, X, Y>(mv::F_SGN); reg_bin<T_XOR, X, Y>(mv::F_SGN);
        if constexpr (X::size == Y::size && X::is_4state && Y::is_4state) pair_ops<X, Y>();
    });
    sweep_types([]<class X>() { reg_un<T_NOT, X>(); });
    if constexpr (PART == 0) {
        // left operands declared over other ranges
        pair_ops<L<11, 4>, L<7, 0>>(); pair_ops<L<103, 4>, L<99, 0>>();
        pair_ops<B<0, 7>, B<7, 0>>(); pair_ops<B<11, 4>, B<11, 4>>(); pair_ops<B<2, 71>, B<69, 0>>(); pair_ops<B<103, 4, true>, B<99, 0, true>>();
        pair_ops<L<0, 7>, L<15, 0>>(); pair_ops<L<15, 0>, L<0, 7>>(); pair_ops<L<-1, 6>, L<80, 0>>(); pair_ops<L<5, -4>, L<9, 0>>();
    }
}
#endif
