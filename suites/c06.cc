#include "lib.hh"
#include "widths.hh"
template <class X, class Y> void mul() { reg_bin<T_MUL, X, Y>(mv::F_SGN); }
SUITE(c06) {
    each<PAIRS>([]<size_t I>() {
        constexpr int wa = PAIRS[I][0], wb = PAIRS[I][1];
        auto signs = []<bool sa, bool sb>() {
            if constexpr (combo(I, sa, sb, 0)) mul<LW<wa, sa>, LW<wb, sb>>();
            if constexpr (combo(I, sa, sb, 1)) mul<BW<wa, sa>, BW<wb, sb>>();
            if constexpr (combo(I, sa, sb, 2)) mul<LW<wa, sa>, BW<wb, sb>>();
        };
        signs.template operator()<false, false>();
        signs.template operator()<true, true>();
        signs.template operator()<false, true>();
        signs.template operator()<true, false>();
    });
    each<WIDTHS>([]<size_t I>() {
        constexpr int w = WIDTHS[I];
        constexpr bool s = I % 2;
        if constexpr (w != 1 && w != 64) mul<LW<w, s>, LW<64, s>>();
        mul<BW<w, s>, BW<65 + w, s>>();
    });
    cross([]<class X, class Y>() { mul<X, Y>(); });
    sweep_pairs([]<class X, class Y>() { mul<X, Y>(); });
    if constexpr (PART == 0) { mul<L<11, 4>, L<7, 0>>(); mul<L<103, 4>, L<99, 0>>(); mul<L<0, 7>, L<15, 0>>(); mul<B<80, 0>, B<0, 7>>(); }
}
