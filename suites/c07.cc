#include "lib.hh"
#include "widths.hh"
template <class X, class Y> void dm() {
    constexpr double w = double(X::size > Y::size ? X::size : Y::size);
    constexpr double wt = w <= 64 ? 1 : w <= 200 ? 0.5 : w <= 400 ? 0.2 : 0.04;
    reg_bin<T_DIV, X, Y>(mv::F_SGN | mv::F_DIVISOR, wt); reg_bin<T_MOD, X, Y>(mv::F_SGN | mv::F_DIVISOR, wt);
}
SUITE(c07) {
    each<PAIRS>([]<size_t I>() {
        constexpr int wa = PAIRS[I][0], wb = PAIRS[I][1];
        auto signs = []<bool sa, bool sb>() {
            if constexpr (combo(I, sa, sb, 0)) dm<LW<wa, sa>, LW<wb, sb>>();
            if constexpr (combo(I, sa, sb, 1)) dm<BW<wa, sa>, BW<wb, sb>>();
            if constexpr (combo(I, sa, sb, 2)) dm<LW<wa, sa>, BW<wb, sb>>();
        };
        signs.template operator()<false, false>();
        signs.template operator()<true, true>();
        signs.template operator()<false, true>();
        signs.template operator()<true, false>();
    });
    cross([]<class X, class Y>() { dm<X, Y>(); });
    sweep_pairs([]<class X, class Y>() { dm<X, Y>(); });
    if constexpr (PART == 0) { dm<L<11, 4>, L<7, 0>>(); dm<L<103, 4>, L<99, 0>>(); dm<L<0, 7>, L<15, 0>>(); dm<B<80, 0>, B<0, 7>>(); }
}
