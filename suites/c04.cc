#include "lib.hh"
#include "widths.hh"
constexpr int SH[][2] = {
    {1, 1}, {1, 8}, {2, 2}, {4, 3}, {5, 8}, {7, 4}, {8, 8}, {9, 5}, {12, 32}, {16, 16}, {17, 6}, {20, 8}, {24, 64}, {31, 5}, {32, 32}, {33, 7}, {40, 65},
    {47, 8}, {63, 6}, {64, 7}, {64, 64}, {64, 128}, {1, 100}, {16, 70},
    {65, 7}, {65, 65}, {66, 8}, {72, 64}, {90, 8}, {96, 32}, {100, 7}, {100, 100}, {120, 12}, {127, 8}, {128, 8}, {128, 128}, {129, 8}, {160, 64}, {191, 9}, {192, 8},
    {193, 32}, {200, 300}, {256, 16}, {257, 9}, {300, 10}, {320, 64}, {512, 11}, {1024, 12},
#ifdef THOROUGH
    {3, 3}, {6, 6}, {10, 10}, {15, 8}, {18, 9}, {28, 4}, {36, 36}, {50, 50}, {56, 7}, {60, 80}, {62, 62}, {67, 67}, {80, 8}, {97, 97}, {112, 8}, {130, 130},
    {144, 1}, {180, 9}, {190, 9}, {194, 65}, {224, 10}, {255, 8}, {258, 258}, {384, 384}, {448, 9}, {500, 66}, {511, 10}, {513, 513}, {640, 11}, {1000, 1000}, {2048, 64},
#endif
};
template <class X, class Y> void shifts() {
    constexpr double wt = X::size > 300 ? 0.5 : 1;
    reg_bin<T_SHL, X, Y>(mv::F_AMOUNT, wt); reg_bin<T_SHR, X, Y>(mv::F_AMOUNT, wt); reg_bin<T_ASHL, X, Y>(mv::F_AMOUNT, wt);
    if constexpr (X::is_4state == Y::is_4state) {
        reg_bin<T_ASHR, X, Y>(mv::F_AMOUNT, wt); reg_bin<T_SHLE, X, Y>(mv::F_AMOUNT, wt); reg_bin<T_SHRE, X, Y>(mv::F_AMOUNT, wt);
    }
}
#ifdef VAST   // positions beyond 16 bits
SUITE(c04) {
    shifts<LW<65600>, LW<32>>(); shifts<BW<65600, true>, BW<20>>(); shifts<BW<70001>, BW<64>>(); shifts<LW<65600, true>, LW<65600>>(); shifts<LW<70001>, BW<17>>();
}
#else
SUITE(c04) {
    each<SH>([]<size_t I>() {
        constexpr int wa = SH[I][0], wb = SH[I][1];
        auto signs = []<bool sa, bool sb>() {
            if constexpr (combo(I, sa, sb, 0)) shifts<LW<wa, sa>, LW<wb, sb>>();
            if constexpr (combo(I, sa, sb, 1)) shifts<BW<wa, sa>, BW<wb, sb>>();
            if constexpr (combo(I, sa, sb, 2)) shifts<LW<wa, sa>, BW<wb, sb>>();
        };
        signs.template operator()<false, false>();
        signs.template operator()<true, true>();
        signs.template operator()<false, true>();
        signs.template operator()<true, false>();
    });
    cross([]<class X, class Y>() { shifts<X, Y>(); });
    sweep([]<int w>() {
        constexpr bool s = w & 1, u = w & 2;
        shifts<VW<w, s, w % 3 != 0>, VW<8 + w % 5, u, w % 3 == 1>>();
        shifts<VW<w, !s, w % 3 == 0>, VW<partner(w), u, w % 3 == 0>>();
    });
    if constexpr (PART == 0) {
        shifts<L<0, 7>, L<4, 0>>(); shifts<L<80, 3, true>, L<0, 9>>(); shifts<B<0, 70>, B<7, 0>>(); shifts<B<12, 5, true>, B<2, 9>>();
    }
}
#endif
