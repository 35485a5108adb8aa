#include "lib.hh"
#include "widths.hh"
constexpr int EXT[][2] = {
    {1, 1}, {1, 2}, {1, 8}, {1, 64}, {1, 65}, {1, 128}, {2, 3}, {4, 9}, {5, 5}, {5, 8}, {7, 8}, {7, 64}, {8, 9}, {8, 16}, {8, 70}, {15, 17}, {16, 32}, {17, 64}, {20, 33}, {20, 100},
    {31, 32}, {31, 33}, {32, 64}, {32, 65}, {32, 200}, {33, 34}, {40, 128}, {63, 64}, {63, 65}, {64, 64}, {64, 65}, {64, 127}, {64, 128}, {64, 129}, {64, 300},
    {65, 65}, {65, 66}, {65, 127}, {65, 128}, {65, 129}, {66, 192}, {96, 100}, {100, 100}, {100, 127}, {100, 128}, {100, 160}, {100, 300}, {120, 191}, {127, 128}, {127, 129}, {128, 128}, {128, 129},
    {128, 192}, {128, 256}, {129, 256}, {130, 512}, {160, 161}, {191, 193}, {192, 193}, {192, 256}, {193, 320}, {200, 1024}, {255, 256}, {256, 257}, {256, 512}, {300, 321}, {320, 640}, {512, 1024}, {1000, 1025},
#ifdef THOROUGH
    {2, 2}, {3, 64}, {6, 7}, {9, 16}, {10, 40}, {12, 12}, {13, 66}, {16, 16}, {16, 17}, {24, 64}, {28, 29}, {32, 32}, {36, 63}, {48, 64}, {50, 192}, {56, 57}, {60, 256}, {62, 63}, {64, 192}, {64, 1024},
    {67, 128}, {68, 69}, {70, 140}, {80, 96}, {90, 192}, {97, 193}, {112, 113}, {126, 127}, {127, 192}, {128, 512}, {144, 150}, {180, 190}, {190, 192}, {192, 192}, {192, 384}, {194, 255}, {224, 225}, {250, 251},
    {256, 256}, {257, 320}, {320, 321}, {384, 385}, {384, 1024}, {448, 512}, {500, 600}, {511, 512}, {512, 513}, {640, 641}, {1000, 2048}, {1024, 2048},
#endif
};
template <class X, int N> void f_ext(Ctx &c) { X a; load(a, c.in[0]); put(c, a.template extend<N>()); }
template <class X, int N> void ext() {
    reg(Entry{nm(Op::EXTEND, {ty<X>()}, "to " + std::to_string(N)), Op::EXTEND, {ty<X>()}, {}, {N}, {}, mv::F_SGN, 1, &f_ext<X, N>});
}
// widening by construction and by assignment to a wider value
template <class X, class Y> void f_widen(Ctx &c) {
    X a; Y y, z;
    load(a, c.in[0]); load(z, c.in[1]);
    z = a;
    put(c, z);
    y = a.template extend<int(Y::size)>();
    if (!y.match(z)) c.fail("extend and assignment differ");
}
template <class X, class Y> void widen() {
    reg(Entry{nm(Op::ASSIGN, {ty<X>(), ty<Y>()}, "widening"), Op::ASSIGN, {ty<X>(), ty<Y>()}, {ty<Y>()}, {}, {}, 0, 0.5, &f_widen<X, Y>});
}
template <class X> void f_round(Ctx &c) {
    X a;
    load(a, c.in[0]);
    auto s = a.to_signed();
    auto u = s.to_unsigned();
    auto s2 = u.to_signed();
    put(c, u);
    put(c, s2);
    c.nout = 1;
    if (!c.out[0].same_bits(c.out[1])) c.fail("to_signed/to_unsigned round trip");
    if (!s.match(s2)) c.fail("to_signed/to_unsigned round trip changes the signed value");
}
template <class X> void conv() {
    reg_un<T_TOS, X>(mv::F_SGN); reg_un<T_TOU, X>(mv::F_SGN);
    reg(Entry{nm(Op::TOU, {ty<X>()}, "round trip"), Op::TOU, {ty<X>()}, {}, {}, {}, mv::F_SGN, 1, &f_round<X>});
}
#ifdef VAST   // positions beyond 16 bits
SUITE(c09) {
    ext<LW<65600, true>, 70001>(); ext<BW<65600>, 65601>(); ext<LW<100, true>, 65600>(); ext<BW<9, true>, 65600>();
    conv<LW<65600, true>>(); conv<BW<65600>>(); widen<LW<65600, true>, LW<70001>>(); widen<BW<12, true>, BW<65600>>();
}
#else
SUITE(c09) {
    each<EXT>([]<size_t I>() {
        constexpr int w = EXT[I][0], n = EXT[I][1];
        ext<LW<w>, n>(); ext<LW<w, true>, n>(); ext<BW<w>, n>(); ext<BW<w, true>, n>();
        widen<LW<w, true>, LW<n, I % 2>>(); widen<VW<w, I % 4 < 2, I % 2>, VW<n, true, I % 2>>();
    });
    each<WIDTHS>([]<size_t I>() {
        constexpr int w = WIDTHS[I];
        conv<LW<w>>(); conv<LW<w, true>>(); conv<BW<w>>(); conv<BW<w, true>>();
    });
    sweep([]<int w>() {
        constexpr bool s = w & 1;
        ext<LW<w, s>, w + 1 + w * 7 % 70>(); ext<BW<w, !s>, w + 1 + w * 11 % 131>();
        conv<LW<w, s>>(); conv<BW<w, !s>>();
        widen<LW<w, true>, LW<w + 1 + w * 5 % 67, s>>();
    });
    if constexpr (PART == 0) { ext<L<0, 7>, 70>(); ext<L<11, 4, true>, 64>(); ext<L<80, 4, true>, 300>(); ext<B<0, 80, true>, 130>(); ext<B<11, 4>, 9>(); conv<L<0, 7>>(); conv<B<80, 3, true>>(); conv<L<0, 99, true>>(); }
}
#endif
