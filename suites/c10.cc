#include "lib.hh"
#include "widths.hh"
// declared ranges for bit selects
constexpr int RANGES[][2] = {
    {0, 0}, {1, 0}, {3, 0}, {4, 0}, {7, 0}, {8, 0}, {15, 0}, {16, 0}, {19, 0}, {31, 0}, {32, 0}, {39, 0}, {62, 0}, {63, 0}, {64, 0}, {65, 0}, {99, 0}, {126, 0}, {127, 0}, {128, 0},
    {191, 0}, {192, 0}, {255, 0}, {256, 0}, {299, 0}, {511, 0}, {1023, 0},
    {0, 1}, {0, 4}, {0, 7}, {0, 31}, {0, 63}, {0, 64}, {0, 99}, {0, 127}, {0, 200},
    {7, 4}, {11, 4}, {70, 7}, {71, 7}, {80, 1}, {107, 8}, {200, 70}, {1000, 900},
    {4, 7}, {4, 11}, {3, 66}, {1, 80}, {8, 107}, {70, 200},
    {3, -4}, {-1, -8}, {-4, 3}, {30, -40}, {-40, 30}, {-10, -90},
#ifdef THOROUGH
    {2, 0}, {5, 0}, {9, 0}, {11, 0}, {17, 0}, {23, 0}, {33, 0}, {47, 0}, {50, 0}, {61, 0}, {66, 0}, {70, 0}, {79, 0}, {95, 0}, {96, 0}, {100, 0}, {129, 0}, {159, 0}, {190, 0}, {193, 0}, {254, 0}, {257, 0}, {319, 0}, {320, 0}, {400, 0}, {639, 0}, {2047, 0},
    {0, 15}, {0, 16}, {0, 62}, {0, 65}, {0, 128}, {0, 255}, {0, 300}, {5, 5}, {70, 70}, {-3, -3}, {64, 1}, {65, 1}, {65, 2}, {128, 64}, {127, 64}, {191, 63}, {1, 64}, {2, 65}, {64, 128}, {63, 191}, {-64, 64}, {64, -64}, {-100, -1}, {-1, -100},
#endif
};
template <class X> void f_sel(Ctx &c) { X a; load(a, c.in[0]); put(c, a[static_cast<int>(c.iarg[0])]); }
template <class X, class Y> void f_get(Ctx &c) { X a; Y i; load(a, c.in[0]); load(i, c.in[1]); put(c, a.get(i)); }
template <class X, int I> void f_gets(Ctx &c) { X a; load(a, c.in[0]); put(c, a.template get<I>()); }
template <class X> void sel() {
    reg(Entry{nm(Op::BITSEL, {ty<X>()}, "[int]"), Op::BITSEL, {ty<X>()}, {}, {}, {IA::INDEX}, 0, 1, &f_sel<X>});
}
// which bits are x and which are z
template <class X> void f_unknown(Ctx &c) {
    MV m;
    mv::gen_value(c, m, ty<X>(), -1);
    X x;
    load(x, m);
    c.trace = m.str();
    c.digest = mv::hmix(mv::hmix(m.v[0], m.m[0]), m.m[(m.w - 1) / 64]);
    for (int k = ty<X>().lo(); k <= ty<X>().hi(); k++) {
        int s = m.get(mv::pos_of(ty<X>(), k));
        if (x.x_set(k) != (s == 2) || x.z_set(k) != (s == 3)) c.fail("bit " + std::to_string(k) + ": x_set is " + std::to_string(x.x_set(k)) + ", z_set is " + std::to_string(x.z_set(k)));
        c.steps++;
    }
}
template <class X> void unknown() { Entry e; e.name = "UNKNOWN " + ty<X>().str(); e.op = Op::CUSTOM; e.fn = &f_unknown<X>; e.weight = 0.5; reg(e); }
template <class X, class Y> void get() {
    reg(Entry{nm(Op::BITSEL, {ty<X>(), ty<Y>()}, "get"), Op::BITSEL, {ty<X>(), ty<Y>()}, {}, {}, {}, mv::F_INDEX, 1, &f_get<X, Y>});
}
template <class X, int I> void gets() {
    reg(Entry{nm(Op::BITSEL, {ty<X>()}, "get<" + std::to_string(I) + ">"), Op::BITSEL, {ty<X>()}, {}, {I}, {}, 0, 0.3, &f_gets<X, I>});
}
// constant part selects: width, a, b, base
constexpr int PS[][4] = {
    {1, 0, 0, 0}, {5, 4, 0, 0}, {5, 3, 1, 0}, {8, 7, 0, 0}, {8, 7, 4, 0}, {8, 3, 0, 0}, {8, 7, 7, 0}, {16, 8, 7, 0}, {20, 19, 3, 0}, {32, 31, 0, 0}, {32, 31, 16, 0}, {32, 30, 15, 0}, {33, 32, 32, 0},
    {40, 39, 8, 0}, {63, 62, 0, 0}, {64, 63, 0, 0}, {64, 63, 32, 0}, {64, 31, 0, 0}, {64, 40, 20, 0}, {64, 63, 63, 0}, {64, 62, 1, 0},
    {65, 64, 0, 0}, {65, 64, 64, 0}, {65, 64, 1, 0}, {65, 63, 0, 0}, {66, 65, 1, 0}, {100, 99, 0, 0}, {100, 64, 0, 0}, {100, 99, 35, 0}, {100, 99, 36, 0}, {100, 70, 60, 0}, {100, 63, 0, 0}, {100, 99, 64, 0}, {100, 0, 0, 0},
    {127, 126, 63, 0}, {128, 127, 0, 0}, {128, 127, 64, 0}, {128, 127, 63, 0}, {128, 126, 1, 0}, {128, 64, 63, 0}, {129, 128, 64, 0}, {192, 191, 127, 0}, {192, 128, 64, 0}, {200, 199, 5, 0}, {200, 130, 120, 0},
    {256, 255, 128, 0}, {256, 192, 64, 0}, {300, 299, 200, 0}, {300, 250, 50, 0}, {512, 511, 256, 0}, {512, 400, 1, 0}, {1024, 1023, 1, 0}, {1024, 700, 690, 0},
    {8, 11, 4, 4}, {8, 10, 6, 4}, {70, 80, 20, 11}, {100, 140, 60, 50}, {100, 149, 149, 50}, {64, 70, 7, 7}, {64, 60, 50, 7}, {20, 10, 3, -5}, {100, 60, -20, -30},
    // bounds in the other order
    {8, 2, 5, 0}, {64, 1, 60, 0}, {100, 20, 90, 0}, {100, 20, 84, 0},
#ifdef THOROUGH
    {7, 6, 2, 0}, {9, 8, 1, 0}, {12, 11, 0, 0}, {17, 16, 1, 0}, {24, 23, 16, 0}, {31, 30, 0, 0}, {48, 47, 1, 0}, {50, 49, 17, 0}, {60, 59, 0, 0}, {62, 33, 31, 0}, {64, 33, 32, 0},
    {67, 66, 3, 0}, {67, 66, 2, 0}, {80, 79, 15, 0}, {80, 79, 16, 0}, {96, 95, 32, 0}, {96, 95, 31, 0}, {130, 129, 65, 0}, {130, 129, 66, 0}, {160, 159, 0, 0}, {191, 190, 64, 0}, {193, 192, 192, 0}, {193, 192, 128, 0}, {193, 192, 129, 0}, {255, 254, 1, 0}, {257, 256, 0, 0}, {320, 319, 64, 0}, {320, 319, 255, 0}, {384, 383, 192, 0}, {640, 639, 320, 0}, {2048, 2047, 1024, 0},
#endif
};
template <class X, int a, int b> void f_ps(Ctx &c) { X x; load(x, c.in[0]); put(c, x.template slice<a, b>()); }
template <class X, int a, int b> void ps() {
    reg(Entry{nm(Op::PARTC, {ty<X>()}, "slice<" + std::to_string(a) + "," + std::to_string(b) + ">"), Op::PARTC, {ty<X>()}, {}, {a, b}, {}, mv::F_SGN, 0.5, &f_ps<X, a, b>});
}
// run-time part selects: width, base, selected width
constexpr int RS[][3] = {
    {1, 0, 1}, {5, 0, 2}, {8, 0, 1}, {8, 0, 4}, {8, 0, 8}, {16, 0, 5}, {20, 0, 17}, {32, 0, 8}, {32, 0, 32}, {33, 0, 9}, {40, 0, 33}, {63, 0, 63}, {64, 0, 1}, {64, 0, 32}, {64, 0, 64}, {64, 0, 63},
    {65, 0, 1}, {65, 0, 64}, {65, 0, 65}, {66, 0, 2}, {100, 0, 10}, {100, 0, 64}, {100, 0, 65}, {100, 0, 99}, {128, 0, 8}, {128, 0, 64}, {128, 0, 65}, {128, 0, 128}, {129, 0, 100}, {192, 0, 128}, {200, 0, 33},
    {256, 0, 64}, {300, 0, 129}, {300, 0, 20}, {512, 0, 256}, {1024, 0, 70}, {8, 4, 3}, {20, 100, 7}, {100, 5, 70}, {70, 64, 8}, {40, -10, 12}, {200, -70, 90}, {8, 0, 70}, {70, 0, 130},
#ifdef THOROUGH
    {7, 0, 3}, {12, 0, 12}, {31, 0, 30}, {48, 0, 16}, {60, 0, 48}, {67, 0, 66}, {80, 0, 40}, {96, 0, 32}, {96, 0, 95}, {127, 0, 63}, {130, 0, 66}, {191, 0, 127}, {193, 0, 192}, {255, 0, 9}, {257, 0, 193}, {320, 0, 64}, {384, 0, 383}, {640, 0, 320}, {2048, 0, 1024},
#endif
};
template <class X, int n> void f_rs(Ctx &c) { X x; load(x, c.in[0]); put(c, x.template slice<n>(static_cast<int>(c.iarg[0]), static_cast<int>(c.iarg[1]))); }
template <class X, class Y, int n, bool up> void f_is(Ctx &c) { X x; Y b; load(x, c.in[0]); load(b, c.in[1]); put(c, x.template slice<n, up>(b)); }
template <class X, int n> void rs() {
    reg(Entry{nm(Op::PARTR, {ty<X>()}, "slice<" + std::to_string(n) + ">"), Op::PARTR, {ty<X>()}, {}, {n}, {IA::BOUND, IA::BOUND}, mv::F_SGN | mv::F_BOUNDEDSEL, 1, &f_rs<X, n>});
}
template <class X, class Y, int n, bool up> void is() {
    constexpr Op o = up ? Op::IPARTUP : Op::IPARTDN;
    reg(Entry{nm(o, {ty<X>(), ty<Y>()}, "slice<" + std::to_string(n) + ">"), o, {ty<X>(), ty<Y>()}, {}, {n}, {}, mv::F_SGN | mv::F_INDEX, 1, &f_is<X, Y, n, up>});
}
#ifdef VAST   // positions beyond 16 bits
SUITE(c10) {
    using X = L<65599, 0>; using Y = B<70010, 10, true>; using Z = L<40000, -30000, true>;
    sel<X>(); sel<Y>(); sel<Z>(); sel<B<0, 65599>>(); unknown<Z>();
    get<X, BW<32>>(); get<Y, BW<17>>(); get<X, LW<20>>();
    gets<X, 65540>(); gets<Y, 66000>(); gets<Z, 39999>();
    ps<X, 65599, 65500>(); ps<Y, 66000, 20>(); ps<X, 65536, 65536>(); ps<Z, 39000, -29000>();
    rs<X, 100>(); rs<Y, 9>(); rs<Z, 66000>();
    is<X, BW<20>, 70, true>(); is<Y, LW<33>, 8, false>(); is<Z, BW<32, true>, 65, true>();
}
#else
SUITE(c10) {
    each<RANGES>([]<size_t I>() {
        constexpr int m = RANGES[I][0], l = RANGES[I][1];
        constexpr bool s = I % 2;
        sel<L<m, l, s>>(); sel<B<m, l, !s>>(); unknown<L<m, l, !s>>();
        if constexpr (I % 3 == 0 || thorough) { sel<L<m, l, !s>>(); sel<B<m, l, s>>(); }
        if constexpr (I % 3 == 0) { get<L<m, l, s>, LW<12, true>>(); get<B<m, l, s>, BW<12, true>>(); }
        if constexpr (I % 3 == 1) { get<L<m, l, s>, BW<64, true>>(); get<L<m, l, s>, LW<100, true>>(); get<B<m, l, s>, BW<80, true>>(); }
        if constexpr (I % 3 == 2) { get<L<m, l, s>, LW<8>>(); get<B<m, l, s>, BW<8>>(); get<L<m, l, s>, LW<70>>(); get<L<m, l, s>, BW<33>>(); }
        constexpr int lo = m < l ? m : l, hi = m < l ? l : m;
        gets<L<m, l, s>, lo>(); gets<B<m, l, s>, hi>();
        if constexpr (hi > lo) { gets<L<m, l, s>, hi>(); gets<B<m, l, s>, lo>(); gets<L<m, l, !s>, (lo + hi) / 2>(); }
        if constexpr (hi - lo > 64) { gets<L<m, l>, lo + 63>(); gets<L<m, l>, lo + 64>(); gets<B<m, l, true>, hi - 64>(); }
    });
    sweep([]<int w>() {
        constexpr bool s = w & 1, k = w % 3 != 0;
        constexpr int base = w % 4 == 3 ? w % 9 - 4 : 0;
        using X = VW<w, s, k>;
        using Y = VW<w, !s, !k>;
        sel<X>(); sel<std::conditional_t<k, B<base, base + w - 1>, L<base, base + w - 1, s>>>();
        gets<X, w - 1>(); gets<Y, w / 2>();
        constexpr int n = 1 + (w * w / 3 + 5) % w, lo = (w - n) * 2 / 3;   // a part of n bits
        ps<X, lo + n - 1, lo>(); ps<Y, w - 1, w / 3>(); ps<Y, w / 2, 0>();
        rs<X, n>(); rs<Y, w / 2 + 1>();
        is<X, VW<9, true, k>, n, s>(); is<Y, IX<w, !k>, n, s>(); is<X, IX<w + 5, k>, w / 3 + 1, !s>();
        get<X, IX<w, k>>(); get<Y, IX<w + 4, !k>>();
    });
    // the selected value and the type of the index
    cross<true>([]<class X, class Y>() {
        if constexpr (X::is_4state || !Y::is_4state) {
            get<X, Y>(); is<X, Y, int(X::size) / 2 + 1, true>(); is<X, Y, int(X::size) * 2 / 3 + 1, false>();
        }
    });
    each<PS>([]<size_t I>() {
        constexpr int w = PS[I][0], a = PS[I][1], b = PS[I][2], base = PS[I][3];
        constexpr bool s = I % 2;
        ps<L<base + w - 1, base, s>, a, b>(); ps<B<base + w - 1, base, !s>, a, b>();
        if constexpr (I % 3 == 0 || thorough) { ps<L<base + w - 1, base, !s>, a, b>(); ps<B<base + w - 1, base, s>, a, b>(); }
    });
    each<RS>([]<size_t I>() {
        constexpr int w = RS[I][0], base = RS[I][1], n = RS[I][2];
        constexpr bool s = I % 2;
        using X = L<base + w - 1, base, s>;
        using Y = B<base + w - 1, base, !s>;
        rs<X, n>(); rs<Y, n>();
        is<X, LW<12, true>, n, true>(); is<X, LW<12, true>, n, false>(); is<Y, BW<12, true>, n, true>(); is<Y, BW<12, true>, n, false>();
        if constexpr (I % 3 == 0) { is<X, BW<7>, n, true>(); is<X, LW<80, true>, n, false>(); }
        if constexpr (I % 3 == 1) { is<X, LW<32>, n, true>(); is<Y, BW<64, true>, n, false>(); }
    });
}
#endif
