#include "lib.hh"
#include "widths.hh"
// declared ranges of destinations
constexpr int RANGES[][2] = {
    {0, 0}, {1, 0}, {4, 0}, {7, 0}, {8, 0}, {15, 0}, {19, 0}, {31, 0}, {32, 0}, {39, 0}, {62, 0}, {63, 0}, {64, 0}, {65, 0}, {99, 0}, {127, 0}, {128, 0},
    {191, 0}, {192, 0}, {255, 0}, {299, 0}, {511, 0},
    {0, 4}, {0, 7}, {0, 31}, {0, 63}, {0, 64}, {0, 99}, {0, 127}, {0, 200},
    {11, 4}, {70, 7}, {71, 7}, {80, 1}, {200, 70}, {4, 11}, {3, 66}, {1, 80}, {70, 200}, {3, -4}, {-1, -8}, {-4, 3}, {30, -40}, {-40, 30},
#ifdef THOROUGH
    {2, 0}, {5, 0}, {9, 0}, {16, 0}, {23, 0}, {33, 0}, {47, 0}, {61, 0}, {66, 0}, {79, 0}, {95, 0}, {96, 0}, {129, 0}, {190, 0}, {193, 0}, {254, 0}, {256, 0}, {319, 0}, {639, 0}, {1023, 0},
    {0, 15}, {0, 62}, {0, 65}, {0, 128}, {0, 255}, {5, 5}, {70, 70}, {-3, -3}, {64, 1}, {65, 2}, {128, 64}, {191, 63}, {1, 64}, {64, 128}, {-64, 64}, {64, -64}, {-100, -1}, {-1, -100},
#endif
};
// writes one bit; the state of the source picks the member that writes it
template <class X, int how> void f_set(Ctx &c) {
    X a;
    load(a, c.in[0]);
    int i = static_cast<int>(c.iarg[0]), s = c.in[1].get(0);
    if constexpr (X::is_4state && how == 0) {
        L<0> v;
        load(v, c.in[1]);
        a.set(i, v);
    } else if constexpr (X::is_4state && how == 2) {
        L<0, 0, true> v;
        load(v, c.in[1]);
        a.set(i, v);
    } else if constexpr (!X::is_4state && how == 0) {
        B<0> v;
        load(v, c.in[1]);
        a.set(i, v);
    } else {
        if constexpr (X::is_4state) {
            if (s == 2) a.set_x(i);
            if (s == 3) a.set_z(i);
        }
        if (s < 2) a.set(i, s == 1);
    }
    put(c, a);
}
template <class X, int I, int how> void f_sets(Ctx &c) {
    X a;
    load(a, c.in[0]);
    int s = c.in[1].get(0);
    if constexpr (X::is_4state) {
        if (s == 2) a.template set_x<I>();
        if (s == 3) a.template set_z<I>();
    } else if constexpr (how == 2) {
        B<0> v;
        load(v, c.in[1]);
        a.template set<I>(v);
        put(c, a);
        return;
    }
    if (s < 2) {
        if constexpr (how == 0) a.template set<I>(s == 1);
        else if (s) a.template set<I, true>();
        else a.template set<I, false>();
    }
    put(c, a);
}
template <class X, int how> void setr() {
    TypeD t1{0, 0, false, X::is_4state};
    reg(Entry{nm(Op::SETBIT, {ty<X>()}, "[int] " + std::to_string(how)), Op::SETBIT, {ty<X>(), t1}, {}, {}, {IA::INDEX}, 0, 1, &f_set<X, how>});
}
template <class X, int I, int how> void sets() {
    TypeD t1{0, 0, false, X::is_4state};
    reg(Entry{nm(Op::SETBIT, {ty<X>()}, "<" + std::to_string(I) + "> " + std::to_string(how)), Op::SETBIT, {ty<X>(), t1}, {}, {I}, {}, 0, 0.3, &f_sets<X, I, how>});
}
// run-time part writes, every way of writing them, from a source Y
template <class X, class Y, int how> void f_updr(Ctx &c) {
    X a; Y v;
    load(a, c.in[0]); load(v, c.in[1]);
    int hi = static_cast<int>(c.iarg[0]), lo = static_cast<int>(c.iarg[1]);
    if constexpr (how == 0) a.update(hi, lo, v);
    else { auto ref = a.slice_ref(hi, lo); ref = v; }
    put(c, a);
}
template <class X, class Y, class I, int n, bool up> void f_iupd(Ctx &c) {
    X a; Y v; I b;
    load(a, c.in[0]); load(v, c.in[1]); load(b, c.in[2]);
    a.template slice_ref<n, up>(b) = v;
    put(c, a);
}
template <class X, class Y, int how> void updr() {
    reg(Entry{nm(Op::UPDR, {ty<X>(), ty<Y>()}, how ? "slice_ref" : "update"), Op::UPDR, {ty<X>(), ty<Y>()}, {}, {}, {IA::BOUND, IA::BOUND}, 0, 1, &f_updr<X, Y, how>});
}
template <class X, class Y, class I, int n> void iupd() {
    reg(Entry{nm(Op::IUPDUP, {ty<X>(), ty<Y>(), ty<I>()}, "slice_ref<" + std::to_string(n) + ">"), Op::IUPDUP, {ty<X>(), ty<Y>(), ty<I>()}, {}, {n}, {}, mv::F_INDEX, 0.7, &f_iupd<X, Y, I, n, true>});
    reg(Entry{nm(Op::IUPDDN, {ty<X>(), ty<Y>(), ty<I>()}, "slice_ref<" + std::to_string(n) + ">"), Op::IUPDDN, {ty<X>(), ty<Y>(), ty<I>()}, {}, {n}, {}, mv::F_INDEX, 0.7, &f_iupd<X, Y, I, n, false>});
}
template <class X, class Y, int hi, int lo, int how> void f_updc(Ctx &c) {
    X a; Y v;
    load(a, c.in[0]); load(v, c.in[1]);
    if constexpr (how == 0) a.template update<hi, lo>(v);
    else a.template slice_ref<hi, lo>() = v;
    put(c, a);
}
template <class X, class Y, int hi, int lo, int how> void updc() {
    reg(Entry{nm(Op::UPDC, {ty<X>(), ty<Y>()}, std::string(how ? "slice_ref<" : "update<") + std::to_string(hi) + "," + std::to_string(lo) + ">"), Op::UPDC, {ty<X>(), ty<Y>()}, {}, {hi, lo}, {}, 0, 0.5, &f_updc<X, Y, hi, lo, how>});
}
template <int a, int b, bool s, bool is4> using V = std::conditional_t<is4, L<a, b, s>, B<a, b, s>>;
template <size_t I, int m, int l, bool is4> void constant_parts() {
    // in declared order, as the range requires
    constexpr int w = (m > l ? m - l : l - m) + 1;
    constexpr int dir = m >= l ? 1 : -1;
    constexpr bool s = (I + is4) % 2;
    using X = V<m, l, s, is4>;
    updc<X, V<w - 1, 0, !s, is4>, m, l, I % 2>();
    if constexpr (m >= l || !is4) updc<X, V<0, 0, false, is4>, l, l, 0>();   // a single bit of an ascending logic is not accepted
    if constexpr (w > 1) {
        updc<X, V<w / 2, 0, s, is4>, l + dir * (w / 2), l, 1>();
        updc<X, V<2, 0, false, is4>, m, l + dir * (w / 2), 0>();
    }
    if constexpr (w > 4) {
        updc<X, V<w + 70, 0, true, is4>, m - dir, l + dir, I % 2>();
        updc<X, V<0, 3, false, is4>, l + dir * 4, l + dir, 0>();
    }
    if constexpr (w > 66) {
        updc<X, V<68, 4, false, is4>, l + dir * 65, l + dir * 2, 0>();
        updc<X, V<1, 0, false, is4>, l + dir * 64, l + dir * 63, 0>();
        updc<X, V<63, 0, true, is4>, l + dir * 63, l, 1>();
    }
}
#ifdef VAST   // positions beyond 16 bits
SUITE(c11) {
    using X = L<65599, 0>; using Y = B<70010, 10, true>; using Z = L<40000, -30000, true>;
    setr<X, 0>(); setr<Y, 1>(); setr<Z, 2>(); sets<X, 65550, 0>(); sets<Y, 70000, 1>();
    updr<X, LW<100>, 0>(); updr<Y, BW<66000>, 1>(); updr<Z, LW<9, true>, 1>();
    iupd<X, LW<70>, BW<20>, 70>(); iupd<Y, BW<8>, BW<33>, 8>();
    updc<X, LW<100>, 65599, 65500, 0>(); updc<Y, BW<66000>, 66020, 12, 0>(); updc<Z, LW<66000>, 39000, -29000, 1>();
}
#else
SUITE(c11) {
    sweep([]<int w>() {
        constexpr bool s = w & 1, k = w % 3 != 0;
        using X = VW<w, s, k>;
        using Y = VW<w, !s, !k>;
        constexpr int n = 1 + (w * w / 3 + 5) % w;
        setr<X, 0>(); setr<Y, 1>(); sets<X, w - 1, 0>(); sets<Y, w / 2, 1>();
        updr<X, VW<n, s, k>, 0>(); updr<Y, VW<w, s, !k>, 1>();
        iupd<X, VW<n, s, k>, VW<9, true, k>, n>(); iupd<Y, VW<w / 2 + 1, !s, !k>, IX<w, !k>, n>();
        constexpr int lo = (w - n) * 2 / 3;
        updc<X, VW<n, s, k>, lo + n - 1, lo, w % 2>(); updc<Y, VW<w / 2 + 1, s, !k>, w / 2, 0, 0>(); updc<Y, VW<w, s, !k>, w - 1, w / 3, 1>();
    });
    // the destination, its source and the type of the index
    cross([]<class X, class Y>() {
        constexpr int w = X::size, n = w * 2 / 3 + 1;
        if constexpr (X::is_4state == Y::is_4state) {
            updr<X, Y, Y::size & 1>(); updc<X, Y, w - 1, w / 3, 0>(); updc<X, Y, w / 2, 0, 1>();
            iupd<X, VW<(n + 5) / 2, Y::is_signed, X::is_4state>, Y, n>(); iupd<X, Y, VW<9, true, X::is_4state>, n>();
        } else iupd<X, VW<n + 70, Y::is_signed, true>, Y, n>();
    });
    each<RANGES>([]<size_t I>() {
        constexpr int m = RANGES[I][0], l = RANGES[I][1];
        constexpr int w = (m > l ? m - l : l - m) + 1;
        constexpr int lo = m < l ? m : l, hi = m < l ? l : m;
        constexpr bool s = I % 2;
        using X = L<m, l, s>;
        using Y = B<m, l, !s>;
        setr<X, 0>(); setr<X, 1>(); setr<Y, 0>(); setr<Y, 1>(); setr<L<m, l, !s>, 2>(); setr<B<m, l, s>, 1>();
        sets<X, lo, 0>(); sets<X, hi, 1>(); sets<Y, hi, 0>(); sets<Y, lo, 1>(); sets<B<m, l, s>, hi, 2>();
        sets<L<m, l, !s>, (lo + hi) / 2, 1>(); sets<B<m, l, s>, (lo + hi) / 2, 0>();
        if constexpr (w > 64) { sets<X, lo + 63, 0>(); sets<X, lo + 64, 1>(); sets<Y, hi - 64, 0>(); sets<Y, lo + 64, 1>(); }
        updr<X, LW<w, s>, 0>(); updr<X, LW<w / 2 + 1, !s>, 1>(); updr<X, LW<w + 70>, 0>();
        updr<Y, BW<w, s>, 1>(); updr<Y, BW<w / 2 + 1, !s>, 0>(); updr<Y, BW<w + 70>, 1>();
        updr<L<m, l, !s>, L<0, 6>, 0>(); updr<B<m, l, s>, B<0, 70>, 0>(); updr<L<m, l>, L<72, 5, true>, 1>();
        iupd<X, LW<8>, LW<12, true>, 8>(); iupd<Y, BW<8>, BW<12, true>, 5>();
        if constexpr (I % 2) { iupd<X, LW<70, true>, LW<80, true>, 70>(); iupd<Y, BW<3>, BW<64, true>, 66>(); }
        else { iupd<X, LW<1>, LW<7>, 1>(); iupd<Y, BW<100, true>, BW<33>, 65>(); iupd<X, LW<5>, BW<40, true>, 9>(); }
        iupd<X, LW<10>, IX<I, true>, 11>(); iupd<Y, BW<70>, IX<I + 1, false>, 67>(); iupd<Y, BW<6>, IX<I + 7, false>, 6>();
        constant_parts<I, m, l, true>();
        constant_parts<I, m, l, false>();
    });
}
#endif
