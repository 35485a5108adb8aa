#include "lib.hh"
#include "widths.hh"
// how 0: a.concat(b, ...), 1: concat(a, b, ...)
template <int how, class... X, size_t... I> void cat(Ctx &c, std::index_sequence<I...>) {
    std::tuple<X...> t;
    (load(std::get<I>(t), c.in[I]), ...);
    if constexpr (how == 1) put(c, ::logic::concat(std::get<I>(t)...));
    else std::apply([&](auto &f, auto &...r) { put(c, f.concat(r...)); }, t);
}
template <int how, class... X> void f_cat(Ctx &c) { cat<how, X...>(c, std::index_sequence_for<X...>{}); }
template <int how, class... X> void cc() {
    reg(Entry{nm(Op::CONCAT, {ty<X>()...}, how ? "free" : "member"), Op::CONCAT, {ty<X>()...}, {}, {}, {}, 0, 1, &f_cat<how, X...>});
}
// the targets start with other contents, which must be gone afterwards
template <class S, class... X> void f_unp(Ctx &c) {
    S s;
    load(s, c.in[0]);
    std::tuple<X...> t;
    MV old;
    std::apply([&](auto &...r) {
        auto fill = [&](auto &x) {
            for (int i = 0; i < mv::NW; i++) { old.v[i] = c.next(); old.m[i] = c.next(); }
            old.w = std::remove_reference_t<decltype(x)>::size;
            old.mask();
            load(x, old);
        };
        (fill(r), ...);
        s.unpack(r...);
        (put(c, r), ...);
    }, t);
}
template <class S, class... X> void un() {
    reg(Entry{nm(Op::UNPACK, {ty<S>()}, "into " + nm(Op::NOP, {ty<X>()...})), Op::UNPACK, {ty<S>()}, {ty<X>()...}, {}, {}, 0, 1, &f_unp<S, X...>});
}
constexpr int TRI[][4] = {
    {1, 1, 1, 1}, {1, 2, 3, 4}, {4, 4, 4, 4}, {8, 8, 8, 8}, {3, 5, 7, 1}, {16, 16, 16, 16}, {8, 16, 32, 8}, {31, 1, 31, 1}, {32, 31, 1, 64}, {63, 1, 64, 64}, {1, 63, 65, 63}, {20, 44, 1, 3},
    {64, 64, 64, 64}, {64, 1, 127, 2}, {65, 65, 65, 65}, {100, 28, 7, 57}, {128, 64, 63, 1}, {1, 200, 33, 22}, {70, 5, 122, 60}, {129, 127, 1, 255}, {256, 256, 5, 3}, {9, 300, 17, 64}, {5, 59, 64, 100},
#ifdef THOROUGH
    {2, 1, 60, 1}, {17, 15, 33, 63}, {33, 31, 2, 62}, {50, 50, 50, 50}, {62, 2, 1, 1}, {60, 5, 60, 3}, {66, 62, 3, 61}, {96, 96, 32, 32}, {127, 1, 1, 127}, {130, 190, 64, 1}, {192, 64, 65, 63}, {191, 1, 64, 257}, {320, 321, 5, 66}, {511, 1, 512, 2}, {1000, 24, 1, 1},
#endif
};
#ifdef VAST   // positions beyond 16 bits
SUITE(c12) {
    cc<0, LW<65600>, LW<9>>(); cc<1, BW<9, true>, BW<65600>>(); cc<0, LW<33000>, BW<33001>>(); cc<1, BW<22000>, BW<23000>, BW<24000>>();
    un<LW<65600>, LW<65530>, LW<70>>(); un<BW<65700>, BW<100>, LW<65600>>(); un<BW<65600>, BW<20000>, BW<20001>, BW<25599>>();
}
#else
SUITE(c12) {
    each<PAIRS>([]<size_t I>() {
        constexpr int a = PAIRS[I][0], b = PAIRS[I][1];
        constexpr bool s = I % 2, u = I % 3 == 0;
        cc<0, LW<a, s>, LW<b, u>>(); cc<1, LW<a, !s>, LW<b, s>>();
        cc<0, BW<a, s>, BW<b, !u>>(); cc<1, BW<a, !s>, BW<b, u>>();
        cc<I % 2, LW<a, u>, BW<b, s>>(); cc<1 - I % 2, LW<a, u>, BW<b, !s>>();
        un<LW<a + b>, LW<a, s>, LW<b, u>>(); un<BW<a + b>, BW<a, u>, BW<b, s>>();
        un<BW<a + b, s>, LW<a, u>, BW<b, !s>>(); un<LW<a + b, s>, LW<b>, LW<a, true>>();
        un<BW<a + b>, BW<a, s>, LW<b, s>>();
        if constexpr (I % 4 == 0) { un<LW<a>, LW<a, true>>(); un<BW<b, true>, BW<b>>(); un<LW<a + b>, L<a + 3, 4>, L<b + 6, 7, true>>(); }
        if constexpr (I % 4 == 1) { cc<0, L<a + 3, 4, s>, L<b + 8, 9>>(); cc<0, B<a + 3, 4, s>, B<b + 8, 9>>(); }
        if constexpr (I % 4 == 2) { cc<0, L<a - 2, -1>, B<b + 8, 9, true>>(); }
    });
    sweep([]<int w>() {
        constexpr int v = partner(w);
        constexpr bool s = w & 1;
        cc<0, VW<w, s, w % 3 != 0>, VW<v, !s, w % 3 == 1>>(); cc<1, BW<v, s>, BW<w>>();
        un<LW<w + v>, LW<w, s>, LW<v>>(); un<BW<w + v, s>, BW<v>, VW<w, s, w % 3 == 0>>();
    });
    cross<true>([]<class X, class Y>() {
        constexpr int w = X::size + Y::size;
        if constexpr (X::is_4state || !Y::is_4state) { cc<0, X, Y>(); cc<1, X, Y>(); }
        un<BW<w, X::is_signed>, X, Y>();
        if constexpr (X::is_4state && Y::is_4state) { un<LW<w, Y::is_signed>, X, Y>(); un<LW<w>, Y, X>(); }
    });
    each<TRI>([]<size_t I>() {
        constexpr int a = TRI[I][0], b = TRI[I][1], d = TRI[I][2], e = TRI[I][3];
        constexpr bool s = I % 2;
        cc<0, LW<a, s>, LW<b>, LW<d, !s>>(); cc<1, BW<a>, BW<b, s>, BW<d, true>>(); cc<1, LW<a>, BW<b, s>, LW<d, true>>();
        cc<0, LW<a, s>, LW<b, true>, LW<d>, LW<e, s>>(); cc<0, BW<a, s>, BW<b, true>, BW<d>, BW<e, s>>(); cc<1, LW<a, s>, LW<b, true>, BW<d>, LW<e, s>>();
        cc<1, BW<a>, BW<b, true>, BW<d, s>, BW<e>, BW<a, s>>(); cc<0, LW<e>, LW<d, true>, BW<b, s>, BW<a>, LW<a, s>, LW<b>>();
        un<LW<a + b + d>, LW<a, s>, LW<b>, LW<d, !s>>(); un<BW<a + b + d>, BW<a, s>, BW<b>, BW<d, !s>>();
        un<LW<a + b + d + e, s>, LW<a, s>, LW<b>, LW<d, !s>, LW<e, true>>(); un<BW<a + b + d + e>, LW<a, s>, BW<b>, LW<d, !s>, BW<e, true>>();
        un<LW<a + b + d + e + a>, LW<a, s>, LW<b>, LW<d, !s>, LW<e, true>, LW<a>>(); un<BW<a + b + d + e + b>, BW<e, s>, LW<b>, BW<a, !s>, BW<d, true>, BW<b>>();
    });
}
#endif
