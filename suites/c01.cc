#include "lib.hh"
#include "widths.hh"
// construction, assignment and reading back
template <class X, class K> void f_cint(Ctx &c) {
    auto v = static_cast<K>(c.iarg[0]);
    c.iarg[0] = static_cast<int64_t>(v);   // what the model sees
    X x(v);
    put(c, x);
    c.text = x.str();
    X y{};
    y = v;
    if (!y.match(x)) c.fail("assigning the integer does not give the value constructed from it");
}
template <class X, class K> void f_aint(Ctx &c) {
    X x;
    load(x, c.in[0]);
    auto v = static_cast<K>(c.iarg[0]);
    c.iarg[0] = static_cast<int64_t>(v);
    x = v;
    put(c, x);
    c.text = x.str();
}
template <class X, class K> void ints(const char *k, IA ia) {
    int sg = std::is_signed_v<K>;
    reg(Entry{nm(Op::CONSTRUCT_INT, {ty<X>()}, k), Op::CONSTRUCT_INT, {}, {ty<X>()}, {sg}, {ia}, mv::F_BITS, 1, &f_cint<X, K>});
    reg(Entry{nm(Op::ASSIGN_INT, {ty<X>()}, k), Op::ASSIGN_INT, {ty<X>()}, {ty<X>()}, {sg}, {ia}, mv::F_BITS, 1, &f_aint<X, K>});
}
template <class X> void f_def(Ctx &c) { X x; put(c, x); X y{}; put(c, y); c.nout = 1; if (!c.out[0].same_bits(c.out[1])) c.fail("X x; and X x{}; differ"); }
template <class X> void f_num(Ctx &c) {
    X x;
    load(x, c.in[0]);
    put_raw(c, x.to_uint64());
    if constexpr (X::size <= 64) {
        auto n = x.to_num();
        if (std::is_signed_v<decltype(n)> != X::is_signed) c.fail("to_num has the wrong signedness");
        put_raw(c, static_cast<uint64_t>(static_cast<int64_t>(n)));
        if constexpr (!X::is_signed && X::size == 64) c.out[1].v[0] = n;
    }
}
template <class X> void reads() {
    reg(Entry{nm(Op::DEFAULT, {ty<X>()}), Op::DEFAULT, {}, {ty<X>()}, {}, {}, 0, 1, &f_def<X>});
    reg(Entry{nm(Op::READNUM, {ty<X>()}), Op::READNUM, {ty<X>()}, {}, {}, {}, 0, 1, &f_num<X>});
}
template <class X, class Y> void f_assign(Ctx &c) {
    X x; Y y;
    load(x, c.in[0]);
    load(y, c.in[1]);
    y = x;
    put(c, y);
}
template <class X, class Y> void f_constr(Ctx &c) {
    X x;
    load(x, c.in[0]);
    Y y(x);
    put(c, y);
}
template <class X, class Y> void assigns() {
    reg(Entry{nm(Op::ASSIGN, {ty<X>(), ty<Y>()}), Op::ASSIGN, {ty<X>(), ty<Y>()}, {ty<Y>()}, {}, {}, 0, 1, &f_assign<X, Y>});
}
template <class X, class Y> void constrs() {
    reg(Entry{nm(Op::CONSTRUCT, {ty<X>(), ty<Y>()}), Op::CONSTRUCT, {ty<X>()}, {ty<Y>()}, {}, {}, 0, 1, &f_constr<X, Y>});
}
static void lit(Ctx &c, auto f) { auto x = f(static_cast<unsigned long long>(c.iarg[0])); put(c, x); c.text = x.str(); }
#ifdef VAST   // positions beyond 16 bits
SUITE(c01) {
    constexpr int w = 65600;
    reads<LW<w, true>>(); reads<BW<w>>();
    ints<LW<w>, int64_t>("int64", IA::INT64); ints<BW<w, true>, uint64_t>("uint64", IA::UINT64); ints<LW<w, true>, int>("int", IA::INT32);
    assigns<LW<w, true>, LW<70001>>(); assigns<BW<70001>, BW<w, true>>(); assigns<LW<70, true>, LW<w>>(); assigns<BW<9, true>, BW<w>>(); assigns<LW<w>, LW<100, true>>(); assigns<BW<w>, BW<33>>();
    constrs<LW<w, true>, LW<70001>>(); constrs<BW<w, true>, LW<w>>(); constrs<BW<66, true>, BW<w>>();
}
#else
SUITE(c01) {
    each<WIDTHS>([]<size_t I>() {
        constexpr int w = WIDTHS[I];
        constexpr bool s = I % 2;
        reads<LW<w>>(); reads<LW<w, true>>(); reads<BW<w>>(); reads<BW<w, true>>();
        ints<LW<w, s>, int64_t>("int64", IA::INT64); ints<BW<w, s>, int64_t>("int64", IA::INT64);
        ints<LW<w, !s>, uint64_t>("uint64", IA::UINT64); ints<BW<w, !s>, uint64_t>("uint64", IA::UINT64);
        ints<LW<w, !s>, int>("int", IA::INT32); ints<BW<w, !s>, int>("int", IA::INT32);
        if constexpr (I % 4 == 0 || thorough) { ints<LW<w, s>, bool>("bool", IA::BOOLV); ints<BW<w, s>, uint32_t>("uint", IA::UINT64); ints<BW<w, s>, int8_t>("int8", IA::INT64); }
        constrs<BW<w, true>, LW<w, false>>(); constrs<BW<w, s>, LW<w, s>>();
        constrs<LW<w, true>, L<w + 2, 3, s>>(); constrs<LW<w, true>, L<0, w - 1, !s>>();
    });
    each<PAIRS>([]<size_t I>() {
        constexpr int wa = PAIRS[I][0], wb = PAIRS[I][1];
        auto signs = []<bool sa, bool sb>() {
            if constexpr (combo(I, sa, sb, 0)) {
                assigns<LW<wa, sa>, LW<wb, sb>>();
                if constexpr (wa != wb) assigns<LW<wb, sb>, LW<wa, sa>>();
                if constexpr (sa) constrs<LW<wa, true>, LW<wb, sb>>();
            }
            if constexpr (combo(I, sa, sb, 1)) {
                assigns<BW<wa, sa>, BW<wb, sb>>();
                if constexpr (wa != wb) assigns<BW<wb, sb>, BW<wa, sa>>();
                if constexpr (sa) constrs<BW<wa, true>, BW<wb, sb>>();
            }
        };
        signs.template operator()<false, false>();
        signs.template operator()<true, true>();
        signs.template operator()<false, true>();
        signs.template operator()<true, false>();
    });
    cross<true>([]<class X, class Y>() {   // every kind that converts: not logic to bit
        if constexpr (X::is_4state == Y::is_4state) assigns<X, Y>();
        if constexpr (std::is_constructible_v<Y, const X &> && (Y::is_4state || !X::is_4state) && (X::is_signed || (X::is_4state != Y::is_4state && !Y::is_signed))) constrs<X, Y>();
    });
    sweep([]<int w>() {
        constexpr bool s = w & 1;
        using X = VW<w, s, w % 3 != 0>;
        reads<X>(); ints<X, int64_t>("int64", IA::INT64); ints<VW<w, !s, w % 3 == 0>, uint64_t>("uint64", IA::UINT64);
        assigns<X, VW<partner(w), w % 4 < 2, w % 3 != 0>>(); assigns<X, VW<w + 1, !s, w % 3 != 0>>();
        constrs<BW<w, true>, LW<w, s>>();
    });
    if constexpr (PART == 0) {
        assigns<L<0, 7>, L<15, 0>>(); assigns<L<9, 2>, L<70, 3, true>>(); assigns<B<0, 99>, B<3, 30>>(); assigns<L<103, 4, true>, L<5, 200>>();
        assigns<B<0, 99, true>, B<300, 3>>(); assigns<L<4, 11, true>, L<0, 80, true>>();
        using namespace ::logic::literals;
        reg(Entry{"CONSTRUCT_INT _logic", Op::CONSTRUCT_INT, {}, {ty<L<31, 0, true>>()}, {0}, {IA::UINT64}, mv::F_BITS, 1, [](Ctx &c) { lit(c, [](auto v) { return ::logic::literals::operator""_logic(v); }); }});
        reg(Entry{"CONSTRUCT_INT _logic64", Op::CONSTRUCT_INT, {}, {ty<L<63, 0, true>>()}, {0}, {IA::UINT64}, mv::F_BITS, 1, [](Ctx &c) { lit(c, [](auto v) { return ::logic::literals::operator""_logic64(v); }); }});
        reg(Entry{"CONSTRUCT_INT _bit", Op::CONSTRUCT_INT, {}, {ty<B<31, 0, true>>()}, {0}, {IA::UINT64}, mv::F_BITS, 1, [](Ctx &c) { lit(c, [](auto v) { return ::logic::literals::operator""_bit(v); }); }});
        reg(Entry{"CONSTRUCT_INT _bit64", Op::CONSTRUCT_INT, {}, {ty<B<63, 0, true>>()}, {0}, {IA::UINT64}, mv::F_BITS, 1, [](Ctx &c) { lit(c, [](auto v) { return ::logic::literals::operator""_bit64(v); }); }});
    }
}
#endif
