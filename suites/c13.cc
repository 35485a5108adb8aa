#include <memory>
#include "lib.hh"
#include "widths.hh"
// the text lives in a heap block of exactly its length and the destination in a heap block of its
// own, so that ASan sees any access beyond either
template <class X, int how> void f_parse(Ctx &c) {
    size_t n = c.sarg.size();
    std::unique_ptr<char[]> t(new char[n + (how == 1)]);
    std::memcpy(t.get(), c.sarg.data(), n);
    std::unique_ptr<X> x;
    if constexpr (how == 1) { t[n] = 0; x.reset(new X(static_cast<const char *>(t.get()))); }
    else x.reset(new X(std::string_view(t.get(), n)));
    put(c, *x);
}
template <class X, int how> void parse(double w = 1) {
    reg(Entry{nm(Op::PARSE, {ty<X>()}, how == 2 ? "array" : how ? "c string" : ""), Op::PARSE, {}, {ty<X>()}, {}, {}, 0, w, &f_parse<X, how>});
}
// a packed array is one vector as well
template <class T, int m, int l> void f_parse_arr(Ctx &c) {
    std::unique_ptr<char[]> t(new char[c.sarg.size()]);
    std::memcpy(t.get(), c.sarg.data(), c.sarg.size());
    ::logic::packed_array<T, m, l> a(std::string_view(t.get(), c.sarg.size()));
    constexpr int w = T::size * ((m > l ? m - l : l - m) + 1);
    MV v;
    v.w = w;
    v.is4 = T::is_4state;
    if constexpr (T::is_4state) { store_bits(a.value, v.v); store_bits(a.xz_mask, v.m); } else store_bits(a, v.v);
    c.out[c.nout++] = v;
}
template <class T, int m, int l> void parse_arr() {
    constexpr int w = T::size * ((m > l ? m - l : l - m) + 1);
    TypeD t{w - 1, 0, false, T::is_4state};
    reg(Entry{nm(Op::PARSE, {ty<T>(), t}, "array"), Op::PARSE, {}, {t}, {}, {}, 0, 1, &f_parse_arr<T, m, l>});
}
// 12_logic and friends: 32-bit and 64-bit signed
template <int k> void f_udl(Ctx &c) {
    auto v = static_cast<unsigned long long>(c.iarg[0]);
    if constexpr (k == 0) put(c, ::logic::literals::operator""_logic(v));
    if constexpr (k == 1) put(c, ::logic::literals::operator""_logic64(v));
    if constexpr (k == 2) put(c, ::logic::literals::operator""_bit(v));
    if constexpr (k == 3) put(c, ::logic::literals::operator""_bit64(v));
}
template <int k> void udl() {
    TypeD t{k % 2 ? 63 : 31, 0, true, k < 2};
    reg(Entry{"literal operator " + t.str(), Op::CONSTRUCT_INT, {}, {t}, {0}, {k % 2 ? IA::UINT64 : IA::UINT64}, mv::F_SGN, 1, &f_udl<k>});
}
#ifdef VAST   // positions beyond 16 bits
SUITE(c13) {
    parse<LW<65600>, 0>(); parse<BW<70001, true>, 0>(); parse<BW<9>, 0>();
}
#else
SUITE(c13) {
    each<WIDTHS>([]<size_t I>() {
        constexpr int w = WIDTHS[I];
        constexpr bool s = I % 2;
        parse<LW<w, s>, 0>(); parse<BW<w, !s>, 0>();
        if constexpr (I % 3 == 0) parse<LW<w, s>, 1>();
        if constexpr (I % 3 == 1 || thorough) { parse<LW<w, !s>, 0>(); parse<BW<w, s>, 0>(); }
        if constexpr (I % 5 == 2) { parse<L<0, w - 1, s>, 0>(); parse<B<w + 4, 5, s>, 0>(); parse<L<w - 3, -2, !s>, 0>(); }
    });
    sweep_types([]<class X>() { parse<X, 0>(); });
    if constexpr (PART == 0) {
        udl<0>(); udl<1>(); udl<2>(); udl<3>();
        parse_arr<LW<8>, 3, 0>(); parse_arr<BW<8>, 3, 0>(); parse_arr<LW<16>, 0, 7>(); parse_arr<LW<5>, 1, 0>(); parse_arr<BW<70>, 2, 4>(); parse_arr<LW<33, true>, 3, 0>();
    }
}
#endif
