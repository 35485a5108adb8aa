#include <memory>
#include "lib.hh"
#include "widths.hh"
// the format lives in a heap block of exactly its length
template <class X> std::string fmt(const X &x, const std::string &f) {
    std::unique_ptr<char[]> t(new char[f.size()]);
    std::memcpy(t.get(), f.data(), f.size());
    return x.str(std::string_view(t.get(), f.size()));
}
template <class X> void f_fmt(Ctx &c) {
    X a;
    load(a, c.in[0]);
    c.text = fmt(a, c.sarg);
    if (c.sarg == "b" && a.str() != c.text) c.fail("str() differs from str(\"b\"): " + a.str());
    if constexpr (X::is_4state) {
        // a value without unknown bits renders like the 2-state value
        if (!c.in[0].has_xz()) {
            std::string t = fmt(a.value, c.sarg);
            if (t != c.text) c.fail("the 2-state value renders as \"" + t + "\" and the 4-state one as \"" + c.text + "\"");
        }
    }
}
template <class X> void fm(double w = 1) {
    reg(Entry{nm(Op::FORMAT, {ty<X>()}), Op::FORMAT, {ty<X>()}, {}, {}, {}, mv::F_TEXT, w, &f_fmt<X>});
}
constexpr auto FSWEEP = [] {
    std::array<int, thorough ? 700 : 200> r{};
    for (size_t i = 0; i < r.size(); i++) r[i] = int(i) + 1;
    return r;
}();
#ifdef VAST   // positions beyond 16 bits
SUITE(c14) {
    fm<LW<65600>>(0.5); fm<BW<65600, true>>(0.5); fm<LW<8>>();
}
#else
SUITE(c14) {
    each<WIDTHS, 3>([]<size_t I>() {
        constexpr int w = WIDTHS[I];
        constexpr bool s = I % 2;
        fm<LW<w, s>>(); fm<LW<w, !s>>(); fm<BW<w, s>>();
        if constexpr (I % 3 == 0 || thorough) fm<BW<w, !s>>();
        if constexpr (I % 5 == 2) { fm<L<0, w - 1, s>>(); fm<B<w + 4, 5, s>>(); fm<L<w - 3, -2, !s>>(); }
    });
    // digit counts depend on the width: every width up to 200 (thorough: 700)
    each<FSWEEP, 8>([]<size_t I>() {
        constexpr int w = FSWEEP[I];
        if constexpr (w <= 140) fm<LW<w, 0>>(0.4);
        fm<BW<w, w % 2>>(0.4);
    });
}
#endif
