#include "lib.hh"
#include "widths.hh"
// The operand is first brought into the domain (unknown bits fill whole digits; no unknown bits and
// no sign for d; no unknown bits and no ' for s), then printed, parsed, and must come back.
template <class X, char F> void f_round(Ctx &c) {
    MV &m = c.in[0];
    if (F == 'd' || F == 's') std::memset(m.m, 0, sizeof m.m);
    if (F == 'd' && m.sgn) m.set(m.w - 1, 0);
    if (F == 's')
        for (int lo = 0; lo < m.w; lo += 8) {
            int ch = 0;
            for (int j = lo; j < lo + 8; j++) ch |= m.get(j) << (j - lo);
            if (ch == '\'') m.set(lo, 0);
        }
    constexpr int k = F == 'o' ? 3 : 4;
    if (F == 'o' || F == 'h' || F == 'x')
        for (int lo = 0; lo < m.w; lo += k) {
            int s = 0;
            for (int j = lo; j < lo + k && j < m.w; j++) if (m.get(j) > 1 && !s) s = m.get(j);
            if (s) for (int j = lo; j < lo + k && j < m.w; j++) m.set(j, s);
        }
    X a;
    load(a, m);
    // either case of the format letter, the base letter and the digits
    auto up = [](char ch) { return static_cast<char>(ch >= 'a' && ch <= 'z' ? ch - 32 : ch); };
    unsigned how = c.below(8);
    char f = how & 1 ? up(F) : F, base = F == 'x' ? 'h' : F;
    std::string t = F == 'd' ? a.str(std::string("0") + f) : a.str(std::string(1, f));
    if (how & 2 && F != 's') for (auto &ch : t) ch = up(ch);
    std::string lit = F == 's' ? t : std::string("'") + (how & 4 ? up(base) : base) + t;
    if (F != 's' && c.below(2)) lit = std::to_string(m.w) + lit;
    if (c.below(4) == 0 && F != 's' && t.size() > 2) lit.insert(lit.size() - 1, "_");
    X b(std::string_view{lit});
    put(c, b);
    if (!(a.match(b))) c.fail("printed and parsed back as \"" + lit + "\", but does not match the original");
}
template <class X, char F> void rt() {
    reg(Entry{std::string("ROUNDTRIP ") + F + " " + ty<X>().str(), Op::EXTEND, {ty<X>()}, {}, {int(X::size)}, {}, 0, 1, &f_round<X, F>});
}
template <class X> void all() {
    rt<X, 'b'>(); rt<X, 'o'>(); rt<X, 'h'>(); rt<X, 'd'>();
    if constexpr (X::size % 8 == 0) rt<X, 's'>();
    if constexpr (X::size % 3 == 0) rt<X, 'x'>();
}
#ifdef VAST   // positions beyond 16 bits
SUITE(c15) {
    all<LW<65600>>(); all<BW<65600, true>>(); all<LW<70002>>();
}
#else
SUITE(c15) {
    each<WIDTHS>([]<size_t I>() {
        constexpr int w = WIDTHS[I];
        constexpr bool s = I % 2;
        all<LW<w, s>>(); all<BW<w, !s>>();
        if constexpr (I % 2 == 0 || thorough) all<LW<w, !s>>();
        if constexpr (I % 5 == 2) { all<L<0, w - 1, s>>(); all<B<w + 4, 5, s>>(); }
    });
    sweep([]<int w>() { all<VW<w, (w >> 1) & 1, w % 2>>(); });
}
#endif
