#include "lib.hh"
#include "widths.hh"
// all reductions of one value at once: results are r_and r_nand r_or r_nor r_xor r_xnor ! bool
template <class X> void all_red() {
    reg_un<T_RAND, X>(); reg_un<T_RNAND, X>(); reg_un<T_ROR, X>(); reg_un<T_RNOR, X>();
    reg_un<T_RXOR, X>(); reg_un<T_RXNOR, X>(); reg_un<T_LNOT, X>(); reg_un<T_BOOL, X>();
}
// what a 2-state value says about its bits
template <class X> void f_query(Ctx &c) {
    MV m;
    mv::gen_value(c, m, ty<X>(), 0);
    X x;
    load(x, m);
    uint64_t ones = 0, top = 0;
    for (int i = 0; i < m.w; i++)
        if (m.get(i)) { ones++; top = uint64_t(i); }
    c.steps = 7;
    c.digest = mv::hmix(m.v[0], m.v[(m.w - 1) / 64]);
    c.trace = m.str();
    if constexpr (requires { x.popcount(); })
        if (x.popcount() != ones) c.fail("popcount is " + std::to_string(x.popcount()) + ", " + std::to_string(ones) + " bits are set");
    if constexpr (requires { x.any_set(); })
        if (x.any_set() != (ones > 0)) c.fail("any_set is " + std::to_string(x.any_set()));
    if constexpr (requires { x.all_set(); })
        if (x.all_set() != (ones == uint64_t(m.w))) c.fail("all_set is " + std::to_string(x.all_set()));
    if constexpr (requires { x.negative(); })
        if (x.negative() != (X::is_signed && m.get(m.w - 1) == 1)) c.fail("negative is " + std::to_string(x.negative()));
    if constexpr (requires { x.highest_bit(); })
        if (ones && x.highest_bit() != top) c.fail("highest_bit is " + std::to_string(x.highest_bit()) + ", not " + std::to_string(top));
    if constexpr (requires { x.mask(); x.clear(); }) {
        MV now;
        x.mask();
        store(x, now);
        for (int i = 0; i < m.w; i++)
            if (now.get(i) != 1) { c.fail("bit " + std::to_string(i) + " is clear after mask()"); break; }
        if (!x.r_and() || x != ~X{}) c.fail("not all ones after mask()");
        x.clear();
        store(x, now);
        for (int i = 0; i < m.w; i++)
            if (now.get(i) != 0) { c.fail("bit " + std::to_string(i) + " is set after clear()"); break; }
        if (x.r_or() || x != X{}) c.fail("not zero after clear()");
    }
}
template <class X> void query() { Entry e; e.name = "QUERY " + ty<X>().str(); e.op = Op::CUSTOM; e.fn = &f_query<X>; reg(e); }
#ifdef VAST   // positions beyond 16 bits
SUITE(c03) {
    all_red<LW<65600>>(); all_red<BW<65600, true>>(); all_red<LW<70001, true>>(); query<BW<65600>>();
}
#else
SUITE(c03) {
    each<WIDTHS>([]<size_t I>() {
        constexpr int w = WIDTHS[I];
        constexpr bool s = I % 2;
        all_red<LW<w, s>>(); all_red<BW<w, !s>>(); query<BW<w, s>>();
        if constexpr (I % 3 == 0 || thorough) { all_red<LW<w, !s>>(); all_red<BW<w, s>>(); }
    });
    sweep_types([]<class X>() { all_red<X>(); if constexpr (!X::is_4state) query<X>(); });
    if constexpr (PART == 0) { all_red<L<0, 7>>(); all_red<L<71, 3>>(); all_red<B<2, 99>>(); all_red<B<12, 3>>(); query<B<12, 3, true>>(); query<B<2, 99>>(); query<B<104, 3, true>>(); all_red<L<0, 0>>(); all_red<L<-1, -9>>(); }
}
#endif
