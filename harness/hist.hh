// helpers for suites whose cases are histories of operations
#pragma once
#include "lib.hh"
#include "widths.hh"
inline std::string num(int64_t v) { return std::to_string(v); }
// compares an observed value with the expected bits
template <class X> bool same(const X &x, const MV &want, MV &got) {
    store(x, got);
    return got.same_bits(want);
}
#define EXPECT(C, X, WANT, WHAT)                                                             \
    do {                                                                                     \
        MV g_;                                                                               \
        (C).steps++;                                                                         \
        if (!same((X), (WANT), g_)) { (C).fail(std::string(WHAT) + " is " + g_.str() + " expected " + (WANT).str()); return; } \
    } while (0)
inline MV gen(Ctx &c, const TypeD &t, bool known = false) {
    MV m;
    mv::gen_value(c, m, t, known ? 0 : -1);
    return m;
}
template <class X> X make(const MV &m) { X x; load(x, m); return x; }
