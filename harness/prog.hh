// Support for the generated programs of C22 (tools/gen_c22.py): every statement runs once on the
// library's objects and once on the reference model's values.
#pragma once
#include "hist.hh"
using mv::mv_binary; using mv::mv_unary; using mv::mv_extend; using mv::mv_slice; using mv::mv_concat; using mv::mv_convert;
using ::logic::packed_array;
using ::logic::unpacked_array;

// ---- model side
inline MV sg(MV m, bool s) { m.sgn = s; return m; }
inline MV k4(MV m) { m.is4 = true; return m; }
inline TypeD T4(int w, bool s) { return TypeD{w - 1, 0, s, true}; }
inline TypeD T2(int w, bool s) { return TypeD{w - 1, 0, s, false}; }
inline MV one(bool b, bool is4) { MV m; m.w = 1; m.is4 = is4; m.v[0] = b; return m; }
inline bool truth(const MV &m) { return mv_unary(Op::BOOL, m).v[0]; }
// bits of a at the declared range's positions
inline MV part(const MV &a, int lo, int64_t x, int64_t y) {
    int64_t s = std::min(x, y), n = std::max(x, y) - s + 1;
    return mv_slice(a, int(s - lo), int(n), a.is4);
}
inline MV ipart(const MV &a, int lo, const MV &base, int n, bool up) {
    bool ok;
    int64_t i = mv::mv_index(base, ok);
    return mv_slice(a, !ok ? -100000 : int((up ? i : i - n + 1) - lo), n, a.is4);
}
inline MV bitat(const MV &a, const TypeD &t, int64_t i, bool ok = true) {
    int p = ok ? mv::pos_of(t, i) : -1;
    return mv_slice(a, p < 0 ? -100000 : p, 1, a.is4);
}
inline MV bitsel(const MV &a, const TypeD &t, const MV &idx) {
    bool ok;
    int64_t i = mv::mv_index(idx, ok);
    return bitat(a, t, i, ok);
}
inline void wpart(MV &d, const TypeD &t, int64_t x, int64_t y, const MV &src) {
    int64_t s = std::min(x, y), n = std::max(x, y) - s + 1;
    for (int64_t i = 0; i < n; i++) {
        int p = mv::pos_of(t, s + i);
        int64_t off = t.be() ? i : n - 1 - i;
        if (p >= 0) d.set(p, off < src.w ? src.get(int(off)) : 0);
    }
}
inline void wipart(MV &d, const TypeD &t, const MV &base, int n, bool up, const MV &src) {
    bool ok;
    int64_t i = mv::mv_index(base, ok);
    if (ok) wpart(d, t, up ? i : i - n + 1, up ? i + n - 1 : i, src);
}
inline MV element(const MV &a, int lo, int hi, int ew, const MV &idx) {
    bool ok;
    int64_t i = mv::mv_index(idx, ok);
    return mv_slice(a, ok && i >= lo && i <= hi ? int(i - lo) * ew : -100000, ew, a.is4);
}
inline void welement(MV &a, int lo, int hi, int ew, const MV &idx, const MV &v) {
    bool ok;
    int64_t i = mv::mv_index(idx, ok);
    if (ok && i >= lo && i <= hi) for (int b = 0; b < ew; b++) a.set(int(i - lo) * ew + b, b < v.w ? v.get(b) : 0);
}

// ---- library side
template <bool is4, class X> VW<1, false, is4> k1(const X &x) {
    if constexpr (std::is_same_v<X, VW<1, false, is4>>) return x;
    else if constexpr (std::is_same_v<X, bool>) return VW<1, false, is4>(x);
    else { MV m; store(x, m); VW<1, false, is4> r; load(r, m); return r; }
}
template <class T, class X> T as(const X &x) { T t{}; t = x; return t; }
template <class X> L<int(X::size) - 1, 0, X::is_signed> tl(const X &x) { return L<int(X::size) - 1, 0, X::is_signed>(x); }

// a starting value; unknown bits are not everywhere, or nothing else would be left
inline void fresh(Ctx &c, MV &m, const TypeD &t, bool known) { mv::gen_value(c, m, t, known || c.below(3) ? 0 : -1); }
inline const char *pick_fmt(Ctx &c, const MV &m) {
    static const char *const f[] = {"b", "h", "o", "x", "d", "0d", "40d", "30b", "9h", "0o", "200b", "s"};
    const char *s = f[c.below(12)];
    return *s == 's' && m.has_xz() ? "h" : s;
}
struct Statement { void (*run)(Ctx &, void *); const char *text; };
template <class S> void f_prog(Ctx &c) {
    auto *s = new S;
    bool known = c.below(2);
    s->start(c, known);
    int n = 20 + int(c.below(60));
    for (int i = 0; i < n && c.anomaly.empty(); i++) {
        uint64_t k = c.below(S::count);
        if (c.below(10) == 0) { s->refresh(c, known); c.trace += " *"; }
        s->run(k, c);
        c.steps++;
        c.trace += i < 3 ? " {" + std::string(S::text(k)).substr(0, 200) + "}" : " " + num(int64_t(k));
        c.digest = mv::hmix(c.digest, k);
        if (!c.anomaly.empty()) { c.anomaly = "statement " + num(int64_t(k)) + " `" + S::text(k) + "`: " + c.anomaly; break; }
        std::string bad = s->compare(c);
        if (!bad.empty()) c.fail("after statement " + num(int64_t(k)) + " `" + S::text(k) + "`: " + bad);
    }
    delete s;
}
