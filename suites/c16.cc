#include <utility>
#include "hist.hh"
using ::logic::packed_array;
// A history of element and slice writes on one array, started from any contents. After every step
// every element is read back through the operator, in every index type, and the whole vector is compared.
template <class A> struct Info;
template <class T_, int m, int l> struct Info<packed_array<T_, m, l>> {
    using T = T_;
    static constexpr int lo = m < l ? m : l, hi = m < l ? l : m, n = hi - lo + 1, ew = T::size, w = n * ew;
    static std::string name() {
        std::string e;
        if constexpr (requires { T::base_size; }) e = Info<T>::name(); else e = ty<T>().str();
        return "array[" + num(m) + ":" + num(l) + "] of " + e;
    }
};
template <class A, class IX> MV rd(const A &a, const MV &idx) {
    MV r;
    store(a[make<IX>(idx)], r);
    return r;
}
static MV idx_value(Ctx &c, const TypeD &t, int64_t k) {
    MV m = mv::mv_from_i64(k, t.w(), t.sgn, t.is4);
    (void)c;
    return m;
}
template <class A, int hi, int lo, class K> void slice_write(Ctx &c, A &a, MV &whole) {
    using I = Info<A>;
    MV v = gen(c, ty<K>());
    a.template update<hi, lo>(make<K>(v));
    constexpr int base = ((hi < lo ? hi : lo) - I::lo) * I::ew, n = ((hi < lo ? lo - hi : hi - lo) + 1) * I::ew;
    for (int i = 0; i < n; i++) whole.set(base + i, i < v.w ? v.get(i) : 0);
    c.trace += "; update<" + num(hi) + "," + num(lo) + ">(" + v.str() + ")";
    c.digest = mv::hmix(c.digest, v.v[0] ^ uint64_t(hi) << 20);
}
template <class A, int hi, int lo> void slice_read(Ctx &c, const A &a, const MV &whole) {
    using I = Info<A>;
    constexpr int base = ((hi < lo ? hi : lo) - I::lo) * I::ew, n = ((hi < lo ? lo - hi : hi - lo) + 1) * I::ew;
    MV want = mv::mv_slice(whole, base, n, whole.is4);
    EXPECT(c, (a.template slice_array<hi, lo>()), want, "slice_array<" + num(hi) + "," + num(lo) + ">");
}
template <class A, class IX, class K> void write(Ctx &c, A &a, MV &whole) {
    using I = Info<A>;
    MV ix = gen(c, ty<IX>());
    if (c.below(8)) {     // mostly a known index near the bounds
        int64_t k = mv::gen_index(c, TypeD{I::hi, I::lo, false, false});
        ix = idx_value(c, ty<IX>(), k);
        if (c.below(12) == 0) ix.set(int(c.below(uint64_t(ix.w))), 2 + int(c.below(2)));
    }
    MV v = gen(c, ty<K>());
    a.update(make<IX>(ix), make<K>(v));
    bool ok = true;
    int64_t k = mv::mv_index(ix, ok);
    if (ok && k >= I::lo && k <= I::hi)
        for (int i = 0; i < I::ew; i++) whole.set(int(k - I::lo) * I::ew + i, i < v.w ? v.get(i) : 0);
    c.trace += "; [" + ix.str() + "]=" + v.str();
    c.digest = mv::hmix(mv::hmix(c.digest, v.v[0]), ix.v[0] + ix.m[0] * 7);
    // the written index reads back what it holds now
    MV want = ok && k >= I::lo && k <= I::hi ? mv::mv_slice(whole, int(k - I::lo) * I::ew, I::ew, whole.is4)
                                             : mv::mv_slice(whole, -100000, I::ew, whole.is4);
    EXPECT(c, a[make<IX>(ix)], want, "element [" + ix.str() + "]");
}
template <class A, class IX> void check_all(Ctx &c, const A &a, const MV &whole) {
    using I = Info<A>;
    MV got;
    c.steps++;
    store(a, got);
    if (!got.same_bits(whole)) { c.fail("array holds " + got.str() + " expected " + whole.str()); return; }
    TypeD ti = ty<IX>();
    for (int k = I::lo - 1; k <= I::hi + 1; k++) {
        if (I::n > 12 && k > I::lo + 2 && k < I::hi - 2 && c.below(6)) continue;
        MV ix = idx_value(c, ti, k);
        bool ok = true;
        int64_t j = mv::mv_index(ix, ok);   // a narrow index type wraps
        MV want = ok && j >= I::lo && j <= I::hi ? mv::mv_slice(whole, int(j - I::lo) * I::ew, I::ew, whole.is4)
                                                 : mv::mv_slice(whole, -100000, I::ew, whole.is4);
        EXPECT(c, a[make<IX>(ix)], want, "element [" + ix.str() + "]");
    }
}
// the array is one vector: an operation on it gives what it gives on a plain vector of the same bits, and
// one in place changes the elements that way
template <class X> MV cap(const X &x) {
    MV m;
    if constexpr (std::is_same_v<X, bool>) { m.w = 1; m.v[0] = x; } else store(x, m);
    return m;
}
template <class A> void as_vector(Ctx &c, A &a, MV &whole) {
    using I = Info<A>;
    using V = VW<I::w, A::is_signed, A::is_4state>;
    using K = VW<I::ew + 3, false, A::is_4state>;
    MV k = gen(c, ty<K>());
    K b = make<K>(k);
    V v;
    load(v, whole);
    int64_t sh = int64_t(c.below(uint64_t(I::w) + 3));
    auto n = make<LW<20>>(mv::mv_from_i64(sh, 20, false, true));
    auto nb = make<BW<20>>(mv::mv_from_i64(sh, 20, false, false));
    auto both = [&](const char *what, auto f) {
        MV p = cap(f(std::as_const(a))), q = cap(f(std::as_const(v)));
        c.steps++;
        if (!p.same_bits(q)) c.fail(std::string("as a vector, ") + what + " gives " + p.str() + " and " + q.str() + " on a plain vector " + whole.str() + " with " + k.str());
    };
    switch (c.below(14)) {
        case 0: both("&", [&](const auto &x) { return x & b; }); break;
        case 1: both("|", [&](const auto &x) { return x | b; }); break;
        case 2: both("+", [&](const auto &x) { return x + b; }); break;
        case 3: both("-", [&](const auto &x) { return x - b; }); break;
        case 4: both("~", [&](const auto &x) { return ~x; }); break;
        case 5: both("<", [&](const auto &x) { return x < b; }); both(">=", [&](const auto &x) { return x >= b; }); break;
        case 6: both("==", [&](const auto &x) { return x == b; }); both("match", [&](const auto &x) { return x.match(b); }); break;
        case 7: both("concat", [&](const auto &x) { return x.concat(b); }); break;
        case 8: both("extend", [&](const auto &x) { return x.template extend<I::w + 67>(); }); break;
        case 9: both("r_and", [&](const auto &x) { return x.r_and(); }); both("r_xor", [&](const auto &x) { return x.r_xor(); }); both("r_or", [&](const auto &x) { return x.r_or(); }); break;
        case 10: if constexpr (A::is_4state) both("<<", [&](const auto &x) { return x << n; }); else both("<<", [&](const auto &x) { return x << nb; }); break;
        case 11: if constexpr (A::is_4state) both(">>", [&](const auto &x) { return x >> n; }); else both(">>", [&](const auto &x) { return x >> nb; }); break;
        case 12: both("bool", [&](const auto &x) { return static_cast<bool>(x); }); both("-", [&](const auto &x) { return -x; }); break;
        default:
            for (const char *f : {"b", "h", "o"}) {
                c.steps++;
                if (a.str(f) != v.str(f)) c.fail(std::string("formats as ") + a.str(f) + " and a plain vector of the same bits as " + v.str(f));
            }
    }
    if (!c.anomaly.empty()) return;
    auto place = [&](const char *what, auto f) { f(a); f(v); c.trace += std::string("; ") + what + " " + k.str(); };
    switch (c.below(6)) {
        case 0: place("^=", [&](auto &x) { x ^= b; }); break;
        case 1: place("&=", [&](auto &x) { x &= b; }); break;
        case 2: place("|=", [&](auto &x) { x |= b; }); break;
        case 3: if constexpr (A::is_4state) place("<<=", [&](auto &x) { x <<= n; }); else place("<<=", [&](auto &x) { x <<= nb; }); break;
        case 4: place("++", [&](auto &x) { ++x; }); break;
        default: place("--", [&](auto &x) { --x; });
    }
    bool sgn = whole.sgn, is4 = whole.is4;
    store(v, whole);
    whole.sgn = sgn; whole.is4 = is4;
    c.digest = mv::hmix(c.digest, k.v[0] ^ whole.v[0]);
}
template <class A> void f_hist(Ctx &c) {
    using I = Info<A>;
    constexpr bool is4 = A::is_4state;
    constexpr int lo = I::lo, hi = I::hi, n = I::n, ew = I::ew;
    A a;
    MV whole = is4 ? mv::mv_slice(MV{}, -100000, I::w, true) : mv::mv_slice(MV{}, -100000, I::w, false);
    whole.is4 = is4;
    if (c.below(3)) {
        whole = gen(c, TypeD{I::w - 1, 0, false, is4});
        load(a, whole);
    } else if (c.below(2)) {
        std::string t = mv::gen_literal(c, TypeD{I::w - 1, 0, false, is4});
        a = A(std::string_view(t));
        whole = mv::mv_parse(t, TypeD{I::w - 1, 0, false, is4});
        c.trace += "literal " + t;
    } else if constexpr (requires { A(uint64_t{5}); }) {
        uint64_t v = c.next();
        a = A(v);
        whole = mv::mv_from_u64(v, I::w, false, is4);
    }
    c.trace += "start " + whole.str();
    A other = a;
    MV other_model = whole;
    for (int step = 0; step < 12 && c.anomaly.empty(); step++) {
        c.steps++;
        switch (c.below(12)) {
            case 10: case 11: if constexpr (I::ew * 7 % 5 < 2 || I::w > 10000) as_vector(c, a, whole); break;
            case 0: case 1: write<A, LW<12, true>, VW<ew, false, is4>>(c, a, whole); break;
            case 2: write<A, IX<ew + n, true>, VW<ew, true, is4>>(c, a, whole); break;
            case 3: write<A, LW<70, true>, VW<ew + 9, false, is4>>(c, a, whole); break;
            case 4: write<A, LW<4>, VW<(ew + 1) / 2, true, is4>>(c, a, whole); break;
            case 5: slice_write<A, hi, lo, VW<I::w, false, is4>>(c, a, whole); break;
            case 6: if constexpr (n > 1) slice_write<A, hi, lo + 1, VW<(n - 1) * ew, true, is4>>(c, a, whole); break;
            case 7: if constexpr (n > 2) slice_write<A, lo, (lo + hi) / 2, VW<ew, false, is4>>(c, a, whole); else slice_write<A, lo, lo, VW<ew + 3, false, is4>>(c, a, whole); break;
            case 8: if (c.below(2)) { other = a; other_model = whole; c.trace += "; copy"; } else { a = other; whole = other_model; c.trace += "; restore"; } break;
            case 9: {   // an element written from another element of the same array
                int64_t i = lo + int64_t(c.below(uint64_t(n))), j = lo + int64_t(c.below(uint64_t(n)));
                TypeD t{15, 0, true, true};
                auto ii = make<LW<16, true>>(mv::mv_from_i64(i, 16, true, true)), jj = make<LW<16, true>>(mv::mv_from_i64(j, 16, true, true));
                a.update(ii, a[jj]);
                MV e = mv::mv_slice(whole, int(j - lo) * ew, ew, is4);
                for (int b = 0; b < ew; b++) whole.set(int(i - lo) * ew + b, e.get(b));
                c.trace += "; [" + num(i) + "]=[" + num(j) + "]";
                c.digest = mv::hmix(c.digest, uint64_t(i * 1000 + j));
                break;
            }
        }
        if (!c.anomaly.empty()) return;
        switch (c.below(4)) {
            case 0: check_all<A, LW<12, true>>(c, a, whole); break;
            case 1: check_all<A, LW<80, true>>(c, a, whole); break;
            case 2: check_all<A, IX<ew * 3 + n, true>>(c, a, whole); break;
            default: check_all<A, LW<7>>(c, a, whole);
        }
        if (!c.anomaly.empty()) return;
        slice_read<A, hi, lo>(c, a, whole);
        if constexpr (n > 1) slice_read<A, lo + 1, hi>(c, a, whole);
        if constexpr (n > 2) slice_read<A, hi - 1, lo>(c, a, whole);
        slice_read<A, (lo + hi) / 2, (lo + hi) / 2>(c, a, whole);
    }
    MV got;
    store(other, got);
    if (c.anomaly.empty() && !got.same_bits(other_model)) c.fail("a copy of the array changed to " + got.str() + " expected " + other_model.str());
}
template <class A> void arr() {
    Entry e;
    e.name = Info<A>::name();
    e.op = Op::CUSTOM;
    e.fn = &f_hist<A>;
    e.weight = Info<A>::w > 1000 ? 0.3 : 1;
    reg(e);
}
constexpr int SHAPES[][3] = {   // element width, bounds
    {8, 3, 0}, {4, 0, 3}, {1, 7, 0}, {1, 64, 0}, {3, 4, 1}, {5, 2, 5}, {16, 3, 0}, {17, 2, 0}, {20, 2, 4}, {31, 1, 0}, {32, 1, 0}, {32, 3, 0}, {33, 0, 2}, {63, 1, 0}, {64, 0, 0}, {64, 2, 0}, {65, 1, 0}, {65, 0, 0}, {70, 0, 3},
    {100, 4, 2}, {128, 1, 0}, {129, 3, 1}, {8, -1, -4}, {12, -2, 2}, {7, 9, 0}, {9, 15, 0}, {21, 3, 6}, {2, 31, 0}, {2, 40, 7}, {200, 1, 3}, {6, 10, 1}, {11, 100, 105}, {40, 3, 0}, {48, 1, 2}, {8, 299, 0}, {3, 20, 300}, {5, -130, 140},
#ifdef THOROUGH
    {13, 4, 0}, {15, 8, 0}, {24, 7, 0}, {30, 1, 3}, {37, 5, 0}, {50, 2, 0}, {62, 0, 1}, {66, 3, 0}, {72, 2, 2}, {96, 0, 2}, {127, 2, 0}, {130, 1, 0}, {191, 1, 0}, {192, 1, 0}, {193, 0, 1}, {255, 2, 0}, {257, 1, 0}, {10, 63, 0}, {1, 200, 0}, {3, -30, 30}, {8, 0, 63}, {300, 3, 0}, {512, 1, 0},
#endif
};
#ifdef VAST   // positions beyond 16 bits
SUITE(c16) {
    arr<packed_array<LW<8>, 8999, 0>>(); arr<packed_array<BW<70, true>, -3, 1000>>();
}
#else
SUITE(c16) {
    sweep([]<int w>() {   // every element width up to 72
        constexpr int n = 1 + w * 7 % 5, lo = w % 4 == 1 ? w % 11 - 5 : 0, hi = lo + n;
        if constexpr (w <= 72) arr<packed_array<VW<w, (w >> 1) & 1, w % 3 != 0>, w % 2 ? hi : lo, w % 2 ? lo : hi>>();
    });
    each<SHAPES>([]<size_t I>() {
        constexpr int w = SHAPES[I][0], m = SHAPES[I][1], l = SHAPES[I][2];
        constexpr bool s = I % 2;
        arr<packed_array<LW<w, s>, m, l>>(); arr<packed_array<BW<w, !s>, m, l>>();
        if constexpr (I % 3 == 0) { arr<packed_array<LW<w, !s>, l, m>>(); arr<packed_array<L<w + 2, 3, s>, m, l>>(); }
        if constexpr (I % 5 == 1 || thorough) { arr<packed_array<packed_array<LW<w, s>, 1, 0>, m, l>>(); arr<packed_array<packed_array<BW<w, s>, 0, 2>, m, l>>(); }
        if constexpr (I % 7 == 3) arr<packed_array<packed_array<packed_array<LW<w>, 1, 0>, 2, 1>, m, l>>();
    });
}
#endif
