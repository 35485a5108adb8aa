#include "hist.hh"
using ::logic::packed_array;
using ::logic::packed_struct;
using ::logic::union_;
using ::logic::unpacked_array;

// ---- unpacked arrays ------------------------------------------------------------------
// element traits: width, kind, contents to and from a bit vector
template <class T> struct El {
    static constexpr int w = int(T::size);
    static constexpr bool is4 = T::is_4state;
    static void get(const T &t, MV &m) { store(t, m); }
    static T mk(const MV &m) { return make<T>(m); }
    static std::string name() {
        if constexpr (requires { T::base_size; }) return "packed " + num(w) + (is4 ? " logic" : " bit");
        else return ty<T>().str();
    }
};
template <class T, int m, int l> struct El<unpacked_array<T, m, l>> {
    using A = unpacked_array<T, m, l>;
    static constexpr int n = (m > l ? m - l : l - m) + 1, ew = El<T>::w, w = n * ew, lo = m < l ? m : l;
    static constexpr bool is4 = El<T>::is4;
    static void get(const A &a, MV &o) {
        o.clear(); o.w = w; o.is4 = is4;
        for (int i = 0; i < n; i++) {
            MV e;
            El<T>::get(a[lo + i], e);
            for (int j = 0; j < ew; j++) o.set(i * ew + j, e.get(j));
        }
    }
    static A mk(const MV &o) {
        A a;
        for (int i = 0; i < n; i++) a.value[size_t(i)] = El<T>::mk(mv::mv_slice(o, i * ew, ew, is4));
        return a;
    }
    static std::string name() { return "unpacked[" + num(m) + ":" + num(l) + "] of " + El<T>::name(); }
};
template <class T, int m, int l> struct UHist {
    using A = unpacked_array<T, m, l>;
    using E = El<T>;
    static constexpr int lo = m < l ? m : l, hi = m < l ? l : m, n = hi - lo + 1, shown = n > 24 ? 24 : n;
    // a static store at position P - 1, so that both neighbours of the range are stored to as well
    template <size_t P> static void put_at(A &a, const T &v) {
        if constexpr (P <= size_t(shown) / 2 + 1) a.template update<lo - 1 + int(P)>(v);
        else a.template update<hi + 1 - (shown + 1 - int(P))>(v);
    }
    static int at(size_t P) { return P <= size_t(shown) / 2 + 1 ? lo - 1 + int(P) : hi + 1 - (shown + 1 - int(P)); }
    template <size_t... P> static void dispatch(size_t p, A &a, const T &v, std::index_sequence<P...>) { ((P == p ? put_at<P>(a, v) : void()), ...); }
    static void far(Ctx &c, A &a, const T &v) {
        switch (c.below(5)) {
            case 0: a.template update<lo - 64>(v); break;
            case 1: a.template update<hi + 64>(v); break;
            case 2: a.template update<2000000000>(v); break;
            case 3: a.template update<-2000000000>(v); break;
            default: a.template update<hi + 2>(v);
        }
    }
    static MV dflt() {
        MV d = mv::mv_slice(MV{}, -100000, E::w, E::is4);
        return d;
    }
    static void check(Ctx &c, const A &a, const std::vector<MV> &model) {
        MV g, d = dflt();
        for (int k = 0; k < n; k++) {
            c.steps++;
            E::get(a[lo + k], g);
            if (!g.same_bits(model[size_t(k)])) { c.fail("element [" + num(lo + k) + "] is " + g.str() + " expected " + model[size_t(k)].str()); return; }
        }
        for (int q = 0; q < 3; q++) {
            int64_t k = q == 0 ? lo - 1 : q == 1 ? hi + 1 : mv::gen_index(c, TypeD{hi, lo, false, false});
            if (k >= lo && k <= hi) continue;
            c.steps++;
            E::get(a[int(k)], g);
            if (!g.same_bits(d)) { c.fail("element [" + num(k) + "] outside the bounds is " + g.str() + " expected " + d.str()); return; }
        }
    }
    static void run(Ctx &c) {
        A a, b;
        std::vector<MV> ma(size_t(n), dflt()), mb = ma;
        check(c, a, ma);
        if (!c.anomaly.empty()) { c.fail("default array: " + c.anomaly); return; }
        for (int step = 0; step < 10 && c.anomaly.empty(); step++) {
            MV v = gen(c, TypeD{E::w - 1, 0, false, E::is4});
            c.steps++;
            switch (c.below(6)) {
                case 0: far(c, a, E::mk(v)); c.trace += "; store far outside"; break;
                case 1: b = a; mb = ma; c.trace += "; copy"; break;
                case 2: a = b; ma = mb; c.trace += "; restore"; break;
                case 3: {   // element to element, through the references the reads return
                    size_t p = c.below(size_t(shown) + 2);
                    int k = lo + int(c.below(uint64_t(n) + 1));
                    dispatch(p, a, a[k], std::make_index_sequence<size_t(shown) + 2>{});
                    MV src = k > hi ? dflt() : ma[size_t(k - lo)];
                    if (at(p) >= lo && at(p) <= hi) ma[size_t(at(p) - lo)] = src;
                    c.trace += "; [" + num(at(p)) + "]=[" + num(k) + "]";
                    c.digest = mv::hmix(c.digest, p * 977 + uint64_t(k));
                    break;
                }
                default: {
                    size_t p = c.below(size_t(shown) + 2);
                    dispatch(p, a, E::mk(v), std::make_index_sequence<size_t(shown) + 2>{});
                    if (at(p) >= lo && at(p) <= hi) ma[size_t(at(p) - lo)] = v;
                    c.trace += "; [" + num(at(p)) + "]=" + v.str();
                    c.digest = mv::hmix(mv::hmix(c.digest, p), v.v[0]);
                }
            }
            check(c, a, ma);
        }
        if (c.anomaly.empty()) { check(c, b, mb); if (!c.anomaly.empty()) c.anomaly = "copy: " + c.anomaly; }
    }
};
template <class T, int m, int l> void uarr() {
    Entry e;
    e.name = El<unpacked_array<T, m, l>>::name();
    e.op = Op::CUSTOM;
    e.fn = &UHist<T, m, l>::run;
    reg(e);
}
constexpr int SHAPES[][3] = {
    {8, 3, 0}, {1, 0, 7}, {5, 9, 0}, {16, 4, 7}, {31, 7, 4}, {32, 2, 0}, {33, 0, 0}, {63, -1, -4}, {64, 3, 0}, {65, 3, 0}, {100, -2, 2}, {20, 2, -2}, {128, 1, 0}, {200, 0, 5}, {7, 100, 103}, {12, 63, 0}, {3, 0, 99}, {9, -50, -60}, {8, 299, 0}, {66, -150, 130}, {2, -600, 400},
#ifdef THOROUGH
    {2, 15, 0}, {17, 31, 0}, {24, 0, 31}, {48, 5, 1}, {50, 1, 5}, {66, 8, 3}, {96, -10, 10}, {127, 3, 3}, {129, 2, 1}, {191, 0, 1}, {256, 1, 0}, {300, 4, 0}, {1000, 2, 0}, {10, 255, 0},
#endif
};

// ---- packed overlays ------------------------------------------------------------------
// members of a packed struct or union, possibly overlapping: {hi, lo}
struct M { int hi, lo; };
// by default of N - 100 bits
template <int N> struct Layout {
    static constexpr int w = N - 100;
    static constexpr M m[] = {{w - 1, w / 2}, {w / 2, 0}, {w * 2 / 3, w / 3}, {w - 1, w - 1}, {w - 1, 0}};
};
#define LAYOUT(N, W, ...) template <> struct Layout<N> { static constexpr int w = W; static constexpr M m[] = {__VA_ARGS__}; };
LAYOUT(0, 10, {4, 0}, {9, 5})
LAYOUT(1, 16, {15, 0}, {7, 0}, {15, 8}, {11, 4})
LAYOUT(2, 1, {0, 0})
LAYOUT(3, 32, {31, 31}, {30, 23}, {22, 0}, {31, 0})
LAYOUT(4, 64, {63, 63}, {62, 52}, {51, 0}, {63, 32}, {31, 0}, {40, 20})
LAYOUT(5, 65, {64, 64}, {63, 0}, {64, 1}, {33, 31})
LAYOUT(6, 100, {99, 70}, {69, 64}, {63, 60}, {59, 0}, {99, 0}, {66, 61})
LAYOUT(7, 128, {127, 64}, {63, 0}, {95, 32}, {127, 127}, {0, 0})
LAYOUT(8, 130, {129, 128}, {127, 1}, {0, 0}, {129, 64}, {63, 63})
LAYOUT(9, 192, {191, 128}, {127, 64}, {63, 0}, {130, 60}, {191, 190})
LAYOUT(10, 256, {255, 192}, {191, 0}, {200, 100}, {64, 63})
LAYOUT(11, 300, {299, 299}, {298, 257}, {256, 100}, {99, 0}, {260, 250})
LAYOUT(12, 8, {7, 7}, {6, 4}, {3, 1}, {0, 0}, {7, 0})
LAYOUT(13, 512, {511, 256}, {255, 0}, {300, 200}, {511, 448}, {447, 1})
LAYOUT(14, 33, {32, 32}, {31, 0}, {32, 1}, {16, 15})
LAYOUT(15, 63, {62, 62}, {61, 31}, {30, 0}, {62, 0})
constexpr int LAYOUTS[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15};

template <class V, class LY, bool is4> struct PHist {
    static constexpr size_t n = std::size(LY::m);
    template <size_t I> static void write(Ctx &c, V &v, MV &model) {
        constexpr int hi = LY::m[I].hi, lo = LY::m[I].lo, w = hi - lo + 1;
        auto go = [&]<int sw, bool s>() {
            MV k = gen(c, TypeD{sw - 1, 0, s, is4});
            auto x = make<VW<sw, s, is4>>(k);
            switch (c.below(3)) {
                case 0: v.template update<hi, lo>(x); break;
                case 1: v.template slice_ref<hi, lo>() = x; break;
                default: v.update(hi, lo, x);
            }
            for (int i = 0; i < w; i++) model.set(lo + i, i < sw ? k.get(i) : 0);
            c.trace += "; [" + num(hi) + ":" + num(lo) + "]=" + k.str();
            c.digest = mv::hmix(mv::hmix(c.digest, I), k.v[0] + k.m[0] * 3);
        };
        switch (c.below(3)) {
            case 0: go.template operator()<w, false>(); break;
            case 1: go.template operator()<w + 5, true>(); break;
            default: go.template operator()<(w + 1) / 2, false>();
        }
    }
    template <size_t I> static void read(Ctx &c, const V &v, const MV &model) {
        constexpr int hi = LY::m[I].hi, lo = LY::m[I].lo;
        if (!c.anomaly.empty()) return;
        MV want = mv::mv_slice(model, lo, hi - lo + 1, is4);
        EXPECT(c, (v.template slice<hi, lo>()), want, "member [" + num(hi) + ":" + num(lo) + "]");
    }
    static void all(Ctx &c, const V &v, const MV &model) {
        EXPECT(c, v, model, "overlay");
        [&]<size_t... I>(std::index_sequence<I...>) { (read<I>(c, v, model), ...); }(std::make_index_sequence<n>{});
    }
    static void run(Ctx &c) {
        if constexpr (V::size != LY::w || V::is_4state != is4 || V::is_signed || !V::big_endian) c.fail("type is " + ty<V>().str() + ", not the declared width and kind");
        else history(c);
    }
    static void history(Ctx &c) {
        V v, other;
        MV model = mv::mv_slice(MV{}, -100000, LY::w, is4), om = model;
        all(c, v, model);
        for (int step = 0; step < 14 && c.anomaly.empty(); step++) {
            c.steps++;
            switch (c.below(12)) {
                case 0: { MV k = gen(c, ty<V>()); v = make<VW<LY::w, false, is4>>(k); model = k; c.trace += "; all=" + k.str(); c.digest = mv::hmix(c.digest, k.v[0]); break; }
                case 1: other = v; om = model; c.trace += "; copy"; break;
                case 2: v = other; model = om; c.trace += "; restore"; break;
                default: {
                    size_t i = c.below(n);
                    [&]<size_t... I>(std::index_sequence<I...>) { ((I == i ? write<I>(c, v, model) : void()), ...); }(std::make_index_sequence<n>{});
                }
            }
            all(c, v, model);
        }
        if (c.anomaly.empty()) all(c, other, om);
    }
};
template <class V, class LY, bool is4> void overlay(const char *what) {
    Entry e;
    e.name = std::string(what) + " " + num(LY::w) + (is4 ? " logic" : " bit");
    e.op = Op::CUSTOM;
    e.fn = &PHist<V, LY, is4>::run;
    reg(e);
}
SUITE(c17) {
    sweep([]<int w>() {
        constexpr int lo = w % 4 == 1 ? w % 11 - 5 : 0, hi = lo + w % 5;
        if constexpr (w <= 72) uarr<VW<w, (w >> 1) & 1, w % 3 != 0>, w % 2 ? hi : lo, w % 2 ? lo : hi>();
        using LY = Layout<100 + w>;
        if constexpr (w % 4 == 0) overlay<typename packed_struct<w>::type, LY, true>("packed struct");
        if constexpr (w % 4 == 1) overlay<typename packed_struct<w, false>::type, LY, false>("packed struct");
        if constexpr (w % 4 == 2) overlay<typename union_<w>::type, LY, true>("union");
        if constexpr (w % 4 == 3) overlay<typename union_<w, false>::type, LY, false>("union");
    });
    each<SHAPES>([]<size_t I>() {
        constexpr int w = SHAPES[I][0], m = SHAPES[I][1], l = SHAPES[I][2];
        constexpr bool s = I % 2;
        uarr<LW<w, s>, m, l>(); uarr<BW<w, !s>, m, l>();
        if constexpr (I % 3 == 0) { uarr<packed_array<LW<w>, 2, 0>, m, l>(); uarr<packed_array<BW<w>, 0, 1>, l, m>(); uarr<L<w + 3, 4, s>, l, m>(); }
        if constexpr (I % 4 == 1) { uarr<unpacked_array<LW<w>, 1, 3>, m, l>(); uarr<unpacked_array<BW<w, s>, 2, 0>, m, l>(); }
    });
    each<LAYOUTS>([]<size_t I>() {
        using LY = Layout<LAYOUTS[I]>;
        overlay<typename packed_struct<LY::w>::type, LY, true>("packed struct");
        overlay<typename packed_struct<LY::w, false>::type, LY, false>("packed struct");
        overlay<typename union_<LY::w>::type, LY, true>("union");
        overlay<typename union_<LY::w, false>::type, LY, false>("union");
    });
}
