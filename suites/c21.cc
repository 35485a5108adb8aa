#include "hist.hh"
// Two variables with guards around them. Whatever is not named as the destination keeps every byte.
template <class X, class Y> struct Frame {
    uint64_t g0[2]; X a; uint64_t g1[2]; Y b; uint64_t g2[2];
};
template <class F> struct Watch {
    const F *f;
    unsigned char was[sizeof(F)];
    explicit Watch(const F &f_) : f(&f_) { std::memcpy(was, &f_, sizeof(F)); }
    // p, n: the object that may have changed
    bool ok(const void *p = nullptr, size_t n = 0) const {
        auto now = reinterpret_cast<const unsigned char *>(f);
        for (size_t i = 0; i < sizeof(F); i++) {
            if (p && now + i >= p && now + i < static_cast<const unsigned char *>(p) + n) continue;
            if (now[i] != was[i]) return false;
        }
        return true;
    }
};
template <class X, class Y> void setup(Ctx &c, Frame<X, Y> &f, MV &a, MV &b, bool amount = false) {
    std::memset(static_cast<void *>(&f), 0, sizeof f);
    for (auto *g : {f.g0, f.g1, f.g2}) { g[0] = 0xA5A5A5A5A5A5A5A5ull; g[1] = c.next(); }
    mv::gen_value(c, a, ty<X>(), -1);
    mv::gen_value(c, b, ty<Y>(), -1, &a);
    if (amount && c.below(4)) { b.clear(); b.w = int(Y::size); b.is4 = Y::is_4state; b.v[0] = c.below(uint64_t(X::size) + 2); b.mask(); }
    new (&f.a) X; new (&f.b) Y;
    load(f.a, a); load(f.b, b);
    c.digest = mv::hmix(mv::hmix(a.v[0], a.m[0]), mv::hmix(b.v[0], b.m[0]));
    c.trace = a.str() + ", " + b.str();
}
// where the result of an assignment is
template <class T> const void *addr(T &&t) { return static_cast<const void *>(&t); }
template <class X> struct base_of;
template <int a, int b, bool s, bool arr> struct base_of<::logic::logic<a, b, s, arr>> { static constexpr int value = b < a ? b : a; };
template <int a, int b, bool s, bool arr> struct base_of<::logic::bit<a, b, s, arr>> { static constexpr int value = b < a ? b : a; };
inline MV cap(bool b) { MV m; m.w = 1; m.v[0] = b; return m; }
template <class X> MV cap(const X &x) { MV m; store(x, m); return m; }
static bool eq(Ctx &c, const MV &p, const MV &q, const char *what) {
    c.steps++;
    if (p.same_bits(q)) return true;
    c.fail(std::string(what) + ": " + p.str() + " and " + q.str());
    return false;
}
static void must(Ctx &c, bool ok, const char *what) { c.steps++; if (!ok) c.fail(what); }

// a non-modifying operation: operands untouched, the same answer again, the same answer from copies, also when
// both operands are the same object
template <class T, class X, class Y> void f_two(Ctx &c) {
    Frame<X, Y> f;
    MV a, b;
    setup(c, f, a, b, T::op == Op::SHL || T::op == Op::SHR || T::op == Op::ASHL || T::op == Op::ASHR);
    Watch<Frame<X, Y>> w(f);
    MV r = cap(T::f(f.a, f.b));
    must(c, w.ok(), "an operand or its surroundings changed");
    eq(c, cap(T::f(f.a, f.b)), r, "the second call differs");
    X ca = f.a; Y cb = f.b;
    eq(c, cap(T::f(ca, cb)), r, "copies give another answer");
    if constexpr (std::is_same_v<X, Y>) {
        X other = f.a;
        MV s = cap(T::f(f.a, other));
        eq(c, cap(T::f(f.a, f.a)), s, "an operand used twice gives another answer than its copy");
        must(c, w.ok(), "an operand used twice changed");
    }
}
template <class T, class X> void f_one(Ctx &c) {
    Frame<X, X> f;
    MV a, b;
    setup(c, f, a, b);
    Watch<Frame<X, X>> w(f);
    MV r = cap(T::f(f.a));
    must(c, w.ok(), "the operand or its surroundings changed");
    MV q = cap(T::f(f.b));
    eq(c, cap(T::f(f.a)), r, "the second call differs");
    X ca = f.b;
    eq(c, cap(T::f(ca)), q, "a copy gives another answer");
    must(c, w.ok(), "an operand or its surroundings changed");
}
// the readers of one value
template <class X> void f_reads(Ctx &c) {
    Frame<X, X> f;
    MV a, b;
    setup(c, f, a, b);
    Watch<Frame<X, X>> w(f);
    constexpr int n = int(X::size), h = n > 1 ? n / 2 : 0, Z = base_of<X>::value;
    int i = Z + int(c.below(uint64_t(n) + 4)) - 2;
    for (const char *s : {"b", "h", "o", "d", "s", "0d", "17h", "70d"}) {
        if (*s == 's' && a.has_xz()) continue;
        std::string t = f.a.str(s);
        must(c, w.ok(), "formatting changed the value");
        f.b.str("h");
        must(c, f.a.str(s) == t, "formatting again gives another text");
        must(c, X(f.a).str(s) == t, "a copy formats differently");
    }
    eq(c, cap(f.a[i]), cap(f.a[i]), "bit select again");
    eq(c, cap(f.a.get(f.a)), cap(f.a.get(X(f.a))), "select by its own value");
    eq(c, cap(f.a.template slice<Z + n - 1, Z + h>()), cap(f.a.template slice<Z + n - 1, Z + h>()), "part select again");
    eq(c, cap(f.a.template slice<h + 1>(i, i + h)), cap(f.a.template slice<h + 1>(i, i + h)), "run-time part select again");
    eq(c, cap(f.a.template slice<h + 1, true>(f.a)), cap(f.a.template slice<h + 1, true>(X(f.a))), "indexed part select by its own value");
    eq(c, cap(f.a.template extend<n + 65>()), cap(X(f.a).template extend<n + 65>()), "extension of a copy");
    eq(c, cap(f.a.concat(f.a)), cap(f.a.concat(X(f.a))), "concatenation with itself");
    eq(c, cap(::logic::concat(f.a, f.b, f.a)), cap(::logic::concat(X(f.a), X(f.b), X(f.a))), "concatenation of copies");
    must(c, f.a.to_uint64() == f.a.to_uint64(), "conversion to a number again");
    must(c, w.ok(), "a reading operation changed its operand or its surroundings");
}
// an operation that modifies exactly f.a
template <class X, class Y> struct Mod {
    using W = Watch<Frame<X, Y>>;
    template <class G> static void one(Ctx &c, const char *what, G g) {
        Frame<X, Y> f;
        MV a, b;
        setup(c, f, a, b, true);
        W w(f);
        X ca = f.a; Y cb = f.b;
        X copy = f.a;
        g(f.a, f.b);
        c.trace = std::string(what) + ": " + c.trace;
        must(c, w.ok(&f.a, sizeof f.a), "something else than the destination changed");
        eq(c, cap(copy), a, "a copy made before changed with its source");
        g(ca, cb);
        eq(c, cap(ca), cap(f.a), "the same write to a copy differs");
        eq(c, cap(cb), b, "the source changed");
        f.a = copy;   // and back
        must(c, w.ok(), "assigning the copy back does not restore the value");
    }
};
template <class T, class X, class Y> void f_comp(Ctx &c) {
    Mod<X, Y>::one(c, mv::op_name(T::op), [](X &a, const Y &b) {
        if constexpr (T::op == Op::ANDE) a &= b;
        if constexpr (T::op == Op::ORE) a |= b;
        if constexpr (T::op == Op::XORE) a ^= b;
        if constexpr (T::op == Op::SHLE) a <<= b;
        if constexpr (T::op == Op::SHRE) a >>= b;
    });
}
template <class T, class X> void f_self(Ctx &c) {   // a op= a
    Frame<X, X> f;
    MV a, b;
    setup(c, f, a, b);
    Watch<Frame<X, X>> w(f);
    X ca = f.a;
    const X src = f.a;
    const void *r = nullptr;
    auto go = [&](X &d, const X &s) {
        if constexpr (T::op == Op::ANDE) r = addr(d &= s);
        if constexpr (T::op == Op::ORE) r = addr(d |= s);
        if constexpr (T::op == Op::XORE) r = addr(d ^= s);
        if constexpr (T::op == Op::SHLE) r = addr(d <<= s);
        if constexpr (T::op == Op::SHRE) r = addr(d >>= s);
    };
    go(ca, src);
    go(f.a, f.a);
    must(c, r == &f.a, "the result is not the destination itself");
    {
        X x = f.a;
        must(c, addr(x = src) == &x && addr(x = uint64_t{5}) == &x, "the result of an assignment is not the destination itself");
    }
    eq(c, cap(f.a), cap(ca), "with itself as the source");
    must(c, w.ok(&f.a, sizeof f.a), "something else than the destination changed");
}
template <class X> void f_step(Ctx &c) {
    bool known = true;
    Frame<X, X> f;
    MV a, b;
    setup(c, f, a, b);
    (void)known;
    Watch<Frame<X, X>> w(f);
    X ca = f.a;
    switch (c.below(4)) {
        case 0: {
            auto &&r = ++f.a;
            must(c, addr(r) == &f.a, "++ returns another object");
            auto s = ca++;
            eq(c, cap(s), a, "value before ++");
            break;
        }
        case 1: {
            auto &&r = --f.a;
            must(c, addr(r) == &f.a, "-- returns another object");
            auto s = ca--;
            eq(c, cap(s), a, "value before --");
            break;
        }
        case 2: f.a++; ++ca; break;
        default: f.a--; --ca;
    }
    eq(c, cap(f.a), cap(ca), "pre and post forms differ");
    must(c, w.ok(&f.a, sizeof f.a), "something else than the destination changed");
}
// writes, the source being another value or the destination itself
template <class X, class Y> void f_write(Ctx &c) {
    constexpr int n = int(X::size), h = n > 1 ? n / 2 : 0, Z = base_of<X>::value;
    int lo = Z + int(c.below(uint64_t(n))), hi = lo + int(c.below(uint64_t(n) + 3)), i = Z + int(c.below(uint64_t(n) + 2)) - 1;
    bool v = c.below(2);
    using M = Mod<X, Y>;
    uint64_t k = c.below(9);
    if (k == 0) M::one(c, "update(hi,lo)", [=](X &a, const Y &b) { a.update(hi, lo, b); });
    if (k == 1) M::one(c, "update<hi,lo>", [=](X &a, const Y &b) { a.template update<Z + n - 1, Z + h>(b); });
    if (k == 2) M::one(c, "slice_ref(hi,lo)", [=](X &a, const Y &b) { a.slice_ref(hi, lo) = b; });
    if (k == 3) M::one(c, "slice_ref<hi,lo>", [=](X &a, const Y &b) { a.template slice_ref<Z + h, Z>() = b; });
    if (k == 4) M::one(c, "set", [=](X &a, const Y &) { a.set(i, v); });
    if (k == 5) M::one(c, "=", [=](X &a, const Y &b) { a = b; });
    if (k == 6) M::one(c, "= number", [=](X &a, const Y &) { a = uint64_t(lo) * 77777777777ull + uint64_t(hi); });
    if (k == 7) M::one(c, "slice_ref<n>(base)", [=](X &a, const Y &b) { a.template slice_ref<h + 1, true>(b) = b; });
    if (k == 8) M::one(c, "unpack target", [=](X &a, const Y &b) { b.concat(a).unpack(const_cast<Y &>(b), a); });
}
template <class X> void f_write_self(Ctx &c) {
    constexpr int n = int(X::size), h = n > 1 ? n / 2 : 0, Z = base_of<X>::value;
    Frame<X, X> f;
    MV a, b;
    setup(c, f, a, b);
    Watch<Frame<X, X>> w(f);
    int lo = Z + int(c.below(uint64_t(n))), hi = lo + int(c.below(uint64_t(n) + 3));
    uint64_t k = c.below(10);
    auto go = [=](X &d, const X &s) {
        switch (k) {
            case 0: d.update(hi, lo, s); break;
            case 1: d.template update<Z + n - 1, Z + h>(s); break;
            case 2: d.slice_ref(hi, lo) = s; break;
            case 3: d.template slice_ref<Z + n - 1, Z + h>() = s; break;
            case 4: d = s; break;
            case 5: d.template slice_ref<h + 1, true>(s) = s; break;
            case 6: d.template slice_ref<h + 1, false>(s) = s; break;
            case 7: if constexpr (Z == 0) s.unpack(d); break;
            case 8: d.set(lo, static_cast<bool>(s[2 * Z + n - 1 - lo].match(decltype(s[0])(false)))); break;
            default: d.template update<Z + n - 1, Z + n - 1 - h>(s);
        }
    };
    X ca = f.a;
    const X src = f.a;
    go(ca, src);
    go(f.a, f.a);
    c.trace = "write " + num(int64_t(k)) + " [" + num(hi) + ":" + num(lo) + "] of " + c.trace + " from itself";
    eq(c, cap(f.a), cap(ca), "with itself as the source");
    must(c, w.ok(&f.a, sizeof f.a), "something else than the destination changed");
}
static void rg(const std::string &name, mv::Fn f, double w = 1) { Entry e; e.name = name; e.op = Op::CUSTOM; e.fn = f; e.weight = w; reg(e); }
template <class T, class X, class Y> void two() { rg("VALUE " + nm(T::op, {ty<X>(), ty<Y>()}), &f_two<T, X, Y>); }
template <class T, class X> void one() { rg("VALUE " + nm(T::op, {ty<X>()}), &f_one<T, X>); }
template <class T, class X, class Y> void comp() { rg("DEST " + nm(T::op, {ty<X>(), ty<Y>()}), &f_comp<T, X, Y>); }
template <class T, class X> void self() { rg("SELF " + nm(T::op, {ty<X>()}), &f_self<T, X>); }
template <class X, class Y> void both() {
    two<T_AND, X, Y>(); two<T_OR, X, Y>(); two<T_XOR, X, Y>(); two<T_ADD, X, Y>(); two<T_SUB, X, Y>(); two<T_MUL, X, Y>(); two<T_DIV, X, Y>(); two<T_MOD, X, Y>();
    two<T_EQ, X, Y>(); two<T_NE, X, Y>(); two<T_LT, X, Y>(); two<T_LE, X, Y>(); two<T_GT, X, Y>(); two<T_GE, X, Y>(); two<T_SHL, X, Y>(); two<T_SHR, X, Y>();
    if constexpr (X::is_4state == Y::is_4state) {
        two<T_MATCH, X, Y>(); two<T_NMATCH, X, Y>(); two<T_ASHL, X, Y>(); two<T_ASHR, X, Y>();
        comp<T_ANDE, X, Y>(); comp<T_ORE, X, Y>(); comp<T_XORE, X, Y>(); comp<T_SHLE, X, Y>(); comp<T_SHRE, X, Y>();
        rg("WRITE " + ty<X>().str() + " from " + ty<Y>().str(), &f_write<X, Y>, 6);
    }
}
template <class X> void single() {
    one<T_NOT, X>(); one<T_RAND, X>(); one<T_RNAND, X>(); one<T_ROR, X>(); one<T_RNOR, X>(); one<T_RXOR, X>(); one<T_RXNOR, X>(); one<T_LNOT, X>(); one<T_BOOL, X>(); one<T_NEG, X>(); one<T_TOS, X>(); one<T_TOU, X>();
    self<T_ANDE, X>(); self<T_ORE, X>(); self<T_XORE, X>(); self<T_SHLE, X>(); self<T_SHRE, X>();
    rg("READS " + ty<X>().str(), &f_reads<X>, 2);
    rg("STEP " + ty<X>().str(), &f_step<X>, 2);
    rg("WRITE SELF " + ty<X>().str(), &f_write_self<X>, 6);
}
constexpr int TYPES[][2] = {
    {1, 1}, {4, 2}, {8, 8}, {3, 20}, {16, 16}, {17, 9}, {31, 32}, {32, 32}, {40, 40}, {63, 63}, {64, 64}, {64, 65}, {65, 64}, {65, 65}, {66, 8}, {100, 100}, {1, 128}, {128, 128}, {129, 33}, {192, 192}, {200, 200}, {300, 257}, {512, 512},
#ifdef THOROUGH
    {2, 2}, {5, 5}, {12, 64}, {20, 20}, {24, 48}, {33, 33}, {48, 50}, {64, 20}, {72, 12}, {96, 96}, {127, 127}, {160, 100}, {191, 192}, {193, 193}, {255, 255}, {256, 256}, {320, 64}, {640, 640}, {1000, 1000},
#endif
};
SUITE(c21) {
    each<TYPES>([]<size_t I>() {
        constexpr int a = TYPES[I][0], b = TYPES[I][1];
        constexpr bool s = I % 2;
        both<LW<a, s>, LW<b, s>>(); both<BW<a, !s>, BW<b, !s>>();
        if constexpr (a != b) both<LW<b, s>, LW<a, !s>>();
        if constexpr (I % 3 == 0 || thorough) both<LW<a, !s>, BW<b, s>>();
        single<LW<a, s>>(); single<BW<a, !s>>();
        if constexpr (I % 3 == 1 || thorough) { single<L<a + 3, 4, s>>(); single<B<a - 8, -7, s>>(); }
        if constexpr (I % 4 == 2 || thorough) { both<L<a + 3, 4, s>, LW<b, s>>(); both<BW<b, s>, B<a - 8, -7, s>>(); }
        if constexpr (I % 2 || thorough) { single<LW<a, !s>>(); single<BW<a, s>>(); }
    });
    cross([]<class X, class Y>() { both<X, Y>(); });
}
