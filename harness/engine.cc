// Case generation, comparison with the reference model, crash/hang supervision, statistics.
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <cctype>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include <thread>
#include "mv.hh"

namespace mv {

// ------------------------------------------------------------------ generators
void gen_value(Ctx &r, MV &o, const TypeD &t, int xzmode, const MV *rel) {
    o.clear();
    o.w = t.w(); o.sgn = t.sgn; o.is4 = t.is4;
    int w = o.w;
    auto ones = [&](int lo, int n) { for (int i = lo; i < lo + n && i < w; i++) if (i >= 0) o.set(i, 1); };
    auto edge = [&]() -> int {   // an interesting bit position
        switch (r.below(6)) {
            case 0: return 0;
            case 1: return w - 1;
            case 2: { int k = int(r.below(uint64_t(w / 64 + 1))) * 64 + int(r.below(3)) - 1; return std::clamp(k, 0, w - 1); }
            case 3: return w > 1 ? w - 2 : 0;
            default: return int(r.below(uint64_t(w)));
        }
    };
    // words and half words that carries, borrows, estimates and shortcuts are sensitive to
    auto word = [&]() -> uint64_t {
        static const uint64_t p[] = {0, 0, 1, 2, 3, 1ull << 63, (1ull << 63) - 1, (1ull << 63) + 1, ~0ull, ~0ull, ~0ull - 1,
                                     1ull << 32, (1ull << 32) - 1, ~0ull << 32, 0x5555555555555555, 0x8000000080000000, 0x7fffffffffffffffull << 1};
        uint64_t k = r.below(20);
        return k < 17 ? p[k] : r.next() >> (k == 19 ? r.below(64) : 0);
    };
    auto half = [&]() -> uint64_t {
        static const uint64_t p[] = {0, 0, 1, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff};
        uint64_t k = r.below(10);
        return k < 8 ? p[k] : r.next() & 0xffffffff;
    };
    auto copy = [&]() { for (int i = 0; i < o.words(); i++) o.v[i] = rel->v[i]; };
    int const n = o.words();
    switch (r.below(rel ? 26 : 19)) {
        case 0: break;                                             // zero
        case 1: ones(0, w); break;                                 // all ones
        case 2: o.set(0, 1); break;                                // one
        case 3: o.set(w - 1, 1); break;                            // most negative
        case 4: ones(0, w - 1); break;                             // most positive
        case 5: o.set(edge(), 1); break;
        case 6: ones(0, edge() + 1); break;
        case 7: { int k = edge(); ones(k, w - k); break; }
        case 8: { uint64_t k = r.below(20); o.v[0] = k; break; }   // small
        case 9: { o.v[0] = r.next() >> r.below(64); if (r.below(2)) { for (int i = 1; i < n; i++) o.v[i] = ~0ull; } break; }
        case 10: { int a = edge(), m = 1 + int(r.below(70)); ones(a, m); break; }
        case 11: { for (int i = 0; i < n; i++) o.v[i] = r.below(2) ? ~0ull : 0; break; }
        case 12: { ones(0, w); o.set(edge(), 0); break; }
        case 13: {
            switch (r.below(4)) {
                case 0: for (int i = 0; i < n; i++) o.v[i] = r.next() & r.next() & r.next(); break;
                case 1: { uint64_t k = word(); for (int i = 0; i < n; i++) o.v[i] = k; break; }        // repeated
                case 2: { o.v[r.below(uint64_t(n))] = word(); o.v[r.below(uint64_t(n))] = word(); break; }
                default: {                                                                           // d * 10^k +- small
                    o.v[0] = 1 + r.below(r.below(2) ? 9 : 999);
                    uint64_t k = r.below(uint64_t(w * 0.30103) + 1);
                    for (uint64_t j = 0; j < k; j++) {
                        unsigned __int128 c = 0;
                        for (int i = 0; i < n; i++) { c += (unsigned __int128)o.v[i] * 10; o.v[i] = uint64_t(c); c >>= 64; }
                    }
                    uint64_t d = r.below(3);
                    if (d == 1) { uint64_t k2 = r.below(1000); o.v[0] += k2; if (o.v[0] < k2) for (int i = 1; i < n; i++) if (++o.v[i]) break; }
                    else if (d == 2) { for (int i = 0; i < n; i++) if (o.v[i]--) break; }
                }
            }
            break;
        }
        case 14: for (int i = 0; i < n; i++) o.v[i] = word(); break;
        case 15: for (int i = 0; i < n; i++) o.v[i] = half() | half() << 32; break;
        case 19: case 20: {   // equal to the other operand, perhaps resized
            copy();
            if (rel->sgn && rel->get(rel->w - 1) == 1) ones(rel->w, w);
            break;
        }
        case 21: {            // one away
            copy();
            if (r.below(2)) { for (int i = 0; i < n; i++) if (++o.v[i]) break; }
            else { for (int i = 0; i < n; i++) if (o.v[i]--) break; }
            break;
        }
        case 22: {            // one bit away / complement
            copy();
            if (r.below(3)) o.v[size_t(edge() / 64)] ^= 1ull << r.below(64);
            else for (int i = 0; i < n; i++) o.v[i] = ~o.v[i];
            break;
        }
        case 23: {            // the same difference in two words, in opposite directions in two words, words swapped
            copy();
            size_t i = r.below(uint64_t(n)), j = r.below(uint64_t(n));
            uint64_t k = r.below(2) ? 1ull << r.below(64) : r.next();
            switch (r.below(3)) {
                case 0: if (i != j) { o.v[i] ^= k; o.v[j] ^= k; } break;
                case 1: if (i != j) { o.v[i] += k; o.v[j] -= k; } break;
                default: std::swap(o.v[i], o.v[j]);
            }
            break;
        }
        case 24: {            // the negative of the other operand
            copy();
            for (int i = 0; i < n; i++) o.v[i] = ~o.v[i];
            for (int i = 0; i < n; i++) if (++o.v[i]) break;
            break;
        }
        case 25: {            // the other operand moved by some bits
            int k = int(r.below(uint64_t(w))), up = int(r.below(2));
            for (int i = 0; i < w; i++) {
                int from = up ? i - k : i + k;
                if (from >= 0 && from < rel->w && (rel->get(from) & 1)) o.set(i, 1);
            }
            break;
        }
        default: for (int i = 0; i < n; i++) o.v[i] = r.next();
    }
    o.mask();
    if (!t.is4 || xzmode == 0) return;
    uint64_t k = r.below(16);
    if (xzmode < 0 && k < 6) return;
    switch (k) {
        case 6: o.set(edge(), 2); break;
        case 7: o.set(edge(), 3); break;
        case 8: for (int i = 0; i < w; i++) o.set(i, 2); break;
        case 9: for (int i = 0; i < w; i++) o.set(i, 3); break;
        case 10: o.set(w - 1, 2 + int(r.below(2))); break;
        case 11: { int p = edge(); for (int i = p; i < w; i++) o.set(i, 2 + int(r.below(2))); break; }
        case 12: { int p = edge(); for (int i = 0; i <= p; i++) o.set(i, 2 + int(r.below(2))); break; }
        case 13: { for (int i = 0; i < o.words(); i++) o.m[i] = r.next() & r.next() & r.next(); break; }
        case 14: { int i = int(r.below(uint64_t(o.words()))); o.m[i] = r.below(2) ? ~0ull : r.next(); break; }
        default: { for (int i = 0; i < o.words(); i++) o.m[i] = r.next(); }
    }
    o.mask();
}

int64_t gen_index(Ctx &r, const TypeD &t) {
    switch (r.below(12)) {
        case 0: return t.lo();
        case 1: return t.hi();
        case 2: return t.lo() - 1;
        case 3: return t.hi() + 1;
        case 4: return t.lo() + int64_t(r.below(uint64_t(t.w()))) / 64 * 64 + int64_t(r.below(3)) - 1;
        case 5: {
            static const int64_t far[] = {INT32_MIN, INT32_MAX, -64, 64, 1 << 30, -(1 << 30), 4096, -4096, INT32_MAX - 1, 65536};
            return far[r.below(10)];
        }
        default: return t.lo() + int64_t(r.below(uint64_t(t.w())));
    }
}

std::string gen_literal(Ctx &r, const TypeD &t) {
    static const char bases[] = "bodhBODH";
    std::string s;
    int w = t.w();
    if (r.below(8) == 0) {     // raw string
        size_t n = r.below(4) == 0 ? r.below(200) : r.below(uint64_t(w / 8 + 3));
        for (size_t i = 0; i < n; i++) {
            char c = char(r.below(5) == 0 ? 128 + r.below(128) : 32 + r.below(95));
            s += c == '\'' ? '"' : c;
        }
        return s;
    }
    char b = bases[r.below(8)];
    char lb = char(tolower(b));
    int k = lb == 'b' ? 1 : lb == 'o' ? 3 : 4;
    int natural = lb == 'd' ? int(w * 0.30103) + 1 : (w + k - 1) / k;
    int n;
    switch (r.below(8)) {
        case 0: n = 1 + int(r.below(3)); break;
        case 1: n = natural + 1 + int(r.below(4)); break;
        case 2: n = natural + int(r.below(80)); break;
        case 3: n = int(r.below(r.below(10) ? 600 : NW > 66 ? 70000 : 2300)) + 1; break;
        case 4: n = (64 / (lb == 'd' ? 3 : k)) * (1 + int(r.below(uint64_t(w / 64 + 2)))) + int(r.below(3)) - 1; break;
        default: n = natural;
    }
    n = std::clamp(n, 1, std::max(NW > 66 ? 70000 : 2300, natural + 80));
    static const char lo[] = "0123456789abcdef", up[] = "0123456789ABCDEF";
    bool xz = t.is4 && lb != 'd' && r.below(2);
    static const uint64_t den[] = {3, 3, 25, 150};
    uint64_t const rare = den[r.below(4)];
    // the digits of an interesting value
    std::string digits;
    if (r.below(4) == 0) {
        MV m;
        TypeD u = t;
        u.sgn = false;
        gen_value(r, m, u, xz && rare == 3 ? -1 : 0);
        if (lb == 'd') std::memset(m.m, 0, sizeof m.m);
        digits = mv_format(m, lb == 'd' ? "0d" : std::string(1, lb));
        size_t z = std::min(digits.find_first_not_of('0'), digits.size() - 1);
        switch (r.below(3)) {
            case 0: digits.erase(0, z); break;
            case 1: digits.insert(0, r.below(70), '0'); break;
        }
        n = int(digits.size());
    }
    // a size, if written, covers the digits
    if (int z = int(r.below(6)); z < 3) s += std::to_string(w);
    else if (z == 3) s += std::to_string(n * (lb == 'd' ? 4 : k) + int(r.below(70)));
    s += '\''; s += b;
    uint64_t us = r.below(3) == 0 ? 1 + r.below(5) : 0;
    uint64_t style = r.below(5);
    uint64_t radix = lb == 'b' ? 2 : lb == 'o' ? 8 : lb == 'd' ? 10 : 16;
    for (int i = 0; i < n; i++) {
        if (i && us && r.below(us + 1) == 0) { s += '_'; if (r.below(8) == 0) s += '_'; }
        if (xz && r.below(rare) == 0) { s += "xzXZ"[r.below(4)]; continue; }
        if (!digits.empty()) { char ch = digits[size_t(i)]; s += r.below(2) ? char(toupper(ch)) : ch; continue; }
        uint64_t d = style == 0 ? radix - 1 : style == 1 ? (i == 0) : style == 2 ? (r.below(8) == 0 ? r.below(radix) : 0) : r.below(radix);
        s += r.below(2) ? lo[d] : up[d];
    }
    if (us && r.below(6) == 0) s += r.below(2) ? "_" : "__";
    return s;
}

// ------------------------------------------------------------------ run state
struct Violation { char entry[160]; uint64_t idx; char kind[16]; char label[64]; char detail[6000]; };
constexpr int MAXVIOL = 60, NSAMPLE = 16;
constexpr uint64_t TABLE = 1ull << 22;
struct Shared {
    std::atomic<uint64_t> seq;
    std::atomic<uint32_t> entry;
    std::atomic<uint64_t> idx;
    uint64_t evaluations, cases, nontrivial, distinct, xz_cases, saturated, exhaustive_entries, entries_done, extra_viol;
    uint64_t concurrent, overlapped, max_in_flight, rounds, orders;   // --threads
    uint64_t mixed; bool mixing;
    uint64_t per_op[80];
    int nviol, nsample;
    Violation viol[MAXVIOL];
    char sample[NSAMPLE][600];
    uint64_t table[TABLE];
};
static Shared *S;
static uint64_t g_seed = 1, g_cases = 300, g_exh = 10;
static double g_scale = 1.0;
static bool g_model = true;    // --no-model: only what the sanitizers and checkers report counts

void tick() { S->seq++; }
uint64_t (*error_count)() = nullptr;
thread_local Ctx *current = nullptr;

static bool insert_digest(uint64_t h) {
    if (h == 0) h = 1;
    if (S->distinct > TABLE * 3 / 4) { S->saturated = 1; return false; }
    for (uint64_t i = h & (TABLE - 1);; i = (i + 1) & (TABLE - 1)) {
        if (S->table[i] == h) return false;
        if (S->table[i] == 0) { S->table[i] = h; S->distinct++; return true; }
    }
}

static void add_violation(const std::string &entry, uint64_t idx, const std::string &kind, const std::string &label, const std::string &detail) {
    // keep one per entry and label so that a noisy entry does not hide others
    for (int i = 0; i < S->nviol; i++)
        if (entry == S->viol[i].entry && label == S->viol[i].label) { S->extra_viol++; return; }
    if (S->nviol >= MAXVIOL) {
        // a violation that isn't explained by a recorded finding must never be crowded out
        if (!label.empty()) { S->extra_viol++; return; }
        for (int i = 0; i < S->nviol; i++)
            if (S->viol[i].label[0]) {
                Violation &v = S->viol[i];
                snprintf(v.entry, sizeof v.entry, "%s", entry.c_str());
                v.idx = idx; v.label[0] = 0;
                snprintf(v.kind, sizeof v.kind, "%s", kind.c_str());
                snprintf(v.detail, sizeof v.detail, "%s", detail.c_str());
                S->extra_viol++;
                return;
            }
        S->extra_viol++;
        return;
    }
    Violation &v = S->viol[S->nviol];
    snprintf(v.entry, sizeof v.entry, "%s", entry.c_str());
    v.idx = idx;
    snprintf(v.kind, sizeof v.kind, "%s", kind.c_str());
    snprintf(v.label, sizeof v.label, "%s", label.c_str());
    snprintf(v.detail, sizeof v.detail, "%s", detail.c_str());
    S->nviol++;
}

static int op_bits(const Entry &e) {
    int n = 0;
    for (auto &t : e.in) n += t.w() * (t.is4 && !(e.flags & F_NOXZ) ? 2 : 1);
    return n;
}
static bool exhaustive(const Entry &e) {
    return !e.in.empty() && e.ia.empty() && e.op != Op::PARSE && e.op != Op::FORMAT && e.op != Op::CUSTOM && op_bits(e) <= int(g_exh);
}
static uint64_t count_of(const Entry &e) {
    if (exhaustive(e)) return 1ull << op_bits(e);
    if (e.in.empty() && e.ia.empty() && e.op != Op::PARSE && e.op != Op::CUSTOM) return 1;
    return std::max<uint64_t>(1, uint64_t(double(g_cases) * e.weight * g_scale));
}

static std::string gen_fmt(Ctx &c, const TypeD &t) {
    static const char b[] = "bbooddddhhxxssBODHXS";
    char f = b[c.below(20)];
    std::string s;
    switch (c.below(5)) {
        case 0: s = "0"; break;
        case 1: s = std::to_string(c.below(12)); break;
        case 2: s = std::to_string(c.below(uint64_t(t.w()) + 20)); break;
        case 3: if (c.below(5) == 0) { s = std::to_string(c.below(c.below(4) ? 600 : NW > 66 ? 70000 : 5000)); break; } [[fallthrough]];
        default: break;
    }
    // a format without a letter is the raw string
    if (c.below(24) == 0) return s;
    return s + f;
}

static void gen_case(const Entry &e, uint64_t idx, Ctx &c) {
    c.e = &e;
    c.rng_state = hmix(hmix(g_seed * 0x2545F4914F6CDD1Dull + 77, e.id()), idx);
    c.nout = 0; c.steps = 0; c.digest = 0;
    c.text.clear(); c.anomaly.clear(); c.undefined.clear(); c.trace.clear(); c.sarg.clear();
    if (e.op == Op::CUSTOM) return;
    if (exhaustive(e)) {
        uint64_t k = idx;
        for (size_t i = 0; i < e.in.size(); i++) {
            const TypeD &t = e.in[i];
            MV &o = c.in[i];
            o.clear(); o.w = t.w(); o.sgn = t.sgn; o.is4 = t.is4;
            for (int j = 0; j < o.w; j++) {
                if (t.is4 && !(e.flags & F_NOXZ)) { o.set(j, int(k & 3)); k >>= 2; }
                else { o.set(j, int(k & 1)); k >>= 1; }
            }
        }
        return;
    }
    bool noxz = (e.flags & F_NOXZ) != 0 || c.below(3) == 0;
    for (size_t i = 0; i < e.in.size(); i++) {
        const TypeD &t = e.in[i];
        gen_value(c, c.in[i], t, noxz ? 0 : -1, i && c.below(2) ? &c.in[0] : nullptr);
        bool known = noxz || !t.is4 || c.below(4);
        if ((e.flags & F_AMOUNT) && i == 1 && c.below(8)) {
            int w = e.in[0].w();
            uint64_t k;
            switch (c.below(8)) {
                case 0: k = uint64_t(w); break;
                case 1: k = uint64_t(w) - 1; break;
                case 2: k = uint64_t(w) + 1; break;
                case 3: k = c.below(uint64_t(w / 64 + 2)) * 64 + c.below(3) - (c.below(2) ? 1 : 0); break;
                case 4: k = c.below(3); break;
                case 5: k = uint64_t(w) + c.below(200); break;
                default: k = c.below(uint64_t(w));
            }
            int sgn = c.in[1].sgn; bool is4 = c.in[1].is4;
            if (known) { c.in[1].clear(); }
            c.in[1].v[0] = k; c.in[1].sgn = sgn; c.in[1].is4 = is4; c.in[1].mask();
        }
        if ((e.flags & F_INDEX) && i + 1 == e.in.size() && i > 0 && c.below(10)) {
            int64_t k = gen_index(c, e.in[0]);
            MV &m = c.in[i];
            if (known) m.clear();
            m.v[0] = uint64_t(k);
            if (k < 0) for (int j = 1; j < m.words(); j++) m.v[j] = ~0ull;
            else for (int j = 1; j < m.words(); j++) m.v[j] = 0;
            m.mask();
        }
        if ((e.flags & F_DIVISOR) && i == 1) {
            MV &m = c.in[1];
            if (c.below(3) == 0) {   // shorter than the dividend
                int k = int(c.below(uint64_t(m.w))) + 1;
                for (int j = k; j < m.w; j++) m.set(j, 0);
            }
            if (m.is_zero() && c.below(4)) m.set(int(c.below(uint64_t(m.w))), 1);
            // a multiple of the divisor, or next to one
            if (c.below(4) == 0 && !m.has_xz() && !c.in[0].has_xz()) {
                MV &a = c.in[0];
                MV q;
                gen_value(c, q, TypeD{a.w - 1, 0, false, false}, 0);
                int k = int(c.below(uint64_t(a.w))) + 1;
                for (int j = k; j < a.w; j++) q.set(j, 0);
                MV l = mv_extend(m, a.w, m.sgn);
                l.sgn = false; l.is4 = false;
                MV p = mv_binary(Op::MUL, l, q);
                for (int j = 0; j < a.words(); j++) a.v[j] = p.v[j];
                uint64_t d = c.below(3);
                if (d == 1) { for (int j = 0; j < a.words(); j++) if (++a.v[j]) break; }
                else if (d == 2) { for (int j = 0; j < a.words(); j++) if (a.v[j]--) break; }
                a.mask();
            }
        }
    }
    for (size_t i = 0; i < e.ia.size(); i++) {
        switch (e.ia[i]) {
            case IA::INDEX: c.iarg[i] = gen_index(c, e.in[0]); break;
            case IA::BOUND: {
                if (e.flags & F_BOUNDEDSEL) {   // exactly ip[0] bits, either order
                    int64_t n = e.ip[0];
                    int64_t s;
                    const TypeD &t = e.in[0];
                    switch (c.below(6)) {
                        case 0: s = t.lo() - int64_t(c.below(uint64_t(n) + 2)); break;
                        case 1: s = t.hi() - n + 1 + int64_t(c.below(uint64_t(n) + 2)); break;
                        case 2: s = gen_index(c, t); if (s > INT32_MAX - n) s -= n; break;
                        default: s = t.w() > n ? t.lo() + int64_t(c.below(uint64_t(t.w() - n + 1))) : t.lo();
                    }
                    c.iarg[i] = s + n - 1; c.iarg[i + 1] = s;
                    if (c.below(4) == 0) std::swap(c.iarg[i], c.iarg[i + 1]);
                } else {
                    // any span up to a few hundred bits
                    int64_t a = gen_index(c, e.in[0]);
                    const TypeD &t = e.in[0];
                    int64_t b = c.below(4) ? t.lo() + int64_t(c.below(uint64_t(t.w()))) : a + int64_t(c.below(300)) - 150;
                    if (a > 100000 || a < -100000) b = a > 0 ? a - int64_t(c.below(200)) : a + int64_t(c.below(200));
                    c.iarg[i] = a; c.iarg[i + 1] = b;
                }
                i++;
                break;
            }
            case IA::INT64: case IA::UINT64: {
                MV m; gen_value(c, m, TypeD{63, 0, true, false}, 0);
                c.iarg[i] = int64_t(m.v[0]);
                if (c.below(3) == 0) c.iarg[i] = int64_t(c.below(600)) - 300;
                if (c.below(5) == 0) c.iarg[i] = (c.below(2) ? 1 : -1) * int64_t(1ull << c.below(63)) + int64_t(c.below(3)) - 1;
                break;
            }
            case IA::INT32: c.iarg[i] = int32_t(c.next()); if (c.below(3) == 0) c.iarg[i] = int64_t(c.below(600)) - 300; break;
            case IA::BOOLV: c.iarg[i] = int64_t(c.below(2)); break;
            case IA::FMTW: c.iarg[i] = int64_t(c.below(100)); break;
        }
    }
    if (e.op == Op::PARSE) c.sarg = gen_literal(c, e.outs[0]);
    if (e.op == Op::FORMAT) {
        c.sarg = gen_fmt(c, e.in[0]);
        char b = c.sarg.empty() || isdigit(static_cast<unsigned char>(c.sarg.back())) ? 's' : char(tolower(c.sarg.back()));
        MV &a = c.in[0];
        if (b == 's') { std::memset(a.m, 0, sizeof a.m); }
        // whole unknown digits now and then
        if (a.is4 && (b == 'o' || b == 'h' || b == 'x') && c.below(3) == 0) {
            int k = b == 'o' ? 3 : 4;
            for (int lo = 0; lo < a.w; lo += k) {
                int s = int(c.below(6));
                for (int j = lo; j < lo + k && j < a.w; j++) if (s < 2) a.set(j, 2 + s);
            }
        }
    }
}

static std::string quote(const std::string &s) {
    std::string r = "\"";
    char buf[8];
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += char(ch); }
        else if (ch < 32 || ch > 126) { snprintf(buf, sizeof buf, "\\u%04x", ch); r += buf; }
        else r += char(ch);
    }
    return r + "\"";
}
static std::string show(const Entry &e, const Ctx &c) {
    std::string s = e.name;
    if (e.op == Op::CUSTOM) return s + ": " + c.trace;
    for (size_t i = 0; i < e.in.size(); i++) s += (i ? ", " : ": ") + c.in[i].str();
    if (!e.ip.empty()) { s += " static("; for (size_t i = 0; i < e.ip.size(); i++) s += (i ? "," : "") + std::to_string(e.ip[i]); s += ")"; }
    if (!e.ia.empty()) { s += " args("; for (size_t i = 0; i < e.ia.size(); i++) s += (i ? "," : "") + std::to_string(c.iarg[i]); s += ")"; }
    if (e.op == Op::PARSE || e.op == Op::FORMAT) s += " text " + quote(c.sarg);
    return s;
}

// returns a description of the difference, empty if none
static std::string compare(const Entry &e, const Ctx &c, std::string &label) {
    label.clear();
    if (!g_model) return "";
    if (e.op == Op::CUSTOM) return c.anomaly;
    std::vector<MV> exp;
    std::string text;
    model(e, c, exp, text);
    std::string d;
    if (e.flags & F_TEXT) {
        if (text != c.text) d = "text " + quote(c.text) + " expected " + quote(text);
    } else {
        if (int(exp.size()) != c.nout) d = "harness: number of results " + std::to_string(c.nout);
        for (int i = 0; i < c.nout && d.empty(); i++) {
            if (!exp[size_t(i)].same_bits(c.out[i]))
                d = "result " + std::to_string(i) + " is " + c.out[i].str() + " expected " + exp[size_t(i)].str();
            else if ((e.flags & F_SGN) && exp[size_t(i)].sgn != c.out[i].sgn)
                d = "result is " + std::string(c.out[i].sgn ? "signed" : "unsigned");
        }
        if (!d.empty()) label = classify(e, c, exp);
        if (d.empty() && (e.flags & F_BITS)) {
            std::string s;
            for (int i = exp[0].w - 1; i >= 0; i--) s += "01xz"[exp[0].get(i)];
            if (s != c.text) d = "bit string " + quote(c.text) + " expected " + quote(s);
        }
    }
    if (d.empty() && !c.anomaly.empty()) d = c.anomaly;
    return d;
}

static bool nontrivial(const Entry &e, const Ctx &c) {
    if (e.op == Op::CUSTOM) return c.steps > 0;
    for (size_t i = 0; i < e.in.size(); i++) {
        const MV &a = c.in[i];
        for (int j = 1; j < a.w; j++) if (a.get(j) != a.get(0)) return true;
        if (a.w == 1) return true;
    }
    for (size_t i = 0; i < e.ia.size(); i++) if (c.iarg[i]) return true;
    if (e.op == Op::PARSE) return c.sarg.size() > 3;
    return e.in.empty() && e.ia.empty();
}
static uint64_t digest(const Entry &e, const Ctx &c) {
    uint64_t h = e.id();
    if (e.op == Op::CUSTOM) return hmix(h, c.digest);
    for (size_t i = 0; i < e.in.size(); i++)
        for (int j = 0; j < c.in[i].words(); j++) h = hmix(hmix(h, c.in[i].v[j]), c.in[i].m[j]);
    for (size_t i = 0; i < e.ia.size(); i++) h = hmix(h, uint64_t(c.iarg[i]));
    for (char ch : c.sarg) h = hmix(h, uint8_t(ch));
    return h;
}

static bool run_case(const Entry &e, uint64_t idx, Ctx &c, bool record) {
    gen_case(e, idx, c);
    S->idx = idx;
    S->seq++;
    current = &c;
    uint64_t errors = error_count ? error_count() : 0;
    e.fn(c);
    std::string label, d = compare(e, c, label);
    if (error_count && error_count() != errors) d = "memcheck reported an error (use of uninitialised or invalid memory)";
    if (!c.undefined.empty()) d = c.undefined;
    if (record) {
        uint64_t n = e.op == Op::CUSTOM ? c.steps : 1;
        S->evaluations += n; S->cases++;
        S->per_op[int(e.op)] += n;
        for (size_t i = 0; i < e.in.size(); i++) if (c.in[i].has_xz()) { S->xz_cases++; break; }
        if (nontrivial(e, c)) { S->nontrivial++; insert_digest(digest(e, c)); }
    }
    if (!d.empty()) {
        if (record) add_violation(e.name, idx, S->mixing ? "mixed" : "wrong", label, show(e, c) + " -> " + d);
        else printf("%s -> %s%s%s\n", show(e, c).c_str(), d.c_str(), label.empty() ? "" : " label=", label.c_str());
        return false;
    }
    if (!record) printf("%s -> ok\n", show(e, c).c_str());
    return true;
}

static void child_main(size_t from) {
    auto &R = registry();
    static Ctx c;
    size_t step = R.size() / 10 + 1;
    for (size_t k = from; k < R.size(); k++) {
        const Entry &e = R[k];
        S->entry = uint32_t(k);
        uint64_t n = count_of(e);
        for (uint64_t i = 0; i < n; i++) {
            run_case(e, i, c, true);
            if (i == n / 2 && k % step == 0 && S->nsample < NSAMPLE) {
                std::string s = show(e, c);
                if (e.op != Op::CUSTOM) { s += " -> "; if (e.flags & F_TEXT) s += quote(c.text); else for (int q = 0; q < c.nout; q++) s += (q ? "; " : "") + c.out[q].str(); }
                snprintf(S->sample[S->nsample++], 600, "%s", s.c_str());
            }
        }
        if (exhaustive(e)) S->exhaustive_entries++;
        S->entries_done++;
    }
}

// Cases of all entries in random order, in a fresh process, each still judged by the model: an answer that
// depends on what ran before (in another width, kind or operation) shows here and not above.
static uint64_t mixed_count() { return std::min<uint64_t>(registry().size() * std::min<uint64_t>(g_cases / 8 + 2, 2000), S->cases / 4); }
static void mixed_main(uint64_t n) {
    auto &R = registry();
    static Ctx c;
    Ctx r;
    r.rng_state = hmix(g_seed, 0x6d69786564);
    S->mixing = true;
    size_t k = r.below(R.size());
    uint64_t idx = 0;
    for (uint64_t i = 0; i < n; i++) {
        uint64_t how = r.below(8);
        if (how < 3) k = r.below(R.size());
        else if (how < 7) k = (k + R.size() + r.below(9) - 4) % R.size();   // a neighbouring width, kind or operation
        idx = r.below(count_of(R[k]));
        S->entry = uint32_t(k);
        run_case(R[k], idx, c, true);
        S->mixed++;
    }
    S->mixing = false;
}

// ------------------------------------------------------------------ concurrent execution
static uint64_t outcome(const Entry &e, const Ctx &c) {
    uint64_t h = e.id();
    for (int i = 0; i < c.nout; i++) {
        h = hmix(h, uint64_t(c.out[i].w) * 4 + c.out[i].sgn * 2 + c.out[i].is4);
        for (int j = 0; j < c.out[i].words(); j++) h = hmix(hmix(h, c.out[i].v[j]), c.out[i].m[j]);
    }
    for (char ch : c.text) h = hmix(h, uint8_t(ch));
    for (char ch : c.anomaly) h = hmix(h, uint8_t(ch));
    h = hmix(h, c.digest);
    return hmix(h, c.steps);
}
// Every case once in order in a fresh process, then again in another order with other operations in between,
// twice in a row: an answer that depends on anything but the operands differs between the passes.
static void orders_main(size_t from, size_t to, uint64_t cases) {
    auto &R = registry();
    struct Job { size_t k; uint64_t i, out; };
    std::vector<Job> jobs;
    auto c = std::make_unique<Ctx>();
    auto exec = [&](const Job &j) {
        gen_case(R[j.k], j.i, *c);
        S->entry = uint32_t(j.k); S->idx = j.i; S->seq++;
        R[j.k].fn(*c);
        uint64_t n = R[j.k].op == Op::CUSTOM ? c->steps : 1;
        S->evaluations += n; S->cases++; S->per_op[int(R[j.k].op)] += n;
        return outcome(R[j.k], *c);
    };
    for (size_t k = from; k < to; k++) {
        uint64_t n = std::min(count_of(R[k]), R[k].op == Op::CUSTOM ? std::max<uint64_t>(1, cases / 8) : cases);
        for (uint64_t i = 0; i < n; i++) {
            jobs.push_back({k, i, 0});
            jobs.back().out = exec(jobs.back());
            if (nontrivial(R[k], *c)) { S->nontrivial++; insert_digest(digest(R[k], *c)); }
        }
    }
    Ctx r;
    r.rng_state = hmix(g_seed, from + 99);
    std::vector<Job> mixed = jobs;
    for (int pass = 0; pass < 2; pass++) {
        if (pass == 0) for (size_t i = mixed.size(); i > 1; i--) std::swap(mixed[i - 1], mixed[r.below(i)]);
        else std::reverse(mixed.begin(), mixed.end());
        for (auto &j : mixed)
            for (int again = 0; again < (pass ? 2 : 1); again++)
                if (exec(j) != j.out)
                    add_violation(R[j.k].name, j.i, "history", "", show(R[j.k], *c) + " -> the answer depends on what ran before");
    }
    S->rounds += 4 * jobs.size();
    for (size_t k = from; k < to; k++) {
        if (S->nsample < NSAMPLE && k % 37 == 0) { gen_case(R[k], 0, *c); snprintf(S->sample[S->nsample++], 600, "in order, shuffled, reversed twice: %s", show(R[k], *c).c_str()); }
        S->entries_done++;
    }
}
// Entries are executed by n threads at once, all in the same entry at the same time, in a process where
// none of them has run before; afterwards one thread repeats everything. No synchronisation of this file
// is visible to ThreadSanitizer (it is not instrumented), so only the library's own can order accesses.
static void threads_main(size_t from, size_t to, int n, uint64_t cases) {
    auto &R = registry();
    std::vector<std::vector<std::vector<uint64_t>>> seen(to - from, std::vector<std::vector<uint64_t>>(size_t(n), std::vector<uint64_t>(cases)));
    std::vector<std::vector<uint8_t>> order(to - from, std::vector<uint8_t>(size_t(n) * cases));
    std::vector<std::atomic<uint32_t>> ticket(to - from);
    std::atomic<int> arrived{0}, generation{0}, flying{0};
    std::atomic<uint64_t> overlapped{0}, most{0};
    auto case_of = [&](int t, uint64_t i) { return t % 2 ? uint64_t(t) * cases + i : i; };   // even threads run the same cases
    auto count = [&](const Entry &e) { return e.op == Op::CUSTOM ? std::max<uint64_t>(1, cases / 8) : cases; };
    auto body = [&](int t) {
        auto c = std::make_unique<Ctx>();
        for (size_t k = from; k < to; k++) {
            const Entry &e = R[k];
            int g = generation;
            if (++arrived == n) { arrived = 0; S->entry = uint32_t(k); S->seq++; generation++; }
            else while (generation == g) std::this_thread::yield();
            for (uint64_t i = 0; i < count(e); i++) {
                gen_case(e, case_of(t, i), *c);
                uint64_t f = uint64_t(++flying);
                if (f > 1) overlapped++;
                for (uint64_t m = most; f > m && !most.compare_exchange_weak(m, f);) {}
                e.fn(*c);
                flying--;
                order[k - from][ticket[k - from]++] = uint8_t(t);
                seen[k - from][size_t(t)][i] = outcome(e, *c);
                S->seq++;
            }
        }
    };
    std::vector<std::thread> ts;
    for (int t = 0; t < n; t++) ts.emplace_back(body, t);
    for (auto &t : ts) t.join();
    auto c = std::make_unique<Ctx>();
    for (size_t k = from; k < to; k++) {
        const Entry &e = R[k];
        S->entry = uint32_t(k);
        uint64_t h = 1;
        for (uint64_t i = 0; i < ticket[k - from]; i++) h = hmix(h, order[k - from][i]);
        if (insert_digest(hmix(e.id(), h))) { S->orders++; S->distinct--; }
        S->rounds++;
        bool bad = false;
        for (int t = 0; t < n; t++)
            for (uint64_t i = 0; i < count(e); i++) {
                gen_case(e, case_of(t, i), *c);
                S->seq++;
                e.fn(*c);
                uint64_t w = e.op == Op::CUSTOM ? c->steps : 1;
                S->evaluations += w; S->cases++; S->concurrent++; S->per_op[int(e.op)] += w;
                if (nontrivial(e, *c)) { S->nontrivial++; insert_digest(digest(e, *c)); }
                if (!bad && outcome(e, *c) != seen[k - from][size_t(t)][i]) {
                    bad = true;
                    add_violation(e.name, case_of(t, i), "thread", "", show(e, *c) + " -> with " + std::to_string(n) + " threads the result differs from the single-threaded one");
                }
            }
        if (S->nsample < NSAMPLE && k % 29 == 0) snprintf(S->sample[S->nsample++], 600, "%d threads, order of completion %.60s..., e.g. %s", n,
            [&] { std::string o; for (uint64_t i = 0; i < ticket[k - from] && i < 60; i++) o += char('0' + order[k - from][i]); return o; }().c_str(), show(e, *c).c_str());
        S->entries_done++;
    }
    S->overlapped += overlapped;
    S->max_in_flight = std::max<uint64_t>(S->max_in_flight, most);
}

static double cpu_of(pid_t p) {
    std::ifstream f("/proc/" + std::to_string(p) + "/stat");
    std::string s((std::istreambuf_iterator<char>(f)), {});
    auto q = s.rfind(')');
    if (q == std::string::npos) return 0;
    std::istringstream is(s.substr(q + 2));
    std::string tok; double u = 0;
    for (int i = 3; i <= 15 && is >> tok; i++) if (i == 14 || i == 15) u += atof(tok.c_str());
    return u / double(sysconf(_SC_CLK_TCK));
}

static std::string slurp(const std::string &p, size_t max) {
    std::ifstream f(p, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), {});
    return s.substr(0, max);
}

// runs fn in a child; returns 0 ok, 1 crashed, 2 hung
template <typename F>
static int supervised(F fn, const std::string &err, double cpu_limit) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (fd >= 0) dup2(fd, 2);
        fn();
        fflush(stdout);
        _exit(0);
    }
    if (p < 0) { perror("fork"); exit(3); }
    uint64_t last = ~0ull;
    double at = 0;
    int spins = 0;
    for (;;) {
        int st;
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : 1;
        usleep(spins++ < 50 ? 2000 : 50000);
        uint64_t q = S->seq;
        double t = cpu_of(p);
        if (q != last) { last = q; at = t; }
        else if (t - at > cpu_limit) { kill(p, SIGKILL); waitpid(p, &st, 0); return 2; }
    }
}

static std::string summary_of(const std::string &log) {
    // the most telling lines of a sanitizer report
    std::istringstream is(log);
    std::string l, r;
    int n = 0;
    while (std::getline(is, l) && n < 14) {
        if (l.find("ERROR") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("SUMMARY") != std::string::npos || l.find("WARNING: Thread") != std::string::npos ||
            l.find("Assertion") != std::string::npos || l.find("terminate") != std::string::npos || l.find("what()") != std::string::npos ||
            l.find("    #") != std::string::npos) { r += l + " | "; n++; }
    }
    return r.empty() ? log.substr(0, 400) : r;
}

static int engine_main(int argc, char **argv) {
    std::string out, one, errlog = "/tmp/mv-err." + std::to_string(getpid());
    uint64_t onecase = 0;
    int threads = 0;
    bool orders = false;
    uint64_t mixed = 0;
    double cpu = 25;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&] { return std::string(argv[++i]); };
        if (a == "--seed") g_seed = std::stoull(val());
        else if (a == "--cases") g_cases = std::stoull(val());
        else if (a == "--exh") g_exh = std::stoull(val());
        else if (a == "--threads") threads = std::stoi(val());
        else if (a == "--orders") orders = true;
        else if (a == "--mixed") mixed = std::stoull(val());   // replay: so many cases in mixed order
        else if (a == "--no-model") g_model = false;
        else if (a == "--out") out = val();
        else if (a == "--err") errlog = val();
        else if (a == "--cpu") cpu = std::stod(val());
        else if (a == "--entry") one = val();
        else if (a == "--case") onecase = std::stoull(val());
        else if (a == "--list") { for (auto &e : registry()) printf("%s %llu\n", e.name.c_str(), (unsigned long long)count_of(e)); return 0; }
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
    }
    S = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (S == MAP_FAILED) { perror("mmap"); return 2; }
    auto &R = registry();
    if (mixed) {
        int st = supervised([&] { mixed_main(mixed); }, errlog, cpu * 2);
        for (int i = 0; i < S->nviol; i++) printf("%s\n", S->viol[i].detail);
        if (st) printf("%s\n", st == 2 ? "hang" : summary_of(slurp(errlog, 20000)).c_str());
        unlink(errlog.c_str());
        return st || S->nviol;
    }
    if (!one.empty()) {
        for (auto &e : R) if (e.name == one) {
            if (threads) {
                int st = 0;
                for (int rep = 0; rep < 5 && !st && !S->nviol; rep++)
                    st = supervised([&] { threads_main(size_t(&e - R.data()), size_t(&e - R.data()) + 1, threads, g_cases); }, errlog, cpu * 2);
                printf("%s %s\n", st ? summary_of(slurp(errlog, 20000)).c_str() : "", S->nviol ? S->viol[0].detail : "");
                unlink(errlog.c_str());
                return st || S->nviol;
            }
            if (orders) {   // the batch it ran in
                size_t k = size_t(&e - R.data()), b = k / 40 * 40;
                int st = supervised([&] { orders_main(b, std::min(b + 40, R.size()), g_cases); }, errlog, cpu * 2);
                for (int i = 0; i < S->nviol; i++) printf("%s\n", S->viol[i].detail);
                if (st) printf("%s\n", summary_of(slurp(errlog, 20000)).c_str());
                unlink(errlog.c_str());
                return st || S->nviol;
            }
            static Ctx c;
            bool ok = true;
            int st = supervised([&] { ok = run_case(e, onecase, c, false); fflush(stdout); if (!ok) _exit(9); }, errlog, cpu * 2);
            if (st == 2) printf("hang\n");
            if (st == 1) printf("%s\n", summary_of(slurp(errlog, 20000)).c_str());
            unlink(errlog.c_str());
            return st ? 1 : 0;
        }
        fprintf(stderr, "no entry %s\n", one.c_str());
        return 2;
    }
    size_t from = 0;
    int crashes = 0;
    bool incomplete = false;
    const size_t batch = 40;
    while (from < R.size()) {
        size_t to = std::min(from + batch, R.size());
        if (threads || orders) {
            S->entry = uint32_t(from);
            int st = supervised([&] { if (threads) threads_main(from, to, threads, g_cases); else orders_main(from, to, g_cases); }, errlog, cpu * std::max(1, threads));
            if (st == 0) { from = to; continue; }
            size_t k = S->entry;
            add_violation(R[k].name, S->idx, orders ? "crash" : st == 1 ? "race" : "hang", "", R[k].name + " in " + std::to_string(threads) + " threads -> " + (st == 1 ? summary_of(slurp(errlog, 40000)) : "does not terminate"));
            from = k + 1;
            crashes += st == 2 ? 3 : 1;
            if (crashes >= 6) { incomplete = from < R.size(); break; }
            continue;
        }
        int st = supervised([&] { child_main(from); }, errlog, cpu);
        if (st == 0) break;
        size_t k = S->entry;
        uint64_t idx = S->idx;
        static Ctx c;
        std::string what = R[k].name;
        if (R[k].op != Op::CUSTOM) { gen_case(R[k], idx, c); what = show(R[k], c); }
        if (st == 1) {
            add_violation(R[k].name, idx, "crash", "", what + " -> crashed: " + summary_of(slurp(errlog, 20000)));
        } else {
            // confirm: the case by itself, with a fresh budget
            static Ctx c2;
            int again = supervised([&] { run_case(R[k], idx, c2, true); }, errlog, cpu * 2);
            if (again == 2) add_violation(R[k].name, idx, "hang", "", what + " -> does not terminate");
            else if (again == 1) add_violation(R[k].name, idx, "crash", "", what + " -> crashed: " + summary_of(slurp(errlog, 20000)));
        }
        from = k + 1;
        crashes += st == 2 ? 3 : 1;
        if (crashes >= 6) { incomplete = from < R.size(); break; }
    }
    if (!threads && !orders && !incomplete && !R.empty()) {
        uint64_t n = mixed_count();
        int st = supervised([&] { mixed_main(n); }, errlog, cpu);
        if (st) {
            S->mixing = false;
            size_t k = S->entry;
            static Ctx c;
            std::string what = R[k].name;
            if (R[k].op != Op::CUSTOM) { gen_case(R[k], S->idx, c); what = show(R[k], c); }
            add_violation(R[k].name, S->idx, "mixed", "", what + (st == 1 ? " -> crashed: " + summary_of(slurp(errlog, 20000)) : " -> does not terminate"));
        }
    }
    unlink(errlog.c_str());
    std::ostringstream js;
    js << "{\"evaluations\":" << S->evaluations << ",\"cases\":" << S->cases << ",\"nontrivial\":" << S->nontrivial << ",\"distinct\":" << S->distinct
       << ",\"saturated\":" << S->saturated << ",\"xz_cases\":" << S->xz_cases << ",\"entries\":" << R.size() << ",\"entries_done\":" << S->entries_done
       << ",\"exhaustive_entries\":" << S->exhaustive_entries << ",\"incomplete\":" << (incomplete ? "true" : "false") << ",\"per_op\":{";
    bool first = true;
    for (int i = 0; i <= int(Op::CUSTOM); i++) if (S->per_op[i]) { js << (first ? "" : ",") << "\"" << op_name(Op(i)) << "\":" << S->per_op[i]; first = false; }
    js << "},";
    if (threads) js << "\"extra\":{\"concurrent_executions\":" << S->concurrent << ",\"executions_started_while_another_ran\":" << S->overlapped << ",\"max_in_flight\":" << S->max_in_flight
                    << ",\"concurrent_rounds\":" << S->rounds << ",\"distinct_completion_orders\":" << S->orders << "},";
    if (S->mixed) js << "\"extra\":{\"cases_in_mixed_order\":" << S->mixed << "},";
    if (orders) js << "\"extra\":{\"executions_compared_across_orders\":" << S->rounds << "},";
    js << "\"samples\":[";
    for (int i = 0; i < S->nsample; i++) js << (i ? "," : "") << quote(S->sample[i]);
    js << "],\"extra_violations\":" << S->extra_viol << ",\"violations\":[";
    for (int i = 0; i < S->nviol; i++) {
        auto &v = S->viol[i];
        js << (i ? "," : "") << "{\"entry\":" << quote(v.entry) << ",\"case\":" << v.idx << ",\"kind\":\"" << v.kind << "\",\"label\":\"" << v.label
           << "\",\"detail\":" << quote(v.detail) << "}";
    }
    js << "]}\n";
    if (out.empty()) fputs(js.str().c_str(), stdout);
    else { std::ofstream f(out); f << js.str(); if (!f.flush()) return 2; }
    return 0;
}

}  // namespace mv

int main(int argc, char **argv) { return mv::engine_main(argc, argv); }
