// Neutral value representation, case context and registration interface.
// Nothing in this header, model.cc or engine.cc depends on the code under test.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

namespace mv {

#ifndef MV_NW
#define MV_NW 66
#endif
constexpr int NW = MV_NW;
constexpr int MAXW = NW * 64;

// bit states: 0, 1, 2 = x, 3 = z
struct MV {
    int w = 0;
    bool sgn = false;
    bool is4 = false;
    uint64_t v[NW];
    uint64_t m[NW];

    MV() { clear(); }
    MV(const MV &o) { *this = o; }
    MV &operator=(const MV &o) {
        w = o.w; sgn = o.sgn; is4 = o.is4;
        std::memcpy(v, o.v, sizeof v);
        std::memcpy(m, o.m, sizeof m);
        return *this;
    }
    void clear() { std::memset(v, 0, sizeof v); std::memset(m, 0, sizeof m); }
    int words() const { return (w + 63) / 64; }
    int get(int i) const {
        int a = int((v[i / 64] >> (i % 64)) & 1), b = int((m[i / 64] >> (i % 64)) & 1);
        return b ? 2 + a : a;
    }
    void set(int i, int s) {
        uint64_t bit = 1ull << (i % 64);
        if (s & 1) v[i / 64] |= bit; else v[i / 64] &= ~bit;
        if (s & 2) m[i / 64] |= bit; else m[i / 64] &= ~bit;
    }
    void mask() {
        for (int i = 0; i < NW; i++) {
            int left = w - i * 64;
            if (left >= 64) continue;
            uint64_t k = left <= 0 ? 0 : (~0ull >> (64 - left));
            v[i] &= k; m[i] &= k;
        }
    }
    bool has_xz() const { for (int i = 0; i < words(); i++) if (m[i]) return true; return false; }
    bool is_zero() const { for (int i = 0; i < words(); i++) if (v[i] | m[i]) return false; return true; }
    bool same_bits(const MV &o) const {
        if (w != o.w) return false;
        for (int i = 0; i < words(); i++) if (v[i] != o.v[i] || m[i] != o.m[i]) return false;
        return true;
    }
    std::string str() const;       // e.g. 8'b0101xz01 (signed types get an s)
};

struct TypeD {
    int msb = 0, lsb = 0;
    bool sgn = false, is4 = false;
    int w() const { return (msb > lsb ? msb - lsb : lsb - msb) + 1; }
    bool be() const { return msb >= lsb; }
    int lo() const { return msb < lsb ? msb : lsb; }
    int hi() const { return msb < lsb ? lsb : msb; }
    std::string str() const;
};

enum class Op {
    NOP,
    // bitwise
    AND, OR, XOR, ANDE, ORE, XORE, NOT,
    // reductions
    RAND, RNAND, ROR, RNOR, RXOR, RXNOR, LNOT, BOOL,
    // shifts
    SHL, SHR, ASHL, ASHR, SHLE, SHRE,
    // arithmetic
    ADD, SUB, NEG, POS, PREINC, PREDEC, POSTINC, POSTDEC, MUL, DIV, MOD,
    // comparisons
    EQ, NE, LT, LE, GT, GE, MATCH, NMATCH, CMPALL, CMPREV,
    // representation
    EXTEND, TOS, TOU,
    CONSTRUCT_INT, ASSIGN_INT, CONSTRUCT, ASSIGN, DEFAULT, READNUM,
    // selects
    BITSEL, PARTC, PARTR, IPARTUP, IPARTDN,
    // writes
    SETBIT, SETLOGIC, UPDC, UPDR, IUPDUP, IUPDDN,
    CONCAT, UNPACK,
    PARSE, FORMAT,
    CUSTOM
};
const char *op_name(Op);

constexpr int MAXIN = 6, MAXOUT = 8, MAXIARG = 4;

// how a run-time integer argument is generated
enum class IA { INDEX, /* around the declared range of in[0] */
                BOUND, /* as INDEX, paired with the following argument */
                INT64, UINT64, INT32, BOOLV, FMTW };

struct Entry;
struct Ctx {
    const Entry *e = nullptr;
    MV in[MAXIN];
    int64_t iarg[MAXIARG] = {};
    std::string sarg;
    // results
    MV out[MAXOUT];
    int nout = 0;
    std::string text;
    std::string anomaly;      // set by code observing the objects
    std::string undefined;    // uninitialised storage seen in a result
    // custom entries
    uint64_t rng_state = 0;
    uint64_t steps = 0;       // evaluations made by a custom case
    uint64_t digest = 0;      // identifies a custom case for the distinct count
    std::string trace;        // what a custom case did
    uint64_t next() {         // splitmix64
        uint64_t z = (rng_state += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return next() % n; }
    void fail(const std::string &s) { if (anomaly.empty()) anomaly = s; }
};
using Fn = void (*)(Ctx &);

enum : unsigned {
    F_SGN = 1,        // the result's signedness is part of the property
    F_AMOUNT = 2,     // in[1] is a shift amount
    F_NOXZ = 4,       // never generate unknown operand bits
    F_TEXT = 8,       // compare text
    F_SAMEIN = 16,    // in[1..] often equal in[0]
    F_INDEX = 32,     // in[last] is an index into in[0]
    F_XZDIGITS = 64,  // unknown bits fill whole digits of sarg's base
    F_DIVISOR = 128,
    F_CUSTOM = 256,
    F_BOUNDEDSEL = 512, // part select bounds span exactly ip[0] bits
    F_BITS = 1024,      // text is the bit string of the first result
};

struct Entry {
    std::string name;
    Op op = Op::NOP;
    std::vector<TypeD> in;
    std::vector<TypeD> outs;   // declared result types where the model needs them
    std::vector<int> ip;       // static parameters
    std::vector<IA> ia;        // run-time integer arguments
    unsigned flags = 0;
    double weight = 1.0;       // scales the number of random cases
    Fn fn = nullptr;
    uint64_t id() const;       // hash of the name
};

std::vector<Entry> &registry();
// errors a run-time checker (valgrind) has reported so far in this process, if one is attached
extern uint64_t (*error_count)();
extern thread_local Ctx *current;   // the case being run
Entry &reg(Entry e);
extern double reg_weight;   // scales what is registered

// ---- reference model (model.cc) ----
MV mv_extend(const MV &a, int w, bool sx);
MV mv_slice(const MV &a, int start, int n, bool is4);   // out of range: x / 0
MV mv_from_u64(uint64_t v, int w, bool sgn, bool is4);
MV mv_from_i64(int64_t v, int w, bool sgn, bool is4);
MV mv_convert(const MV &a, const TypeD &t);   // assignment: extend by own sign, truncate
MV mv_binary(Op op, const MV &a, const MV &b);
MV mv_unary(Op op, const MV &a);
MV mv_concat(const MV &hi, const MV &lo);
int mv_index(const MV &a, bool &ok);   // as an array index; ok=false if unknown or huge
MV mv_parse(const std::string &text, const TypeD &t);
std::string mv_format(const MV &a, const std::string &fmt);
void model(const Entry &e, const Ctx &c, std::vector<MV> &exp, std::string &text);
// label of a recorded finding that explains the difference exactly, or ""
std::string classify(const Entry &e, const Ctx &c, const std::vector<MV> &exp);

// ---- generators (engine.cc), also used by custom entries ----
void gen_value(Ctx &r, MV &out, const TypeD &t, int xzmode /* -1: any */, const MV *rel = nullptr);
int64_t gen_index(Ctx &r, const TypeD &t);
std::string gen_literal(Ctx &r, const TypeD &t);

// mapped position of a declared index, -1 if outside
inline int pos_of(const TypeD &t, int64_t idx) {
    if (idx < t.lo() || idx > t.hi()) return -1;
    return int(t.be() ? idx - t.lsb : t.lsb - idx);
}
inline uint64_t hmix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    return h * 0xff51afd7ed558ccdull;
}

}  // namespace mv
