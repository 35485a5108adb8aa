// Reference semantics (IEEE 1800 subset as stated in properties.jsonl), written per bit or over
// unbounded integers. Shares nothing with the code under test.
#include <boost/multiprecision/cpp_int.hpp>
#include <stdexcept>
#include "mv.hh"

namespace mv {
using boost::multiprecision::cpp_int;

static const char *NAMES[] = {
    "NOP", "AND", "OR", "XOR", "ANDE", "ORE", "XORE", "NOT",
    "RAND", "RNAND", "ROR", "RNOR", "RXOR", "RXNOR", "LNOT", "BOOL",
    "SHL", "SHR", "ASHL", "ASHR", "SHLE", "SHRE",
    "ADD", "SUB", "NEG", "POS", "PREINC", "PREDEC", "POSTINC", "POSTDEC", "MUL", "DIV", "MOD",
    "EQ", "NE", "LT", "LE", "GT", "GE", "MATCH", "NMATCH", "CMPALL", "CMPREV",
    "EXTEND", "TOS", "TOU",
    "CONSTRUCT_INT", "ASSIGN_INT", "CONSTRUCT", "ASSIGN", "DEFAULT", "READNUM",
    "BITSEL", "PARTC", "PARTR", "IPARTUP", "IPARTDN",
    "SETBIT", "SETLOGIC", "UPDC", "UPDR", "IUPDUP", "IUPDDN",
    "CONCAT", "UNPACK", "PARSE", "FORMAT", "CUSTOM"};
const char *op_name(Op o) { return NAMES[int(o)]; }

std::string MV::str() const {
    std::string s = std::to_string(w) + (is4 ? "'" : "''") + (sgn ? "s" : "") + "b";
    for (int i = w - 1; i >= 0; i--) s += "01xz"[get(i)];
    return s;
}
std::string TypeD::str() const {
    return std::string(is4 ? "logic" : "bit") + "[" + std::to_string(msb) + ":" + std::to_string(lsb) + "]" + (sgn ? "s" : "");
}
uint64_t Entry::id() const {
    uint64_t h = 1469598103934665603ull;
    for (char c : name) { h ^= uint8_t(c); h *= 1099511628211ull; }
    return h;
}
std::vector<Entry> &registry() { static std::vector<Entry> r; return r; }
double reg_weight = 1;
Entry &reg(Entry e) {   // the same combination may be listed twice; one is enough
    for (auto &o : registry()) if (o.name == e.name) return o;
    e.weight *= reg_weight;
    registry().push_back(std::move(e));
    return registry().back();
}

static MV blank(int w, bool sgn, bool is4) {
    if (w > MAXW) throw std::logic_error("model: too wide");
    MV r; r.w = w; r.sgn = sgn; r.is4 = is4; return r;
}
static MV all_x(int w, bool sgn) {
    MV r = blank(w, sgn, true);
    for (int i = 0; i < w; i++) r.set(i, 2);
    return r;
}
static MV one_bit(int s, bool is4) { MV r = blank(1, false, is4); r.set(0, s); return r; }

static cpp_int num(const MV &a, bool as_signed) {
    cpp_int r = 0;
    for (int i = a.words() - 1; i >= 0; i--) { r <<= 64; r |= a.v[i]; }
    if (as_signed && a.get(a.w - 1) == 1) r -= cpp_int(1) << a.w;
    return r;
}
static MV from_num(cpp_int n, int w, bool sgn, bool is4) {
    MV r = blank(w, sgn, is4);
    cpp_int mod = cpp_int(1) << w;
    n %= mod;
    if (n < 0) n += mod;
    for (int i = 0; i < r.words(); i++) { r.v[i] = static_cast<uint64_t>(n & cpp_int(~0ull)); n >>= 64; }
    return r;
}
MV mv_from_u64(uint64_t v, int w, bool sgn, bool is4) { return from_num(cpp_int(v), w, sgn, is4); }
MV mv_from_i64(int64_t v, int w, bool sgn, bool is4) { return from_num(cpp_int(v), w, sgn, is4); }

MV mv_extend(const MV &a, int w, bool sx) {
    MV r = blank(w, a.sgn, a.is4);
    for (int i = 0; i < w; i++) r.set(i, i < a.w ? a.get(i) : (sx ? a.get(a.w - 1) : 0));
    return r;
}
MV mv_convert(const MV &a, const TypeD &t) {
    MV r = mv_extend(a, t.w(), a.sgn);
    r.sgn = t.sgn; r.is4 = t.is4;
    return r;
}
MV mv_slice(const MV &a, int start, int n, bool is4) {
    MV r = blank(n, false, is4);
    for (int i = 0; i < n; i++) {
        long p = long(start) + i;
        r.set(i, p >= 0 && p < a.w ? a.get(int(p)) : (is4 ? 2 : 0));
    }
    return r;
}
MV mv_concat(const MV &hi, const MV &lo) {
    MV r = blank(hi.w + lo.w, false, hi.is4 || lo.is4);
    for (int i = 0; i < lo.w; i++) r.set(i, lo.get(i));
    for (int i = 0; i < hi.w; i++) r.set(lo.w + i, hi.get(i));
    return r;
}
int mv_index(const MV &a, bool &ok) {
    ok = false;
    if (a.has_xz()) return 0;
    cpp_int n = num(a, a.sgn);
    if (n > 1000000 || n < -1000000) return 0;
    ok = true;
    return static_cast<int>(n);
}

static int band(int a, int b) { if (a == 0 || b == 0) return 0; if (a == 1 && b == 1) return 1; return 2; }
static int bor(int a, int b) { if (a == 1 || b == 1) return 1; if (a == 0 && b == 0) return 0; return 2; }
static int bxor(int a, int b) { if (a > 1 || b > 1) return 2; return a ^ b; }
static int bnot(int a) { return a > 1 ? 2 : 1 - a; }

MV mv_binary(Op op, const MV &a, const MV &b) {
    bool is4 = a.is4 || b.is4, s = a.sgn && b.sgn;
    int W = a.w > b.w ? a.w : b.w;
    bool xz = a.has_xz() || b.has_xz();
    switch (op) {
        case Op::AND: case Op::OR: case Op::XOR: {
            MV x = mv_extend(a, W, s), y = mv_extend(b, W, s), r = blank(W, s, is4);
            for (int i = 0; i < W; i++) {
                int p = x.get(i), q = y.get(i);
                r.set(i, op == Op::AND ? band(p, q) : op == Op::OR ? bor(p, q) : bxor(p, q));
            }
            return r;
        }
        case Op::ADD: case Op::SUB: case Op::MUL: case Op::DIV: case Op::MOD: {
            if (xz) return all_x(W, s);
            cpp_int x = num(a, s), y = num(b, s), n;
            if (op == Op::ADD) n = x + y;
            else if (op == Op::SUB) n = x - y;
            else if (op == Op::MUL) n = x * y;
            else {
                if (y == 0) return is4 ? all_x(W, s) : blank(W, s, false);
                n = op == Op::DIV ? cpp_int(x / y) : cpp_int(x % y);  // truncating
            }
            return from_num(n, W, s, is4);
        }
        case Op::EQ: case Op::NE: case Op::LT: case Op::LE: case Op::GT: case Op::GE: {
            if (xz) return one_bit(2, true);
            cpp_int x = num(a, s), y = num(b, s);
            bool r = op == Op::EQ ? x == y : op == Op::NE ? x != y : op == Op::LT ? x < y
                   : op == Op::LE ? x <= y : op == Op::GT ? x > y : x >= y;
            return one_bit(r, is4);
        }
        case Op::MATCH: case Op::NMATCH: {
            MV x = mv_extend(a, W, s), y = mv_extend(b, W, s);
            bool r = x.same_bits(y);
            return one_bit(op == Op::MATCH ? r : !r, false);
        }
        case Op::SHL: case Op::SHR: case Op::ASHL: case Op::ASHR: {
            if (xz) return all_x(a.w, false);
            cpp_int n = num(b, false);
            MV r = blank(a.w, false, is4);
            int sign = op == Op::ASHR && a.sgn ? a.get(a.w - 1) : 0;
            bool left = op == Op::SHL || op == Op::ASHL;
            int k = n >= a.w ? a.w : static_cast<int>(n);
            for (int i = 0; i < a.w; i++) {
                int p = left ? i - k : i + k;
                r.set(i, p < 0 ? 0 : p >= a.w ? sign : a.get(p));
            }
            return r;
        }
        default: throw std::logic_error("mv_binary");
    }
}

MV mv_unary(Op op, const MV &a) {
    switch (op) {
        case Op::NOT: {
            MV r = blank(a.w, false, a.is4);
            for (int i = 0; i < a.w; i++) r.set(i, bnot(a.get(i)));
            return r;
        }
        case Op::RAND: case Op::RNAND: case Op::ROR: case Op::RNOR: case Op::RXOR: case Op::RXNOR: {
            int acc = a.get(0);
            if (acc > 1) acc = 2;
            for (int i = 1; i < a.w; i++) {
                int b = a.get(i);
                acc = op == Op::RAND || op == Op::RNAND ? band(acc, b)
                    : op == Op::ROR || op == Op::RNOR ? bor(acc, b) : bxor(acc, b);
            }
            if (op == Op::RNAND || op == Op::RNOR || op == Op::RXNOR) acc = bnot(acc);
            return one_bit(acc, a.is4);
        }
        case Op::LNOT: return one_bit(a.has_xz() ? 2 : a.is_zero() ? 1 : 0, a.is4);
        case Op::BOOL: return one_bit(!a.has_xz() && !a.is_zero(), false);
        case Op::NEG: if (a.has_xz()) return all_x(a.w, a.sgn); return from_num(-num(a, false), a.w, a.sgn, a.is4);
        case Op::POS: return a;
        case Op::PREINC: if (a.has_xz()) return all_x(a.w, a.sgn); return from_num(num(a, false) + 1, a.w, a.sgn, a.is4);
        case Op::PREDEC: if (a.has_xz()) return all_x(a.w, a.sgn); return from_num(num(a, false) - 1, a.w, a.sgn, a.is4);
        case Op::TOS: { MV r = a; r.sgn = true; return r; }
        case Op::TOU: { MV r = a; r.sgn = false; return r; }
        default: throw std::logic_error("mv_unary");
    }
}

// ---------------------------------------------------------------- text
static int digit_of(char c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
MV mv_parse(const std::string &text, const TypeD &t) {
    MV r = blank(t.w(), t.sgn, t.is4);
    auto q = text.find('\'');
    if (q == std::string::npos) {
        for (size_t k = 0; k < text.size(); k++) {
            unsigned char c = static_cast<unsigned char>(text[text.size() - 1 - k]);
            for (int j = 0; j < 8; j++) {
                size_t p = k * 8 + size_t(j);
                if (p < size_t(r.w)) r.set(int(p), (c >> j) & 1);
            }
        }
        return r;
    }
    char base = char(tolower(text[q + 1]));
    std::string d;
    for (size_t i = q + 2; i < text.size(); i++) if (text[i] != '_') d += text[i];
    if (base == 'd') {
        cpp_int n = 0;
        for (char c : d) n = n * 10 + (c - '0');
        return from_num(n, r.w, r.sgn, r.is4);
    }
    int k = base == 'b' ? 1 : base == 'o' ? 3 : 4;
    size_t p = 0;
    for (size_t i = d.size(); i-- > 0;) {
        char c = char(tolower(d[i]));
        for (int j = 0; j < k; j++, p++) {
            int s = c == 'x' ? 2 : c == 'z' ? 3 : (digit_of(c) >> j) & 1;
            if (p < size_t(r.w)) r.set(int(p), s);
        }
    }
    return r;
}

static std::string pad(const std::string &s, size_t n, char c) {
    return s.size() >= n ? s : std::string(n - s.size(), c) + s;
}
static char merge(bool x, bool z, bool known) {
    if (!known && x != z) return x ? 'x' : 'z';
    return x ? 'X' : 'Z';
}
std::string mv_format(const MV &a, const std::string &fmt) {
    size_t p = 0;
    while (p < fmt.size() && isdigit(static_cast<unsigned char>(fmt[p]))) p++;
    bool has_width = p > 0;
    uint64_t width = has_width ? std::stoull(fmt.substr(0, p)) : 0;
    char base = p == fmt.size() ? 's' : char(tolower(fmt[p]));
    std::string s;
    switch (base) {
        case 'b': case 'o': case 'h': case 'x': {
            int k = base == 'b' ? 1 : base == 'o' ? 3 : 4;
            for (int lo = 0; lo < a.w; lo += k) {
                int v = 0;
                bool x = false, z = false, known = false;
                for (int j = 0; j < k && lo + j < a.w; j++) {
                    int b = a.get(lo + j);
                    if (b == 2) x = true; else if (b == 3) z = true; else { known = true; v |= b << j; }
                }
                char c = x || z ? merge(x, z, known) : "0123456789abcdef"[v];
                s.insert(s.begin(), c);
            }
            return pad(s, width, '0');
        }
        case 'd': {
            size_t natural = ((cpp_int(1) << a.w) - 1).str().size();
            size_t want = has_width && width == 0 ? 0 : std::max<uint64_t>(natural, width);
            if (a.has_xz()) {
                bool x = false, z = false, known = false;
                for (int i = 0; i < a.w; i++) { int b = a.get(i); if (b == 2) x = true; else if (b == 3) z = true; else known = true; }
                return pad(std::string(1, merge(x, z, known)), want, ' ');
            }
            cpp_int n = num(a, a.sgn);
            if (n < 0) return pad("-" + cpp_int(-n).str(), want ? want + 1 : 0, ' ');
            return pad(n.str(), want, ' ');
        }
        case 's': {
            for (int lo = 0; lo < a.w; lo += 8) {
                int c = 0;
                for (int j = 0; j < 8 && lo + j < a.w; j++) c |= (a.get(lo + j) & 1) << j;
                s.insert(s.begin(), char(c));
            }
            return pad(s, has_width && width == 0 ? 0 : width, ' ');
        }
        default: throw std::logic_error("mv_format");
    }
}

// ---------------------------------------------------------------- entries
static void write_part(MV &d, const TypeD &t, int64_t start, int64_t n, const MV &src) {
    for (int64_t i = 0; i < n; i++) {
        int p = pos_of(t, start + i);
        if (p < 0) continue;
        // the source's least significant bit goes to the least significant addressed bit
        int64_t off = t.be() ? i : n - 1 - i;
        d.set(p, off < src.w ? src.get(int(off)) : 0);
    }
}

void model(const Entry &e, const Ctx &c, std::vector<MV> &exp, std::string &text) {
    const MV &a = c.in[0];
    const MV &b = c.in[1];
    const TypeD ta = e.in.empty() ? TypeD{} : e.in[0];
    auto span = [&](int64_t x, int64_t y, int64_t &start, int64_t &n) { start = std::min(x, y); n = std::max(x, y) - start + 1; };
    switch (e.op) {
        case Op::AND: case Op::OR: case Op::XOR: case Op::ADD: case Op::SUB: case Op::MUL: case Op::DIV: case Op::MOD:
        case Op::EQ: case Op::NE: case Op::LT: case Op::LE: case Op::GT: case Op::GE: case Op::MATCH: case Op::NMATCH:
        case Op::SHL: case Op::SHR: case Op::ASHL: case Op::ASHR:
            exp.push_back(mv_binary(e.op, a, b));
            break;
        case Op::CMPALL:     // EQ NE LT LE GT GE MATCH NMATCH
            for (Op o : {Op::EQ, Op::NE, Op::LT, Op::LE, Op::GT, Op::GE, Op::MATCH, Op::NMATCH}) exp.push_back(mv_binary(o, a, b));
            break;
        case Op::CMPREV:     // 2-state on the left, 4-state on the right: a bool. what is unknown doesn't hold
            for (Op o : {Op::LT, Op::LE, Op::GT, Op::GE}) {
                MV r = mv_binary(o, a, b);
                r.v[0] &= ~r.m[0];
                r.m[0] = 0;
                exp.push_back(r);
            }
            break;
        case Op::ANDE: case Op::ORE: case Op::XORE: case Op::SHLE: case Op::SHRE: {
            Op o = e.op == Op::ANDE ? Op::AND : e.op == Op::ORE ? Op::OR : e.op == Op::XORE ? Op::XOR : e.op == Op::SHLE ? Op::SHL : Op::SHR;
            MV r = mv_extend(mv_binary(o, a, b), a.w, false);
            r.sgn = a.sgn; r.is4 = a.is4;
            exp.push_back(r);
            break;
        }
        case Op::NOT: case Op::RAND: case Op::RNAND: case Op::ROR: case Op::RNOR: case Op::RXOR: case Op::RXNOR:
        case Op::LNOT: case Op::BOOL: case Op::NEG: case Op::POS: case Op::TOS: case Op::TOU:
            exp.push_back(mv_unary(e.op, a));
            break;
        case Op::PREINC: case Op::PREDEC: {          // [returned, variable]
            MV r = mv_unary(e.op, a);
            exp.push_back(r); exp.push_back(r);
            break;
        }
        case Op::POSTINC: case Op::POSTDEC:
            exp.push_back(a);
            exp.push_back(mv_unary(e.op == Op::POSTINC ? Op::PREINC : Op::PREDEC, a));
            break;
        case Op::EXTEND: exp.push_back(mv_extend(a, e.ip[0], a.sgn)); break;
        case Op::CONSTRUCT: case Op::ASSIGN: exp.push_back(mv_convert(a, e.outs[0])); break;
        case Op::CONSTRUCT_INT: case Op::ASSIGN_INT: {
            // ip[0]: source is signed
            const TypeD &t = e.outs[0];
            exp.push_back(e.ip[0] ? mv_from_i64(c.iarg[0], t.w(), t.sgn, t.is4)
                                  : mv_from_u64(uint64_t(c.iarg[0]), t.w(), t.sgn, t.is4));
            break;
        }
        case Op::DEFAULT: {
            const TypeD &t = e.outs[0];
            MV r = t.is4 ? all_x(t.w(), t.sgn) : blank(t.w(), t.sgn, false);
            r.sgn = t.sgn;
            exp.push_back(r);
            break;
        }
        case Op::READNUM: {   // to_uint64 then, up to 64 bits, to_num, both as 64-bit patterns
            MV z = blank(64, false, false);
            if (!a.has_xz()) z = from_num(num(a, a.sgn && a.w <= 64), 64, false, false);
            exp.push_back(z);
            if (a.w <= 64) exp.push_back(z);
            break;
        }
        case Op::BITSEL: {
            int64_t idx = 0; bool ok = true;
            if (e.ip.size() == 1) idx = e.ip[0];
            else if (!e.ia.empty()) idx = c.iarg[0];
            else idx = mv_index(b, ok);
            int p = ok ? pos_of(ta, idx) : -1;
            exp.push_back(one_bit(p < 0 ? (a.is4 ? 2 : 0) : a.get(p), a.is4));
            break;
        }
        case Op::PARTC: case Op::PARTR: {
            int64_t x = e.op == Op::PARTC ? e.ip[0] : c.iarg[0], y = e.op == Op::PARTC ? e.ip[1] : c.iarg[1], s, n;
            span(x, y, s, n);
            exp.push_back(mv_slice(a, int(s - ta.lo()), int(n), a.is4));
            break;
        }
        case Op::IPARTUP: case Op::IPARTDN: {
            bool ok; int64_t n = e.ip[0], idx = mv_index(b, ok);
            if (!ok) { exp.push_back(mv_slice(a, -100000, int(n), a.is4)); break; }
            int64_t s = e.op == Op::IPARTUP ? idx : idx - n + 1;
            exp.push_back(mv_slice(a, int(s - ta.lo()), int(n), a.is4));
            break;
        }
        case Op::SETBIT: case Op::SETLOGIC: {
            // set the bit at a static (ip) or run-time (iarg[0]) index to in[1]'s bit 0
            int64_t idx = e.ip.size() ? e.ip[0] : c.iarg[0];
            MV r = a;
            int p = pos_of(ta, idx);
            if (p >= 0) r.set(p, b.get(0));
            exp.push_back(r);
            break;
        }
        case Op::UPDC: case Op::UPDR: {
            int64_t x = e.op == Op::UPDC ? e.ip[0] : c.iarg[0], y = e.op == Op::UPDC ? e.ip[1] : c.iarg[1], s, n;
            span(x, y, s, n);
            MV r = a;
            write_part(r, ta, s, n, b);
            exp.push_back(r);
            break;
        }
        case Op::IUPDUP: case Op::IUPDDN: {   // in: dest, source, base
            bool ok; int64_t n = e.ip[0], idx = mv_index(c.in[2], ok);
            MV r = a;
            if (ok) write_part(r, ta, e.op == Op::IUPDUP ? idx : idx - n + 1, n, b);
            exp.push_back(r);
            break;
        }
        case Op::CONCAT: {
            MV r = a;
            for (size_t i = 1; i < e.in.size(); i++) r = mv_concat(r, c.in[i]);
            exp.push_back(r);
            break;
        }
        case Op::UNPACK: {
            int pos = a.w;
            for (auto &t : e.outs) {
                MV r = mv_slice(a, pos - t.w(), t.w(), a.is4 || t.is4);
                pos -= t.w();
                r.sgn = t.sgn; r.is4 = t.is4;
                exp.push_back(r);
            }
            break;
        }
        case Op::PARSE: exp.push_back(mv_parse(c.sarg, e.outs[0])); break;
        case Op::FORMAT: text = mv_format(a, c.sarg); break;
        default: throw std::logic_error("model: op");
    }
}

// C04: ashr of a negative signed multi-word value by less than its width loses one sign bit,
// as tests/test_logic.cc arithmetic_shift_right requires.
std::string classify(const Entry &e, const Ctx &c, const std::vector<MV> &exp) {
    if (e.op == Op::ASHR && c.in[0].sgn && c.in[0].w > 64 && exp.size() == 1 && !c.in[0].has_xz() && !c.in[1].has_xz() &&
        c.in[0].get(c.in[0].w - 1) == 1) {
        cpp_int n = num(c.in[1], false);
        if (n < c.in[0].w) {
            MV r = exp[0];
            r.set(c.in[0].w - 1 - static_cast<int>(n), 0);
            if (r.same_bits(c.out[0])) return "wide-signed-ashr-clears-bit";
        }
    }
    return "";
}

}  // namespace mv
