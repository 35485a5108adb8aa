#include <exception>
#include <memory>
#include "hist.hh"
// Texts no one should write: an exception is an answer, touching memory outside the text or the
// destination is not.
template <class X> void f_text(Ctx &c) {
    std::string t;
    TypeD d = ty<X>();
    switch (c.below(8)) {
        case 0: t = mv::gen_literal(c, d); if (!t.empty()) t.resize(c.below(t.size() + 1)); break;
        case 1: t = mv::gen_literal(c, d); t.insert(c.below(t.size() + 1), 1, char(c.next())); break;
        case 2: { static const char a[] = "'''0123456789abcdefxzXZ_?bodhBODHs -+"; size_t n = c.below(40); for (size_t i = 0; i < n; i++) t += a[c.below(sizeof a - 1)]; break; }
        case 3: { static const char *odd[] = {"", "'", "''", "8'", "'b", "'h", "'d", "'o", "'h_", "'d_", "'b____", "8'h", "'q12", "'1", "'sd5", "'hx", "'d?", "999999999999999999999'h1", "'hZZZZ", "'", "_", "'_", "0'b", "'dx", "'o8", "'b2"}; t = odd[c.below(std::size(odd))]; break; }
        case 4: { t = std::string("'") + "bodh"[c.below(4)]; size_t n = c.below(4) ? c.below(300) : c.below(20000); for (size_t i = 0; i < n; i++) t += "0123456789abcdefxz_"[c.below(19)]; break; }
        case 5: { size_t n = c.below(200); for (size_t i = 0; i < n; i++) t += char(c.next()); break; }
        case 6: { size_t n = c.below(100); t = std::to_string(c.next()) + "'" + "bodhBODH"[c.below(8)]; t.append(n, "0fx1_"[c.below(5)]); break; }
        default: t = mv::gen_literal(c, TypeD{int(c.below(3000)), 0, false, c.below(2) != 0});
    }
    c.trace = t;
    c.steps = 1;
    for (char ch : t) c.digest = mv::hmix(c.digest, uint8_t(ch));
    std::unique_ptr<char[]> p(new char[t.size()]);
    std::memcpy(p.get(), t.data(), t.size());
    try {
        std::unique_ptr<X> x(new X(std::string_view(p.get(), t.size())));
        defined(*x);
        c.out[0].v[0] = x->str("h").size();
    } catch (const std::exception &) {}
}
// Formats no one should write.
template <class X> void f_format(Ctx &c) {
    std::string t;
    switch (c.below(6)) {
        case 0: { static const char *odd[] = {"", "0", "5", "99", "%d", "d5", "0x", "q", "5q", "00d", "007b", "18446744073709551616d", "-5d", " b", "b b", "1000000b", "70000h", "50000s", "12345d"}; t = odd[c.below(std::size(odd))]; break; }
        case 1: t = std::to_string(c.below(3000)) + "bodhxsBODHXS"[c.below(12)]; break;
        case 2: { size_t n = c.below(4); for (size_t i = 0; i < n; i++) t += char(c.next()); if (!t.empty() && isdigit((unsigned char)t[0])) t.resize(1); break; }
        default: t = c.below(2) ? std::to_string(c.below(100)) : ""; t += "bodhxsBODHXS"[c.below(12)];
    }
    MV m = gen(c, ty<X>());
    c.trace = m.str() + " as " + t;
    c.steps = 1;
    c.digest = mv::hmix(mv::hmix(m.v[0], m.m[0]), t.size() * 257 + (t.empty() ? 0 : uint8_t(t.back())));
    std::unique_ptr<char[]> p(new char[t.size()]);
    std::memcpy(p.get(), t.data(), t.size());
    try {
        std::string r = make<X>(m).str(std::string_view(p.get(), t.size()));
        uint64_t h = 0;
        for (char ch : r) h = mv::hmix(h, uint8_t(ch));   // uses every character
        if (h == 12345) c.trace += "!";
    } catch (const std::exception &) {}
}
static void rg(const std::string &name, mv::Fn f) { Entry e; e.name = name; e.op = Op::CUSTOM; e.fn = f; reg(e); }
template <class X> void both() { rg("TEXT " + ty<X>().str(), &f_text<X>); rg("FORMATS " + ty<X>().str(), &f_format<X>); }
SUITE(c19) {
    each<WIDTHS>([]<size_t I>() {
        constexpr int w = WIDTHS[I];
        constexpr bool s = I % 2;
        both<LW<w, s>>(); both<BW<w, !s>>();
    });
}
