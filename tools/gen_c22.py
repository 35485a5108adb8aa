#!/usr/bin/env python3
"""gen_c22.py SEED PART NPROGRAMS NSTATEMENTS > suite.cc: random programs over typed variables, every
statement with a library side and a model side."""
import random, sys

seed, part, nprog, nstat = (int(a) for a in sys.argv[1:5])
R = random.Random("c22-%d-%d" % (seed, part))
WIDTHS = [1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 20, 24, 31, 32, 33, 40, 48, 62, 63, 64, 65, 66, 70, 90, 96, 100, 127, 128, 129, 150, 160, 191, 192, 193, 200, 256, 300]
MAXW = 520


class E:
    """an expression: library text, model text, kind, width, signedness"""
    def __init__(s, lib, mod, is4, w, sgn):
        s.lib, s.mod, s.is4, s.w, s.sgn = lib, mod, is4, w, sgn

    def ty(s):
        return "VW<%d,%s,%s>" % (s.w, tf(s.sgn), tf(s.is4))


class Var:
    def __init__(s, n, msb, lsb, sgn, is4):
        s.n, s.msb, s.lsb, s.sgn, s.is4 = n, msb, lsb, sgn, is4
        s.w = abs(msb - lsb) + 1
        s.zero = lsb == 0 and msb >= 0
        s.lo, s.hi = min(msb, lsb), max(msb, lsb)
        s.lib, s.mod = "s.v%d" % n, "s.m%d" % n
        s.td = "TypeD{%d, %d, %s, %s}" % (msb, lsb, tf(sgn), tf(is4))
        s.ty = "%s<%d, %d, %s>" % ("L" if is4 else "B", msb, lsb, tf(sgn))

    def e(s):
        return E(s.lib, s.mod, s.is4, s.w, s.sgn)


def tf(b):
    return "true" if b else "false"


def sign(e, s=None):
    s = R.random() < .5 if s is None else s
    return E("(%s).to_%s()" % (e.lib, "signed" if s else "unsigned"), "sg(%s, %s)" % (e.mod, tf(s)), e.is4, e.w, s)


class Prog:
    def __init__(s, idx):
        s.idx = idx
        s.vars, s.pre = [], []
        def w(lo, hi):
            return R.choice([x for x in WIDTHS if lo <= x <= hi])
        for lo, hi, is4 in [(1, 8, 1), (1, 33, 1), (9, 64, 1), (20, 64, 1), (31, 64, 1), (65, 128, 1), (65, 200, 1), (129, 300, 1), (1, 16, 0), (17, 64, 0), (33, 64, 0), (65, 300, 0), (65, 128, 0)]:
            s.add(w(lo, hi) - 1, 0, bool(is4))
        b = R.choice([2, 4, 7, 64, -3]); n = w(2, 200); s.add(n - 1 + b, b, True)
        b = R.choice([1, 5, 63, -9]); n = w(2, 200); s.add(n - 1 + b, b, False)
        b = R.choice([0, 1, 60, -5]); n = w(2, 150); s.add(b, n - 1 + b, True)
        b = R.choice([0, 3, 62]); n = w(2, 150); s.add(b, n - 1 + b, False)
        # arrays: element width, bounds
        s.arr = []
        for is4 in (True, False):
            ew = w(1, 100); m, l = R.choice([(3, 0), (0, 2), (5, 3), (1, 4), (-1, -3)])
            s.arr.append((len(s.arr), ew, m, l, is4, R.random() < .5))
        s.un = []
        ew = w(1, 200); m, l = R.choice([(3, 0), (0, 2), (6, 3), (-2, 1)])
        s.un.append((0, ew, m, l, R.random() < .6, R.random() < .5))
        s.stats = [s.statement() for _ in range(nstat)]

    def add(s, msb, lsb, is4):
        s.vars.append(Var(len(s.vars), msb, lsb, R.random() < .45, is4))

    def var(s, is4=None, f=lambda v: True):
        return R.choice([v for v in s.vars if (is4 is None or v.is4 == is4) and f(v)])

    def rt(s, text):
        """a run-time integer"""
        n = "i%d" % len(s.pre)
        s.pre.append("int %s = %s;" % (n, text))
        return n

    # ---- expressions
    def leaf(s, is4):
        v = s.var(is4, lambda v: v.zero)
        k = R.random()
        if k < .72:
            return v.e()
        if k < .82:
            return s.select(is4)
        if k < .9:   # a number
            w = R.choice(WIDTHS); sg = R.random() < .5
            n = R.choice([0, 1, 2, 3, 5, 7, 10, 63, 64, 65, 100, 255, R.getrandbits(16), R.getrandbits(32), R.getrandbits(63)])
            return E("VW<%d,%s,%s>(uint64_t{%du})" % (w, tf(sg), tf(is4), n), "mv::mv_from_u64(%dull, %d, %s, %s)" % (n, w, tf(sg), tf(is4)), is4, w, sg)
        if k < .95:
            return s.element(is4)
        w = R.choice(WIDTHS); sg = R.random() < .5
        t = s.literal(w, is4)
        return E('VW<%d,%s,%s>(std::string_view("%s"))' % (w, tf(sg), tf(is4), t), 'mv::mv_parse("%s", T%d(%d, %s))' % (t, 4 if is4 else 2, w, tf(sg)), is4, w, sg)

    def literal(s, w, is4):
        b = R.choice("bohd")
        n = R.randint(1, {"b": w + 3, "o": w // 3 + 3, "h": w // 4 + 3, "d": min(w // 4 + 2, 40)}[b])
        d = {"b": "01", "o": "01234567", "h": "0123456789abcdefABCDEF", "d": "0123456789"}[b]
        if is4 and b != "d" and R.random() < .3:
            d += "xzXZ"
        t = "".join(R.choice(d) + ("_" if R.random() < .05 and i < n - 1 else "") for i in range(n))
        return R.choice(["", str(w)]) + "'" + b + t

    def element(s, is4):
        a = [x for x in s.arr if x[4] == is4]
        if a and R.random() < .7:
            i, ew, m, l, _, sg = a[0]
            ix = s.index(True, min(m, l), max(m, l))
            return E("s.a%d[%s]" % (i, ix.lib), "element(s.n%d, %d, %d, %d, %s)" % (i, min(m, l), max(m, l), ew, ix.mod), is4, ew, False) if False else sign(
                E("s.a%d[%s]" % (i, ix.lib), "element(s.n%d, %d, %d, %d, %s)" % (i, min(m, l), max(m, l), ew, ix.mod), is4, ew, False))
        u = [x for x in s.un if x[4] == is4]
        if u:
            i, ew, m, l, _, sg = u[0]
            lo, hi = min(m, l), max(m, l)
            k = s.rt("%d + int(c.below(%d))" % (lo - 1, hi - lo + 3))
            return E("s.u%d[%s]" % (i, k), "s.uget%d(%s)" % (i, k), is4, ew, sg)
        return s.var(is4, lambda v: v.zero).e()

    def index(s, logic_only, lo, hi):
        """an index expression; mostly small"""
        k = R.random()
        if k < .4:
            w = R.choice([8, 12, 16, 32, 70])
            i = s.rt("%d + int(c.below(%d))" % (lo - 1, hi - lo + 3))
            return E("VW<%d,true,true>(int64_t{%s})" % (w, i), "mv::mv_from_i64(%s, %d, true, true)" % (i, w), True, w, True)
        is4 = True if logic_only else R.random() < .6
        v = s.var(is4, lambda v: v.zero)
        n = max(1, (hi - lo + 1).bit_length())
        if v.w > n and k < .9:   # low bits of a variable
            return E("%s.slice<%d, 0>()" % (v.lib, n - 1), "part(%s, 0, %d, 0)" % (v.mod, n - 1), is4, n, False)
        return v.e()

    def select(s, is4):
        """bit and part selects of a variable"""
        v = s.var(is4)
        be = v.msb >= v.lsb
        k = R.random()
        if not be or v.w == 1 or k < .25:
            if R.random() < .5:
                i = s.rt("%d + int(c.below(%d))" % (v.lo - 1, v.w + 2))
                return E("k1<%s>(%s[%s])" % (tf(is4), v.lib, i), "bitat(%s, %s, %s)" % (v.mod, v.td, i), is4, 1, False)
            ix = s.index(True, v.lo, v.hi) if is4 else s.index2(v)
            return E("k1<%s>(%s.get(%s))" % (tf(is4), v.lib, ix.lib), "bitsel(%s, %s, %s)" % (v.mod, v.td, ix.mod), is4, 1, False)
        if k < .55:
            a, b = sorted((R.randint(v.lo, v.hi), R.randint(v.lo, v.hi)))
            return E("%s.slice<%d, %d>()" % (v.lib, b, a), "part(%s, %d, %d, %d)" % (v.mod, v.lo, b, a), is4, b - a + 1, False)
        n = R.randint(1, v.w)
        if k < .8:
            i = s.rt("%d + int(c.below(%d))" % (v.lo - 2, v.w + 4))
            x, y = ("%s + %d" % (i, n - 1), i)
            if R.random() < .3: x, y = y, x
            return E("%s.slice<%d>(%s, %s)" % (v.lib, n, x, y), "part(%s, %d, %s, %s)" % (v.mod, v.lo, x, y), is4, n, False)
        up = tf(R.random() < .5)
        ix = s.index(True, v.lo, v.hi) if is4 else s.index2(v)
        return E("%s.slice<%d, %s>(%s)" % (v.lib, n, up, ix.lib), "ipart(%s, %d, %s, %d, %s)" % (v.mod, v.lo, ix.mod, n, up), is4, n, False)

    def index2(s, v):
        """an index of a 2-state value"""
        i = s.rt("%d + int(c.below(%d))" % (v.lo - 1, v.w + 2))
        if R.random() < .6:
            w = R.choice([12, 32, 64, 80])
            return E("BW<%d,true>(int64_t{%s})" % (w, i), "mv::mv_from_i64(%s, %d, true, false)" % (i, w), False, w, True)
        b = s.var(False, lambda v: v.zero)
        return b.e()

    def expr(s, d, is4):
        if d <= 0 or R.random() < .12:
            return s.leaf(is4)
        k = R.random()
        if k < .42:
            a = s.expr(d - 1, is4)
            b = s.expr(d - 1, is4 and R.random() < .8)
            op, o = R.choice([("&", "AND"), ("|", "OR"), ("^", "XOR"), ("+", "ADD"), ("-", "SUB"), ("+", "ADD"), ("-", "SUB"), ("*", "MUL"), ("/", "DIV"), ("%", "MOD")])
            if is4 and not b.is4 and o in ("AND", "OR", "XOR", "ADD", "SUB", "MUL", "DIV", "MOD") and R.random() < .3:
                b = E("tl(%s)" % b.lib, "k4(%s)" % b.mod, True, b.w, b.sgn)
            return E("(%s %s %s)" % (a.lib, op, b.lib), "mv_binary(Op::%s, %s, %s)" % (o, a.mod, b.mod), is4, max(a.w, b.w), a.sgn and b.sgn)
        if k < .52:
            a = s.expr(d - 1, is4)
            b = s.expr(d - 1, is4 and R.random() < .8)
            op, o = R.choice([("==", "EQ"), ("!=", "NE"), ("<", "LT"), ("<=", "LE"), (">", "GT"), (">=", "GE")])
            return E("k1<%s>(%s %s %s)" % (tf(is4), a.lib, op, b.lib), "mv_binary(Op::%s, %s, %s)" % (o, a.mod, b.mod), is4, 1, False)
        if k < .55:
            a, b = s.expr(d - 1, is4), s.expr(d - 1, is4)
            o = R.choice(["match", "nmatch"])
            r = E("k1<false>(%s.%s(%s))" % (a.lib, o, b.lib), "mv_binary(Op::%s, %s, %s)" % (o.upper(), a.mod, b.mod), False, 1, False)
            return E("tl(%s)" % r.lib, "k4(%s)" % r.mod, True, 1, False) if is4 else r
        if k < .63:
            a = s.expr(d - 1, is4)
            f = R.choice(["r_and", "r_or", "r_xor", "r_nand", "r_nor", "r_xnor", "!", "bool"])
            if f == "!":
                return E("k1<%s>(!%s)" % (tf(is4), a.lib), "mv_unary(Op::LNOT, %s)" % a.mod, is4, 1, False)
            if f == "bool":
                r = E("k1<false>(static_cast<bool>(%s))" % a.lib, "mv_unary(Op::BOOL, %s)" % a.mod, False, 1, False)
                return E("tl(%s)" % r.lib, "k4(%s)" % r.mod, True, 1, False) if is4 else r
            return E("k1<%s>(%s.%s())" % (tf(is4), a.lib, f), "mv_unary(Op::%s, %s)" % (f.upper().replace("_", ""), a.mod), is4, 1, False)
        if k < .70:
            a = s.expr(d - 1, is4)
            if R.random() < .5:
                return sign(E("~%s" % a.lib, "mv_unary(Op::NOT, %s)" % a.mod, is4, a.w, False))
            return sign(E("-%s" % a.lib, "mv_unary(Op::NEG, %s)" % a.mod, is4, a.w, a.sgn))
        if k < .80:
            a = s.expr(d - 1, is4)
            b = s.amount(d - 1, is4, a.w)
            o = R.choice(["<<", ">>", "ashl", "ashr"] if b.is4 == a.is4 else ["<<", ">>"])
            if o == "ashr" and a.sgn and a.w > 64:
                a = sign(a, False)
            lib = "(%s %s %s)" % (a.lib, o, b.lib) if o[0] != "a" else "%s.%s(%s)" % (a.lib, o, b.lib)
            return sign(E(lib, "mv_binary(Op::%s, %s, %s)" % ({"<<": "SHL", ">>": "SHR", "ashl": "ASHL", "ashr": "ASHR"}[o], a.mod, b.mod), is4, a.w, False))
        if k < .86:
            a = s.expr(d - 1, is4)
            n = min(MAXW, a.w + R.choice([0, 1, 3, 20, 63, 64, 65]))
            if R.random() < .5 and n >= a.w:
                return E("%s.extend<%d>()" % (a.lib, n), "mv_extend(%s, %d, %s)" % (a.mod, n, tf(a.sgn)), is4, n, a.sgn)
            return sign(a)
        if k < .92:
            a, b = s.expr(d - 1, is4), s.expr(d - 1, is4 and R.random() < .7)
            if a.w + b.w > MAXW:
                return a
            free = R.random() < .5
            return sign(E("::logic::concat(%s, %s)" % (a.lib, b.lib) if free else "%s.concat(%s)" % (a.lib, b.lib), "mv_concat(%s, %s)" % (a.mod, b.mod), is4, a.w + b.w, False))
        if k < .96:
            c0 = s.expr(d - 1, R.random() < .5)
            a, b = s.expr(d - 1, is4), s.expr(d - 1, is4)
            w, sg = R.choice([a, b]).w, R.random() < .5
            t = "VW<%d,%s,%s>" % (w, tf(sg), tf(is4)); td = "T%d(%d, %s)" % (4 if is4 else 2, w, tf(sg))
            return E("(static_cast<bool>(%s) ? as<%s>(%s) : as<%s>(%s))" % (c0.lib, t, a.lib, t, b.lib), "(truth(%s) ? mv_convert(%s, %s) : mv_convert(%s, %s))" % (c0.mod, a.mod, td, b.mod, td), is4, w, sg)
        a = s.expr(d - 1, is4)   # a part of an intermediate value
        x, y = sorted((R.randint(0, a.w - 1), R.randint(0, a.w - 1)))
        return E("%s.slice<%d, %d>()" % (a.lib, y, x), "part(%s, 0, %d, %d)" % (a.mod, y, x), is4, y - x + 1, False)

    def amount(s, d, is4, w):
        if R.random() < .7:
            i = s.rt("int(c.below(%d))" % (w + 3))
            n = R.choice([9, 12, 16, 64, 65])
            return E("VW<%d,false,%s>(uint64_t(%s))" % (n, tf(is4), i), "mv::mv_from_u64(uint64_t(%s), %d, false, %s)" % (i, n, tf(is4)), is4, n, False)
        return s.expr(min(d, 1), is4 and R.random() < .8)

    # ---- statements: (library text, model text)
    def assign(s, v, e):
        """v = e, for e of v's kind or a 2-state e for a 4-state v"""
        if v.is4 and not e.is4:
            e = E("tl(%s)" % e.lib, "k4(%s)" % e.mod, True, e.w, e.sgn)
        return "%s = %s;" % (v.lib, e.lib), "%s = mv_convert(%s, %s);" % (v.mod, e.mod, v.td)

    def value(s, v, d=None):
        is4 = v.is4 and R.random() < .85
        return s.expr(R.choice([1, 2, 2, 3, 3, 4]) if d is None else d, is4)

    def statement(s):
        s.pre = []
        lib, mod, text = s.stat()
        return s.pre, lib, mod, text or lib

    def stat(s):
        k = R.random()
        if k < .42:
            v = s.var()
            l, m = s.assign(v, s.value(v))
            return l, m, None
        if k < .48:
            v = s.var(None, lambda v: v.zero)
            e = s.expr(2, v.is4)
            op, o = R.choice([("&=", "AND"), ("|=", "OR"), ("^=", "XOR")])
            return "%s %s %s;" % (v.lib, op, e.lib), "%s = mv_convert(sg(mv_binary(Op::%s, %s, %s), false), %s);" % (v.mod, o, v.mod, e.mod, v.td), None
        if k < .51:
            v = s.var(None, lambda v: v.zero)
            e = s.amount(2, v.is4, v.w)
            if e.is4 != v.is4:
                e = E("tl(%s)" % e.lib, "k4(%s)" % e.mod, True, e.w, e.sgn)
            op, o = R.choice([("<<=", "SHL"), (">>=", "SHR")])
            return "%s %s %s;" % (v.lib, op, e.lib), "%s = mv_convert(sg(mv_binary(Op::%s, %s, %s), false), %s);" % (v.mod, o, v.mod, e.mod, v.td), None
        if k < .56:
            v = s.var(None, lambda v: v.zero)
            t = s.var(v.is4)
            f, o = R.choice([("++%s", "PREINC"), ("--%s", "PREDEC"), ("%s++", "PREINC"), ("%s--", "PREDEC")])
            post = f[0] == "%"
            if R.random() < .4 or t is v:
                return (f % v.lib) + ";", "%s = sg(mv_unary(Op::%s, %s), %s);" % (v.mod, o, v.mod, tf(v.sgn)), None
            a = "%s = mv_convert(%s, %s); " % (t.mod, v.mod, t.td)
            b = "%s = sg(mv_unary(Op::%s, %s), %s); " % (v.mod, o, v.mod, tf(v.sgn))
            return "%s = %s;" % (t.lib, f % v.lib), a + b if post else b + a, None
        if k < .62:   # bit writes
            v = s.var()
            i = s.rt("%d + int(c.below(%d))" % (v.lo - 1, v.w + 2))
            if R.random() < .5:
                e = s.expr(2, v.is4)
                e = E("k1<%s>(%s.r_xor())" % (tf(v.is4), e.lib), "mv_unary(Op::RXOR, %s)" % e.mod, v.is4, 1, False)
                return "%s.set(%s, %s);" % (v.lib, i, e.lib), "{ MV e = %s; int p = mv::pos_of(%s, %s); if (p >= 0) %s.set(p, e.get(0)); }" % (e.mod, v.td, i, v.mod), None
            if v.is4 and R.random() < .3:
                x = R.random() < .5
                return "%s.set_%s(%s);" % (v.lib, "x" if x else "z", i), "{ int p = mv::pos_of(%s, %s); if (p >= 0) %s.set(p, %d); }" % (v.td, i, v.mod, 2 if x else 3), None
            b = s.rt("int(c.below(2))")
            return "%s.set(%s, %s == 1);" % (v.lib, i, b), "{ int p = mv::pos_of(%s, %s); if (p >= 0) %s.set(p, %s); }" % (v.td, i, v.mod, b), None
        if k < .74:   # part writes
            v = s.var()
            e = s.expr(R.choice([0, 1, 2, 3]), v.is4)
            q = R.random()
            if q < .4:
                a, b = sorted((R.randint(v.lo, v.hi), R.randint(v.lo, v.hi)))
                hi, lo = (b, a) if v.msb >= v.lsb else (a, b)
                if v.is4 and v.msb < v.lsb and a == b:
                    hi, lo = v.msb, v.lsb
                t = "%s.update<%d, %d>(%s);" % (v.lib, hi, lo, e.lib) if R.random() < .5 else "%s.slice_ref<%d, %d>() = %s;" % (v.lib, hi, lo, e.lib)
                return t, "{ MV e = %s; wpart(%s, %s, %d, %d, e); }" % (e.mod, v.mod, v.td, hi, lo), None
            if q < .75:
                i = s.rt("%d + int(c.below(%d))" % (v.lo - 2, v.w + 4))
                j = s.rt("%d + int(c.below(%d))" % (v.lo - 2, v.w + 4))
                t = "%s.update(%s, %s, %s);" % (v.lib, i, j, e.lib) if R.random() < .5 else "%s.slice_ref(%s, %s) = %s;" % (v.lib, i, j, e.lib)
                return t, "{ MV e = %s; wpart(%s, %s, %s, %s, e); }" % (e.mod, v.mod, v.td, i, j), None
            n = R.randint(1, v.w); up = tf(R.random() < .5)
            ix = s.index(True, v.lo, v.hi) if v.is4 else s.index2(v)
            return "%s.slice_ref<%d, %s>(%s) = %s;" % (v.lib, n, up, ix.lib, e.lib), "{ MV e = %s, b = %s; wipart(%s, %s, b, %d, %s, e); }" % (e.mod, ix.mod, v.mod, v.td, n, up), None
        if k < .79:   # unpacking
            is4 = R.random() < .6
            n = R.choice([2, 2, 3, 4])
            # 4-state targets take the bits of either kind, 2-state targets only 2-state bits
            t = R.sample([v for v in s.vars if v.is4 or not is4], n)
            if is4:
                t = [v for v in t if v.is4] or [s.var(True)]
            tot = sum(v.w for v in t)
            e = s.expr(2, is4)
            lib = "{ auto t = as<VW<%d,%s,%s>>(%s); t.unpack(%s); }" % (tot, tf(e.sgn), tf(is4), e.lib, ", ".join(v.lib for v in t))
            mod = "{ MV e = mv_convert(%s, T%d(%d, %s)); " % (e.mod, 4 if is4 else 2, tot, tf(e.sgn))
            pos = tot
            for v in t:
                pos -= v.w
                mod += "%s = mv_slice(e, %d, %d, %s); %s.sgn = %s; %s.is4 = %s; " % (v.mod, pos, v.w, tf(is4), v.mod, tf(v.sgn), v.mod, tf(v.is4))
            return lib, mod + "}", None
        if k < .83:   # literals
            v = s.var()
            return "{ std::string t = mv::gen_literal(c, %s); s.txt = t; %s = %s(std::string_view(t)); }" % (v.td, v.lib, v.ty), "%s = mv::mv_parse(s.txt, %s);" % (v.mod, v.td), None
        if k < .89:   # text, parsed back into another variable by its characters or digits
            v = s.var()
            if R.random() < .5:
                e = s.expr(2, v.is4)
            else:
                e = v.e()
            t = s.var()
            if R.random() < .5:
                b = R.choice("bho")
                lib = "{ auto e = %s; s.lt = e.str(\"%s\"); MV m; store(e, m); if (!m.has_xz()) %s = %s(std::string_view(\"'%s\" + s.lt)); }" % (e.lib, b, t.lib, t.ty, b)
                mod = "{ MV e = %s; s.mt = mv::mv_format(e, \"%s\"); if (!e.has_xz()) %s = mv::mv_parse(\"'%s\" + s.mt, %s); }" % (e.mod, b, t.mod, b, t.td)
                return lib, mod, None
            return "{ auto e = %s; s.lt = e.str(s.fmt); }" % e.lib, "{ MV e = %s; s.mt = mv::mv_format(e, s.fmt); }" % e.mod, ("fmt", e.mod, "{ auto e = %s; s.lt = e.str(s.fmt); }" % e.lib)
        if k < .91:   # numbers
            a, t = s.var(None, lambda v: v.zero), s.var()
            return "%s = %s.to_uint64();" % (t.lib, a.lib), "{ uint64_t n = %s.has_xz() ? 0 : mv_extend(%s, 64, %s).v[0]; %s = mv::mv_from_u64(n, %d, %s, %s); }" % (a.mod, a.mod, tf(a.sgn and a.w <= 64), t.mod, t.w, tf(t.sgn), tf(t.is4)), None
        if k < .95:   # arrays
            if R.random() < .65:
                i, ew, m, l, is4, sg = R.choice(s.arr)
                lo, hi = min(m, l), max(m, l)
                e = s.expr(2, is4)
                if R.random() < .75:
                    ix = s.index(True, lo, hi)
                    return "s.a%d.update(%s, %s);" % (i, ix.lib, e.lib), "{ MV e = %s, x = %s; welement(s.n%d, %d, %d, %d, x, e); }" % (e.mod, ix.mod, i, lo, hi, ew), None
                a, b = sorted((R.randint(lo, hi), R.randint(lo, hi)))
                return "s.a%d.update<%d, %d>(%s);" % (i, b, a, e.lib), "{ MV e = %s; for (int q = 0; q < %d; q++) s.n%d.set(%d + q, q < e.w ? e.get(q) : 0); }" % (e.mod, (b - a + 1) * ew, i, (a - lo) * ew), None
            i, ew, m, l, is4, sg = s.un[0]
            lo, hi = min(m, l), max(m, l)
            k = R.randint(lo - 1, hi + 1)
            e = s.expr(2, is4)
            t = "VW<%d,%s,%s>" % (ew, tf(sg), tf(is4))
            return "s.u%d.update<%d>(as<%s>(%s));" % (i, k, t, e.lib), "s.uset%d(%d, mv_convert(%s, T%d(%d, %s)));" % (i, k, e.mod, 4 if is4 else 2, ew, tf(sg)), None
        if k < .98:   # control flow
            c0 = s.expr(2, R.random() < .6)
            v, w = s.var(), s.var()
            l1, m1 = s.assign(v, s.value(v, 2))
            l2, m2 = s.assign(w, s.value(w, 2))
            return "if (%s) { %s } else { %s }" % (c0.lib if False else "static_cast<bool>(%s)" % c0.lib, l1, l2), "if (truth(%s)) { %s } else { %s }" % (c0.mod, m1, m2), None
        v = s.var()
        l, m = s.assign(v, s.value(v, 3))
        n = R.randint(2, 6)
        return "for (int q = 0; q < %d; q++) { %s }" % (n, l), "for (int q = 0; q < %d; q++) { %s }" % (n, m), None

    def emit(s, o):
        n = "P%d" % s.idx
        o("struct %s {" % n)
        o("    std::string lt, mt, txt, fmt;")
        for v in s.vars:
            o("    %s v%d; MV m%d;" % (v.ty, v.n, v.n))
        for i, ew, m, l, is4, sg in s.arr:
            o("    packed_array<VW<%d,%s,%s>, %d, %d> a%d; MV n%d;" % (ew, tf(sg), tf(is4), m, l, i, i))
        for i, ew, m, l, is4, sg in s.un:
            lo, hi = min(m, l), max(m, l)
            o("    unpacked_array<VW<%d,%s,%s>, %d, %d> u%d; MV w%d[%d];" % (ew, tf(sg), tf(is4), m, l, i, i, hi - lo + 1))
            dv = "sg(mv_slice(MV{}, -100000, %d, %s), %s)" % (ew, tf(is4), tf(sg))
            o("    MV uget%d(int k) const { return k >= %d && k <= %d ? w%d[k - %d] : %s; }" % (i, lo, hi, i, lo, dv) if lo >= 0 else "    MV uget%d(int k) const { return k >= %d && k <= %d ? w%d[k + %d] : %s; }" % (i, lo, hi, i, -lo, dv))
            o("    void uset%d(int k, const MV &m) { if (k >= %d && k <= %d) w%d[k - (%d)] = m; }" % (i, lo, hi, i, lo))
        o("    static constexpr uint64_t count = %d;" % len(s.stats))
        o("    void start(Ctx &c, bool known) {")
        for v in s.vars:
            o("        fresh(c, m%d, %s, known); load(v%d, m%d); c.digest = mv::hmix(c.digest, m%d.v[0]);" % (v.n, v.td, v.n, v.n, v.n))
        for i, ew, m, l, is4, sg in s.arr:
            o("        fresh(c, n%d, T%d(%d, false), known); load(a%d, n%d);" % (i, 4 if is4 else 2, ew * (abs(m - l) + 1), i, i))
        for i, ew, m, l, is4, sg in s.un:
            o("        for (auto &e : w%d) e = sg(mv_slice(MV{}, -100000, %d, %s), %s);" % (i, ew, tf(is4), tf(sg)))
        o("    }")
        o("    void refresh(Ctx &c, bool known) {\n        switch (c.below(%d)) {" % len(s.vars))
        for v in s.vars:
            o("            case %d: fresh(c, m%d, %s, known); load(v%d, m%d); break;" % (v.n, v.n, v.td, v.n, v.n))
        o("        }\n    }")
        o("    std::string compare(Ctx &) {\n        MV g;")
        for v in s.vars:
            o('        if (!same(v%d, m%d, g)) return "v%d is " + g.str() + " expected " + m%d.str();' % (v.n, v.n, v.n, v.n))
        for i, *_ in s.arr:
            o('        if (!same(a%d, n%d, g)) return "array a%d is " + g.str() + " expected " + n%d.str();' % (i, i, i, i))
        for i, ew, m, l, is4, sg in s.un:
            o('        for (int k = 0; k < %d; k++) if (!same(u%d[%d + k], w%d[k], g)) return "u%d[" + num(%d + k) + "] is " + g.str() + " expected " + w%d[k].str();' % (abs(m - l) + 1, i, min(m, l), i, i, min(m, l), i))
        o('        if (lt != mt) return "text is \\"" + lt + "\\" expected \\"" + mt + "\\"";')
        o("        return \"\";\n    }")
        o("    static void run1(uint64_t k, Ctx &c, %s &s);" % n)
        o("    void run(uint64_t k, Ctx &c) { run1(k, c, *this); }")
        o("    static const char *text(uint64_t k);")
        o("};")
        for k, (pre, lib, mod, text) in enumerate(s.stats):
            o("static void %s_s%d(Ctx &c, %s &s) {" % (n, k, n))
            for p in pre:
                o("    " + p)
            if isinstance(text, tuple):
                o("    { MV f = %s; s.fmt = pick_fmt(c, f); }" % text[1])
            o("    " + lib)
            o("    " + mod)
            o("    (void)c;\n}")
        o("void %s::run1(uint64_t k, Ctx &c, %s &s) {\n    switch (k) {" % (n, n))
        for k in range(len(s.stats)):
            o("        case %d: %s_s%d(c, s); break;" % (k, n, k))
        o("    }\n}")
        o("const char *%s::text(uint64_t k) {\n    static const char *const t[] = {" % n)
        for pre, lib, mod, text in s.stats:
            t = text[2] if isinstance(text, tuple) else text
            o('        R"_(%s)_",' % t)
        o("    };\n    return t[k];\n}")
        o('static const bool reg_%s = (reg([] { Entry e; e.name = "program %d.%d.%d"; e.op = Op::CUSTOM; e.fn = &f_prog<%s>; return e; }()), true);' % (n, seed, part, s.idx, n))


out = []
out.append('// generated by tools/gen_c22.py\n#include "prog.hh"\nusing namespace ::logic;')
out[0] = out[0].replace("\nusing namespace ::logic;", "")
for i in range(nprog):
    Prog(i).emit(out.append)
print("\n".join(out))
