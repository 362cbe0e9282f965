"""Symbols, renamings and implicit outputs (opt_einsum/parser.py)."""
import z3

from ..spec import *
from ..ty import *

M = "opt_einsum.parser:"
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
SEPS = ",->"
# symbols exist for the integers whose code point exists
MAXSYM = 0x10FFFF - 2048


def is_letter(x):
    return z3.Or(z3.And(97 <= x, x <= 122), z3.And(65 <= x, x <= 90))


def symbol(i):
    """the documented i-th symbol: 52 letters, then unicode from chr(192), skipping the surrogate block"""
    return z3.If(i < 26, i + 97, z3.If(i < 52, i - 26 + 65, z3.If(i >= 55296, i + 2048, i + 140)))


def symbol_index(x):
    """the inverse of symbol()"""
    return z3.If(z3.And(97 <= x, x <= 122), x - 97, z3.If(z3.And(65 <= x, x <= 90), x - 65 + 26, z3.If(x >= 57344, x - 2048, x - 140)))


def is_symbol_below(x, n):
    i = symbol_index(x)
    return z3.And(0 <= i, i < n, symbol(i) == x)


def among(x, cs):
    return z3.Or(*[x == ord(c) for c in cs])


def strpos(s, k):
    return z3.And(0 <= k, k < STR.len(s))


class ValidChar(Contract):
    qual = M + "is_valid_einsum_char"
    props = ("C11", "C12")
    params = [dict(x=CHAR)]
    ret = BOOL

    def ensures(self, c):
        return [("letters and punctuation only", c.res(BOOL) == z3.Or(is_letter(c["x"]), among(c["x"], ",->.")))]


class ValidChars(Contract):
    qual = M + "has_valid_einsum_chars_only"
    props = ("C11", "C12")
    params = [dict(einsum_str=STR)]
    ret = BOOL

    def ensures(self, c):
        s, k = c["einsum_str"], z3.Int("vk")
        return [("every character is valid", c.res(BOOL) == z3.ForAll([k], z3.Implies(strpos(s, k), z3.Or(is_letter(STR.at(s, k)), among(STR.at(s, k), ",->."))), patterns=[STR.at(s, k)]))]


class GetSymbol(Contract):
    qual = M + "get_symbol"
    props = ("C11", "C09")
    params = [dict(i=INT)]
    ret = CHAR

    def requires(self, c):
        return [("in the range of symbols", z3.And(0 <= c["i"], c["i"] <= MAXSYM))]

    def ensures(self, c):
        return [("the documented symbol", c.res(CHAR) == symbol(c["i"]))]


def renaming(s, r, keep, one_way=False):
    """r renames s injectively and leaves the characters of `keep` alone"""
    p, q = z3.Ints("rp rq")
    sp, sq, rp, rq = STR.at(s, p), STR.at(s, q), STR.at(r, p), STR.at(r, q)
    k = lambda x: among(x, keep)
    return [
        ("same length", STR.len(r) == STR.len(s)),
        ("punctuation kept", z3.ForAll([p], z3.Implies(z3.And(strpos(s, p), k(sp)), rp == sp), patterns=[rp])),
        ("symbols never become punctuation", z3.ForAll([p], z3.Implies(z3.And(strpos(s, p), z3.Not(k(sp))), z3.Not(among(rp, ",->. "))), patterns=[rp])),
        ("equal indices stay equal, different ones different", z3.ForAll([p, q], z3.Implies(z3.And(strpos(s, p), strpos(s, q), z3.Not(k(sp)), z3.Not(k(sq))), (rp == rq) == (sp == sq)), patterns=[z3.MultiPattern(rp, rq)])),
    ]


class ConvertValid(Contract):
    qual = M + "convert_to_valid_einsum_chars"
    props = ("C11", "C12")
    params = [dict(einsum_str=STR)]
    ret = STR

    def requires(self, c):
        return [("not astronomically long", STR.len(c["einsum_str"]) <= MAXSYM)]

    def ensures(self, c):
        return renaming(c["einsum_str"], c.res(STR), SEPS)


class Alpha(Contract):
    qual = M + "alpha_canonicalize"
    props = ("C11", "C12")
    params = [dict(equation=STR)]
    ret = STR

    def requires(self, c):
        return [("not astronomically long", STR.len(c["equation"]) <= MAXSYM)]

    def ensures(self, c):
        return renaming(c["equation"], c.res(STR), ".,->")

    def loops(self, x):
        I = x.I
        D = DictT(CHAR, CHAR)
        out = []
        for nm in x.modcells():
            def lay(y, nm=nm):
                d = y.z(nm, D)
                s = y.z("equation", STR)
                u, v = z3.Ints("au av")
                return d, s, u, v

            def names(y, lay=lay):
                d, s, u, v = lay(y)
                k = z3.Int("ak")
                a = STR.at(s, k)
                return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < y.k, z3.Not(among(a, ".,->"))), z3.Select(D.dom(d), a)), patterns=[a])

            def nopunct(y, lay=lay):
                d, s, u, v = lay(y)
                return z3.ForAll([u], z3.Implies(z3.Select(D.dom(d), u), z3.Not(among(u, ".,->"))), patterns=[z3.Select(D.dom(d), u)])

            def inj(y, lay=lay):
                d, s, u, v = lay(y)
                du, dv = z3.Select(D.dom(d), u), z3.Select(D.dom(d), v)
                return z3.ForAll([u, v], z3.Implies(z3.And(du, dv, u != v), z3.Select(D.val(d), u) != z3.Select(D.val(d), v)), patterns=[z3.MultiPattern(du, dv)])

            def small(y, lay=lay):
                d, s, u, v = lay(y)
                n = I.th.card(CHAR, D.dom(d))
                du = z3.Select(D.dom(d), u)
                return z3.And(n <= y.k, z3.ForAll([u], z3.Implies(du, is_symbol_below(z3.Select(D.val(d), u), n)), patterns=[du]))

            out += [(f"{nm}: names seen", names), (f"{nm}: no punctuation", nopunct), (f"{nm}: symbols below the count", small), (f"{nm}: injective", inj)]
        return out


class GenUnused(Contract):
    qual = M + "gen_unused_symbols"
    props = ("C11", "C09")
    params = [dict(used=STR, n=INT)]
    ret = P(ListT(CHAR), "list")

    def requires(self, c):
        return [("symbols do not run out", STR.len(c["used"]) + c["n"] <= MAXSYM)]

    def ensures(self, c):
        r, u = c.res(STR), c["used"]
        n = STR.len(r)
        return [("as many as asked for", n == z3.If(c["n"] > 0, c["n"], 0))] + self.fresh(c.I, r, n, u)

    def fresh(self, I, r, n, u):
        p, q = z3.Ints("gp gq")
        rp, rq = STR.at(r, p), STR.at(r, q)
        rg = lambda k: z3.And(0 <= k, k < n)
        return [
            ("none is in use", z3.ForAll([p], z3.Implies(rg(p), I.th.cnt(STR, STR.arr(u), STR.len(u), rp) == 0), patterns=[rp])),
            ("all different, in symbol order", z3.ForAll([p, q], z3.Implies(z3.And(rg(p), rg(q), p < q), symbol_index(rp) < symbol_index(rq)), patterns=[z3.MultiPattern(rp, rq)])),
            ("all are symbols", z3.ForAll([p], z3.Implies(rg(p), is_symbol_below(rp, MAXSYM + 1)), patterns=[rp])),
        ]

    def loops(self, x):
        I = x.I
        out = []
        ints = x.mod(INT)

        def ghost(u, i):
            """the symbols below i that are in use"""
            s = z3.Int("gs")
            return z3.Lambda([s], z3.And(I.th.cnt(STR, STR.arr(u), STR.len(u), s) >= 1, is_symbol_below(s, i)))

        for nm, f in [(f, f) for f in ("fresh",)]:
            def base(y):
                r, u = y.z("__yielded", STR), y.z("used", STR)
                return z3.And(*[g for _, g in self.fresh(I, r, STR.len(r), u)])

            out.append(("yielded symbols are fresh and ordered", base))
        out.append(("not too many", lambda y: STR.len(y.z("__yielded", STR)) <= z3.If(y.z("n", INT) > 0, y.z("n", INT), 0)))
        for i in ints:
            out.append((f"yielded symbols lie below {i}", lambda y, i=i: z3.And(y.z(i, INT) >= 0, z3.ForAll([z3.Int("gp")], z3.Implies(z3.And(0 <= z3.Int("gp"), z3.Int("gp") < STR.len(y.z("__yielded", STR))), symbol_index(STR.at(y.z("__yielded", STR), z3.Int("gp"))) < y.z(i, INT)), patterns=[STR.at(y.z("__yielded", STR), z3.Int("gp"))]))))
            out.append((f"{i} counts the symbols yielded", lambda y, i=i: y.z(i, INT) == STR.len(y.z("__yielded", STR))))

            def few(y, i=i):
                u = y.z("used", STR)
                G = ghost(u, y.z(i, INT))
                old = y.mem.get(i)
                E = lib.listset(I, STR, u)
                I.assume(I.th.card_mono(CHAR, G, E))
                if old is not None:
                    sym = symbol(y.z(i, INT) - 1)
                    y.hint(z3.Or(G == old, G == z3.Store(old, sym, z3.BoolVal(True))))
                else:
                    y.hint(G == SetT(CHAR).empty()) if z3.is_int_value(z3.simplify(y.z(i, INT))) else None
                y.mem[i] = G
                y.hint(z3.IsSubset(G, E))
                return y.z(i, INT) - STR.len(y.z("__yielded", STR)) == I.th.card(CHAR, G)

            out.append((f"{i} minus the yielded symbols counts the skipped ones", few))
            out.append((f"{i} is bounded", lambda y, i=i: y.z(i, INT) <= STR.len(y.z("used", STR)) + STR.len(y.z("__yielded", STR))))
        return out


def implicit_output(I, s, r):
    """the indices that appear exactly once in s, in order"""
    p, q, x = z3.Ints("fp fq fx")
    rp, rq = STR.at(r, p), STR.at(r, q)
    cs = lambda x: I.th.cnt(STR, STR.arr(s), STR.len(s), x)
    cr = lambda x: I.th.cnt(STR, STR.arr(r), STR.len(r), x)
    return [
        ("only indices that appear once", z3.ForAll([p], z3.Implies(strpos(r, p), z3.And(rp != ord(","), cs(rp) == 1)), patterns=[rp])),
        ("strictly increasing", z3.ForAll([p, q], z3.Implies(z3.And(strpos(r, p), strpos(r, q), p < q), rp < rq), patterns=[z3.MultiPattern(rp, rq)])),
        ("all indices that appear once", z3.ForAll([x], z3.Implies(z3.And(x != ord(","), cs(x) == 1), cr(x) >= 1), patterns=[cs(x)])),
    ]


class FindOutput(Contract):
    qual = M + "find_output_str"
    props = ("C09", "C01")
    params = [dict(subscripts=STR)]
    ret = STR

    def ensures(self, c):
        return implicit_output(c.I, c["subscripts"], c.res(STR))


class SymbolsDiffer(Contract):
    qual = "pyvc_lemmas:symbols_differ"
    props = ("C11",)
    params = [dict(i=INT, j=INT)]
    ret = BOOL

    def requires(self, c):
        return [("two symbols", z3.And(0 <= c["i"], c["i"] < c["j"], c["j"] <= MAXSYM))]

    def ensures(self, c):
        return [("different symbols", c.res(BOOL))]


ALL = [FindOutput(), GenUnused(), SymbolsDiffer(), ValidChar(), ValidChars(), GetSymbol(), ConvertValid(), Alpha()]
