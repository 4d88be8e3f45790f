"""What each property's check explores: templates (symbolic bytes and lexemes), options, witnesses."""
import json, os, re
from vlib import *

SPEC = json.load(open(os.path.join(VERIF, "spec", "spec.json")))
ASSUMPTIONS = [
    "The crate is executed from LLVM bitcode of rustc 1.74.1 (opt-level 1, fat LTO, overflow checks and debug assertions on); the release profile users run differs only in those settings.",
    "Executor models: allocator (never fails), memcpy/memset/memcmp intrinsics, HashSet's random keys fixed, edit_distance (spelling suggestions in one diagnostic) replaced by a stub, panic = end of path.",
    "Branch feasibility over one input byte is decided by exact 256-value sets and every such claim is re-proved by Z3; conditions over several bytes go to Z3 directly.",
]
PROPS = {}
class Spec:
    def __init__(self, pid, jobs, witness=None, outside="", assumptions=(), sample=4000, max_samples=300, thorough_secs=3000, what="", sub=""):
        self.jobs, self.witness, self.outside, self.assumptions = jobs, witness or {1: "the assertions"}, outside, list(assumptions)
        self.sample, self.max_samples, self.thorough_secs, self.what, self.sub = sample, max_samples, thorough_secs, what, sub
        PROPS[pid] = self
    def bounds(self, tier, jobs):
        return {"templates": sorted({j.show() for j in jobs})[:200], "note": "each template stands for every input obtained by giving its symbolic bytes/lexemes any value of their class; nothing is claimed for inputs of other forms"}

# ---------------------------------------------------------------- vocabulary
LOWER = Cls("a-z", rng((0x61, 0x7a)))
LETTER = Cls("letter", rng((0x61, 0x7a), (0x41, 0x5a), b"$"))
DIGIT = Cls("0-9", rng((0x30, 0x39)))
NZ = Cls("1-9", rng((0x31, 0x39)))
HEX = Cls("hex digit", rng((0x30, 0x39), (0x61, 0x66), (0x41, 0x46)))
ALNUM = Cls("letter or digit", rng((0x30, 0x39), (0x61, 0x7a), (0x41, 0x5a)))
OCT = Cls("0-7", rng((0x30, 0x37)))
PUNCT = Cls("ASCII punctuation", rng((0x21, 0x2f), (0x3a, 0x40), (0x5b, 0x60), (0x7b, 0x7e)))
BLANK = Cls("blank", b" \t\n\r\x0b\x0c")
BRACK = Cls("bracket or comma", b"()[]{},a")
STRB = Cls("string byte", b"\"\\n*()a\n\r\t[:.|0<>b")
HI = Cls("non-ASCII byte", range(0x80, 0x100))

def t(s, cls=ASCII, **k):
    """template from a string: `?` = symbolic byte of `cls`; other marks from k"""
    out = []
    for ch in s:
        c = k.get(ch, cls if ch == "?" else None)
        if c is None: out.append(ch)
        elif isinstance(c, Cls): out.append(B(c))
        elif isinstance(c, Lex): out.append(L(c))
        else: out.append(c)
    res = []
    for x in out:
        if isinstance(x, str) and res and isinstance(res[-1], str): res[-1] += x
        else: res.append(x)
    return res

ASCII_OPS = ["+", "-", "*", "/", "^", "=", ":=", "==", "!=", "===", "=!=", "<", ">", "<=", ">=", "&&", "||", "|", "&", "!", "!!", "~", "~~", "@", "@@", "@@@", "@*", "/*", "//", "/.", "//.", "/@", "//@", "/;", "/:", "->", ":>", "<->", "|->", ";", ";;", ",", ".", "..", "...", "?", "??", ":", "::", "+=", "-=", "*=", "/=", "//=", "++", "--", "**", "<>", "<<", ">>", ">>>", "^=", "^:=", "'", "=.", "#", "##", "%", "%%", "_", "__", "___", "_."]
GROUPS = ["(", ")", "[", "]", "{", "}", "<|", "|>", "::[", "\\[LeftDoubleBracket]", "\\[RightDoubleBracket]", "\\[LeftAngleBracket]", "\\[RightAngleBracket]", "\\(", "\\)"]
ATOMS = ["a", "1", "2.5", "\"s\"", "16^^f", "1`2", "a`b", "\\[Alpha]", "\u00e9", "#1", "%2", "a_", "_b"]
TRIVIA = [" ", "\t", "\n", "\r\n", "\r", "(*c*)", "\\\n", "\\\r\n "]
ODD = ["\"", "(*", "*)", "\\", "\\[", "\\[Foo]", "\\:0", "\\:03b1", "\\.7", "`", "\x01", "\x7f", "\u200b", "\ufeff", "\U0001f600", "\\[Integral]", "\\[Not]", "\\[DifferentialD]", "\\[Transpose]", "\\[Therefore]", "\\[Sqrt]", "\\[RightArrow]", "\\[InvisibleTimes]", "\\[IndentingNewLine]", "\\!", "\\@", "\u03c0", "\\ "]
VOC = Lex("token", ASCII_OPS + GROUPS + ATOMS + TRIVIA + ODD)
CORE = Lex("core token", ["a", "1", "\"s\"", "_", "#", "+", "-", "*", "/", "^", "=", ":", "::", ";", ";;", ",", "&", "!", "@", "//", "~", "?", "'", "..", "<", "<<", ">>", "->", "/:", "(", ")", "[", "]", "{", "}", "<|", "|>", "::[", " ", "\n", "(*c*)", "\\\n", "\"", "(*", "\\[Not]", "\\[Integral]", "\\[DifferentialD]", "\\[InvisibleTimes]", "\u00e9", "%", "\\("])
def S(*a): return list(a)
V, K = L(VOC), L(CORE)
def v(): return L(VOC)
def k(): return L(CORE)

GENERIC = ("???", "a???", "\"???", "(*???", "a\n???", "\\???")
def T(entry, *ts, opts=0, cls=ASCII): return [Job(entry, t(x, cls), opts=opts) for x in ts]
def deep(tier): return tier == "thorough"
def chunks(name, items, n=250):
    seen = sorted(set(items))
    return [Lex(name, seen[i:i + n]) for i in range(0, len(seen), n)]
NAMED = ["\\[%s]" % c["name"] for c in SPEC["chars"]]
NAMED_OPS = sorted({"\\[" + q["tok"][9:] + "]" for q in SPEC["ops"] if q["tok"].startswith("LongName`")} | {c for c in NAMED if re.match(r"\\\\\[(Left|Right|Open|Close|Invisible|.*Integral|.*Comma)", c)})
def named(entry, opts=0, lst=None):
    """every named character as operand, operator, and operator without operands"""
    out = []
    for l in chunks("named character", lst or NAMED): out += [Job(entry, ["a ", L(l), " b"], opts=opts), Job(entry, [L(l), "a"], opts=opts), Job(entry, ["a", L(l)], opts=opts)]
    return out
BIGCTX = [("a\r\n" * 130 + "\n" * 140, "b"), ("x" * 300 + "\u00e9 ", ""), ("(*" + "y" * 280 + "\n*)", "a"), ("{" * 40, "a" + "}" * 40), ("a" + "+a" * 40, "b"), ("f[" + "a," * 70, "b]"), ("1" * 70, " 2"), ("\"" + "s" * 290 + "\"", ""),
    ("-" * 20, "a" + "'" * 20), ("(" * 20 + "[" * 10, "b")]
def big(entry, opts=0):
    """one free lexeme after (and before) a long or deep fixed context"""
    return [Job(entry, [a, k(), b], opts=opts) for a, b in BIGCTX]
# one construct of each kind, cut into tokens; any lexeme may stand in one gap, blanks or comments in two
CONSTRUCTS = [c.split("\xa6") for c in ("a\xa6/:\xa6b\xa6=\xa6c", "a\xa6/:\xa6b\xa6:=\xa6c", "a\xa6/:\xa6b\xa6=.", "a\xa6~\xa6b\xa6~\xa6c", "a\xa6:\xa6b\xa6:\xa6c", "a_b\xa6:\xa6c", "a\xa6;;\xa6b\xa6;;\xa6c", "\\[Integral]\xa6a\xa6\\[DifferentialD]\xa6b", "a\xa6::\xa6b\xa6::\xa6c", "f\xa6[\xa6a\xa6,\xa6b\xa6]",
    "f\xa6[\xa6[\xa6a\xa6]\xa6]", "f\xa6::[\xa6a\xa6]", "{\xa6a\xa6,\xa6,\xa6b\xa6}", "<|\xa6a\xa6->\xa6b\xa6|>", "-\xa6a\xa6!\xa6!", "a\xa6=.", "a\xa6;\xa6b\xa6;", "(\xa6a\xa6)\xa6b", "a\xa6 \xa6b\xa6 \xa6c", "#a\xa6##2\xa6#", "<<\xa6f\xa6;\xa6b", "a\xa6>>\xa6f\xa6;\xa6b", "a\xa6'\xa6'\xa6[\xa6b\xa6]",
    "a\xa6&\xa6[\xa6b\xa6]", "++\xa6a\xa6--", "a\xa6\\[Equal]\xa6b\xa6<\xa6c", "!!\xa6a", "a\xa6@\xa6b\xa6@@\xa6c", "a\xa6//\xa6b", "\\(\xa6a\xa6\\)\xa6b", "\\!\xa6a", "\"s\"\xa6<>\xa6\"t\"", "a\xa6?\xa6b\xa6?\xa6c", "a\xa6|\xa6b\xa6:\xa6c", "a\xa6-\xa6b\xa6+\xa6c", "a\xa6/\xa6b\xa6*\xa6c", "a\xa6^\xa6b\xa6^\xa6c", "a\xa6=\xa6b\xa6=\xa6c", "a\xa6[\xa6]\xa6[\xa6\"x\"\xa6]", "\\[Not]\xa6a\xa6&&\xa6b", "%\xa6%%\xa6%3", "1.5\xa6`\xa62\xa6*^\xa63",
    "\\[LeftDoubleBracket]\xa6a\xa6\\[RightDoubleBracket]", "\\[LeftFloor]\xa6a\xa6\\[RightFloor]\xa6b", "(*\xa6a\xa6*)\xa6(*\xa6b", "a\xa6\\[Because]\xa6b\xa6\\[Therefore]\xa6c", "a\xa6..\xa6b\xa6...", "\\[Sqrt]\xa6a\xa6\\[Transpose]", ";;\xa6a\xa6;;\xa6;;\xa6b", "(\xa6a\xa6]\xa6b\xa6)")]
JOINED = ["".join(c) for c in CONSTRUCTS]
def pairs(name, prs, n=250):
    """pieces that go together, under one variable"""
    return [(L(Lex(name, [p[0] for p in prs[i:i + n]]), var=0), L(Lex("its counterpart", [p[1] for p in prs[i:i + n]]), var=0)) for i in range(0, len(prs), n)]
SPACES = Lex("blank, newline or comment", [" ", "\n", "\r\n", "(*c*)", "\\\n", "\t(**)\n"])
def gaps(entry, opts=0, pairs=True):
    out = []
    for c in CONSTRUCTS:
        for i in range(len(c) + 1): out.append(Job(entry, ["".join(c[:i]), k(), "".join(c[i:])], opts=opts))
        if pairs: out += [Job(entry, ["".join(c[:i]), L(SPACES), "".join(c[i:j]), L(SPACES), "".join(c[j:])], opts=opts) for i in range(1, len(c)) for j in range(i + 1, len(c) + 1)]
    return out
# repetition and nesting: n copies of a piece, and one free lexeme at the end, in the middle or after
REPEATS = [("(*", "", "*)"), ("{", "a", "}"), ("(", "a", ")"), ("f[", "a", "]"), ("<|", "", "|>"), ("a+", "b", ""), ("a b ", "c", ""), ("a;", "", ""), ("-", "a", ""), ("!", "a", ""), ("", "a", "'"), ("", "a", "!"), ("", "f", "[b]"), ("", "f", "[[b]]"), ("a^", "b", ""), ("a->", "b", ""), ("a,", "b", ""), ("%", "", ""), ("#", "", ""),
    (";;", "", ""), ("a::", "b", ""), ("\\\n", "a", ""), ("a`", "b", ""), ("\t", "a", ""), ("\r\n", "a", ""), ("a ~f~ ", "b", ""), ("a/:b=", "c", ""), ("a:", "b", ""), ("a<", "b", ""), ("a/", "b", ""), ("a@", "b", ""), ("", "a", "&"), ("", "a", "_"), ("7", "", ""), ("1.5 ", "", ""), ("\"s\" ", "", ""), ("\\[Alpha]", "", ""), ("\u00e9", "", ""), ("\U0001f600 ", "", ""), ("[", "", "]"), ("a)", "", ""), ("a=.;", "", ""), ("<<f;", "", ""), ("(*\n*)\t", "a", ""),
    ("a?", "b", ""), ("a..", "", ""), ("\\(", "", "\\)"), ("\"\\\n\t\n\"", "", ""), ("\\[Integral]", "a", "\\[DifferentialD]b")]
def repeats(entry, opts=0, ns=(2, 3, 5, 9)):
    out = []
    for n in ns: out += [Job(entry, [a, L(Lex("core token or none", CORE.items + [b""])), b], opts=opts) for x, m, y in REPEATS for a, b in ([(x * n + m, y * n), (x * (n - 1), x + m + y * n)] if x or y else [])]
    return out
PROGRAMS = ["f[x_, y_:0] :=\n  Module[{a = x + 1}, (* c *)\n\ta^2 - -y;\n  a/y!\n]\n\ng::usage = \"g \\\n[x]\";\n", "data = {1.5`20, 16^^ff, -3*^-2, 2/3};\r\nMap[#1 + ##2 &, data[[1 ;; -2]]] // Total\r\n", "a /: h[a, b_?NumberQ] = b; a =.;\nIf[x >= 0 && !y || z === w, \\[Pi] r^2, Null] >> out.m\n",
    "<< Pkg`Sub`\n<|\"k\" -> {a, , b}, s :> t'' |>;\n(x \\[Element] Reals) /. {u_ -> u @@ v /@ w}\n", "\\[Integral]Sin[x] \\[DifferentialD]x + a~f~b ;; c\n%% + Out[3] <> \"\u00e9\\[Alpha]\\n\"\n(* (* nested *) *) p | q .. ~~ r\n"]
def programs(entry, opts=0, lex=CORE):
    """short programs with one lexeme put in at every token boundary"""
    out = []
    for p in PROGRAMS:
        cuts = sorted({m.start() for m in re.finditer(r"[A-Za-z0-9$`]+|\s+|[^\sA-Za-z0-9$`]", p)} | {len(p)})
        out += [Job(entry, [p[:i], L(lex), p[i:]], opts=opts) for i in cuts]
    return out
FEWLEX = Lex("short list of tokens", ["a", "\n", "(*c*)", "]", ")", "(", "\"", ";", ",", "+", "\\\n", "\u00e9", "/:", ":"])
def wide(entry, opts=0, pairs=True, lex=FEWLEX): return gaps(entry, opts, pairs) + repeats(entry, opts, (2, 3, 5, 9) if pairs else (3, 9)) + programs(entry, opts, lex)
def lexgen(entry, opts=(0,), alt=()):
    """generic exploration used by the structural properties; `alt`: option words given a smaller exploration"""
    def jobs(tier):
        out = []
        for o in opts:
            out += T(entry, *GENERIC, opts=o)
            out += [Job(entry, [v(), v()], opts=o), Job(entry, ["a ", v(), v(), " b"], opts=o)]
            out += named(entry, o) + big(entry, o) + wide(entry, o, lex=CORE)
            if deep(tier): out += [Job(entry, [v(), k(), v()], opts=o), Job(entry, ["f[", v(), v(), "]"], opts=o), Job(entry, ["{a", k(), k(), "b}"], opts=o), Job(entry, ["a", v(), "b", v(), "c"], opts=o)] + T(entry, "????", "f[???", "1???", "a`???", "<<???", "a::???", "#???", opts=o)
        for o in alt:
            out += T(entry, "??", "\"???", "(*??*)", "\\??", opts=o) + [Job(entry, [v(), k()], opts=o)]
            if deep(tier): out += wide(entry, o) + T(entry, "???", opts=o) + [Job(entry, [v(), v()], opts=o), Job(entry, ["a", v(), v(), "b"], opts=o)]
        return out
    return jobs
LEAD4 = Cls("UTF-8 lead or continuation byte", b"a" + bytes([0x80, 0x8f, 0x90, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff, 0xbb]))

Spec("C01", lexgen("c01", alt=(8,)), {1: "inputs of valid encoding", 3: "unterminated last token", 4: "text after the unterminated token's last line"})
Spec("C02", lexgen("c02", alt=(8,)), {1: "valid encoding", 3: "no unterminated construct"})
def c03(tier):
    few = Lex("token", ["a", "\n", "\t", "\u00e9", "(*\n*)", "\"s\"", "\\[Alpha]", ")", "\r\n"])
    # positions beyond 65535 lines or columns, and every tab width
    far = [Job("c03", [x, L(few), "b\t"], opts=o) for x in ("(*" + "\n" * 66000 + "*)", "x" * 66000 + " ", "\"" + "\u00e9\r\n" * 300 + "\t\"") for o in (0, 4)]
    return lexgen("c03", alt=(4, 0x10, 0x80))(tier) + far + [Job("c03", [v(), "\t", k()], opts=w << 4) for w in range(16)] + [Job("c03", ["\u00e9\t\"\ta", k(), "\t", k()], opts=w << 4) for w in (1, 3, 7, 8, 15)]
Spec("C03", c03)
Spec("C04", lambda tier: lexgen("c04")(tier) + lexgen("c04c", opts=(), alt=(0, 4))(tier))
def c05(tier):
    out = lexgen("c05", alt=(4, 8, 1, 0x100, 0x200, 0x400))(tier)
    # an operator's own head as operand, applied in every way; nested named operators
    ops = sorted({(q["lex"], q["head"]) for q in SPEC["ops"]})
    app = L(Lex("application", ["@", "\\[InvisibleApplication]", "[", "@@", "~", "//", "::", "[["]), var=1)
    for i in range(0, len(ops), 250):
        A, H = L(Lex("operator", [q[0] for q in ops[i:i + 250]]), var=0), L(Lex("its head", [q[1] for q in ops[i:i + 250]]), var=0)
        out += [Job("c05", ["a ", A, " ", H, app, "b"]), Job("c05", [H, app, "b ", A, " c"], opts=0x100)]
    hx = lambda n: [B(HEX) for _ in range(n)]
    for q in ("", "\"", "<<", "a::"): out += [Job("c05", [q + "\\:d", *hx(2), "0"]), Job("c05", [q + "\\:", *hx(2), "5c"]), Job("c05", [q + "\\|", *hx(2), "dc00"]), Job("c05", [q + "\\.", *hx(2), "a"]), Job("c05", [q + "\\", B(OCT), B(OCT), B(OCT)])]
    D, D8 = Lex("bracket", ["(", ")", "[", "]", "{", "}", "<|", "|>", "::[", "\\[LeftDoubleBracket]", "\\[RightDoubleBracket]", "\\[LeftCeiling]", "\\[RightCeiling]", "a", ",", "\"s\""]), Lex("bracket", ["(", ")", "[", "]", "{", "|>", "a", ","])
    d, d8 = (lambda: L(D)), (lambda: L(D8))
    out += [Job("c05", [L(OPENED), d8(), d8()]), Job("c05", [d(), d(), d(), d()]), Job("c05", ["a", d(), "b", d(), "c", d()]), Job("c05", [d8(), d8(), d8(), d8(), d8()]), Job("c05", [k(), d8(), d8(), k()])]
    N = L(Lex("named operator", NAMED_OPS[:250]), var=0), L(Lex("named operator", NAMED_OPS[250:]), var=0)
    for n in N: out += [Job("c05", ["a", n, k(), "b"]), Job("c05", ["{a", n, "-1", k(), "}"], opts=0x100), Job("c05", ["(", k(), n, ")", "b"])]
    return out
Spec("C05", c05)
def c06(tier):
    mid = [0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbb, 0xbf, 0x41, 0xc3]
    out = []
    for e in ("c06", "c06c", "c06t"):
        out += [Job(e, [B(ANY), bytes([c]), B(ANY)]) for c in mid] + [Job(e, [B(ANY), B(ANY), bytes([c])]) for c in mid]
        out += [Job(e, [bytes([c]), bytes([d]), B(ANY), bytes([x])]) for c in (0xe0, 0xed, 0xef, 0xf0, 0xf1, 0xf4) for d in (0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbb, 0xbf) for x in (0x80, 0xbf, 0x41)]
        out += [Job(e, [bytes([c]), B(ANY), bytes([d, x])]) for c in (0xe0, 0xe2, 0xed, 0xef, 0xf0, 0xf2, 0xf4, 0xf5) for d in (0x80, 0xbf, 0xbb) for x in (0x80, 0xbf, 0x41)]
        out += [Job(e, [bytes([c]), bytes([d, x]), B(ANY)]) for c in (0xf0, 0xf3, 0xf4) for d in (0x8f, 0x90) for x in (0x80, 0xbf)]
        out += T(e, "????" if e != "c06t" or deep(tier) else "???", "a???", cls=LEAD4)
    out += T("c06t", "??", "\"?\"", "(*??", "\"?", cls=ANY) + T("c06t", "\"???\"", "(*??*)", "a??b", "\"??", cls=LEAD4)
    out += [Job("c06t", ["\ta\r\n\u00e9\t" + x, B(ANY), B(LEAD4), "a"], opts=o) for x in ("", "\"", "(*\r", "<<", "a::") for o in (4, 0x82)]
    out += T("c06c", "???", "\r?\n?")
    if deep(tier): out += [Job("c06", [bytes([b]), B(ANY), B(ANY)]) for b in (0xc1, 0xe0, 0xe2, 0xed, 0xef)]
    return out
Spec("C06", c06, {1: "well-formed input", 2: "ill-formed input", 3: "malformed sequence located"})
Spec("C08", lexgen("c08"), {1: "assertions", 2: "re-lexed contexts skipped"})
# bracket openers, several deep, left open for what follows
OPENED = Lex("open brackets", ["([{<|{", "f[({<|{a", "((((((((", "{[({[({[(", "f[[f[[f[[f[[", "a+([{b,", "<|<|<|<|<|<|", "f[{(f[{(a", "{{{{{{{{{{", "([[[[[[", "\\[LeftDoubleBracket]{([\\[LeftCeiling]", "f::[({f[<|{", "{a,(b,[c,{d,(e", "[{<|(<|{[("])
def c10(tier):
    D = Lex("bracket", ["(", ")", "[", "]", "{", "}", "<|", "|>", "::[", "\\[LeftDoubleBracket]", "\\[RightDoubleBracket]", "\\[LeftCeiling]", "\\[RightCeiling]", "a", ",", "\"s\""])
    D8 = Lex("bracket", ["(", ")", "[", "]", "{", "}", "|>", "a"])
    d, d8 = (lambda: L(D)), (lambda: L(D8))
    NB = Lex("named bracket", [n for n in NAMED_OPS if re.match(r"\\\[(Left|Right|Open|Close)", n)])
    base = lexgen("c10")(tier) if deep(tier) else wide("c10") + T("c10", "???", "a??", "(*??") + [Job("c10", [v(), v()]), Job("c10", ["{a", v(), k(), "b}"])] + named("c10")
    return base + [Job("c10", [d8(), d8(), d8(), d8()]), Job("c10", ["a", d(), "b", d(), "c", d()]), Job("c10", ["a", d8(), "b", d8(), ",", d8(), "c", d8(), "]"]), Job("c10", [L(NB), "a", L(NB), d()]), Job("c10", [L(OPENED), d(), d()]), Job("c10", [L(OPENED), "a", d8(), "b", d8(), d8()])] + ([Job("c10", [d(), d(), d(), d()]), Job("c10", [d8(), d8(), d8(), d8(), d8(), d8()])] if deep(tier) else [])
Spec("C10", c10, {1: "properly nested input", 2: "improperly nested input", 3: "improper nesting with every group closed", 4: "group never closed"})
def c12(tier):
    A, Bk = Lex("first input", ["a+b", "\"s", "(*", "1.2`3", "f[", "a@@@b", "\\[Foo]", "2 3 4", "\\!\\(x\\)", "#!x\n"]), CORE
    J = lambda: L(Lex("expression", JOINED + ["\"x\ty\n\"", "(*\t\n*)", "a\\\nb", "\\[Foo]", "\\:d800", "-->", "a::\u03c0", "\xe9", "f[", "a)", "\"", "(*", "a\r", "\\!\\(x", "1.2.3", "\\:00"]))
    return [Job("c12", [J()], [J()], extra=[o]) for o in (0, 4, 0x705)] + [Job("c12", [L(A)], [k(), k()], extra=[0x704]), Job("c12", [L(VOC)], ["a", k(), "b"], extra=[0x402]), Job("c12", t("??"), ["a@@@b;a@b@c;2 3*4;", "\"x\ty\"", "\n(*", "\\[Foo]"], extra=[0x705])] + ([Job("c12", [v(), v()], [v(), "b"], extra=[0x704])] if deep(tier) else [])
Spec("C12", c12)
Spec("C16", lexgen("c16", alt=(4,)), {1: "non-fatal issue", 2: "fatal issue", 3: "issue attached to a node"})
Spec("C18", lambda tier: lexgen("c18", opts=(), alt=(0, 4, 1, 0x100))(tier) + wide("c18", pairs=False), {1: "valid UTF-8", 2: "single expression"})
Spec("C19", lambda tier: [Job("c19", [h, *t(x)], opts=o) for o in (1, 2) for h in ("#!", "#", "") for x in ("??", "?a\n?", "?\\\n?", "\"?\r?", "(*??")] + [Job("c19", ["#!", v(), v(), "\n", L(Lex("code", ["a", "\t\"", "#"]))], opts=1), Job("c19", ["#!", v(), k(), "\r\n", L(Lex("code", ["a", "(*\t", ")", "\u00e9"]))], opts=6), Job("c19", ["#!", k(), "\n", v(), k()], opts=1), Job("c19", [v(), v()], opts=1), Job("c19", ["#!\u00e9\n", L(Lex("expression", JOINED))], opts=5), Job("c19", [L(Lex("expression", JOINED))], opts=2)],
     {1: "#! line", 2: "no #! line", 3: "#! line without end", 4: "code after the #! line"})
def c20(tier):
    A, Z = L(Lex("expression", JOINED)), L(Lex("next expression", JOINED))
    return [Job("c20", [A], [Z], [n], opts=o) for n, o in (("\n", 0), ("\r\n", 4))] + [Job("c20", [k(), k()], [k()], [n]) for n in ("\n", "\r\n")] + [Job("c20", t("??"), t("?"), ["\n"]), Job("c20", t("??"), t("?"), ["\r"]), Job("c20", ["a", v(), "b"], [v(), "c"], ["\n"]), Job("c20", ["a", k(), "b", k()], ["c"], ["\n"])]
Spec("C20", c20, {1: "composed", 4: "infix expression before the newline"})
Spec("C21", lambda tier: T("c21", "??", "\"??\"", "(*??*)", "a??") + [Job("c21", [v(), k()])] + wide("c21", pairs=deep(tier)) + (T("c21", "???") + [Job("c21", [v(), v()])] if deep(tier) else []))
Spec("C22", lambda tier: wide("c22") + T("c22", "??", "a??", "f[??") + [Job("c22", [v(), v()]), Job("c22", ["a", v(), "b", k(), "c"])])
Spec("C23", lambda tier: wide("c23") + T("c23", "\"???\"", "(*???*)", "???", "a\\??b", "1\\??2", "1\\\n??", "2^\\\n??", "1*\\\n??", "1.\\\n??", "=\\\n??", "1`\\\n??") + [Job("c23", [v(), "\\\n", v()]), Job("c23", [v(), v()])] + T("c23", "<<\\\n??", "a::\\\n??", "#\\\n??", "<<??", ">>\r??", "a::\"??\"", "#\"?\\\n\"", "_\\\n??") + [Job("c23", ["(*\t", v(), "\"\n\"*)\\\n", k()], opts=4)] + T("c23", "\"??\"", "1\\??2", opts=4),
     {2: "embedded newline", 3: "embedded tab", 4: "simple line continuation", 5: "line continuation in a string"})

# ---------------------------------------------------------------- C09 operator precedence
OPS = SPEC["ops"]
SKIP_OPS = {"\\[ImplicitPlus]", "\\[InvisiblePrefixScriptBase]", "\\[InvisiblePostfixScriptBase]"}
MID = [o for o in OPS if o["kind"] in ("binary", "infix") and o["lex"] not in SKIP_OPS]
PREFIX = [o for o in OPS if o["kind"] == "prefix" and o["lex"] not in SKIP_OPS]
POSTFIX = [o for o in OPS if o["kind"] == "postfix" and o["lex"] not in SKIP_OPS]
def x(i, cls=LOWER): return B(cls, var=i)
def lev(ops, f): return [o["lex"] for o in ops if f(o)]
def reps(ops):
    """one operator per precedence level and kind"""
    d = {}
    for o in ops: d.setdefault((o["prec"], o["kind"]), o)
    return list(d.values())
def c09(tier):
    out = []
    def pair(a, b, t1, t2, name):
        if not a or not b: return
        for la in chunks(name + " (first)", a):
            for lb in chunks(name + " (second)", b):
                f = lambda tt: [L(la, var=0) if i == "A" else L(lb, var=1) if i == "B" else "q" if i == "x1" else x(int(i[1])) if i in ("x0", "x2") else i for i in tt]
                out.append(Job("eq_cst", f(t1), f(t2)))
    lo1, lo2 = ["x0", " ", "A", " ", "x1", " ", "B", " ", "x2"], ["x0", " ", "A", " (", "x1", " ", "B", " ", "x2", ")"]
    hi2 = ["(", "x0", " ", "A", " ", "x1", ") ", "B", " ", "x2"]
    levels = sorted({o["prec"] for o in MID})
    R = reps(MID)
    for p in levels:
        here = lev(MID, lambda o: o["prec"] == p); rep = lev(R, lambda o: o["prec"] == p)
        above = lev(MID, lambda o: o["prec"] > p)
        near = [q for q in levels if q > p][:2]
        if deep(tier): sets = [(here, above)]
        else: sets = [(here, lev(R, lambda o: o["prec"] in near)), (rep, lev(MID, lambda o: o["prec"] in near)), (rep, lev(R, lambda o: o["prec"] > p))]
        for a, b in sets:
            pair(a, b, lo1, lo2, "operators of precedence %d, then tighter ones" % p)
            pair(b, a, lo1, hi2, "operators tighter than %d, then ones of precedence %d" % (p, p))
        # equal precedence
        same = [o for o in MID if o["prec"] == p]
        if all(o["right"] for o in same): pair(here, here if deep(tier) else here[:6], lo1, lo2, "right-associative operators of precedence %d" % p)
        else:
            heads = sorted({o["head"] for o in same})
            for h in heads[:200 if deep(tier) or len(heads) < 12 else 6]:
                mine = [o for o in same if o["head"] == h]; other = [o["lex"] for o in same if o["head"] != h][:None if deep(tier) else 6]
                inf = [o["lex"] for o in mine if o["kind"] == "infix"]; bi = [o["lex"] for o in mine if o["kind"] == "binary"]
                pair([o["lex"] for o in mine], other, lo1, hi2, "operators of precedence %d" % p)
                if bi: pair(bi, bi, lo1, hi2, "left-associative operators of precedence %d" % p)
                if inf:
                    la = Lex("infix operators of head " + h, inf)
                    out.append(Job("flat", [x(0), " ", L(la, var=0), " ", x(1), " ", L(la, var=1), " ", x(2)]))
    for p in sorted({o["prec"] for o in PREFIX}):
        here = lev(PREFIX, lambda o: o["prec"] == p)
        M = MID if deep(tier) else R
        pair(here, lev(M, lambda o: o["prec"] > p), ["A", " ", "x0", " ", "B", " ", "x1"], ["A", " (", "x0", " ", "B", " ", "x1", ")"], "prefix operators of precedence %d, then tighter" % p)
        pair(here, lev(M, lambda o: o["prec"] <= p), ["A", " ", "x0", " ", "B", " ", "x1"], ["(", "A", " ", "x0", ") ", "B", " ", "x1"], "prefix operators of precedence %d, then looser" % p)
        pair(lev(M, lambda o: True), here, ["x0", " ", "A", " ", "B", " ", "x1"], ["x0", " ", "A", " (", "B", " ", "x1", ")"], "operator, then prefix operator as its operand")
        pair(here, lev(PREFIX, lambda o: True), ["A", " ", "B", " ", "x0"], ["A", " (", "B", " ", "x0", ")"], "prefix operators")
        pair(here, lev(POSTFIX, lambda o: o["prec"] > p), ["A", " ", "x0", " ", "B"], ["A", " (", "x0", " ", "B", ")"], "prefix, tighter postfix")
        pair(here, lev(POSTFIX, lambda o: o["prec"] <= p), ["A", " ", "x0", " ", "B"], ["(", "A", " ", "x0", ") ", "B"], "prefix, looser postfix")
    for p in sorted({o["prec"] for o in POSTFIX}):
        here = lev(POSTFIX, lambda o: o["prec"] == p)
        M = MID if deep(tier) else R
        pair(lev(M, lambda o: o["prec"] < p), here, ["x0", " ", "A", " ", "x1", " ", "B"], ["x0", " ", "A", " (", "x1", " ", "B", ")"], "operator, then tighter postfix of %d" % p)
        pair(lev(M, lambda o: o["prec"] >= p), here, ["x0", " ", "A", " ", "x1", " ", "B"], ["(", "x0", " ", "A", " ", "x1", ") ", "B"], "operator, then looser postfix of %d" % p)
        pair(here, lev(M, lambda o: True), ["x0", " ", "A", " ", "B", " ", "x1"], ["(", "x0", " ", "A", ") ", "B", " ", "x1"], "postfix, then operator")
        pair(here, lev(POSTFIX, lambda o: True), ["x0", " ", "A", " ", "B"], ["(", "x0", " ", "A", ") ", "B"], "postfix operators")
    # forms of more than one operator, and those without a symbol of their own: (left end, middle, right end, precedence to the left, to the right; None: closed)
    FORMS = [("q", " /: r = ", "s", 5, 3.5), ("q", " /: r := ", "s", 5, 3.5), ("q", " /: r =.", "", 5, None), ("q", " ~ r ~ ", "s", 81, 81), ("q", " : ", "s", 20, 20), ("q_", " : ", "s", 19, 19), ("q", " : r : ", "s", 20, 19), ("q", " ;; ", "s", 40, 40),
        ("q", " ;; r ;; ", "s", 40, 40), ("q", " ", "s", 54, 54), ("q", " =.", "", 4, None), ("q", " >> ", "s", 3, None), ("q", " >>> ", "s", 3, None), ("q", "::", "s", 92, None), ("q", "[s]", "", 88, None), ("q", "[[s]]", "", 88, None), ("q", " ;", "", 2, None), ("q", " ;;", "", 40, None)]
    M = MID if deep(tier) else R
    def one(ops, t1, t2, name):
        for l in chunks(name, ops) if ops else []: f = lambda tt: [L(l, var=0) if i == "A" else x(0) if i == "X" else i for i in tt]; out.append(Job("eq_cst", f(t1), f(t2)))
    for l, m, r, pl, pr in FORMS:
        n = "the form " + l + m + r
        one(lev(M, lambda o: o["prec"] < pl), ["X", " ", "A", " " + l + m + r], ["X", " ", "A", " (" + l + m + r + ")"], "operators looser than " + n)
        if ":" not in m or "/" in m or "::" in m: one(lev(M, lambda o: o["prec"] > pl), ["X", " ", "A", " " + l + m + r], ["(", "X", " ", "A", " " + l + ")" + m + r], "operators tighter than " + n)
        if pr:
            one(lev(M, lambda o: o["prec"] > pr), [l + m + r + " ", "A", " ", "X"], [l + m + "(" + r + " ", "A", " ", "X", ")"], "operators tighter than " + n)
            one(lev(M, lambda o: o["prec"] < pr), [l + m + r + " ", "A", " ", "X"], ["(" + l + m + r + ") ", "A", " ", "X"], "operators looser than " + n)
            one(lev(POSTFIX, lambda o: o["prec"] > pr), [l + m + r + " ", "A"], [l + m + "(" + r + " ", "A", ")"], "postfix operators tighter than " + n)
        if r and pr != None and m.strip() and m != " : r : ": one(lev(PREFIX, lambda o: True), [l + m, "A", " ", "X"], [l + m + "(", "A", " ", "X", ")"], "prefix operators in " + n)
        one(lev(PREFIX, lambda o: o["prec"] >= pl), ["A", " " + l + m + r], ["(", "A", " " + l + ")" + m + r], "prefix operators tighter than " + n) if ":" not in m or "/" in m or "::" in m else None
        one(lev(PREFIX, lambda o: o["prec"] < pl), ["A", " " + l + m + r], ["A", " (" + l + m + r + ")"], "prefix operators looser than " + n)
    one(lev(M, lambda o: o["prec"] > 1), ["f[", "X", " ", "A", " q, r ", "A", " s]"], ["f[(", "X", " ", "A", " q), (r ", "A", " s)]"], "operators between commas")
    one(lev(M, lambda o: o["prec"] > 5), ["q /: ", "X", " ", "A", " r = s"], ["q /: (", "X", " ", "A", " r) = s"], "operators in the middle of /:")
    for a, b in (("q ~ r ~ s ~ t ~ ", "(q ~ r ~ s) ~ t ~ "), ("q /: r = s /: t = ", "q /: r = (s /: t = "), ("q /: r = s = ", "q /: r = (s = "), ("q = s /: r := ", "q = (s /: r := "), ("q[r][s]", "(q[r])[s]"), ("q[[r]][s]", "(q[[r]])[s]"), ("q::r[s]", "(q::r)[s]")):
        if b.count("(") > b.count(")"): out.append(Job("eq_cst", [a, x(0)], [b, x(0), ")"]))
        else: out.append(Job("eq_cst", [a] + ([x(0)] if a.endswith(" ") else []), [b] + ([x(0)] if b.endswith(" ") else [])))
    return out
Spec("C09", c09)

# ---------------------------------------------------------------- C17 meaning of each form
def meaning(s):
    """x, y, z standing alone are operands: x and z symbolic letters, y the letter q"""
    out, i = [], 0
    for i, c in enumerate(s):
        if c in "xyz" and not s[i - 1:i].isalpha() and not s[i + 1:i + 2].isalpha() and s[i - 1:i + 1] != "\\[": it = "q" if c == "y" else x(0 if c == "x" else 2)
        else: it = c
        if isinstance(it, str) and out and isinstance(out[-1], str): out[-1] += it
        else: out.append(it)
    return out
MEANINGS = [l.rsplit(" = ", 1) for l in open(os.path.join(VERIF, "spec", "meanings.txt")).read().split("\n") if " = " in l]
INEQ = {"<": "Less", ">": "Greater", ">=": "GreaterEqual", "<=": "LessEqual", "==": "Equal", "!=": "Unequal", "\\[Equal]": "Equal", "\\[LongEqual]": "Equal", "\\[NotEqual]": "Unequal",
        "\\[GreaterSlantEqual]": "GreaterEqual", "\\[LessSlantEqual]": "LessEqual"}
DIRECT = {"BinaryAt", "BinarySlashSlash", "Divide", "Divisible", "Minus", "PrefixNot2", "Derivative"}
OPERANDS = Lex("operand", ["a", "1", "2.5", "16^^ff", "\"s\"", "f[b]", "f[]", "{c,d}", "a_b", "#", "%", "a`b", "<|a->b|>", "b::c", "-a", "a+b", "a*b", "a/b", "a^b", "a=b", "a;b", "a;", "a&", "a->b", "a<b", "a~f~b", "a'", "!a", "a.b", "a||b", "-1", "a[[1]]", "a?b", "a:b", "a@b"])
def c17(tier):
    out = [Job("eq_ast", meaning(a), meaning(b)) for a, b in MEANINGS]
    groups = {}
    for o in OPS:
        if o["lex"] in SKIP_OPS or o["head"] in DIRECT or o["head"] == "Plus" and o["lex"] != "+": continue
        h = o["head"]
        if "Vector" in o["lex"]: continue
        if h == "InfixInequality": h = INEQ.get(o["lex"], o["lex"].strip("\\[]"))
        if h == "HermitianConjugate": h = "ConjugateTranspose"
        groups.setdefault(o["kind"], []).append((o["lex"], h))
    for kind, prs in groups.items():
        for i in range(0, len(prs), 250):
            la, lb = Lex(kind + " operator", [p[0] for p in prs[i:i + 250]]), Lex("its head", [p[1] for p in prs[i:i + 250]])
            A, H = L(la, var=0), L(lb, var=0)
            if kind in ("binary", "infix"): out.append(Job("eq_ast", [x(0), " ", A, " ", x(2)], [H, "[", x(0), ",", x(2), "]"]))
            if kind == "infix": out.append(Job("eq_ast", [x(0), " ", A, " q ", A, " ", x(2)], [H, "[", x(0), ",q,", x(2), "]"])); out.append(Job("eq_ast", ["f[", x(0), A, "q,", x(2), A, "g[]]"], ["f[", H, "[", x(0), ",q],", H, "[", x(2), ",g[]]]"]))
            O = L(OPERANDS, var=1)
            if kind in ("binary", "infix"): out += [Job("eq_ast", ["(", O, ") ", A, " ", x(0)], [H, "[", O, ",", x(0), "]"]), Job("eq_ast", [x(0), " ", A, " (", O, ")"], [H, "[", x(0), ",", O, "]"])]
            if kind == "prefix": out += [Job("eq_ast", [A, " (", O, ")"], [H, "[", O, "]"])]
            if kind == "postfix": out += [Job("eq_ast", ["(", O, ") ", A], [H, "[", O, "]"])]
            if kind == "prefix": out.append(Job("eq_ast", [A, " ", x(0)], [H, "[", x(0), "]"]))
            if kind == "postfix": out.append(Job("eq_ast", [x(0), " ", A], [H, "[", x(0), "]"]))
    # the spellings of a percent sign and of the named constants
    pc = Lex("percent sign", ["%", "\\.25", "\\:0025", "\\|000025", "\\045", "\\[RawPercent]"])
    out += [Job("eq_ast", [L(pc), L(pc)], ["Out[-2]"]), Job("eq_ast", ["a ", L(pc), L(pc), L(pc)], ["Times[a,Out[-3]]"]), Job("eq_ast", ["f[%%", L(pc), "%%", L(pc), "]"], ["f[Out[-6]]"])]
    for nm, sp in (("Pi", ["\u03c0", "\\[Pi]", "\\:03c0", "\\|0003c0"]), ("Degree", ["\xb0", "\\[Degree]", "\\:00b0", "\\.b0", "\\260", "\\|0000b0"]), ("Infinity", ["\u221e", "\\[Infinity]", "\\:221e", "\\|00221e"]), ("E", ["\uf74d", "\\[ExponentialE]", "\\:f74d", "\\|00f74d"]), ("I", ["\uf74e", "\\[ImaginaryI]", "\\:f74e", "\\|00f74e", "\uf74f", "\\[ImaginaryJ]", "\\:f74f", "\\|00f74f"])):
        S = L(Lex("spelling of " + nm, sp))
        out += [Job("eq_ast", [S], [nm]), Job("eq_ast", ["f[", S, "]^", x(0)], ["Power[f[%s]," % nm, x(0), "]"])]
    vec = ["VectorLess", "VectorLessEqual", "VectorGreater", "VectorGreaterEqual"]
    A, H = L(Lex("vector inequality", ["\\[%s]" % v for v in vec]), var=0), L(Lex("its head", vec), var=0)
    out += [Job("eq_ast", [x(0), A, x(2)], [H, "[{", x(0), ",", x(2), "}]"]), Job("eq_ast", [x(0), A, "q", A, x(2)], [H, "[{", x(0), ",q,", x(2), "}]"])]
    prs = [(o["lex"], INEQ.get(o["lex"], o["lex"].strip("\\[]"))) for o in OPS if o["head"] == "InfixInequality" and "Vector" not in o["lex"]]
    by = {}
    for a, h in prs: by.setdefault(h, []).append(a)
    hs = sorted(by)
    for i, h in enumerate(hs[:None if deep(tier) else 12]):
        rest = [(a, g) for a, g in prs if g != h]
        la, lb = Lex("another inequality", [p[0] for p in rest]), Lex("its head", [p[1] for p in rest])
        out.append(Job("eq_ast", [x(0), " ", by[h][0], " q ", L(la, var=0), " ", x(2)], ["Inequality[", x(0), ",", h, ",q,", L(lb, var=0), ",", x(2), "]"]))
    # a chain that turns from scalar to vector comparisons (or back) has what came before as its first operand; the six plain ones fit both
    plain = ["Equal", "Unequal", "Less", "Greater", "LessEqual", "GreaterEqual"]
    n, N = [p for p in prs if p[1] in plain], [p for p in prs if p[1] not in plain]
    pr = lambda name, l, var: (L(Lex(name, [p[0] for p in l]), var=var), L(Lex("its head", [p[1] for p in l]), var=var))
    (a, ha), (b, hb) = pr("plain comparison", n, 0), pr("scalar comparison", N, 0)
    V, HV = L(Lex("vector inequality", ["\\[%s]" % v for v in vec]), var=1), L(Lex("its head", vec), var=1)
    VI = "Developer`VectorInequality["
    out += [Job("eq_ast", [x(0), " ", b, " q", V, x(2)], [HV, "[{", hb, "[", x(0), ",q],", x(2), "}]"]), Job("eq_ast", [x(0), V, "q ", b, " ", x(2)], [hb, "[", HV, "[{", x(0), ",q}],", x(2), "]"])]
    out += [Job("eq_ast", [x(0), " ", a, " q", V, x(2)], [VI, x(0), ",", ha, ",q,", HV, ",", x(2), "]"]), Job("eq_ast", [x(0), V, "q ", a, " ", x(2)], [VI, x(0), ",", HV, ",q,", ha, ",", x(2), "]"])]
    out += [Job("eq_ast", [x(0), "\\[%s]q\\[%s]" % (u, w), x(2)], [VI, x(0), ",%s,q,%s," % (u, w), x(2), "]"]) for u in vec for w in vec if u != w]
    out += [Job("eq_ast", [x(0), "<q ", b, " r", V, x(2)], [HV, "[{Inequality[", x(0), ",Less,q,", hb, ",r],", x(2), "}]"]), Job("eq_ast", [x(0), " ", b, " q", V, "r ", b, " ", x(2)], [hb, "[", HV, "[{", hb, "[", x(0), ",q],r}],", x(2), "]"])]
    return out
Spec("C17", c17, {1: "assertions"}, sample=20)

# ---------------------------------------------------------------- C29 quirks
QUIRKS = [(0x400, "x@@@y", "Apply[x,y,{1}]"), (0x400, "x@@@y@@@z", "Apply[x,Apply[y,z,{1}],{1}]"), (0, "x@@@y", "MapApply[x,y]"),
    (0x100, "x/y/z", "Times[x,Power[y,-1],Power[z,-1]]"), (0x100, "-x/y", "Times[-1,x,Power[y,-1]]"), (0x100, "x y/z", "Times[x,y,Power[z,-1]]"), (0x100, "x/y z", "Times[x,Power[y,-1],z]"),
    (0x100, "-x*y", "Times[-1,x,y]"), (0x100, "x/y", "Times[x,Power[y,-1]]"), (0x100, "x\\[Divide]y/z", "Times[x,Power[y,-1],Power[z,-1]]"), (0x100, "x/(y/z)", "Times[x,Power[Times[y,Power[z,-1]],-1]]"),
    (0, "x/y/z", "Times[Times[x,Power[y,-1]],Power[z,-1]]"), (0, "-x/y", "Times[Times[-1,x],Power[y,-1]]"), (0, "x/y z", "Times[Times[x,Power[y,-1]],z]"),
    (0, "x===SameQ@y", "SameQ[x,SameQ[y]]"), (0, "x=!=UnsameQ@y", "UnsameQ[x,UnsameQ[y]]"), (0, "x<Less@y", "Less[x,Less[y]]"), (0, "Plus@x", "Plus[x]"), (0, "x->Rule@y", "Rule[x,Rule[y]]")]
def c29(tier):
    out = [Job("eq_ast", meaning(a), meaning(b), opts=o) for o, a, b in QUIRKS]
    prs = sorted({(o["lex"], o["head"]) for o in OPS if o["kind"] == "infix" and o["head"] not in ("SameQ", "UnsameQ", "InfixInequality", "Divisible", "CompoundExpression") and o["lex"] not in SKIP_OPS and o["lex"] not in ("-", "\\[Minus]") and o["prec"] < 82})
    A, H = L(Lex("infix operator", [p[0] for p in prs]), var=0), L(Lex("its head", [p[1] for p in prs]), var=0)
    out += [Job("eq_ast", [x(0), " ", A, " ", H, "@", x(2)], [H, "[", x(0), ",", x(2), "]"]), Job("eq_ast", [H, "@", x(0), A, x(2)], [H, "[", x(0), ",", x(2), "]"]),
            Job("eq_ast", [x(0), " ", A, " ", H, "@", x(2)], [H, "[", x(0), ",", H, "[", x(2), "]]"], opts=0x200), Job("eq_ast", [x(0), " ", A, " ", H, "[", x(2), "]"], [H, "[", x(0), ",", H, "[", x(2), "]]"]),
            Job("eq_ast", [x(0), " ", A, " f@", x(2)], [H, "[", x(0), ",f[", x(2), "]]"])]
    return out + wide("c29", pairs=deep(tier)) + T("c29", "??", "a??") + [Job("c29", [v(), v()]), Job("c29", ["a", v(), "b", k(), "c"])] + ([Job("c29", ["a", v(), "b", v(), "c"]), Job("c29", [v(), v(), k()])] if deep(tier) else [])
Spec("C29", c29, {1: "assertions", 2: "@@@", 3: "division or minus", 4: "@"})

# ---------------------------------------------------------------- C11 trivia
SEP1 = Lex("blank or comment", ["\t", "  ", "(*c*)", " (**) ", "(*(*a*)*)\t", "(*\n*)", "\x0b"])
SEP2 = Lex("blank, newline or comment", ["\t", "(*c*)", "\n", "\r\n", "\r", "\n\n (*c*)\n", " \n\t"])
SOLID = Lex("token", [i for i in VOC.items if i.decode() not in TRIVIA + ["\"", "(*", "<<", ">>", ">>>", "\\(", "\\)", "\\!", "\\", "\\ ", "\u200b", "\ufeff", "\\[IndentingNewLine]"]])
SOLIDK = Lex("core token", [i for i in CORE.items if i in SOLID.items])
INNER = Lex("token other than a bracket", [i for i in SOLID.items if i.decode() not in GROUPS])
INNERK = Lex("core token other than a bracket", [i for i in SOLIDK.items if i in INNER.items])
def c11(tier):
    out = []
    iv, ik = (lambda i: L(INNER, var=i)), (lambda i: L(INNERK, var=i))
    sv, sk = (lambda i: L(SOLID, var=i)), (lambda i: L(SOLIDK, var=i))
    def inv(seps, shape, opts=0):
        f = lambda s: [s if i == "." else i for i in shape]
        out.append(Job("c11", f(L(seps, var=9)), f(" "), opts=opts))
    inv(SEP1, ["a", ".", sv(0), ".", "b"]); inv(SEP1, [sk(0), ".", sk(1)]); inv(SEP1, [sv(0), ".", "a"]); inv(SEP1, ["a", ".", sk(0), ".", "b", ".", sk(1), ".", "c"])
    inv(SEP2, ["(", ".", iv(0), ".", "b", ".", ")"]); inv(SEP2, ["{", "a", ".", ik(0), ".", ik(1), ".", "b}"]); inv(SEP2, ["f[", ".", iv(0), ".", "]"]); inv(SEP2, ["(a", ".", iv(0), ".", "b)"])
    inv(SEP2, [".", "a", iv(0), "b", "."]); inv(SEP2, [".", "f", "[", ".", ik(0), ".", ",", ".", "b", ".", "]", "."]); inv(SEP1, ["f", ".", "[", "a", "]", ".", "[", "[", ".", "b", ".", "]", "]"])
    # blanks around an operator may be left out
    for l in chunks("operator", [o["lex"] for o in OPS]): out += [Job("c11", [x(0), L(l, var=0), x(2)], [x(0), " ", L(l, var=0), " ", x(2)]), Job("c11", ["f[", L(l, var=0), x(2), "]"], ["f[ ", L(l, var=0), " ", x(2), "]"]), Job("c11", ["f[", x(0), L(l, var=0), "]"], ["f[", x(0), " ", L(l, var=0), " ]"])]
    for c in CONSTRUCTS:
        if c[0] in ("<<", "#a", "(*", "1.5", "%", "\\(", "\\!") or ">>" in c or "::" in c: continue
        for i in range(1, len(c)): inv(SEP1, ["".join(c[:i]), ".", "".join(c[i:])]); inv(SEP2, ["{" + "".join(c[:i]), ".", "".join(c[i:]) + "}"])
    if deep(tier): inv(SEP1, [sv(0), ".", sv(1)]); inv(SEP2, ["{", iv(0), ".", ik(1), ".", iv(2), "}"]); inv(SEP1, [sk(0), ".", sk(1), ".", sk(2)])
    return out
Spec("C11", c11, {1: "well-formed", 2: "malformed"})

# ---------------------------------------------------------------- C26 aggregation
TRIV = Lex("trivia", TRIVIA + ["(*\n*)", "\x0c", " \n "])
def c26(tier):
    e = "c26"; tr = lambda: L(TRIV)
    return (lexgen(e)(tier) if deep(tier) else wide(e) + T(e, "??", "a??", "(*??") + named(e) + [Job(e, [v(), v()])]) + [Job(e, [k(), tr(), k(), tr()]), Job(e, ["a", tr(), v(), tr(), "b"]), Job(e, ["f", tr(), "[", tr(), k(), " ]"]), Job(e, ["{a", tr(), ", ", k(), tr(), "b}"])]
Spec("C26", c26, {1: "assertions", 2: "trivia present"})

# ---------------------------------------------------------------- C13 escapes
def c13(tier):
    out = []
    ch = [c for c in SPEC["chars"]]
    for i in range(0, len(ch), 250):
        part = ch[i:i + 250]
        N, R = L(Lex("named character", ["\\[%s]" % c["name"] for c in part]), var=0), L(Lex("the character itself", [chr(c["cp"]) for c in part]), var=0)
        H = L(Lex("its hexadecimal escape", ["\\:%04x" % c["cp"] if c["cp"] < 0x10000 else "\\|%06x" % c["cp"] for c in part]), var=0)
        out += [Job("c13", [N], [R])]
        for pre, post in (("", ""), ("a", "b"), ("\"", "\"")): out += [Job("eq_kinds", [pre, N, post], [pre, H, post])]
        part = [c for c in part if c["name"] not in ("RawDoubleQuote", "RawBackslash")]
        N, R = L(Lex("named character", ["\\[%s]" % c["name"] for c in part]), var=0), L(Lex("the character itself", [chr(c["cp"]) for c in part]), var=0)
        for pre, post in (("", ""), ("a", "b"), ("\"", "\"")): out += [Job("eq_kinds", [pre, N, post], [pre, R, post])]
    h = lambda n: [B(HEX) for _ in range(n)]
    out += [Job("c13h", ["\\.", *h(2)]), Job("c13h", ["\\:00", *h(2)]), Job("c13h", ["\\", B(OCT), B(OCT), B(OCT)])]
    out += [Job("c13h", ["\\:", B(HEX), B(HEX), "0f"]), Job("c13h", ["\\:f", B(HEX), B(HEX), "0"]), Job("c13h", ["\\|", B(HEX), B(HEX), "0000"]), Job("c13h", ["\\|1", B(HEX), "d8", B(HEX), "9"])]
    out += [Job("c13s", ["a", L(l), "b"]) for l in chunks("named character that is not a raw one", [n for n in NAMED if "Raw" not in n and n != "\\[NewLine]"])] + [Job("c13s", [L(l)], ["x"]) for l in chunks("named character", NAMED)]
    out += [Job("c13s", [v(), v()])] + T("c13s", "???", "\\:00??", "\\.??", "\\???", "\\|00??00")
    for x0, x1 in (("00", "HH"), ("H", "H00"), ("2", "HH2"), ("fH", "HH")):
        tt = [B(HEX, var=i) if c == "H" else c for i, c in enumerate(x0 + x1)]
        for pre, post in (("", ""), ("a ", "b"), ("1", "1")): out += [Job("eq_kinds", [pre, "\\:", *tt, post], [pre, "\\|00", *tt, post])]
    hh = [B(HEX, var=0), B(HEX, var=1)]
    out += [Job("eq_kinds", ["a\\.", *hh, "b"], ["a\\:00", *hh, "b"])]
    a = lambda n: [B(ALNUM) for _ in range(n)]
    out += [Job("c13m", ["{\\:", *a(2), "5b}"]), Job("c13m", ["{\\:d", *a(3), "}"]), Job("c13m", ["{\\.", *a(2), "}"]), Job("c13m", ["{\\|", *a(2), "d800}"]), Job("c13m", ["{\\|00", *a(1), "8", *a(2), "}"]), Job("c13m", ["{\\", B(OCT), *a(2), "}"])]
    return out
Spec("C13", c13, {1: "escapes that name a character", 2: "escapes that name none"})
# ---------------------------------------------------------------- C14, C15, C25 reference lexer
NUMB = Cls("number byte", b"0123456789abfFzZ.`*^+-_")
NUM6 = Cls("number byte", b"019az.`*^+-")
NUMP = Lex("piece of a number", ["1", "0", "23", "f", "Z9", ".", "..", "`", "``", "+", "-", "*", "*^", "^", "^^", "2^^", "16^^", "36^^", "37^^", " ", "a", "*^-", "*^3", ".5"])
def c14(tier):
    e = "lex"; n = lambda: L(NUMP)
    out = T(e, "1????", cls=NUMB) + T(e, "?????", "1`????", "2^^????", "0?????", cls=NUM6) + T(e, "1.??", "2`??", "1``??", "1*^??", "1`2??", "16^^??", ".5??", "3*^-??", "1*^2??", "1``-??")
    out += [Job(e, [B(DIGIT), B(DIGIT), "^^", B(ALNUM), ".", B(ALNUM), "*^-", B(DIGIT)]), Job(e, ["0", B(DIGIT), B(DIGIT), B(DIGIT), "^^", B(ALNUM)]), Job(e, [n(), n(), n(), n()]), Job(e, ["1", n(), n(), n(), "7"]), Job(e, ["16^^a", n(), n(), n()])]
    if deep(tier): out += T(e, "??????", "1``?????", cls=NUM6) + T(e, "1???", "2^^???", "1`???") + [Job(e, [n(), n(), n(), n(), n()]), Job(e, ["1.5`", n(), n(), n(), n()])]
    return out
Spec("C14", c14, {10: "integer", 11: "real", 12: "rational", 13: "malformed number"})
def c15(tier):
    e = "lex"
    out = T(e, "\"????", "(*????", "\"???\"a", "(*???*)a", "a\"??\"b", "(*(*???*)", "\"\\??\"", cls=Cls("string or comment byte", b"\"\\()*a\n\r\t[]:0.|")) + T(e, "\"???", "(*???", "\"\\??\"", "\"a\"?\"b\"", "(**)?(**)", "\"\\\\??", "(*\"?*)?", "\"(*?\"?")
    out += [Job(e, ["\"", v(), v(), "\" b"]), Job(e, ["(*", v(), v(), "*) b"]), Job(e, ["\"", named_list(0), "\"\"x\""]), Job(e, ["\"", named_list(1), "\"a"]), Job(e, ["(*", named_list(0), "*)a"])]
    LB = Cls("blob byte", b"\\()\"*a \n[+")
    out += T(e, "\\(????", "\\(\\??\\)a", "\\(\\(???\\)a", "\\(?\\)?\\)", cls=LB) + T(e, "\\(??", "\\(?\\)?") + [Job(e, ["\\(", v(), v(), "\\)b"])]
    hx = lambda n: [B(HEX) for _ in range(n)]
    out += [Job(e, ["\"\\:", *hx(2), "22\"a"]), Job(e, ["\"\\:00", *hx(2), "\"a"]), Job(e, ["\"\\.", *hx(2), "\"a"]), Job(e, ["\"\\|0000", *hx(2), "\"a"]), Job(e, ["\"\\", B(OCT), B(OCT), B(OCT), "\"a"])]
    for n in (2, 3, 4, 5, 6, 8, 12, 40):
        for op, cl in (("(*", "*)"), ("\\(", "\\)")): out += [Job(e, [op * n, B(ASCII), cl * n, B(ASCII)]), Job(e, [op * n, cl * (n - 1), B(ASCII), cl, k()]), Job(e, [op * n, cl, op, k(), cl * n, " b"])]
    for n in (5, 33, 300): out += [Job(e, ["\"" + "a" * n, k(), "\\\"" * n, k(), "\"b"]), Job(e, ["(*" + "*" * n, k(), "*)b"]), Job(e, ["(*" + ")" * n, k(), "(" * n, "*)b"])]
    if deep(tier): out += T(e, "\"??????", "(*??????", cls=Cls("string or comment byte", b"\"\\()*a\n")) + T(e, "\"????", "(*????")
    return out
Spec("C15", c15, {14: "string", 15: "comment", 17: "linear syntax"})
def named_list(i): return L(chunks("named character", NAMED)[i])
def c25(tier):
    e = "lex"
    out = T(e, "\\??", " \\?\\?", "???", "a???", "/???", "=!??", "<-??", "|-??", "a`??", "`???", "^:??", "%%??", "\r???") + T(e, "????", cls=Cls("operator byte", b":=>!_<|-./@;*+~?^&#"))
    out += [Job(e, ["a", v(), v(), "b"]), Job(e, ["1", v(), v(), "2"]), Job(e, [v(), v(), v()])][: 3 if deep(tier) else 2]
    if deep(tier): out += T(e, "?????", cls=PUNCT) + T(e, "????")
    return out
Spec("C25", c25, {1: "tokens", 16: "symbols"})

# ---------------------------------------------------------------- C24 errors
def c24(tier):
    out = lexgen("c24")(tier) if deep(tier) else wide("c24") + T("c24", "??", "a??", "\"??", "(*??", "\\??") + [Job("c24", [v(), v()]), Job("c24", ["a", v(), k(), "b"])] + named("c24")
    mid = [o["lex"] for o in MID]
    both = set(o["lex"] for o in PREFIX), set(o["lex"] for o in POSTFIX)
    soft = {";", ";;", ",", "\\[InvisibleComma]"}
    opr = [o for o in mid if o not in both[0] | soft]; opl = [o for o in mid if o not in both[1] | soft]
    cl = Lex("end of operand", ["", " ", "\n", "]", ")", "}", ",", ";", "(*c*)", "|>"])
    for l in chunks("operator needing a left operand", opr): out += [Job("has_err", [L(l), " ", B(LOWER)]), Job("has_err", ["{", L(l), B(LOWER), "}"]), Job("has_err", ["f[a,", L(l), "b]"])]
    for l in chunks("operator needing a right operand", opl): out += [Job("has_err", [B(LOWER), " ", L(l)]), Job("has_err", ["{", B(LOWER), L(l), " }"]), Job("has_err", ["f[a ", L(l), ",b]"]), Job("has_err", ["a ", L(l), L(cl)])]
    for l in chunks("prefix operator", [o["lex"] for o in PREFIX if o["lex"] not in both[1]]): out += [Job("has_err", [L(l)]), Job("has_err", ["{", L(l), "}"]), Job("has_err", ["a+ ", L(l), L(cl)])]
    for l in chunks("postfix operator", [o["lex"] for o in POSTFIX if o["lex"] not in both[0]]): out += [Job("has_err", [L(l)]), Job("has_err", ["{", L(l), "}"])]
    for l in chunks("operator", [o for o in mid]): out += [Job("no_err", [B(LOWER), " ", L(l), " ", B(LOWER)]), Job("no_err", ["f[{", B(LOWER), L(l), " ", B(LOWER), "}]"])]
    for l in chunks("prefix operator", [o["lex"] for o in PREFIX]): out += [Job("no_err", [L(l), " ", B(LOWER)])]
    for l in chunks("postfix operator", [o["lex"] for o in POSTFIX]): out += [Job("no_err", [B(LOWER), " ", L(l)])]
    return out
Spec("C24", c24, {1: "assertions", 2: "lexical error", 3: "error in the concrete tree"})
Spec("C27", lambda tier: wide("c27") + T("c27", "?", "a?") + [Job("c27", [v(), v()]), Job("c27", ["a", v(), "b"]), Job("c27", ["f[", k(), k(), "]"])] + named("c27") + ([Job("c27", ["a", v(), "b", k(), "c"])] if deep(tier) else []))
def c28(tier):
    out = []
    FB = Cls("file name byte", b"aZ09$`/.\\!-_:*~?[] \t\n(){};,\"")
    for what, lead in ((0, "a::"), (0, "a::b::"), (0, "a::b ::"), (1, "<<"), (1, "a>>"), (1, "a>>>"), (1, "a >> "), (2, "#"), (3, "##"), (4, "%"), (2, "a+#"), (4, "a %")):
        x = dict(extra=[what, len(lead)])
        out += [Job("c28", [lead, *t("??")], **x), Job("c28", [lead, "b", *t("??")], **x), Job("c28", [lead, "1", *t("?")], **x), Job("c28", [lead, v(), v()], **x)]
        if what == 1: out += [Job("c28", [lead, *t("????" if lead == "<<" else "???", FB)], **x), Job("c28", [lead, "a[", *t("???", FB)], **x)]
        if deep(tier): out += [Job("c28", [lead, *t("???")], **x)]
    return out
Spec("C28", c28, {1: "name, number or file", 2: "nothing taken", 3: "missing"})
WHOLE = Lex("token that is not a partial escape", [i for i in VOC.items if i not in (b"\\.7", b"\\:0", b"\\[", b"\\")])
BLANKS = Lex("blank", [" ", "\t", "\x0b", "\x0c"])
def c30(tier):
    lcs = [["\\\n"], ["\\\r\n"], ["\\\n  "], ["\\\r"], ["\\\n\\\n"], ["\\\n", L(BLANKS)], ["\\\r\n\t", L(BLANKS), " ", L(BLANKS)], ["\\\n" + " " * 40], ["\\\n \\\r\n\t\\\n"]]
    e = "c30"
    out = []
    for i, lc in enumerate(lcs):
        out += [Job(e, t("?"), t("?"), lc), Job(e, [k()], [k()], lc)]
        if i < 2: out += [Job(e, t("??"), t("?"), lc), Job(e, t("?"), t("??"), lc), Job(e, [L(WHOLE)], [v()], lc), Job(e, t("1?"), t("??", NUMB), lc), Job(e, t("\"?"), t("?\"a"), lc)]
    cuts = [(c[:i], c[i:]) for c in JOINED + ["16^^ff.8`2*^-3", "\\[Alpha]x", "a`b`c", "\"a\\nb\"", "\\:03b1"] for i in range(1, len(c)) if c[i - 1] != "\\" and not re.search(r"\\\[[A-Za-z]*$|\\:[0-9a-f]{0,3}$", c[:i])]
    for A, Z in pairs("first half", cuts): out += [Job(e, [A], [Z], lc) for lc in lcs[:3]]
    for o in ASCII_OPS:
        for i in range(1, len(o)): out.append(Job(e, ["a" + o[:i]], [o[i:], k()], ["\\\n"]))
    return out
Spec("C30", c30)
Spec("C31", lambda tier: [Job("c31", opts=0), Job("c31", opts=4)])
def c32(tier):
    out = []
    for e in ("c32", "c32t", "c32r", "c32a"):
        out += T(e, "?", "\"??") + [Job(e, [k(), k()]), Job(e, ["a ", v(), " b"]), Job(e, [v()])]
        if e != "c32t": out += named(e, lst=None if e == "c32" else NAMED_OPS) + [Job(e, ["f[", k(), k(), "]"])]
        for o in (4, 1, 0x300, 0x400, 0x80): out += [Job(e, [v()], opts=o), Job(e, ["a", k(), "b"], opts=o), Job(e, ["a@b@c", k(), "-a*b"], opts=o)]
        if deep(tier): out += [Job(e, [v(), v()]), Job(e, ["a", k(), "b", k(), "c"]), Job(e, ["{", k(), k(), "}"])] + T(e, "??", "\\??") + [Job(e, [k(), k()], opts=o) for o in (4, 1, 0x300, 0x400, 0x80)]
    out += [Job("c32r", ["a", k(), "\n", k()], opts=o, extra=[m]) for m in (1, 2) for o in (0, 4)] + [Job("c32r", ["\"", *t("??")], extra=[1]), Job("c32r", [v()], opts=0x10000, extra=[1]), Job("c32r", [v()], opts=0x20000), Job("c32r", [v()], opts=0x30000)]
    BOX = Lex("box", ["RowBox", "GridBox", "TagBox", "TemplateBox", "InterpretationBox", "SubscriptBox", "SuperscriptBox", "StyleBox", "NamespaceBox", "OverscriptBox", "SubsuperscriptBox", "GraphicsBox", "FooBox", "UnderscriptBox"])
    out += [Job("c32b", [L(BOX)], [k()], extra=[m]) for m in (0, 1, 2)]
    out += [Job("c32e", [v()]), Job("c32e", ["a", k(), "b"]), Job("c32e", ["f[", k(), ",", k()])]
    out += [Job("c32l", t("?"), opts=o, extra=[m]) for m in (0, 1, 2) for o in (0, 4)] + [Job("c32l", [v()] + [k()] * deep(tier), opts=o, extra=[m]) for m in (0, 1, 2) for o in (0, 8, 1)]
    out += T("c32s", "??", cls=ANY) + [Job("c32s", [B(ANY), b"\x80", B(ANY)])]
    return out
Spec("C32", c32, {1: "trees and tokens", 2: "input of unsafe encoding", 3: "issues"}, sub="wll", assumptions=["The kernel's link is a stand-in (wll/stub) that hands over a fixed expression and records what is put on it; LibraryLink's export macro is replaced by one that leaves the function callable."],
     outside="source files, abstracting box nodes, aborting, the kernel's side of the link, the expr-based variant of the conversion (cfg USE_EXPR_LIB)")
def c34(tier):
    e = "c34"
    out = T(e, "???", "a???", "f[??]", "(*??") + [Job(e, [v(), v()]), Job(e, ["a ", v(), v(), " b"]), Job(e, ["f[", k(), k(), "]"]), Job(e, ["a", k(), "b", k(), "c"])] + named(e) + big(e)
    for n in (L(Lex("named operator", NAMED_OPS[:250])), L(Lex("named operator", NAMED_OPS[250:]))): out += [Job(e, ["a", n, k()]), Job(e, ["{", k(), n, "b}"])]
    for x in ("a/:b=c", "a/:b:=c", "a/:b=.", "a~b~c", "a:b:c", "a;;b;;c", "\\[Integral]a\\[DifferentialD]b", "a::b::c", "a_b:c", "a<<b>>c", "#a ##2 %3"):
        out += [Job(e, [x[:i], k(), x[i:]]) for i in range(len(x) + 1) if "[" not in x or i in (0, 11, 12, 27, 28)]
    PAT = Lex("pattern", [a + u + b for a in ("", "a", "\\[Pi]") for u in ("_", "__", "___") for b in ("", "b", "`b", "\\[Pi]")] + ["_.", "a_.", "a:b", "a_:b", "a:b:c", "a::b", "(a)", "(a_)", "#", "#a", "%", "a'", "a?b", "-a", "a[b]"])
    out += [Job(e, [v(), ":", k()]), Job(e, [L(PAT), ":", k()]), Job(e, [L(PAT), ":", L(PAT)]), Job(e, [L(PAT), L(PAT)])]
    out += wide(e)
    if deep(tier): out += lexgen(e)(tier) + [Job(e, [k(), L(PAT), ":", L(PAT)])] + [Job(e, ["a", v(), "b", v(), "c"])]
    return out
Spec("C34", c34, {1: "trees", 11: "prefix", 12: "postfix", 13: "binary", 14: "infix", 15: "ternary", 16: "integral", 17: "compound", 18: "group", 19: "group without closer", 30: "implicit times", 40: "colon"})
PRINT = Cls("printable ASCII or newline, no backslash", rng((0x20, 0x5b), (0x5d, 0x7e), b"\t\n\r"))
VOCP = Lex("plain token", [x for x in ASCII_OPS + GROUPS + ATOMS + ["(*c*)", "\n", "\r\n", "\r", " ", "\t", "\"", "(*", "*)", "`", "1.", ".5", "1.5", "1``", "1`", "2^^", "1*^", "1*^2", "#a", "a$", "$"] if "\\" not in x and x.isascii()])
def c35(tier):
    out = T("c35", "???", "a???", "1???", "#???", "\"??", "(*??", "1.2???", "1`???", "2^^1??", "1*^??", cls=PRINT)
    out += T("c35a", "??", "a??", "1??", "#??", "1.2??", "1`??", "2^^1??", cls=PRINT)
    for e in ("c35", "c35a"): out += [Job(e, [L(VOCP), L(VOCP)]), Job(e, ["a", L(VOCP), L(VOCP), "b"]), Job(e, ["\t\r", L(VOCP), "a"], opts=4), Job(e, [L(VOCP), "=", L(VOCP)], opts=0x80)]
    out += T("c35e", "\\??", "a\\??b", "\\[??]", "\\[A?]", "\\[Alph?", "\\:00??", "\\.??", "\\|0003b?", "\\0??", "a\\[Foo]?", "\"\\??", "\"a\\?\"", "\"\\[?A]\"", "\"\\:0?0?\"", "(*\\??", "<<\\??", "a::\\??")
    out += [Job("c35e", ["\"\\", B(LETTER), "\""])] + named("c35e") + [Job("c35e", ["\"", L(l), "\""]) for l in chunks("named character", NAMED)] + [Job("c35e", ["a\n", v(), k()], opts=4)]
    NAME = Lex("name", ["Alpha", "Pi", "RightArrow", "NoBreak", "Alpa", "Foo", "A", "A1", "alpha", "Al pha", ""])
    out += [Job("c35e", [q, B(STRB), L(BSL), L(NAME), B(STRB), "]\"" if q else "]"]) for q in ("\"", "") for BSL in [Lex("opener", ["\\[", "\\\\[", "\\\\\\[", "["])]] + [Job("c35e", [q + a, L(l), z + q]) for l in chunks("name", [x["name"] for x in SPEC["chars"]]) for q in ("", "\"") for a, z in (("\\[", ""), ("\\", "]"))]
    c = "c35c"
    ODD = Lex("odd character", [chr(x) for x in (1, 8, 11, 12, 27, 31, 127, 0x80, 0x85, 0xa0, 0xe9, 0x3c0, 0x200b, 0x2028, 0x2019, 0x2192, 0x2061, 0x3000, 0x4e00, 0x20000, 0xf3a2, 0xf522, 0xf76d, 0xffff, 0x10000, 0xf0000, 0xffffe, 0x10fffd)] + ["\\[NoBreak]", "\\:00a0", "\\[NonBreakingSpace]", "\\.0b", "\\[IndentingNewLine]"])
    out += T(c, "??", "a?b", "\"??", "(*??") + [Job(c, [L(Lex("context", ["a", "\"", "(*", "1", " ", "\n", "\\", "<<", "a::", "#", "#a", "a`"])), L(ODD), k()], opts=o) for o in (0, 4, 8)] + [Job(c, [L(ODD), L(ODD)]), Job(c, ["\t\r\u00e9\r", v(), k()], opts=4)]
    out += [Job(c, ["a", L(l), "b"], opts=4) for l in chunks("literal character", [chr(x["cp"]) for x in SPEC["chars"] if not 0xd800 <= x["cp"] <= 0xdfff])] + named(c) + [Job(c, [x, B(HI), "a"]) for x in (b"\xc2", b"\xcf", b"\xe2\x80", b"\xef\xbf", b"\xf3\xb0\x80", b"\xf4\x8f\xbf")]
    if deep(tier): out += named(c, 8) + big(c) + [Job(c, ["\"", v(), k()], opts=2), Job(c, [b"\xe2", B(HI), B(HI)]), Job(c, [b"\xef", B(HI), B(HI)])]
    m = "c35m"
    HEAD = Lex("head", ["a", "1", "\"s\"", "#", "##", "##2", "#a", "%", "%2", "_", "__", "a_", "a_b", "a_.", "a?b", "a;", "a;b;", "a&", "a'", "a\\[Transpose]", "a!", "(a)", "{a}", "<|a|>", "f[a]", "f[[a]]", "\\!a", "\\(a\\)", "\\[LeftFloor]a\\[RightFloor]", "\\[LeftAngleBracket]a\\[RightAngleBracket]", "a+b;c", "-a", "!!a", "a::b", "a::b::c", "a::b::c::d", "a--", "a..", "a::b::c::d::e", "\\[Pi]", "_."])
    CALL = Lex("call", ["[]", "[a]", "[[a]]", "[[a,b]]", "[[a],b]", "[[a]b]", "[ [a] ]", "\\[LeftDoubleBracket]a\\[RightDoubleBracket]", "::[a]", "[a][b]", "@b"])
    out += [Job(m, [L(HEAD), L(CALL)]), Job(m, ["x", k(), L(HEAD), L(CALL)]), Job(m, ["{", L(HEAD), "(*c*)", L(CALL), "}"], opts=4), Job(m, ["a", k(), "b::c::d"]), Job(m, ["a::b", k(), "c", k(), "d"]), Job(m, ["!!", k(), v()]), Job(m, ["a", k(), "!!b", k(), "c"]), Job(m, [v(), k()])] + named(m, lst=NAMED_OPS) + [Job(m, [L(l), "a[b]"]) for l in chunks("named operator", NAMED_OPS)] + [Job(m, ["a", L(l), "[[b]]"]) for l in chunks("named operator", NAMED_OPS)]
    if deep(tier): out += T("c35", "????", "#a???", "1.2`???", cls=PRINT) + [Job("c35", ["a", L(VOCP), "1", L(VOCP), "."]), Job("c35a", ["a", L(VOCP), L(VOCP), L(VOCP)])] + T("c35e", "\\???", "\"\\???", "\\:?0??", "\\[a??]")
    return out
Spec("C35", c35, {1: "plain inputs", 2: "ambiguous", 5: "carriage return", 8: "UnexpectedSign or so", 100: "insertions applied", 200: "escapes", 201: "unrecognized escape", 202: "escape in a string", 203: "bad escape in a string", 204: "plain escape in a string", 205: "unusual escape in a string", 206: "unknown name after an escaped backslash", 208: "suggestion applied", 401: "unexpected character", 402: "unexpected character in text", 403: "non-ASCII character", 404: "strange space", 405: "strange newline", 406: "strange letter", 407: "control character as a letter", 408: "letter in a tag", 301: "message name of many parts", 302: "prefix !!"})

# ---------------------------------------------------------------- C36 where something left open ends
DIRECTIVES = ["BeginPackage", "Begin", "Needs", "End", "EndPackage", "Clear", "ClearAll", "SetOptions", "SetAttributes", "System`Private`NewContextPath", "System`Private`RestoreContextPath", "Protect", "Unprotect", "Package", "PackageImport", "PackageScope", "PackageExport", "Get", "SetDelayed", "UpSetDelayed", "TagSetDelayed"]
STMT = Lex("start of a statement", ["a = 1", "a=1", "foo  = {b}", "a := b", "a:=1", "a`b := 2", "$x = 1", "f[x_] := x", "f[x_, y_] = x", "f[a, b[c]] := 1\nd", "f [x] = 1", "a\t=\t1", "(* :Name: *)", "(*:a*)", "(*   : b *)", "a=", "ab = 3\n\nc = 4", "f[]:=1", "\u00e9 = 1", "(* ::Package:: *)\nx"] + [d + "[a]" for d in DIRECTIVES] + ["End[]", "Begin[]\nx", "Needs[a,b]; c", "Clear[x, y];", "f[a_, b_, c_, d_] := 1", "f[a_Integer, {b_, c_}, g[d__]] /; d > 1 := h[a]", "f[" + "a," * 40 + "b] = 1", "f[x][y][z] = 1", "f[[1]] = 2", "f[x (* c *)] := 1", "f[a -> b, c :> d] = e", "x" * 200 + " = 1", "a" + " " * 50 + ":= 1"])
CLOSING = Lex("closing line of a definition", ["] = 1", "] := a", "]:=", "]=1\nx"])
PLAIN = Lex("line that starts no statement", ["a", "a == 1", "a === b", "a -> 1", "a[b]", "a[b == c]", "a + b = 1", " a = 1", "\ta := 1", " Begin[a]", "Begin", "Begin + 1", "Ends[a]", "begin[a]", "Print[a]", "(* a *)", "(* a : b *)", "1 = 2", "{a} = b", "a_ = 1", "a::b = 1", "a /: b = c", "a; b = 1", "#a = 1", " (* :a: *)", "a @ b := 1", "xBegin[a]", "Setter[a]", "a ^= 1", "a ^:= b", "a += 1", "a :> b", "\u00e9", "a[b] ^= c"])
def c36(tier):
    out = []
    TXT = Cls("plain byte", bytes(c for c in range(32, 127) if c not in b"\"\\()*=:[]"))
    LOW = lambda: B(TXT)
    opens = [("\"", 0), ("(*", 0), ("\\(", 0), ("{", 1), ("f[", 1), ("<|", 1)]
    for op, grp in opens:
        for n in (2, 7, 40):
            for w, lex in ((1, STMT), (0, PLAIN)): out.append(Job("c36", ["z;" + "\n" * n], [op, "\n".join(["q,"] * n) + "\n", B(LOWER)], ["\n" * n], [L(lex)], extra=[w], opts=4 if n == 7 else 0))
        mid = [B(LOWER)] if grp else [B(TXT)]
        for i, (nl, o) in enumerate((("\n", 0), ("\r\n", 4), ("\n\n", 4), ("\r", 0), ("\n\n\n", 0x20))):
            for what, lex in ((1, STMT), (0, PLAIN)):
                x = dict(opts=o, extra=[what])
                out.append(Job("c36", [""], [op, *mid], [nl], [L(lex)], **x))
                if i < 2 or deep(tier): out += [Job("c36", ["a\nb+"], [op, *mid, "\n c," if grp else "\n c"], [nl], [L(lex)], **x), Job("c36", ["\tz;"], [op, *mid, nl, L(PLAIN)] if not grp else [op, *mid, nl, "  q[1],", nl, "r"], [nl], [L(lex), nl, "t"], **x)]
            if not grp: out += [Job("c36", ["a "], [op, *mid, "\n"], [nl], [L(CLOSING)], opts=o, extra=[1]), Job("c36", [""], [op + "f[\n  ", *mid], [nl], [L(CLOSING)], opts=o, extra=[1])]
            if i < 3 or deep(tier):
                out += [Job("c36", [""], [op, *mid], [nl], [B(LOWER), B(Cls("letter or digit", b"aZ09$")), B(Cls("blank", b" \t")), "= ", B(LOWER)], opts=o, extra=[1]), Job("c36", ["x="], [op, *mid], [nl], [B(LOWER), "[", B(LOWER), "] := 1"], opts=o, extra=[1])]
                if not grp: out += [Job("c36", [""], [op, B(TXT), B(TXT)], [nl], [B(Cls("lower case, digit or blank", b"abcxyz0123 \t")), B(TXT), B(TXT)], opts=o, extra=[0])]
    return out
Spec("C36", c36, {1: "token cut before a statement", 2: "token to the end", 3: "bracket cut before a statement", 4: "bracket to the end"})
