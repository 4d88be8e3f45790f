"""One-off: freeze the operator and character tables that the repository documents in
CodeParser/Data/*.wl (at the pinned commit) as the specification used by the checks.
Run by hand; its output spec.json is committed and never regenerated by a check."""
import json, re, sys
D = sys.argv[1] if len(sys.argv) > 1 else "/repo/CodeParser/Data/"
def strip(s):
    out, depth, i = [], 0, 0
    instr = False
    while i < len(s):
        if not instr and s[i:i+2] == "(*": depth += 1; i += 2; continue
        if not instr and s[i:i+2] == "*)": depth -= 1; i += 2; continue
        if depth == 0:
            if s[i] == '"': instr = not instr
            out.append(s[i])
        i += 1
    return "".join(out)
prec = {}
cur = 0
for l in strip(open(D + "Precedence.wl").read()).splitlines():
    m = re.match(r"\s*Precedence`(\S+) -> (.*?),?\s*$", l)
    if not m: continue
    n, v = m.group(1), m.group(2)
    m2 = re.match(r"\{(\w+), Associativity`(\w+)\}", v)
    if m2:
        cur = cur + 1 if m2.group(1) == "Next" else int(m2.group(1))
        prec[n] = (cur, m2.group(2) == "Right")
    else: prec[n] = prec[v.replace("Precedence`", "")]
ascii = {}
names = """Slash / Caret ^ CaretEqual ^= CaretColonEqual ^:= SlashAt /@ MinusGreater -> AtAt @@ SlashSemi /; SlashDot /. ColonGreater :>
SlashSlashDot //. PlusEqual += StarEqual *= MinusEqual -= SlashEqual /= LessMinusGreater <-> SlashSlashAt //@ At @ AtAtAt @@@ SlashSlash //
Question ? BarMinusGreater |-> SlashSlashEqual //= Minus - EqualEqualEqual === EqualBangEqual =!= Plus + Dot . StarStar ** AmpAmp && BarBar ||
Bar | LessGreater <> TildeTilde ~~ AtStar @* SlashStar /* Star * BangEqual != EqualEqual == Greater > GreaterEqual >= LessEqual <= Less <
Amp & DotDot .. Bang ! MinusMinus -- PlusPlus ++ DotDotDot ... BangBang !! SingleQuote ' Semi ; Equal = ColonEqual :=""".split()
for a, b in zip(names[::2], names[1::2]): ascii[a] = b
ops = []
special = {"Semi": ("infix", "Semi", "CompoundExpression"), "Equal": ("binary", "Equal", "Set"), "ColonEqual": ("binary", "ColonEqual", "SetDelayed"),
           "Star": ("infix", "Star", "Times"), "LongName`Times": ("infix", "LongName`Times", "Times"), "LongName`InvisibleTimes": ("infix", "LongName`InvisibleTimes", "Times")}
for f in ("InfixParselets.wl", "PrefixParselets.wl"):
    for l in strip(open(D + f).read()).splitlines():
        m = re.match(r"\s*Token`(\S+) -> Parselet`(\w+)\[(.*)\],?\s*$", l)
        if not m: continue
        tok, par, args = m.groups()
        kind = {"BinaryOperatorParselet": "binary", "InfixOperatorParselet": "infix", "PostfixOperatorParselet": "postfix", "PrefixOperatorParselet": "prefix"}.get(par)
        if f[0] == "I" and tok in special: kind, p, head = special[tok]
        elif kind: p, head = [x.strip() for x in args.split(",")]; p = p.replace("Precedence`", "")
        else: continue
        if tok.startswith("LinearSyntax"): continue
        lex = ascii[tok] if tok in ascii else "\\[" + tok.replace("LongName`", "") + "]"
        ops.append({"tok": tok, "lex": lex, "kind": kind, "prec": prec[p][0], "right": prec[p][1], "head": head.split("`")[-1]})
chars = []
for m in re.finditer(r'^"(\w+)" -> \{(\w+), 16\^\^([0-9a-fA-F]+), <\|(.*?)\|>\}', strip(open(D + "LongNames.wl").read()), re.M):
    chars.append({"name": m.group(1), "cat": m.group(2), "cp": int(m.group(3), 16)})
json.dump({"prec": {k: list(v) for k, v in prec.items()}, "ops": ops, "chars": chars}, open("spec.json", "w"), indent=0)
from collections import Counter
print(len(ops), Counter(o["kind"] for o in ops), len(chars), Counter(c["cat"] for c in chars), len({o["prec"] for o in ops}))
