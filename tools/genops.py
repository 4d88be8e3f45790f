#!/usr/bin/env python3
"""Writes harness/src/ops.rs (operator token -> node operator, by form) from spec/spec.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ops = json.load(open(os.path.join(V, "spec", "spec.json")))["ops"]
EXTRA = [("infix", "Comma", "Comma"), ("infix", "LongName`InvisibleComma", "Comma"), ("infix", "ColonColon", "MessageName"), ("infix", "Fake_ImplicitTimes", "Times"),
         ("binary", "Colon", "Pattern"), ("binary", "SemiSemi", "Span"), ("prefix", "LessLess", "Get"), ("binary", "GreaterGreater", "Put"), ("binary", "GreaterGreaterGreater", "PutAppend"),
         ("prefix", "LinearSyntax_Bang", "PrefixLinearSyntaxBang")]
rows = {}
for f, t, h in [(o["kind"], o["tok"], o["head"]) for o in ops] + EXTRA: rows.setdefault(f, {}).setdefault(h, set()).add(t.replace("`", "_"))
with open(os.path.join(V, "harness", "src", "ops.rs"), "w") as o:
    o.write("//! Generated by tools/genops.py from spec/spec.json: the operator a token stands for, by form.\nuse wolfram_parser::tokenize::TokenKind as T;\n")
    for f in sorted(rows):
        o.write("pub fn %s(t: T) -> &'static str {\n    match t {\n" % f)
        for h in sorted(rows[f]): o.write("        %s => \"%s\",\n" % (" | ".join("T::" + t for t in sorted(rows[f][h])), h))
        o.write("        _ => \"\",\n    }\n}\n")
