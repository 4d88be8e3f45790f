use wolfram_parser::parse::operators::Operator;
use crate::sym::*;
use crate::util::*;
use wolfram_library_link::wstp::{Link, Tok};
use wolfram_parser::abstract_cst::aggregate_cst_seq;
use wolfram_parser::ast::*;
use wolfram_parser::cst::*;
use wolfram_parser::issue::*;
use wolfram_parser::source::*;
use wolfram_parser::tokenize::*;
use wolfram_parser::*;

macro_rules! entries {
    ($($n:ident),* $(,)?) => {
        mod entry { $(#[no_mangle] pub extern "C" fn $n() { super::$n() })* }
        pub fn run(name: &str) -> bool { match name { $(stringify!($n) => { $n(); true })* _ => false } }
    };
}
entries!(c32, c32t, c32r, c32b, c32a, c32l, c32s, c32e);

// ------------------------------------------------------------ what the kernel sends
fn f(h: &str, n: usize) -> Tok { Tok::Func(h.to_string(), n) }
fn s(x: &str) -> Tok { Tok::Str(x.to_string()) }
fn y(x: &str) -> Tok { Tok::Sym(x.to_string()) }
fn quirk_toks(o: u64, out: &mut Vec<Tok>) {
    out.push(f("Association", 3));
    for (k, v) in [("InfixBinaryAt", o >> 9 & 1 == 0), ("FlattenTimes", o >> 8 & 1 == 1), ("OldAtAtAt", o >> 10 & 1 == 1)] {
        out.push(f("Rule", 2)); out.push(s(k)); out.push(y(if v { "True" } else { "False" }));
    }
}
/// {session, ByteArray[bytes], [mode], convention, tab width, first line, [encoding], quirks}
fn args(bytes: &[u8], o: u64, leaf: Option<u64>) -> Link {
    let mut t = vec![f("List", if leaf.is_some() { 8 } else { 6 }), Tok::Int(0), f("ByteArray", 1), Tok::Bytes(bytes.to_vec())];
    if let Some(m) = leaf { t.push(Tok::Int(m as i64)); }
    t.push(Tok::Int((o >> 2 & 1) as i64)); t.push(Tok::Int(tab_width(o) as i64)); t.push(Tok::Int((o & 3) as i64));
    if leaf.is_some() { t.push(Tok::Int((o >> 3 & 1) as i64)); }
    quirk_toks(o, &mut t);
    Link { input: t.into(), out: Vec::new() }
}

// ------------------------------------------------------------ the documented form of trees
type Out = Vec<Tok>;
fn list(o: &mut Out, n: usize) { o.push(f("System`List", n)) }
fn rule(o: &mut Out, lhs: Tok) { o.push(f("System`Rule", 2)); o.push(lhs) }
fn num(o: &mut Out, v: u32) { o.push(Tok::Int(v as i64)) }
fn span_rhs(o: &mut Out, sp: Span) {
    let (a, b) = span(sp);
    list(o, 2);
    // closed interval of character indices, or pairs of line and column
    if a.0 == 0 { num(o, a.1); o.push(Tok::Int(b.1 as i64 - 1)); }
    else { for p in [a, b] { list(o, 2); num(o, p.0); num(o, p.1); } }
}
fn src_data(o: &mut Out, sp: Span) { o.push(f("System`Association", 1)); rule(o, y("CodeParser`Source")); span_rhs(o, sp) }
fn source_data(o: &mut Out, sp: &Source) { match sp { Source::Span(sp) => src_data(o, *sp), _ => o.push(f("System`Association", 0)) } }
fn text(b: &[u8]) -> Tok { Tok::Str(unsafe { String::from_utf8_unchecked(b.to_vec()) }) }
fn leaf(o: &mut Out, k: TokenKind, t: &[u8], sp: Span) {
    o.push(f(if is_error_kind(k) { "CodeParser`ErrorNode" } else { "CodeParser`LeafNode" }, 3)); o.push(y(k.to_symbol().as_str())); o.push(text(t)); src_data(o, sp)
}
fn is_error_kind(k: TokenKind) -> bool { format!("{k:?}").starts_with("Error_") }
fn first_last<I, S: Copy>(c: &Cst<I, S>) -> Option<(S, S)> { let mut v = Vec::new(); leaves(c, &mut v); Some((v.first()?.src, v.last()?.src)) }
fn seq(o: &mut Out, cs: &[Cst<TokenStr, Span>]) { list(o, cs.len()); for c in cs { cst(o, c) } }
/// span from the first to the last leaf
fn cover(v: &[&Token<TokenStr, Span>]) -> Option<Span> {
    let (a, b) = (v.first()?.src.start(), v.last()?.src.end());
    Some(match (a, b) { (Location::LineColumn(a), Location::LineColumn(b)) => Span::line_column(a, b), (Location::CharacterIndex(a), Location::CharacterIndex(b)) => Span::from_character_span(a, b), _ => return None })
}
fn node(o: &mut Out, head: &str, op: &str, c: &[Cst<TokenStr, Span>]) {
    o.push(f(head, 3)); o.push(y(op)); seq(o, c);
    let mut v = Vec::new(); for k in c { leaves(k, &mut v) }
    if let Some(s) = cover(&v) { src_data(o, s) }
}
fn cst(o: &mut Out, c: &Cst<TokenStr, Span>) {
    match c {
        Cst::Token(t) => leaf(o, t.tok, t.input.as_bytes(), t.src),
        Cst::Call(n) => {
            o.push(f("CodeParser`CallNode", 3));
            match &n.head { CallHead::Concrete(h) => seq(o, &h.0), CallHead::Aggregate(h) => cst(o, h) }
            let b = n.body.as_op();
            node(o, if matches!(n.body, CallBody::Group(_)) { "CodeParser`GroupNode" } else { "CodeParser`GroupMissingCloserNode" }, b.op.to_symbol().as_str(), &b.children.0);
            let mut v = Vec::new(); leaves(c, &mut v);
            if let Some(s) = cover(&v) { src_data(o, s) }
        },
        Cst::SyntaxError(n) => node(o, "CodeParser`SyntaxErrorNode", n.err.to_symbol().as_str(), &n.children.0),
        Cst::Prefix(n) => node(o, "CodeParser`PrefixNode", n.0.op.to_symbol().as_str(), &n.0.children.0),
        Cst::Infix(n) => node(o, "CodeParser`InfixNode", n.0.op.to_symbol().as_str(), &n.0.children.0),
        Cst::Postfix(n) => node(o, "CodeParser`PostfixNode", n.0.op.to_symbol().as_str(), &n.0.children.0),
        Cst::Binary(n) => node(o, "CodeParser`BinaryNode", n.0.op.to_symbol().as_str(), &n.0.children.0),
        Cst::Ternary(n) => node(o, "CodeParser`TernaryNode", n.0.op.to_symbol().as_str(), &n.0.children.0),
        Cst::PrefixBinary(n) => node(o, "CodeParser`PrefixBinaryNode", n.0.op.to_symbol().as_str(), &n.0.children.0),
        Cst::Compound(n) => node(o, "CodeParser`CompoundNode", n.0.op.to_symbol().as_str(), &n.0.children.0),
        Cst::Group(n) => node(o, "CodeParser`GroupNode", n.0.op.to_symbol().as_str(), &n.0.children.0),
        Cst::GroupMissingCloser(n) => node(o, "CodeParser`GroupMissingCloserNode", n.0.op.to_symbol().as_str(), &n.0.children.0),
        Cst::GroupMissingOpener(n) => node(o, "CodeParser`GroupMissingOpenerNode", n.0.op.to_symbol().as_str(), &n.0.children.0),
        Cst::Box(_) | Cst::Code(_) => (),
    }
}
fn issue(o: &mut Out, i: &Issue) {
    o.push(f(i.make_sym.as_str(), 4)); o.push(s(i.tag.as_str())); o.push(s(&i.msg)); o.push(s(i.sev.as_str()));
    o.push(f("System`Association", 2 + !i.actions.is_empty() as usize + !i.additional_descriptions.is_empty() as usize + !i.additional_sources.is_empty() as usize));
    source_data(o, &i.src);
    rule(o, y("System`ConfidenceLevel")); o.push(Tok::Real(i.val));
    if !i.actions.is_empty() {
        rule(o, y("CodeParser`CodeActions")); list(o, i.actions.len());
        for a in &i.actions {
            o.push(f("CodeParser`CodeAction", 3)); o.push(s(&a.label));
            let (k, t) = match &a.kind {
                CodeActionKind::ReplaceText { replacement_text } => ("ReplaceText", Some(("ReplacementText", replacement_text))),
                CodeActionKind::InsertText { insertion_text } => ("InsertText", Some(("InsertionText", insertion_text))),
                CodeActionKind::DeleteText => ("DeleteText", None),
            };
            o.push(y(&format!("CodeParser`{k}"))); o.push(f("System`Association", 1 + t.is_some() as usize)); src_data(o, a.src);
            if let Some((k, t)) = t { rule(o, s(k)); o.push(s(t)); }
        }
    }
    if !i.additional_descriptions.is_empty() { rule(o, s("AdditionalDescriptions")); list(o, i.additional_descriptions.len()); for d in &i.additional_descriptions { o.push(s(d)) } }
    if !i.additional_sources.is_empty() { rule(o, s("AdditionalSources")); list(o, i.additional_sources.len()); for d in &i.additional_sources { if let Source::Span(d) = d { span_rhs(o, *d) } } }
}
fn data(o: &mut Out, m: &AstMetadata) {
    let sp = match &m.source { Source::Span(s) => Some(*s), _ => None };
    o.push(f("System`Association", sp.is_some() as usize + !m.issues.is_empty() as usize));
    if let Some(sp) = sp { rule(o, y("CodeParser`Source")); span_rhs(o, sp) }
    if !m.issues.is_empty() { rule(o, y("CodeParser`AbstractSyntaxIssues")); list(o, m.issues.len()); for i in &m.issues { issue(o, i) } }
}
fn asts(o: &mut Out, a: &[Ast]) { list(o, a.len()); for x in a { ast(o, x) } }
fn ast(o: &mut Out, a: &Ast) {
    match a {
        Ast::Leaf { kind, input, .. } => { o.push(f("CodeParser`LeafNode", 3)); o.push(y(kind.to_symbol().as_str())); o.push(text(input.as_bytes())) },
        Ast::Error { kind, input, .. } => { o.push(f("CodeParser`ErrorNode", 3)); o.push(y(kind.to_symbol().as_str())); o.push(text(input.as_bytes())) },
        Ast::Call { head, args, .. } => { o.push(f("CodeParser`CallNode", 3)); ast(o, head); asts(o, args) },
        Ast::CallMissingCloser { head, args, .. } => { o.push(f("CodeParser`CallMissingCloserNode", 3)); ast(o, head); asts(o, args) },
        Ast::SyntaxError { kind, children, .. } => { o.push(f("CodeParser`SyntaxErrorNode", 3)); o.push(y(kind.to_symbol().as_str())); asts(o, children) },
        Ast::AbstractSyntaxError { kind, args, .. } => { o.push(f("CodeParser`AbstractSyntaxErrorNode", 3)); o.push(y(&format!("AbstractSyntaxError`{}", kind.as_str()))); asts(o, args) },
        Ast::Group { kind, children, .. } => { o.push(f("CodeParser`GroupNode", 3)); o.push(y(kind.to_symbol().as_str())); list(o, 3); ast(o, &children.0); ast(o, &children.1); ast(o, &children.2) },
        Ast::GroupMissingCloser { kind, children, .. } => { o.push(f("CodeParser`GroupMissingCloserNode", 3)); o.push(y(kind.to_symbol().as_str())); asts(o, children) },
        Ast::GroupMissingOpener { kind, children, .. } => { o.push(f("CodeParser`GroupMissingOpenerNode", 3)); o.push(y(kind.to_symbol().as_str())); asts(o, children) },
        Ast::PrefixNode_PrefixLinearSyntaxBang(b, _) => { o.push(f("CodeParser`PrefixNode", 3)); o.push(y("CodeParser`PrefixLinearSyntaxBang")); list(o, 2); ast(o, &b[0]); ast(o, &b[1]) },
        Ast::Box { .. } | Ast::Code { .. } | Ast::TagBox_GroupParen { .. } => (),
    }
    data(o, meta(a));
}
fn missing(o: &mut Out, u: UnsafeCharacterEncoding) { o.push(f("System`Missing", 1)); o.push(s(&format!("UnsafeCharacterEncoding_{u:?}"))) }
fn result<T>(o: &mut Out, r: &ParseResult<T>, put: &dyn Fn(&mut Out, &T)) {
    list(o, 6);
    match r.unsafe_character_encoding { None => put(o, &r.syntax), Some(u) => { list(o, 1); missing(o, u) } }
    let is = if r.fatal_issues.is_empty() { &r.non_fatal_issues } else { &r.fatal_issues };
    list(o, is.len()); for i in is { issue(o, i) }
    let t = &r.tracked;
    for set in [&t.simple_line_continuations, &t.complex_line_continuations, &t.embedded_newlines, &t.embedded_tabs] {
        list(o, set.len());
        for l in set { let p = pos(*l); list(o, 2); num(o, p.0); num(o, p.1); }
    }
}
/// one complete expression, nothing left over
fn complete(t: &[Tok]) -> bool {
    let mut open = 1usize;
    for x in t { if open == 0 { return false; } open -= 1; if let Tok::Func(_, n) = x { open += n } }
    open == 0
}
/// the kernel's Association[Association[a], b] is Association[a, b]
fn flat(t: &[Tok], at: &mut usize, out: &mut Out, inside: bool) -> usize {
    let x = t[*at].clone(); *at += 1;
    let Tok::Func(h, n) = x else { out.push(x); return 1 };
    let assoc = h == "System`Association";
    let p = out.len();
    if !(assoc && inside) { out.push(f(&h, n)); }
    let mut c = 0; for _ in 0..n { c += flat(t, at, out, assoc) }
    if assoc && inside { return c; }
    if assoc { out[p] = f(&h, c); }
    1
}
fn flattened(t: &[Tok]) -> Out { let mut o = Vec::new(); if complete(t) { flat(t, &mut 0, &mut o, false); } o }
fn same_toks(a: &[Tok], b: &[Tok], id: u64) {
    check(complete(a), id);
    if a.len() != b.len() { return check(false, id + 1); }
    for (x, z) in a.iter().zip(b) {
        match (x, z) {
            (Tok::Str(x), Tok::Str(z)) => check(same(x.as_bytes(), z.as_bytes()), id + 2),
            (Tok::Func(x, n), Tok::Func(z, m)) => check(n == m && same(x.as_bytes(), z.as_bytes()), id + 3),
            (Tok::Sym(x), Tok::Sym(z)) => check(same(x.as_bytes(), z.as_bytes()), id + 4),
            (Tok::Int(x), Tok::Int(z)) => check(x == z, id + 5),
            (Tok::Real(x), Tok::Real(z)) => check(x.to_bits() == z.to_bits(), id + 6),
            _ => check(false, id + 7),
        }
    }
}
fn c32() {
    let j = job(); let v = &j.inputs[0];
    let mut l = args(v, j.opts, None);
    codeparser_wll::ConcreteParseBytes_LibraryLink(&mut l);
    let r = parse_bytes_cst_seq(v, &options(j.opts));
    reach(if r.unsafe_character_encoding.is_some() { 2 } else { 1 });
    if !r.fatal_issues.is_empty() || !r.non_fatal_issues.is_empty() { reach(3) }
    let mut e = Vec::new();
    result(&mut e, &r, &|o, n: &NodeSeq<Cst<TokenStr, Span>>| seq(o, &n.0));
    same_toks(&l.out, &e, 3200);
}
fn c32t() {
    let j = job(); let v = &j.inputs[0];
    let mut l = args(v, j.opts, None);
    codeparser_wll::TokenizeBytes_LibraryLink(&mut l);
    let mut e = Vec::new();
    match tokenize_bytes(v, &options(j.opts)) {
        Ok(NodeSeq(ts)) => { reach(1); list(&mut e, ts.len()); for t in &ts { leaf(&mut e, t.tok, t.input.as_bytes(), t.src) } },
        Err(u) => { reach(2); list(&mut e, 1); missing(&mut e, u) },
    }
    same_toks(&l.out, &e, 3210);
}
/// a tree sent to the library and back is the same tree
fn c32r() {
    let j = job(); let v = &j.inputs[0];
    let r = parse_bytes_cst_seq(v, &options(j.opts));
    if r.unsafe_character_encoding.is_some() { return; }
    reach(1);
    let kinds = ["String", "File", "Byte", "Hold"];
    let mut e = vec![f("CodeParser`ContainerNode", 3), y(&format!("System`{}", kinds[(j.opts >> 16) as usize % 4]))];
    seq(&mut e, &r.syntax.0);
    // metadata: none, what the parser reported, or everything a container may carry
    let m = if param(j.extra) > 0 { param(j.extra + 1) } else { 0 };
    if m == 0 { e.push(f("System`Association", 0)); }
    else {
        let (t, is) = (&r.tracked, if r.fatal_issues.is_empty() { &r.non_fatal_issues } else { &r.fatal_issues });
        e.push(f("System`Association", if m == 1 { 5 } else { 8 }));
        rule(&mut e, y("CodeParser`SyntaxIssues")); list(&mut e, is.len()); for i in is { issue(&mut e, i) }
        for (k, set) in [("EmbeddedTabs", &t.embedded_tabs), ("EmbeddedNewlines", &t.embedded_newlines), ("SimpleLineContinuations", &t.simple_line_continuations), ("ComplexLineContinuations", &t.complex_line_continuations)] {
            rule(&mut e, s(k)); list(&mut e, set.len());
            for l in set { let p = pos(*l); list(&mut e, 2); num(&mut e, p.0); num(&mut e, p.1); }
        }
        if m == 2 {
            rule(&mut e, y("System`ConfidenceLevel")); e.push(Tok::Real(0.75));
            rule(&mut e, s("AdditionalDescriptions")); list(&mut e, 1); e.push(s("d"));
            rule(&mut e, s("FileName")); e.push(s("f.wl"));
        }
    }
    let e = flattened(&e);
    let mut t = vec![f("List", 1)]; t.extend(e.iter().cloned());
    let mut l = Link { input: t.into(), out: Vec::new() };
    codeparser_wll::RoundTripTest_LibraryLink(&mut l);
    same_toks(&flattened(&l.out), &e, 3220);
}
/// a box node sent to the library and back is the same node, with the same position
fn c32b() {
    let j = job();
    let src = |o: &mut Out, n: usize| {
        o.push(f("System`Association", 1)); rule(o, y("CodeParser`Source"));
        match param(j.extra + 1) { 1 => o.push(f("System`Before", 1)), 2 => o.push(f("System`After", 1)), _ => () }
        list(o, n); for i in 0..n { o.push(Tok::Int(i as i64 + 1)) }
    };
    let Ok(NodeSeq(ts)) = tokenize_bytes(&j.inputs[1], &options(j.opts)) else { return };
    reach(1);
    let mut e = vec![f("CodeParser`ContainerNode", 3), y("System`Box")];
    list(&mut e, 2);
    e.push(f("CodeParser`BoxNode", 3)); let mut name = b"System`".to_vec(); name.extend_from_slice(&j.inputs[0]); let Tok::Str(name) = text(&name) else { return }; e.push(Tok::Sym(name));
    list(&mut e, ts.len());
    for (i, t) in ts.iter().enumerate() { e.push(f(if is_error_kind(t.tok) { "CodeParser`ErrorNode" } else { "CodeParser`LeafNode" }, 3)); e.push(y(t.tok.to_symbol().as_str())); e.push(text(t.input.as_bytes())); src(&mut e, i + 1) }
    src(&mut e, 2);
    e.push(f("CodeParser`CodeNode", 3)); e.push(y("System`Evaluated")); e.push(f("System`Plus", 2)); e.push(Tok::Int(1)); e.push(Tok::Int(-2)); src(&mut e, 1);
    e.push(f("System`Association", 0));
    let mut t = vec![f("List", 1)]; t.extend(e.iter().cloned());
    let mut l = Link { input: t.into(), out: Vec::new() };
    codeparser_wll::RoundTripTest_LibraryLink(&mut l);
    same_toks(&l.out, &e, 3260);
}
/// the empty token kinds are those with no text
fn c32e() {
    let j = job(); let v = &j.inputs[0];
    let r = parse_bytes_cst_seq(v, &options(j.opts));
    if r.unsafe_character_encoding.is_some() { return; }
    let mut ts = Vec::new(); for c in &r.syntax.0 { leaves(c, &mut ts) }
    for t in ts {
        reach(1);
        let mut l = Link { input: vec![f("List", 1), y(t.tok.to_symbol().as_str())].into(), out: Vec::new() };
        codeparser_wll::TokenIsEmpty_LibraryLink(&mut l);
        same_toks(&l.out, &[y(if t.input.as_bytes().is_empty() { "System`True" } else { "System`False" })], 3270);
    }
}
/// abstracting a tree sent as an expression gives the abstract tree
fn c32a() {
    let j = job(); let v = &j.inputs[0];
    let r = parse_bytes_cst_seq(v, &options(j.opts));
    if r.unsafe_character_encoding.is_some() { return; }
    let q = parse_bytes_ast_seq(v, &options(j.opts)).syntax.0;
    let NodeSeq(agg) = aggregate_cst_seq(r.syntax);
    check(q.len() == agg.len(), 3230);
    for (c, a) in agg.iter().zip(&q) {
        reach(1);
        let mut t = vec![f("List", 3)];
        cst(&mut t, c);
        quirk_toks(j.opts, &mut t);
        t.push(y("System`String"));
        let mut l = Link { input: t.into(), out: Vec::new() };
        codeparser_wll::Abstract_LibraryLink(&mut l);
        let mut e = Vec::new();
        ast(&mut e, a);
        same_toks(&l.out, &e, 3231);
    }
}
fn c32l() {
    let j = job(); let v = &j.inputs[0];
    let m = if param(j.extra) > 0 { param(j.extra + 1) } else { 0 };
    let mut l = args(v, j.opts, Some(m));
    codeparser_wll::ConcreteParseLeaf_LibraryLink(&mut l);
    let r = parse_to_token(v, &options(j.opts), match m { 0 => StringifyMode::Normal, 1 => StringifyMode::Tag, _ => StringifyMode::File });
    reach(1);
    let mut e = Vec::new();
    result(&mut e, &r, &|o, n: &NodeSeq<Token<TokenStr, Span>>| { list(o, n.0.len()); for t in &n.0 { leaf(o, t.tok, t.input.as_bytes(), t.src) } });
    same_toks(&l.out, &e, 3240);
}
fn c32s() {
    let j = job(); let v = &j.inputs[0];
    let mut l = Link { input: vec![f("List", 2), Tok::Int(0), f("ByteArray", 1), Tok::Bytes(v.to_vec())].into(), out: Vec::new() };
    codeparser_wll::SafeString_LibraryLink(&mut l);
    let mut e = Vec::new();
    match safe_string(v, &ParseOptions::default()) { Ok(x) => { reach(1); e.push(s(x)) }, Err(u) => { reach(2); missing(&mut e, u) } }
    same_toks(&l.out, &e, 3250);
}
