use crate::sym::*;
use crate::util::*;
use wolfram_parser::tokenize::{Token, TokenKind, TokenStr, TokenInput};
use wolfram_parser::cst::*;
use wolfram_parser::*;

macro_rules! entries {
    ($($n:ident),* $(,)?) => {
        mod entry { $(#[no_mangle] pub extern "C" fn $n() { super::$n() })* }
        pub fn run(name: &str) -> bool { match name { $(stringify!($n) => { $n(); true })* _ => false } }
    };
}
entries!(c01, c02, c03, c04, c04c, c05, c05b, c06, c06c, c06t, c08, eq_ast, eq_ast_any, eq_cst, eq_kinds, has_err, no_err, flat, c29, c11, c26, lex, c13, c13h, c13s, c13m,
    c24, c27, c28, c30, c31, c34, c36, c35, c35a, c35e, c35c, c35m,
    c10, c12, c16, c18, c19, c20, c21, c22, c23);

/// A token whose construct runs to the end of the input (unquoted file names end at a blank instead).
fn unterminated(k: TokenKind) -> bool { matches!(k, TokenKind::Error_UnterminatedComment | TokenKind::Error_UnterminatedString | TokenKind::Error_UnterminatedLinearSyntaxBlob) }

/// Byte offset of a token's text in the input it borrows from.
fn offset(input: &[u8], t: &Token<TokenStr>) -> usize { (t.input.as_bytes().as_ptr() as usize).wrapping_sub(input.as_ptr() as usize) }

/// A (possibly empty) run of line continuations with the blanks after them: the end-of-file marker's text.
fn only_continuations(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'\\' || i + 1 >= b.len() { return false; }
        i += 1;
        if b[i] == b'\r' { i += 1; if i < b.len() && b[i] == b'\n' { i += 1 } }
        else if b[i] == b'\n' { i += 1 }
        else { return false; }
        while i < b.len() && matches!(b[i], b' ' | b'\t' | 0x0b | 0x0c) { i += 1 }
    }
    true
}

// ------------------------------------------------------------ C01
fn c01() {
    let j = job();
    let v = &j.inputs[0];
    let Ok(NodeSeq(toks)) = tokenize_bytes(v, &options(j.opts)) else { reach(2); return };
    reach(1);
    let mut cat: Vec<u8> = Vec::with_capacity(v.len());
    let n = toks.len();
    for (i, t) in toks.iter().enumerate() {
        cat.extend_from_slice(t.input.as_bytes());
        check(!t.input.as_bytes().is_empty(), 101);
        check(!unterminated(t.tok) || i + 1 == n, 102);
    }
    if n > 0 && unterminated(toks[n - 1].tok) {
        reach(3);
        check(cat.len() <= v.len() && same(&cat, &v[..cat.len()]), 103);
        if cat.len() < v.len() { reach(4); let c = v[cat.len()]; check(c == b'\n' || c == b'\r', 104); }
    } else {
        check(cat.len() <= v.len() && same(&cat, &v[..cat.len()]), 105);
        check(cat.len() > v.len() || only_continuations(&v[cat.len()..]), 106);
    }
}

// ------------------------------------------------------------ C03
fn c03() {
    let j = job();
    let v = &j.inputs[0];
    let Ok(NodeSeq(toks)) = tokenize_bytes(v, &options(j.opts)) else { return };
    reach(1);
    let ci = char_index(j.opts);
    let mut w = Walker::new(tab_width(j.opts));
    for t in &toks {
        let (s, e) = span(t.src);
        check(s == w.at(ci), 301);
        w.feed(t.input.as_bytes());
        check(e == w.at(ci), 302);
    }
}

// ------------------------------------------------------------ C02
fn c02() {
    let j = job();
    let v = &j.inputs[0];
    let r = parse_bytes_cst_seq(v, &options(j.opts));
    if r.unsafe_character_encoding.is_some() { reach(2); return; }
    reach(1);
    let l = seq_leaves(&r.syntax);
    let mut at = 0usize;
    let cut = r.syntax.0.iter().any(|c| any_node(c, &mut |c| call_missing_closer(c) || matches!(c, Cst::GroupMissingCloser(_)) || matches!(c, Cst::Token(t) if unterminated(t.tok))));
    for t in &l {
        let b = t.input.as_bytes();
        let o = offset(v, t);
        check(o <= v.len() && o + b.len() <= v.len(), 201);
        check(o == at, 202);
        at = o + b.len();
    }
    if !cut { reach(3); check(only_continuations(&v[at..]), 203); }
}

// ------------------------------------------------------------ C04
fn c04() {
    let j = job();
    let v = &j.inputs[0];
    let o = options(j.opts);
    let r = parse_bytes_ast_seq(v, &o);
    if r.unsafe_character_encoding.is_some() { return; }
    reach(1);
    for a in &r.syntax.0 { c04_nest(a, None); }
}
/// CST: a node spans exactly from the start of its first leaf to the end of its last
fn c04c() {
    let j = job();
    let o = options(j.opts);
    let r = parse_bytes_cst_seq(&j.inputs[0], &o);
    if r.unsafe_character_encoding.is_some() { return; }
    reach(1);
    let mut last = None;
    for c in &r.syntax.0 {
        any_node(c, &mut |n| {
            let mut l = Vec::new();
            leaves(n, &mut l);
            if l.is_empty() { check(false, 410); return false; }
            let (s, e) = span(n.get_source());
            check(s == span(l[0].src).0, 411);
            check(e == span(l[l.len() - 1].src).1, 412);
            check(s <= e, 413);
            false
        });
        let (s, e) = span(c.get_source());
        if let Some(p) = last { check(p <= s, 414); }
        last = Some(e);
    }
}
fn c04_nest(a: &ast::Ast, outer: Option<(Pos, Pos)>) {
    let m = meta(a);
    let here = match &m.source { source::Source::Span(s) => Some(span(*s)), _ => None };
    if let Some((s, e)) = here {
        check(s <= e, 401);
        if let Some((os, oe)) = outer { check(os <= s && e <= oe, 402); }
    }
    let next = here.or(outer);
    ast_kids(a, &mut |k| c04_nest(k, next));
}

// ------------------------------------------------------------ C05
fn c05() {
    let j = job();
    let v = &j.inputs[0];
    let r = parse_bytes_ast_seq(v, &options(j.opts));
    log(r.syntax.0.len() as u64);
    reach(1);
}
fn c05b() {
    let j = job();
    let v = &j.inputs[0];
    let o = options(j.opts);
    let n = match tokenize_bytes(v, &o) { Ok(NodeSeq(t)) => t.len() as u64, Err(_) => 1000 };
    log(n);
    reach(1);
}


// ------------------------------------------------------------ C06
/// Strict UTF-8 (Unicode Table 3-7) scan: for each unit (offset, length, kind), kind 0 = good character,
/// 1 = ill-formed byte(s), 2 = surrogate, 3 = byte order mark.
fn utf8_scan(b: &[u8]) -> (bool, [bool; 4]) { let (g, s, _) = utf8_first(b); (g, s) }
/// also: offset and kind of the first malformed sequence
fn utf8_first(b: &[u8]) -> (bool, [bool; 4], (usize, usize)) {
    let mut seen = [false; 4];
    let mut first = (b.len(), 0);
    let mut i = 0;
    let at = |i: usize| if i < b.len() { b[i] } else { 0 };
    let cont = |c: u8| c & 0xC0 == 0x80;
    while i < b.len() {
        let c = b[i];
        let (n, kind) = if c < 0x80 { (1, 0) }
        else if c >= 0xC2 && c <= 0xDF { if cont(at(i + 1)) { (2, 0) } else { (1, 1) } }
        else if c == 0xED && at(i + 1) >= 0xA0 && cont(at(i + 1)) && cont(at(i + 2)) { (3, 2) }
        else if c == 0xEF && at(i + 1) == 0xBB && at(i + 2) == 0xBF { (3, 3) }
        else if c >= 0xE0 && c <= 0xEF {
            if cont(at(i + 1)) && cont(at(i + 2)) && !(c == 0xE0 && at(i + 1) < 0xA0) { (3, 0) } else { (1, 1) }
        } else if c >= 0xF0 && c <= 0xF4 {
            if cont(at(i + 1)) && cont(at(i + 2)) && cont(at(i + 3)) && !(c == 0xF0 && at(i + 1) < 0x90) && !(c == 0xF4 && at(i + 1) >= 0x90) { (4, 0) } else { (1, 1) }
        } else { (1, 1) };
        seen[kind] = true;
        if kind > 0 && first.1 == 0 { first = (i, kind); }
        i += n;
    }
    (!seen[1] && !seen[2] && !seen[3], seen, first)
}
fn flag_no(f: Option<UnsafeCharacterEncoding>) -> usize {
    match f { None => 0, Some(UnsafeCharacterEncoding::IncompleteUTF8Sequence) => 1, Some(UnsafeCharacterEncoding::StraySurrogate) => 2, Some(UnsafeCharacterEncoding::BOM) => 3 }
}
fn c06() {
    let j = job();
    let v = &j.inputs[0];
    let o = options(j.opts);
    let (good, seen) = utf8_scan(v);
    if good { reach(1) } else { reach(2) }
    let s = safe_string(v, &o);
    check(s.is_ok() == good, 601);
    let f = match s { Ok(t) => { check(same(t.as_bytes(), v), 602); 0 }, Err(e) => flag_no(Some(e)) };
    check(f == 0 || seen[f], 603);
}
fn c06t() {
    let j = job();
    let v = &j.inputs[0];
    let o = options(j.opts);
    let (good, seen) = utf8_scan(v);
    if good { reach(1) } else { reach(2) }
    let t = tokenize_bytes(v, &o);
    check(t.is_ok() == good, 604);
    if let Err(e) = t { let f = flag_no(Some(e)); check(seen[f], 605); }
    let c = parse_bytes_cst_seq(v, &o);
    let f = flag_no(c.unsafe_character_encoding);
    check((f == 0) == good, 606);
    check(f == 0 || seen[f], 607);
    if good { return; }
    // the first malformed sequence is reported where it stands
    let (_, _, (at, kind)) = utf8_first(v);
    let mut w = Walker::new(tab_width(j.opts));
    w.feed(&v[..at]);
    let p = w.at(char_index(j.opts));
    let tag = [issue::IssueTag::UnhandledCharacter, issue::IssueTag::IncompleteUTF8Sequence, issue::IssueTag::StraySurrogate, issue::IssueTag::BOM];
    let mut found = false;
    for i in &c.fatal_issues {
        let source::Source::Span(s) = i.src else { check(false, 608); continue };
        let (a, b) = span(s);
        if i.tag == tag[kind] && a == p { found = true; check(b == (a.0, a.1 + 1) && i.sev == issue::Severity::Fatal, 609); reach(3); }
        if tag[1..].contains(&i.tag) { check(a >= p, 617); }
    }
    check(found, 618);
}
/// source characters = Unicode characters, with CR LF joined
fn c06c() {
    let j = job();
    let v = &j.inputs[0];
    let o = options(j.opts);
    if !utf8_scan(v).0 { return; }
    let Ok(text) = std::str::from_utf8(v) else { check(false, 610); return };
    reach(1);
    let mut it = iter::source_chars(text, &o);
    let mut i = 0;
    while i < v.len() {
        let got = it.next();
        let Some(got) = got else { check(false, 611); return };
        if v[i] == b'\r' && i + 1 < v.len() && v[i + 1] == b'\n' {
            check(got == source::SourceCharacter::CRLF, 612);
            i += 2;
            continue;
        }
        let c = v[i] as u32;
        let (n, cp) = if c < 0x80 { (1, c) }
            else if c < 0xE0 { (2, (c & 0x1f) << 6 | v[i + 1] as u32 & 0x3f) }
            else if c < 0xF0 { (3, (c & 0xf) << 12 | (v[i + 1] as u32 & 0x3f) << 6 | v[i + 2] as u32 & 0x3f) }
            else { (4, (c & 7) << 18 | (v[i + 1] as u32 & 0x3f) << 12 | (v[i + 2] as u32 & 0x3f) << 6 | v[i + 3] as u32 & 0x3f) };
        let Some(ch) = char::from_u32(cp) else { check(false, 613); return };
        check(got == source::SourceCharacter::Char(ch), 614);
        i += n;
    }
    check(it.next().is_none(), 615);
}

// ------------------------------------------------------------ C08
fn reinterprets(k: TokenKind) -> bool {
    matches!(k, TokenKind::ColonColon | TokenKind::ColonColonOpenSquare | TokenKind::Hash | TokenKind::HashHash | TokenKind::Percent | TokenKind::PercentPercent | TokenKind::LessLess | TokenKind::GreaterGreater | TokenKind::GreaterGreaterGreater)
}
fn newline(k: TokenKind) -> bool { k == TokenKind::ToplevelNewline || k == TokenKind::InternalNewline }
fn c08() {
    let j = job();
    let v = &j.inputs[0];
    let o = options(j.opts);
    let Ok(NodeSeq(toks)) = tokenize_bytes(v, &o) else { return };
    if toks.iter().any(|t| reinterprets(t.tok)) { reach(2); return; }
    let r = parse_bytes_cst_seq(v, &o);
    let l = seq_leaves(&r.syntax);
    let cut = r.syntax.0.iter().any(|c| any_node(c, &mut |c| call_missing_closer(c) || matches!(c, Cst::GroupMissingCloser(_)) || matches!(c, Cst::Token(t) if unterminated(t.tok))));
    reach(1);
    let mut i = 0;
    for t in l {
        let b = t.input.as_bytes();
        if b.is_empty() { check(t.tok.isEmpty() || is_error(t.tok), 801); continue; }
        if i >= toks.len() { check(false, 802); return; }
        let u = &toks[i];
        i += 1;
        if cut && unterminated(u.tok) { continue; }
        check(offset(v, t) == offset(v, u) && b.len() == u.input.as_bytes().len(), 803);
        check(t.src == u.src, 804);
        check(t.tok == u.tok || newline(t.tok) && newline(u.tok) || context_kind(u.tok, t.tok), 805);
    }
    check(cut || i == toks.len(), 806);
}
/// kinds the parser may legitimately refine with grammatical context
fn context_kind(lexed: TokenKind, parsed: TokenKind) -> bool { lexed.isCloser() && parsed == TokenKind::Error_UnexpectedCloser || parsed == TokenKind::Error_UnsupportedToken }

// ------------------------------------------------------------ generic comparisons
fn has_err_cst(c: &Cst<TokenStr>) -> bool {
    any_node(c, &mut |c| call_missing_closer(c) || match c {
        Cst::GroupMissingCloser(_) | Cst::GroupMissingOpener(_) | Cst::SyntaxError(_) => true,
        Cst::Token(t) => is_error(t.tok),
        _ => false,
    })
}
/// AST of input 0 and AST of input 1 have the same shape (kinds, heads, texts), and input 1 has no error node.
fn eq_ast() {
    let j = job();
    let o = options(j.opts);
    let a = parse_bytes_ast_seq(&j.inputs[0], &o).syntax;
    let b = parse_bytes_ast_seq(&j.inputs[1], &o).syntax;
    reach(1);
    check(!b.0.iter().any(ast_has_error), 1);
    check(same(&ast_bytes(&a.0, SHAPE), &ast_bytes(&b.0, SHAPE)), 2);
}
/// as eq_ast, but input 1 may contain errors (both then have the same ones)
fn eq_ast_any() {
    let j = job();
    let o = options(j.opts);
    let a = parse_bytes_ast_seq(&j.inputs[0], &o).syntax;
    let b = parse_bytes_ast_seq(&j.inputs[1], &o).syntax;
    reach(1);
    check(same(&ast_bytes(&a.0, SHAPE), &ast_bytes(&b.0, SHAPE)), 2);
}
/// CSTs of both inputs are the same after dropping trivia and redundant parentheses.
fn eq_cst() {
    let j = job();
    let o = options(j.opts);
    let a = parse_bytes_cst_seq(&j.inputs[0], &o).syntax;
    let b = parse_bytes_cst_seq(&j.inputs[1], &o).syntax;
    reach(1);
    check(!b.0.iter().any(has_err_cst), 11);
    check(same(&skel(&a.0), &skel(&b.0)), 12);
}
/// The input is one infix expression whose operands and operators are all leaves.
fn flat() {
    let j = job();
    let a = parse_bytes_cst_seq(&j.inputs[0], &options(j.opts)).syntax;
    reach(1);
    let top: Vec<_> = a.0.iter().filter(|c| !matches!(c, Cst::Token(t) if is_trivia(t.tok))).collect();
    check(top.len() == 1, 13);
    let Some(Cst::Infix(n)) = top.first() else { check(false, 14); return };
    let mut k = 0;
    for c in &n.0.children.0 { match c { Cst::Token(t) => { if !is_trivia(t.tok) { k += 1 } check(!is_error(t.tok), 15) }, _ => check(false, 16) } }
    check(k == 5, 17);
}
fn tok_kinds(v: &[u8], o: &ParseOptions) -> Option<Vec<u8>> {
    let Ok(NodeSeq(t)) = tokenize_bytes(v, o) else { return None };
    let mut out = Vec::with_capacity(2 * t.len());
    for t in t { let k = kind_id(t.tok); out.push(k as u8); out.push((k >> 8) as u8); }
    Some(out)
}
/// Both inputs tokenize to the same sequence of kinds.
fn eq_kinds() {
    let j = job();
    let o = options(j.opts);
    let a = tok_kinds(&j.inputs[0], &o);
    let b = tok_kinds(&j.inputs[1], &o);
    let (Some(a), Some(b)) = (a, b) else { check(false, 21); return };
    reach(1);
    check(same(&a, &b), 22);
}
fn has_err() {
    let j = job();
    let o = options(j.opts);
    let c = parse_bytes_cst_seq(&j.inputs[0], &o);
    check(c.syntax.0.iter().any(has_err_cst), 31);
    let a = parse_bytes_ast_seq(&j.inputs[0], &o);
    check(a.syntax.0.iter().any(ast_has_error), 32);
    reach(1);
}
fn no_err() {
    let j = job();
    let o = options(j.opts);
    let c = parse_bytes_cst_seq(&j.inputs[0], &o);
    check(!c.syntax.0.iter().any(has_err_cst), 33);
    let a = parse_bytes_ast_seq(&j.inputs[0], &o);
    check(!a.syntax.0.iter().any(ast_has_error), 34);
    check(c.fatal_issues.is_empty(), 35);
    reach(1);
}

// ------------------------------------------------------------ C10
fn closer_of(k: TokenKind) -> Option<TokenKind> {
    use TokenKind::*;
    Some(match k {
        OpenParen => CloseParen, OpenSquare | ColonColonOpenSquare => CloseSquare, OpenCurly => CloseCurly, LessBar => BarGreater,
        LongName_LeftAngleBracket => LongName_RightAngleBracket, LongName_LeftAssociation => LongName_RightAssociation,
        LongName_LeftBracketingBar => LongName_RightBracketingBar, LongName_LeftCeiling => LongName_RightCeiling,
        LongName_LeftDoubleBracket => LongName_RightDoubleBracket, LongName_LeftDoubleBracketingBar => LongName_RightDoubleBracketingBar,
        LongName_LeftFloor => LongName_RightFloor, LongName_OpenCurlyQuote => LongName_CloseCurlyQuote, LongName_OpenCurlyDoubleQuote => LongName_CloseCurlyDoubleQuote,
        _ => return None,
    })
}
fn is_closer(k: TokenKind) -> bool {
    use TokenKind::*;
    matches!(k, CloseParen | CloseSquare | CloseCurly | BarGreater | LongName_RightAngleBracket | LongName_RightAssociation | LongName_RightBracketingBar | LongName_RightCeiling
        | LongName_RightDoubleBracket | LongName_RightDoubleBracketingBar | LongName_RightFloor | LongName_CloseCurlyQuote | LongName_CloseCurlyDoubleQuote)
}
fn c10() {
    let j = job();
    let v = &j.inputs[0];
    let o = options(j.opts);
    let Ok(NodeSeq(toks)) = tokenize_bytes(v, &o) else { return };
    if toks.iter().any(|t| reinterprets(t.tok) && !matches!(t.tok, TokenKind::ColonColonOpenSquare | TokenKind::Percent | TokenKind::PercentPercent)) { return; }
    let mut stack: Vec<(TokenKind, usize)> = Vec::new();
    let mut pairs: Vec<(usize, usize)> = Vec::new();
    let mut end = v.len();
    let (mut missing, mut stray): (Vec<usize>, Vec<usize>) = (Vec::new(), Vec::new());
    for t in &toks {
        let at = offset(v, t);
        if let Some(c) = closer_of(t.tok) { stack.push((c, at)); }
        else if is_closer(t.tok) {
            // a closer closes the innermost opener of its kind; openers inside that one stay without closer; a closer without opener is stray
            if let Some(n) = stack.iter().rposition(|s| s.0 == t.tok) {
                while stack.len() > n + 1 { missing.push(stack.pop().unwrap().1); }
                pairs.push((stack.pop().unwrap().1, at));
            } else { stray.push(at); }
        } else if unterminated(t.tok) { return; }
    }
    let r = parse_bytes_cst_seq(v, &o).syntax;
    if !missing.is_empty() || !stray.is_empty() || !stack.is_empty() {
        reach(2);
        check(r.0.iter().any(has_err_cst), 1001);
        if let Some(&(_, cut)) = stack.first() {
            // the outermost group that is never closed takes the rest, in whatever form
            pairs.retain(|p| p.0 < cut); missing.retain(|p| *p < cut); stray.retain(|p| *p < cut);
            missing.push(cut);
            end = cut;
            reach(4);
        }
        reach(3);
    } else { reach(1); }
    let (mut n, mut m, mut k) = (0, 0, 0);
    for c in &r.0 {
        any_node(c, &mut |c| {
            let mut l = Vec::new(); leaves(c, &mut l);
            if l.first().map_or(true, |t| offset(v, t) > end) { return false; }
            let seq = match c {
                Cst::Group(g) => &g.0.children.0[..],
                Cst::Call(c) if matches!(c.body, CallBody::Group(_)) => body_seq(c),
                Cst::Call(c) => { m += 1; check(matches!(body_seq(c).first(), Some(Cst::Token(t)) if missing.contains(&offset(v, t))), 1002); return false },
                Cst::GroupMissingCloser(g) => { m += 1; check(matches!(g.0.children.0.first(), Some(Cst::Token(t)) if missing.contains(&offset(v, t))), 1003); return false },
                Cst::GroupMissingOpener(_) => { check(false, 1008); return false },
                Cst::Token(t) => { if t.tok == TokenKind::Error_UnexpectedCloser { k += 1; check(stray.contains(&offset(v, t)), 1004); } return false },
                _ => return false,
            };
            n += 1;
            let (Some(Cst::Token(a)), Some(Cst::Token(b))) = (seq.first(), seq.last()) else { check(false, 1005); return false };
            let pr = (offset(v, a), offset(v, b));
            check(pairs.contains(&pr), 1006);
            false
        });
    }
    check(n == pairs.len(), 1007);
    check(m == missing.len(), 1009);
    check(k == stray.len(), 1010);
}

// ------------------------------------------------------------ C12 / everything observable of a parse
fn locs(s: &std::collections::HashSet<source::Location>) -> Vec<Pos> { let mut v: Vec<Pos> = s.iter().map(|l| pos(*l)).collect(); v.sort(); v }
fn observe(v: &[u8], opts: u64) -> Vec<u8> {
    let o = options(opts);
    let mut out = Vec::new();
    match tokenize_bytes(v, &o) {
        Ok(NodeSeq(t)) => for t in t { let k = kind_id(t.tok); out.push(k as u8); out.push((k >> 8) as u8); let (a, b) = span(t.src); wpos(&mut out, a); wpos(&mut out, b); out.extend_from_slice(t.input.as_bytes()) },
        Err(e) => out.push(flag_no(Some(e)) as u8),
    }
    let c = parse_bytes_cst_seq(v, &o);
    out.extend(ser_csts(&c.syntax.0, FULL));
    for i in c.fatal_issues.iter().chain(&c.non_fatal_issues) { ser_issue(&mut out, i) }
    for l in [&c.tracked.simple_line_continuations, &c.tracked.complex_line_continuations, &c.tracked.embedded_newlines, &c.tracked.embedded_tabs] { out.push(l.len() as u8); for p in locs(l) { wpos(&mut out, p) } }
    out.push(flag_no(c.unsafe_character_encoding) as u8);
    let a = parse_bytes_ast_seq(v, &o);
    ser_asts(&mut out, &a.syntax.0, FULL);
    out
}
/// parse input 1, then input 0 with other options, then input 1 again: same observable result
fn c12() {
    let j = job();
    let first = observe(&j.inputs[1], j.opts);
    let other = if param(j.extra) > 0 { param(j.extra + 1) } else { 0x704 };
    let _ = observe(&j.inputs[0], other);
    let again = observe(&j.inputs[1], j.opts);
    reach(1);
    check(same(&first, &again), 1201);
}

// ------------------------------------------------------------ C16
fn c16_issue(i: &issue::Issue, end: Pos) {
    if let source::Source::Span(s) = &i.src { let (s, e) = span(*s); check(s <= e, 1601); check((if s.0 == 0 { (0, 1) } else { (1, 1) }) <= s && e <= end, 1602); } else { check(false, 1603) }
    check(i.val >= 0.0 && i.val <= 1.0, 1604);
    check(!i.msg.is_empty(), 1605);
    check(issue::IssueTag::from_str(i.tag.as_str()) == Some(i.tag), 1606);
    for a in &i.actions {
        let (s, e) = span(a.src);
        check(s <= e && e <= end, 1607);
        check(!a.label.is_empty(), 1608);
        if let issue::CodeActionKind::InsertText { insertion_text } = &a.kind { check(s == e && !insertion_text.is_empty(), 1609); }
    }
    for s in &i.additional_sources { if let source::Source::Span(s) = s { let (s, e) = span(*s); check(s <= e && e <= end, 1610); } }
}
fn c16() {
    let j = job();
    let v = &j.inputs[0];
    let o = options(j.opts);
    let r = parse_bytes_ast_seq(v, &o);
    if r.unsafe_character_encoding.is_some() { return; }
    let mut w = Walker::new(tab_width(j.opts));
    w.feed(v);
    let end = w.at(char_index(j.opts));
    for i in &r.fatal_issues { reach(2); check(i.sev == issue::Severity::Fatal, 1611); c16_issue(i, end); }
    for i in &r.non_fatal_issues { reach(1); check(i.sev != issue::Severity::Fatal, 1612); c16_issue(i, end); }
    for (n, i) in r.non_fatal_issues.iter().enumerate() { check(!r.non_fatal_issues[..n].contains(i), 1613); }
    for a in &r.syntax.0 { c16_ast(a, end); }
    // the concrete parse reports the same issues
    let c = parse_bytes_cst_seq(v, &o);
    check(c.fatal_issues == r.fatal_issues && c.non_fatal_issues == r.non_fatal_issues, 1614);
}
fn c16_ast(a: &ast::Ast, end: Pos) {
    for i in &meta(a).issues { reach(3); c16_issue(i, end); }
    ast_kids(a, &mut |k| c16_ast(k, end));
}

// ------------------------------------------------------------ C18
fn c18() {
    let j = job();
    let v = &j.inputs[0];
    let o = options(j.opts);
    let b = parse_bytes_cst_seq(v, &o);
    let ba = parse_bytes_ast_seq(v, &o);
    let first = parse_to_token(v, &o, StringifyMode::Normal);
    let tb = tokenize_bytes(v, &o);
    let bser = ser_csts(&b.syntax.0, FULL);
    let baser = ast_bytes(&ba.syntax.0, FULL);
    check(tb.is_ok() == b.unsafe_character_encoding.is_none(), 1801);
    check(ba.unsafe_character_encoding == b.unsafe_character_encoding, 1802);
    check(locs(&ba.tracked.embedded_newlines) == locs(&b.tracked.embedded_newlines) && locs(&ba.tracked.embedded_tabs) == locs(&b.tracked.embedded_tabs)
        && locs(&ba.tracked.simple_line_continuations) == locs(&b.tracked.simple_line_continuations) && locs(&ba.tracked.complex_line_continuations) == locs(&b.tracked.complex_line_continuations), 1803);
    check(b.syntax.0.is_empty() || b.syntax.0.len() >= 1, 1804);
    if b.syntax.0.len() == 1 {
        reach(2);
        let c1 = parse_bytes_cst(v, &o);
        check(same(&ser_csts(std::slice::from_ref(&c1.syntax), FULL), &bser), 1805);
    }
    if ba.syntax.0.len() == 1 {
        let a1 = parse_bytes_ast(v, &o);
        check(same(&ast_bytes(std::slice::from_ref(&a1.syntax), FULL), &baser), 1806);
    }
    // abstraction is a function of the concrete tree
    let agg = abstract_cst::aggregate_cst_seq(b.syntax.clone());
    let abs: Vec<ast::Ast> = agg.0.into_iter().map(|c| abstract_cst::abstract_cst(c, o.quirk_settings)).collect();
    check(same(&ast_bytes(&abs, FULL), &baser), 1807);
    if let Ok(NodeSeq(toks)) = &tb {
        let f = &first.syntax.0[0];
        match toks.first() {
            None => check(f.tok == TokenKind::EndOfFile, 1808),
            Some(t) => check(f.tok == t.tok && (unterminated(t.tok) || f.src == t.src && offset(v, f) == offset(v, t) && f.input.as_bytes().len() == t.input.as_bytes().len()), 1809),
        }
    }
    let Ok(text) = std::str::from_utf8(v) else { return };
    reach(1);
    check(same(&ser_csts(&parse_cst_seq(text, &o).syntax.0, FULL), &bser), 1810);
    check(same(&ast_bytes(&parse_ast_seq(text, &o).syntax.0, FULL), &baser), 1811);
    if let Ok(NodeSeq(toks)) = tb {
        let NodeSeq(ts) = tokenize(text, &o);
        check(ts == toks, 1812);
        let mut n = 0;
        for t in iter::tokens(text, &o) {
            if n >= toks.len() { check(false, 1813); return; }
            let u = &toks[n];
            check(t.tok == u.tok && offset(v, &t) == offset(v, u), 1814);
            check(unterminated(t.tok) || t == *u, 1815);
            n += 1;
        }
        check(n == toks.len(), 1816);
    }
}

// ------------------------------------------------------------ C19
/// the trees, with positions moved down by `by.0` lines (or, counting characters, on by `by.1`)
fn shift_ser(s: &[Cst<TokenStr>], by: Pos) -> Vec<u8> {
    let mv = |p: Pos| if p.0 == 0 { (0, p.1 + by.1) } else { (p.0 + by.0, p.1) };
    let mut out = ser_csts(s, SHAPE);
    let mut l = Vec::new();
    for c in s { leaves(c, &mut l) }
    for t in l { let (a, b) = span(t.src); wpos(&mut out, mv(a)); wpos(&mut out, mv(b)); }
    out
}
/// characters of well-formed UTF-8
fn chars_in(v: &[u8]) -> u32 { v.iter().filter(|b| **b & 0xc0 != 0x80).count() as u32 }
fn c19() {
    let j = job();
    let v = &j.inputs[0];
    let script = parse_bytes_cst_seq(v, &options(j.opts));
    let plain = options(j.opts & !3);
    if v.len() >= 2 && v[0] == b'#' && v[1] == b'!' && j.opts & 3 != 0 {
        reach(1);
        let mut i = 2;
        let mut nl = 0;
        while i < v.len() {
            let c = v[i];
            i += 1;
            if c == b'\n' { nl = 1; break; }
            if c == b'\r' { nl = 1; if i < v.len() && v[i] == b'\n' { i += 1 } break; }
        }
        if nl == 0 { reach(3); check(script.syntax.0.is_empty(), 1901); return; }
        reach(4);
        let rest = parse_bytes_cst_seq(&v[i..], &plain);
        check(same(&shift_ser(&script.syntax.0, (0, 0)), &shift_ser(&rest.syntax.0, (1, chars_in(&v[..i])))), 1902);
    } else {
        reach(2);
        let p = parse_bytes_cst_seq(v, &plain);
        check(same(&shift_ser(&script.syntax.0, (0, 0)), &shift_ser(&p.syntax.0, (0, 0))), 1903);
        check(script.non_fatal_issues == p.non_fatal_issues, 1904);
    }
}

// ------------------------------------------------------------ C20
fn starts_operand(k: TokenKind) -> bool {
    use TokenKind::*;
    matches!(k, Symbol | String | Integer | Real | Rational | Under | UnderUnder | UnderUnderUnder | UnderDot | Hash | HashHash | Percent | PercentPercent) || closer_of(k).is_some() && k != OpenSquare && k != ColonColonOpenSquare && k != LongName_LeftDoubleBracket
}
/// inputs: A, B, newline: if A alone is free of errors, A <newline> B parses as A, a newline, and B moved down
fn c20() {
    let j = job();
    let o = options(j.opts);
    let (a, b, nl) = (&j.inputs[0], &j.inputs[1], &j.inputs[2]);
    let ra = parse_bytes_cst_seq(a, &o);
    if ra.unsafe_character_encoding.is_some() || ra.syntax.0.iter().any(has_err_cst) { reach(2); return; }
    if a.last() == Some(&b'\r') && nl[0] == b'\n' || nl[0] == b'\r' && nl.len() == 1 && b.first() == Some(&b'\n') { return; }
    let mut w = Walker::new(tab_width(j.opts));
    w.feed(a);
    // a line continuation at the very end of A continues into B
    let l = seq_leaves(&ra.syntax);
    let covered: usize = l.iter().map(|t| t.input.as_bytes().len()).sum();
    if covered != a.len() { reach(3); return; }
    let mut v: Vec<u8> = Vec::with_capacity(a.len() + b.len() + 4);
    v.extend_from_slice(a);
    v.extend_from_slice(nl);
    v.extend_from_slice(b);
    // an infix operator at the start of B would continue an infix expression of A over the newline
    let infix = ra.syntax.0.iter().any(|c| any_node(c, &mut |c| matches!(c, Cst::Infix(_))));
    let rb = parse_bytes_cst_seq(b, &o);
    if let Ok(NodeSeq(tb)) = tokenize_bytes(b, &o) {
        if let Some(t) = tb.iter().find(|t| !is_trivia(t.tok)) {
            if infix && !starts_operand(t.tok) { return; }
            // likewise the differential of an integral
            if matches!(t.tok, TokenKind::LongName_DifferentialD | TokenKind::LongName_CapitalDifferentialD) { return; }
        }
    }
    if infix { reach(4); }
    let r = parse_bytes_cst_seq(&v, &o);
    reach(1);
    let (na, nb) = (ra.syntax.0.len(), rb.syntax.0.len());
    check(r.syntax.0.len() == na + 1 + nb, 2001);
    if r.syntax.0.len() != na + 1 + nb { return; }
    check(same(&shift_ser(&r.syntax.0[..na], (0, 0)), &shift_ser(&ra.syntax.0, (0, 0))), 2002);
    check(matches!(&r.syntax.0[na], Cst::Token(t) if t.tok == TokenKind::ToplevelNewline), 2003);
    check(same(&shift_ser(&r.syntax.0[na + 1..], (0, 0)), &shift_ser(&rb.syntax.0, (w.lc.0, chars_in(&v[..a.len() + nl.len()])))), 2004);
    // and so do the abstract trees
    let sa = parse_bytes_ast_seq(a, &o).syntax.0;
    let sb = parse_bytes_ast_seq(b, &o).syntax.0;
    let sr = parse_bytes_ast_seq(&v, &o).syntax.0;
    let mut both = ast_bytes(&sa, SHAPE)[2..].to_vec();
    both.extend_from_slice(&ast_bytes(&sb, SHAPE)[2..]);
    check(sr.len() == sa.len() + sb.len() && same(&ast_bytes(&sr, SHAPE)[2..], &both), 2005);
}

// ------------------------------------------------------------ C21
fn c21() {
    let j = job();
    let v = &j.inputs[0];
    let r = parse_bytes_cst_seq(v, &options(j.opts));
    let cut = r.syntax.0.iter().any(|c| any_node(c, &mut |c| matches!(c, Cst::Token(t) if unterminated(t.tok)) || call_missing_closer(c) || matches!(c, Cst::GroupMissingCloser(_))));
    let base = ser_csts(&r.syntax.0, SHAPE);
    let base_ast = ast_bytes(&parse_bytes_ast_seq(v, &options(j.opts)).syntax.0, SHAPE);
    reach(1);
    for alt in [4u64, 8, 0x10, 0x80, 0x1c] {
        // where an unterminated construct is cut off may differ between conventions
        if alt & 4 != 0 && cut { continue; }
        let o = options(j.opts ^ alt);
        check(same(&base, &ser_csts(&parse_bytes_cst_seq(v, &o).syntax.0, SHAPE)), 2101 + alt);
        check(same(&base_ast, &ast_bytes(&parse_bytes_ast_seq(v, &o).syntax.0, SHAPE)), 2151 + alt);
    }
}

// ------------------------------------------------------------ C22
fn c22() {
    let j = job();
    let v = &j.inputs[0];
    let o = options(j.opts);
    let r = parse_bytes_cst_seq(v, &o).syntax;
    let mut mine: Vec<*const Cst<TokenStr>> = Vec::new();
    for c in &r.0 { any_node(c, &mut |c| { mine.push(c as *const _); false }); }
    let mut seen: Vec<*const Cst<TokenStr>> = Vec::new();
    r.visit(&mut |c| seen.push(c as *const _));
    reach(1);
    check(seen == mine, 2201);
    let mut m = r.clone();
    let mut n = 0;
    let mut kinds: Vec<u8> = Vec::new();
    m.visit_mut(&mut |c| { n += 1; kinds.push(node_tag(c)) });
    let mut k2: Vec<u8> = Vec::new();
    for c in &r.0 { any_node(c, &mut |c| { k2.push(node_tag(c)); false }); }
    check(n == mine.len() && kinds == k2, 2202);
    check(m == r, 2203);
    let mut k3: Vec<u8> = Vec::new();
    let mapped = r.clone().map_visit(&mut |c| { k3.push(node_tag(&c)); c });
    check(mapped == r, 2204);
    check(k3 == k2, 2205);
    // a mutation through visit_mut / map_visit reaches every token, and only tokens
    let mut marked = r.clone();
    marked.visit_mut(&mut |c| if let Cst::Token(t) = c { t.tok = TokenKind::Comma });
    let l = seq_leaves(&marked);
    check(l.iter().all(|t| t.tok == TokenKind::Comma) && l.len() == seq_leaves(&r).len(), 2206);
    let mapped = r.clone().map_visit(&mut |c| match c { Cst::Token(mut t) => { t.tok = TokenKind::Comma; Cst::Token(t) }, c => c });
    check(mapped == marked, 2207);
}
fn node_tag<I, S>(c: &Cst<I, S>) -> u8 {
    match c { Cst::Token(_) => 1, Cst::Call(_) => 2, Cst::SyntaxError(_) => 3, Cst::Prefix(_) => 4, Cst::Infix(_) => 5, Cst::Postfix(_) => 6, Cst::Binary(_) => 7, Cst::Ternary(_) => 8,
        Cst::PrefixBinary(_) => 9, Cst::Compound(_) => 10, Cst::Group(_) => 11, Cst::GroupMissingCloser(_) => 12, Cst::GroupMissingOpener(_) => 13, Cst::Box(_) => 14, Cst::Code(_) => 15 }
}

// ------------------------------------------------------------ C23
fn c23() {
    let j = job();
    let v = &j.inputs[0];
    let o = options(j.opts);
    let r = parse_bytes_cst_seq(v, &o);
    if r.unsafe_character_encoding.is_some() { return; }
    let toks = seq_leaves(&r.syntax);
    if toks.iter().any(|t| t.tok == TokenKind::Error_UnhandledCharacter || unterminated(t.tok)) { return; }
    let (mut nl, mut tab, mut simple, mut complex) = (vec![], vec![], vec![], vec![]);
    for t in &toks {
        let b = t.input.as_bytes();
        let s = pos(t.src.start());
        let str = t.tok == TokenKind::String;
        let comment = t.tok == TokenKind::Comment;
        let mut i = 0;
        let (mut n, mut tb, mut lc, mut slc, mut inside) = (false, false, false, false, false);
        while i < b.len() {
            if b[i] == b'(' || b[i] == b'"' { inside = true }
            if b[i] == b'\\' && !(comment && inside) && i + 1 < b.len() {
                if b[i + 1] == b'\n' || b[i + 1] == b'\r' {
                    if str && inside { slc = true } else { lc = true }
                    if b[i + 1] == b'\r' && i + 2 < b.len() && b[i + 2] == b'\n' { i += 1 }
                    i += 2;
                } else if matches!(b[i + 1], b'\\' | b'"') { i += 2 } else { i += 1 }
                continue;
            }
            if inside && (b[i] == b'\n' || b[i] == b'\r') { n = true }
            if inside && b[i] == b'\t' { tb = true }
            i += 1;
        }
        if (str || comment) && inside { if n { nl.push(s) } if tb { tab.push(s) } }
        if slc { complex.push(s) }
        if lc { simple.push(s) }
    }
    let covered: usize = toks.iter().map(|t| t.input.as_bytes().len()).sum();
    if covered < v.len() && v[covered] == b'\\' { simple.push(match toks.last() { Some(t) => pos(t.src.end()), None if char_index(j.opts) => (0, 1), None => (1, 1) }) }
    reach(1);
    if !nl.is_empty() { reach(2) }
    if !tab.is_empty() { reach(3) }
    if !simple.is_empty() { reach(4) }
    if !complex.is_empty() { reach(5) }
    for v in [&mut nl, &mut tab, &mut simple, &mut complex] { v.sort() }
    check(nl == locs(&r.tracked.embedded_newlines), 2301);
    check(tab == locs(&r.tracked.embedded_tabs), 2302);
    check(simple == locs(&r.tracked.simple_line_continuations), 2303);
    check(complex == locs(&r.tracked.complex_line_continuations), 2304);
}

// ------------------------------------------------------------ C29
/// each quirk changes only the forms it is documented for
fn c29() {
    let j = job();
    let v = &j.inputs[0];
    let o = options(j.opts);
    let Ok(NodeSeq(toks)) = tokenize_bytes(v, &o) else { return };
    use TokenKind::*;
    let has = |f: &dyn Fn(TokenKind) -> bool| toks.iter().any(|t| f(t.tok));
    let base = ast_bytes(&parse_bytes_ast_seq(v, &o).syntax.0, FULL);
    let tree = ser_csts(&parse_bytes_cst_seq(v, &o).syntax.0, FULL);
    reach(1);
    let old = ast_bytes(&parse_bytes_ast_seq(v, &options(j.opts ^ 0x400)).syntax.0, FULL);
    if has(&|k| k == AtAtAt) { reach(2) } else { check(same(&base, &old), 2901) }
    let flat = ast_bytes(&parse_bytes_ast_seq(v, &options(j.opts ^ 0x100)).syntax.0, FULL);
    if has(&|k| matches!(k, Slash | LongName_Divide | LongName_DivisionSlash | Minus | LongName_Minus)) { reach(3) } else { check(same(&base, &flat), 2902) }
    let at = ast_bytes(&parse_bytes_ast_seq(v, &options(j.opts ^ 0x200)).syntax.0, FULL);
    if has(&|k| k == At) { reach(4) } else { check(same(&base, &at), 2903) }
    // the concrete tree never depends on them
    check(same(&tree, &ser_csts(&parse_bytes_cst_seq(v, &options(j.opts ^ 0x700)).syntax.0, FULL)), 2904);
}

// ------------------------------------------------------------ C11
/// Two spellings that differ in trivia only: same abstract tree, or both malformed.
fn c11() {
    let j = job();
    let o = options(j.opts);
    let a = parse_bytes_ast_seq(&j.inputs[0], &o).syntax;
    let b = parse_bytes_ast_seq(&j.inputs[1], &o).syntax;
    let (ea, eb) = (a.0.iter().any(ast_has_error), b.0.iter().any(ast_has_error));
    check(ea == eb, 1101);
    if ea { reach(2); return; }
    reach(1);
    check(same(&ast_bytes(&a.0, SHAPE), &ast_bytes(&b.0, SHAPE)), 1102);
}

// ------------------------------------------------------------ C26
/// aggregation removes exactly the trivia
fn c26() {
    let j = job();
    let o = options(j.opts);
    let r = parse_bytes_cst_seq(&j.inputs[0], &o).syntax;
    let want = ser_csts(&r.0, STRIPPED);
    if seq_leaves(&r).iter().any(|t| is_trivia(t.tok)) { reach(2) }
    let agg = abstract_cst::aggregate_cst_seq(r);
    reach(1);
    check(same(&want, &ser_csts(&agg.0, FULL)), 2601);
    check(seq_leaves(&agg).iter().all(|t| !is_trivia(t.tok)), 2602);
}

// ------------------------------------------------------------ C14, C15, C25
/// tokens are those of the reference lexer (as far as it specifies them)
fn lex() {
    let j = job();
    let v = &j.inputs[0];
    let Ok(NodeSeq(toks)) = tokenize_bytes(v, &options(j.opts)) else { return };
    use crate::lexref::{token, Ref};
    let mut at = 0;
    let mut n = 0;
    while at < v.len() {
        let r = token(v, at);
        if matches!(r, Ref::Stop) { reach(2); return; }
        if n >= toks.len() { check(false, 1401); return; }
        let t = &toks[n];
        n += 1;
        match r {
            Ref::Tok(k, end) => {
                reach(1);
                match k { TokenKind::Integer => reach(10), TokenKind::Real => reach(11), TokenKind::Rational => reach(12), TokenKind::String => reach(14), TokenKind::Comment => reach(15), TokenKind::Symbol => reach(16), TokenKind::LinearSyntaxBlob => reach(17), _ => () }
                check(t.tok == k, 1402);
                check(offset(v, t) == at && t.input.as_bytes().len() == end - at, 1403);
                at = end;
            },
            Ref::Kind(k) => { if k == TokenKind::Error_Number { reach(13) } check(t.tok == k && offset(v, t) == at, 1404); return },
            Ref::Stop => return,
        }
    }
    check(n == toks.len(), 1405);
}

// ------------------------------------------------------------ C13
fn hexval(c: u8) -> u32 { if c <= b'9' { (c - b'0') as u32 } else if c >= b'a' { (c - b'a') as u32 + 10 } else { (c - b'A') as u32 + 10 } }
fn chars_of(v: &[u8], o: &ParseOptions) -> Option<Vec<read::WLCharacter>> { std::str::from_utf8(v).ok().map(|t| iter::wolfram_chars(t, o).collect()) }
/// input 0 is a named character, input 1 the character itself
fn c13() {
    let j = job();
    let o = options(j.opts);
    let Some(ch) = std::str::from_utf8(&j.inputs[1]).ok().and_then(|t| t.chars().next()) else { check(false, 1301); return };
    let Some(c) = chars_of(&j.inputs[0], &o) else { check(false, 1302); return };
    reach(1);
    check(c.len() == 1, 1303);
    if c.len() != 1 { return; }
    let ch = match ch { '"' => source::SourceCharacter::StringMeta_DoubleQuote, '\\' => source::SourceCharacter::StringMeta_Backslash, ch => source::SourceCharacter::Char(ch) };
    let raw = c[0] == read::WLCharacter::escaped(ch, read::Escape::Raw);
    check(raw || c[0] == read::WLCharacter::escaped(ch, read::Escape::LongName), 1304);
    check(!raw || j.inputs[1].len() == 1, 1305);
}
/// a numeric escape \.hh \:hhhh \|hhhhhh \ooo stands for the character of that number
fn c13h() {
    let j = job();
    let o = options(j.opts);
    let v = &j.inputs[0];
    let (from, esc) = match v[1] { b':' => (2, read::Escape::Hex4), b'.' => (2, read::Escape::Hex2), b'|' => (2, read::Escape::Hex6), _ => (1, read::Escape::Octal) };
    let mut cp = 0;
    for &b in &v[from..] { cp = if from == 1 { cp * 8 } else { cp * 16 } + hexval(b) }
    let Some(c) = chars_of(v, &o) else { check(false, 1310); return };
    let Some(ch) = char::from_u32(cp) else {
        reach(2);
        // not a character: read as a stray backslash and the rest
        check(c.len() == v.len() && c[0] == read::WLCharacter::new('\\'), 1311);
        return;
    };
    reach(1);
    check(c.len() == 1, 1312);
    if c.len() != 1 { return; }
    let want = match cp { 0x22 => source::SourceCharacter::StringMeta_DoubleQuote, 0x5c => source::SourceCharacter::StringMeta_Backslash, _ => source::SourceCharacter::Char(ch) };
    check(c[0] == read::WLCharacter::escaped(want, esc), 1313);
}
/// printing the characters read gives back the text (up to the case of hexadecimal digits)
fn c13s() {
    let j = job();
    let v = &j.inputs[0];
    let o = options(j.opts);
    if !utf8_scan(v).0 { return; }
    let Some(c) = chars_of(v, &o) else { return };
    let mut out = String::new();
    use std::fmt::Write;
    for c in c { let _ = write!(out, "{}", c); }
    reach(1);
    if j.inputs.len() > 1 { return; }
    check(same(&out.as_bytes().to_ascii_lowercase(), &v.to_ascii_lowercase()), 1320);
}
/// input: {, a backslash and letters or digits after \\ \\: \\. \\|, }: brackets stay, and an escape that names no character is an error
fn c13m() {
    let j = job();
    let v = &j.inputs[0];
    let Ok(NodeSeq(t)) = tokenize_bytes(v, &options(j.opts)) else { check(false, 1330); return };
    let n = t.len();
    check(n >= 3 && t[0].tok == TokenKind::OpenCurly && t[n - 1].tok == TokenKind::CloseCurly && t[n - 1].input.as_bytes().len() == 1, 1331);
    let (from, need, radix) = match v[2] { b':' => (3, 4, 16), b'.' => (3, 2, 16), b'|' => (3, 6, 16), _ => (2, 3, 8) };
    let mut cp = 0u32;
    let mut k = 0;
    while k < need {
        let c = v[from + k];
        let ok = if radix == 8 { c >= b'0' && c <= b'7' } else { c >= b'0' && c <= b'9' || c >= b'a' && c <= b'f' || c >= b'A' && c <= b'F' };
        if !ok { break }
        cp = cp * radix + hexval(c);
        k += 1;
    }
    let good = k == need && (cp < 0xD800 || cp > 0xDFFF) && cp <= 0x10FFFF;
    if !good { reach(2); check(t[1].tok == TokenKind::Error_UnhandledCharacter, 1332); }
    else { reach(1); check(t[1].input.as_bytes().len() >= need, 1333); }
}

// ------------------------------------------------------------ C24
/// an error never vanishes on the way from tokens to the concrete and the abstract tree, and no issue-free error is silent
fn c24() {
    let j = job();
    let v = &j.inputs[0];
    let o = options(j.opts);
    let Ok(NodeSeq(toks)) = tokenize_bytes(v, &o) else { return };
    let c = parse_bytes_cst_seq(v, &o).syntax;
    let a = parse_bytes_ast_seq(v, &o).syntax;
    let lexical = toks.iter().any(|t| is_error(t.tok)) && !toks.iter().any(|t| reinterprets(t.tok));
    // an operand left out next to a comma means Null
    let soft = |t: TokenKind| matches!(t, TokenKind::Error_InfixImplicitNull | TokenKind::Error_PrefixImplicitNull);
    let ec = c.0.iter().any(|c| any_node(c, &mut |c| call_missing_closer(c) || match c {
        Cst::GroupMissingCloser(_) | Cst::GroupMissingOpener(_) | Cst::SyntaxError(_) => true,
        Cst::Token(t) => is_error(t.tok) && !soft(t.tok),
        _ => false,
    }));
    let ea = a.0.iter().any(ast_has_error);
    reach(1);
    if lexical { reach(2); check(ec, 2401); }
    if ec { reach(3); check(ea, 2402); }
    // an error token stays one, with its kind, text and place, and is never an ordinary leaf
    let mut errs: Vec<(TokenKind, Vec<u8>, Option<(Pos, Pos)>)> = Vec::new();
    for x in &a.0 { ast_walk(x, &mut |x| match x {
        ast::Ast::Error { kind, input, data } => errs.push((*kind, input.as_bytes().to_vec(), match data.source.clone() { source::Source::Span(s) => Some(span(s)), _ => None })),
        ast::Ast::Leaf { kind, .. } => check(!is_error(*kind), 2403),
        _ => (),
    }) }
    for t in seq_leaves(&c) { if is_error(t.tok) && !soft(t.tok) { check(errs.iter().any(|e| e.0 == t.tok && e.2 == Some(span(t.src)) && same(&e.1, t.input.as_bytes())), 2404) } }
}

// ------------------------------------------------------------ C27
fn num(out: &mut Vec<u8>, n: u32) { if n >= 10 { num(out, n / 10) } out.push(b'0' + (n % 10) as u8) }
fn put_pos(out: &mut Vec<u8>, p: Pos) { out.push(b'{'); num(out, p.0); out.extend_from_slice(b", "); num(out, p.1); out.push(b'}') }
fn put_span(out: &mut Vec<u8>, s: Pos, e: Pos) { out.push(b'{'); put_pos(out, s); out.extend_from_slice(b", "); put_pos(out, e); out.push(b'}') }
fn put_tok(out: &mut Vec<u8>, t: &Token<TokenStr>) {
    out.extend_from_slice(if is_error(t.tok) { b"CodeParser`ErrorNode[" } else { b"CodeParser`LeafNode[" });
    out.extend_from_slice(t.tok.to_symbol().as_str().as_bytes());
    out.extend_from_slice(b", \"");
    out.extend_from_slice(t.input.as_bytes());
    out.extend_from_slice(b"\", ");
    let (s, e) = span(t.src);
    put_span(out, s, e);
    out.push(b']');
}
fn put_list(out: &mut Vec<u8>, l: &[Cst<TokenStr>]) {
    out.extend_from_slice(b"System`List[");
    for c in l { put_cst(out, c); out.extend_from_slice(b", "); }
    out.push(b']');
}
fn ends(l: &[&Token<TokenStr>]) -> (Pos, Pos) { (span(l[0].src).0, span(l[l.len() - 1].src).1) }
fn put_node(out: &mut Vec<u8>, head: &str, op: &str, kids: &[Cst<TokenStr>]) {
    out.extend_from_slice(b"CodeParser`");
    out.extend_from_slice(head.as_bytes());
    out.push(b'[');
    out.extend_from_slice(op.as_bytes());
    out.extend_from_slice(b", ");
    put_list(out, kids);
    out.extend_from_slice(b", ");
    let mut l = Vec::new();
    for k in kids { leaves(k, &mut l) }
    let (s, e) = ends(&l);
    put_span(out, s, e);
    out.push(b']');
}
fn put_cst(out: &mut Vec<u8>, c: &Cst<TokenStr>) {
    use wolfram_parser::parse::operators::Operator;
    match c {
        Cst::Token(t) => put_tok(out, t),
        Cst::Call(n) => {
            out.extend_from_slice(b"CodeParser`CallNode[");
            put_list(out, head_seq(n));
            out.extend_from_slice(b", ");
            let open = matches!(n.body, CallBody::GroupMissingCloser(_));
            put_node(out, if open { "GroupMissingCloserNode" } else { "GroupNode" }, n.body.as_op().op.to_symbol().as_str(), body_seq(n));
            out.extend_from_slice(b", ");
            let mut l = Vec::new();
            leaves(c, &mut l);
            let (s, e) = ends(&l);
            put_span(out, s, e);
            out.push(b']');
        },
        Cst::SyntaxError(n) => put_node(out, "SyntaxErrorNode", n.err.to_symbol().as_str(), &n.children.0),
        Cst::Prefix(n) => put_node(out, "PrefixNode", n.0.op.to_symbol().as_str(), &n.0.children.0),
        Cst::Infix(n) => put_node(out, "InfixNode", n.0.op.to_symbol().as_str(), &n.0.children.0),
        Cst::Postfix(n) => put_node(out, "PostfixNode", n.0.op.to_symbol().as_str(), &n.0.children.0),
        Cst::Binary(n) => put_node(out, "BinaryNode", n.0.op.to_symbol().as_str(), &n.0.children.0),
        Cst::Ternary(n) => put_node(out, "TernaryNode", n.0.op.to_symbol().as_str(), &n.0.children.0),
        Cst::PrefixBinary(n) => put_node(out, "PrefixBinaryNode", n.0.op.to_symbol().as_str(), &n.0.children.0),
        Cst::Compound(n) => put_node(out, "CompoundNode", n.0.op.to_symbol().as_str(), &n.0.children.0),
        Cst::Group(n) => put_node(out, "GroupNode", n.0.op.to_symbol().as_str(), &n.0.children.0),
        Cst::GroupMissingCloser(n) => put_node(out, "GroupMissingCloserNode", n.0.op.to_symbol().as_str(), &n.0.children.0),
        Cst::GroupMissingOpener(n) => put_node(out, "GroupMissingOpenerNode", n.0.op.to_symbol().as_str(), &n.0.children.0),
        Cst::Box(_) | Cst::Code(_) => (),
    }
}
/// the printed form of tokens and trees is the node's head, operator, children in order and span
fn c27() {
    let j = job();
    let v = &j.inputs[0];
    let o = options(j.opts);
    let Ok(toks) = tokenize_bytes(v, &o) else { return };
    use fmt_as_expr::FmtAsExpr;
    let mut want = b"System`List[".to_vec();
    for t in &toks.0 { put_tok(&mut want, t); want.extend_from_slice(b", "); }
    want.push(b']');
    reach(1);
    check(same(format!("{}", FmtAsExpr(&toks)).as_bytes(), &want), 2701);
    let c = parse_bytes_cst_seq(v, &o).syntax;
    let mut want = Vec::new();
    put_list(&mut want, &c.0);
    check(same(format!("{}", FmtAsExpr(&c)).as_bytes(), &want), 2702);
}

// ------------------------------------------------------------ C28
fn file_char(c: u8) -> bool { c >= b'0' && c <= b'9' || c >= b'a' && c <= b'z' || c >= b'A' && c <= b'Z' || matches!(c, b'`' | b'/' | b'.' | b'\\' | b'!' | b'-' | b'_' | b':' | b'$' | b'*' | b'~' | b'?') }
/// what may follow :: (0), << >> >>> (1), # (2), ## (3), % (4); extra: which of these, length of the text before
fn c28() {
    use crate::lexref::{digits, string, symbol_segment, Ref};
    let j = job();
    let v = &j.inputs[0];
    let (what, lead) = (param(j.extra + 1), param(j.extra + 2) as usize);
    let r = parse_bytes_cst_seq(v, &options(j.opts));
    if r.unsafe_character_encoding.is_some() { return; }
    let mut i = lead;
    if what == 1 { while i < v.len() && matches!(v[i], b' ' | b'\t' | b'\n' | b'\r') { i += 1 } }
    let c = if i < v.len() { v[i] } else { 0xff };
    if i < v.len() && c >= 0x80 { return; }
    // a name that goes on with an escape or a non-ASCII character is not specified here
    let e = symbol_segment(v, i);
    if what != 1 && (c == b'\\' || e < v.len() && (v[e] == b'\\' || v[e] == b'`' || v[e] >= 0x80)) { return; }
    // ::[ and >>> are other operators
    if what == 0 && c == b'[' || what == 1 && i == lead && c == b'>' { return; }
    // a line continuation directly after >> may continue the operator
    if i == lead && c == b'\\' && i + 1 < v.len() && matches!(v[i + 1], b'\n' | b'\r') { return; }
    let l = seq_leaves(&r.syntax);
    let compound = r.syntax.0.iter().any(|c| any_node(c, &mut |c| matches!(c, Cst::Compound(n) if matches!(&n.0.children.0[0], Cst::Token(t) if offset(v, t) + t.input.as_bytes().len() == lead))));
    let none = |id: u64| { reach(2); check(!compound, id); };
    let tok = |k: TokenKind, end: usize, id: u64| { reach(1); check(l.iter().any(|t| t.tok == k && offset(v, t) == i && t.input.as_bytes().len() == end - i), id); };
    match what {
        1 => {
            if c == b'"' { if let Ref::Tok(k, e) = string(v, i + 1) { tok(k, e, 2811) } return; }
            let mut e = i;
            loop {
                if e < v.len() && file_char(v[e]) { e += 1; continue }
                if e < v.len() && v[e] == b'[' {
                    let mut depth = 0;
                    loop {
                        if e >= v.len() || v[e] == b' ' || v[e] >= 9 && v[e] <= 13 { tok(TokenKind::Error_UnterminatedFileString, e, 2812); return; }
                        if v[e] >= 0x80 { return; }
                        if v[e] == b'[' { depth += 1 }
                        if v[e] == b']' { depth -= 1 }
                        e += 1;
                        if depth == 0 { break }
                    }
                    continue;
                }
                break;
            }
            if e == i { reach(3); check(l.iter().any(|t| t.tok == TokenKind::Error_ExpectedFile), 2813) } else { tok(TokenKind::String, e, 2814) }
        },
        0 => {
            if c == b'"' { if let Ref::Tok(k, e) = string(v, i + 1) { tok(k, e, 2801) } return; }
            if e > i { tok(TokenKind::String, e, 2802) } else { reach(3); tok(TokenKind::Error_ExpectedTag, i, 2803) }
        },
        _ => {
            let d = digits(v, i);
            if d > i { tok(TokenKind::Integer, d, 2821); check(compound, 2822) }
            else if what == 2 && c == b'"' { if let Ref::Tok(k, e) = string(v, i + 1) { tok(k, e, 2823); check(compound, 2824) } }
            else if what == 2 && e > i { tok(TokenKind::String, e, 2825); check(compound, 2826) }
            else { none(2827) }
        },
    }
}

// ------------------------------------------------------------ C30
/// a line continuation between A and B (outside comments) leaves the kinds of the tokens of A B as they are
fn c30() {
    let j = job();
    let o = options(j.opts);
    let (a, b, lc) = (&j.inputs[0], &j.inputs[1], &j.inputs[2]);
    if b.first().map_or(false, |c| *c == b' ' || *c >= 9 && *c <= 13) { return; }
    // an escape character is not continued, and nothing is in a comment
    if a.last() == Some(&b'\\') { return; }
    let cat = |x: &[&[u8]]| { let mut v = Vec::with_capacity(32); for x in x { v.extend_from_slice(x) } v };
    let (plain, broken) = (cat(&[a, b]), cat(&[a, lc, b]));
    let Some(p) = tok_kinds(&plain, &o) else { return };
    let Ok(NodeSeq(toks)) = tokenize_bytes(&plain, &o) else { return };
    // inside a comment or between the two characters that open one, it is text
    for t in &toks {
        let (s, n) = (offset(&plain, t), t.input.as_bytes().len());
        if s < a.len() && a.len() < s + n && matches!(t.tok, TokenKind::Comment | TokenKind::Error_UnterminatedComment) { return; }
        if unterminated(t.tok) && s < a.len() && t.tok == TokenKind::Error_UnterminatedComment { return; }
    }
    reach(1);
    match tok_kinds(&broken, &o) { Some(q) => check(same(&p, &q), 3001), None => check(false, 3002) }
}

// ------------------------------------------------------------ C31
/// spans are closed intervals of positions in reading order
fn c31() {
    use source::*;
    let j = job();
    let w = |i: usize| word(i, 32) as u32;
    let nz = |x: u32| { assume(x != 0); std::num::NonZeroU32::new(x).unwrap() };
    let ci = char_index(j.opts);
    let key = |l: u32, c: u32| if ci { c as u64 } else { (l as u64) << 32 | c as u64 };
    let mk = |l: u32, c: u32| if ci { Location::CharacterIndex(c) } else { Location::LineColumn(LineColumn(nz(l), nz(c))) };
    let (a0, a1, b0, b1) = (key(w(0), w(1)), key(w(2), w(3)), key(w(4), w(5)), key(w(6), w(7)));
    assume(a0 <= a1 && b0 <= b1);
    let span = |s: Location, e: Location| match (s, e) {
        (Location::CharacterIndex(s), Location::CharacterIndex(e)) => Span::from_character_span(s, e),
        (Location::LineColumn(s), Location::LineColumn(e)) => Span::line_column(s, e),
        _ => unreachable!(),
    };
    let (sa, sb) = (span(mk(w(0), w(1)), mk(w(2), w(3))), span(mk(w(4), w(5)), mk(w(6), w(7))));
    reach(1);
    check(sa.overlaps(sb) == (a0 <= b1 && b0 <= a1), 3101);
    check(sa.overlaps(sa), 3102);
    check((sa.start() <= sb.start()) == (a0 <= b0) && (sa.end() < sb.end()) == (a1 < b1), 3103);
    check(sa.start_end() == (sa.start(), sa.end()) && sa.start() <= sa.end(), 3104);
    match sa.kind() {
        SpanKind::LineColumnSpan(s) => {
            check(!ci && s.start.line().get() == w(0) && s.start.column().get() == w(1) && s.end.line().get() == w(2) && s.end.column().get() == w(3), 3105);
            if let Location::LineColumn(p) = sb.start() { check(s.contains(p) == (a0 <= b0 && b0 <= a1), 3106) }
        },
        SpanKind::CharacterSpan(_) => check(ci, 3107),
    }
}

// ------------------------------------------------------------ C34: nodes have the shape of their kind
use wolfram_parser::parse::operators::Operator;
use TokenKind as K;
type C<'a> = Cst<TokenStr<'a>>;
fn short(s: &'static str) -> &'static str { match s.rfind('`') { Some(i) => &s[i + 1..], None => s } }
fn tk(c: &C) -> K { match c { Cst::Token(t) => t.tok, _ => K::Unknown } }
fn empty_leaf(c: &C) -> bool { matches!(c, Cst::Token(t) if t.input.as_bytes().is_empty()) }
/// a token that can be a whole operand
fn atom(k: K) -> bool {
    is_error_kind(k) || matches!(k, K::Symbol | K::String | K::Integer | K::Real | K::Rational | K::Under | K::UnderUnder | K::UnderUnderUnder | K::UnderDot | K::Hash | K::HashHash | K::Percent | K::PercentPercent | K::LinearSyntaxBlob)
}
/// `at`: index of the operand among the operands of its node, of `n`
fn operand(c: &C, form: u8, op: &str, at: usize, n: usize) {
    let k = tk(c);
    if let Cst::Token(_) = c {
        let ok = match k {
            K::Fake_ImplicitOne => (op == "Span" || form == 6) && at == 0,
            K::Fake_ImplicitAll => op == "Span" && at > 0,
            K::Fake_ImplicitNull => op == "CompoundExpression" && at > 0,
            K::Error_PrefixImplicitNull => op == "Comma" && at == 0,
            K::Error_InfixImplicitNull => op == "Comma" && at > 0,
            K::Error_ExpectedOperand => op != "Comma",
            K::Error_ExpectedTag => op == "MessageName" && at > 0,
            K::Error_ExpectedFile => matches!(op, "Get" | "Put" | "PutAppend") && at + 1 == n,
            _ => atom(k),
        };
        check(ok && (form > 0 || !empty_leaf(c)), 3401);
        check(empty_leaf(c) == matches!(k, K::Fake_ImplicitOne | K::Fake_ImplicitAll | K::Fake_ImplicitNull | K::Error_PrefixImplicitNull | K::Error_InfixImplicitNull | K::Error_ExpectedOperand | K::Error_ExpectedTag | K::Error_ExpectedFile), 3402);
    }
    shape(c);
}
fn is_error_kind(k: K) -> bool { is_error(k) }
fn shape_seq(s: &[&C]) { for c in s { operand(c, 0, "", 0, 1) } }
fn shape(c: &C) {
    let (form, name): (u8, &str) = match c {
        Cst::Token(_) | Cst::Box(_) | Cst::Code(_) => return,
        Cst::Call(n) => {
            let h: Vec<&C> = head_seq(n).iter().filter(|c| !is_triv(c)).collect();
            check(h.len() == 1, 3410);
            shape_seq(&h);
            let b: Vec<&C> = body_seq(n).iter().filter(|c| !is_triv(c)).collect();
            return group(&b, short(n.body.as_op().op.to_symbol().as_str()), matches!(n.body, CallBody::Group(_)));
        },
        Cst::SyntaxError(n) => { let v: Vec<&C> = n.children.0.iter().filter(|c| !is_triv(c)).collect(); check(v.len() >= 2, 3411);
            if v.len() < 2 { return; }
            // what is not a symbol before a colon; tilde without its partner; /: without = or :=
            check(tk(v[1]) == match n.err { parse::SyntaxErrorKind::ExpectedSymbol => K::Colon, parse::SyntaxErrorKind::ExpectedTilde => K::Tilde, parse::SyntaxErrorKind::ExpectedSet => K::SlashColon }, 3412);
            if n.err == parse::SyntaxErrorKind::ExpectedSymbol { reach(40); check(colon_lhs(v[0]) == 0 && v.len() == 3, 3413); }
            for x in v { shape(x) } return },
        Cst::Prefix(n) => (1, n.0.op.to_symbol().as_str()), Cst::Postfix(n) => (2, n.0.op.to_symbol().as_str()), Cst::Binary(n) => (3, n.0.op.to_symbol().as_str()),
        Cst::Infix(n) => (4, n.0.op.to_symbol().as_str()), Cst::Ternary(n) => (5, n.0.op.to_symbol().as_str()), Cst::PrefixBinary(n) => (6, n.0.op.to_symbol().as_str()),
        Cst::Compound(n) => (7, n.0.op.to_symbol().as_str()), Cst::Group(n) => (8, n.0.op.to_symbol().as_str()), Cst::GroupMissingCloser(n) => (9, n.0.op.to_symbol().as_str()),
        Cst::GroupMissingOpener(n) => (10, n.0.op.to_symbol().as_str()),
    };
    let name = short(name);
    let Kids::Seq(all) = kids(c) else { return };
    let v: Vec<&C> = all.iter().filter(|c| !is_triv(c)).collect();
    let n = v.len();
    reach(10 + form as u64);
    match form {
        1 => {
            if n != 2 { return check(false, 3420); }
            let t = tk(v[0]);
            check(crate::ops::prefix(t) == name || integral(t) == name, 3421);
            operand(v[1], 1, name, 0, 1);
        },
        2 => {
            if n != 2 { return check(false, 3422); }
            check(crate::ops::postfix(tk(v[1])) == name, 3423);
            operand(v[0], 1, name, 0, 1);
        },
        3 => {
            if n != 3 { return check(false, 3424); }
            let t = tk(v[1]);
            if name == "Unset" { check(t == K::Equal && tk(v[2]) == K::Dot, 3425); operand(v[0], 1, name, 0, 2); return; }
            check(if name == "Optional" { t == K::Colon } else { crate::ops::binary(t) == name }, 3426);
            if t == K::Colon { check(colon_lhs(v[0]) == if name == "Optional" { 2 } else { 1 }, 3443); }
            operand(v[0], 1, name, 0, 2); operand(v[2], 1, name, 1, 2);
        },
        4 => {
            if n < 3 || n % 2 == 0 { return check(false, 3427); }
            for (i, x) in v.iter().enumerate() {
                if i % 2 == 0 { operand(x, 1, name, i / 2, n / 2 + 1); continue; }
                check(crate::ops::infix(tk(x)) == name, 3428);
                if tk(x) == K::Fake_ImplicitTimes {
                    reach(30);
                    check(empty_leaf(x), 3429);
                    // an error never is a factor by juxtaposition
                    let mut l = Vec::new(); leaves(v[i + 1], &mut l);
                    check(!l.is_empty() && (!is_error_kind(l[0].tok) || l[0].tok == K::Error_UnsupportedToken), 3430);
                }
            }
        },
        5 => {
            if n != 5 { return check(false, 3431); }
            let (a, b) = (tk(v[1]), tk(v[3]));
            check(match name {
                "TernaryTilde" => a == K::Tilde && b == K::Tilde, "Span" => a == K::SemiSemi && b == K::SemiSemi, "TernaryOptionalPattern" => a == K::Colon && b == K::Colon,
                "TagSet" => a == K::SlashColon && b == K::Equal, "TagSetDelayed" => a == K::SlashColon && b == K::ColonEqual, "TagUnset" => a == K::SlashColon && b == K::Equal && tk(v[4]) == K::Dot, _ => false }, 3432);
            if a == K::Colon { check(colon_lhs(v[0]) == 1, 3444); }
            for i in [0, 2, 4] { if name != "TagUnset" || i < 4 { operand(v[i], 1, name, i / 2, 3) } }
        },
        6 => {
            if n != 3 { return check(false, 3433); }
            check(integral(tk(v[0])) == if name == "Integrate" { "Integral" } else { name }, 3434);
            operand(v[1], 6, name, 0, 2);
            let mut l = Vec::new(); leaves(v[2], &mut l);
            check(!l.is_empty() && matches!(l[0].tok, K::LongName_DifferentialD | K::LongName_CapitalDifferentialD), 3435);
            shape(v[2]);
        },
        7 => {
            if n != 2 || all.len() != 2 { return check(false, 3436); }
            let (a, b) = (tk(v[0]), tk(v[1]));
            let blank = |k: K, n: &str| match n { "Blank" => k == K::Under, "BlankSequence" => k == K::UnderUnder, "BlankNullSequence" => k == K::UnderUnderUnder, _ => false };
            check(match name {
                "Blank" | "BlankSequence" | "BlankNullSequence" => blank(a, name) && (b == K::Symbol || is_error_kind(b) || matches!(v[1], Cst::Compound(_))),
                "PatternBlank" | "PatternBlankSequence" | "PatternBlankNullSequence" => (a == K::Symbol || is_error_kind(a)) && (blank(b, &name[7..]) || matches!(v[1], Cst::Compound(p) if short(p.0.op.to_symbol().as_str()) == &name[7..])),
                "PatternOptionalDefault" => a == K::Symbol && b == K::UnderDot,
                "Slot" => a == K::Hash && matches!(b, K::Integer | K::String),
                "SlotSequence" => a == K::HashHash && b == K::Integer,
                "Out" => matches!(a, K::Percent | K::PercentPercent) && b == K::Integer,
                _ => false }, 3437);
            shape(v[1]);
        },
        8 | 9 => group(&v, name, form == 8),
        _ => { check(n >= 1, 3438); for x in &v { shape(x) } },
    }
}
/// what may stand before a colon: 1 a symbol (a:b is a pattern), 2 a pattern (a_:b has a default)
fn colon_lhs(c: &C) -> u8 {
    match c {
        Cst::Token(t) => match t.tok { K::Symbol => 1, K::Under | K::UnderUnder | K::UnderUnderUnder => 2, k if is_error_kind(k) => 1, _ => 0 },
        Cst::Compound(n) => if short(n.0.op.to_symbol().as_str()).starts_with("Blank") || short(n.0.op.to_symbol().as_str()).starts_with("PatternBlank") { 2 } else { 0 },
        Cst::Binary(n) => if short(n.0.op.to_symbol().as_str()) == "Pattern" { 2 } else { 0 },
        _ => 0,
    }
}
fn integral(t: K) -> &'static str {
    match t { K::LongName_Integral => "Integral", K::LongName_ContourIntegral => "ContourIntegral", K::LongName_DoubleContourIntegral => "DoubleContourIntegral", K::LongName_ClockwiseContourIntegral => "ClockwiseContourIntegral", K::LongName_CounterClockwiseContourIntegral => "CounterClockwiseContourIntegral", _ => "" }
}
fn is_triv(c: &C) -> bool { matches!(c, Cst::Token(t) if is_trivia(t.tok)) }
/// opener, contents, closer of one kind
fn group(v: &[&C], name: &str, closed: bool) {
    if v.len() < 1 + closed as usize { return check(false, 3440); }
    let o = tk(v[0]);
    check(matches!((name, o), ("GroupParen", K::OpenParen) | ("GroupSquare", K::OpenSquare) | ("List", K::OpenCurly) | ("Association", K::LessBar | K::LongName_LeftAssociation) | ("GroupTypeSpecifier", K::ColonColonOpenSquare) | ("AngleBracket", K::LongName_LeftAngleBracket)
        | ("Ceiling", K::LongName_LeftCeiling) | ("Floor", K::LongName_LeftFloor) | ("GroupDoubleBracket", K::LongName_LeftDoubleBracket) | ("BracketingBar", K::LongName_LeftBracketingBar) | ("DoubleBracketingBar", K::LongName_LeftDoubleBracketingBar)
        | ("CurlyQuote", K::LongName_OpenCurlyQuote) | ("CurlyDoubleQuote", K::LongName_OpenCurlyDoubleQuote)), 3441);
    let inner = if closed { check(closer_of(o) == Some(tk(v[v.len() - 1])), 3442); &v[1..v.len() - 1] } else { return }; // what follows an opener without closer may be kept as plain tokens
    shape_seq(inner);
}
fn c34() {
    let j = job();
    let r = parse_bytes_cst_seq(&j.inputs[0], &options(j.opts));
    if r.unsafe_character_encoding.is_some() { return; }
    reach(1);
    let v: Vec<&C> = r.syntax.0.iter().filter(|c| !is_triv(c)).collect();
    shape_seq(&v);
}

// ------------------------------------------------------------ C35
type Want = (issue::IssueTag, issue::Severity, usize, usize);
/// The issues that an input without backslashes, control and non-ASCII characters calls for (offsets).
fn wanted(v: &[u8], l: &[&Token<TokenStr>]) -> Vec<Want> {
    use issue::{IssueTag as T, Severity as S};
    let mut w: Vec<Want> = Vec::new();
    for (n, t) in l.iter().enumerate() {
        let x = t.input.as_bytes();
        if x.is_empty() { continue; }
        let b = offset(v, t);
        let e = b + x.len();
        let c = v.get(e).copied().unwrap_or(0);
        let before = l[..n].iter().rev().find(|t| !t.input.as_bytes().is_empty()).map(|t| t.tok);
        let slot = before == Some(K::Hash);
        // (text directly after # and the tag and file operators is read in another mode: no claim)
        if !matches!(before, Some(K::Hash | K::ColonColon | K::LessLess | K::GreaterGreater | K::GreaterGreaterGreater)) {
            for i in b..e { if v[i] == b'\r' && v.get(i + 1) != Some(&b'\n') { w.push((T::UnexpectedCarriageReturn, S::Warning, i + 1, i + 1)); } }
        }
        let mut space = |at: usize| w.push((T::Ambiguous, S::Formatting, at, at));
        match t.tok {
            K::PlusPlus | K::BarGreater if c == b'=' => space(e),
            K::Error_UnexpectedCloser if x == b"|>" && c == b'=' => space(e),
            K::MinusMinus if c == b'=' => space(e),
            K::MinusMinus if c == b'>' => w.push((T::Ambiguous, S::Error, b, e)),
            K::UnderDot if c == b'.' => w.push((T::UnexpectedDot, S::Error, e, e)),
            K::Equal if c == b'!' => space(e),
            K::Less | K::Bar if c == b'-' => space(e),
            K::Slash if c == b'.' => space(e),
            K::Integer if matches!(before, Some(K::Hash | K::HashHash | K::Percent | K::PercentPercent)) => if c == b'.' { space(e) },
            _ if x[0].is_ascii_digit() && !x.ends_with(b"*^") || x[0] == b'.' && matches!(t.tok, K::Real) => { // numbers, also malformed ones
                let fraction = x.iter().rev().position(|c| !c.is_ascii_alphanumeric()).map_or(false, |p| p > 0 && x[x.len() - 1 - p] == b'.');
                let last = x[x.len() - 1];
                if c == b'.' && fraction { w.push((T::UnexpectedImplicitTimes, S::Error, e, e)); }
                else if c == b'.' && v.get(e + 1) == Some(&b'.') && last != b'.' || last == b'`' && matches!(c, b'+' | b'-' | b'.') { w.push((T::Ambiguous, S::Formatting, e, e)); }
                if let Some(p) = x.iter().position(|&c| c == b'`') { if p + 1 < x.len() && matches!(x[p + 1], b'+' | b'-') { w.push((T::UnexpectedSign, S::Warning, b + p + 1, b + p + 1)); } }
            },
            K::String | K::Symbol | K::Error_UnterminatedString | K::Error_ExpectedLetterlike if slot => {
                if x[0] == b'"' { w.push((T::UndocumentedSlotSyntax, S::Warning, b, b + 1)); }
                else { for (i, &c) in x.iter().enumerate() {
                    if c == b'$' { w.push((T::UndocumentedSlotSyntax, S::Warning, b + i, b + i + 1)); }
                    if c == b'`' { w.push((T::UndocumentedSlotSyntax, S::Warning, b, b + i + 1)); }
                } }
            },
            _ => (),
        }
    }
    w
}
/// Which issues there are, and where.
fn c35() {
    let j = job();
    let v = &j.inputs[0];
    let r = parse_bytes_cst_seq(v, &options(j.opts));
    if r.unsafe_character_encoding.is_some() { return; }
    let l = seq_leaves(&r.syntax);
    let mut w = wanted(v, &l);
    let at = |o: usize| { let mut w = Walker::new(tab_width(j.opts)); w.feed(&v[..o]); w.at(char_index(j.opts)) };
    let has: Vec<(issue::IssueTag, issue::Severity, Pos, Pos)> = r.non_fatal_issues.iter().map(|i| { let source::Source::Span(s) = i.src else { return (i.tag, i.sev, (0, 0), (0, 0)) }; let (a, b) = span(s); (i.tag, i.sev, a, b) }).collect();
    check(r.fatal_issues.is_empty(), 3500);
    reach(1);
    for x in &w { reach(2 + x.0 as u64); check(has.contains(&(x.0, x.1, at(x.2), at(x.3))), 3501); }
    for (i, &c) in v.iter().enumerate() { if c == b'\r' && v.get(i + 1) != Some(&b'\n') { w.push((issue::IssueTag::UnexpectedCarriageReturn, issue::Severity::Warning, i + 1, i + 1)); } }
    // (1`-. : the sign may be taken for that of a precision before the number is cut back: no claim)
    for i in 0..v.len() { if i > 0 && i + 1 < v.len() && v[i - 1] == b'`' && matches!(v[i], b'+' | b'-') && v[i + 1] == b'.' { w.push((issue::IssueTag::UnexpectedSign, issue::Severity::Warning, i, i)); w.push((issue::IssueTag::Ambiguous, issue::Severity::Formatting, i + 1, i + 1)); } }
    for x in &has { check(w.iter().any(|w| w.0 == x.0 && w.1 == x.1 && at(w.2) == x.2 && at(w.3) == x.3), 3502); }
}
/// Applying a suggested insertion keeps the meaning and settles the issue.
fn c35a() {
    let j = job();
    let v = &j.inputs[0];
    let o = options(j.opts);
    let r = parse_bytes_ast_seq(v, &o);
    if r.unsafe_character_encoding.is_some() { return; }
    let at = |v: &[u8], o: usize| { let mut w = Walker::new(tab_width(j.opts)); w.feed(&v[..o]); w.at(char_index(j.opts)) };
    for i in &r.non_fatal_issues {
        let source::Source::Span(is) = i.src else { continue };
        for a in &i.actions {
            let issue::CodeActionKind::InsertText { insertion_text } = &a.kind else { continue };
            let p = span(a.src).0;
            let Some(n) = (0..=v.len()).find(|n| at(v, *n) == p) else { return check(false, 3510) };
            reach(101);
            if insertion_text == "*" && !v.get(n + 1).map_or(false, |c| c.is_ascii_digit()) { continue; } // 1.2.a is a product only if digits follow
            let mut e = v[..n].to_vec();
            e.extend_from_slice(insertion_text.as_bytes());
            e.extend_from_slice(&v[n..]);
            let q = parse_bytes_ast_seq(&e, &o);
            reach(100);
            check(same(&ast_bytes(&q.syntax.0, SHAPE), &ast_bytes(&r.syntax.0, SHAPE)), 3511);
            check(!q.non_fatal_issues.iter().any(|k| k.tag == i.tag && k.src == source::Source::Span(is)), 3512);
        }
    }
}

/// An escape that is not recognized is reported, and nothing else is.
fn c35e() {
    let j = job();
    let v = &j.inputs[0];
    let r = parse_bytes_cst_seq(v, &options(j.opts));
    if r.unsafe_character_encoding.is_some() { return; }
    let l = seq_leaves(&r.syntax);
    let tag = |i: &issue::Issue| matches!(i.tag, issue::IssueTag::UnhandledCharacter | issue::IssueTag::UnrecognizedLongName);
    reach(200);
    for i in &r.fatal_issues { check(tag(i) && i.sev == issue::Severity::Fatal, 3520); }
    // (an escaped backslash before an unknown name in brackets is an error, not fatal)
    let at = |o: usize| { let mut w = Walker::new(tab_width(j.opts)); w.feed(&v[..o]); w.at(char_index(j.opts)) };
    let mut bs = Vec::new();
    for t in &l {
        let x = t.input.as_bytes();
        if !(t.tok == K::String && x[0] == b'"') { continue; }
        let mut n = 0;
        while n + 1 < x.len() {
            if x[n] != b'\\' { n += 1; continue; }
            if x[n + 1] == b'\\' && n + 4 < x.len() && x[n + 2] == b'[' && x[n + 3].is_ascii_uppercase() {
                let e = n + 3 + x[n + 3..].iter().take_while(|c| c.is_ascii_alphanumeric()).count();
                if x[e] == b']' && !matches!(&x[n + 3..e], b"Alpha" | b"Pi" | b"RightArrow" | b"NoBreak") { bs.push((at(offset(v, t) + n), at(offset(v, t) + e + 1))); }
            }
            n += 2;
        }
    }
    let inside = l.iter().all(|t| t.tok == K::String && t.input.as_bytes()[0] == b'"' || !t.input.as_bytes().contains(&b'\\'));
    for i in &r.non_fatal_issues {
        check(i.sev != issue::Severity::Fatal && i.tag != issue::IssueTag::UnhandledCharacter, 3521);
        if i.tag == issue::IssueTag::UnrecognizedLongName && inside { reach(206); check(i.sev == issue::Severity::Error && matches!(i.src, source::Source::Span(s) if bs.contains(&span(s))), 3527); }
    }
    for p in &bs { reach(207); check(r.non_fatal_issues.iter().filter(|i| i.tag == issue::IssueTag::UnrecognizedLongName && matches!(i.src, source::Source::Span(s) if span(s) == *p)).count() == 1, 3528); }
    // applying a suggestion settles the issue
    for i in &r.fatal_issues {
        let source::Source::Span(is) = i.src else { continue };
        for a in &i.actions {
            let (p, q) = span(a.src);
            let text = match &a.kind { issue::CodeActionKind::InsertText { insertion_text } => insertion_text, issue::CodeActionKind::ReplaceText { replacement_text } => replacement_text, _ => continue };
            let (Some(n), Some(m)) = ((0..=v.len()).find(|n| at(*n) == p), (0..=v.len()).find(|n| at(*n) == q)) else { check(false, 3529); continue };
            let mut e = v[..n].to_vec();
            e.extend_from_slice(text.as_bytes());
            e.extend_from_slice(&v[m..]);
            if text.contains("XXX") || text.contains("xxx") { continue; } // a pattern to fill in
            reach(208);
            let q = parse_bytes_cst_seq(&e, &options(j.opts));
            check(!q.fatal_issues.iter().any(|k| matches!(k.src, source::Source::Span(s) if span(s).0 == span(is).0)), 3550);
        }
    }
    for t in &l {
        let x = t.input.as_bytes();
        if t.tok == K::Error_UnhandledCharacter && x.len() > 1 && x[0] == b'\\' && !matches!(x[1], b'<' | b'>' | b'\\' | b'"' | b'b' | b'f' | b'n' | b'r' | b't' | b'\n' | b'\r')
            && ![&b"\\[RawBackslash]"[..], b"\\[RawDoubleQuote]", b"\\[LeftSkeleton]", b"\\[RightSkeleton]", b"\\[ErrorIndicator]", b"\\[SkeletonIndicator]"].contains(&x) && !(x[1..].iter().all(|c| c.is_ascii_hexdigit() || matches!(c, b'.' | b':' | b'|')) && x.len() == match x[1] { b'.' => 4, b':' => 6, b'|' => 8, _ => 4 }) { // (an escape for a character that cannot be a token)
            reach(201);
            let (a, b) = span(t.src);
            check(r.fatal_issues.iter().any(|i| matches!(i.src, source::Source::Span(s) if span(s).0 == a && (span(s).1 <= b || x[1].is_ascii_uppercase() && v[offset(v, t)..].iter().any(|c| *c == b']')))), 3522); // \Alpha] without its [ is reported whole
        }
        if matches!(t.tok, K::String) && x[0] == b'"' {
            for (n, c) in x.iter().enumerate() {
                if n == 0 || x[n - 1] != b'\\' || x[..n].iter().rev().take_while(|c| **c == b'\\').count() % 2 == 0 { continue; }
                if matches!(c, b'b' | b'f' | b'<' | b'>' | b'n' | b'r' | b't' | b'\\' | b'"') {
                    let mut w = Walker::new(tab_width(j.opts)); w.feed(&v[..offset(v, t) + n - 1]);
                    let p = w.at(char_index(j.opts));
                    let k = r.non_fatal_issues.iter().filter(|i| i.tag == issue::IssueTag::UnexpectedCharacter && i.sev == issue::Severity::Remark && matches!(i.src, source::Source::Span(s) if span(s) == (p, (p.0, p.1 + 2)))).count();
                    reach(204 + k as u64);
                    check(k == matches!(c, b'b' | b'f' | b'<' | b'>') as usize, 3526);
                }
                if c.is_ascii_alphabetic() {
                    let mut w = Walker::new(tab_width(j.opts)); w.feed(&v[..offset(v, t) + n - 1]);
                    let p = w.at(char_index(j.opts));
                    let fatal = r.fatal_issues.iter().any(|i| matches!(i.src, source::Source::Span(s) if span(s).0 == p));
                    reach(202 + fatal as u64);
                    check(fatal == !matches!(c, b'b' | b'f' | b'n' | b'r' | b't'), 3523);
                }
            }
        }
    }
    for i in &r.fatal_issues {
        let source::Source::Span(s) = i.src else { check(false, 3524); continue };
        check(l.iter().any(|t| t.tok == K::Error_UnhandledCharacter && span(t.src).0 <= span(s).0 && span(s).0 < span(t.src).1 || matches!(t.tok, K::String | K::Error_UnterminatedString | K::Error_UnterminatedFileString) && { let (a, b) = span(t.src); let (c, d) = span(s); a < c && d <= b }), 3525);
    }
}

/// Characters written as such that are not printable ASCII, a tab or a newline: the ones reported, and where.
fn c35c() {
    use issue::{IssueTag as T, Severity as S};
    let j = job();
    let v = &j.inputs[0];
    let o = options(j.opts);
    let boxes = j.opts >> 3 & 1 == 1;
    let r = parse_bytes_cst_seq(v, &o);
    if r.unsafe_character_encoding.is_some() { return; }
    let l = seq_leaves(&r.syntax);
    let mut w: Vec<(T, S, (Pos, Pos))> = Vec::new();
    let mut wt: Vec<(T, S, (Pos, Pos))> = Vec::new();
    let mut p = Walker::new(tab_width(j.opts));
    for (at, t) in l.iter().enumerate() {
        let x = t.input.as_bytes();
        if x.is_empty() { continue; }
        let n_tag = at > 0 && l[at - 1].tok == K::ColonColon;
        let text = matches!(t.tok, K::Comment | K::Error_UnterminatedComment) || matches!(t.tok, K::String | K::Error_UnterminatedString | K::Error_UnterminatedFileString) && x[0] == b'"';
        let s = std::str::from_utf8(x).unwrap_or("");
        for (n, c) in s.char_indices() {
            let a = p.at(char_index(j.opts));
            p.feed(&x[n..n + c.len_utf8()]);
            let sp = (a, p.at(char_index(j.opts)));
            let strange = c != '\t' && c != '\n' && c != '\r' && c < ' ' || c >= '\x7f' && c <= '\u{9f}' || STRANGE.contains(&c) || c >= '\u{f0000}' && (c as u32) & 0xffff <= 0xfffd;
            if t.tok == K::String && !text && n_tag && c >= '\u{3b1}' && c <= '\u{3c9}' && c != '\u{3c2}' {
                reach(408);
                check(r.non_fatal_issues.iter().filter(|i| i.tag == T::UnexpectedCharacter && i.sev == S::Warning && matches!(i.src, source::Source::Span(s) if span(s) == sp)).count() == 1, 3549);
            }
            // as a letter, a control character or one from a script without names is strange
            if t.tok == K::Symbol && (c < ' ' && c != '\t' && c != '\n' && c != '\r' || c >= '\u{4e00}' && c <= '\u{9fff}' || c >= '\u{20000}' && c <= '\u{2ffff}') {
                reach(407);
                check(r.non_fatal_issues.iter().filter(|i| i.tag == T::UnexpectedLetterlikeCharacter && matches!(i.src, source::Source::Span(s) if span(s) == sp)).count() == 1, 3548);
            }
            if strange && !(!text && matches!(c, '\x0b' | '\x0c' | '\u{f3a2}')) { reach(401 + text as u64); w.push((T::UnexpectedCharacter, if text { S::Remark } else { S::Warning }, sp)) }
            else if c > '\x7f' && !strange && !boxes { reach(403); w.push((T::NonASCIICharacter, S::Remark, sp)) }
        }
        let raw = matches!(x, b"\\[RawTab]" | b"\\[RawSpace]" | b"\\[NewLine]" | b"\\[RawReturn]" | b"\\[SpaceIndicator]"); // a tab, blank or newline by name
        if x[0] == b'\\' && (!x.starts_with(b"\\[") || raw) { continue; }
        if t.tok == K::Whitespace && !matches!(x, b" " | b"\t") { reach(404); wt.push((T::UnexpectedSpaceCharacter, S::Warning, span(t.src))) }
        if matches!(t.tok, K::ToplevelNewline | K::InternalNewline) && !matches!(x, b"\n" | b"\r" | b"\r\n") { reach(405); wt.push((T::UnexpectedNewlineCharacter, S::Warning, span(t.src))) }
    }
    reach(400);
    let (mut h, mut ht) = (Vec::new(), Vec::new());
    for i in &r.non_fatal_issues {
        let source::Source::Span(s) = i.src else { check(false, 3540); continue };
        let k = (i.tag, i.sev, span(s));
        if short(i.make_sym.as_str()) == "EncodingIssue" { if i.tag != T::UnexpectedCarriageReturn { h.push(k) } }
        else if matches!(i.tag, T::UnexpectedSpaceCharacter | T::UnexpectedNewlineCharacter) { ht.push(k) }
        else if i.tag == T::UnexpectedLetterlikeCharacter {
            reach(406);
            check(k.2.0 < k.2.1 && i.sev == S::Warning && l.iter().any(|t| span(t.src).0 <= k.2.0 && k.2.1 <= span(t.src).1 && !t.input.as_bytes().iter().all(|c| c.is_ascii_alphanumeric() || *c == b'$' || *c == b'`')), 3541);
        }
    }
    for k in &w { check(h.contains(k), 3542); }
    for (n, k) in h.iter().enumerate() { check(w.contains(k), 3543); check(!h[..n].contains(k), 3544); }
    for k in &wt { check(ht.contains(k), 3545); }
    for (n, k) in ht.iter().enumerate() { check(wt.contains(k) || l.iter().any(|t| span(t.src) == k.2 && t.input.as_bytes()[0] == b'\\' && matches!(t.tok, K::Whitespace | K::ToplevelNewline | K::InternalNewline)), 3546); check(!ht[..n].contains(k), 3547); }
}
const STRANGE: [char; 15] = ['\u{200b}', '\u{200c}', '\u{200d}', '\u{2018}', '\u{2019}', '\u{201c}', '\u{201d}', '\u{2061}', '\u{2063}', '\u{2064}', '\u{2192}', '\u{279d}', '\u{29f4}', '\u{f3a2}', '\u{f76d}'];

/// The issues of the abstract tree: prefix !! and message names of more than three parts.
fn c35m() {
    let j = job();
    let v = &j.inputs[0];
    let o = options(j.opts);
    let r = parse_bytes_cst_seq(v, &o);
    if r.unsafe_character_encoding.is_some() { return; }
    let a = parse_bytes_ast_seq(v, &o);
    if a.syntax.0.iter().any(ast_has_error) { return; }
    let mut w: Vec<(issue::IssueTag, issue::Severity, (Pos, Pos))> = Vec::new();
    for c in &r.syntax.0 {
        any_node(c, &mut |c| {
            if let Cst::Prefix(n) = c { if let Cst::Token(t) = &n.0.children.0[0] { if t.tok == K::BangBang { w.push((issue::IssueTag::PrefixNotNot, issue::Severity::Warning, span(t.src))); } } }
            if let Cst::Infix(n) = c {
                let k = n.0.children.0.iter().filter(|c| matches!(c, Cst::Token(t) if t.tok == K::ColonColon)).count();
                if short(n.0.op.to_symbol().as_str()) == "MessageName" && k > 2 { let mut l = Vec::new(); leaves(c, &mut l); w.push((issue::IssueTag::SyntaxUndocumentedMessageName, issue::Severity::Error, (span(l[0].src).0, span(l[l.len() - 1].src).1))); }
            }
            if let Cst::Call(n) = c { if let Some(x) = strange_call(n) { w.push(x) } }
            false
        });
    }
    let mut has = Vec::new();
    for x in &a.syntax.0 { ast_issues(x, &mut has); }
    reach(300);
    for x in &w { reach(301 + (x.0 == issue::IssueTag::PrefixNotNot) as u64); check(has.contains(x), 3531); }
    for x in &has { check(w.contains(x), 3532); }
}
fn ast_issues(a: &ast::Ast, out: &mut Vec<(issue::IssueTag, issue::Severity, (Pos, Pos))>) {
    for i in &meta(a).issues { if let source::Source::Span(s) = i.src { out.push((i.tag, i.sev, span(s))) } else { check(false, 3530) } }
    ast_kids(a, &mut |k| ast_issues(k, out));
}

/// A call of something that is no head: ##, a number, an operator expression ...
fn strange_call(n: &cst::CallNode<TokenStr<'_>, wolfram_parser::source::Span>) -> Option<(issue::IssueTag, issue::Severity, (Pos, Pos))> {
    use issue::{IssueTag as T, Severity as S};
    let h = head_seq(n).iter().find(|c| !is_triv(c))?;
    let b: Vec<&C> = body_seq(n).iter().filter(|c| !is_triv(c)).collect();
    let Cst::Token(open) = b[0] else { return None };
    let op = short(n.body.as_op().op.to_symbol().as_str());
    let double = op == "GroupDoubleBracket" || op == "GroupSquare" && b.len() == 3 && matches!(b[1], Cst::Group(g) if short(g.0.op.to_symbol().as_str()) == "GroupSquare");
    let (form, name) = match h {
        Cst::Token(t) => (0, t.tok), Cst::Call(_) => return if op == "GroupTypeSpecifier" { let mut l = Vec::new(); leaves(h, &mut l); Some((T::StrangeCall, S::Error, (span(l[0].src).0, span(l[l.len() - 1].src).1))) } else { None }, _ => (1, K::EndOfFile),
    };
    let hop = match h { Cst::Prefix(n) => n.0.op.to_symbol().as_str(), Cst::Postfix(n) => n.0.op.to_symbol().as_str(), Cst::Binary(n) => n.0.op.to_symbol().as_str(), Cst::Infix(n) => n.0.op.to_symbol().as_str(), Cst::Compound(n) => n.0.op.to_symbol().as_str(), Cst::Group(n) => n.0.op.to_symbol().as_str(), _ => "" };
    let hop = short(hop);
    if op == "GroupTypeSpecifier" {
        if name == K::String { return None; }
        let mut l = Vec::new(); leaves(h, &mut l);
        return Some((T::StrangeCall, S::Error, (span(l[0].src).0, span(l[l.len() - 1].src).1)));
    }
    let at = span(open.src);
    if name == K::HashHash || hop == "SlotSequence" { return Some((T::StrangeCallSlotSequence, S::Error, at)); }
    if form == 0 && matches!(name, K::Symbol | K::Hash | K::Under | K::UnderUnder | K::UnderUnderUnder | K::Percent | K::PercentPercent) || name == K::String && !double { return None; }
    match h {
        Cst::Compound(_) if matches!(hop, "Blank" | "BlankSequence" | "BlankNullSequence" | "PatternBlank" | "PatternBlankSequence" | "PatternBlankNullSequence" | "Slot" | "Out") => return None,
        Cst::Group(_) => return if matches!(hop, "GroupParen" | "List" | "Association") { None } else { Some((T::StrangeCall, S::Warning, at)) },
        Cst::Binary(_) if hop == "PatternTest" && !double => return None,
        Cst::Postfix(_) if matches!(hop, "Function" | "Derivative") && !double || hop == "Transpose" && double => return None,
        Cst::Infix(_) if hop == "CompoundExpression" => return Some((T::StrangeCall, if double { S::Remark } else { S::Warning }, at)),
        Cst::Prefix(_) if hop == "PrefixLinearSyntaxBang" && double => return Some((T::StrangeCall, S::Remark, at)),
        Cst::Token(t) if t.tok == K::LinearSyntaxBlob && double => return Some((T::StrangeCall, S::Remark, at)),
        _ => (),
    }
    Some((T::StrangeCall, S::Error, at))
}

// ------------------------------------------------------------ C36
/// inputs: text before, text with something left open, line end, next lines; extra: do these start a new statement?
fn c36() {
    let j = job();
    let o = options(j.opts);
    let stmt = param(j.extra + 1) == 1;
    let (pre, body, nl, next) = (&j.inputs[0], &j.inputs[1], &j.inputs[2], &j.inputs[3]);
    let mut v: Vec<u8> = Vec::with_capacity(64);
    for p in [pre, body, nl, next] { v.extend_from_slice(p); }
    let start = pre.len();
    let mut end = if stmt { start + body.len() } else { v.len() };
    while end > start && matches!(v[end - 1], b'\n' | b'\r') { end -= 1; }
    let ci = char_index(j.opts);
    // by character the end of that line belongs to it
    let mut stop = end;
    if ci && stop < v.len() { stop += if v[stop] == b'\r' && stop + 1 < v.len() && v[stop + 1] == b'\n' { 2 } else { 1 }; }
    let mut w = Walker::new(tab_width(j.opts));
    w.feed(&v[..start]);
    let from = w.at(ci);
    w.feed(&v[start..stop]);
    let to = w.at(ci);
    let r = parse_bytes_cst_seq(&v, &o);
    let l = seq_leaves(&r.syntax);
    if matches!(body[0], b'"' | b'\\') || body.len() > 1 && body[0] == b'(' && body[1] == b'*' {
        let toks = tokenize_bytes(&v, &o).unwrap().0;
        for (i, t) in [l.iter().map(|t| (*t).clone()).find(|t| unterminated(t.tok)), toks.into_iter().find(|t| unterminated(t.tok))].into_iter().enumerate() {
            let b = 3600 + 10 * i as u64;
            match t {
                None => check(false, b + 1),
                Some(t) => {
                    reach(if stmt { 1 } else { 2 });
                    check(offset(&v, &t) == start && t.input.as_bytes().len() == stop - start, b + 2);
                    check(span(t.src) == (from, to), b + 3);
                },
            }
        }
    } else {
        // a bracket left open keeps the tokens up to there, in order, and nothing after
        check(r.syntax.0.iter().any(|c| any_node(c, &mut |c| matches!(c, Cst::GroupMissingCloser(_)) || matches!(c, Cst::Call(k) if matches!(k.body, CallBody::GroupMissingCloser(_))))), 3604);
        let kept = tokenize_bytes(&v[..end], &o).unwrap().0;
        let mut at = kept.iter().filter(|t| !is_trivia(t.tok));
        reach(if stmt { 3 } else { 4 });
        for t in l.iter().filter(|t| !is_trivia(t.tok) && !t.input.as_bytes().is_empty()) {
            match at.next() {
                None => { check(false, 3605); return; }
                Some(k) => check(span(k.src) == span(t.src) && same(k.input.as_bytes(), t.input.as_bytes()), 3606),
            }
        }
        check(at.next().is_none(), 3607);
    }
}
