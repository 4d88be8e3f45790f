//! Options decoding, tree walking and serialisation shared by the oracles.
use wolfram_parser::{
    ast::{Ast, AstMetadata},
    cst::*,
    issue::Issue,
    source::{LineColumn, Location, Source, SourceConvention, Span},
    tokenize::{Token, TokenInput, TokenKind},
    EncodingMode, FirstLineBehavior, NodeSeq, ParseOptions, QuirkSettings,
};

/// bits 0-1 first line behaviour, 2 character-index convention, 3 Box encoding,
/// 4-7 tab width (0 = default 4), 8 flatten_times, 9 NOT infix_binary_at, 10 old_at_at_at
pub fn options(o: u64) -> ParseOptions {
    let flb = match o & 3 { 0 => FirstLineBehavior::NotScript, 1 => FirstLineBehavior::Check, _ => FirstLineBehavior::Script };
    let conv = if o >> 2 & 1 == 1 { SourceConvention::CharacterIndex } else { SourceConvention::LineColumn };
    let enc = if o >> 3 & 1 == 1 { EncodingMode::Box } else { EncodingMode::Normal };
    let tw = match (o >> 4) & 15 { 0 => 4, t => t as u32 };
    let q = QuirkSettings::default().flatten_times(o >> 8 & 1 == 1).infix_binary_at(o >> 9 & 1 == 0).old_at_at_at(o >> 10 & 1 == 1);
    ParseOptions::make(flb, conv, enc, tw, q)
}
pub fn tab_width(o: u64) -> u32 { match (o >> 4) & 15 { 0 => 4, t => t as u32 } }
pub fn char_index(o: u64) -> bool { o >> 2 & 1 == 1 }

/// (major, minor): (line, column) or (0, character index)
pub type Pos = (u32, u32);
pub fn pos(l: Location) -> Pos {
    match l {
        Location::LineColumn(LineColumn(l, c)) => (l.get(), c.get()),
        Location::CharacterIndex(i) => (0, i),
    }
}
pub fn span(s: Span) -> (Pos, Pos) { (pos(s.start()), pos(s.end())) }

/// Children of a node, in source order (call: head parts, then body's children are under `Call` itself).
pub enum Kids<'a, I, S> { Leaf(&'a Token<I, S>), Seq(&'a [Cst<I, S>]), Call(&'a CallNode<I, S>), Other }
pub fn kids<I, S>(c: &Cst<I, S>) -> Kids<'_, I, S> {
    match c {
        Cst::Token(t) => Kids::Leaf(t),
        Cst::Call(c) => Kids::Call(c),
        Cst::SyntaxError(n) => Kids::Seq(&n.children.0),
        Cst::Prefix(n) => Kids::Seq(&n.0.children.0),
        Cst::Infix(n) => Kids::Seq(&n.0.children.0),
        Cst::Postfix(n) => Kids::Seq(&n.0.children.0),
        Cst::Binary(n) => Kids::Seq(&n.0.children.0),
        Cst::Ternary(n) => Kids::Seq(&n.0.children.0),
        Cst::PrefixBinary(n) => Kids::Seq(&n.0.children.0),
        Cst::Compound(n) => Kids::Seq(&n.0.children.0),
        Cst::Group(n) => Kids::Seq(&n.0.children.0),
        Cst::GroupMissingCloser(n) => Kids::Seq(&n.0.children.0),
        Cst::GroupMissingOpener(n) => Kids::Seq(&n.0.children.0),
        Cst::Box(n) => Kids::Seq(&n.children.0),
        Cst::Code(_) => Kids::Other,
    }
}
pub fn head_seq<I, S>(c: &CallNode<I, S>) -> &[Cst<I, S>] {
    match &c.head { CallHead::Concrete(s) => &s.0, CallHead::Aggregate(b) => std::slice::from_ref(&**b) }
}
pub fn body_seq<I, S>(c: &CallNode<I, S>) -> &[Cst<I, S>] { &c.body.as_op().children.0 }

pub fn leaves<'a, I, S>(c: &'a Cst<I, S>, out: &mut Vec<&'a Token<I, S>>) {
    match kids(c) {
        Kids::Leaf(t) => out.push(t),
        Kids::Seq(s) => for k in s { leaves(k, out) },
        Kids::Call(c) => { for k in head_seq(c) { leaves(k, out) } for k in body_seq(c) { leaves(k, out) } },
        Kids::Other => (),
    }
}
pub fn seq_leaves<'a, I, S>(s: &'a NodeSeq<Cst<I, S>>) -> Vec<&'a Token<I, S>> {
    let mut v = Vec::new();
    for c in &s.0 { leaves(c, &mut v) }
    v
}

/// Is there an unterminated construct (whose tail the parser documents it drops)?
pub fn any_node<I, S>(c: &Cst<I, S>, f: &mut dyn FnMut(&Cst<I, S>) -> bool) -> bool {
    if f(c) { return true; }
    match kids(c) {
        Kids::Leaf(_) | Kids::Other => false,
        Kids::Seq(s) => s.iter().any(|k| any_node(k, f)),
        Kids::Call(c) => head_seq(c).iter().any(|k| any_node(k, f)) || body_seq(c).iter().any(|k| any_node(k, f)),
    }
}
pub fn call_missing_closer<I, S>(c: &Cst<I, S>) -> bool {
    matches!(c, Cst::Call(CallNode { body: CallBody::GroupMissingCloser(_), .. }))
}

//---------------------------------------------------------------- serialisation
fn w16(out: &mut Vec<u8>, v: u16) { out.push(v as u8); out.push((v >> 8) as u8); }
fn w32(out: &mut Vec<u8>, v: u32) { w16(out, v as u16); w16(out, (v >> 16) as u16); }
fn wbytes(out: &mut Vec<u8>, b: &[u8]) { w32(out, b.len() as u32); out.extend_from_slice(b); }
pub fn wpos(out: &mut Vec<u8>, p: Pos) { w32(out, p.0); w32(out, p.1); }
pub fn ser_source(out: &mut Vec<u8>, s: &Source) {
    match s {
        Source::Span(s) => { out.push(1); let (a, b) = span(*s); wpos(out, a); wpos(out, b); },
        Source::Box(_) => out.push(2),
        Source::Unknown => out.push(3),
    }
}
pub fn kind_id(k: TokenKind) -> u16 { k.bits() }

#[derive(Copy, Clone)]
pub struct SerOpts { pub spans: bool, pub issues: bool, pub nl: bool, pub strip: bool }
pub const FULL: SerOpts = SerOpts { spans: true, issues: true, nl: true, strip: false };
pub const SHAPE: SerOpts = SerOpts { spans: false, issues: false, nl: true, strip: false };
pub const STRIPPED: SerOpts = SerOpts { spans: true, issues: true, nl: true, strip: true };
pub fn is_trivia(k: TokenKind) -> bool { matches!(k, TokenKind::Whitespace | TokenKind::Comment | TokenKind::InternalNewline | TokenKind::ToplevelNewline | TokenKind::Boxes_MultiWhitespace) }

fn ser_meta(out: &mut Vec<u8>, m: &AstMetadata, o: SerOpts) {
    if o.spans { ser_source(out, &m.source); }
    if o.issues { w16(out, m.issues.len() as u16); for i in &m.issues { ser_issue(out, i); } }
}
pub fn ser_issue(out: &mut Vec<u8>, i: &Issue) {
    out.push(i.tag as u8);
    out.push(i.sev as u8);
    wbytes(out, i.msg.as_bytes());
    ser_source(out, &i.src);
    let v = i.val.to_bits();
    w32(out, v as u32);
    w32(out, (v >> 32) as u32);
    w16(out, i.actions.len() as u16);
    for a in &i.actions {
        wbytes(out, a.label.as_bytes());
        let (s, e) = span(a.src);
        wpos(out, s);
        wpos(out, e);
        match &a.kind {
            wolfram_parser::issue::CodeActionKind::ReplaceText { replacement_text } => { out.push(1); wbytes(out, replacement_text.as_bytes()) },
            wolfram_parser::issue::CodeActionKind::InsertText { insertion_text } => { out.push(2); wbytes(out, insertion_text.as_bytes()) },
            wolfram_parser::issue::CodeActionKind::DeleteText => out.push(3),
        }
    }
    w16(out, i.additional_descriptions.len() as u16);
    w16(out, i.additional_sources.len() as u16);
    for s in &i.additional_sources { ser_source(out, s); }
}
pub fn ser_asts(out: &mut Vec<u8>, v: &[Ast], o: SerOpts) { w16(out, v.len() as u16); for a in v { ser_ast(out, a, o); } }
pub fn ser_ast(out: &mut Vec<u8>, a: &Ast, o: SerOpts) {
    match a {
        Ast::Leaf { kind, input, data } => { out.push(1); w16(out, kind_id(*kind)); wbytes(out, &input.buf); ser_meta(out, data, o) },
        Ast::Error { kind, input, data } => { out.push(2); w16(out, kind_id(*kind)); wbytes(out, &input.buf); ser_meta(out, data, o) },
        Ast::Call { head, args, data } => { out.push(3); ser_ast(out, head, o); ser_asts(out, args, o); ser_meta(out, data, o) },
        Ast::CallMissingCloser { head, args, data } => { out.push(4); ser_ast(out, head, o); ser_asts(out, args, o); ser_meta(out, data, o) },
        Ast::SyntaxError { kind, children, data } => { out.push(5); out.push(kind.clone() as u8); ser_asts(out, children, o); ser_meta(out, data, o) },
        Ast::AbstractSyntaxError { kind, args, data } => { out.push(6); wbytes(out, kind.as_str().as_bytes()); ser_asts(out, args, o); ser_meta(out, data, o) },
        Ast::Box { kind, args, data } => { out.push(7); wbytes(out, kind.as_str().as_bytes()); ser_asts(out, args, o); ser_meta(out, data, o) },
        Ast::Code { data, .. } => { out.push(8); ser_meta(out, data, o) },
        Ast::Group { kind, children, data } => { out.push(9); out.push(*kind as u8); ser_ast(out, &children.0, o); ser_ast(out, &children.1, o); ser_ast(out, &children.2, o); ser_meta(out, data, o) },
        Ast::GroupMissingCloser { kind, children, data } => { out.push(10); out.push(*kind as u8); ser_asts(out, children, o); ser_meta(out, data, o) },
        Ast::GroupMissingOpener { kind, children, data } => { out.push(11); out.push(*kind as u8); ser_asts(out, children, o); ser_meta(out, data, o) },
        Ast::TagBox_GroupParen { data, .. } => { out.push(12); ser_meta(out, data, o) },
        Ast::PrefixNode_PrefixLinearSyntaxBang(b, data) => { out.push(13); ser_ast(out, &b[0], o); ser_ast(out, &b[1], o); ser_meta(out, data, o) },
    }
}
pub fn meta(a: &Ast) -> &AstMetadata {
    match a {
        Ast::Leaf { data, .. } | Ast::Error { data, .. } | Ast::Call { data, .. } | Ast::CallMissingCloser { data, .. }
        | Ast::SyntaxError { data, .. } | Ast::AbstractSyntaxError { data, .. } | Ast::Box { data, .. } | Ast::Code { data, .. }
        | Ast::Group { data, .. } | Ast::GroupMissingCloser { data, .. } | Ast::GroupMissingOpener { data, .. }
        | Ast::TagBox_GroupParen { data, .. } | Ast::PrefixNode_PrefixLinearSyntaxBang(_, data) => data,
    }
}
pub fn ast_kids<'a>(a: &'a Ast, f: &mut dyn FnMut(&'a Ast)) {
    match a {
        Ast::Leaf { .. } | Ast::Error { .. } | Ast::Code { .. } => (),
        Ast::Call { head, args, .. } | Ast::CallMissingCloser { head, args, .. } => { f(head); for x in args { f(x) } },
        Ast::SyntaxError { children, .. } | Ast::GroupMissingCloser { children, .. } | Ast::GroupMissingOpener { children, .. } => for x in children { f(x) },
        Ast::AbstractSyntaxError { args, .. } | Ast::Box { args, .. } => for x in args { f(x) },
        Ast::Group { children, .. } => { f(&children.0); f(&children.1); f(&children.2) },
        Ast::TagBox_GroupParen { group, .. } => { f(&group.0); f(&group.1); f(&group.2) },
        Ast::PrefixNode_PrefixLinearSyntaxBang(b, _) => { f(&b[0]); f(&b[1]) },
    }
}
/// the token kinds that stand for an error (the Error` ones of the token table)
pub fn is_error(k: TokenKind) -> bool {
    use TokenKind as K;
    matches!(k, K::Error_Aborted | K::Error_ExpectedEqual | K::Error_ExpectedFile | K::Error_ExpectedLetterlike | K::Error_ExpectedOperand | K::Error_ExpectedTag | K::Error_InfixImplicitNull | K::Error_Number | K::Error_PrefixImplicitNull | K::Error_UnexpectedCloser | K::Error_UnexpectedCommentCloser | K::Error_UnhandledCharacter | K::Error_UnsafeCharacterEncoding | K::Error_UnsupportedToken | K::Error_UnterminatedComment | K::Error_UnterminatedFileString | K::Error_UnterminatedLinearSyntaxBlob | K::Error_UnterminatedString)
}
pub fn ast_walk<'a>(a: &'a Ast, f: &mut dyn FnMut(&'a Ast)) { f(a); ast_kids(a, &mut |k| ast_walk(k, f)) }
pub fn ast_has_error(a: &Ast) -> bool {
    match a {
        Ast::Error { .. } | Ast::CallMissingCloser { .. } | Ast::SyntaxError { .. } | Ast::AbstractSyntaxError { .. }
        | Ast::GroupMissingCloser { .. } | Ast::GroupMissingOpener { .. } => true,
        Ast::Leaf { kind, .. } => is_error(*kind),
        _ => { let mut r = false; ast_kids(a, &mut |k| r = r || ast_has_error(k)); r },
    }
}

pub fn ser_cst<I: TokenInput>(out: &mut Vec<u8>, c: &Cst<I, Span>, o: SerOpts) {
    let mut tag = |t: u8, op: u16| { out.push(t); w16(out, op); };
    match c {
        Cst::Token(t) => {
            let k = if !o.nl && t.tok == TokenKind::InternalNewline { TokenKind::ToplevelNewline } else { t.tok };
            tag(1, kind_id(k));
            wbytes(out, t.input.as_bytes());
            if o.spans { let (a, b) = span(t.src); wpos(out, a); wpos(out, b); }
            return;
        },
        Cst::Call(n) => {
            let body = match &n.body { CallBody::Group(_) => 0, CallBody::GroupMissingCloser(_) => 0x100 };
            tag(2, n.body.as_op().op as u16 | body);
            ser_children(out, head_seq(n), o);
            ser_children(out, body_seq(n), o);
            return;
        },
        Cst::SyntaxError(n) => tag(3, n.err.clone() as u16),
        Cst::Prefix(n) => tag(4, n.0.op as u16),
        Cst::Infix(n) => tag(5, n.0.op as u16),
        Cst::Postfix(n) => tag(6, n.0.op as u16),
        Cst::Binary(n) => tag(7, n.0.op as u16),
        Cst::Ternary(n) => tag(8, n.0.op as u16),
        Cst::PrefixBinary(n) => tag(9, n.0.op as u16),
        Cst::Compound(n) => tag(10, n.0.op as u16),
        Cst::Group(n) => tag(11, n.0.op as u16),
        Cst::GroupMissingCloser(n) => tag(12, n.0.op as u16),
        Cst::GroupMissingOpener(n) => tag(13, n.0.op as u16),
        Cst::Box(_) => tag(14, 0),
        Cst::Code(_) => { tag(15, 0); return },
    }
    if let Kids::Seq(s) = kids(c) { ser_children(out, s, o) }
}
fn ser_children<I: TokenInput>(out: &mut Vec<u8>, s: &[Cst<I, Span>], o: SerOpts) {
    w16(out, s.iter().filter(|c| !(o.strip && trivia(*c))).count() as u16);
    for k in s { if !(o.strip && trivia(k)) { ser_cst(out, k, o) } }
}
pub fn ser_csts<I: TokenInput>(s: &[Cst<I, Span>], o: SerOpts) -> Vec<u8> {
    let mut v = Vec::new();
    ser_children(&mut v, s, o);
    v
}
pub fn ast_bytes(s: &[Ast], o: SerOpts) -> Vec<u8> { let mut v = Vec::new(); ser_asts(&mut v, s, o); v }

/// Byte-wise equality as one condition (no early exit, hence no extra paths).
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}

//---------------------------------------------------------------- reference positions
/// Position after `bytes` (which must be valid UTF-8), starting from `p`, computed from
/// the documented conventions only: lines end at LF, CR or CRLF; a tab advances to
/// the next tab stop; every other character is one column. `cr_pending` joins CR LF.
pub struct Walker { pub lc: (u32, u32), pub ix: u32, tab: u32, cr: bool }
impl Walker {
    pub fn new(tab: u32) -> Self { Walker { lc: (1, 1), ix: 1, tab, cr: false } }
    pub fn feed(&mut self, b: &[u8]) {
        for &c in b {
            if c & 0xC0 == 0x80 { continue; }
            self.ix += 1;
            if c == b'\n' {
                if !self.cr { self.lc = (self.lc.0 + 1, 1); }
                self.cr = false;
            } else if c == b'\r' {
                self.lc = (self.lc.0 + 1, 1);
                self.cr = true;
            } else {
                self.cr = false;
                if c == b'\t' { self.lc.1 = (self.lc.1 - 1) / self.tab * self.tab + self.tab + 1; } else { self.lc.1 += 1; }
            }
        }
    }
    pub fn at(&self, char_index: bool) -> Pos { if char_index { (0, self.ix) } else { self.lc } }
}

/// Skeleton of a CST sequence: trivia dropped, parenthesis groups with one element replaced by the element.
pub fn skel<I: TokenInput>(s: &[Cst<I, Span>]) -> Vec<u8> { let mut v = Vec::new(); skel_seq(&mut v, s); v }
fn skel_seq<I: TokenInput>(out: &mut Vec<u8>, s: &[Cst<I, Span>]) {
    out.push(b'<');
    for c in s { skel_one(out, c) }
    out.push(b'>');
}
fn trivia<I, S>(c: &Cst<I, S>) -> bool { matches!(c, Cst::Token(t) if is_trivia(t.tok)) }
fn skel_one<I: TokenInput>(out: &mut Vec<u8>, c: &Cst<I, Span>) {
    let mut tag = |t: u8, op: u16| { out.push(t); w16(out, op); };
    match c {
        Cst::Token(t) => { if !is_trivia(t.tok) { tag(1, kind_id(t.tok)); wbytes(out, t.input.as_bytes()); } return },
        Cst::Group(n) if n.0.op == wolfram_parser::parse::operators::GroupOperator::CodeParser_GroupParen => {
            let inner = &n.0.children.0;
            let k: Vec<_> = inner[1..inner.len() - 1].iter().filter(|c| !trivia(*c)).collect();
            if k.len() == 1 { return skel_one(out, k[0]); }
            tag(11, n.0.op as u16);
        },
        Cst::Call(n) => {
            let body = match &n.body { CallBody::Group(_) => 0, CallBody::GroupMissingCloser(_) => 0x100 };
            tag(2, n.body.as_op().op as u16 | body);
            skel_seq(out, head_seq(n));
            skel_seq(out, body_seq(n));
            return;
        },
        Cst::SyntaxError(n) => tag(3, n.err.clone() as u16),
        Cst::Prefix(n) => tag(4, n.0.op as u16),
        Cst::Infix(n) => tag(5, n.0.op as u16),
        Cst::Postfix(n) => tag(6, n.0.op as u16),
        Cst::Binary(n) => tag(7, n.0.op as u16),
        Cst::Ternary(n) => tag(8, n.0.op as u16),
        Cst::PrefixBinary(n) => tag(9, n.0.op as u16),
        Cst::Compound(n) => tag(10, n.0.op as u16),
        Cst::Group(n) => tag(11, n.0.op as u16),
        Cst::GroupMissingCloser(n) => tag(12, n.0.op as u16),
        Cst::GroupMissingOpener(n) => tag(13, n.0.op as u16),
        Cst::Box(_) => tag(14, 0),
        Cst::Code(_) => { tag(15, 0); return },
    }
    if let Kids::Seq(s) = kids(c) { skel_seq(out, s) }
}
