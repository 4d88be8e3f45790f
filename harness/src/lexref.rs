//! Reference lexer for ASCII source without escapes outside strings, written from the
//! documented lexical grammar (tutorial/InputSyntax, tutorial/OperatorInputForms) and
//! sharing no code with the crate.
use wolfram_parser::tokenize::TokenKind::{self, *};

/// What the grammar says of the token at some offset.
pub enum Ref {
    /// exactly this token
    Tok(TokenKind, usize),
    /// a token of this (error) kind; its extent is not specified, so the comparison ends here
    Kind(TokenKind),
    /// outside the reference grammar
    Stop,
}
fn at(b: &[u8], i: usize) -> u8 { if i < b.len() { b[i] } else { 0xff } }
fn digit(c: u8) -> bool { c >= b'0' && c <= b'9' }
/// value of a digit of some base; 99 if the byte is not alphanumeric
fn value(c: u8) -> u32 {
    if digit(c) { (c - b'0') as u32 } else if c >= b'a' && c <= b'z' { (c - b'a') as u32 + 10 } else if c >= b'A' && c <= b'Z' { (c - b'A') as u32 + 10 } else { 99 }
}
fn letterlike(c: u8) -> bool {
    c >= b'a' && c <= b'z' || c >= b'A' && c <= b'Z' || c == b'$' || c < 0x20 && c != 7 && !(c >= 9 && c <= 13)
}
pub fn digits(b: &[u8], mut i: usize) -> usize { while digit(at(b, i)) { i += 1 } i }

pub fn number(b: &[u8], start: usize) -> Ref {
    const ERR: Ref = Ref::Kind(Error_Number);
    let mut i = digits(b, start);
    let mut count = i - start;
    let mut base = 0;
    if count > 0 && at(b, i) == b'^' && at(b, i + 1) == b'^' {
        let mut k = start;
        while k < i && b[k] == b'0' { k += 1 }
        if k == i || i - k > 2 { return ERR; }
        while k < i { base = base * 10 + value(b[k]); k += 1 }
        if base < 2 || base > 36 { return ERR; }
        i += 2;
        count = 0;
        loop {
            let v = value(at(b, i));
            if v == 99 { break }
            if v >= base { return ERR; }
            i += 1;
            count += 1;
        }
        if count == 0 && at(b, i) != b'.' { return ERR; }
    }
    let mut real = false;
    if at(b, i) == b'.' {
        if at(b, i + 1) == b'.' { return if count == 0 { ERR } else { Ref::Tok(Integer, i) }; }
        i += 1;
        loop {
            let c = at(b, i);
            let v = value(c);
            if base == 0 { if !digit(c) { break } } else if v == 99 { break } else if v >= base { return ERR; }
            i += 1;
            count += 1;
        }
        if count == 0 { return ERR; }
        real = true;
    }
    if at(b, i) == b'`' {
        real = true;
        i += 1;
        let accuracy = at(b, i) == b'`';
        if accuracy { i += 1 }
        let mut j = i;
        let sign = matches!(at(b, j), b'+' | b'-');
        if sign {
            j += 1;
            if !digit(at(b, j)) && at(b, j) != b'.' { return if accuracy { ERR } else { Ref::Tok(Real, i) }; }
        }
        let e = digits(b, j);
        if e > j {
            i = e;
            if at(b, i) == b'.' && at(b, i + 1) != b'.' { i = digits(b, i + 1) }
        } else if at(b, j) == b'.' {
            let f = digits(b, j + 1);
            if f > j + 1 { i = f }
            else if sign { return if at(b, j + 1) != b'.' { ERR } else if accuracy { Ref::Stop } else { Ref::Tok(Real, i) }; }
            else if accuracy || matches!(at(b, j + 1), b'+' | b'-') { return ERR; }
            else { return Ref::Tok(Real, i); }
        } else if accuracy { return ERR; }
    }
    if at(b, i) == b'*' && at(b, i + 1) == b'^' {
        let mut j = i + 2;
        let neg = at(b, j) == b'-';
        if neg || at(b, j) == b'+' { j += 1 }
        let e = digits(b, j);
        if e == j || at(b, e) == b'.' && at(b, e + 1) != b'.' { return ERR; }
        let mut nonzero = false;
        while j < e { if b[j] != b'0' { nonzero = true; break } j += 1 }
        return Ref::Tok(if real { Real } else if neg && nonzero { Rational } else { Integer }, e);
    }
    Ref::Tok(if real { Real } else { Integer }, i)
}
/// end of the name (letters and digits, not starting with a digit) at `i`; `i` if there is none
pub fn symbol_segment(b: &[u8], mut i: usize) -> usize { if letterlike(at(b, i)) { while letterlike(at(b, i)) || digit(at(b, i)) { i += 1 } } i }
/// context`name, `name, name
pub fn symbol(b: &[u8], mut i: usize) -> Ref {
    if letterlike(at(b, i)) { while letterlike(at(b, i)) || digit(at(b, i)) { i += 1 } }
    while at(b, i) == b'`' {
        i += 1;
        if !letterlike(at(b, i)) { return Ref::Tok(Error_ExpectedLetterlike, i); }
        while letterlike(at(b, i)) || digit(at(b, i)) { i += 1 }
    }
    Ref::Tok(Symbol, i)
}
/// `i` is after the opening quote
pub fn string(b: &[u8], mut i: usize) -> Ref {
    while i < b.len() {
        if b[i] == b'\\' { i += 2; continue }
        if b[i] == b'"' { return Ref::Tok(String, i + 1); }
        i += 1;
    }
    Ref::Kind(Error_UnterminatedString)
}
/// `i` is after the opening (*
pub fn comment(b: &[u8], mut i: usize) -> Ref {
    let mut depth = 1;
    while i < b.len() {
        if b[i] == b'(' && at(b, i + 1) == b'*' { depth += 1; i += 2 }
        else if b[i] == b'*' && at(b, i + 1) == b')' { depth -= 1; i += 2; if depth == 0 { return Ref::Tok(Comment, i); } }
        else { i += 1 }
    }
    Ref::Kind(Error_UnterminatedComment)
}
/// `i` is after the opening \(
pub fn blob(b: &[u8], mut i: usize) -> Ref {
    let mut depth = 1;
    while i < b.len() {
        if b[i] != b'\\' { i += 1; continue }
        match at(b, i + 1) { b'(' => depth += 1, b')' => depth -= 1, _ => () }
        i += 2;
        if depth == 0 { return Ref::Tok(LinearSyntaxBlob, i); }
    }
    Ref::Kind(Error_UnterminatedLinearSyntaxBlob)
}
macro_rules! op { ($b:expr, $i:expr, $($s:literal => $k:ident),*) => { { $( { const S: &[u8] = $s; let mut ok = true; for k in 1..S.len() { if at($b, $i + k) != S[k] { ok = false; break } } if ok { return Ref::Tok($k, $i + S.len()) } } )* Ref::Stop } } }
/// the token at offset `i < b.len()`
pub fn token(b: &[u8], i: usize) -> Ref {
    let c = b[i];
    if c == b'\\' && at(b, i + 1) == b'(' { return blob(b, i + 2); }
    // linear syntax operators; \[ \: \. \| digits and newlines start character escapes and continuations
    if c == b'\\' {
        let k = match at(b, i + 1) {
            b'!' => LinearSyntax_Bang, b'@' => LinearSyntax_At, b'%' => LinearSyntax_Percent, b'^' => LinearSyntax_Caret, b'&' => LinearSyntax_Amp, b'*' => LinearSyntax_Star, b'_' => LinearSyntax_Under,
            b'+' => LinearSyntax_Plus, b'/' => LinearSyntax_Slash, b'`' => LinearSyntax_BackTick, b' ' => LinearSyntax_Space, b')' => LinearSyntax_CloseParen,
            b'[' | b':' | b'.' | b'|' | b'0'..=b'7' | b'\n' | b'\r' | 0x80..=0xff => return Ref::Stop,
            _ => return Ref::Kind(Error_UnhandledCharacter),
        };
        return Ref::Tok(k, i + 2);
    }
    // an escape, line continuation or non-ASCII character next to the token may be part of it
    if c != b'"' && !(c == b'(' && at(b, i + 1) == b'*') {
        let mut j = i;
        while j < b.len() && b[j] != b'"' && b[j] != b' ' && !(b[j] >= 9 && b[j] <= 13) { if b[j] >= 0x80 || b[j] == b'\\' { return Ref::Stop; } j += 1 }
    }
    if letterlike(c) || c == b'`' { return symbol(b, i); }
    if digit(c) || c == b'.' && digit(at(b, i + 1)) { return number(b, i); }
    match c {
        b'"' => string(b, i + 1),
        b'(' if at(b, i + 1) == b'*' => comment(b, i + 2),
        b'\n' => Ref::Tok(ToplevelNewline, i + 1),
        b'\r' => Ref::Tok(ToplevelNewline, if at(b, i + 1) == b'\n' { i + 2 } else { i + 1 }),
        b' ' | b'\t' | 0x0b | 0x0c => Ref::Tok(Whitespace, i + 1),
        7 | 0x7f => Ref::Tok(Error_UnhandledCharacter, i + 1),
        b'%' => { let mut j = i; while at(b, j) == b'%' { j += 1 } Ref::Tok(if j == i + 1 { Percent } else { PercentPercent }, j) },
        b'/' if at(b, i + 1) == b'.' && digit(at(b, i + 2)) => Ref::Tok(Slash, i + 1),
        b':' => op!(b, i, b"::[" => ColonColonOpenSquare, b"::" => ColonColon, b":=" => ColonEqual, b":>" => ColonGreater, b":" => Colon),
        b'=' => op!(b, i, b"===" => EqualEqualEqual, b"=!=" => EqualBangEqual, b"==" => EqualEqual, b"=" => Equal),
        b'_' => op!(b, i, b"___" => UnderUnderUnder, b"__" => UnderUnder, b"_." => UnderDot, b"_" => Under),
        b'<' => op!(b, i, b"<->" => LessMinusGreater, b"<|" => LessBar, b"<<" => LessLess, b"<>" => LessGreater, b"<=" => LessEqual, b"<" => Less),
        b'>' => op!(b, i, b">>>" => GreaterGreaterGreater, b">>" => GreaterGreater, b">=" => GreaterEqual, b">" => Greater),
        b'-' => op!(b, i, b"->" => MinusGreater, b"--" => MinusMinus, b"-=" => MinusEqual, b"-" => Minus),
        b'|' => op!(b, i, b"|->" => BarMinusGreater, b"|>" => BarGreater, b"||" => BarBar, b"|" => Bar),
        b';' => op!(b, i, b";;" => SemiSemi, b";" => Semi),
        b'!' => op!(b, i, b"!=" => BangEqual, b"!!" => BangBang, b"!" => Bang),
        b'#' => op!(b, i, b"##" => HashHash, b"#" => Hash),
        b'&' => op!(b, i, b"&&" => AmpAmp, b"&" => Amp),
        b'/' => op!(b, i, b"//." => SlashSlashDot, b"//@" => SlashSlashAt, b"//=" => SlashSlashEqual, b"//" => SlashSlash, b"/@" => SlashAt, b"/;" => SlashSemi, b"/." => SlashDot, b"/:" => SlashColon, b"/=" => SlashEqual, b"/*" => SlashStar, b"/" => Slash),
        b'@' => op!(b, i, b"@@@" => AtAtAt, b"@@" => AtAt, b"@*" => AtStar, b"@" => At),
        b'+' => op!(b, i, b"++" => PlusPlus, b"+=" => PlusEqual, b"+" => Plus),
        b'~' => op!(b, i, b"~~" => TildeTilde, b"~" => Tilde),
        b'?' => op!(b, i, b"??" => QuestionQuestion, b"?" => Question),
        b'*' => op!(b, i, b"**" => StarStar, b"*=" => StarEqual, b"*)" => Error_UnexpectedCommentCloser, b"*" => Star),
        b'^' => op!(b, i, b"^:=" => CaretColonEqual, b"^:" => Error_ExpectedEqual, b"^=" => CaretEqual, b"^" => Caret),
        b'.' => op!(b, i, b"..." => DotDotDot, b".." => DotDot, b"." => Dot),
        b'\'' => op!(b, i, b"'" => SingleQuote),
        b',' => op!(b, i, b"," => Comma),
        b'(' => op!(b, i, b"(" => OpenParen),
        b')' => op!(b, i, b")" => CloseParen),
        b'[' => op!(b, i, b"[" => OpenSquare),
        b']' => op!(b, i, b"]" => CloseSquare),
        b'{' => op!(b, i, b"{" => OpenCurly),
        b'}' => op!(b, i, b"}" => CloseCurly),
        _ => Ref::Stop,
    }
}
