// usage: demo WHAT OPTIONS FILE...   (several FILEs are parsed one after the other in one process)
use wolfram_parser::{source::*, *};
fn options(o: u64) -> ParseOptions {
    let flb = match o & 3 { 0 => FirstLineBehavior::NotScript, 1 => FirstLineBehavior::Check, _ => FirstLineBehavior::Script };
    let conv = if o >> 2 & 1 == 1 { SourceConvention::CharacterIndex } else { SourceConvention::LineColumn };
    let enc = if o >> 3 & 1 == 1 { EncodingMode::Box } else { EncodingMode::Normal };
    let tw = match (o >> 4) & 15 { 0 => 4, t => t as u32 };
    let q = QuirkSettings::default().flatten_times(o >> 8 & 1 == 1).infix_binary_at(o >> 9 & 1 == 0).old_at_at_at(o >> 10 & 1 == 1);
    ParseOptions::make(flb, conv, enc, tw, q)
}
fn sorted<T: std::fmt::Debug>(s: impl Iterator<Item = T>) -> Vec<String> { let mut v: Vec<String> = s.map(|x| format!("{x:?}")).collect(); v.sort(); v }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let o = options(u64::from_str_radix(a[2].trim_start_matches("0x"), 16).unwrap());
    let mut o = o;
    let seq = a[1] == "seq";
    for f in &a[3..] {
        let b = std::fs::read(f).unwrap();
        match &*a[1] {
            "tokens" => println!("{:?}", tokenize_bytes(&b, &o)),
            "cst" => println!("{:?}", parse_bytes_cst_seq(&b, &o).syntax),
            "ast" => println!("{:?}", parse_bytes_ast_seq(&b, &o).syntax),
            "issues" => { let r = parse_bytes_cst_seq(&b, &o); println!("{:?} {:?}", r.fatal_issues, r.non_fatal_issues) },
            "astissues" => { let r = parse_bytes_ast_seq(&b, &o); println!("{:?} {:?}", r.fatal_issues, r.non_fatal_issues) },
            "flag" => println!("{:?} {:?} {:?} {:?}", safe_string(&b, &o), tokenize_bytes(&b, &o).err(), parse_bytes_cst_seq(&b, &o).unsafe_character_encoding, parse_bytes_ast_seq(&b, &o).unsafe_character_encoding),
            "tracked" => { let t = parse_bytes_cst_seq(&b, &o).tracked; println!("{:?} {:?} {:?} {:?}", sorted(t.simple_line_continuations.iter()), sorted(t.complex_line_continuations.iter()), sorted(t.embedded_newlines.iter()), sorted(t.embedded_tabs.iter())) },
            "str" => { let s = std::str::from_utf8(&b).unwrap(); println!("{:?} {:?} {:?} {:?}", tokenize(s, &o), parse_cst_seq(s, &o).syntax, parse_ast_seq(s, &o).syntax, iter::tokens(s, &o).collect::<Vec<_>>()) },
            "visit" => { let t = parse_bytes_cst_seq(&b, &o).syntax; let mut n = vec![]; t.visit(&mut |c| n.push(format!("{:?}", c.get_source()))); println!("{n:?}"); let mut m = vec![]; let u = t.clone().map_visit(&mut |c| { m.push(format!("{:?}", c.get_source())); c }); println!("{m:?} {}", u == t); let mut k = vec![]; let mut w = t.clone(); w.visit_mut(&mut |c| k.push(format!("{:?}", c.get_source()))); println!("{k:?} {}", w == t) },
            "chars" => { let s = std::str::from_utf8(&b).unwrap(); println!("{:?} {:?}", iter::source_chars(s, &o).collect::<Vec<_>>(), iter::wolfram_chars(s, &o).collect::<Vec<_>>()) },
            "tag" => println!("{:?}", parse_to_token(&b, &o, StringifyMode::Tag).syntax),
            "file" => println!("{:?}", parse_to_token(&b, &o, StringifyMode::File).syntax),
            "expr" => { println!("{}", fmt_as_expr::FmtAsExpr(&parse_bytes_cst_seq(&b, &o).syntax)) },
            "seq" => println!("{:?} {:?}", parse_bytes_cst_seq(&b, &o).syntax, parse_bytes_ast_seq(&b, &o).syntax),
            w => panic!("{w}"),
        }
        if seq { o = options(0); }
    }
}
