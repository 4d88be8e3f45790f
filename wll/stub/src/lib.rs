//! Stand-in for the parts of wolfram-library-link that codeparser-wll uses. The real crate talks to a Wolfram kernel
//! through a C library; here a link is two queues: what the kernel sent, and what was put on the link.
#![allow(non_snake_case, non_camel_case_types)]
pub use wll_macro::export;
pub use wolfram_expr as expr;
pub mod sys { pub type mint = i64; pub const WolframLibraryVersion: u32 = 7; }
pub fn evaluate(_: &expr::Expr) -> expr::Expr { expr::Expr::from(0i64) }
pub mod rtl {
    use std::sync::atomic::{AtomicI32, Ordering::SeqCst};
    /// Number of abort queries answered "no" before the answer becomes "yes"; negative: never.
    pub static ABORT: AtomicI32 = AtomicI32::new(-1);
    pub unsafe fn AbortQ() -> i32 {
        let n = ABORT.load(SeqCst);
        if n < 0 { return 0; }
        if n == 0 { return 1; }
        ABORT.store(n - 1, SeqCst);
        0
    }
    pub unsafe fn validatePath(_: *mut std::ffi::c_char, _: std::ffi::c_char) -> i32 { 1 }
}
pub mod wstp {
    use crate::expr::{Expr, ExprKind, Symbol};
    pub mod sys { pub const WSEGSEQ: i32 = 3; }
    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    pub enum TokenType { Function, Symbol, String, Integer, Real }
    #[derive(Debug)]
    pub struct Error(i32);
    impl Error { pub fn code(&self) -> Option<i32> { Some(self.0) } }
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("link error") } }
    #[derive(Debug, Clone, PartialEq)]
    pub enum Tok { Func(String, usize), Sym(String), Str(String), Int(i64), Real(f64), Bytes(Vec<u8>) }
    pub struct Array<T>(Vec<T>);
    impl<T> Array<T> { pub fn rank(&self) -> usize { 1 } pub fn data(&self) -> &[T] { &self.0 } }
    #[derive(Default)]
    pub struct Link { pub input: std::collections::VecDeque<Tok>, pub out: Vec<Tok> }
    type R<T> = Result<T, Error>;
    impl Link {
        fn next(&mut self) -> R<Tok> { self.input.pop_front().ok_or(Error(1)) }
        pub fn put_function<'a, H: Into<Option<&'a str>>>(&mut self, head: H, n: usize) -> R<()> { self.out.push(Tok::Func(head.into().unwrap_or("").to_string(), n)); Ok(()) }
        pub fn put_symbol(&mut self, s: &str) -> R<()> { self.out.push(Tok::Sym(s.to_string())); Ok(()) }
        pub fn put_str(&mut self, s: &str) -> R<()> { self.out.push(Tok::Str(s.to_string())); Ok(()) }
        pub fn put_i64(&mut self, v: i64) -> R<()> { self.out.push(Tok::Int(v)); Ok(()) }
        pub fn put_i32(&mut self, v: i32) -> R<()> { self.out.push(Tok::Int(v as i64)); Ok(()) }
        pub fn put_f64(&mut self, v: f64) -> R<()> { self.out.push(Tok::Real(v)); Ok(()) }
        pub fn put_expr(&mut self, e: &Expr) -> R<()> { push_expr(e, &mut self.out); Ok(()) }
        pub fn get_type(&mut self) -> R<TokenType> {
            Ok(match self.input.front().ok_or(Error(1))? { Tok::Func(..) | Tok::Bytes(_) => TokenType::Function, Tok::Sym(_) => TokenType::Symbol, Tok::Str(_) => TokenType::String, Tok::Int(_) => TokenType::Integer, Tok::Real(_) => TokenType::Real })
        }
        pub fn test_head(&mut self, head: &str) -> R<usize> {
            match self.input.front() { Some(Tok::Func(h, n)) if h == head => { let n = *n; self.input.pop_front(); Ok(n) }, _ => Err(Error(sys::WSEGSEQ)) }
        }
        pub fn clear_error(&mut self) {}
        pub fn new_packet(&mut self) -> R<()> { self.input.clear(); Ok(()) }
        pub fn is_ready(&self) -> bool { !self.input.is_empty() }
        pub fn get_i64(&mut self) -> R<i64> { match self.next()? { Tok::Int(v) => Ok(v), _ => Err(Error(2)) } }
        pub fn get_i32(&mut self) -> R<i32> { self.get_i64().map(|v| v as i32) }
        pub fn get_string(&mut self) -> R<String> { match self.next()? { Tok::Str(v) => Ok(v), _ => Err(Error(2)) } }
        pub fn get_u8_array(&mut self) -> R<Array<u8>> { match self.next()? { Tok::Bytes(v) => Ok(Array(v)), _ => Err(Error(2)) } }
        pub fn get_expr_with_resolver(&mut self, r: &mut dyn FnMut(&str) -> Option<Symbol>) -> R<Expr> {
            Ok(match self.next()? {
                Tok::Func(h, n) => {
                    let head = r(&h).ok_or(Error(2))?;
                    let mut args = Vec::with_capacity(n);
                    for _ in 0..n { args.push(self.get_expr_with_resolver(r)?); }
                    Expr::normal(head, args)
                },
                Tok::Sym(s) => Expr::symbol(r(&s).ok_or(Error(2))?),
                Tok::Str(s) => Expr::string(s),
                Tok::Int(v) => Expr::from(v),
                Tok::Real(v) => Expr::real(v),
                Tok::Bytes(_) => return Err(Error(2)),
            })
        }
    }
    fn push_expr(e: &Expr, out: &mut Vec<Tok>) {
        match e.kind() {
            ExprKind::Integer(i) => out.push(Tok::Int(*i)),
            ExprKind::Real(r) => out.push(Tok::Real(**r)),
            ExprKind::String(s) => out.push(Tok::Str(s.clone())),
            ExprKind::Symbol(s) => out.push(Tok::Sym(s.as_str().to_string())),
            ExprKind::Normal(n) => {
                match n.head().kind() { ExprKind::Symbol(s) => out.push(Tok::Func(s.as_str().to_string(), n.elements().len())), _ => panic!("compound head") }
                for a in n.elements() { push_expr(a, out); }
            },
        }
    }
}
