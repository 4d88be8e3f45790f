//! Interface to the symbolic executor (or, in the replay binary, to a
//! recorded model) and decoding of the job parameters into an input.

extern "C" {
    fn sym_byte(idx: u64) -> u8;
    fn sym_word(idx: u64, width: u64) -> u64;
    fn sym_assume(c: bool);
    fn sym_check(c: bool, id: u64);
    fn sym_reach(id: u64);
    fn sym_param(i: u64) -> u64;
    fn sym_log(v: u64);
    fn sym_conc(v: u64) -> u64;
}
pub fn byte(i: usize) -> u8 { unsafe { sym_byte(i as u64) } }
pub fn word(i: usize, width: u32) -> u64 { unsafe { sym_word(i as u64, width as u64) } }
pub fn assume(c: bool) { unsafe { sym_assume(c) } }
pub fn check(c: bool, id: u64) { unsafe { sym_check(c, id) } }
pub fn reach(id: u64) { unsafe { sym_reach(id) } }
pub fn param(i: usize) -> u64 { unsafe { sym_param(i as u64) } }
pub fn log(v: u64) { unsafe { sym_log(v) } }
pub fn conc(v: u64) -> u64 { unsafe { sym_conc(v) } }

/// Job parameters:
///
/// ```text
/// p[0]           options word
/// p[1]           number of byte classes; 4 bitmap words per class follow
/// nlists         number of lexeme lists; per list: offset of its table in p
/// ninputs        number of inputs, then per input: nitems, items
/// item           < 2^16: literal byte
///                (1<<16)|(class<<8)|var: symbolic byte `var` of `class` (1-based; 0 = any)
///                (2<<16)|(list<<8)|var:  a lexeme of `list`, selected by symbolic byte `var`
/// list table     count, then per lexeme: offset in p of (len, bytes packed 8 per word)
/// ```
pub struct Job { pub opts: u64, pub inputs: Vec<Vec<u8>>, pub sel: [u64; 16], pub extra: usize }

pub fn job() -> Job {
    let ncls = param(1) as usize;
    let mut at = 2 + 4 * ncls;
    let nlists = param(at) as usize;
    let lists = at + 1;
    at = lists + nlists;
    let ninputs = param(at) as usize;
    at += 1;
    let mut inputs = Vec::with_capacity(ninputs);
    let mut sel = [u64::MAX; 16];
    for _ in 0..ninputs {
        let n = param(at) as usize;
        at += 1;
        let mut v = Vec::with_capacity(n + 32);
        for i in 0..n {
            let it = param(at + i);
            let tag = it >> 16;
            if tag == 0 { v.push(it as u8); continue; }
            let var = (it & 0xff) as usize;
            let c = ((it >> 8) & 0xff) as usize;
            if tag == 1 {
                let b = byte(var);
                if c != 0 {
                    let base = 2 + 4 * (c - 1);
                    let tab = [param(base), param(base + 1), param(base + 2), param(base + 3)];
                    assume(tab[(b >> 6) as usize] >> (b & 63) & 1 == 1);
                }
                v.push(b);
            } else {
                let tab = param(lists + c) as usize;
                let count = param(tab);
                let s = if sel[var] != u64::MAX { sel[var] } else {
                    let s = byte(40 + var) as u64;
                    assume(s < count);
                    conc(s)
                };
                sel[var] = s;
                let mut lex = param(tab + 1 + s as usize) as usize;
                let len = param(lex) as usize;
                lex += 1;
                for k in 0..len {
                    v.push((param(lex + k / 8) >> (8 * (k % 8))) as u8);
                }
            }
        }
        at += n;
        inputs.push(v);
    }
    Job { opts: param(0), inputs, sel, extra: at }
}
