//! Request loop, argument decoding and outcome encoding shared by the
//! executors. Encodings never go through the formatting, parsing or arithmetic
//! of the crate under test, only through `from_words` and `into_words`.

pub mod fmt_serde;
pub mod fmts;

use ethnum::{I256, U256};
use std::{
    cmp::Ordering,
    io::{BufRead, BufWriter, Write},
    num::{IntErrorKind, ParseIntError, TryFromIntError},
    panic::{catch_unwind, AssertUnwindSafe},
};

/* ---------------------------------------------------------- arguments -- */

pub fn hex_words(s: &str) -> (u128, u128) {
    let n = s.len();
    if n > 32 {
        (
            u128::from_str_radix(&s[..n - 32], 16).unwrap(),
            u128::from_str_radix(&s[n - 32..], 16).unwrap(),
        )
    } else {
        (0, u128::from_str_radix(s, 16).unwrap())
    }
}

/// A 256-bit operand: hexadecimal two's complement.
pub trait Arg: Sized {
    fn arg(s: &str) -> Self;
}
impl Arg for U256 {
    fn arg(s: &str) -> Self {
        let (h, l) = hex_words(s);
        U256::from_words(h, l)
    }
}
impl Arg for I256 {
    fn arg(s: &str) -> Self {
        let (h, l) = hex_words(s);
        I256::from_words(h as i128, l as i128)
    }
}
macro_rules! prim_arg { ($($t:ty),*) => {$(
    impl Arg for $t { fn arg(s: &str) -> Self { s.parse().unwrap() } }
)*} }
prim_arg!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl Arg for bool {
    fn arg(s: &str) -> Self {
        s == "1"
    }
}
/// Bytes, written as hexadecimal pairs; "." is the empty string.
impl Arg for Vec<u8> {
    fn arg(s: &str) -> Self {
        if s == "." {
            return Vec::new();
        }
        (0..s.len() / 2)
            .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
            .collect()
    }
}

/* ----------------------------------------------------------- outcomes -- */

pub type S = String;

fn push_mag(o: &mut S, neg: bool, h: u128, l: u128) {
    use std::fmt::Write;
    if neg {
        o.push('-');
    }
    if h == 0 {
        write!(o, "{:x}", l).unwrap();
    } else {
        write!(o, "{:x}{:032x}", h, l).unwrap();
    }
}

/// Integers are signed hexadecimal, truth values T/F, None N, panic P, errors
/// E or E:kind, byte strings X followed by hexadecimal pairs.
pub trait Tok {
    fn tok(&self, o: &mut S);
}
impl Tok for U256 {
    fn tok(&self, o: &mut S) {
        let (h, l) = self.into_words();
        push_mag(o, false, h, l);
    }
}
impl Tok for I256 {
    fn tok(&self, o: &mut S) {
        let (h, l) = self.into_words();
        let (h, l) = (h as u128, l as u128);
        if h >> 127 == 1 {
            let (nl, c) = (!l).overflowing_add(1);
            push_mag(o, true, (!h).wrapping_add(c as u128), nl);
        } else {
            push_mag(o, false, h, l);
        }
    }
}
macro_rules! prim_tok { ($($t:ty),*) => {$(
    impl Tok for $t { fn tok(&self, o: &mut S) {
        #[allow(unused_comparisons)]
        let neg = *self < 0;
        let m = if neg { (*self as i128).unsigned_abs() } else { *self as u128 };
        push_mag(o, neg, 0, m);
    } }
)*} }
prim_tok!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl Tok for f32 {
    fn tok(&self, o: &mut S) {
        self.to_bits().tok(o)
    }
}
impl Tok for f64 {
    fn tok(&self, o: &mut S) {
        self.to_bits().tok(o)
    }
}
impl Tok for bool {
    fn tok(&self, o: &mut S) {
        o.push(if *self { 'T' } else { 'F' })
    }
}
impl Tok for Ordering {
    fn tok(&self, o: &mut S) {
        (*self as i8).tok(o)
    }
}
impl<A: Tok, B: Tok> Tok for (A, B) {
    fn tok(&self, o: &mut S) {
        self.0.tok(o);
        o.push(',');
        self.1.tok(o);
    }
}
impl<A: Tok, B: Tok, C: Tok> Tok for (A, B, C) {
    fn tok(&self, o: &mut S) {
        self.0.tok(o);
        o.push(',');
        self.1.tok(o);
        o.push(',');
        self.2.tok(o);
    }
}
impl<A: Tok> Tok for Option<A> {
    fn tok(&self, o: &mut S) {
        match self {
            Some(x) => x.tok(o),
            None => o.push('N'),
        }
    }
}
pub trait ErrTok {
    fn err(&self, o: &mut S);
}
impl ErrTok for ParseIntError {
    fn err(&self, o: &mut S) {
        o.push_str(match self.kind() {
            IntErrorKind::Empty => "E:empty",
            IntErrorKind::InvalidDigit => "E:invalid",
            IntErrorKind::PosOverflow => "E:pos_overflow",
            IntErrorKind::NegOverflow => "E:neg_overflow",
            _ => "E:other",
        })
    }
}
impl ErrTok for TryFromIntError {
    fn err(&self, o: &mut S) {
        o.push('E')
    }
}
impl ErrTok for serde::de::value::Error {
    fn err(&self, o: &mut S) {
        o.push('E')
    }
}
impl ErrTok for () {
    fn err(&self, o: &mut S) {
        o.push('E')
    }
}
impl<A: Tok, E: ErrTok> Tok for Result<A, E> {
    fn tok(&self, o: &mut S) {
        match self {
            Ok(x) => x.tok(o),
            Err(e) => e.err(o),
        }
    }
}
impl Tok for [u8] {
    fn tok(&self, o: &mut S) {
        const H: &[u8; 16] = b"0123456789abcdef";
        o.push('X');
        for b in self {
            o.push(H[(b >> 4) as usize] as char);
            o.push(H[(b & 15) as usize] as char);
        }
    }
}
impl Tok for [u8; 32] {
    fn tok(&self, o: &mut S) {
        self[..].tok(o)
    }
}
impl Tok for Vec<u8> {
    fn tok(&self, o: &mut S) {
        self[..].tok(o)
    }
}
impl Tok for String {
    fn tok(&self, o: &mut S) {
        self.as_bytes().tok(o)
    }
}

/// Outcome of one call.
#[inline(never)]
pub fn run<T: Tok>(f: impl FnOnce() -> T) -> S {
    let mut o = S::new();
    match catch_unwind(AssertUnwindSafe(|| {
        let mut o = S::new();
        f().tok(&mut o);
        o
    })) {
        Ok(t) => o = t,
        Err(_) => o.push('P'),
    }
    o
}

/// The outcomes of one request, in order.
#[derive(Default)]
pub struct Out {
    pub line: S,
}
impl Out {
    pub fn put(&mut self, name: &str, tok: &str) {
        if !self.line.is_empty() {
            self.line.push(' ');
        }
        self.line.push_str(name);
        self.line.push('=');
        self.line.push_str(tok);
    }
    pub fn one<T: Tok>(&mut self, name: &str, f: impl FnOnce() -> T) {
        let t = run(f);
        self.put(name, &t);
    }
    /// Several spellings of one call: a single entry when they agree, one per
    /// spelling when they do not.
    pub fn forms(&mut self, name: &str, forms: &[(&str, S)]) {
        if forms.is_empty() {
            return;
        }
        if forms.iter().all(|f| f.1 == forms[0].1) {
            self.put(name, &forms[0].1);
        } else {
            for (form, tok) in forms {
                self.put(&format!("{name}.{form}"), tok);
            }
        }
    }
}

/// One entry per method call: `calls!(o; wrapping_add(a, b) ...)`.
#[macro_export]
macro_rules! calls {
    ($o:expr, $a:expr; $($m:ident ( $($x:expr),* )),* $(,)?) => {$(
        $o.one(stringify!($m), || $a.$m($($x),*));
    )*};
}

pub struct Req<'a> {
    pub fam: &'a str,
    pub args: Vec<&'a str>,
}
impl Req<'_> {
    pub fn get<T: Arg>(&self, i: usize) -> T {
        T::arg(self.args[i])
    }
    pub fn signed(&self) -> bool {
        self.args[0] == "1"
    }
}

pub fn serve(handle: impl Fn(&Req, &mut Out)) {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut w = BufWriter::with_capacity(1 << 16, std::io::stdout());
    let mut r = std::io::BufReader::with_capacity(1 << 16, stdin.lock());
    let mut line = S::new();
    loop {
        line.clear();
        if r.read_line(&mut line).unwrap() == 0 {
            break;
        }
        let l = line.trim_end_matches('\n');
        // an empty line marks the end of a batch
        if l.is_empty() {
            w.flush().unwrap();
            continue;
        }
        let mut it = l.split(' ');
        let req = Req {
            fam: it.next().unwrap(),
            args: it.collect(),
        };
        let mut o = Out::default();
        handle(&req, &mut o);
        writeln!(w, "{}", o.line).unwrap();
    }
    w.flush().unwrap();
}
