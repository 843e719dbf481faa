//! Parsing, literals and formatting.
use ethnum::{I256, U256};
use harness::fmts::{render, render_to};
use harness::*;
use std::fmt::{self, Binary, Debug, Display, Formatter, LowerExp, LowerHex, Octal, UpperExp, UpperHex, Write};

trait Num: Display + Debug + Binary + Octal + LowerHex + UpperHex + LowerExp + UpperExp {}
impl Num for U256 {}
impl Num for I256 {}

/// Passes the formatter on to the trait selected by the kind.
struct As<'a, T>(&'a T, u8);
impl<T: Num> Display for As<'_, T> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        match self.1 {
            0 => Display::fmt(self.0, f),
            1 => Debug::fmt(self.0, f),
            4 => Binary::fmt(self.0, f),
            5 => Octal::fmt(self.0, f),
            6 => LowerHex::fmt(self.0, f),
            7 => UpperHex::fmt(self.0, f),
            8 => LowerExp::fmt(self.0, f),
            9 => UpperExp::fmt(self.0, f),
            _ => unreachable!(),
        }
    }
}
impl<T: Num> Debug for As<'_, T> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        Debug::fmt(self.0, f)
    }
}
struct Exp(f64, u8);
impl Display for Exp {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        if self.1 == 8 {
            LowerExp::fmt(&self.0, f)
        } else {
            UpperExp::fmt(&self.0, f)
        }
    }
}
impl Debug for Exp {
    fn fmt(&self, _: &mut Formatter) -> fmt::Result {
        unreachable!()
    }
}

/// Takes so many bytes and fails from then on.
struct Bounded(Vec<u8>, usize);
impl Write for Bounded {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let n = s.len().min(self.1 - self.0.len());
        self.0.extend_from_slice(&s.as_bytes()[..n]);
        if n == s.len() { Ok(()) } else { Err(fmt::Error) }
    }
}

/// A width or precision; negative: none.
fn given(q: &Req, i: usize) -> Option<usize> {
    usize::try_from(q.get::<i32>(i)).ok()
}
fn utf8(v: &[u8]) -> &str {
    std::str::from_utf8(v).unwrap()
}

macro_rules! family {
    ($f:ident, $T:ident) => {
        fn $f(q: &Req, o: &mut Out) {
            match q.fam {
                "ParseRadix" => {
                    let (r, v): (u32, Vec<u8>) = (q.get(1), q.get(2));
                    let t = utf8(&v);
                    o.one("from_str_radix", || $T::from_str_radix(t, r));
                }
                "Parse" => {
                    let v: Vec<u8> = q.get(1);
                    let t = utf8(&v);
                    o.forms("from_str", &[
                        ("trait", run(|| <$T as std::str::FromStr>::from_str(t))),
                        ("parse", run(|| t.parse::<$T>())),
                    ]);
                    o.one("from_str_hex", || $T::from_str_hex(t));
                    o.one("from_str_prefixed", || $T::from_str_prefixed(t));
                }
                "Literal" => {
                    let v: Vec<u8> = q.get(1);
                    let t = utf8(&v);
                    o.one("literal", || $T::const_from_str_prefixed(t));
                }
                "Fmt" => {
                    let a: $T = q.get(1);
                    let kind: u8 = q.get(2);
                    let (sgf, alt, zero, align, w, p) = (q.get(3), q.get(4), q.get(5), q.get(6), given(q, 7), given(q, 8));
                    let (k, d) = match kind { 2 => (1, 1), 3 => (1, 2), k => (k, 0) };
                    o.one("fmt", || render(&As(&a, k), d, sgf, alt, zero, align, w, p));
                }
                "Sink" => {
                    let a: $T = q.get(1);
                    let kind: u8 = q.get(2);
                    let (sgf, alt, zero, align, w, p) = (q.get(3), q.get(4), q.get(5), q.get(6), given(q, 7), given(q, 8));
                    let cap: usize = q.get(9);
                    let (k, d) = match kind { 2 => (1, 1), 3 => (1, 2), k => (k, 0) };
                    let put = || {
                        let mut b = Bounded(Vec::new(), cap);
                        let r = render_to(&mut b, &As(&a, k), d, sgf, alt, zero, align, w, p);
                        (b.0, r.is_ok())
                    };
                    o.one("written", || put().0);
                    o.one("complete", || put().1);
                }
                "Exp" => {
                    let a: $T = q.get(1);
                    let x = f64::from_bits(q.get(2));
                    let (sgf, alt, zero, align, w, p) = (q.get(3), q.get(4), q.get(5), q.get(6), given(q, 7), given(q, 8));
                    o.forms("lower_exp", &[
                        ("flags", run(|| render(&As(&a, 8), 0, sgf, alt, zero, align, w, p) == render(&Exp(x, 8), 0, sgf, alt, zero, align, w, p))),
                        ("plain", run(|| format!("{a:e}") == format!("{x:e}"))),
                        ("precise", run(|| format!("{a:+30.7e}") == format!("{x:+30.7e}"))),
                    ]);
                    o.forms("upper_exp", &[
                        ("flags", run(|| render(&As(&a, 9), 0, sgf, alt, zero, align, w, p) == render(&Exp(x, 9), 0, sgf, alt, zero, align, w, p))),
                        ("plain", run(|| format!("{a:E}") == format!("{x:E}"))),
                        ("precise", run(|| format!("{a:030.2E}") == format!("{x:030.2E}"))),
                    ]);
                }
                "Text" => {
                    let a: $T = q.get(1);
                    o.forms("display", &[("plain", run(|| format!("{a}"))), ("precision", run(|| format!("{a:.3}")))]);
                    o.forms("debug", &[("plain", run(|| format!("{a:?}"))), ("alternate", run(|| format!("{a:#?}")))]);
                    o.one("to_string", || a.to_string());
                    o.one("lower_hex", || format!("{a:x}"));
                    o.one("upper_hex", || format!("{a:X}"));
                    o.one("octal", || format!("{a:o}"));
                    o.one("binary", || format!("{a:b}"));
                    o.one("debug_hex", || format!("{a:x?}"));
                    o.one("alt_hex", || format!("{a:#x}"));
                }
                "Round" => {
                    let a: $T = q.get(1);
                    o.one("dec_from_str", || format!("{a}").parse::<$T>());
                    o.one("dec_radix", || $T::from_str_radix(&format!("{a}"), 10));
                    o.one("dec_prefixed", || $T::from_str_prefixed(&format!("{a}")));
                    o.one("dec_literal", || $T::const_from_str_prefixed(&format!("{a}")));
                    o.one("bin_radix", || $T::from_str_radix(&format!("{a:-b}"), 2));
                    o.one("bin_prefixed", || $T::from_str_prefixed(&format!("{a:-#b}")));
                    o.one("bin_literal", || $T::const_from_str_prefixed(&format!("{a:-#b}")));
                    o.one("oct_radix", || $T::from_str_radix(&format!("{a:-o}"), 8));
                    o.one("oct_prefixed", || $T::from_str_prefixed(&format!("{a:-#o}")));
                    o.one("oct_literal", || $T::const_from_str_prefixed(&format!("{a:-#o}")));
                    o.one("hex_radix", || $T::from_str_radix(&format!("{a:-x}"), 16));
                    o.one("hex_hex", || $T::from_str_hex(&format!("{a:-#x}")));
                    o.one("hex_prefixed", || $T::from_str_prefixed(&format!("{a:-#x}")));
                    o.one("hex_literal", || $T::const_from_str_prefixed(&format!("{a:-#x}")));
                    o.one("uhex_radix", || $T::from_str_radix(&format!("{a:-X}"), 16));
                    o.one("uhex_hex", || $T::from_str_hex(&format!("{a:-#X}")));
                    o.one("uhex_prefixed", || $T::from_str_prefixed(&format!("{a:-#X}")));
                    o.one("uhex_literal", || $T::const_from_str_prefixed(&format!("{a:-#X}")));
                    o.one("dbg_from_str", || format!("{a:?}").parse::<$T>());
                    o.one("dbg_hex_hex", || $T::from_str_hex(&format!("{a:-#x?}")));
                }
                _ => panic!("unknown family"),
            }
        }
    };
}
family!(s, I256);
family!(u, U256);

fn main() {
    serve(|q, o| if q.signed() { s(q, o) } else { u(q, o) });
}
