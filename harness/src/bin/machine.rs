//! The register machine: executes a history of calls on six variables, in
//! place where the library allows it, and reports every outcome and every
//! state.
use ethnum::serde::{compressed_bytes, permissive, prefixed};
use ethnum::{I256, U256};
use harness::fmt_serde::Sink;
use harness::*;
use serde::de::value::{BytesDeserializer, Error, StrDeserializer};
use serde::{Deserialize, Serialize};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy)]
struct M {
    u: [U256; 3],
    i: [I256; 3],
}

struct Op<'a> {
    fam: &'a str,
    e: &'a str,
    s: bool,
    d: usize,
    a: usize,
    b: usize,
    n: &'a str,
}

/// What a call returns: stored in register d of its type (a second value in
/// the register after it), and reported.
trait Store {
    fn store(self, m: &mut M, s: bool, d: usize, o: &mut S);
}
impl Store for U256 {
    fn store(self, m: &mut M, _: bool, d: usize, o: &mut S) {
        m.u[d] = self;
        self.tok(o)
    }
}
impl Store for I256 {
    fn store(self, m: &mut M, _: bool, d: usize, o: &mut S) {
        m.i[d] = self;
        self.tok(o)
    }
}
impl Store for u32 {
    fn store(self, m: &mut M, s: bool, d: usize, o: &mut S) {
        if s {
            m.i[d] = I256::from_words(0, self as i128)
        } else {
            m.u[d] = U256::from_words(0, self as u128)
        }
        self.tok(o)
    }
}
impl Store for bool {
    fn store(self, _: &mut M, _: bool, _: usize, o: &mut S) {
        self.tok(o)
    }
}
impl<T: Store, X: Store> Store for (T, X) {
    fn store(self, m: &mut M, s: bool, d: usize, o: &mut S) {
        self.0.store(m, s, d, o);
        o.push(',');
        self.1.store(m, s, (d + 1) % 3, o);
    }
}
impl<T: Store, X: Store> Store for (T, X, bool) {
    fn store(self, m: &mut M, s: bool, d: usize, o: &mut S) {
        (self.0, self.1).store(m, s, d, o);
        o.push(',');
        self.2.tok(o);
    }
}
impl<T: Store> Store for Option<T> {
    fn store(self, m: &mut M, s: bool, d: usize, o: &mut S) {
        match self {
            Some(x) => x.store(m, s, d, o),
            None => o.push('N'),
        }
    }
}
impl<T: Store, E> Store for Result<T, E> {
    fn store(self, m: &mut M, s: bool, d: usize, o: &mut S) {
        match self {
            Ok(x) => x.store(m, s, d, o),
            Err(_) => o.push('E'),
        }
    }
}
/// Already stored in place.
struct Done<T>(T);
impl<T: Tok> Store for Done<T> {
    fn store(self, _: &mut M, _: bool, _: usize, o: &mut S) {
        self.0.tok(o)
    }
}
/// Nothing to report.
struct Quiet;
impl Store for Quiet {
    fn store(self, _: &mut M, _: bool, _: usize, o: &mut S) {
        o.push('*')
    }
}

#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn rec<T: Hash>(x: &T) -> Vec<u8> {
    let mut r = Rec::default();
    x.hash(&mut r);
    r.0
}

trait Prim128: Copy {
    type P: Copy;
    fn prim(self) -> Option<Self::P>;
}
impl Prim128 for U256 {
    type P = u128;
    fn prim(self) -> Option<u128> {
        let (h, l) = self.into_words();
        (h == 0).then_some(l)
    }
}
impl Prim128 for I256 {
    type P = i128;
    fn prim(self) -> Option<i128> {
        let (h, l) = self.into_words();
        (h == l >> 127).then_some(l)
    }
}

fn unknown(op: &Op) -> ! {
    eprintln!("no such instruction: {} {} {}", op.fam, op.e, op.s);
    std::process::exit(3)
}

macro_rules! pick {
    ($m:ident, $op:ident, $n:ident, $o:ident, $s:ident, $rest:path, $x:expr; $($h:ident ( $($q:expr)? )),* $(,)?) => {
        match $op.e {
            $(stringify!($h) => { let v = $x.$h($($q)?); v.store($m, $s, $op.d, $o) })*
            _ => $rest($m, $op, $n, $o),
        }
    };
}
macro_rules! narrow {
    ($m:ident, $op:ident, $o:ident, $s:ident, $x:expr, $back:path; $($p:ident: $h:ident),*) => {
        match $op.e {
            $(stringify!($p) => { let p: $p = $x.$h(); let v = $back(p); v.store($m, $s, $op.d, $o) })*
            _ => unknown($op),
        }
    };
}
macro_rules! bank {
    ($mod:ident, $T:ident, $Word:ty, $f:ident, $Other:ident, $g:ident, $as_self:ident, $as_other:ident) => {
        mod $mod {
            use super::*;
            type T = $T;
            pub fn step(m: &mut M, op: &Op, n: u32, o: &mut S) {
                let (s, d, a, b) = (op.s, op.d, op.a, op.b);
                let w: T = m.$f[d];
                let x: T = m.$f[a];
                let y: T = m.$f[b];
                let z: $Other = m.$g[b];
                let all: [T; 3] = m.$f;
                macro_rules! put { ($v:expr) => {{ let v = $v; v.store(m, s, d, o) }} }
                let _ = (w, z);
                // the forms of an operator
                macro_rules! binop { ($op:tt, $asg:tt) => {{
                    let (p, q) = (x.prim(), y.prim());
                    match (n % 12, p, q) {
                        (0, ..) => put!(m.$f[a] $op m.$f[b]),
                        (1, ..) => put!(&m.$f[a] $op m.$f[b]),
                        (2, ..) => put!(m.$f[a] $op &m.$f[b]),
                        (3, ..) => put!(&m.$f[a] $op &m.$f[b]),
                        (4, _, Some(q)) => put!(m.$f[a] $op q),
                        (5, Some(p), _) => put!(p $op m.$f[b]),
                        (6, _, Some(q)) => { m.$f[d] = m.$f[a]; m.$f[d] $asg q; put!(Done(m.$f[d])) }
                        (7, _, Some(q)) => { m.$f[d] = m.$f[a]; m.$f[d] $asg &q; put!(Done(m.$f[d])) }
                        (8, ..) => { m.$f[d] = m.$f[a]; m.$f[d] $asg &y; put!(Done(m.$f[d])) }
                        // within the bank, without copies
                        (9, ..) if a == d && a < b => { let (l, r) = m.$f.split_at_mut(b); l[a] $asg &r[0]; put!(Done(m.$f[d])) }
                        (9, ..) if a == d && b < a => { let (l, r) = m.$f.split_at_mut(a); r[0] $asg &l[b]; put!(Done(m.$f[d])) }
                        _ => { m.$f[d] = m.$f[a]; m.$f[d] $asg y; put!(Done(m.$f[d])) }
                    }
                }} }
                macro_rules! shiftop { ($op:tt, $asg:tt, $k:expr) => {{
                    let k = $k;
                    match n % 6 {
                        0 => put!(m.$f[a] $op k),
                        1 => put!(&m.$f[a] $op k),
                        2 => put!(m.$f[a] $op &k),
                        3 => put!(&m.$f[a] $op &k),
                        4 => { m.$f[d] = m.$f[a]; m.$f[d] $asg &k; put!(Done(m.$f[d])) }
                        _ => { m.$f[d] = m.$f[a]; m.$f[d] $asg k; put!(Done(m.$f[d])) }
                    }
                }} }
                macro_rules! shifts { ($k:expr) => { match op.e {
                    "shl" => shiftop!(<<, <<=, $k),
                    "shr" => shiftop!(>>, >>=, $k),
                    _ => unknown(op),
                } } }
                match op.fam {
                    "Load" => { m.$f[d] = <$T as Arg>::arg(op.n); put!(Quiet) }
                    "Wrap" => pick!(m, op, n, o, s, super::rest::$f, m.$f[a]; wrapping_add(y), wrapping_sub(y), wrapping_mul(y), wrapping_neg()),
                    "Ovf" => pick!(m, op, n, o, s, super::rest::$f, m.$f[a]; overflowing_add(y), overflowing_sub(y), overflowing_mul(y),
                        checked_add(y), checked_sub(y), checked_mul(y), saturating_add(y), saturating_sub(y), saturating_mul(y)),
                    "Neg" => pick!(m, op, n, o, s, super::rest::$f, m.$f[a]; overflowing_neg(), checked_neg()),
                    "Ops" => match op.e {
                        "add" => binop!(+, +=), "sub" => binop!(-, -=), "mul" => binop!(*, *=),
                        "div" => binop!(/, /=), "rem" => binop!(%, %=), _ => unknown(op),
                    },
                    "BitOps" => match op.e {
                        "bitand" => binop!(&, &=), "bitor" => binop!(|, |=), "bitxor" => binop!(^, ^=),
                        "not" => if n % 2 == 0 { put!(!m.$f[a]) } else { put!(!&m.$f[a]) }, _ => unknown(op),
                    },
                    "Div" => pick!(m, op, n, o, s, super::rest::$f, m.$f[a]; wrapping_div(y), wrapping_rem(y), overflowing_div(y), checked_rem(y), checked_div(y),
                        saturating_div(y), overflowing_rem(y), div_rem(y), overflowing_div_rem(y), checked_div_rem(y), wrapping_div_rem(y), saturating_div_rem(y)),
                    "DivEuclid" => pick!(m, op, n, o, s, super::rest::$f, m.$f[a]; div_euclid(y), rem_euclid(y), wrapping_div_euclid(y), wrapping_rem_euclid(y),
                        overflowing_div_euclid(y), checked_rem_euclid(y), div_rem_euclid(y), checked_div_rem_euclid(y), overflowing_div_rem_euclid(y),
                        checked_div_euclid(y), overflowing_rem_euclid(y), wrapping_div_rem_euclid(y), saturating_div_rem_euclid(y)),
                    "Shift" => pick!(m, op, n, o, s, super::rest::$f, m.$f[a]; wrapping_shl(n), wrapping_shr(n), overflowing_shl(n), overflowing_shr(n),
                        checked_shl(n), checked_shr(n), rotate_left(n), rotate_right(n)),
                    "ShiftOp" => match (n / 6) % 4 {
                        0 => shifts!(n as u64), 1 => shifts!(n as i64), 2 => shifts!(n as u128), _ => shifts!(n),
                    },
                    "ShiftReg" => shifts!(y),
                    "ShiftOther" => shifts!(z),
                    "Count" => pick!(m, op, n, o, s, super::rest::$f, m.$f[a]; count_ones(), count_zeros(), leading_zeros(), trailing_zeros(), leading_ones(), trailing_ones()),
                    "Swap" => match op.e { "from_be" => put!(T::from_be(x)), "from_le" => put!(T::from_le(x)), _ => pick!(m, op, n, o, s, super::rest::$f, m.$f[a]; swap_bytes(), reverse_bits(), to_be(), to_le()) },
                    "Pow" => pick!(m, op, n, o, s, super::rest::$f, m.$f[a]; wrapping_pow(n), overflowing_pow(n), checked_pow(n), saturating_pow(n), pow(n)),
                    "Cmp" => match op.e {
                        "max" => put!(if n % 2 == 0 { m.$f[a].max(y) } else { *(&m.$f[a]).max(&m.$f[b]) }),
                        "min" => put!(if n % 2 == 0 { m.$f[a].min(y) } else { *(&m.$f[a]).min(&m.$f[b]) }),
                        "eq" => put!(m.$f[a] == m.$f[b]),
                        "lt" => put!(if n % 2 == 0 { m.$f[a] < m.$f[b] } else { m.$f[b] > m.$f[a] }),
                        "ge" => put!(if n % 2 == 0 { m.$f[a] >= m.$f[b] } else { m.$f[b] <= m.$f[a] }),
                        "ne" => put!(m.$f[a] != m.$f[b]),
                        "le" => put!(if n % 2 == 0 { m.$f[a] <= m.$f[b] } else { m.$f[a].cmp(&m.$f[b]) != std::cmp::Ordering::Greater }),
                        "gt" => put!(if n % 2 == 0 { m.$f[a] > m.$f[b] } else { m.$f[a].partial_cmp(&m.$f[b]) == Some(std::cmp::Ordering::Greater) }),
                        "hash_eq" => put!(rec(&m.$f[a]) == rec(&m.$f[b])),
                        _ => unknown(op),
                    },
                    "Clamp" => { let (l, h) = if x <= y { (x, y) } else { (y, x) }; put!(m.$f[d].clamp(l, h)) }
                    "Words" => {
                        let word = if n % 2 == 0 { *m.$f[a].low() } else { *m.$f[a].high() };
                        match op.e {
                            "set_low" => { *m.$f[d].low_mut() = word; put!(Done(m.$f[d])) }
                            "set_high" => { *m.$f[d].high_mut() = word; put!(Done(m.$f[d])) }
                            "new" => put!(T::new(word)),
                            "swap_words" => { let (h, l): ($Word, $Word) = m.$f[a].into_words(); put!(T::from_words(l, h)) }
                            _ => unknown(op),
                        }
                    }
                    "Bank" => match op.e {
                        "sum" => if n % 2 == 0 { put!(all.iter().sum::<T>()) } else { put!(all.into_iter().sum::<T>()) },
                        "product" => if n % 2 == 0 { put!(all.iter().product::<T>()) } else { put!(all.into_iter().product::<T>()) },
                        "sort" => { if n % 2 == 0 { m.$f.sort() } else { m.$f.sort_unstable_by(|p, q| p.partial_cmp(q).unwrap()) }; put!(Quiet) }
                        "swap" => { m.$f.swap(a, b); put!(Quiet) }
                        _ => unknown(op),
                    },
                    "Trip" => match op.e {
                        "debug" => put!(format!("{:?}", m.$f[a]).parse::<T>()),
                        "decimal" => put!(m.$f[a].to_string().parse::<T>()),
                        "binary" => put!(U256::from_str_radix(&format!("{:b}", m.$f[a]), 2).map(to::$as_self)),
                        "octal" => put!(U256::from_str_radix(&format!("{:o}", m.$f[a]), 8).map(to::$as_self)),
                        "hex" => put!(if n % 2 == 0 { U256::from_str_radix(&format!("{:x}", m.$f[a]), 16).map(to::$as_self) }
                            else { U256::from_str_hex(&format!("{:#x}", m.$f[a])).map(to::$as_self) }),
                        "serde" => { let t = Serialize::serialize(&m.$f[a], Sink { text: true, human: true }).unwrap();
                            put!(<T as Deserialize>::deserialize(StrDeserializer::<Error>::new(std::str::from_utf8(&t).unwrap()))) }
                        "bytes" => put!(match n % 3 { 0 => T::from_le_bytes(m.$f[a].to_le_bytes()), 1 => T::from_be_bytes(m.$f[a].to_be_bytes()),
                            _ => T::from_ne_bytes(m.$f[a].to_ne_bytes()) }),
                        _ => unknown(op),
                    },
                    "Reread" => put!(T::from_str_radix(&m.$f[a].to_string(), 16)),
                    "Float" => match op.e {
                        "f32" => put!(to::$as_self(m.$f[a].as_f32())),
                        "f64" => put!(to::$as_self(m.$f[a].as_f64())),
                        _ => unknown(op),
                    },
                    "Narrow" => narrow!(m, op, o, s, m.$f[a], to::$as_self; u8: as_u8, i8: as_i8, u16: as_u16, i32: as_i32, u64: as_u64, i64: as_i64, u128: as_u128, i128: as_i128),
                    "Cast" => match op.e {
                        "as" => put!(m.$f[a].$as_other()),
                        "try" => if n % 2 == 0 { put!($Other::try_from(m.$f[a])) } else { let r: Result<$Other, _> = m.$f[a].try_into(); put!(r) },
                        "text" => put!($Other::from_str_radix(&m.$f[a].to_string(), 10)),
                        "serde" => {
                            let t = prefixed::serialize(&m.$f[a], Sink { text: true, human: false }).unwrap();
                            let t = StrDeserializer::<Error>::new(std::str::from_utf8(&t).unwrap());
                            if n % 2 == 0 { put!(prefixed::deserialize::<$Other, _>(t)) } else { put!(permissive::deserialize::<$Other, _>(t)) }
                        }
                        "le_bytes" => { let t = compressed_bytes::le::serialize(&m.$f[a], Sink { text: false, human: false }).unwrap();
                            put!(compressed_bytes::le::deserialize::<$Other, _>(BytesDeserializer::<Error>::new(&t))) }
                        "be_bytes" => { let t = compressed_bytes::be::serialize(&m.$f[a], Sink { text: false, human: false }).unwrap();
                            put!(compressed_bytes::be::deserialize::<$Other, _>(BytesDeserializer::<Error>::new(&t))) }
                        "bytes" => put!(match n % 3 { 0 => $Other::from_le_bytes(m.$f[a].to_le_bytes()), 1 => $Other::from_be_bytes(m.$f[a].to_be_bytes()),
                            _ => $Other::from_ne_bytes(m.$f[a].to_ne_bytes()) }),
                        "words" => { let (h, l) = m.$f[a].into_words(); put!($Other::from_words(h as _, l as _)) }
                        "f64" => put!(to::$as_other(m.$f[a].as_f64())),
                        _ => super::rest::$f(m, op, n, o),
                    },
                    "Intr" | "IntrDiv" | "IntrShift" | "IntrCount" => super::intr::$f(m, op, n, o),
                    "AbsDiff" => put!(m.$f[a].abs_diff(y)),
                    _ => super::rest::$f(m, op, n, o),
                }
            }
        }
    };
}
bank!(unsigned, U256, u128, u, I256, i, as_u256, as_i256);
bank!(signed, I256, i128, i, U256, u, as_i256, as_u256);

mod to {
    use super::*;
    use ethnum::{AsI256, AsU256};
    pub fn as_u256<T: AsU256>(x: T) -> U256 {
        x.as_u256()
    }
    pub fn as_i256<T: AsI256>(x: T) -> I256 {
        x.as_i256()
    }
}

/// The exported intrinsics: in place on a register, or into a register that is
/// taken as uninitialized.
mod intr {
    use super::*;
    use ethnum::intrinsics::{self as raw, signed as g};
    use std::mem::MaybeUninit;

    macro_rules! intr {
        ($f:ident, $T:ident, $add2:path, $add3:path, $sub2:path, $sub3:path, $mul2:path, $mul3:path,
         $addc:path, $subc:path, $mulc:path, $div2:path, $div3:path, $rem2:path, $rem3:path,
         $shl2:path, $shl3:path, $shr2:path, $shr3:path, $rol3:path, $ror3:path, $ctlz:path, $cttz:path) => {
            pub fn $f(m: &mut M, op: &Op, n: u32, o: &mut S) {
                let (s, d, a, b) = (op.s, op.d, op.a, op.b);
                let (x, y): ($T, $T) = (m.$f[a], m.$f[b]);
                let mut dest = MaybeUninit::new(m.$f[d]);
                macro_rules! put { ($v:expr) => {{ let v = $v; v.store(m, s, d, o) }} }
                macro_rules! bin { ($two:path, $three:path, $y:expr) => {
                    if n % 2 == 0 {
                        m.$f[d] = x;
                        $two(&mut m.$f[d], $y);
                        put!(Done(m.$f[d]))
                    } else {
                        $three(&mut dest, &x, $y);
                        put!(unsafe { dest.assume_init() })
                    }
                } }
                macro_rules! carry { ($f3:path) => {{
                    let c = $f3(&mut dest, &x, &y);
                    put!((unsafe { dest.assume_init() }, c))
                }} }
                match (op.fam, op.e) {
                    ("Intr", "add") => bin!($add2, $add3, &y),
                    ("Intr", "sub") => bin!($sub2, $sub3, &y),
                    ("Intr", "mul") => bin!($mul2, $mul3, &y),
                    ("Intr", "addc") => carry!($addc),
                    ("Intr", "subc") => carry!($subc),
                    ("Intr", "mulc") => carry!($mulc),
                    ("IntrDiv", _) if y == $T::ZERO || (op.s && x == $T::MIN && !y == $T::ZERO) => put!(Quiet),
                    ("IntrDiv", "div") => bin!($div2, $div3, &y),
                    ("IntrDiv", "rem") => bin!($rem2, $rem3, &y),
                    ("IntrShift", "shl" | "shr") if n >= 256 => put!(Quiet),
                    ("IntrShift", "shl") => bin!($shl2, $shl3, n),
                    ("IntrShift", "shr") => bin!($shr2, $shr3, n),
                    ("IntrShift", "rol") => { $rol3(&mut dest, &x, n); put!(unsafe { dest.assume_init() }) }
                    ("IntrShift", "ror") => { $ror3(&mut dest, &x, n); put!(unsafe { dest.assume_init() }) }
                    ("IntrCount", "ctlz") => put!($ctlz(&x)),
                    ("IntrCount", "cttz") => put!($cttz(&x)),
                    _ => unknown(op),
                }
            }
        };
    }
    intr!(u, U256, raw::add2, raw::add3, raw::sub2, raw::sub3, raw::mul2, raw::mul3,
        raw::uaddc, raw::usubc, raw::umulc, raw::udiv2, raw::udiv3, raw::urem2, raw::urem3,
        raw::shl2, raw::shl3, raw::shr2, raw::shr3, raw::rol3, raw::ror3, raw::ctlz, raw::cttz);
    intr!(i, I256, g::iadd2, g::iadd3, g::isub2, g::isub3, g::imul2, g::imul3,
        g::iaddc, g::isubc, g::imulc, g::idiv2, g::idiv3, g::irem2, g::irem3,
        g::ishl2, g::ishl3, g::isar2, g::isar3, g::irol3, g::iror3, g::ictlz, g::icttz);
}

mod rest {
    use super::*;
    pub fn u(m: &mut M, op: &Op, _: u32, o: &mut S) {
        let (d, x, z) = (op.d, m.u[op.a], m.i[op.b]);
        macro_rules! put { ($v:expr) => {{ let v = $v; v.store(m, false, d, o) }} }
        match op.e {
            "wrapping_add_signed" => put!(x.wrapping_add_signed(z)),
            "overflowing_add_signed" => put!(x.overflowing_add_signed(z)),
            "checked_add_signed" => put!(x.checked_add_signed(z)),
            "saturating_add_signed" => put!(x.saturating_add_signed(z)),
            "is_power_of_two" => put!(x.is_power_of_two()),
            "next_power_of_two" => put!(x.next_power_of_two()),
            "checked_next_power_of_two" => put!(x.checked_next_power_of_two()),
            _ => unknown(op),
        }
    }
    pub fn i(m: &mut M, op: &Op, n: u32, o: &mut S) {
        let (d, x, z) = (op.d, m.i[op.a], m.u[op.b]);
        macro_rules! put { ($v:expr) => {{ let v = $v; v.store(m, true, d, o) }} }
        match op.e {
            "wrapping_add_unsigned" => put!(x.wrapping_add_unsigned(z)),
            "overflowing_add_unsigned" => put!(x.overflowing_add_unsigned(z)),
            "checked_add_unsigned" => put!(x.checked_add_unsigned(z)),
            "saturating_add_unsigned" => put!(x.saturating_add_unsigned(z)),
            "wrapping_sub_unsigned" => put!(x.wrapping_sub_unsigned(z)),
            "overflowing_sub_unsigned" => put!(x.overflowing_sub_unsigned(z)),
            "checked_sub_unsigned" => put!(x.checked_sub_unsigned(z)),
            "saturating_sub_unsigned" => put!(x.saturating_sub_unsigned(z)),
            "neg" => if n % 2 == 0 { put!(-x) } else { put!(-&x) },
            "abs" => put!(x.abs()),
            "wrapping_abs" => put!(x.wrapping_abs()),
            "overflowing_abs" => put!(x.overflowing_abs()),
            "checked_abs" => put!(x.checked_abs()),
            "saturating_abs" => put!(x.saturating_abs()),
            "signum" => put!(x.signum()),
            "saturating_neg" => put!(x.saturating_neg()),
            "signum128" => put!(I256::new(x.signum128())),
            "is_negative" => put!(x.is_negative()),
            "is_positive" => put!(x.is_positive()),
            "unsigned_abs" => put!(x.unsigned_abs()),
            _ => unknown(op),
        }
    }
}

fn main() {
    // Run u0 u1 u2 i0 i1 i2, then steps fam:e:s:d:a:b:n; one entry per step
    serve(|q, out| {
        let mut m = M {
            u: [q.get(0), q.get(1), q.get(2)],
            i: [q.get(3), q.get(4), q.get(5)],
        };
        for (k, t) in q.args[6..].iter().enumerate() {
            let f: Vec<&str> = t.split(':').collect();
            let op = Op {
                fam: f[0],
                e: f[1],
                s: f[2] == "1",
                d: f[3].parse().unwrap(),
                a: f[4].parse().unwrap(),
                b: f[5].parse().unwrap(),
                n: f[6],
            };
            let n: u32 = if op.fam == "Load" { 0 } else { op.n.parse().unwrap() };
            let before = m;
            let mut o = S::new();
            let r = catch_unwind(AssertUnwindSafe(|| {
                if op.s { signed::step(&mut m, &op, n, &mut o) } else { unsigned::step(&mut m, &op, n, &mut o) }
            }));
            if r.is_err() {
                o = "P".into();
                // the in-place forms first copy the operand into the target, where the
                // panic has to leave it
                let (d, a) = (op.d, op.a);
                if m.i[d] == before.i[a] { m.i[d] = before.i[d] }
                if m.u[d] == before.u[a] { m.u[d] = before.u[d] }
            }
            for x in m.u { o.push(';'); x.tok(&mut o) }
            for x in m.i { o.push(';'); x.tok(&mut o) }
            out.put(&format!("s{k}"), &o);
        }
    });
}
