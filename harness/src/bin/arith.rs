//! Named methods: ring arithmetic, division, shifts, bits, powers, order,
//! magnitude, bytes, words, folds.
use ethnum::{I256, U256};
use harness::*;
use std::hash::{Hash, Hasher};

/// Records everything written to it: two values hash equally under every
/// hasher iff the recordings agree.
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn rec<T: Hash>(x: &T) -> Vec<u8> {
    let mut r = Rec::default();
    x.hash(&mut r);
    r.0
}
fn std_hash<T: Hash>(x: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// An iterator that may not be asked again once it has ended, and that bounds
/// its length from above and below only loosely.
struct Strict<I>(I, usize, bool);
impl<I: Iterator> Strict<I> {
    fn new(i: I, slack: usize) -> Self {
        Strict(i, slack, false)
    }
}
impl<I: Iterator> Iterator for Strict<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        assert!(!self.2, "asked after the end");
        let x = self.0.next();
        self.2 = x.is_none();
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.1 == 0 { (0, None) } else { (0, self.0.size_hint().1.map(|n| n + self.1)) }
    }
}

macro_rules! family {
    ($mod:ident, $T:ident, $Prim:ident, $Other:ident) => {
        mod $mod {
            use super::*;
            pub fn handle(q: &Req, o: &mut Out) -> bool {
                match q.fam {
                    "Wrap" => {
                        let (a, b): ($T, $T) = (q.get(1), q.get(2));
                        calls!(o, a; wrapping_add(b), wrapping_sub(b), wrapping_mul(b), wrapping_neg());
                    }
                    "Ovf" => {
                        let (a, b): ($T, $T) = (q.get(1), q.get(2));
                        calls!(o, a; overflowing_add(b), overflowing_sub(b), overflowing_mul(b),
                            checked_add(b), checked_sub(b), checked_mul(b),
                            saturating_add(b), saturating_sub(b), saturating_mul(b));
                    }
                    "Neg" => {
                        let a: $T = q.get(1);
                        calls!(o, a; overflowing_neg(), checked_neg(), wrapping_neg());
                        super::neg_extra::$mod(a, o);
                    }
                    "Div" => {
                        let (a, b): ($T, $T) = (q.get(1), q.get(2));
                        o.one("div", || a / b);
                        o.one("rem", || a % b);
                        calls!(o, a; wrapping_div(b), wrapping_rem(b), overflowing_div(b), overflowing_rem(b),
                            checked_div(b), checked_rem(b), saturating_div(b),
                            div_rem(b), wrapping_div_rem(b), overflowing_div_rem(b),
                            checked_div_rem(b), saturating_div_rem(b));
                    }
                    "DivEuclid" => {
                        let (a, b): ($T, $T) = (q.get(1), q.get(2));
                        calls!(o, a; div_euclid(b), rem_euclid(b), wrapping_div_euclid(b), wrapping_rem_euclid(b),
                            overflowing_div_euclid(b), overflowing_rem_euclid(b),
                            checked_div_euclid(b), checked_rem_euclid(b),
                            div_rem_euclid(b), wrapping_div_rem_euclid(b), overflowing_div_rem_euclid(b),
                            checked_div_rem_euclid(b), saturating_div_rem_euclid(b));
                    }
                    "Shift" => {
                        let (a, n): ($T, u32) = (q.get(1), q.get(2));
                        calls!(o, a; wrapping_shl(n), wrapping_shr(n), overflowing_shl(n), overflowing_shr(n),
                            checked_shl(n), checked_shr(n), rotate_left(n), rotate_right(n));
                    }
                    "Count" => {
                        let a: $T = q.get(1);
                        calls!(o, a; count_ones(), count_zeros(), leading_zeros(), trailing_zeros(),
                            leading_ones(), trailing_ones());
                    }
                    "Swap" => {
                        let a: $T = q.get(1);
                        calls!(o, a; swap_bytes(), reverse_bits(), to_be(), to_le());
                        o.one("from_be", || $T::from_be(a));
                        o.one("from_le", || $T::from_le(a));
                    }
                    "Pow" => {
                        let (a, e): ($T, u32) = (q.get(1), q.get(2));
                        calls!(o, a; wrapping_pow(e), overflowing_pow(e), checked_pow(e), saturating_pow(e), pow(e));
                    }
                    "Cmp" => {
                        let (a, b): ($T, $T) = (q.get(1), q.get(2));
                        let pa = prim(a);
                        let pb = prim(b);
                        macro_rules! rel { ($name:literal, $x:ident, $y:ident, $e:expr) => {{
                            let mut f = vec![("vv", { let ($x, $y) = (a, b); run(|| $e) }),
                                             ("rr", { let ($x, $y) = (&a, &b); run(|| $e) })];
                            if let Some(p) = pb { let ($x, $y) = (a, p); f.push(("vp", run(|| $e))); }
                            if let Some(p) = pa { let ($x, $y) = (p, b); f.push(("pv", run(|| $e))); }
                            o.forms($name, &f);
                        }} }
                        rel!("eq", x, y, x == y);
                        rel!("ne", x, y, x != y);
                        rel!("lt", x, y, x < y);
                        rel!("le", x, y, x <= y);
                        rel!("gt", x, y, x > y);
                        rel!("ge", x, y, x >= y);
                        let mut f = vec![("vv", run(|| a.partial_cmp(&b)))];
                        if let Some(p) = pb { f.push(("vp", run(|| a.partial_cmp(&p)))); }
                        if let Some(p) = pa { f.push(("pv", run(|| p.partial_cmp(&b)))); }
                        o.forms("partial_cmp", &f);
                        o.one("cmp", || a.cmp(&b));
                        o.one("max", || a.max(b));
                        o.one("min", || a.min(b));
                        o.forms("hash_eq", &[
                            ("recorded", run(|| rec(&a) == rec(&b))),
                            ("sip", run(|| std_hash(&a) == std_hash(&b))),
                        ]);
                    }
                    "Clamp" => {
                        let (a, b, c): ($T, $T, $T) = (q.get(1), q.get(2), q.get(3));
                        o.one("clamp", || if b <= c { a.clamp(b, c) } else { a.clamp(c, b) });
                        let mut v = vec![a, b, c];
                        let w = v.clone();
                        o.forms("sorted_min", &[("iter", run(|| *w.iter().min().unwrap())), ("sort", run(|| { v.sort(); v[0] }))]);
                        o.forms("sorted_max", &[("iter", run(|| *w.iter().max().unwrap())), ("sort", run(|| v[2]))]);
                    }
                    "AbsDiff" => {
                        let (a, b): ($T, $T) = (q.get(1), q.get(2));
                        calls!(o, a; abs_diff(b));
                    }
                    "Bytes" => {
                        let a: $T = q.get(1);
                        calls!(o, a; to_be_bytes(), to_le_bytes(), to_ne_bytes());
                    }
                    "FromBytes" => {
                        let v: Vec<u8> = q.get(1);
                        let b: [u8; 32] = v.try_into().unwrap();
                        o.one("from_be_bytes", || $T::from_be_bytes(b));
                        o.one("from_le_bytes", || $T::from_le_bytes(b));
                        o.one("from_ne_bytes", || $T::from_ne_bytes(b));
                    }
                    "Words" => {
                        let (a, b): ($T, $T) = (q.get(1), q.get(2));
                        let x: $Prim = b.into_words().1 as $Prim;
                        o.one("into_words", || a.into_words());
                        o.one("high", || *a.high());
                        o.one("low", || *a.low());
                        o.one("from_words", || { let (h, l) = a.into_words(); $T::from_words(h, l) });
                        o.one("new", || $T::new(x));
                        o.one("set_low", || { let mut m = a; *m.low_mut() = x; m });
                        o.one("set_high", || { let mut m = a; *m.high_mut() = x; m });
                    }
                    "Fold" => {
                        let n = q.args.len();
                        let v: Vec<$T> = (1..n).map(|i| q.get(i)).collect();
                        o.forms("sum", &[
                            ("owned", run(|| v.iter().copied().sum::<$T>())),
                            ("borrowed", run(|| v.iter().sum::<$T>())),
                            ("owned.strict", run(|| Strict::new(v.iter().copied(), 0).sum::<$T>())),
                            ("borrowed.strict", run(|| Strict::new(v.iter(), 0).sum::<$T>())),
                            ("owned.wide", run(|| Strict::new(v.iter().copied(), 1).sum::<$T>())),
                            ("borrowed.wide", run(|| Strict::new(v.iter(), 1).sum::<$T>())),
                            ("owned.chain", run(|| { let (a, b) = v.split_at(v.len() / 2); a.iter().copied().chain(b.to_vec()).filter(|_| true).sum::<$T>() })),
                            ("borrowed.chain", run(|| { let (a, b) = v.split_at(v.len() / 3); a.iter().chain(b).map(|x| x).sum::<$T>() })),
                        ]);
                        o.forms("product", &[
                            ("owned", run(|| v.iter().copied().product::<$T>())),
                            ("borrowed", run(|| v.iter().product::<$T>())),
                            ("owned.strict", run(|| Strict::new(v.iter().copied(), 0).product::<$T>())),
                            ("borrowed.strict", run(|| Strict::new(v.iter(), 0).product::<$T>())),
                            ("owned.wide", run(|| Strict::new(v.iter().copied(), 1).product::<$T>())),
                            ("borrowed.wide", run(|| Strict::new(v.iter(), 1).product::<$T>())),
                            ("owned.chain", run(|| { let (a, b) = v.split_at(v.len() / 2); a.iter().copied().chain(b.to_vec()).filter(|_| true).product::<$T>() })),
                            ("borrowed.chain", run(|| { let (a, b) = v.split_at(v.len() / 3); a.iter().chain(b).map(|x| x).product::<$T>() })),
                        ]);
                    }
                    "Consts" => {
                        o.one("MIN", || $T::MIN);
                        o.one("MAX", || $T::MAX);
                        o.one("BITS", || $T::BITS);
                        o.one("ZERO", || $T::ZERO);
                        o.one("ONE", || $T::ONE);
                        o.one("default", || $T::default());
                        super::consts_extra::$mod(o);
                    }
                    _ => return super::extra::$mod(q, o),
                }
                true
            }
            fn prim(a: $T) -> Option<$Prim> {
                let p = a.into_words().1 as $Prim;
                let fill = if <$Prim>::MIN == 0 { 0 } else { (p >> 127) as i128 };
                if a.into_words().0 as i128 == fill as i128 { Some(p) } else { None }
            }
        }
    };
}
family!(s, I256, i128, U256);
family!(u, U256, u128, I256);

mod consts_extra {
    use super::*;
    pub fn s(o: &mut Out) {
        o.one("MINUS_ONE", || I256::MINUS_ONE);
        o.one("alias", || ethnum::i256::MAX == I256::MAX);
    }
    pub fn u(o: &mut Out) {
        o.one("alias", || ethnum::u256::MAX == U256::MAX);
    }
}

mod neg_extra {
    use super::*;
    pub fn s(a: I256, o: &mut Out) {
        calls!(o, a; saturating_neg(), overflowing_abs(), checked_abs(), wrapping_abs(), saturating_abs());
    }
    pub fn u(_: U256, _: &mut Out) {}
}

mod extra {
    use super::*;
    pub fn s(q: &Req, o: &mut Out) -> bool {
        match q.fam {
            "WrapMixed" => {
                let (a, b): (I256, U256) = (q.get(1), q.get(2));
                calls!(o, a; wrapping_add_unsigned(b), wrapping_sub_unsigned(b));
            }
            "OvfMixed" => {
                let (a, b): (I256, U256) = (q.get(1), q.get(2));
                calls!(o, a; overflowing_add_unsigned(b), overflowing_sub_unsigned(b),
                    checked_add_unsigned(b), checked_sub_unsigned(b),
                    saturating_add_unsigned(b), saturating_sub_unsigned(b));
            }
            "Sign" => {
                let a: I256 = q.get(1);
                calls!(o, a; abs(), unsigned_abs(), wrapping_abs(), overflowing_abs(), checked_abs(),
                    saturating_abs(), saturating_neg(), signum(), signum128(), is_positive(), is_negative());
            }
            _ => return false,
        }
        true
    }
    pub fn u(q: &Req, o: &mut Out) -> bool {
        match q.fam {
            "WrapMixed" => {
                let (a, b): (U256, I256) = (q.get(1), q.get(2));
                calls!(o, a; wrapping_add_signed(b));
            }
            "OvfMixed" => {
                let (a, b): (U256, I256) = (q.get(1), q.get(2));
                calls!(o, a; overflowing_add_signed(b), checked_add_signed(b), saturating_add_signed(b));
            }
            "Pow2" => {
                let a: U256 = q.get(1);
                calls!(o, a; is_power_of_two(), next_power_of_two(), checked_next_power_of_two());
            }
            _ => return false,
        }
        true
    }
}

fn main() {
    serve(|q, o| {
        let ok = if q.signed() { s::handle(q, o) } else { u::handle(q, o) };
        assert!(ok, "unknown family");
    });
}
