//! Conversions between integer types and to and from floats.
use ethnum::{AsI256, AsU256, I256, U256};
use harness::*;

macro_rules! family {
    ($f:ident, $T:ident) => {
        fn $f(q: &Req, o: &mut Out) -> bool {
            match q.fam {
                "As" => {
                    let a: $T = q.get(1);
                    calls!(o, a; as_i8(), as_i16(), as_i32(), as_i64(), as_i128(), as_isize(),
                        as_u8(), as_u16(), as_u32(), as_u64(), as_u128(), as_usize());
                    o.forms("as_i256", &[("m", run(|| a.as_i256())), ("t", run(|| AsI256::as_i256(a)))]);
                    o.forms("as_u256", &[("m", run(|| a.as_u256())), ("t", run(|| AsU256::as_u256(a)))]);
                }
                "Try" => {
                    let a: $T = q.get(1);
                    macro_rules! t { ($n:literal, $P:ident) => {
                        o.forms($n, &[("from", run(|| $P::try_from(a))),
                            ("into", run(|| -> Result<$P, _> { a.try_into() }))]);
                    } }
                    t!("try_i8", i8); t!("try_i16", i16); t!("try_i32", i32); t!("try_i64", i64);
                    t!("try_i128", i128); t!("try_isize", isize);
                    t!("try_u8", u8); t!("try_u16", u16); t!("try_u32", u32); t!("try_u64", u64);
                    t!("try_u128", u128); t!("try_usize", usize);
                    other::$f(a, o);
                }
                "ToFloat" => {
                    let a: $T = q.get(1);
                    calls!(o, a; as_f32(), as_f64());
                    o.one("into_f32", || f32::from(a));
                    o.one("into_f64", || f64::from(a));
                }
                _ => return false,
            }
            true
        }
    };
}
family!(s, I256);
family!(u, U256);

mod other {
    use super::*;
    pub fn s(a: I256, o: &mut Out) {
        o.one("try_u256", || U256::try_from(a));
    }
    pub fn u(a: U256, o: &mut Out) {
        o.one("try_i256", || I256::try_from(a));
    }
}

// Every primitive conversion that exists for type $P holding x. From and
// TryFrom are both covered: a From implementation provides TryFrom.
macro_rules! from_prim {
    ($o:expr, $x:expr, $P:ident, try: $($into_i:tt)?) => {{
        let x: $P = $x;
        $o.one(concat!("as_u256.", stringify!($P)), || x.as_u256());
        $o.one(concat!("as_i256.", stringify!($P)), || x.as_i256());
        $o.one(concat!("into_u256.", stringify!($P)), || U256::try_from(x).map_err(|_| ()));
        $(let _ = $into_i; $o.one(concat!("into_i256.", stringify!($P)), || I256::from(x));)?
    }};
    ($o:expr, $x:expr, $P:ident, from) => {{
        let x: $P = $x;
        $o.one(concat!("as_u256.", stringify!($P)), || x.as_u256());
        $o.one(concat!("as_i256.", stringify!($P)), || x.as_i256());
        $o.one(concat!("into_u256.", stringify!($P)), || U256::from(x));
        $o.one(concat!("into_i256.", stringify!($P)), || I256::from(x));
    }};
}

fn main() {
    serve(|q, o| match q.fam {
        // From type value
        "From" => match q.args[0] {
            "bool" => from_prim!(o, q.args[1] == "1", bool, from),
            "u8" => from_prim!(o, q.get(1), u8, from),
            "u16" => from_prim!(o, q.get(1), u16, from),
            "u32" => from_prim!(o, q.get(1), u32, from),
            "u64" => from_prim!(o, q.get(1), u64, from),
            "u128" => from_prim!(o, q.get(1), u128, from),
            "usize" => from_prim!(o, q.get(1), usize, try:),
            "i8" => from_prim!(o, q.get(1), i8, try: 1),
            "i16" => from_prim!(o, q.get(1), i16, try: 1),
            "i32" => from_prim!(o, q.get(1), i32, try: 1),
            "i64" => from_prim!(o, q.get(1), i64, try: 1),
            "i128" => from_prim!(o, q.get(1), i128, try: 1),
            "isize" => from_prim!(o, q.get(1), isize, try:),
            _ => panic!("unknown type"),
        },
        "FromF32" => {
            let x = f32::from_bits(q.get(0));
            o.one("as_u256", || x.as_u256());
            o.one("as_i256", || x.as_i256());
        }
        "FromF64" => {
            let x = f64::from_bits(q.get(0));
            o.one("as_u256", || x.as_u256());
            o.one("as_i256", || x.as_i256());
        }
        _ => {
            let ok = if q.signed() { s(q, o) } else { u(q, o) };
            assert!(ok, "unknown family");
        }
    });
}
