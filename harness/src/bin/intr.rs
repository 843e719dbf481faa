//! The exported intrinsics: in-place and out-of-place forms.
use ethnum::intrinsics::{self as raw, signed as g};
use ethnum::{I256, U256};
use harness::*;
use std::mem::MaybeUninit;

// The out-of-place destination is filled with a pattern first, so that an
// incomplete write is visible as a wrong result rather than undefined.
fn three<T: Copy>(dirt: T, f: impl FnOnce(&mut MaybeUninit<T>)) -> T {
    let mut r = MaybeUninit::new(dirt);
    f(&mut r);
    unsafe { r.assume_init() }
}
fn carry<T: Copy>(dirt: T, f: impl FnOnce(&mut MaybeUninit<T>) -> bool) -> (T, bool) {
    let mut r = MaybeUninit::new(dirt);
    let c = f(&mut r);
    (unsafe { r.assume_init() }, c)
}

macro_rules! family {
    ($f:ident, $T:ident, $dirt:expr,
     $add2:path, $add3:path, $sub2:path, $sub3:path, $mul2:path, $mul3:path,
     $addc:path, $subc:path, $mulc:path, $div2:path, $div3:path, $rem2:path, $rem3:path,
     $shl2:path, $shl3:path, $shr2:path, $shr3:path, $rol3:path, $ror3:path, $ctlz:path, $cttz:path) => {
        fn $f(q: &Req, o: &mut Out) {
            let a: $T = q.get(1);
            let dirt: $T = $dirt;
            macro_rules! bin { ($n:literal, $two:path, $three:path, $b:expr) => {
                o.forms($n, &[
                    ("two", run(|| { let mut r = a; $two(&mut r, $b); r })),
                    ("three", run(|| three(dirt, |r| $three(r, &a, $b)))),
                ]);
            } }
            match q.fam {
                "Intr" => {
                    let b: $T = q.get(2);
                    bin!("add", $add2, $add3, &b);
                    bin!("sub", $sub2, $sub3, &b);
                    bin!("mul", $mul2, $mul3, &b);
                    o.one("addc", || carry(dirt, |r| $addc(r, &a, &b)));
                    o.one("subc", || carry(dirt, |r| $subc(r, &a, &b)));
                    o.one("mulc", || carry(dirt, |r| $mulc(r, &a, &b)));
                }
                "IntrDiv" => {
                    let b: $T = q.get(2);
                    bin!("div", $div2, $div3, &b);
                    bin!("rem", $rem2, $rem3, &b);
                }
                "IntrShift" => {
                    let n: u32 = q.get(2);
                    if n < 256 {
                        bin!("shl", $shl2, $shl3, n);
                        bin!("shr", $shr2, $shr3, n);
                    }
                    o.one("rol", || three(dirt, |r| $rol3(r, &a, n)));
                    o.one("ror", || three(dirt, |r| $ror3(r, &a, n)));
                }
                "IntrCount" => {
                    o.one("ctlz", || $ctlz(&a));
                    o.one("cttz", || $cttz(&a));
                }
                _ => panic!("unknown family"),
            }
        }
    };
}

family!(u_named, U256, U256::from_words(0x5a5a << 100, 0xa5a5 << 90),
    g::uadd2, g::uadd3, g::usub2, g::usub3, g::umul2, g::umul3,
    g::uaddc, g::usubc, g::umulc, g::udiv2, g::udiv3, g::urem2, g::urem3,
    g::ushl2, g::ushl3, g::ushr2, g::ushr3, g::urol3, g::uror3, g::uctlz, g::ucttz);
family!(u_raw, U256, U256::from_words(0x1234 << 100, 0x4321 << 90),
    raw::add2, raw::add3, raw::sub2, raw::sub3, raw::mul2, raw::mul3,
    raw::uaddc, raw::usubc, raw::umulc, raw::udiv2, raw::udiv3, raw::urem2, raw::urem3,
    raw::shl2, raw::shl3, raw::shr2, raw::shr3, raw::rol3, raw::ror3, raw::ctlz, raw::cttz);
family!(s_named, I256, I256::from_words(0x5a5a << 100, 0xa5a5 << 90),
    g::iadd2, g::iadd3, g::isub2, g::isub3, g::imul2, g::imul3,
    g::iaddc, g::isubc, g::imulc, g::idiv2, g::idiv3, g::irem2, g::irem3,
    g::ishl2, g::ishl3, g::isar2, g::isar3, g::irol3, g::iror3, g::ictlz, g::icttz);

fn main() {
    serve(|q, o| {
        if q.signed() {
            s_named(q, o);
        } else {
            u_named(q, o);
            let mut p = Out::default();
            u_raw(q, &mut p);
            if p.line != o.line {
                // keep both sets of entries apart when they disagree
                for e in p.line.split(' ') {
                    let (n, t) = e.split_once('=').unwrap();
                    o.put(&format!("{}.raw", n.split('.').next().unwrap()), t);
                }
            }
        }
    });
}
