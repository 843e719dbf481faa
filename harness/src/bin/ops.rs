//! Operators in every operand form.
use ethnum::{I256, U256};
use harness::*;

/// The primitive holding the same value, if there is one.
trait Prim128: Copy {
    type P: Copy;
    fn prim(self) -> Option<Self::P>;
}
impl Prim128 for U256 {
    type P = u128;
    fn prim(self) -> Option<u128> {
        let (h, l) = self.into_words();
        (h == 0).then_some(l)
    }
}
impl Prim128 for I256 {
    type P = i128;
    fn prim(self) -> Option<i128> {
        let (h, l) = self.into_words();
        (h == l >> 127).then_some(l)
    }
}

macro_rules! binop {
    ($o:expr, $name:literal, $a:ident $op:tt $b:ident, $asg:tt) => {{
        let (a, b) = ($a, $b);
        let mut f: Vec<(&str, S)> = vec![
            ("vv", run(|| a $op b)),
            ("vr", run(|| a $op &b)),
            ("rv", run(|| &a $op b)),
            ("rr", run(|| &a $op &b)),
            ("asg_v", run(|| { let mut x = a; x $asg b; x })),
            ("asg_r", run(|| { let mut x = a; x $asg &b; x })),
        ];
        if let Some(p) = b.prim() {
            f.push(("vp", run(|| a $op p)));
            f.push(("v_rp", run(|| a $op &p)));
            f.push(("rp", run(|| &a $op p)));
            f.push(("r_rp", run(|| &a $op &p)));
            f.push(("asg_p", run(|| { let mut x = a; x $asg p; x })));
            f.push(("asg_rp", run(|| { let mut x = a; x $asg &p; x })));
        }
        if let Some(p) = a.prim() {
            f.push(("pv", run(|| p $op b)));
            f.push(("pr", run(|| p $op &b)));
            f.push(("rp_v", run(|| &p $op b)));
            f.push(("rp_r", run(|| &p $op &b)));
        }
        $o.forms($name, &f);
    }};
}

macro_rules! shiftop {
    ($q:expr, $o:expr, $T:ident, $name:literal, $op:tt, $asg:tt) => {{
        let a: $T = $q.get(1);
        let mut f: Vec<(&str, S)> = Vec::new();
        macro_rules! amount { ($ty:ident, $n:expr) => {
            if let Some(n) = $n {
                f.push((stringify!($ty), run(|| a $op n)));
                f.push((concat!(stringify!($ty), "_r"), run(|| a $op &n)));
                f.push((concat!("r_", stringify!($ty)), run(|| &a $op n)));
                f.push((concat!("r_", stringify!($ty), "_r"), run(|| &a $op &n)));
                f.push((concat!("asg_", stringify!($ty)), run(|| { let mut x = a; x $asg n; x })));
                f.push((concat!("asg_", stringify!($ty), "_r"), run(|| { let mut x = a; x $asg &n; x })));
            }
        } }
        // args: value, decimal amount or "-", unsigned words or "-", signed words or "-"
        let n = $q.args[2];
        amount!(i8, n.parse::<i8>().ok());
        amount!(i16, n.parse::<i16>().ok());
        amount!(i32, n.parse::<i32>().ok());
        amount!(i64, n.parse::<i64>().ok());
        amount!(i128, n.parse::<i128>().ok());
        amount!(isize, n.parse::<isize>().ok());
        amount!(u8, n.parse::<u8>().ok());
        amount!(u16, n.parse::<u16>().ok());
        amount!(u32, n.parse::<u32>().ok());
        amount!(u64, n.parse::<u64>().ok());
        amount!(u128, n.parse::<u128>().ok());
        amount!(usize, n.parse::<usize>().ok());
        amount!(U256, ($q.args[3] != "-").then(|| $q.get::<U256>(3)));
        amount!(I256, ($q.args[4] != "-").then(|| $q.get::<I256>(4)));
        $o.forms($name, &f);
    }};
}

macro_rules! family {
    ($f:ident, $T:ident) => {
        fn $f(q: &Req, o: &mut Out) {
            match q.fam {
                "Ops" => {
                    let (a, b): ($T, $T) = (q.get(1), q.get(2));
                    binop!(o, "add", a + b, +=);
                    binop!(o, "sub", a - b, -=);
                    binop!(o, "mul", a * b, *=);
                    binop!(o, "div", a / b, /=);
                    binop!(o, "rem", a % b, %=);
                }
                "BitOps" => {
                    let (a, b): ($T, $T) = (q.get(1), q.get(2));
                    binop!(o, "bitand", a & b, &=);
                    binop!(o, "bitor", a | b, |=);
                    binop!(o, "bitxor", a ^ b, ^=);
                    o.forms("not", &[("v", run(|| !a)), ("r", run(|| !&a))]);
                }
                "NegOp" => {
                    let a: I256 = q.get(1);
                    o.forms("neg", &[("v", run(|| -a)), ("r", run(|| -&a))]);
                }
                "ShiftOp" => {
                    shiftop!(q, o, $T, "shl", <<, <<=);
                    shiftop!(q, o, $T, "shr", >>, >>=);
                }
                _ => panic!("unknown family"),
            }
        }
    };
}
family!(s, I256);
family!(u, U256);

fn main() {
    serve(|q, o| if q.signed() { s(q, o) } else { u(q, o) });
}
