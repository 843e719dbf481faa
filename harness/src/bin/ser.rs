//! Serde forms.
use ethnum::serde::{bytes, compressed_bytes, decimal, permissive, prefixed};
use ethnum::{I256, U256};
use harness::fmt_serde::{Open, Sink, Strict};
use harness::*;
use serde::de::value::{
    BorrowedBytesDeserializer, BorrowedStrDeserializer, BytesDeserializer, Error, SeqDeserializer,
    StrDeserializer, StringDeserializer,
};
use serde::de::IntoDeserializer;
use serde::{Deserialize, Serialize};

/// Hides the length of an iterator.
struct NoHint<I>(I);
impl<I: Iterator> Iterator for NoHint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}

macro_rules! de_int {
    ($q:expr, $o:expr, $T:ident; $($P:ident),*) => { match $q.args[1] {
        $(stringify!($P) => {
            let x: $P = $q.get(2);
            $o.one("permissive", || permissive::deserialize::<$T, _>(IntoDeserializer::<Error>::into_deserializer(x)));
        })*
        _ => panic!("unknown type"),
    } };
}

macro_rules! family {
    ($f:ident, $T:ident) => {
        fn $f(q: &Req, o: &mut Out) {
            // Every text form by name.
            macro_rules! texts { ($m:ident) => {
                $m!("default", <$T as Serialize>::serialize, <$T as Deserialize>::deserialize);
                $m!("decimal", decimal::serialize, decimal::deserialize::<$T, _>);
                $m!("prefixed", prefixed::serialize, prefixed::deserialize::<$T, _>);
                $m!("permissive", permissive::serialize, permissive::deserialize::<$T, _>);
            } }
            macro_rules! blobs { ($m:ident) => {
                $m!("bytes_le", bytes::le::serialize, bytes::le::deserialize::<$T, _>);
                $m!("bytes_be", bytes::be::serialize, bytes::be::deserialize::<$T, _>);
                $m!("bytes_ne", bytes::ne::serialize, bytes::ne::deserialize::<$T, _>);
                $m!("compressed_le", compressed_bytes::le::serialize, compressed_bytes::le::deserialize::<$T, _>);
                $m!("compressed_be", compressed_bytes::be::serialize, compressed_bytes::be::deserialize::<$T, _>);
                $m!("compressed_ne", compressed_bytes::ne::serialize, compressed_bytes::ne::deserialize::<$T, _>);
            } }
            match q.fam {
                "SerText" => {
                    let a: $T = q.get(1);
                    macro_rules! m { ($n:literal, $ser:expr, $de:expr) => {
                        o.forms($n, &[
                            ("human", run(|| $ser(&a, Sink { text: true, human: true }))),
                            ("compact", run(|| $ser(&a, Sink { text: true, human: false }))),
                        ]);
                    } }
                    texts!(m);
                }
                "SerBytes" => {
                    let a: $T = q.get(1);
                    macro_rules! m { ($n:literal, $ser:expr, $de:expr) => {
                        o.forms($n, &[
                            ("human", run(|| $ser(&a, Sink { text: false, human: true }))),
                            ("compact", run(|| $ser(&a, Sink { text: false, human: false }))),
                        ]);
                    } }
                    blobs!(m);
                }
                "DeText" => {
                    let v: Vec<u8> = q.get(1);
                    let t = std::str::from_utf8(&v).ok();
                    macro_rules! m { ($n:literal, $ser:expr, $de:expr) => {{
                        let mut f: Vec<(&str, S)> = Vec::new();
                        if let Some(t) = t {
                            f.push(("str", run(|| $de(StrDeserializer::<Error>::new(t)))));
                            f.push(("borrowed", run(|| $de(BorrowedStrDeserializer::<Error>::new(t)))));
                            f.push(("string", run(|| $de(StringDeserializer::<Error>::new(t.to_string())))));
                            if $n != "permissive" {
                                f.push(("strict", run(|| $de(Strict::Text(t)))));
                            }
                        }
                        if $n != "permissive" {
                            f.push(("bytes", run(|| $de(BytesDeserializer::<Error>::new(&v)))));
                            f.push(("borrowed_bytes", run(|| $de(BorrowedBytesDeserializer::<Error>::new(&v)))));
                        } else if t.is_none() {
                            f.push(("bytes", run(|| $de(BytesDeserializer::<Error>::new(&v)))));
                        }
                        o.forms($n, &f);
                    }} }
                    texts!(m);
                }
                "DeInt" => {
                    // signed flag, type, value
                    de_int!(q, o, $T; u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
                }
                "DeF32" => {
                    let x = f32::from_bits(q.get(1));
                    o.one("permissive", || permissive::deserialize::<$T, _>(IntoDeserializer::<Error>::into_deserializer(x)));
                }
                "DeF64" => {
                    let x = f64::from_bits(q.get(1));
                    o.one("permissive", || permissive::deserialize::<$T, _>(IntoDeserializer::<Error>::into_deserializer(x)));
                }
                "DeOther" => {
                    o.one("permissive_bool", || permissive::deserialize::<$T, _>(IntoDeserializer::<Error>::into_deserializer(true)));
                    o.one("permissive_unit", || permissive::deserialize::<$T, _>(IntoDeserializer::<Error>::into_deserializer(())));
                    o.one("permissive_seq", || permissive::deserialize::<$T, _>(SeqDeserializer::<_, Error>::new([1u8].into_iter())));
                    o.one("default_int", || <$T as Deserialize>::deserialize(IntoDeserializer::<Error>::into_deserializer(7u64)));
                    o.one("decimal_int", || decimal::deserialize::<$T, _>(IntoDeserializer::<Error>::into_deserializer(7u64)));
                    o.one("prefixed_int", || prefixed::deserialize::<$T, _>(IntoDeserializer::<Error>::into_deserializer(7u64)));
                }
                "DeBytes" => {
                    // elements as 16-bit hexadecimal numbers
                    let w: Vec<u8> = q.get(1);
                    let e: Vec<u16> = w.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
                    let b: Option<Vec<u8>> = e.iter().map(|&x| u8::try_from(x).ok()).collect();
                    macro_rules! m { ($n:literal, $ser:expr, $de:expr) => {{
                        let mut f: Vec<(&str, S)> = vec![
                            ("seq", run(|| $de(SeqDeserializer::<_, Error>::new(e.clone().into_iter())))),
                            ("seq_no_hint", run(|| $de(SeqDeserializer::<_, Error>::new(NoHint(e.clone().into_iter()))))),
                        ];
                        if let Some(b) = &b {
                            f.push(("bytes", run(|| $de(BytesDeserializer::<Error>::new(b)))));
                            f.push(("borrowed", run(|| $de(BorrowedBytesDeserializer::<Error>::new(b)))));
                            f.push(("strict", run(|| $de(Strict::Bytes(b)))));
                            f.push(("seq_u8", run(|| $de(SeqDeserializer::<_, Error>::new(b.clone().into_iter())))));
                        }
                        o.forms($n, &f);
                    }} }
                    blobs!(m);
                }
                "DeSeq" => {
                    // elements as above, announced length (-1: none)
                    let w: Vec<u8> = q.get(1);
                    let e: Vec<u16> = w.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
                    let hint = usize::try_from(q.get::<i64>(2)).ok();
                    macro_rules! m { ($n:literal, $ser:expr, $de:expr) => {
                        o.one($n, || $de(Open { elements: &e, hint }));
                    } }
                    blobs!(m);
                }
                "SerRound" => {
                    let a: $T = q.get(1);
                    macro_rules! m { ($n:literal, $ser:expr, $de:expr) => {
                        o.one($n, || {
                            let t = $ser(&a, Sink { text: true, human: true }).map_err(|_| ())?;
                            $de(StrDeserializer::<Error>::new(std::str::from_utf8(&t).map_err(|_| ())?)).map_err(|_| ())
                        });
                    } }
                    texts!(m);
                }
                "ByteRound" => {
                    let a: $T = q.get(1);
                    macro_rules! m { ($n:literal, $ser:expr, $de:expr) => {{
                        let t = $ser(&a, Sink { text: false, human: true }).map_err(|_| ());
                        o.forms($n, &[
                            ("bytes", run(|| $de(BytesDeserializer::<Error>::new(t.as_ref().map_err(|_| ())?)).map_err(|_| ()))),
                            ("seq", run(|| $de(SeqDeserializer::<_, Error>::new(t.clone()?.into_iter())).map_err(|_| ()))),
                            ("seq_no_hint", run(|| $de(SeqDeserializer::<_, Error>::new(NoHint(t.clone()?.into_iter()))).map_err(|_| ()))),
                        ]);
                    }} }
                    blobs!(m);
                }
                _ => panic!("unknown family"),
            }
        }
    };
}
family!(s, I256);
family!(u, U256);

fn main() {
    serve(|q, o| if q.signed() { s(q, o) } else { u(q, o) });
}
