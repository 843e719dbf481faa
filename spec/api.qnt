// The observable behaviour of the 256-bit integer types, as a function of the
// exact mathematical result.
//
// Everything is parametric in the word width W (ethnum: W = 256), so the same
// text is model-checked exhaustively at small W and bound to the code at 256.
// Every family `f...` maps the arguments of one call site to the outcome of
// each public entry point exercised with them. A boolean parameter `s` selects
// the signed type (I256) or the unsigned one (U256); register values are always
// the integer denoted by the register.
module api {
  import num.* from "./num"

  const W: int

  pure val M = 2^W
  pure val HALF = 2^(W - 1)

  /* ------------------------------------------------------------ outcomes -- */

  type Out =
    | OI(int)                  // a value (also Some(value), Ok(value))
    | OB(bool)                 // a truth value
    | OIB((int, bool))         // a value and an overflow flag
    | OII((int, int))          // two values
    | OIIB((int, int, bool))   // two values and an overflow flag
    | ON                       // None
    | OP                       // panics in every build
    | OD(int)                  // panics with debug assertions, otherwise the value
    | OE(str)                  // Err(kind)
    | OX(List[int])            // a byte string (text or binary)
    | OErr                     // some error, kind unspecified
    | OMay(int)                // this value or an error
    | OAny                     // unspecified: outside the guaranteed domain

  type Entry = (str, Out)

  /* --------------------------------------------------------------- words -- */

  pure def lo(s: bool): int = if (s) -HALF else 0
  pure def hi(s: bool): int = if (s) HALF - 1 else M - 1
  pure def inR(s: bool, x: int): bool = lo(s) <= x and x <= hi(s)
  pure def asU(x: int): int = fmod(x, M)
  pure def asS(x: int): int = val u = fmod(x, M) { if (u >= HALF) u - M else u }
  pure def wrap(s: bool, x: int): int = if (s) asS(x) else asU(x)
  pure def clamp(s: bool, x: int): int = min2(max2(x, lo(s)), hi(s))

  // Truncation to an n-bit type, n arbitrary.
  pure def wrapTo(n: int, sg: bool, x: int): int = {
    val u = fmod(x, 2^n)
    if (sg and u >= 2^(n - 1)) u - 2^n else u
  }
  pure def inRTo(n: int, sg: bool, x: int): bool =
    if (sg) -(2^(n - 1)) <= x and x < 2^(n - 1) else 0 <= x and x < 2^n

  /* ---------------------------------- surfaces of an exact integer result -- */

  pure def wrapping(s: bool, x: int): Out = OI(wrap(s, x))
  pure def overflowing(s: bool, x: int): Out = OIB((wrap(s, x), not(inR(s, x))))
  pure def checked(s: bool, x: int): Out = if (inR(s, x)) OI(x) else ON
  pure def saturating(s: bool, x: int): Out = OI(clamp(s, x))
  pure def operator(s: bool, x: int): Out = if (inR(s, x)) OI(x) else OD(wrap(s, x))

  /* ------------------------------------------------ C01, C02: ring, flags -- */

  pure def fWrap(s: bool, a: int, b: int): List[Entry] = [
    ("wrapping_add", wrapping(s, a + b)),
    ("wrapping_sub", wrapping(s, a - b)),
    ("wrapping_mul", wrapping(s, a * b)),
    ("wrapping_neg", wrapping(s, -a))
  ]

  // Mixed signs: `a` has signedness s, `b` the opposite one.
  pure def fWrapMixed(s: bool, a: int, b: int): List[Entry] =
    if (s) [
      ("wrapping_add_unsigned", wrapping(s, a + b)),
      ("wrapping_sub_unsigned", wrapping(s, a - b))
    ] else [
      ("wrapping_add_signed", wrapping(s, a + b))
    ]

  pure def fOvf(s: bool, a: int, b: int): List[Entry] = [
    ("overflowing_add", overflowing(s, a + b)),
    ("overflowing_sub", overflowing(s, a - b)),
    ("overflowing_mul", overflowing(s, a * b)),
    ("checked_add", checked(s, a + b)),
    ("checked_sub", checked(s, a - b)),
    ("checked_mul", checked(s, a * b)),
    ("saturating_add", saturating(s, a + b)),
    ("saturating_sub", saturating(s, a - b)),
    ("saturating_mul", saturating(s, a * b))
  ]

  pure def fOvfMixed(s: bool, a: int, b: int): List[Entry] =
    if (s) [
      ("overflowing_add_unsigned", overflowing(s, a + b)),
      ("overflowing_sub_unsigned", overflowing(s, a - b)),
      ("checked_add_unsigned", checked(s, a + b)),
      ("checked_sub_unsigned", checked(s, a - b)),
      ("saturating_add_unsigned", saturating(s, a + b)),
      ("saturating_sub_unsigned", saturating(s, a - b))
    ] else [
      ("overflowing_add_signed", overflowing(s, a + b)),
      ("checked_add_signed", checked(s, a + b)),
      ("saturating_add_signed", saturating(s, a + b))
    ]

  pure def fNeg(s: bool, a: int): List[Entry] = [
    ("overflowing_neg", overflowing(s, -a)),
    ("checked_neg", checked(s, -a)),
    ("wrapping_neg", wrapping(s, -a))
  ].concat(if (s) [
    ("saturating_neg", saturating(s, -a)),
    ("overflowing_abs", overflowing(s, abs(a))),
    ("checked_abs", checked(s, abs(a))),
    ("wrapping_abs", wrapping(s, abs(a))),
    ("saturating_abs", saturating(s, abs(a)))
  ] else [])

  /* ------------------------------------------------------------ C03: ops -- */

  pure val NIB_AND: List[int] = [
    0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0, 0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,
    0,0,2,2,0,0,2,2,0,0,2,2,0,0,2,2, 0,1,2,3,0,1,2,3,0,1,2,3,0,1,2,3,
    0,0,0,0,4,4,4,4,0,0,0,0,4,4,4,4, 0,1,0,1,4,5,4,5,0,1,0,1,4,5,4,5,
    0,0,2,2,4,4,6,6,0,0,2,2,4,4,6,6, 0,1,2,3,4,5,6,7,0,1,2,3,4,5,6,7,
    0,0,0,0,0,0,0,0,8,8,8,8,8,8,8,8, 0,1,0,1,0,1,0,1,8,9,8,9,8,9,8,9,
    0,0,2,2,0,0,2,2,8,8,10,10,8,8,10,10, 0,1,2,3,0,1,2,3,8,9,10,11,8,9,10,11,
    0,0,0,0,4,4,4,4,8,8,8,8,12,12,12,12, 0,1,0,1,4,5,4,5,8,9,8,9,12,13,12,13,
    0,0,2,2,4,4,6,6,8,8,10,10,12,12,14,14, 0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15
  ]

  // Bitwise conjunction of two values in [0, M); W is a multiple of 4.
  pure def andU(x: int, y: int): int =
    1.to(W / 4).fold({ x: x, y: y, p: 1, r: 0 }, (t, _) =>
      { x: t.x / 16, y: t.y / 16, p: t.p * 16,
        r: t.r + t.p * NIB_AND[16 * (t.x % 16) + (t.y % 16)] }).r

  pure def band(s: bool, a: int, b: int): int = wrap(s, andU(asU(a), asU(b)))
  pure def bor(s: bool, a: int, b: int): int = wrap(s, asU(a) + asU(b) - andU(asU(a), asU(b)))
  pure def bxor(s: bool, a: int, b: int): int = wrap(s, asU(a) + asU(b) - 2 * andU(asU(a), asU(b)))

  // Division operators: undefined results panic in every build.
  pure def divOut(s: bool, b: int, q: int, r: int): Out =
    if (b == 0 or not(inR(s, q))) OP else OI(r)

  pure def fOps(s: bool, a: int, b: int): List[Entry] = {
    val q = if (b == 0) 0 else tdiv(a, b)
    val r = if (b == 0) 0 else trem(a, b)
    [ ("add", operator(s, a + b)),
      ("sub", operator(s, a - b)),
      ("mul", operator(s, a * b)),
      ("div", divOut(s, b, q, q)),
      ("rem", divOut(s, b, q, r)) ]
  }

  pure def fBitOps(s: bool, a: int, b: int): List[Entry] = {
    val x = asU(a)
    val y = asU(b)
    val n = andU(x, y)
    [ ("bitand", OI(wrap(s, n))),
      ("bitor", OI(wrap(s, x + y - n))),
      ("bitxor", OI(wrap(s, x + y - 2 * n))),
      ("not", OI(wrap(s, M - 1 - x))) ]
  }

  pure def fNegOp(s: bool, a: int): List[Entry] = [("neg", operator(s, -a))]

  /* ---------------------------------------------------- C04, C05: division -- */

  pure def fDiv(s: bool, a: int, b: int): List[Entry] =
    if (b == 0) [
      ("div", OP), ("rem", OP), ("wrapping_div", OP), ("wrapping_rem", OP),
      ("overflowing_div", OP), ("overflowing_rem", OP),
      ("checked_div", ON), ("checked_rem", ON), ("saturating_div", OP),
      ("div_rem", OP), ("wrapping_div_rem", OP), ("overflowing_div_rem", OP),
      ("checked_div_rem", ON), ("saturating_div_rem", OP)
    ] else {
      val q = tdiv(a, b)
      val r = trem(a, b)
      val o = not(inR(s, q))
      val wq = wrap(s, q)
      [
        ("div", if (o) OP else OI(q)), ("rem", if (o) OP else OI(r)),
        ("wrapping_div", OI(wq)), ("wrapping_rem", OI(r)),
        ("overflowing_div", OIB((wq, o))), ("overflowing_rem", OIB((r, o))),
        ("checked_div", if (o) ON else OI(q)), ("checked_rem", if (o) ON else OI(r)),
        ("saturating_div", OI(clamp(s, q))),
        ("div_rem", if (o) OP else OII((q, r))),
        ("wrapping_div_rem", OII((wq, r))),
        ("overflowing_div_rem", OIIB((wq, r, o))),
        ("checked_div_rem", if (o) ON else OII((q, r))),
        ("saturating_div_rem", OII((clamp(s, q), r)))
      ]
    }

  pure def fDivEuclid(s: bool, a: int, b: int): List[Entry] =
    if (b == 0) [
      ("div_euclid", OP), ("rem_euclid", OP), ("wrapping_div_euclid", OP), ("wrapping_rem_euclid", OP),
      ("overflowing_div_euclid", OP), ("overflowing_rem_euclid", OP),
      ("checked_div_euclid", ON), ("checked_rem_euclid", ON),
      ("div_rem_euclid", OP), ("wrapping_div_rem_euclid", OP), ("overflowing_div_rem_euclid", OP),
      ("checked_div_rem_euclid", ON), ("saturating_div_rem_euclid", OP)
    ] else {
      val q = ediv(a, b)
      val r = erem(a, b)
      val o = not(inR(s, q))
      val wq = wrap(s, q)
      [
        ("div_euclid", if (o) OP else OI(q)), ("rem_euclid", if (o) OP else OI(r)),
        ("wrapping_div_euclid", OI(wq)), ("wrapping_rem_euclid", OI(r)),
        ("overflowing_div_euclid", OIB((wq, o))), ("overflowing_rem_euclid", OIB((r, o))),
        ("checked_div_euclid", if (o) ON else OI(q)), ("checked_rem_euclid", if (o) ON else OI(r)),
        ("div_rem_euclid", if (o) OP else OII((q, r))),
        ("wrapping_div_rem_euclid", OII((wq, r))),
        ("overflowing_div_rem_euclid", OIIB((wq, r, o))),
        ("checked_div_rem_euclid", if (o) ON else OII((q, r))),
        ("saturating_div_rem_euclid", OII((clamp(s, q), r)))
      ]
    }

  /* ---------------------------------------------------- C06: shifts, rotates -- */

  pure def shl(s: bool, a: int, n: int): int = wrap(s, a * 2^n)
  pure def shr(s: bool, a: int, n: int): int = fdiv(a, 2^n)
  pure def rotl(s: bool, a: int, n: int): int = {
    val k = fmod(n, W)
    val u = asU(a)
    wrap(s, (u * 2^k) + (u / 2^(W - k)))
  }
  pure def rotr(s: bool, a: int, n: int): int = rotl(s, a, W - fmod(n, W))

  // n: any u32
  pure def fShift(s: bool, a: int, n: int): List[Entry] = {
    val k = n % W
    val l = shl(s, a, k)
    val r = shr(s, a, k)
    val o = n >= W
    [
      ("wrapping_shl", OI(l)), ("wrapping_shr", OI(r)),
      ("overflowing_shl", OIB((l, o))), ("overflowing_shr", OIB((r, o))),
      ("checked_shl", if (o) ON else OI(l)), ("checked_shr", if (o) ON else OI(r)),
      ("rotate_left", OI(rotl(s, a, n))), ("rotate_right", OI(rotr(s, a, n)))
    ]
  }

  // n: any integer of any amount type
  pure def fShiftOp(s: bool, a: int, n: int): List[Entry] = {
    val k = fmod(n, W)
    val l = shl(s, a, k)
    val r = shr(s, a, k)
    val o = n < 0 or n >= W
    [ ("shl", if (o) OD(l) else OI(l)), ("shr", if (o) OD(r) else OI(r)) ]
  }

  /* -------------------------------------------------------------- C07: bits -- */

  pure val NIB_POP: List[int] = [0,1,1,2,1,2,2,3,1,2,2,3,2,3,3,4]
  pure val NIB_REV: List[int] = [0,8,4,12,2,10,6,14,1,9,5,13,3,11,7,15]

  pure def popcount(u: int): int =
    1.to(W / 4).fold({ v: u, n: 0 }, (t, _) => { v: t.v / 16, n: t.n + NIB_POP[t.v % 16] }).n
  pure def lzU(u: int): int = W - bitlen(u)
  pure def tzU(u: int): int = if (u == 0) W else twos(u)
  pure def revBits(u: int): int =
    1.to(W / 4).fold({ v: u, r: 0 }, (t, _) => { v: t.v / 16, r: t.r * 16 + NIB_REV[t.v % 16] }).r
  // W a multiple of 8
  pure def swapBytes(u: int): int =
    1.to(W / 8).fold({ v: u, r: 0 }, (t, _) => { v: t.v / 256, r: t.r * 256 + (t.v % 256) }).r

  pure def fCount(s: bool, a: int): List[Entry] = {
    val u = asU(a)
    val n = M - 1 - u
    val pc = popcount(u)
    [
      ("count_ones", OI(pc)), ("count_zeros", OI(W - pc)),
      ("leading_zeros", OI(lzU(u))), ("trailing_zeros", OI(tzU(u))),
      ("leading_ones", OI(lzU(n))), ("trailing_ones", OI(tzU(n)))
    ]
  }

  pure def fSwap(s: bool, a: int): List[Entry] = {
    val u = asU(a)
    val sb = wrap(s, swapBytes(u))
    [
      ("swap_bytes", OI(sb)), ("reverse_bits", OI(wrap(s, revBits(u)))),
      // little-endian target
      ("to_be", OI(sb)), ("from_be", OI(sb)), ("to_le", OI(a)), ("from_le", OI(a))
    ]
  }

  /* --------------------------------------------------------------- C08: pow -- */

  // a^e mod m for a in [0, m)
  pure def powmod(a: int, e: int, m: int): int =
    1.to(bitlen(e)).fold({ b: a, e: e, r: 1 }, (t, _) =>
      { b: (t.b * t.b) % m, e: t.e / 2, r: if (t.e % 2 == 1) (t.r * t.b) % m else t.r }).r

  pure def fPow(s: bool, a: int, e: int): List[Entry] = {
    // |a| >= 2^(bitlen - 1), so |a^e| >= 2^((bitlen - 1) * e)
    val huge = (bitlen(abs(a)) - 1) * e > W + 1
    val neg = a < 0 and e % 2 == 1
    val small = abs(a) <= 1
    val exact = if (huge) 0 else if (e == 0) 1 else if (small) (if (neg) a else abs(a)) else a^e
    val o = huge or not(inR(s, exact))
    val w = if (huge) wrap(s, powmod(asU(a), e, M)) else wrap(s, exact)
    val c = if (huge) (if (neg) lo(s) else hi(s)) else clamp(s, exact)
    [
      ("wrapping_pow", OI(w)), ("overflowing_pow", OIB((w, o))),
      ("checked_pow", if (o) ON else OI(w)), ("saturating_pow", OI(c)),
      ("pow", if (o) OD(w) else OI(w))
    ]
  }

  /* --------------------------------------------------------------- C09: cmp -- */

  pure def fCmp(s: bool, a: int, b: int): List[Entry] = [
    ("eq", OB(a == b)), ("ne", OB(a != b)), ("lt", OB(a < b)), ("le", OB(a <= b)),
    ("gt", OB(a > b)), ("ge", OB(a >= b)), ("cmp", OI(sgn(a - b))), ("partial_cmp", OI(sgn(a - b))),
    ("max", OI(max2(a, b))), ("min", OI(min2(a, b))), ("hash_eq", OB(a == b))
  ]
  // a clamped into [min(b,c), max(b,c)]; sorting of the three
  pure def fClamp(s: bool, a: int, b: int, c: int): List[Entry] = [
    ("clamp", OI(min2(max2(a, min2(b, c)), max2(b, c)))),
    ("sorted_min", OI(min2(a, min2(b, c)))), ("sorted_max", OI(max2(a, max2(b, c))))
  ]

  /* -------------------------------------------------- C10: int conversions -- */

  pure def fAs(s: bool, a: int): List[Entry] = [
    ("as_i8", OI(wrapTo(8, true, a))), ("as_i16", OI(wrapTo(16, true, a))), ("as_i32", OI(wrapTo(32, true, a))),
    ("as_i64", OI(wrapTo(64, true, a))), ("as_i128", OI(wrapTo(128, true, a))), ("as_isize", OI(wrapTo(64, true, a))),
    ("as_u8", OI(wrapTo(8, false, a))), ("as_u16", OI(wrapTo(16, false, a))), ("as_u32", OI(wrapTo(32, false, a))),
    ("as_u64", OI(wrapTo(64, false, a))), ("as_u128", OI(wrapTo(128, false, a))), ("as_usize", OI(wrapTo(64, false, a))),
    ("as_i256", OI(asS(a))), ("as_u256", OI(asU(a)))
  ]

  pure def tryOut(n: int, sg: bool, a: int): Out = if (inRTo(n, sg, a)) OI(a) else OErr

  pure def fTry(s: bool, a: int): List[Entry] = [
    ("try_i8", tryOut(8, true, a)), ("try_i16", tryOut(16, true, a)), ("try_i32", tryOut(32, true, a)),
    ("try_i64", tryOut(64, true, a)), ("try_i128", tryOut(128, true, a)), ("try_isize", tryOut(64, true, a)),
    ("try_u8", tryOut(8, false, a)), ("try_u16", tryOut(16, false, a)), ("try_u32", tryOut(32, false, a)),
    ("try_u64", tryOut(64, false, a)), ("try_u128", tryOut(128, false, a)), ("try_usize", tryOut(64, false, a)),
    if (s) ("try_u256", tryOut(W, false, a)) else ("try_i256", tryOut(W, true, a))
  ]

  // From a primitive (n bits, signed iff sg) holding x. The pointer-sized types
  // (ptr) have no infallible conversion into I256.
  pure def fFrom(n: int, sg: bool, ptr: bool, x: int): List[Entry] = [
    ("as_u256", OI(asU(x))), ("as_i256", OI(asS(x))),
    ("into_u256", if (x >= 0) OI(x) else OErr)
  ].concat(if (ptr) [] else [("into_i256", OI(x))])

  /* ------------------------------------------------ C11: float conversions -- */

  // IEEE 754 binary format: p bits of significand, eb exponent bits.
  // Bit pattern of x rounded to nearest, ties to even.
  pure def toFloat(p: int, eb: int, x: int): int = {
    val bias = 2^(eb - 1) - 1
    val sign = if (x < 0) 2^(eb + p - 1) else 0
    val m = abs(x)
    val bl = bitlen(m)
    if (m == 0) 0
    else if (bl <= p) sign + (bl - 1 + bias) * 2^(p - 1) + (m * 2^(p - bl) - 2^(p - 1))
    else {
      val sh = 2^(bl - p)
      val q = m / sh
      val r = m % sh
      val up = 2 * r > sh or (2 * r == sh and q % 2 == 1)
      // a carry out of the significand moves into the exponent field
      val body = (bl - 1 + bias) * 2^(p - 1) + (q - 2^(p - 1)) + (if (up) 1 else 0)
      val infinity = (2^eb - 1) * 2^(p - 1)
      sign + min2(body, infinity)
    }
  }

  // Value of the float with the given bit pattern, truncated and saturated.
  pure def fromFloat(p: int, eb: int, s: bool, bits: int): int = {
    val bias = 2^(eb - 1) - 1
    val neg = bits / 2^(eb + p - 1) == 1
    val e = (bits / 2^(p - 1)) % 2^eb
    val f = bits % 2^(p - 1)
    val k = e - bias - (p - 1)
    if (e == 2^eb - 1) (if (f != 0) 0 else if (neg) lo(s) else hi(s))
    else if (e == 0 or k < -p) 0
    else {
      val m = 2^(p - 1) + f
      // beyond W bits the value saturates whatever the significand
      val v = if (k >= W) 2^(W + 1) else if (k >= 0) m * 2^k else m / 2^(-k)
      clamp(s, if (neg) -v else v)
    }
  }

  pure def fToFloat(s: bool, a: int): List[Entry] = {
    val x = toFloat(24, 8, a)
    val y = toFloat(53, 11, a)
    [ ("as_f32", OI(x)), ("as_f64", OI(y)), ("into_f32", OI(x)), ("into_f64", OI(y)) ]
  }
  pure def fFromF32(bits: int): List[Entry] =
    [ ("as_u256", OI(fromFloat(24, 8, false, bits))), ("as_i256", OI(fromFloat(24, 8, true, bits))) ]
  pure def fFromF64(bits: int): List[Entry] =
    [ ("as_u256", OI(fromFloat(53, 11, false, bits))), ("as_i256", OI(fromFloat(53, 11, true, bits))) ]

  /* -------------------------------------------------- C12: bytes and words -- */

  pure def bytesLE(a: int): List[int] = digitsLE(asU(a), 256, W / 8)
  pure def bytesBE(a: int): List[int] = reverse(bytesLE(a))

  pure def fBytes(s: bool, a: int): List[Entry] = {
    val le = bytesLE(a)
    val be = reverse(le)
    [ ("to_be_bytes", OX(be)), ("to_le_bytes", OX(le)), ("to_ne_bytes", OX(le)) ]
  }
  pure def fFromBytes(s: bool, bs: List[int]): List[Entry] = {
    val be = wrap(s, valueBE(bs, 256))
    val le = wrap(s, valueBE(reverse(bs), 256))
    [ ("from_be_bytes", OI(be)), ("from_le_bytes", OI(le)), ("from_ne_bytes", OI(le)) ]
  }

  pure def hiW(s: bool, a: int): int = fdiv(a, 2^(W / 2))
  pure def loW(s: bool, a: int): int = wrapTo(W / 2, s, a)
  pure def joinW(s: bool, h: int, l: int): int =
    wrap(s, h * 2^(W / 2) + fmod(l, 2^(W / 2)))

  // b: the word written by low_mut / high_mut and taken by new
  pure def fWords(s: bool, a: int, b: int): List[Entry] = {
    val h = hiW(s, a)
    val l = loW(s, a)
    val x = wrapTo(W / 2, s, b)
    [
      ("into_words", OII((h, l))), ("high", OI(h)), ("low", OI(l)),
      ("from_words", OI(a)), ("new", OI(x)),
      ("set_low", OI(joinW(s, h, x))), ("set_high", OI(joinW(s, x, l)))
    ]
  }

  pure def fConsts(s: bool): List[Entry] = [
    ("MIN", OI(lo(s))), ("MAX", OI(hi(s))), ("BITS", OI(W)), ("ZERO", OI(0)), ("ONE", OI(1)),
    ("default", OI(0)), ("alias", OB(true))
  ].concat(if (s) [("MINUS_ONE", OI(-1))] else [])

  /* ------------------------------------- C20: sign, magnitude, powers of two -- */

  pure def fSign(s: bool, a: int): List[Entry] = [
    ("abs", operator(true, abs(a))), ("unsigned_abs", OI(abs(a))),
    ("wrapping_abs", wrapping(true, abs(a))), ("overflowing_abs", overflowing(true, abs(a))),
    ("checked_abs", checked(true, abs(a))), ("saturating_abs", saturating(true, abs(a))),
    ("saturating_neg", saturating(true, -a)),
    ("signum", OI(sgn(a))), ("signum128", OI(sgn(a))),
    ("is_positive", OB(a > 0)), ("is_negative", OB(a < 0))
  ]
  pure def fAbsDiff(s: bool, a: int, b: int): List[Entry] = [("abs_diff", OI(abs(a - b)))]
  pure def fPow2(s: bool, a: int): List[Entry] = {
    val n = if (a <= 1) 1 else 2^bitlen(a - 1)
    [
      ("is_power_of_two", OB(isPow2(a))),
      ("next_power_of_two", if (n < M) OI(n) else OD(0)),
      ("checked_next_power_of_two", if (n < M) OI(n) else ON)
    ]
  }

  /* -------------------------------------------------------- C21: iterators -- */

  pure def fFold(s: bool, l: List[int]): List[Entry] = {
    val sm = l.foldl({ v: 0, o: false }, (t, x) => val y = t.v + x { v: wrap(s, y), o: t.o or not(inR(s, y)) })
    val pr = l.foldl({ v: 1, o: false }, (t, x) => val y = t.v * x { v: wrap(s, y), o: t.o or not(inR(s, y)) })
    [ ("sum", if (sm.o) OD(sm.v) else OI(sm.v)), ("product", if (pr.o) OD(pr.v) else OI(pr.v)) ]
  }

  /* -------------------------------------------------------- C22: intrinsics -- */

  // Two-operand arithmetic; a, b of signedness s. `iX` entries are the signed
  // wrappers, `uX` the unsigned ones; 2 = in place, 3 = out of place, c = carry.
  pure def fIntr(s: bool, a: int, b: int): List[Entry] = [
    ("add", wrapping(s, a + b)), ("sub", wrapping(s, a - b)), ("mul", wrapping(s, a * b)),
    ("addc", overflowing(s, a + b)), ("subc", overflowing(s, a - b)), ("mulc", overflowing(s, a * b))
  ]
  pure def fIntrDiv(s: bool, a: int, b: int): List[Entry] =
    if (b == 0 or not(inR(s, tdiv(a, b)))) [("div", OAny), ("rem", OAny)]
    else {
      val q = tdiv(a, b)
      val r = trem(a, b)
      [ ("div", OI(q)), ("rem", OI(r)) ]
    }
  // n < W for the shifts, any n for the rotations
  pure def fIntrShift(s: bool, a: int, n: int): List[Entry] = [
    ("shl", if (n < W) OI(shl(s, a, n)) else OAny), ("shr", if (n < W) OI(shr(s, a, n)) else OAny),
    ("rol", OI(rotl(s, a, n))), ("ror", OI(rotr(s, a, n)))
  ]
  pure def fIntrCount(s: bool, a: int): List[Entry] =
    [ ("ctlz", OI(lzU(asU(a)))), ("cttz", OI(tzU(asU(a)))) ]
}
