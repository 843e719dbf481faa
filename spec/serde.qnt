// Serialized forms of the 256-bit integer types.
module serde {
  import num.* from "./num"
  const SW: int
  import api(W = SW).* from "./api"
  import text(TW = SW).* from "./text"

  /* ---------------------------------------------------------- text forms -- */

  pure def hexText(a: int): List[int] =
    (if (a < 0) [MINUS] else []).concat(P_HEX).concat(chars(abs(a), 16, false))
  pure def decText(a: int): List[int] =
    (if (a < 0) [MINUS] else []).concat(chars(abs(a), 10, false))

  pure def fSerText(s: bool, a: int): List[Entry] = {
    val h = OX(hexText(a))
    [ ("default", h), ("prefixed", h), ("permissive", h), ("decimal", OX(decText(a))) ]
  }

  pure def fDeText(s: bool, src: List[int]): List[Entry] = {
    val p = parsePrefixed(s, src)
    [
      ("default", lenient(parse(s, 16, P_HEX, src))), ("decimal", lenient(parse(s, 10, [], src))),
      ("prefixed", p), ("permissive", p)
    ]
  }

  // Permissive input of an integer of a self-describing format.
  pure def fDeInt(s: bool, n: int, sg: bool, x: int): List[Entry] =
    [("permissive", if (inR(s, x)) OI(x) else OErr)]

  // Permissive input of a float given by its bits: integral numbers whose
  // magnitude is below 2^p (the largest range in which every integer is
  // representable). The bound itself is unspecified for negative numbers.
  pure def floatOut(p: int, eb: int, s: bool, bits: int): Out = {
    val bias = 2^(eb - 1) - 1
    val neg = bits / 2^(eb + p - 1) == 1
    val e = (bits / 2^(p - 1)) % 2^eb
    val f = bits % 2^(p - 1)
    val k = e - bias - (p - 1)
    val m = 2^(p - 1) + f
    if (e == 0) (if (f == 0) OI(0) else OErr)
    else if (k == 1 and f == 0 and neg and s) OAny
    else if (k >= 1 or k < -(p - 1)) OErr
    else if (m % 2^(-k) != 0) OErr
    else {
      val x = if (neg) -(m / 2^(-k)) else m / 2^(-k)
      if (inR(s, x)) OI(x) else OErr
    }
  }
  pure def fDeF32(s: bool, bits: int): List[Entry] = [("permissive", floatOut(24, 8, s, bits))]
  pure def fDeF64(s: bool, bits: int): List[Entry] = [("permissive", floatOut(53, 11, s, bits))]

  // Booleans, unit and absent values are not numbers.
  pure def fDeOther(s: bool): List[Entry] = [
    ("permissive_bool", OErr), ("permissive_unit", OErr), ("permissive_seq", OErr),
    ("default_int", OErr), ("decimal_int", OErr), ("prefixed_int", OErr)
  ]

  /* ---------------------------------------------------------- byte forms -- */

  // Length of the shortest representation: the least n such that the value is
  // the zero- or sign-extension of its n low bytes; zero needs none.
  pure def minBytes(s: bool, a: int): int =
    if (a == 0) 0
    else if (not(s)) (bitlen(a) + 7) / 8
    else {
      // -2^(k-1) <= a < 2^(k-1) iff bitlen(a >= 0 ? a : -a-1) < k
      val b = bitlen(if (a >= 0) a else -a - 1) + 1
      (b + 7) / 8
    }

  pure def compLE(s: bool, a: int): List[int] = {
    val n = minBytes(s, a)
    digitsLE(fmod(a, 2^(8 * n)), 256, n)
  }

  pure def fSerBytes(s: bool, a: int): List[Entry] = {
    val full = bytesLE(a)
    val rfull = reverse(full)
    val comp = compLE(s, a)
    val rcomp = reverse(comp)
    [
      ("bytes_le", OX(full)), ("bytes_be", OX(rfull)), ("bytes_ne", OX(full)),
      ("compressed_le", OX(comp)), ("compressed_be", OX(rcomp)), ("compressed_ne", OX(comp))
    ]
  }

  // Value of big-endian bytes extended to the full width.
  pure def extend(s: bool, be: List[int]): int = {
    val v = valueBE(be, 256)
    if (s and be != [] and be[0] >= 128) v - 2^(8 * be.length()) else v
  }

  // Elements above 255 can only occur in sequence inputs.
  pure def fDeBytes(s: bool, bs: List[int]): List[Entry] = {
    val bad = bs.foldl(false, (b, x) => b or x < 0 or x > 255)
    val n = bs.length()
    val rev = reverse(bs)
    val exact = not(bad) and n == SW / 8
    val short = not(bad) and n <= SW / 8
    val xle = if (exact) OI(wrap(s, valueBE(rev, 256))) else OErr
    val xbe = if (exact) OI(wrap(s, valueBE(bs, 256))) else OErr
    val cle = if (short) OI(extend(s, rev)) else OErr
    val cbe = if (short) OI(extend(s, bs)) else OErr
    [
      ("bytes_le", xle), ("bytes_be", xbe), ("bytes_ne", xle),
      ("compressed_le", cle), ("compressed_be", cbe), ("compressed_ne", cle)
    ]
  }

  pure def mayFail(o: Out): Out = match o {
    | OI(v) => OMay(v)
    | _ => o
  }

  // The same from a sequence that announces a length (-1: none) and does not
  // itself notice that elements were left over. A wrong announcement may be
  // refused, but makes nothing acceptable that is not, and changes no value.
  pure def fDeSeq(s: bool, els: List[int], hint: int): List[Entry] = {
    val honest = hint == -1 or hint == els.length()
    fDeBytes(s, els).foldl([], (l, e) => l.append(if (honest) e else (e._1, mayFail(e._2))))
  }

  // Decoding what a form encoded.
  pure def fSerRound(s: bool, a: int): List[Entry] = [
    ("default", OI(a)), ("decimal", OI(a)), ("prefixed", OI(a)), ("permissive", OI(a))
  ]
  pure def fByteRound(s: bool, a: int): List[Entry] = [
    ("bytes_le", OI(a)), ("bytes_be", OI(a)), ("bytes_ne", OI(a)),
    ("compressed_le", OI(a)), ("compressed_be", OI(a)), ("compressed_ne", OI(a))
  ]
}
