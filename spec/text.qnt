// Text forms of the 256-bit integer types: parsing, literals and formatting.
//
// Strings are lists of bytes. Parsing follows the grammar of the primitive
// integer types of the Rust standard library, including its error kinds.
module text {
  import num.* from "./num"
  const TW: int
  import api(W = TW).* from "./api"

  /* ---------------------------------------------------------- characters -- */

  pure val PLUS = 43
  pure val MINUS = 45
  pure val ZERO_CH = 48
  pure val UNDERSCORE = 95
  pure val SPACE = 32

  // Value of an ASCII digit or letter, 36 for every other byte.
  pure def digitVal(c: int): int =
    if (c >= 48 and c <= 57) c - 48
    else if (c >= 97 and c <= 122) c - 87
    else if (c >= 65 and c <= 90) c - 55
    else 36

  pure def isSpace(c: int): bool = c == 32 or c == 9 or c == 10 or c == 12 or c == 13

  pure def digitCh(d: int, upper: bool): int =
    if (d < 10) 48 + d else if (upper) 55 + d else 87 + d

  pure def drop(l: List[int], n: int): List[int] = l.slice(n, l.length())
  pure def startsWith(l: List[int], p: List[int]): bool =
    l.length() >= p.length() and l.slice(0, p.length()) == p

  /* ------------------------------------------------------------- parsing -- */

  // Horner evaluation with the outcome fixed by the first offending character:
  // an invalid digit is noticed before an overflow caused by the same
  // character, an earlier overflow before a later invalid digit.
  pure def numeral(s: bool, radix: int, neg: bool, ds: List[int]): Out = {
    val t = ds.foldl({ v: 0, e: "" }, (t, c) =>
      if (t.e != "") t
      else {
        val d = digitVal(c)
        if (d >= radix) { v: 0, e: "invalid" }
        else {
          val x = t.v * radix + (if (neg) -d else d)
          if (inR(s, x)) { v: x, e: "" }
          else { v: 0, e: if (neg) "neg_overflow" else "pos_overflow" }
        }
      })
    if (t.e == "") OI(t.v) else OE(t.e)
  }

  pure def parse(s: bool, radix: int, prefix: List[int], src: List[int]): Out =
    if (radix < 2 or radix > 36) OP
    else if (src == []) OE("empty")
    else {
      val neg = s and src[0] == MINUS
      val body = if (neg or src[0] == PLUS) drop(src, 1) else src
      if (not(startsWith(body, prefix)) or body.length() == prefix.length()) OE("invalid")
      else numeral(s, radix, neg, drop(body, prefix.length()))
    }

  pure val P_BIN = [48, 98]
  pure val P_OCT = [48, 111]
  pure val P_HEX = [48, 120]

  pure def lenient(o: Out): Out = match o {
    | OE(_) => OErr
    | _ => o
  }

  // An optional sign, then a prefixed numeral or a plain decimal one.
  pure def parsePrefixed(s: bool, src: List[int]): Out = {
    val signed = src != [] and (src[0] == PLUS or (s and src[0] == MINUS))
    val body = if (signed) drop(src, 1) else src
    val r =
      if (startsWith(body, P_BIN)) parse(s, 2, P_BIN, src)
      else if (startsWith(body, P_OCT)) parse(s, 8, P_OCT, src)
      else if (startsWith(body, P_HEX)) parse(s, 16, P_HEX, src)
      else parse(s, 10, [], src)
    lenient(r)
  }

  pure def fParseRadix(s: bool, radix: int, src: List[int]): List[Entry] =
    [("from_str_radix", parse(s, radix, [], src))]

  pure def fParse(s: bool, src: List[int]): List[Entry] = [
    ("from_str", parse(s, 10, [], src)),
    ("from_str_hex", parse(s, 16, P_HEX, src)),
    ("from_str_prefixed", parsePrefixed(s, src))
  ]

  // The compile-time literal evaluator; rejection is a panic in const context.
  pure def literal(s: bool, src: List[int]): Out =
    if (src == []) OP
    else {
      val neg = s and src[0] == MINUS
      val body = if (neg or src[0] == PLUS) drop(src, 1) else src
      val pre = body.length() > 2 and body[0] == ZERO_CH
      val radix =
        if (pre and body[1] == 98) 2
        else if (pre and body[1] == 111) 8
        else if (pre and body[1] == 120) 16
        else 10
      val ds = if (radix == 10) body else drop(body, 2)
      val t = ds.foldl({ v: 0, n: 0, bad: false }, (t, c) =>
        if (c == UNDERSCORE or isSpace(c) or t.bad) t
        else {
          val d = digitVal(c)
          // saturate the magnitude once it cannot be in range any more
          { v: if (t.v >= M) t.v else t.v * radix + d, n: t.n + 1, bad: d >= radix }
        })
      val x = if (neg) -t.v else t.v
      if (body == [] or t.bad) OP
      else if (t.n == 0) OP
      else if (inR(s, x)) OI(x)
      else OP
    }

  pure def fLiteral(s: bool, src: List[int]): List[Entry] = [("literal", literal(s, src))]

  /* ---------------------------------------------------------- formatting -- */

  // Characters of x >= 0 without leading zeros ("0" for zero).
  pure def chars(x: int, radix: int, upper: bool): List[int] =
    if (x == 0) [ZERO_CH]
    else {
      // number of digits: bit length over the bits of a power-of-two radix,
      // or an upper bound for radix 10 (2^10 > 10^3)
      val n =
        if (radix == 2) bitlen(x)
        else if (radix == 8) (bitlen(x) + 2) / 3
        else if (radix == 16) (bitlen(x) + 3) / 4
        else (bitlen(x) * 3) / 10 + 2
      val ds = 1.to(n).fold({ v: x, l: [] }, (t, _) =>
        if (t.v == 0) t
        else { v: t.v / radix, l: t.l.append(digitCh(t.v % radix, upper)) }).l
      reverse(ds)
    }

  pure def repeatL(l: List[int], n: int): List[int] =
    if (n <= 0) [] else 1.to(n).fold([], (acc, _) => acc.concat(l))

  // core::fmt::Formatter::pad_integral. align: 0 unset, 1 left, 2 centre,
  // 3 right; fill: the bytes of one character; width: 0 when unset.
  pure def padIntegral(neg: bool, plus: bool, alt: bool, zero: bool, align: int, fill: List[int],
                       width: int, prefix: List[int], digits: List[int]): List[int] = {
    val sign = if (neg) [MINUS] else if (plus) [PLUS] else []
    val lead = sign.concat(if (alt) prefix else [])
    val body = lead.concat(digits)
    val gap = width - body.length()
    if (gap <= 0) body
    else if (zero) lead.concat(replicate(gap, ZERO_CH)).concat(digits)
    else {
      val left = if (align == 1) 0 else if (align == 2) gap / 2 else gap
      repeatL(fill, left).concat(body).concat(repeatL(fill, gap - left))
    }
  }

  // Precision is ignored, as for primitive integers.
  // kind: 0 Display, 1 Debug, 2 Debug with x?, 3 Debug with X?, 4 Binary,
  // 5 Octal, 6 LowerHex, 7 UpperHex. sgf: 0 no sign flag, 1 '+', 2 '-'.
  pure def format(s: bool, a: int, kind: int, sgf: int, alt: bool, zero: bool,
                  align: int, fill: List[int], width: int): List[int] = {
    val decimal = kind <= 1
    val radix = if (decimal) 10 else if (kind == 4) 2 else if (kind == 5) 8 else 16
    val upper = kind == 3 or kind == 7
    val prefix = if (decimal) [] else if (kind == 4) P_BIN else if (kind == 5) P_OCT else P_HEX
    // digits of a negative number: sign and magnitude in decimal or under the
    // '-' flag, two's complement otherwise
    val neg = a < 0 and (decimal or sgf == 2)
    val mag = if (neg) -a else asU(a)
    padIntegral(neg, sgf == 1, alt, zero, align, fill, width, prefix, chars(mag, radix, upper))
  }

  pure def fFmt(s: bool, a: int, kind: int, sgf: int, alt: bool, zero: bool,
                align: int, fill: List[int], width: int): List[Entry] =
    [("fmt", OX(format(s, a, kind, sgf, alt, zero, align, fill, width)))]

  // Formatting into a writer that takes `cap` bytes and fails from then on: it
  // gets the text from left to right and its failure is passed on.
  pure def fSink(s: bool, a: int, kind: int, sgf: int, alt: bool, zero: bool,
                 align: int, fill: List[int], width: int, cap: int): List[Entry] = {
    val t = format(s, a, kind, sgf, alt, zero, align, fill, width)
    [("written", OX(if (t.length() <= cap) t else t.slice(0, cap))), ("complete", OB(t.length() <= cap))]
  }

  // Plain renderings of one value in every notation.
  pure def fText(s: bool, a: int): List[Entry] = {
    val hex = chars(asU(a), 16, false)
    val dec = (if (a < 0) [MINUS] else []).concat(chars(abs(a), 10, false))
    [
      ("display", OX(dec)), ("debug", OX(dec)), ("to_string", OX(dec)),
      ("lower_hex", OX(hex)), ("upper_hex", OX(chars(asU(a), 16, true))),
      ("octal", OX(chars(asU(a), 8, false))), ("binary", OX(chars(asU(a), 2, false))),
      ("debug_hex", OX(hex)), ("alt_hex", OX(P_HEX.concat(hex)))
    ]
  }

  // The bits of the double whose rendering {:e} must reproduce.
  pure def fExpBits(s: bool, a: int): List[Entry] = [("bits", OI(toFloat(53, 11, a)))]
  pure def fExp(s: bool, a: int): List[Entry] = [("lower_exp", OB(true)), ("upper_exp", OB(true))]

  // C23: format, then parse with the matching parser.
  pure def fRound(s: bool, a: int): List[Entry] = [
    ("dec_from_str", OI(a)), ("dec_radix", OI(a)), ("dec_prefixed", OI(a)), ("dec_literal", OI(a)),
    ("bin_radix", OI(a)), ("bin_prefixed", OI(a)), ("bin_literal", OI(a)),
    ("oct_radix", OI(a)), ("oct_prefixed", OI(a)), ("oct_literal", OI(a)),
    ("hex_radix", OI(a)), ("hex_hex", OI(a)), ("hex_prefixed", OI(a)), ("hex_literal", OI(a)),
    ("uhex_radix", OI(a)), ("uhex_hex", OI(a)), ("uhex_prefixed", OI(a)), ("uhex_literal", OI(a)),
    ("dbg_from_str", OI(a)), ("dbg_hex_hex", OI(a))
  ]
}
