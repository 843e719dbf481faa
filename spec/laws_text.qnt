// Laws of text.qnt and serde.qnt at 8 bits, and of the word, byte, conversion
// and fold families of api.qnt, stated without reusing the definitions they are
// about. Checked exhaustively by driver/model.js.
module laws_text {
  import num.* from "./num"
  import api(W = 8).* from "./api"
  import text(TW = 8).* from "./text"
  import serde(SW = 8).* from "./serde"

  pure def sgn8(u: int): int = if (u >= 128) u - 256 else u

  /* ---------------------------------------------------------------- parsing -- */

  // The i-th string of at most four characters over an alphabet that holds every
  // character class (none = shorter).
  pure val ALPHA: List[int] = [0, 43, 45, 48, 49, 50, 53, 55, 57, 97, 102, 120, 98, 95, 32]
  pure def strAt(i: int): List[int] =
    [ALPHA[i % 15], ALPHA[(i / 15) % 15], ALPHA[(i / 225) % 15], ALPHA[(i / 3375) % 15]]
      .foldl([], (l, c) => if (c == 0) l else l.append(c))

  pure def stripZeros(l: List[int]): List[int] =
    l.foldl({ l: [], on: false }, (t, c) => if (not(t.on) and c == 48) t else { l: t.l.append(c), on: true }).l
  pure val DIGS: List[int] = [48,49,50,51,52,53,54,55,56,57,97,98,99,100,101,102]
  pure def isDigit(c: int, radix: int): bool = DIGS.slice(0, radix).foldl(false, (b, d) => b or d == c)

  // The numerals of all values in range, without leading zeros.
  pure def numerals(s: bool, neg: bool, radix: int): Set[List[int]] =
    0.to(255).filter(v => inR(s, if (neg) -v else v)).map(v => if (v == 0) [] else chars(v, radix, false))
  pure val IN_RANGE = tuples(Set(false, true), Set(false, true), Set(2, 8, 10, 16))
    .mapBy(t => numerals(t._1, t._2, t._3))

  // Ok exactly for the zero-padded numerals of values in range, of that value;
  // the error is an overflow only if every character is a digit.
  pure def parseLaw(s: bool, radix: int, src: List[int]): bool = {
    val o = parse(s, radix, [], src)
    val neg = s and src != [] and src[0] == 45
    val body = if (src != [] and (neg or src[0] == 43)) drop(src, 1) else src
    val digits = body != [] and body.foldl(true, (b, c) => b and isDigit(c, radix))
    val core = stripZeros(body)
    val ok = digits and core.in(IN_RANGE.get((s, neg, radix)))
    match o {
      | OI(v) => ok and abs(v) < 256 and (v < 0 implies neg) and
                 core == (if (v == 0) [] else chars(abs(v), radix, false)) and inR(s, v)
      | OE(e) => not(ok) and and {
          (e == "empty") == (src == []),
          (e == "invalid" or e == "empty") or (if (neg) e == "neg_overflow" else e == "pos_overflow"),
          digits implies (e == "pos_overflow" or e == "neg_overflow"),
          body == [] implies e != "pos_overflow" and e != "neg_overflow"
        }
      | _ => false
    }
  }
  pure def lawParse(i: int): bool =
    Set(false, true).forall(s => Set(2, 8, 10, 16).forall(r => parseLaw(s, r, strAt(i))))

  // The prefixed parser picks the radix by the prefix; a prefix with no digits,
  // or out of place, is an error; every error is only "some error".
  pure def lawPrefixed(i: int): bool =
    Set([], [48, 98], [48, 111], [48, 120]).forall(p => Set(false, true).forall(s => {
      val l = strAt(i)
      val sg = l != [] and (l[0] == 43 or (s and l[0] == 45))
      val src = if (sg) [l[0]].concat(p).concat(drop(l, 1)) else p.concat(l)
      val radix = if (p == []) 10 else if (p == [48, 98]) 2 else if (p == [48, 111]) 8 else 16
      // a plain numeral may itself begin with a prefix: covered by the other p
      val self = p == [] and { val b = if (sg) drop(l, 1) else l
                               startsWith(b, [48, 98]) or startsWith(b, [48, 111]) or startsWith(b, [48, 120]) }
      // a sign after the prefix is not a sign
      val inner = p != [] and not(sg) and l != [] and (l[0] == 43 or l[0] == 45)
      self or (if (inner) parsePrefixed(s, src) == OErr
               else match (parse(s, radix, [], l)) {
                 | OI(v) => parsePrefixed(s, src) == OI(v)
                 | _ => parsePrefixed(s, src) == OErr
               })
    }))

  // A literal is a numeral once separators are dropped; anything a parser
  // rejects does not compile.
  pure def lawLiteral(i: int): bool = Set(false, true).forall(s => {
    val l = strAt(i)
    val clean = l.foldl([], (t, c) => if (c == 95 or c == 32) t else t.append(c))
    // separators before the sign or inside the prefix are not separators
    val tidy = l == clean or (l != [] and l[0] != 95 and l[0] != 32 and isDigit(l[0], 10) and l[0] != 48)
    not(tidy) or (literal(s, l) == (match (parsePrefixed(s, clean)) { | OI(v) => OI(v) | _ => OP }))
      or { // "0x" alone: too short for a prefix, and x is not a decimal digit
           literal(s, l) == OP and parsePrefixed(s, clean) == OErr }
  })

  /* ------------------------------------------------------------- formatting -- */

  pure def lawRound(a: int): bool = Set(false, true).forall(s => {
    val x = if (s) sgn8(a) else a
    and {
      Set(2, 8, 10, 16).forall(r =>
        parse(s, r, [], (if (x < 0) [45] else []).concat(chars(abs(x), r, r > 10 and a % 2 == 0))) == OI(x)),
      parsePrefixed(s, decText(x)) == OI(x), parsePrefixed(s, hexText(x)) == OI(x),
      // kind 4, 5, 6, 7 with '#' and '-'
      Set(4, 5, 6, 7).forall(k => parsePrefixed(s, format(s, x, k, 2, true, false, 0, [32], 0)) == OI(x)),
      // without '-' a negative number is its two's complement pattern
      Set(4, 5, 6, 7).forall(k => format(s, x, k, 0, false, false, 0, [32], 0) == format(false, a, k, 0, false, false, 0, [32], 0)),
      literal(s, decText(x)) == OI(x), literal(s, hexText(x)) == OI(x),
      // minimal: no leading zero
      a == 0 or chars(a, 10, false)[0] != 48
    }
  })
  // Padding: the text is the unpadded one with fill around it, or with zeros
  // after sign and prefix; its length is the larger of both.
  pure def lawPad(a: int): bool = Set(false, true).forall(s => 0.to(7).forall(kind => 0.to(2).forall(sgf =>
    Set(false, true).forall(alt => Set((0, 0), (1, 7), (2, 8), (3, 9), (2, 11)).forall(t => {
      val x = if (s) sgn8(a) else a
      val bare = format(s, x, kind, sgf, alt, false, 0, [32], 0)
      val p = format(s, x, kind, sgf, alt, false, t._1, [42], t._2)
      val z = format(s, x, kind, sgf, alt, true, t._1, [42], t._2)
      val gap = t._2 - bare.length()
      val want = max2(t._2, bare.length())
      val left = if (t._1 == 1) 0 else if (t._1 == 2) gap / 2 else gap
      and {
        p.length() == want, z.length() == want,
        gap <= 0 or (p.slice(left, left + bare.length()) == bare and
                     p.slice(0, left) == replicate(left, 42) and drop(p, left + bare.length()) == replicate(gap - left, 42)),
        // zero fill denotes the same number
        gap <= 0 or z.foldl(0, (n, c) => if (c == 42) n + 1 else n) == 0,
        (kind >= 2 and sgf != 2) or alt or parse(s, if (kind <= 1) 10 else if (kind == 4) 2 else if (kind == 5) 8 else 16, [],
              z) == OI(x) or (not(s) and false)
      }
    })))))

  /* ------------------------------------------------------------------ serde -- */

  pure def lawSerde(a: int): bool = Set(false, true).forall(s => {
    val x = if (s) sgn8(a) else a
    and {
      fDeText(s, hexText(x)).select(e => e._1 != "decimal").foldl(true, (b, e) => b and e._2 == OI(x)),
      fDeText(s, decText(x)).select(e => e._1 != "default").foldl(true, (b, e) => b and e._2 == OI(x)),
      fSerBytes(s, x)[0] == ("bytes_le", OX([a])),
      fDeBytes(s, [a]).foldl(true, (b, e) => b and e._2 == OI(x)),
      // the shortest: empty for zero, one byte otherwise
      compLE(s, x) == (if (x == 0) [] else [a])
    }
  })
  // A tiny float format (3 significand bits, 3 exponent bits): accepted exactly
  // when the value is an integer of magnitude below 2^3 in the type's range.
  pure def lawFloatIn(b: int): bool = Set(false, true).forall(s => {
    val bits = b % 64
    val mag = bits % 32
    val neg = bits >= 32
    val e = mag / 4
    val v32 = if (e == 0) (mag % 4) * 2 else (4 + mag % 4) * 2^e     // value * 32
    val v = if (neg) -(v32 / 32) else v32 / 32
    val o = floatOut(3, 3, s, bits)
    if (o == OAny) s and neg and v32 == 8 * 32
    else if (mag >= 28) o == OErr
    else o == (if (v32 % 32 == 0 and v32 < 8 * 32 and inR(s, v)) OI(v) else OErr)
  })

  /* ------------------------------------------------- words, bytes, conversions -- */

  pure def lawWords(a: int, b: int): bool = Set(false, true).forall(s => {
    val x = if (s) sgn8(a) else a
    val h = hiW(s, x)
    val l = loW(s, x)
    and {
      joinW(s, h, l) == x,
      fmod(h, 16) == a / 16, fmod(l, 16) == a % 16,
      inRTo(4, s, h) and inRTo(4, s, l),
      // writing one half leaves the other
      fmod(joinW(s, h, wrapTo(4, s, b)), 256) == (a / 16) * 16 + b % 16,
      fmod(joinW(s, wrapTo(4, s, b), l), 256) == (b % 16) * 16 + a % 16
    }
  })
  // a is the value (minus 128 when signed), b selects the width
  pure def lawCast(a: int, b: int): bool = {
    val n = 1 + b % 9
    Set(false, true).forall(sg => Set(a, a - 128, a - 256).forall(x => {
      val y = wrapTo(n, sg, x)
      and { (y - x) % 2^n == 0, inRTo(n, sg, y), (y == x) == inRTo(n, sg, x) }
    }))
  }
  pure def lawFold(a: int, b: int): bool = Set(false, true).forall(s => {
    def f(x) = if (s) sgn8(x) else x
    val l = [f(a), f(b), f((a * 3 + b) % 256)]
    val sum = l[0] + l[1] + l[2]
    val prod = l[0] * l[1] * l[2]
    val okS = inR(s, l[0]) and inR(s, l[0] + l[1]) and inR(s, sum)
    val okP = inR(s, l[0]) and inR(s, l[0] * l[1]) and inR(s, prod)
    fFold(s, l) == [("sum", if (okS) OI(sum) else OD(wrap(s, sum))), ("product", if (okP) OI(prod) else OD(wrap(s, prod)))]
    and fFold(s, []) == [("sum", OI(0)), ("product", OI(1))]
  })
}
