// Proofs at full width: limbs.qnt with 128-bit words and 64-bit digits against
// the mathematics, for every operand, decided by Apalache (driver/prove.js).
//
// A lemma is an invariant of a system whose initial state is arbitrary. The
// values named q, r below are the quotient and the remainder by their defining
// property. Products of two unknowns are kept out of the way of the solver: the
// definitions of limbs.qnt take the partial products as arguments, the lemmas
// hold for any numbers in the range of such products, and `prod...` tie them to
// the product of the operands.
module proofs {
  import num.* from "./num"
  import api(W = 256) as A from "./api"
  import limbs(LH = 128) as L from "./limbs"

  var a: int
  var b: int
  var c: int
  var d: int
  var e: int
  var f: int
  action init = all {
    nondet x = oneOf(Int) all { 0 <= x, a' = x },
    nondet x = oneOf(Int) all { 0 <= x, b' = x },
    nondet x = oneOf(Int) all { 0 <= x, c' = x },
    nondet x = oneOf(Int) all { 0 <= x, d' = x },
    nondet x = oneOf(Int) all { 0 <= x, e' = x },
    nondet x = oneOf(Int) all { 0 <= x, f' = x },
  }
  action step = all { a' = a, b' = b, c' = c, d' = d, e' = e, f' = f }

  val B = L::B
  val D = L::D
  val M = L::LM
  val H = L::LHALF
  val regs = a < M and b < M
  pure def S(u: int): int = if (u >= L::LHALF) u - L::LM else u

  /* ------------------------------------------------ addition, subtraction -- */

  val add = regs implies L::addW(a, b) == (a + b) % M
  val sub = regs implies L::subW(a, b) == (a + M - b) % M
  val uaddc = regs implies { val r = L::uaddc(a, b) r.v == A::asU(a + b) and r.c == not(A::inR(false, a + b)) }
  val usubc = regs implies { val r = L::usubc(a, b) r.v == A::asU(a - b) and r.c == not(A::inR(false, a - b)) }
  val iaddc = regs implies { val r = L::iaddc(a, b) r.v == A::asU(a + b) and r.c == not(A::inR(true, S(a) + S(b))) }
  val isubc = regs implies { val r = L::isubc(a, b) r.v == A::asU(a - b) and r.c == not(A::inR(true, S(a) - S(b))) }
  val uAddSigned = regs implies { val r = L::uAddSigned(a, b) r.v == A::asU(a + S(b)) and r.c == not(A::inR(false, a + S(b))) }
  val iAddUnsigned = regs implies { val r = L::iAddUnsigned(a, b) r.v == A::asU(a + b) and r.c == not(A::inR(true, S(a) + b)) }
  val iSubUnsigned = regs implies { val r = L::iSubUnsigned(a, b) r.v == A::asU(a - b) and r.c == not(A::inR(true, S(a) - b)) }
  val uSatAddSigned = regs implies L::uSatAddSigned(a, b) == A::clamp(false, a + S(b))

  /* --------------------------------------------------- sign and comparison -- */

  val signedLess = regs implies L::sLt(a, b) == (S(a) < S(b))
  val absDiff = regs implies L::iAbsDiff(a, b) == abs(S(a) - S(b))
  val signum = a < M implies L::signum128(a) == sgn(S(a))
  val magnitude = a < M implies L::condNeg(a, L::isNeg(a)) == abs(S(a))
  val negation = a < M implies L::condNeg(a, true) == A::asU(-a)

  /* ---------------------------------------------------------- multiplication -- */

  // a, b, c, d: low x low, high x low, low x high, high x high
  val DD = (D - 1) * (D - 1)
  val BB = (B - 1) * (B - 1)
  val halves = (a <= DD and b <= DD and c <= DD and d <= DD) implies {
    val m = L::mulHalves(a, b, c, d)
    m.ok and m.v == a + (b + c) * D + d * D * D
  }
  val fullHalves = (a <= DD and b <= DD and c <= DD and d <= DD) implies {
    val m = L::fullHalves(a, b, c, d)
    m.ok and m.hi * B + m.lo == a + (b + c) * D + d * D * D
  }
  val prodHalves = (a < B and b < B) implies
    a * b == (a % D) * (b % D) + ((a / D) * (b % D) + (b / D) * (a % D)) * D + (a / D) * (b / D) * D * D
  val words = (a <= BB and b <= BB and c <= BB and d <= BB) implies {
    val m = L::mulWords(a, b, c, d > 0)
    val p = a + (b + c) * B + d * B * B
    m.v == p % M and m.c == (p >= M)
  }
  val prodWords = (a < M and b < M) implies
    a * b == (a % B) * (b % B) + ((a / B) * (b % B) + (b / B) * (a % B)) * B + (a / B) * (b / B) * B * B
  // The signed flag compares magnitudes with a quotient instead of a product.
  val signedFlag = (2 <= a and 2 <= b and a <= H and b <= H) implies and {
    (a > (H - 1) / b) == (a * b > H - 1),
    (a > H / b) == (a * b > H)
  }

  /* ---------------------------------------------------------------- division -- */

  // One digit: (un:nx) = q * (vn1:vn0) + r, the divisor normalized. Two
  // corrections suffice, and the second digit starts from r.
  // a = un, b = vn1, c = vn0, d = nx, e = q, f = r
  val dv = b * D + c
  val digitDom = b < D and b >= D / 2 and c < D and d < D and a < dv and f < dv and a * D + d == e * dv + f
  val digit = digitDom implies { val x = L::digit(a, b, c, d) x.q == e and not(x.lim) and e < D }
  val digitRest = digitDom implies fmod(a * D + d - e * dv, B) == f
  // Every end of the correction loop is taken.
  val digitExample = not(digitDom and { val x = L::digit(a, b, c, d) x.n == 2 and x.q == e })

  // Two digits make a word: with q1, r1 of the first and q0, r0 of the second
  // step, (q1:q0) and r0 are quotient and remainder of the whole.
  // a = u, b = v, c = q1, d = r1, e = q0, f = r0
  val twoDigits = (b < B and a < b * B and c < D and d < b and e < D and f < b
    and a / D == c * b + d and d * D + a % D == e * b + f) implies and {
    a == (c * D + e) * b + f, c * D + e < B }

  // Scaling both operands by the normalizing power of two changes nothing.
  // a = u, b = v, c = q, d = r, e = the factor
  val scaling = (d < b and a == c * b + d and 0 < e) implies and {
    a * e == c * (b * e) + d * e, d * e < b * e, (d * e) / e == d }
  // A long division by one word, high word first.
  // a = high, b = low, c = v, d = q of the high word, e = q of the rest, f = r
  val twoWords = (0 < c and d * c <= a and a - d * c < c and f < c and (a - d * c) * B + b == e * c + f) implies
    a * B + b == (d * B + e) * c + f

  // Two words by two: the estimate from the upper words (b = vh, c = vl,
  // a = (n2:n1), d = n0), corrected.
  val kv = b * B + c
  val kDom = b < B and b >= B / 2 and c < B and d < B and a < b * B and f < kv and a * B + d == e * kv + f
  def exact(x: int, y: int): { lo: int, hi: int, ok: bool } = { lo: (x * y) % B, hi: (x * y) / B, ok: true }
  val estimate = kDom implies { a / b >= e and a / b <= e + 2 and a / b < B }
  val corrected = kDom implies {
    val t = L::correct(a / b, a % b, true, d, b, c, (x, y) => exact(x, y))
    t.q == e
  }

  // u -= q * v with the exact quotient leaves the remainder, without a borrow.
  // b = vh, c = vl, d = q * vl, e = q * vh, f = r; the dividend is what they say.
  val taken = (b < B and c < B and d <= BB and e <= BB and f < b * B + c and d + e * B + f < B * B * B) implies {
    val u = d + e * B + f
    val t = L::takeAway(0, u / (B * B), (u / B) % B, u % B, b, c, { lo: d % B, hi: d / B, ok: true }, { lo: e % B, hi: e / B, ok: true })
    and { not(t.back), t.ok, t.q == 0, t.w2 == 0, t.w1 * B + t.w0 == f }
  }

  /* ------------------------------------------------------------------ shifts -- */

  // Amounts are constants: driver/prove.js asks for each of them.
  // high word c * 2^(128 - n) + d, low word e * 2^(128 - n) + f
  pure def shl(n: int, h1: int, h0: int, l1: int, l0: int): bool =
    (h1 < 2^n and h0 < 2^(128 - n) and l1 < 2^n and l0 < 2^(128 - n)) implies {
      val x = (h1 * 2^(128 - n) + h0) * L::B + l1 * 2^(128 - n) + l0
      L::shlIn(x, n) == (x * 2^n) % L::LM
    }
  pure def shlFar(n: int, x: int): bool = x < L::LM implies L::shlOver(x, n) == (x * 2^n) % L::LM
  pure def shr(n: int, x: int): bool = x < L::LM implies L::shrIn(x, n) == x / 2^n
  pure def shrFar(n: int, x: int): bool = x < L::LM implies L::shrOver(x, n) == x / 2^n
  pure def sar(n: int, h: int, l: int): bool = (h < L::B and l < L::B) implies
    L::sarIn(h * L::B + l, n) == fmod(fdiv(L::sword(h) * L::B + l, 2^n), L::LM)
  pure def sarFar(n: int, h: int, l: int): bool = (h < L::B and l < L::B) implies
    L::sarOver(h * L::B + l, n) == fmod(fdiv(L::sword(h) * L::B + l, 2^n), L::LM)

  /* ------------------------------------------------------------------ literals -- */

  pure def litAt(x: int, radix: int, k: int): bool = {
    val t = L::litStep(x, radix, k)
    and { t.f == (x * radix + k >= L::LM), t.f or t.v == x * radix + k }
  }
  val literal2 = (a < M and b < 2) implies litAt(a, 2, b)
  val literal8 = (a < M and b < 8) implies litAt(a, 8, b)
  val literal10 = (a < M and b < 10) implies litAt(a, 10, b)
  val literal16 = (a < M and b < 16) implies litAt(a, 16, b)
}
