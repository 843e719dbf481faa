// Implementation-shaped model of the native two-word algorithms.
//
// A register is a pair of LH-bit words (ethnum: LH = 128, the u128 halves) and
// every definition follows one function of the crate step by step: same words,
// same intermediate wrap-arounds, same branches. The model is compared with
// api.qnt on every operand pair at a small LH (spec/laws.qnt), which also
// discharges the code's claims of the form "at most two iterations", "cannot
// overflow" and "unreachable". At LH = 128 it is evaluated on generated operands
// to tell which branches a conformance run has exercised.
//
// Registers are passed as bit patterns in [0, 2^(2 LH)). A result carries the
// list `p` of branches taken, so that two operand pairs can be told apart by
// the route they take through the code.
module limbs {
  import num.* from "./num"

  // word width in bits; even, at least 4
  const LH: int

  pure val B = 2^LH             // word base
  pure val D = 2^(LH / 2)       // half-word ("digit") base
  pure val LW = 2 * LH
  pure val LM = 2^LW
  pure val LHALF = 2^(LW - 1)
  pure val WORDMAX = B - 1

  pure def hiw(u: int): int = u / B
  pure def low(u: int): int = u % B
  pure def join(h: int, l: int): int = h * B + l
  pure def bit(c: bool): int = if (c) 1 else 0
  pure def sword(w: int): int = if (w >= B / 2) w - B else w       // i128 view of a word
  pure def isNeg(u: int): bool = u >= LHALF

  /* ------------------------------------------------- word-level operations -- */

  pure def wWadd(a: int, b: int): int = (a + b) % B
  pure def wWsub(a: int, b: int): int = (a + B - b) % B
  pure def wWmul(a: int, b: int): int = (a * b) % B
  pure def wShl(a: int, n: int): int = (a * 2^n) % B
  pure def wShr(a: int, n: int): int = a / 2^n
  pure def wLz(a: int): int = LH - bitlen(a)
  // No implicit overflow: what `+`, `-`, `*` on u128 require in a debug build.
  pure def fits(x: int): bool = 0 <= x and x < B

  /* ------------------------------------------------ native/add.rs, sub.rs -- */

  pure def addW(a: int, b: int): int = {
    val lo = low(a) + low(b)
    val carry = bit(lo >= B)
    join(wWadd(wWadd(hiw(a), carry), hiw(b)), lo % B)
  }
  pure def subW(a: int, b: int): int = {
    val borrow = bit(low(a) < low(b))
    join(wWsub(wWsub(hiw(a), borrow), hiw(b)), wWsub(low(a), low(b)))
  }

  pure def uaddc(a: int, b: int): { v: int, c: bool, p: List[int] } = {
    val lo = low(a) + low(b)
    val c1 = lo >= B
    val h1 = hiw(a) + bit(c1)
    val c2 = h1 >= B
    val h2 = (h1 % B) + hiw(b)
    val c3 = h2 >= B
    { v: join(h2 % B, lo % B), c: c2 or c3, p: [bit(c1), bit(c2), bit(c3)] }
  }
  pure def usubc(a: int, b: int): { v: int, c: bool, p: List[int] } = {
    val c1 = low(a) < low(b)
    val h1 = hiw(a) - bit(c1)
    val c2 = h1 < 0
    val h1w = if (c2) h1 + B else h1
    val c3 = h1w < hiw(b)
    { v: join(wWsub(h1w, hiw(b)), wWsub(low(a), low(b))), c: c2 or c3, p: [bit(c1), bit(c2), bit(c3)] }
  }

  // Signed comparison: high words as i128, then low words as u128.
  pure def sLt(a: int, b: int): bool =
    sword(hiw(a)) < sword(hiw(b)) or (hiw(a) == hiw(b) and low(a) < low(b))

  pure def iaddc(a: int, b: int): { v: int, c: bool, p: List[int] } = {
    val s = addW(a, b)
    val c = (not(isNeg(b)) and sLt(s, a)) or (isNeg(b) and not(sLt(s, a)))
    { v: s, c: c, p: [bit(isNeg(a)), bit(isNeg(b)), bit(isNeg(s)), bit(low(a) + low(b) >= B), bit(hiw(s) == hiw(a))] }
  }
  pure def isubc(a: int, b: int): { v: int, c: bool, p: List[int] } = {
    val s = subW(a, b)
    val c = (not(isNeg(b)) and sLt(a, s)) or (isNeg(b) and not(sLt(a, s)))
    { v: s, c: c, p: [bit(isNeg(a)), bit(isNeg(b)), bit(isNeg(s)), bit(low(a) < low(b)), bit(hiw(s) == hiw(a))] }
  }

  /* ------------------------------------------------------- native/mul.rs -- */

  // u128 x u128 -> u256, given the four products of half-words; `ok` is false if
  // an intermediate sum could overflow.
  pure def mulHalves(ll: int, hl: int, lh: int, hh: int): { v: int, ok: bool, p: List[int] } = {
    val t1 = (ll / D) + hl
    val l1 = (ll % D) + (t1 % D) * D
    val h1 = t1 / D
    val t2 = (l1 / D) + lh
    val l2 = (l1 % D) + (t2 % D) * D
    val h2 = h1 + t2 / D + hh
    { v: join(h2 % B, l2 % B), ok: fits(t1) and fits(l1) and fits(t2) and fits(l2) and fits(h2),
      p: [bit(t1 / D > 0), bit(t2 / D > 0), bit(h1 + t2 / D >= D)] }
  }
  pure def umulddi3(a: int, b: int): { v: int, ok: bool, p: List[int] } =
    mulHalves((a % D) * (b % D), (a / D) * (b % D), (b / D) * (a % D), (a / D) * (b / D))

  pure def mulW(a: int, b: int): int = {
    val r = umulddi3(low(a), low(b)).v
    val hilo = wWmul(hiw(a), low(b))
    val lohi = wWmul(low(a), hiw(b))
    join(wWadd(hiw(r), wWadd(hilo, lohi)), low(r))
  }

  // Given the product of the low words, the mixed products and whether both
  // high words are non-zero.
  pure def mulWords(r: int, hl: int, lh: int, hh: bool): { v: int, c: bool, p: List[int] } = {
    val hi = (hl % B) + (lh % B)
    val top = hiw(r) + (hi % B)
    { v: join(top % B, low(r)),
      c: hl >= B or lh >= B or hi >= B or top >= B or hh,
      p: [bit(hl >= B), bit(lh >= B), bit(hi >= B), bit(top >= B), bit(hh)] }
  }
  pure def umulc(a: int, b: int): { v: int, c: bool, p: List[int] } = {
    val m = mulWords(umulddi3(low(a), low(b)).v, hiw(a) * low(b), low(a) * hiw(b), hiw(a) != 0 and hiw(b) != 0)
    { ...m, p: m.p.concat([bit(hiw(a) == 0), bit(hiw(b) == 0)]) }
  }

  // x ^ s - s with s = x >> 255: the two's complement magnitude.
  pure def condNeg(x: int, s: bool): int = if (s) subW(LM - 1 - x, LM - 1) else x

  pure def imulc(a: int, b: int): { v: int, c: bool, p: List[int] } = {
    val v = mulW(a, b)
    val sa = isNeg(a)
    val sb = isNeg(b)
    val aa = condNeg(a, sa)
    val ab = condNeg(b, sb)
    if (a == LHALF) { v: v, c: b != 0 and b != 1, p: [0, bit(b <= 1)] }
    else if (b == LHALF) { v: v, c: a != 0 and a != 1, p: [1, bit(a <= 1)] }
    else if (aa < 2 or ab < 2) { v: v, c: false, p: [2, bit(sa), bit(sb)] }
    else {
      val c = if (sa == sb) aa > (LHALF - 1) / ab
              // I256::MIN / -abs_b, both negative
              else aa > LHALF / ab
      { v: v, c: c, p: [3, bit(sa), bit(sb), bit(c), bit(aa * ab == LHALF), bit(aa * ab == LHALF - 1)] }
    }
  }

  /* --------------------------------------------- native/shl.rs, shr.rs, rot -- */

  // Amounts within a word, and beyond.
  pure def shlIn(a: int, n: int): int = join((wShl(hiw(a), n) + wShr(low(a), LH - n)) % B, wShl(low(a), n))
  pure def shlOver(a: int, n: int): int = join(wShl(low(a), n % LH), 0)
  pure def shrIn(a: int, n: int): int = join(wShr(hiw(a), n), wShr(low(a), n) + wShl(hiw(a), LH - n))
  pure def shrOver(a: int, n: int): int = join(0, wShr(hiw(a), n % LH))
  // arithmetic shift of an i128 word
  pure def wSar(w: int, n: int): int = fmod(fdiv(sword(w), 2^n), B)
  pure def sarIn(a: int, n: int): int = join(wSar(hiw(a), n), wShr(low(a), n) + wShl(hiw(a), LH - n))
  pure def sarOver(a: int, n: int): int = join(wSar(hiw(a), LH - 1), wSar(hiw(a), n % LH))
  // n < LW
  pure def shlW(a: int, n: int): { v: int, p: List[int] } =
    if (n == 0) { v: a, p: [0] } else if (n < LH) { v: shlIn(a, n), p: [1, n] } else { v: shlOver(a, n), p: [2, n] }
  pure def shrW(a: int, n: int): { v: int, p: List[int] } =
    if (n == 0) { v: a, p: [0] } else if (n < LH) { v: shrIn(a, n), p: [1, n] } else { v: shrOver(a, n), p: [2, n] }
  pure def sarW(a: int, n: int): { v: int, p: List[int] } =
    if (n == 0) { v: a, p: [0, bit(isNeg(a))] }
    else if (n < LH) { v: sarIn(a, n), p: [1, n, bit(isNeg(a))] }
    else { v: sarOver(a, n), p: [2, n, bit(isNeg(a))] }

  // rol3, ror3: for a zero amount both halves are `a` itself, joined by a
  // bitwise or. Disjoint otherwise, hence the sum.
  pure def rolW(a: int, n: int): int = {
    val k = n % LW
    if (k == 0) a else (shlW(a, k).v + shrW(a, LW - k).v)
  }
  pure def rorW(a: int, n: int): int = {
    val k = n % LW
    if (k == 0) a else (shrW(a, k).v + shlW(a, LW - k).v)
  }

  /* ------------------------------------------------------- native/ctz.rs -- */

  pure def ctlzW(a: int): int =
    if (hiw(a) == 0) wLz(low(a)) + LH else wLz(hiw(a))
  pure def cttzW(a: int): int = {
    val w = if (low(a) == 0) hiw(a) else low(a)
    (if (w == 0) LH else twos(w)) + (if (low(a) == 0) LH else 0)
  }

  /* ----------------------------------------------------- native/divmod.rs -- */

  // One quotient digit of udiv256_by_128_to_128: the first guess n / vn1 and its
  // corrections. `n` is the number of corrections, `brk` how the loop ended,
  // `lim` whether a third correction would have been due (claimed impossible).
  pure def digit(un: int, vn1: int, vn0: int, nx: int): { q: int, n: int, brk: bool, big: bool, lim: bool } = {
    val q0 = un / vn1
    val start = { q: q0, r: un - q0 * vn1, n: 0, done: false, brk: false }
    val e = 1.to(2).fold(start, (t, _) =>
      if (t.done) t
      else if (t.q >= D or t.q * vn0 > D * t.r + nx) {
        val r = t.r + vn1
        { q: t.q - 1, r: r, n: t.n + 1, done: r >= D, brk: r >= D }
      } else { ...t, done: true })
    { q: e.q, n: e.n, brk: e.brk, big: q0 >= D,
      lim: not(e.done) and (e.q >= D or e.q * vn0 > D * e.r + nx) }
  }

  // (un:un10) / v for un < v and v normalized (its highest bit set).
  pure def divNorm(un: int, un10: int, v: int): { q: int, r: int, ok: bool, p: List[int] } = {
    val vn1 = v / D
    val vn0 = v % D
    val d1 = digit(un, vn1, vn0, un10 / D)
    val un21 = fmod(un * D + un10 / D - d1.q * v, B)
    val d0 = digit(un21, vn1, vn0, un10 % D)
    { q: d1.q * D + d0.q, r: fmod(un21 * D + un10 % D - d0.q * v, B),
      ok: vn1 > 0 and not(d1.lim) and not(d0.lim) and fits(d1.q * D + d0.q) and d1.q < D and d0.q < D,
      p: [d1.n, bit(d1.brk), bit(d1.big), d0.n, bit(d0.brk), bit(d0.big)] }
  }
  // (u1:u0) / v0 for u1 < v0. `ok`: no intermediate overflow and at most two
  // corrections per digit.
  pure def div2by1(u1: int, u0: int, v0: int): { q: int, r: int, ok: bool, p: List[int] } = {
    val s = wLz(v0)
    val d = divNorm(if (s > 0) (wShl(u1, s) + wShr(u0, LH - s)) else u1, wShl(u0, s), wShl(v0, s))
    { q: d.q, r: wShr(d.r, s), ok: d.ok, p: [bit(s > 0)].concat(d.p) }
  }

  // fullmul_u128, given the four products of half-words
  pure def fullHalves(ll: int, hl: int, lh: int, hh: int): { lo: int, hi: int, ok: bool } = {
    val t1 = hl + ll / D
    val t2 = lh + t1 % D
    val hi = hh + t1 / D + t2 / D
    val l = wShl(t2, LH / 2) + ll % D
    { lo: l % B, hi: hi % B, ok: fits(ll) and fits(t1) and fits(t2) and fits(hi) and fits(l) }
  }
  pure def fullmul(a: int, b: int): { lo: int, hi: int, ok: bool } =
    fullHalves((a % D) * (b % D), (a / D) * (b % D), (a % D) * (b / D), (a / D) * (b / D))
  pure def addCarry(a: int, b: int, c: bool): { v: int, c: bool } = {
    val r1 = b + bit(c)
    val r2 = a + (r1 % B)
    { v: r2 % B, c: r1 >= B or r2 >= B }
  }
  pure def subCarry(a: int, b: int, c: bool): { v: int, c: bool } = {
    val r1 = b + bit(c)
    val r2 = a - (r1 % B)
    { v: fmod(r2, B), c: r1 >= B or r2 < 0 }
  }

  // The estimate q (with remainder r) corrected by the low word of the divisor,
  // given the word multiplication.
  type Guess = { q: int, r: int, n: int, done: bool, ovf: bool }
  def correct(q: int, r: int, est: bool, n0: int, vh: int, vl: int, mul: (int, int) => { lo: int, hi: int, ok: bool }): Guess =
    1.to(2).fold({ q: q, r: r, n: 0, done: not(est), ovf: false }, (t, _) =>
      if (t.done) t
      else {
        val m = mul(t.q, vl)
        if (m.hi > t.r or (m.hi == t.r and m.lo > n0)) {
          val r2 = t.r + vh
          { q: t.q - 1, r: r2 % B, n: t.n + 1, done: r2 >= B, ovf: r2 >= B }
        } else { ...t, done: true }
      })

  // u -= q * v over three words, and the add-back if that went below zero.
  // m0 = q * vl, m1 = q * vh
  pure def takeAway(q: int, n2: int, n1: int, n0: int, vh: int, vl: int, m0: { lo: int, hi: int, ok: bool }, m1: { lo: int, hi: int, ok: bool }):
      { q: int, w2: int, w1: int, w0: int, back: bool, ok: bool } = {
    // fullmul_u256_u128
    val a1 = m0.hi + m1.lo
    val a2 = m1.hi + bit(a1 >= B)
    val x0 = subCarry(n0, m0.lo, false)
    val x1 = subCarry(n1, a1 % B, x0.c)
    val x2 = subCarry(n2, a2, x1.c)
    val y0 = addCarry(x0.v, vl, false)
    val y1 = addCarry(x1.v, vh, y0.c)
    val y2 = wWadd(x2.v, bit(y1.c))
    val ok = fits(a2) and m0.ok and m1.ok
    if (x2.c) { q: q - 1, w2: y2, w1: y1.v, w0: y0.v, back: true, ok: ok }
    else { q: q, w2: x2.v, w1: x1.v, w0: x0.v, back: false, ok: ok }
  }

  // div_mod_knuth: the divisor's high word is not zero and v <= u.
  pure def knuth(u: int, v0: int): { q: int, r: int, ok: bool, p: List[int] } = {
    val shift = wLz(hiw(v0))
    val v = shlW(v0, shift).v
    val vh = hiw(v)
    val vl = low(v)
    // full_shl: three words of u << shift, the upper two by u >> (LH - shift)
    val n0 = wShl(low(u), shift)
    val up = shrW(u, LH - shift).v
    val n1 = low(up)
    val n2 = hiw(up)
    val est = n2 < vh
    val d = if (est) div2by1(n2, n1, vh) else { q: WORDMAX, r: 0, ok: true, p: [] }
    val e = correct(d.q, d.r, est, n0, vh, vl, (x, y) => fullmul(x, y))
    val mEnd = fullmul(e.q, vl)
    val third = not(e.done) and (mEnd.hi > e.r or (mEnd.hi == e.r and mEnd.lo > n0))
    val f = takeAway(e.q, n2, n1, n0, vh, vl, fullmul(vl, e.q), fullmul(vh, e.q))
    // full_shr
    val rl = if (shift > 0) wShr(f.w0, shift) + wShl(f.w1, LH - shift) else f.w0
    val rh = if (shift > 0) wShr(f.w1, shift) + wShl(f.w2, LH - shift) else f.w1
    { q: f.q, r: join(rh, rl),
      ok: vh >= B / 2 and hiw(u) != 0 and not(third) and f.ok and d.ok,
      p: [bit(shift > 0), bit(est), e.n, bit(e.ovf), bit(f.back)].concat(d.p) }
  }

  // udivmod4, b != 0
  pure def udivmod(a: int, b: int): { q: int, r: int, ok: bool, p: List[int] } =
    if (hiw(a) == 0 and hiw(b) == 0) { q: low(a) / low(b), r: low(a) % low(b), ok: true, p: [0] }
    else if (b > a) { q: 0, r: a, ok: true, p: [1, bit(hiw(b) == hiw(a))] }
    else if (hiw(b) == 0) {
      if (hiw(a) < low(b)) {
        val d = div2by1(hiw(a), low(a), low(b))
        { q: d.q, r: d.r, ok: d.ok, p: [2].concat(d.p) }
      } else {
        val d = div2by1(hiw(a) % low(b), low(a), low(b))
        { q: join(hiw(a) / low(b), d.q), r: d.r, ok: d.ok, p: [3].concat(d.p) }
      }
    } else {
      val d = knuth(a, b)
      { q: d.q, r: d.r, ok: d.ok, p: [4].concat(d.p) }
    }

  // idivmod4, b != 0
  pure def idivmod(a: int, b: int): { q: int, r: int, ok: bool, p: List[int] } = {
    val sa = isNeg(a)
    val sb = isNeg(b)
    val d = udivmod(condNeg(a, sa), condNeg(b, sb))
    { q: condNeg(d.q, sa != sb), r: condNeg(d.r, sa), ok: d.ok,
      p: [bit(sa), bit(sb), bit(d.r == 0)].concat(d.p) }
  }

  /* ---------------------------------------------- int/api.rs: Euclidean -- */

  pure def idivEuclid(a: int, b: int): { q: int, r: int, p: List[int] } = {
    val d = idivmod(a, b)
    val neg = isNeg(d.r)
    val q = if (not(neg)) d.q else if (not(isNeg(b))) subW(d.q, 1) else addW(d.q, 1)
    val r = if (not(neg)) d.r else if (isNeg(b)) subW(d.r, b) else addW(d.r, b)
    { q: q, r: r, p: [bit(neg)].concat(d.p) }
  }

  /* ------------------------------------------------- api.rs: powers, etc. -- */

  // Square and multiply over the bits of e; `f` is set by every product that
  // leaves the range, including the last squaring, which signed pow skips.
  pure def uPowW(a: int, e: int): { v: int, f: bool } =
    if (e == 0) { v: 1, f: false }
    else {
      val t = 1.to(bitlen(e) - 1).fold({ e: e, b: a, acc: 1, f: false }, (t, _) => {
        val m = umulc(t.acc, t.b)
        val sq = umulc(t.b, t.b)
        val odd = t.e % 2 == 1
        { e: t.e / 2, b: sq.v, acc: if (odd) m.v else t.acc, f: t.f or sq.c or (odd and m.c) }
      })
      val m = umulc(t.acc, t.b)
      { v: m.v, f: t.f or m.c }
    }
  pure def sPowW(a: int, e: int): { v: int, f: bool } =
    if (e == 0) { v: 1, f: false }
    else {
      val t = 1.to(bitlen(e) - 1).fold({ e: e, b: a, acc: 1, f: false }, (t, _) => {
        val m = imulc(t.acc, t.b)
        val sq = imulc(t.b, t.b)
        val odd = t.e % 2 == 1
        { e: t.e / 2, b: sq.v, acc: if (odd) m.v else t.acc, f: t.f or sq.c or (odd and m.c) }
      })
      val m = imulc(t.acc, t.b)
      { v: m.v, f: t.f or m.c }
    }

  // one_less_than_next_power_of_two() + 1
  pure def nextPow2(a: int): { v: int, f: bool } = {
    val less = if (a <= 1) 0 else shrW(LM - 1, ctlzW(subW(a, 1))).v
    val n = uaddc(less, 1)
    { v: n.v, f: n.c }
  }

  pure def signum128(a: int): int = {
    val h = sword(hiw(a))
    // hi.signum() | (lo != 0): -1 | x is -1
    if (h < 0) -1 else if (h > 0) 1 else bit(low(a) != 0)
  }
  pure def iAbsDiff(a: int, b: int): int = if (sLt(a, b)) subW(b, a) else subW(a, b)

  // U256 + I256: overflowing_add(rhs as U256), flag ^ (rhs < 0)
  pure def uAddSigned(a: int, b: int): { v: int, c: bool } = {
    val r = uaddc(a, b)
    { v: r.v, c: r.c != isNeg(b) }
  }
  pure def uSatAddSigned(a: int, b: int): int = {
    val r = uaddc(a, b)
    if (r.c == isNeg(b)) r.v else if (r.c) LM - 1 else 0
  }
  pure def iAddUnsigned(a: int, b: int): { v: int, c: bool } = {
    val r = iaddc(a, b)
    { v: r.v, c: r.c != isNeg(b) }
  }
  pure def iSubUnsigned(a: int, b: int): { v: int, c: bool } = {
    val r = isubc(a, b)
    { v: r.v, c: r.c != isNeg(b) }
  }

  /* ------------------------------------ parse.rs: literals (mul, then add) -- */

  // None is represented by f: the compile-time assertion that fails.
  pure def litStep(a: int, radix: int, d: int): { v: int, f: bool, p: List[int] } = {
    val ll = (low(a) % D) * radix
    val lh = (low(a) / D) * radix
    val h0 = hiw(a) * radix
    val l1 = ll + (lh % D) * D
    val h1 = (h0 % B) + lh / D + bit(l1 >= B)
    val l2 = (l1 % B) + d
    val h2 = (h1 % B) + bit(l2 >= B)
    { v: join(h2 % B, l2 % B), f: h0 >= B or h1 >= B or h2 >= B,
      p: [bit(h0 >= B), bit(h1 >= B), bit(h2 >= B), bit(l1 >= B), bit(l2 >= B)] }
  }

  /* ---------------------------------- uint.rs, int.rs: casts to a float -- */

  // Significand (sticky bit included) and scale whose product is converted:
  // as_f64 for a value whose high word is not zero.
  pure def floatParts(a: int): { m: int, e: int } =
    if (hiw(a) == 0) { m: low(a), e: 0 }
    else {
      val e = LH - wLz(hiw(a))
      val up = low(shrW(a, e).v)
      val lost = shlW(a, LW - e).v != 0
      { m: if (lost and up % 2 == 0) up + 1 else up, e: e }
    }
}
