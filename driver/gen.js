// Case generation: which arguments the specification and the code are compared
// on. Enumerations are deterministic and split over the workers by index;
// random streams are seeded per worker.
'use strict'
const fs = require('fs'), path = require('path')
const { PRIMS, utf8 } = require('./fams.js')
const PA = require('./paths.js'), RNG = require('./rng.js'), HINTS = require('./hints.js')
const M = 1n << 256n, H = 1n << 255n, M1 = M - 1n
const W64 = 1n << 64n
const mod = x => ((x % M) + M) % M
const signed = (s, x) => { x = mod(x); return s && x >= H ? x - M : x }
const pow10 = Array.from({ length: 79 }, (_, i) => 10n ** BigInt(i))

/* ------------------------------------------------------------- values -- */

// Integer literals of the implementation, so that thresholds in the code are
// among the values tried.
function dictionary(src) {
  const out = new Set()
  const walk = d => {
    for (const e of fs.readdirSync(d, { withFileTypes: true })) {
      const p = path.join(d, e.name)
      if (e.isDirectory()) walk(p)
      else if (e.name.endsWith('.rs')) {
        const text = fs.readFileSync(p, 'utf8')
        for (const m of text.matchAll(/\b(0[xX][0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?=(u|i)?(8|16|32|64|128|size)?\b)/g)) {
          try {
            const v = BigInt(m[1].replace(/_/g, ''))
            if (v > 16n && v < M) out.add(v)
          } catch (e) { /* not an integer */ }
        }
      }
    }
  }
  walk(src)
  return [...out]
}
let DICT = []
let TEXTS = []
function setDict(src) {
  try { DICT = dictionary(src) } catch (e) { DICT = [] }
  const h = HINTS.find()
  TEXTS = h.texts
  RNG.setHints(h.numbers)
}

const L64 = [0n, 1n, 2n, W64 - 1n, W64 - 2n, 1n << 63n, (1n << 63n) - 1n, (1n << 63n) + 1n, 1n << 32n, (1n << 32n) - 1n]
const join64 = l => l.reduce((v, d) => (v << 64n) | d, 0n)

// Every word made of these limbs.
function lifted(limbs) {
  const out = []
  for (const a of limbs) for (const b of limbs) for (const c of limbs) for (const d of limbs) out.push(join64([a, b, c, d]))
  return out
}
const BOUND = (() => {
  const out = new Set()
  for (const k of [0, 1, 2, 7, 8, 15, 16, 31, 32, 52, 53, 54, 63, 64, 65, 95, 96, 126, 127, 128, 129, 159, 160, 191, 192, 193, 223, 224, 253, 254, 255, 256])
    for (const d of [-2n, -1n, 0n, 1n, 2n]) { out.add(mod((1n << BigInt(k)) + d)); out.add(mod(-(1n << BigInt(k)) + d)) }
  return [...out]
})()

function word(r) {
  if (RNG.hints().length && r.plain(20) === 0) return near256(r)
  switch (r.int(18)) {
    case 16: { // digits related to one another
      const n = r.pick([128, 128, 64, 32]), N = BigInt(n), w = (1n << N) - 1n, l = Array.from({ length: 256 / n }, () => r.bits(n))
      const i = r.int(l.length), j = r.int(l.length), x = l[i]
      l[j] = [x, x ^ w, -x & w, (x + 1n) & w, (x - 1n) & w, x >> 1n, (x << 1n) & w, (x * x) & w, 0n, x & 1n][r.int(10)]
      return l.reduce((v, y) => (v << N) | y, 0n)
    }
    case 17: { // few bits set, or few clear; palindromes
      let v = 0n
      if (r.chance(0.3)) { const b = r.bits(128); return (b << 128n) | BigInt('0b' + [...b.toString(2).padStart(128, '0')].reverse().join('')) }
      for (let i = r.int(6); i >= 0; i--) v |= 1n << BigInt(r.int(256))
      return r.bool() ? v : v ^ M1
    }
    case 13: { // the same pattern in several places
      const n = r.pick([1, 2, 4, 8, 8, 16, 32, 64, 128]), p = r.chance(0.5) ? r.bits(n) : r.pick([1n, (1n << BigInt(n)) - 1n, 1n << BigInt(n - 1), (1n << BigInt(n - 1)) - 1n])
      let v = 0n
      for (let i = 0; i < 256; i += n) v = (v << BigInt(n)) | p
      return r.chance(0.3) ? v ^ (1n << BigInt(r.int(256))) : v
    }
    case 14: { const b = r.bits(256) >> BigInt(r.int(256)), q = r.bits(128) >> BigInt(r.int(128)); return mod(r.bool() ? q * q + BigInt(r.range(-1, 1)) : b & r.bits(256) & r.bits(256)) } // squares, sparse words
    case 15: return join64([0, 0, 0, 0].map(() => BigInt(r.range(0, 3)))) | (r.bool() ? H : 0n)
    case 0: case 1: return join64([0, 0, 0, 0].map(() => r.chance(0.25) ? r.bits(64) : r.pick(L64)))
    case 2: return mod((1n << BigInt(r.int(257))) + BigInt(r.range(-3, 3)))
    case 3: return mod(-(1n << BigInt(r.int(257))) + BigInt(r.range(-3, 3)))
    case 4: return r.bits(256) >> BigInt(r.int(256))
    case 5: return mod(-(r.bits(256) >> BigInt(r.int(256))))
    case 6: { let x = pow10[r.int(78)] * BigInt(r.range(1, 9)) + BigInt(r.range(-2, 2)); return mod(r.bool() ? x : -x) }
    case 7: { // a run of ones
      const i = r.int(257), j = r.int(257), v = (1n << BigInt(Math.max(i, j))) - (1n << BigInt(Math.min(i, j)))
      return r.bool() ? v : v ^ M1
    }
    case 8: return mod(BigInt(r.range(-20, 20)))
    case 9: if (DICT.length) { // literals of the code, alone or as one word
      const d = mod(r.pick(DICT) + BigInt(r.range(-1, 1)))
      const v = r.int(4)
      return v === 0 ? d : v === 1 ? mod(d << 128n) : v === 2 ? mod((d << 128n) | r.pick(L64)) : mod((r.pick(L64) << 128n) | (d & ((1n << 128n) - 1n)))
    } // falls through
    case 10: return r.pick(BOUND)
    case 11: { const h = r.chance(0.5) ? r.bits(128) : r.pick([0n, 1n, (1n << 128n) - 1n, 1n << 127n, (1n << 127n) - 1n]); return (h << 128n) | (r.chance(0.5) ? r.bits(128) : r.pick([0n, 1n, (1n << 128n) - 1n, 1n << 127n, (1n << 127n) - 1n])) }
    default: return r.bits(256)
  }
}

// A word near a number that is new in the code (driver/hints.js).
function near256(r) {
  const l = RNG.hints(), h = l[r.plain(l.length)] + BigInt(r.range(-1, 1)), w = (1n << 128n) - 1n
  const other = () => r.pick([0n, 0n, 1n, w, 1n << 127n, r.bits(128), r.bits(128)])
  switch (r.plain(7)) {
    case 0: return mod(h)
    case 1: return mod(-h)
    case 2: return ((h & w) << 128n) | other()
    case 3: return (other() << 128n) | (h & w)
    case 4: return mod(h << BigInt(r.plain(256)))
    case 5: { const v = r.bits(256) >> BigInt(r.plain(256)); return mod(v * h + l[r.plain(l.length)] * BigInt(r.plain(2))) }
    default: { const k = ((h % 257n) + 257n) % 257n; return mod(r.pick([1n << k, (1n << k) - 1n, r.bits(256) << k, (r.bits(256) | H) >> (256n - k), M1 << k])) }
  }
}

function isqrt(n) {
  if (n < 2n) return n
  let x = 1n << BigInt((n.toString(2).length + 1) >> 1)
  for (;;) { const y = (x + n / x) >> 1n; if (y >= x) return x; x = y }
}
// A second operand, often related to the first.
function partner(r, a) {
  const d = BigInt(r.range(-2, 2))
  switch (r.int(24)) {
    case 20: { const k = BigInt(r.int(256)); return mod(a << k) | (a >> (256n - k)) } // rotated
    case 21: switch (r.int(5)) { // the same digits in another order
      case 0: return (mod(a << 128n)) | (a >> 128n)
      case 1: return BigInt('0x' + a.toString(16).padStart(64, '0').match(/../g).reverse().join(''))
      case 2: return BigInt('0b' + [...a.toString(2).padStart(256, '0')].reverse().join(''))
      case 3: return join64([a, a >> 64n, a >> 128n, a >> 192n].map(x => x & (W64 - 1n)))
      default: { const l = [a >> 192n, a >> 128n, a >> 64n, a].map(x => x & (W64 - 1n)), i = r.int(4), j = r.int(4); [l[i], l[j]] = [l[j], l[i]]; return join64(l) }
    }
    case 22: return mod(a * BigInt(r.range(2, 11)) + (r.bool() ? d : 0n)) // multiples, squares, divisors
    case 23: switch (r.int(4)) { case 0: return mod(a * a); case 1: return isqrt(a); case 2: return a / BigInt(r.range(2, 20)); default: return a & r.bits(256) }
    case 0: return mod(a + d)
    case 1: return mod(-a + d)
    case 2: return mod(M1 - a + d)
    case 3: return mod(H - a + d)
    case 4: return mod(H - 1n - a + d)
    case 5: return (a & ~((1n << 128n) - 1n)) | r.bits(128)
    case 6: return (a & ((1n << 128n) - 1n)) | (r.bits(128) << 128n)
    case 7: return a >> BigInt(r.int(256))
    case 8: return mod(a << BigInt(r.int(256)))
    case 9: { // products near a bound of the range
      const sa = a >= H && r.bool() ? M - a : a
      if (sa === 0n) return word(r)
      const b = r.pick([M, H, 1n << 128n, 1n << 192n]) / sa + d
      return mod(r.bool() ? b : -b)
    }
    case 10: return mod(r.bits(128) >> BigInt(r.int(128)))
    case 11: return mod(-(r.bits(128) >> BigInt(r.int(128))))
    case 12: { // a chosen sum or difference, of the whole or word by word
      const t = word(r), w = (1n << 128n) - 1n
      switch (r.int(4)) {
        case 0: return mod(t - a)
        case 1: return mod(a - t)
        case 2: return (r.bits(128) << 128n) | ((d - a) & w)
        default: return (((d - (a >> 128n)) & w) << 128n) | r.bits(128)
      }
    }
    case 13: { // a chosen product modulo 2^256 (up to the factors two of a)
      if (a === 0n) return word(r)
      let o = a, k = 0n
      while (!(o & 1n)) { o >>= 1n; k++ }
      let inv = o
      for (let i = 0; i < 8; i++) inv = mod(inv * (2n - o * inv))
      return mod((word(r) >> k) * inv)
    }
    default: return word(r)
  }
}

// Dividend and divisor with structured quotient digits and remainders.
function division(r) {
  const dig = () => r.chance(0.5) ? r.pick(L64) : r.bits(64)
  const b128 = () => r.chance(0.5) ? r.pick([0n, 1n, (1n << 128n) - 1n, (1n << 128n) - 2n, 1n << 127n, (1n << 127n) + 1n, (1n << 127n) - 1n]) : (dig() << 64n) | dig()
  let d
  switch (r.int(6)) {
    case 0: d = dig(); break
    case 1: d = (dig() << 64n) | dig(); break
    case 2: d = join64([0n, dig(), dig(), dig()]); break
    case 3: d = join64([dig(), dig(), dig(), dig()]); break
    case 4: d = (b128() << 128n) | b128(); break
    default: d = word(r)
  }
  d >>= BigInt(r.chance(0.3) ? r.int(128) : 0)
  if (d === 0n) d = 1n
  const qmax = M1 / d
  let q
  switch (r.int(5)) {
    case 0: q = qmax - BigInt(r.int(3)); break
    case 1: q = r.bits(256) % (qmax + 1n); break
    case 2: q = (r.bits(256) >> BigInt(r.int(256))) % (qmax + 1n); break
    case 3: q = join64([dig(), dig(), dig(), dig()]) % (qmax + 1n); break
    default: q = (b128() << BigInt(r.pick([0, 64, 128]))) % (qmax + 1n)
  }
  if (q < 0n) q = 0n
  const rem = r.pick([0n, 1n, d - 1n, d / 2n, r.bits(256) % d, (d >> 1n) + 1n]) % d
  let n = q * d + rem
  if (n > M1) n = M1
  switch (r.int(8)) { // signs
    case 0: return [mod(-n), d]
    case 1: return [n, mod(-d)]
    case 2: return [mod(-n), mod(-d)]
    default: return [n, d]
  }
}

const AMOUNTS = [0, 1, 2, 7, 8, 63, 64, 65, 126, 127, 128, 129, 191, 192, 193, 254, 255, 256, 257, 383, 384, 385, 511, 512,
  65535, 65536, 2147483647, 2147483648, 4294967040, 4294967167, 4294967168, 4294967295]
const BASES = lifted([0n, 1n, 1n << 63n, W64 - 1n])

/* -------------------------------------------------------------- plans -- */

// A plan is a list of [family, count per run, generator of one case] and a
// list of deterministic cases.
const both = f => r => { const s = r.bool(); return [s, ...f(r, s)] }
const pair = both((r, s) => { const a = word(r); return [signed(s, a), signed(s, partner(r, a))] })
const mixed = both((r, s) => { const a = word(r); return [signed(s, a), signed(!s, partner(r, a))] })
const one = both((r, s) => [signed(s, word(r))])
const divs = both((r, s) => {
  if (r.chance(0.7)) { const [n, d] = division(r); return [signed(s, n), signed(s, d)] }
  const a = word(r)
  return [signed(s, a), signed(s, partner(r, a))]
})
const nonzero = f => r => { let c; do c = f(r); while (c[2] === 0n); return c }
const defined = f => r => { let c; do c = f(r); while (c[2] === 0n || (c[0] && c[1] === -H && c[2] === -1n)); return c }
const shift = both((r, s) => [signed(s, word(r)), r.chance(0.7) ? r.int(256) : r.chance(0.5) ? r.pick(AMOUNTS) : r.u32()])

function* pairsOf(vals, fam, map) {
  for (const s of [false, true]) for (const a of vals) for (const b of vals) yield [fam, map ? map(s, a, b) : [s, signed(s, a), signed(s, b)]]
}
function* each(vals, fam) {
  for (const s of [false, true]) for (const a of vals) yield [fam, [s, signed(s, a)]]
}
const SINGLES = [...new Set([...BOUND, ...lifted([0n, 1n, 1n << 63n, W64 - 1n]),
  ...Array.from({ length: 257 }, (_, k) => [mod(1n << BigInt(k)), mod((1n << BigInt(k)) - 1n), mod((1n << BigInt(k)) + 1n), mod(-(1n << BigInt(k)))]).flat()])]

// Powers: bases around the e-th roots of the bounds.
function iroot(n, e) {
  let lo = 0n, hi = 1n << BigInt(Math.floor(256 / e) + 2)
  while (lo < hi) { const m = (lo + hi + 1n) / 2n; if (m ** BigInt(e) <= n) lo = m; else hi = m - 1n }
  return lo
}
function power(r) {
  const s = r.bool()
  let a, e
  switch (r.int(8)) {
    case 6: { const k = r.int(256); a = (r.chance(0.5) ? 1n : r.bits(256) | 1n) << BigInt(k) & M1; e = wrapExp(r, r.chance(0.8) ? k : r.int(256)); break }
    case 7: { a = word(r); let t = 0; while (t < 256 && !(a >> BigInt(t) & 1n)) t++; e = wrapExp(r, r.bool() ? t : a.toString(2).length); break }
    case 0: e = r.range(1, 256); a = iroot(r.pick([M, H]), e) + BigInt(r.range(-1, 2)); break
    case 1: e = r.range(0, 70); a = BigInt(r.range(-20, 20)); break
    case 2: e = r.pick([0, 1, 2, 3, 4, 5, 127, 128, 129, 255, 256, 257, 2147483647, 4294967295, 4294967294]); a = BigInt(r.range(-3, 3)); break
    case 3: e = r.range(0, 300); a = 1n << BigInt(r.int(200)); break
    case 4: e = r.range(0, 5); a = word(r); break
    default: e = r.chance(0.5) ? r.u32() : r.int(64); a = word(r)
  }
  if (s && r.bool()) a = -a
  return [s, signed(s, a), e]
}
// Exponents for which the product with k, the number of bits of the base or of
// its trailing zeros, is small modulo a machine word although it is large.
function wrapExp(r, k) {
  const n = 1n << BigInt(r.pick([8, 9, 10, 16, 31, 32, 32, 32, 33, 34, 36, 40]))
  const e = (n * BigInt(r.range(1, 8))) / BigInt(k || 1) + BigInt(r.pick([0, 0, 1, 1, 2, -1, r.int(260)]))
  return Number(e & 0xffffffffn)
}
function* powers() {
  // powers of two: every valuation, with exponents around every power of two
  for (let k = 0; k < 256; k++) {
    const es = new Set()
    for (const b of [8n, 9n, 16n, 32n, 33n, 36n]) for (const d of [0n, 1n]) es.add(Number(((1n << b) / BigInt(k || 1) + d) & 0xffffffffn))
    if (k > 0) es.add(Math.floor(255 / k)).add(Math.floor(256 / k) + 1).add(Math.floor(255 / k) + 1)
    for (const e of es) for (const s of [false, true]) {
      yield ['Pow', [s, signed(s, 1n << BigInt(k)), e]]
      if (s) yield ['Pow', [s, signed(s, -(1n << BigInt(k))), e]]
    }
  }
  for (let b = 0; b <= 32; b++) for (const d of [-2, -1, 0, 1]) {
    const e = 2 ** b + d
    if (e >= 0 && e < 2 ** 32) for (const s of [false, true]) for (const a of [-3n, -2n, -1n, 0n, 1n, 2n, 3n, 4n, 6n, 10n, 0x10001n, (1n << 128n) + 1n, (1n << 255n) + 3n]) yield ['Pow', [s, signed(s, s ? a : mod(a)), e]]
  }
  for (let e = 1; e <= 256; e++)
    for (const [s, bound] of [[false, M], [true, H], [true, H]]) {
      const t = iroot(bound, e)
      for (const d of [-1n, 0n, 1n]) {
        yield ['Pow', [s, signed(s, t + d), e]]
        if (s) yield ['Pow', [s, signed(s, -(t + d)), e]]
      }
    }
  for (const s of [false, true]) for (const a of BOUND) for (const e of [0, 1, 2, 3, 255, 256]) yield ['Pow', [s, signed(s, a), e]]
}

// Floats: bit patterns with structured exponents and significands.
function fbits(r, p, eb) {
  const bias = (1 << (eb - 1)) - 1
  const e = r.chance(0.8) ? bias + r.pick([-2, -1, 0, 1, p - 2, p - 1, p, 31, 32, 63, 64, 65, 126, 127, 128, 129, 253, 254, 255, 256, 257, r.int(260)]) : r.int(1 << eb)
  const f = r.pick([0n, 1n, (1n << BigInt(p - 1)) - 1n, 1n << BigInt(p - 2), r.bits(p - 1), r.bits(p - 1) >> BigInt(r.int(p - 1))])
  return (BigInt(r.int(2)) << BigInt(eb + p - 1)) | (BigInt(Math.min(Math.max(e, 0), (1 << eb) - 1)) << BigInt(p - 1)) | f
}
function* allExponents(fam, p, eb, pre) {
  for (let e = 0; e < 1 << eb; e++)
    for (const f of [0n, 1n, (1n << BigInt(p - 1)) - 1n, 1n << BigInt(p - 2), (1n << BigInt(p - 2)) + 1n, 0x2aaaaan % (1n << BigInt(p - 1))])
      for (const sg of [0n, 1n])
        yield [fam, [...pre, (sg << BigInt(eb + p - 1)) | (BigInt(e) << BigInt(p - 1)) | f]]
}
// Integers whose rounding is decided by a distant or adjacent bit.
function roundingCase(r) {
  const s = r.bool()
  const p = r.pick([24, 53]), bl = r.range(p, s ? 255 : 256)
  const sh = bl - p
  let m = (1n << BigInt(p - 1)) | r.bits(p - 1)
  if (r.chance(0.25)) m = (1n << BigInt(p)) - 1n
  let low = 0n
  if (sh > 0) {
    const half = 1n << BigInt(sh - 1)
    low = r.pick([0n, 1n, half - 1n, half, half + 1n, (1n << BigInt(sh)) - 1n, half + (1n << BigInt(r.int(sh))), half - (1n << BigInt(r.int(sh))), r.bits(sh)])
    if (low < 0n || low >= 1n << BigInt(sh)) low = half
  }
  const x = (m << BigInt(sh)) + low
  return [s, signed(s, s && r.bool() ? -x : x)]
}
function* roundings() {
  for (const s of [false, true]) for (const p of [24, 53]) for (let bl = p; bl <= (s ? 255 : 256); bl++) {
    const sh = BigInt(bl - p)
    for (const m of [1n << BigInt(p - 1), (1n << BigInt(p - 1)) + 1n, (1n << BigInt(p)) - 1n, (1n << BigInt(p)) - 2n]) {
      const half = sh > 0n ? 1n << (sh - 1n) : 0n
      for (const low of new Set([0n, half, half > 0n ? half - 1n : 0n, sh > 1n ? half + 1n : half, sh > 65n ? half + (1n << 64n) : half]))
        for (const neg of s ? [false, true] : [false]) {
          const x = (m << sh) + low
          if (s ? x < H : x < M) yield ['ToFloat', [s, neg ? -x : x]]
        }
    }
  }
}

// Bytes
const bytesOf = (x, n) => Array.from({ length: n }, (_, i) => Number((x >> BigInt(8 * (n - 1 - i))) & 255n))

// Text
const DIG = '0123456789abcdefghijklmnopqrstuvwxyz'
const numText = (x, radix, upper) => { let t = (x < 0n ? -x : x).toString(radix); if (upper) t = t.toUpperCase(); return t }
function numeral(r, s) {
  // [text, radix] of a number near a limit or anywhere
  const radix = r.chance(0.6) ? r.pick([2, 8, 10, 16]) : r.range(2, 36)
  let x
  switch (r.int(6)) {
    case 0: x = M + BigInt(r.range(-2, 2)); break
    case 1: x = H + BigInt(r.range(-2, 2)); break
    case 2: { // around the digit count at which overflow becomes possible
      const n = r.range(1, 70); x = BigInt(radix) ** BigInt(n) + BigInt(r.range(-1, 1)); if (x > M * 40n) x = M; break
    }
    case 3: x = M * BigInt(r.range(1, 40)) + BigInt(r.range(-2, 2)); break
    default: x = word(r)
  }
  let t = numText(x, radix, r.chance(0.3))
  if (r.chance(0.15)) t = '0'.repeat(r.pick([1, 2, 63, 64, 65, r.int(80), r.int(80), 255, 256, 300, r.int(1200)])) + t
  return [t, radix]
}
const JUNK = ['', '+', '-', '_', ' ', '0', '1', '9', 'f', 'F', 'g', 'z', 'Z', '.', '/', ':', '@', '[', '`', '{', '\x00', '\t', '\n', '\x0b', '\x0c', '\r', 'é', '０', '0x', '0X', '0b', '0o', '--', '+-', '-+', '٣']
const junk = r => (TEXTS.length && r.chance(0.2) ? r.pick(TEXTS) : r.pick(JUNK))
function mutate(r, t) {
  const n = r.int(3)
  for (let i = 0; i < n; i++) {
    const k = r.pick([0, t.length, r.int(t.length + 1)])
    const c = Array.from(t).slice(0)
    switch (r.int(3)) {
      case 0: t = t.slice(0, k) + junk(r) + t.slice(k); break
      case 1: if (t.length) { const j = r.int(t.length); t = t.slice(0, j) + t.slice(j + 1) } break
      default: if (t.length) { const j = r.int(t.length); t = t.slice(0, j) + junk(r) + t.slice(j + 1) }
    }
    void c
  }
  return t
}
const sign = (r, s) => r.pick(['', '', '', '+', s || r.chance(0.3) ? '-' : ''])
const prefixOf = radix => (radix === 2 ? '0b' : radix === 8 ? '0o' : radix === 16 ? '0x' : '')
const SHORT = (() => { // every string up to three characters over a small alphabet
  const A = ['', '+', '-', '0', '1', '9', 'a', 'x', 'b', 'o', '_', ' ', 'z', 'é']
  const out = new Set()
  for (const a of A) for (const b of A) for (const c of A) out.add(a + b + c)
  return [...out]
})()
const SIGNS = ['', '+', '-']
// Numerals longer than any counter of one byte, or any buffer of a few words,
// and around every length at which one could end.
const LENGTHS = [...Array.from({ length: 12 }, (_, i) => 8 * (i + 2)), ...[99, 100, 101, 126, 127, 128, 129, 130], ...[7, 8, 9, 10, 12].flatMap(e => [-3, -2, -1, 0, 1, 2, 3].map(d => (1 << e) + d)), 1000, 2000]
const newLengths = max => RNG.hints().flatMap(h => [h - 1n, h, h + 1n]).filter(h => h > 0n && h <= BigInt(max)).map(Number)
function* longTexts(s, prefixes, fillers) {
  const vals = [0n, 1n, 255n, H - 1n, H, M1, M]
  for (const n of [...LENGTHS, ...newLengths(3000)]) for (const f of fillers) for (const radix of prefixes) {
    const v = vals[n % vals.length], p = prefixOf(radix)
    for (const x of [7n, v]) {
      const t = numText(x, radix), sg = SIGNS[(n + radix + (s ? 1 : 0)) % 3]
      yield [radix, sg, p, f.repeat(n) + t]
      if (f === '0') { if (n > t.length) yield [radix, sg, p, f.repeat(n - t.length) + t] } else { yield [radix, sg, p, t[0] + f.repeat(n) + t.slice(1)]; yield [radix, sg, p, t + f.repeat(n)]; yield [radix, '', p, [...t].join(f.repeat(1 + Math.floor(n / t.length)))] }
    }
    // ...with the mistake at the far end
    yield [radix, '', p, f.repeat(n) + '!']
    yield [radix, '', p, f.repeat(n)]
    yield [radix, '', p, f.repeat(n >> 1) + numText(M * 3n, radix) + f.repeat(n >> 1)]
  }
}
// ...and longer than any counter of two bytes.
function* hugeTexts(s, fillers) {
  let i = 0
  for (const f of fillers) for (const n of [65536, 65537]) {
    const radix = [10, 16, 2, 8][i++ & 3], p = prefixOf(radix), t = numText(s ? H - 1n : M1, radix), sg = SIGNS[i % 3]
    yield [radix, sg, p, f.repeat(n - 2) + '11']
    yield [radix, '', p, '1' + f.repeat(n - 1)]
    yield [radix, '', p, f.repeat(n) + t]
    yield [radix, '', p, f.repeat(n - t.length - p.length) + t]
    yield [radix, '', p, f.repeat(n - 1) + '!']
  }
}
function* limitTexts() { // every radix, both limits, every sign
  for (let radix = 2; radix <= 36; radix++)
    for (const x of [M - 1n, M, M + 1n, H - 1n, H, H + 1n, (M / BigInt(radix)), H / BigInt(radix)])
      for (const sg of SIGNS) for (const z of ['', '0', '00']) for (const up of [false, true])
        yield [radix, sg + z + numText(x, radix, up)]
}

function underscore(r, t) { // separators between digits
  let o = ''
  for (const c of t) { o += c; if (r.chance(0.1)) o += r.pick(['_', ' ', '\n', '\t', '__', '\r', '\x0c']) }
  return o
}

// Width and precision (-1: none); see fmts.py for the alignments that go with them.
const lengths = (r, w) => r.chance(0.6) ? [r.int(8), w, -1] : [r.pick([0, 1, 5]), r.chance(0.4) ? -1 : w, r.chance(0.2) ? -1 : r.chance(0.8) ? r.int(20) : r.int(100)]
const fmtOf = (r, s, a, kind) => [a, kind, r.int(3), r.int(2), r.int(2), ...lengths(r, r.chance(0.3) ? 0 : r.chance(0.5) ? r.int(90) : r.int(300))]
const flagsOf = r => [r.int(3), r.int(2), r.int(2), ...lengths(r, r.chance(0.5) ? 0 : r.int(40))]
// Every width up to beyond the longest text, for every notation.
function* widths() {
  for (const w of [...Array.from({ length: 301 }, (_, i) => i), 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 65535, ...newLengths(65535)]) for (let kind = 0; kind < 8; kind++) for (const zero of [1, 0]) for (const alt of [0, 1]) {
    yield ['Fmt', [false, 1n, kind, 0, alt, zero, 0, w, -1]]
    yield ['Fmt', [true, -10n, kind, 2, alt, zero, w % 2 * 5, w, -1]]
  }
}
// Decimal digit blocks: 4-digit chunks of zeros, nines and extremes.
function decimalWord(r) {
  let t = ''
  const n = r.range(1, 20)
  for (let i = 0; i < n; i++) t += r.chance(0.6) ? r.pick(['0000', '9999', '0001', '1000', '0100', '0010', '0099', '9900', '5000', '4999']) : String(r.int(10000)).padStart(4, '0')
  t = t.slice(0, r.range(1, t.length))
  return BigInt(t) % M
}

function primValue(r, t) {
  const [n, sg] = PRIMS[t]
  const m = 1n << BigInt(n), h = sg ? m / 2n : 0n
  let x
  switch (r.int(4)) {
    case 0: x = r.pick([0n, 1n, -1n, m / 2n, m / 2n - 1n, -(m / 2n), m - 1n]); break
    case 1: x = (1n << BigInt(r.int(n))) * (r.bool() ? 1n : -1n) + BigInt(r.range(-1, 1)); break
    default: x = r.bits(n)
  }
  return ((x + h) % m + m) % m - h
}
function* prims(fam, pre) {
  for (const t of Object.keys(PRIMS)) {
    const [n, sg] = PRIMS[t]
    const lo = sg ? -(1n << BigInt(n - 1)) : 0n, hi = sg ? (1n << BigInt(n - 1)) - 1n : (1n << BigInt(n)) - 1n
    const vals = new Set([lo, hi, lo + 1n, hi - 1n, 0n, 1n, -1n, 2n])
    for (let k = 0; k <= n; k++) for (const d of [-1n, 0n, 1n]) { vals.add((1n << BigInt(k)) + d); vals.add(-(1n << BigInt(k)) + d) }
    if (n === 8) for (let x = -128n; x < 256n; x++) vals.add(x)
    for (const x of vals) if (x >= lo && x <= hi) {
      if (fam === 'From') yield [fam, [t, x]]
      else if (t !== 'bool' && t !== 'usize' && t !== 'isize') for (const s of [false, true]) yield [fam, [s, t, x]]
    }
  }
}
// Values around the limits of every target type.
function nearPrim(r) {
  const s = r.bool()
  const k = r.pick([7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256])
  let x = (1n << BigInt(k)) + BigInt(r.range(-2, 2))
  if (r.bool()) x = -x
  if (r.chance(0.3)) x += r.bits(128) << 128n
  return [s, signed(s, x)]
}

// Sequences longer than a counter of one byte, each element the same, or with
// one of its own somewhere; sums that carry out of the low word every time.
function* longLists(s) {
  const LOW = (1n << 128n) - 1n
  for (const n of [3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 258, 300, 511, 512, 513, 600, 1025, ...newLengths(3000)])
    for (const x of [0n, 1n, LOW, LOW + 1n, 1n << 127n, M1, (1n << 64n) - 1n, H >> 8n, 3n]) {
      const l = Array.from({ length: n }, () => signed(s, x))
      yield ['Fold', [s, l]]
      for (const [i, y] of [[0, 0n], [n - 1, 0n], [n >> 1, M1], [n - 1, LOW], [0, 1n << 128n], [n >> 1, H]]) { const k = l.slice(); k[i] = signed(s, y); yield ['Fold', [s, k]] }
    }
  // longer than a counter of two bytes
  for (const n of [65536, 65537]) for (const [x, y] of [[1n, 7n], [LOW, LOW], [0n, 7n]]) { const l = Array.from({ length: n }, () => signed(s, x)); l[n - 1] = signed(s, y); yield ['Fold', [s, l]] }
  // products of one: nothing overflows until the last
  for (const n of [255, 256, 257, 513]) for (const y of [1n, 2n, LOW, M1]) { const l = Array.from({ length: n }, () => 1n); l[n - 1] = signed(s, y); yield ['Fold', [s, l]]; if (s) { const k = l.map(() => -1n); yield ['Fold', [s, k]] } }
}
function list(r) {
  const s = r.bool(), n = r.chance(0.05) ? r.int(200) : r.pick([0, 1, 1, 2, 2, 3, 4, 5, 8, 20])
  const l = []
  let acc = 0n
  for (let i = 0; i < n; i++) {
    let x
    switch (r.int(5)) {
      case 0: x = word(r); break
      case 1: x = BigInt(r.range(-4, 4)); break
      case 2: x = r.bits(256) >> BigInt(r.range(100, 250)); break
      case 3: x = (s ? H - 1n : M1) - acc + BigInt(r.range(-1, 1)); break
      default: x = r.bits(30)
    }
    x = signed(s, x)
    acc = signed(s, acc + x)
    l.push(x)
  }
  return [s, l]
}

const bytesRandom = r => Array.from({ length: 32 }, () => r.chance(0.3) ? r.pick([0, 255, 128, 127, 1]) : r.int(256))
function byteInput(r) {
  const s = r.bool()
  const n = r.chance(0.4) ? r.pick([0, 1, 31, 32, 33]) : r.int(40)
  const l = Array.from({ length: n }, () => r.chance(0.5) ? r.pick([0, 255, 128, 127, 1, 254]) : r.int(256))
  if (n && r.chance(0.05)) l[r.int(n)] = r.pick([256, 257, 511, 65535])
  return [s, l]
}
function* byteInputs() {
  for (const s of [false, true]) for (let n = 0; n <= 40; n++)
    for (const first of [0, 1, 127, 128, 255]) for (const last of [0, 1, 127, 128, 255]) for (const mid of [0, 255, 90]) {
      const l = Array(n).fill(mid)
      if (n) { l[n - 1] = last; l[0] = first }
      yield ['DeBytes', [s, l]]
    }
  // lengths that are small in a narrower type
  for (const s of [false, true]) for (const n of WRAPPED) yield ['DeBytes', [s, Array.from({ length: n }, (_, i) => (i * 37 + 11) & 255)]]
}
const WRAPPED = [255, 256, 257, 287, 288, 289, 544, 65536, 65537, 65568]
// Sequences with an announced length (-1: none).
function seqInput(r) {
  const [s, l] = byteInput(r)
  const n = l.length
  return [s, l, r.pick([-1, -1, n, n, n - 1 < 0 ? 0 : n - 1, n + 1, 32, 31, 33, 0, 1000])]
}
function* seqInputs() {
  for (const s of [false, true]) for (let n = 0; n <= 40; n++) for (const h of new Set([-1, n, 32, 33, 0]))
    for (const [first, last, bad] of [[0, 0, -1], [127, 128, -1], [128, 127, -1], [255, 1, -1], [1, 255, -1], [1, 2, 0], [1, 2, n - 1], [1, 2, n >> 1]]) {
      const l = Array.from({ length: n }, (_, i) => (i * 37 + 11) & 255)
      if (n) { l[n - 1] = last; l[0] = first }
      if (bad >= 0 && bad < n) l[bad] = 256
      yield ['DeSeq', [s, l, h]]
    }
  for (const s of [false, true]) for (const n of WRAPPED) for (const h of [-1, n, 32]) yield ['DeSeq', [s, Array.from({ length: n }, (_, i) => (i * 37 + 11) & 255), h]]
  for (const s of [false, true]) for (const n of [0, 1, 20, 31, 32]) for (const h of [256, 288, 65536, 65568, 2 ** 32, 2 ** 32 + 32]) yield ['DeSeq', [s, Array(n).fill(129), h]]
}
function* byteEdges(fam) { // values with k significant bytes
  for (const s of [false, true]) for (let k = 0; k <= 32; k++)
    for (const d of [-2n, -1n, 0n, 1n]) for (const b of [1n << BigInt(8 * k), 1n << BigInt(Math.max(8 * k - 1, 0)), 255n << BigInt(8 * k), 128n << BigInt(8 * k)])
      for (const neg of [false, true]) yield [fam, [s, signed(s, mod(neg ? -b + d : b + d))]]
}

function shiftOpCase(r) {
  const s = r.bool()
  let n
  switch (r.int(6)) {
    case 0: case 1: case 2: n = BigInt(r.int(256)); break
    case 3: n = BigInt(r.pick(AMOUNTS)); break
    case 4: n = BigInt(r.range(-300, 0)); break
    default: n = r.pick([1n, -1n]) * (r.bits(256) >> BigInt(r.int(256)))
  }
  if (n < -H) n = -H
  return [s, signed(s, word(r)), n]
}
function* shiftOps(vals) {
  const amounts = [...Array(262).keys()].map(BigInt).concat(AMOUNTS.map(BigInt))
  for (const n of [-1n, -2n, -128n, -127n, -256n, -255n, 1n << 31n, 1n << 32n, (1n << 32n) + 1n, (1n << 32n) + 128n, (1n << 63n), (1n << 64n) + 7n, (1n << 127n) + 3n, (1n << 128n) + 129n, (1n << 255n) + 1n, M1, -(1n << 31n), -(1n << 63n), -(1n << 127n) + 5n, -H, -H + 200n]) amounts.push(n)
  for (const s of [false, true]) for (const a of vals) for (const n of amounts) yield ['ShiftOp', [s, signed(s, a), n]]
}
function* shifts(fam, vals, top) {
  const amounts = [...new Set([...Array(top).keys(), ...(top > 256 ? AMOUNTS : [])])]
  for (const s of [false, true]) for (const a of vals) for (const n of amounts) yield [fam, [s, signed(s, a), n]]
}
const SHIFTED = [1n, M1, H, H - 1n, join64([0x0123456789abcdefn, 0xfedcba9876543210n, 0x8000000000000001n, 0xf0e1d2c3b4a59687n]),
  join64([0x8123456789abcdefn, 0x7edcba9876543211n, 0xdeadbeefcafebaben, 1n]), 1n << 127n, 1n << 128n]

function floatInt(r, p, eb) { // integral and half-integral floats near the accepted range
  const bias = (1 << (eb - 1)) - 1
  const e = r.pick([-1, 0, 1, 2, p - 3, p - 2, p - 1, p, p + 1, r.int(p + 2)])
  let f = r.bits(p - 1)
  const keep = Math.max(0, Math.min(e, p - 1))
  if (r.chance(0.8)) f = (f >> BigInt(p - 1 - keep)) << BigInt(p - 1 - keep)
  if (r.chance(0.15)) f = (1n << BigInt(p - 1)) - 1n
  if (r.chance(0.15)) f = 0n
  return (BigInt(r.int(2)) << BigInt(eb + p - 1)) | (BigInt(bias + e) << BigInt(p - 1)) | f
}

// Text inputs for a signedness.
function parseInput(r, s) {
  if (r.chance(0.1)) return r.pick(SHORT)
  const [t0, radix] = numeral(r, s)
  let t = sign(r, s) + (r.chance(0.7) ? prefixOf(radix) : '') + t0
  if (r.chance(0.35)) t = mutate(r, t)
  return t
}

// Operand pairs for every route through the two-word algorithms, read as
// unsigned and as signed; `signs` adds all combinations of signs.
function* routes(names, fam, signs, conv) {
  for (const [a, b] of PA.pairs(names)) for (const s of [false, true]) {
    yield [fam, conv ? conv(s, a, b) : [s, signed(s, a), signed(s, b)]]
    if (signs && s) for (const [x, y] of [[mod(-a), b], [a, mod(-b)], [mod(-a), mod(-b)]]) yield [fam, [s, signed(s, x), signed(s, y)]]
  }
}
const RING = ['add', 'iadd', 'sub', 'isub', 'mul', 'imul']
const definedCase = c => c[1][2] !== 0n && !(c[1][0] && c[1][1] === -H && c[1][2] === -1n)
function* only(f, it) { for (const c of it) if (f(c)) yield c }

const PLANS = {
  C01: { fams: ['Wrap', 'WrapMixed'], routes: RING, first: () => routes(RING, 'Wrap'), fixed: function* () { yield* pairsOf(BASES, 'Wrap'); yield* pairsOf(BOUND.slice(0, 120), 'WrapMixed', (s, a, b) => [s, signed(s, a), signed(!s, b)]) },
    random: [['Wrap', 6, pair], ['WrapMixed', 2, mixed]] },
  C02: { fams: ['Ovf', 'OvfMixed', 'Neg'], routes: RING, first: function* () { yield* routes(RING, 'Ovf'); yield* routes(['add', 'iadd', 'isub'], 'OvfMixed', false, (s, a, b) => [s, signed(s, a), signed(!s, b)]) }, fixed: function* () { yield* pairsOf(BASES, 'Ovf'); yield* pairsOf(BOUND.slice(0, 120), 'OvfMixed', (s, a, b) => [s, signed(s, a), signed(!s, b)]); yield* each(SINGLES, 'Neg') },
    random: [['Ovf', 8, pair], ['OvfMixed', 3, mixed], ['Neg', 1, one]] },
  C03: { fams: ['Ops', 'BitOps', 'NegOp'], routes: [...RING, 'div'], first: function* () { yield* routes(RING, 'Ops'); yield* routes(['div'], 'Ops', true) }, fixed: function* () {
      const vals = BASES.filter((_, i) => i % 3 === 0).concat([mod(-1n), H, H - 1n, 5n, mod(-5n)])
      yield* pairsOf(vals, 'Ops'); yield* pairsOf(vals.slice(0, 24), 'BitOps'); for (const a of SINGLES) yield ['NegOp', [true, signed(true, a)]] },
    random: [['Ops', 5, pair], ['Ops', 3, divs], ['BitOps', 0.5, pair], ['NegOp', 1, r => [true, signed(true, word(r))]]] },
  C04: { fams: ['Div'], routes: ['div'], first: () => routes(['div'], 'Div', true), fixed: function* () { yield* pairsOf(BASES, 'Div') }, random: [['Div', 10, divs]] },
  C05: { fams: ['DivEuclid'], routes: ['div'], first: () => routes(['div'], 'DivEuclid', true), fixed: function* () { yield* pairsOf(BASES, 'DivEuclid') }, random: [['DivEuclid', 10, divs]] },
  C06: { fams: ['Shift', 'ShiftOp'], fixed: function* () { yield* shifts('Shift', SHIFTED, 520); yield* shiftOps(SHIFTED) },
    random: [['Shift', 4, shift], ['ShiftOp', 1.5, shiftOpCase]] },
  C07: { fams: ['Count', 'Swap'], fixed: function* () { yield* each(SINGLES, 'Count'); yield* each(SINGLES, 'Swap') },
    random: [['Count', 0.5, one], ['Swap', 0.5, one]] },
  C08: { fams: ['Pow'], fixed: powers, random: [['Pow', 2, power]] },
  C09: { fams: ['Cmp', 'Clamp'], fixed: function* () { yield* pairsOf(BASES, 'Cmp') },
    random: [['Cmp', 6, pair], ['Clamp', 1, both((r, s) => { const a = word(r); return [signed(s, a), signed(s, partner(r, a)), signed(s, partner(r, a))] })]] },
  C10: { fams: ['As', 'Try', 'From'], fixed: function* () { yield* each(SINGLES, 'As'); yield* each(SINGLES, 'Try'); yield* prims('From') },
    random: [['As', 2, one], ['Try', 2, one], ['Try', 2, nearPrim], ['From', 3, r => { const t = r.pick(Object.keys(PRIMS)); return [t, primValue(r, t)] }]] },
  C11: { fams: ['ToFloat', 'FromF32', 'FromF64'], fixed: function* () { yield* roundings(); yield* allExponents('FromF32', 24, 8, []); yield* allExponents('FromF64', 53, 11, []); yield* each(SINGLES, 'ToFloat') },
    random: [['ToFloat', 3, roundingCase], ['ToFloat', 1, one], ['FromF32', 2, r => [fbits(r, 24, 8)]], ['FromF64', 2, r => [fbits(r, 53, 11)]]] },
  C12: { fams: ['Bytes', 'FromBytes', 'Words', 'Consts'], fixed: function* () {
      yield ['Consts', [true]]; yield ['Consts', [false]]
      yield* each(BOUND, 'Bytes')
      for (const s of [false, true]) for (let i = 0; i < 32; i++) for (const v of [1, 128, 255]) { const l = Array(32).fill(0); l[i] = v; yield ['FromBytes', [s, l]]; yield ['Bytes', [s, signed(s, BigInt(v) << BigInt(8 * i))]] }
      yield* pairsOf(BOUND.slice(0, 60), 'Words') },
    random: [['Bytes', 0.5, one], ['FromBytes', 1, both(r => [bytesRandom(r)])], ['Words', 3, pair]] },
  C13: { fams: ['ParseRadix', 'Parse'], fixed: function* () {
      for (const s of [false, true]) {
        for (const [radix, t] of limitTexts()) yield ['ParseRadix', [s, radix, utf8(t)]]
        for (const t of SHORT) { yield ['Parse', [s, utf8(t)]]; yield ['ParseRadix', [s, 16, utf8(t)]]; yield ['ParseRadix', [s, 36, utf8(t)]]; yield ['ParseRadix', [s, 10, utf8(t)]] }
        for (const radix of [0, 1, 37, 38, 255, 256, 4294967295]) yield ['ParseRadix', [s, radix, utf8('1')]]
        for (let c = 0; c < 128; c++) for (let radix = 2; radix <= 36; radix++) yield ['ParseRadix', [s, radix, [c]]]
        for (const radix of [2, 8, 10, 16]) for (const x of [M - 1n, M, H - 1n, H, H + 1n, 0n]) for (const sg of SIGNS) for (const p of ['', '0b', '0o', '0x', '0X']) yield ['Parse', [s, utf8(sg + p + numText(x, radix))]]
        for (const [radix, sg, p, t] of longTexts(s, [2, 8, 10, 16], ['0', '_'])) { yield ['Parse', [s, utf8(sg + p + t)]]; yield ['ParseRadix', [s, radix, utf8(sg + t)]] }
        for (const [radix, sg, p, t] of hugeTexts(s, ['0'])) { yield ['Parse', [s, utf8(sg + p + t)]]; yield ['ParseRadix', [s, radix, utf8(sg + t)]] }
        for (const [radix, sg, , t] of longTexts(s, [3, 36], ['0'])) yield ['ParseRadix', [s, radix, utf8(sg + t)]]
      } },
    random: [['ParseRadix', 0.6, both((r, s) => { const [t, radix] = numeral(r, s); let u = sign(r, s) + t; if (r.chance(0.3)) u = mutate(r, u); return [radix, utf8(u)] })],
      ['Parse', 0.6, both((r, s) => [utf8(parseInput(r, s))])]] },
  C14: { fams: ['Literal'], fixed: function* () {
      for (const s of [false, true]) {
        for (const t of SHORT) yield ['Literal', [s, utf8(t)]]
        for (const sg of SIGNS) for (const p of ['', '0b', '0o', '0x']) for (const t of ['_', ' ', '\t', '__', '_ _', '\n', '_'.repeat(70)]) yield ['Literal', [s, utf8(sg + p + t)]]
        for (let c = 0; c < 128; c++) for (const p of ['', '1', '0x', '0b', '0o', '-', '+']) yield ['Literal', [s, [...utf8(p), c]]]
        for (const radix of [2, 8, 10, 16]) for (const x of [M - 1n, M, M + 1n, H - 1n, H, H + 1n, M * BigInt(radix), M * BigInt(radix) - 1n, 0n, 1n, 1n << 128n, (1n << 128n) - 1n, (1n << 192n) - 1n]) for (const sg of SIGNS)
          for (const up of [false, true]) yield ['Literal', [s, utf8(sg + prefixOf(radix) + numText(x, radix, up))]]
        for (const [, sg, p, t] of longTexts(s, [2, 8, 10, 16], ['0', '_', ' '])) yield ['Literal', [s, utf8(sg + p + t)]]
        for (const [, sg, p, t] of hugeTexts(s, ['0', '_'])) yield ['Literal', [s, utf8(sg + p + t)]]
      } },
    random: [['Literal', 1.2, both((r, s) => { const x = r.chance(0.3) ? r.pick([M, H]) + BigInt(r.range(-3, 3)) : r.chance(0.5) ? word(r) : decimalWord(r)
        const radix = r.pick([2, 8, 10, 10, 16]); let t = sign(r, s) + prefixOf(radix) + underscore(r, numText(x, radix, r.bool())); if (r.chance(0.2)) t = mutate(r, t); return [utf8(t)] })]] },
  C15: { fams: ['Fmt', 'Sink', 'Text', 'Exp'], fixed: function* () {
      for (const s of [false, true]) for (const kind of [0, 1, 2, 3, 4, 5, 6, 7]) for (const sgf of [0, 1, 2]) for (const alt of [0, 1]) for (const a of [0n, 4660n, mod(-4660n)])
        for (const [z, al, w] of [[0, 0, -1], [1, 0, 6], [0, 4, 7], [0, 7, 8]]) for (const cap of [0, 1, 2, 3, 5, 64, 300]) yield ['Sink', [s, signed(s, a), kind, sgf, alt, z, al, w, -1, cap]]
      for (const s of [false, true]) {
        for (let i = 0; i < 78; i++) for (const d of [-1n, 0n, 1n]) for (const sg of s ? [1n, -1n] : [1n]) { const x = sg * (pow10[i] + d); if (!s || (x < H && x >= -H)) if (s || x >= 0n) yield ['Fmt', [s, x, 0, 0, 0, 0, 0, -1, -1]] }
        for (const a of [0n, 1n, 42n, mod(-42n), H, H - 1n, M1]) for (const kind of [0, 1, 2, 3, 4, 5, 6, 7]) for (const sgf of [0, 1, 2]) for (const alt of [0, 1]) for (const zero of [0, 1])
          for (const [al, w, p] of [[0, 0, -1], [0, 12, -1], [5, 13, -1], [0, -1, -1], [1, 14, 3], [0, -1, 0]]) yield ['Fmt', [s, signed(s, a), kind, sgf, alt, zero, al, w, p]]
        for (const c of widths()) if (c[1][0] === s) yield c
        for (let al = 0; al < 8; al++) for (let w = 0; w < 10; w++) for (const a of [7n, mod(-123n)]) for (const zero of [0, 1]) yield ['Fmt', [s, signed(s, a), 0, 0, 0, zero, al, w, -1]]
        for (const a of [0n, M1, H, H - 1n, 42n]) yield ['Text', [s, signed(s, a)]]
      } },
    random: [['Fmt', 0.35, both((r, s) => fmtOf(r, s, signed(s, r.chance(0.5) ? decimalWord(r) : word(r)), r.int(8)))],
      ['Fmt', 0.25, both((r, s) => fmtOf(r, s, signed(s, decimalWord(r)), 0))],
      ['Sink', 0.15, both((r, s) => [...fmtOf(r, s, signed(s, r.chance(0.5) ? decimalWord(r) : word(r)), r.int(8)), r.chance(0.5) ? r.int(90) : r.int(300)])],
      ['Text', 0.05, one], ['Exp', 0.4, both((r, s) => [signed(s, r.chance(0.5) ? decimalWord(r) : word(r)), ...flagsOf(r)])]] },
  C16: { fams: ['SerText', 'DeText', 'DeInt', 'DeF32', 'DeF64', 'DeOther', 'SerRound'], fixed: function* () {
      for (const s of [false, true]) {
        yield ['DeOther', [s]]
        for (const t of SHORT) if (t.length < 3) yield ['DeText', [s, utf8(t)]]
        for (const radix of [2, 8, 10, 16]) for (const x of [M - 1n, M, H - 1n, H, H + 1n, 0n]) for (const sg of SIGNS) for (const p of ['', '0b', '0o', '0x', '0X']) yield ['DeText', [s, utf8(sg + p + numText(x, radix))]]
        for (const [, sg, p, t] of longTexts(s, [2, 8, 10, 16], ['0', '_'])) yield ['DeText', [s, utf8(sg + p + t)]]
        for (const [, sg, p, t] of hugeTexts(s, ['0'])) yield ['DeText', [s, utf8(sg + p + t)]]
        for (const l of [[255], [0xc3], [0x30, 0xff], [0x30, 0x78, 0x80]]) yield ['DeText', [s, l]]
        // a number with something in it that is not text
        for (const t of ['0', '7', '42', '0x2a', '-0x2a', '+5', '0b101', '0o17', '123456789', numText(M1, 10), '0x' + numText(H, 16)]) {
          const l = utf8(t)
          for (let i = 0; i <= l.length; i++) for (const bad of [[0xff], [0x80], [0xc3], [0xe2, 0x82], [0xf0, 0x9f, 0x98], [0xed, 0xa0, 0x80]]) if (l.length < 12 || i < 4 || i > l.length - 3) yield ['DeText', [s, [...l.slice(0, i), ...bad, ...l.slice(i)]]]
        }
      }
      yield* each(BOUND.slice(0, 100), 'SerText'); yield* each(BOUND, 'SerRound'); yield* prims('DeInt')
      for (const s of [false, true]) { yield* allExponents('DeF32', 24, 8, [s]); for (const c of allExponents('DeF64', 53, 11, [s])) if (Number((c[1][1] >> 52n) & 2047n) > 1000 && Number((c[1][1] >> 52n) & 2047n) < 1090) yield c } },
    random: [['SerText', 0.3, one], ['SerRound', 1, one], ['DeText', 0.4, both((r, s) => [notText(r, utf8(parseInput(r, s)))])],
      ['DeInt', 1, both((r, s) => { const t = r.pick(['u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128']); return [t, primValue(r, t)] })],
      ['DeF32', 1, both(r => [floatInt(r, 24, 8)])], ['DeF64', 1, both(r => [floatInt(r, 53, 11)])]] },
  C17: { fams: ['SerBytes', 'DeBytes', 'DeSeq', 'ByteRound'], fixed: function* () { yield* byteInputs(); yield* seqInputs(); yield* byteEdges('SerBytes'); yield* byteEdges('ByteRound') },
    random: [['SerBytes', 0.5, one], ['ByteRound', 1, one], ['DeBytes', 1.5, byteInput], ['DeSeq', 1, seqInput]] },
  C20: { fams: ['Sign', 'AbsDiff', 'Pow2'], fixed: function* () { for (const a of SINGLES) { yield ['Sign', [true, signed(true, a)]]; yield ['Pow2', [false, a]] } yield* pairsOf(BASES, 'AbsDiff') },
    random: [['Sign', 2, r => [true, signed(true, word(r))]], ['AbsDiff', 4, pair], ['Pow2', 1, r => [false, word(r)]]] },
  C21: { fams: ['Fold'], fixed: function* () { for (const s of [false, true]) { yield ['Fold', [s, []]]; for (const a of BOUND) { yield ['Fold', [s, [signed(s, a)]]]; for (const b of [1n, 2n, M1, H, H - 1n]) yield ['Fold', [s, [signed(s, a), signed(s, b)]]] } yield* longLists(s) } },
    random: [['Fold', 2, list]] },
  C22: { fams: ['Intr', 'IntrDiv', 'IntrShift', 'IntrCount'], routes: [...RING, 'div'], first: function* () { yield* routes(RING, 'Intr'); yield* only(definedCase, routes(['div'], 'IntrDiv', true)) }, fixed: function* () { yield* pairsOf(BASES.filter((_, i) => i % 2), 'Intr'); for (const c of pairsOf(BASES.filter((_, i) => i % 2), 'IntrDiv')) if (c[1][2] !== 0n && !(c[1][0] && c[1][1] === -H && c[1][2] === -1n)) yield c; yield* shifts('IntrShift', SHIFTED, 520); yield* each(SINGLES, 'IntrCount') },
    random: [['Intr', 4, pair], ['IntrDiv', 4, defined(divs)], ['IntrShift', 3, shift], ['IntrCount', 0.3, one]] },
  C23: { fams: ['Round'], fixed: function* () { yield* each(SINGLES, 'Round'); for (let i = 0; i < 78; i++) for (const d of [-1n, 0n, 1n]) for (const s of [false, true]) { yield ['Round', [s, signed(s, pow10[i] + d)]]; if (s) yield ['Round', [s, signed(s, -pow10[i] + d)]] } },
    random: [['Round', 2, one], ['Round', 2, both((r, s) => [signed(s, decimalWord(r))])]] },
}

// Now and then a text that is not UTF-8.
const notText = (r, l) => {
  if (!r.chance(0.1)) return l
  const i = r.int(l.length + 1), cut = r.chance(0.2) ? 1 : 0
  return [...l.slice(0, i), ...r.pick([[0xff], [0x80 + r.int(64)], [0xc2 + r.int(30)], [0xe2, 0x82], [0xf0, 0x9f, 0x98], [0xc0, 0x80], [0xed, 0xa0, 0x80]]), ...l.slice(i + cut)]
}

// Cases of one worker: [family, arguments]. `unit` scales the random part.
function* cases(id, worker, workers, r, unit) {
  const plan = PLANS[id]
  // this worker's share of an enumeration, in scattered order, so that a run cut
  // short has seen all regions
  const share = it => {
    let i = 0
    const mine = []
    for (const c of it) if (i++ % workers === worker) mine.push(c)
    const n = mine.length, gcd = (a, b) => (b ? gcd(b, a % b) : a)
    let step = Math.max(1, Math.floor(n * 0.6180339887))
    while (n && gcd(step, n) !== 1) step++
    return mine.map((_, k) => mine[(k * step) % n])
  }
  if (plan.first) yield* share(plan.first())
  const mine = share(plan.fixed())
  let k = 0
  const left = plan.random.map(([, n]) => Math.ceil(n * unit / workers))
  // interleaved, so that a run cut short still covers every family
  for (;;) {
    let any = false
    for (let j = 0; j < 100 && k < mine.length; j++) { any = true; yield mine[k++] }
    for (let f = 0; f < left.length; f++) {
      const some = Math.max(1, Math.round(40 * plan.random[f][1] / Math.max(...plan.random.map(x => x[1]))))
      for (let j = 0; j < some && left[f] > 0; j++, left[f]--) { any = true; yield [plan.random[f][0], plan.random[f][2](r)] }
    }
    if (!any) break
  }
}

module.exports = { widths, PLANS, cases, setDict, word, partner, division, signed, mod, M, H, DICT: () => DICT }
