// The raw buffers of the implementation, byte by byte: the right-to-left digit
// buffers of fmt.rs, the FormatBuffer and the element buffers of serde.rs. A
// cell that nothing has been written to holds NONE; an access out of range or a
// read of such a cell clears `ok`, and no buffer may ever reach that.
module buffers {
  import num.* from "./num"
  import text(TW = 256).* from "./text"

  pure val NONE = -1
  type Buf = { cells: List[int], curr: int, ok: bool }
  pure def fresh(n: int, curr: int): Buf = { cells: replicate(n, NONE), curr: curr, ok: true }
  pure def poke(b: Buf, i: int, c: int): Buf =
    if (i >= 0 and i < b.cells.length()) { ...b, cells: b.cells.replaceAt(i, c) }
    else { ...b, ok: false }
  // Reading cells [lo, hi).
  pure def seen(b: Buf, lo: int, hi: int): Buf =
    { ...b, ok: b.ok and lo >= 0 and lo <= hi and hi <= b.cells.length()
              and b.cells.slice(max2(0, lo), min2(max2(0, hi), b.cells.length())).foldl(true, (t, c) => t and c != NONE) }
  pure def window(b: Buf, lo: int, hi: int): List[int] =
    if (seen(b, lo, hi).ok) b.cells.slice(lo, hi) else []

  /* --------------------------------------------------- digits, right to left -- */

  // GenericRadix::fmt_u256: one digit per step until the quotient is zero.
  pure def radixBuf(n: int, base: int, room: int): Buf = {
    val e = 1.to(room).fold({ b: fresh(room, room), x: n, on: true }, (s, _) =>
      if (not(s.on)) s
      else {
        val c = s.b.curr - 1
        { b: { ...poke(s.b, c, digitCh(s.x % base, false)), curr: c }, x: s.x / base, on: s.x / base != 0 }
      })
    // digits left over are digits lost
    { ...seen(e.b, e.b.curr, room), ok: seen(e.b, e.b.curr, room).ok and not(e.on) }
  }

  // The table of two-digit pairs: entry k holds the k-th character of 00 01 .. 99.
  pure def lut(k: int): int = if (k % 2 == 0) 48 + k / 20 else 48 + (k / 2) % 10
  // Copies the two characters at table offset d to buffer offset `at`.
  pure def pair(b: Buf, d: int, at: int): Buf =
    if (d < 0 or d + 2 > 200) { ...b, ok: false }
    else poke(poke(b, at, lut(d)), at + 1, lut(d + 1))

  // fmt::fmt_u256: four digits per step, then at most four.
  pure def decimalBuf(n: int, room: int): Buf = {
    val a = 0.to(room / 4).fold({ b: fresh(room, room), n: n }, (s, _) =>
      if (s.n < 10000) s
      else {
        val rem = s.n % 10000
        val c = s.b.curr - 4
        { b: { ...pair(pair(s.b, (rem / 100) * 2, c), (rem % 100) * 2, c + 2), curr: c }, n: s.n / 10000 }
      })
    val b2 = if (a.n >= 100) { b: { ...pair(a.b, (a.n % 100) * 2, a.b.curr - 2), curr: a.b.curr - 2 }, n: a.n / 100 } else a
    val b3 =
      if (b2.n < 10) { ...poke(b2.b, b2.b.curr - 1, 48 + b2.n), curr: b2.b.curr - 1 }
      else { ...pair(b2.b, b2.n * 2, b2.b.curr - 2), curr: b2.b.curr - 2 }
    seen(b3, b3.curr, room)
  }

  /* ----------------------------------------------------- strings, left to right -- */

  // FormatBuffer: `curr` is the offset; `err` the refusal of a piece too long.
  type Text = { b: Buf, err: bool }
  pure def emptyText(room: int): Text = { b: fresh(room, 0), err: false }
  pure def write(t: Text, piece: List[int]): Text = {
    val end = t.b.curr + piece.length()
    if (t.err or end > t.b.cells.length()) { ...t, err: true }
    else {
      val w = piece.foldl({ b: t.b, at: t.b.curr }, (s, c) => { b: poke(s.b, s.at, c), at: s.at + 1 }).b
      { b: { ...w, curr: end }, err: false }
    }
  }
  pure def written(t: Text): Text = { ...t, b: seen(t.b, 0, t.b.curr) }
  pure def contents(t: Text): List[int] = window(t.b, 0, t.b.curr)

  // What the serializers write: an optional sign, the prefix and the digits.
  pure def serText(v: int, radix: int, prefix: List[int], room: int): Text = {
    val t = emptyText(room)
    val t1 = if (v < 0) write(t, [45]) else t
    written(write(write(t1, prefix), chars(abs(v), radix, false)))
  }

  /* -------------------------------------------------------------- sequences -- */

  // A serde sequence: elements (NONE = the element is malformed) and the length
  // it announces (NONE = no announcement).
  type Fill = { b: Buf, n: int, err: bool }

  // Exactly `room` elements.
  pure def fillExact(els: List[int], hint: int, room: int): Fill =
    if (hint != NONE and hint != room) { b: fresh(room, 0), n: 0, err: true }
    else {
      val f = 0.to(room - 1).fold({ b: fresh(room, 0), n: 0, err: false }, (s, i) =>
        if (s.err) s
        else if (i >= els.length() or els[i] == NONE) { ...s, err: true }
        else { b: poke(s.b, i, els[i]), n: i + 1, err: false })
      if (f.err or els.length() > room) { ...f, err: true }
      else { ...f, b: seen(f.b, 0, room) }
    }

  // At most `room` elements; only those written are read.
  pure def fillUpTo(els: List[int], hint: int, room: int): Fill =
    if (hint != NONE and hint > room) { b: fresh(room, 0), n: 0, err: true }
    else {
      val f = 0.to(room - 1).fold({ b: fresh(room, 0), n: 0, err: false }, (s, i) =>
        if (s.err or i >= els.length()) s
        else if (els[i] == NONE) { ...s, err: true }
        else { b: poke(s.b, i, els[i]), n: i + 1, err: false })
      if (f.err or els.length() > room) { ...f, err: true }
      else { ...f, b: seen(f.b, 0, f.n) }
    }
}
