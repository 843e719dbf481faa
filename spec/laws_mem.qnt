// No buffer of buffers.qnt is ever read where it was not written or accessed
// out of range, and what is read is the text or bytes meant.
module laws_mem {
  import num.* from "./num"
  import text(TW = 256).* from "./text"
  import buffers.* from "./buffers"

  // 256-bit magnitudes next to powers of two and ten, and with equal digits.
  pure def wide(a: int): Set[int] =
    Set(2^a - 1, 2^a, 2^a + 1, 2^256 - 2^a, 2^256 - 1 - 2^a, 10^(a % 78), 10^(a % 78) - 1, 10^(a % 78) * 9 + a, (10^77 / 9) * (a % 10 + 1),
        10^(a % 78) + 10^((a * 7) % 78), 2^255 + a)
      .filter(x => x >= 0 and x < 2^256)

  pure def digitsLaw(n: int, base: int, room: int): bool = {
    val b = radixBuf(n, base, room)
    b.ok and window(b, b.curr, room) == chars(n, base, false)
  }
  pure def decimalLaw(n: int, room: int): bool = {
    val b = decimalBuf(n, room)
    b.ok and window(b, b.curr, room) == chars(n, 10, false)
  }
  // Two bytes: every 16-bit value.
  pure def limbDecimal16(a: int, b: int): bool = decimalLaw(a * 256 + b, 6)
  pure def limbRadix16(a: int, b: int): bool =
    digitsLaw(a * 256 + b, 2, 16) and digitsLaw(a * 256 + b, 8, 6) and digitsLaw(a * 256 + b, 16, 4)
  pure def limbDecimal256(a: int): bool = wide(a).forall(n => decimalLaw(n, 79))
  pure def limbRadix256(a: int): bool =
    wide(a).forall(n => digitsLaw(n, 8, 256) and digitsLaw(n, 16, 256)) and
    Set(2^a, 2^256 - 1 - 2^a).forall(n => digitsLaw(n, 2, 256))

  // The sizes suffice for every value and 78, 64 and 256 are the least that do.
  pure def lawSizes(a: int): bool = and {
    decimalBuf(2^256 - 1, 78).ok, not(decimalBuf(2^256 - 1, 77).ok),
    radixBuf(2^256 - 1, 2, 256).ok, not(radixBuf(2^256 - 1, 2, 255).ok),
    not(serText(-(2^255), 16, [48, 120], 66).err == false), not(serText(-(2^255), 10, [], 77).err == false),
    a >= 0
  }

  // The serializers never run out of room, and hand out what they wrote.
  pure def serLaw(v: int): bool = {
    val h = serText(v, 16, [48, 120], 67)
    val d = serText(v, 10, [], 78)
    val sg = if (v < 0) [45] else []
    and {
      not(h.err), h.b.ok, contents(h) == sg.concat([48, 120]).concat(chars(abs(v), 16, false)),
      not(d.err), d.b.ok, contents(d) == sg.concat(chars(abs(v), 10, false))
    }
  }
  pure def limbSerBuf(a: int): bool =
    wide(a).forall(n => serLaw(n) and (n <= 2^255 implies serLaw(-n)))

  // Pieces that do not fit are refused whole and leave the text readable.
  pure def limbFormatBuffer(a: int): bool = {
    val p1 = replicate(a % 4, 65)
    val p2 = replicate((a / 4) % 4, 66)
    val p3 = replicate((a / 16) % 4, 67)
    0.to(10).forall(room => {
      val t = written(write(write(write(emptyText(room), p1), p2), p3))
      val whole = p1.concat(p2).concat(p3)
      and {
        t.b.ok, t.b.curr <= room,
        if (whole.length() <= room) not(t.err) and contents(t) == whole
        else t.err and contents(t) == whole.slice(0, t.b.curr) and t.b.curr.in(Set(0, p1.length(), p1.length() + p2.length()))
      }
    })
  }

  // Sequences of every length from 0 to 7 into 4 cells, with every announced
  // length and at most one malformed element.
  pure def limbSequence(a: int): bool = {
    val len = a % 8
    val hint = if ((a / 8) % 8 == 7) NONE else (a / 8) % 8
    val bad = a / 64
    0.to(8).forall(k => {
      val els = 0.to(7).fold([], (l, i) => if (i >= len) l else l.append(if (i == k - 1 and bad > 0) NONE else 10 + i))
      val x = fillExact(els, hint, 4)
      val y = fillUpTo(els, hint, 4)
      val malformed = els.slice(0, min2(len, 4)).foldl(false, (t, c) => t or c == NONE)
      and {
        x.b.ok, y.b.ok,
        x.err == (hint.in(0.to(7).exclude(Set(4))) or len != 4 or malformed),
        not(x.err) implies (x.n == 4 and window(x.b, 0, 4) == els),
        y.err == (hint > 4 or len > 4 or malformed),
        not(y.err) implies (y.n == len and window(y.b, 0, y.n) == els)
      }
    })
  }
}
