// A register machine over the 256-bit integer types: the state after any
// history of calls on a set of variables.
//
// Three U256 registers (0..2) and three I256 registers (3..5). One step
// executes one call on registers and stores what it returns; the outcome that
// was observed is part of the state. `s` selects the bank of the operands
// (registers d, a, b of 0..2 within it); a result of the other type goes to
// register d of the other bank.
module machine {
  import num.* from "./num"
  const MW: int
  import api(W = MW).* from "./api"
  import text(TW = MW).* from "./text"
  import serde(SW = MW).* from "./serde"

  type Op = { fam: str, e: str, s: bool, d: int, a: int, b: int, n: int }

  /* ---------------------------------------------------------- instructions -- */

  // Both banks.
  pure val BOTH: List[(str, str)] = [
    ("Wrap", "wrapping_add"), ("Wrap", "wrapping_sub"), ("Wrap", "wrapping_mul"), ("Wrap", "wrapping_neg"),
    ("Ovf", "overflowing_add"), ("Ovf", "overflowing_sub"), ("Ovf", "overflowing_mul"),
    ("Ovf", "checked_add"), ("Ovf", "checked_sub"), ("Ovf", "checked_mul"),
    ("Ovf", "saturating_add"), ("Ovf", "saturating_sub"), ("Ovf", "saturating_mul"),
    ("Neg", "overflowing_neg"), ("Neg", "checked_neg"),
    // operators: in place or not, by value or by reference, according to n
    ("Ops", "add"), ("Ops", "sub"), ("Ops", "mul"), ("Ops", "div"), ("Ops", "rem"),
    ("BitOps", "bitand"), ("BitOps", "bitor"), ("BitOps", "bitxor"), ("BitOps", "not"),
    ("Div", "wrapping_div"), ("Div", "wrapping_rem"), ("Div", "overflowing_div"), ("Div", "checked_rem"),
    ("Div", "checked_div"), ("Div", "saturating_div"), ("Div", "div_rem"), ("Div", "overflowing_div_rem"),
    ("Div", "checked_div_rem"), ("Div", "wrapping_div_rem"), ("Div", "saturating_div_rem"), ("Div", "overflowing_rem"),
    ("DivEuclid", "div_euclid"), ("DivEuclid", "rem_euclid"), ("DivEuclid", "wrapping_div_euclid"),
    ("DivEuclid", "wrapping_rem_euclid"), ("DivEuclid", "overflowing_div_euclid"), ("DivEuclid", "checked_rem_euclid"),
    ("DivEuclid", "div_rem_euclid"), ("DivEuclid", "checked_div_rem_euclid"), ("DivEuclid", "overflowing_div_rem_euclid"),
    ("DivEuclid", "checked_div_euclid"), ("DivEuclid", "overflowing_rem_euclid"), ("DivEuclid", "wrapping_div_rem_euclid"),
    ("DivEuclid", "saturating_div_rem_euclid"),
    // amounts: n
    ("Shift", "wrapping_shl"), ("Shift", "wrapping_shr"), ("Shift", "overflowing_shl"), ("Shift", "overflowing_shr"),
    ("Shift", "checked_shl"), ("Shift", "checked_shr"), ("Shift", "rotate_left"), ("Shift", "rotate_right"),
    ("ShiftOp", "shl"), ("ShiftOp", "shr"),
    // amounts: register b of the same or the other bank
    ("ShiftReg", "shl"), ("ShiftReg", "shr"), ("ShiftOther", "shl"), ("ShiftOther", "shr"),
    ("Count", "count_ones"), ("Count", "count_zeros"), ("Count", "leading_zeros"), ("Count", "trailing_zeros"),
    ("Count", "leading_ones"), ("Count", "trailing_ones"),
    ("Swap", "swap_bytes"), ("Swap", "reverse_bits"), ("Swap", "to_be"), ("Swap", "from_be"), ("Swap", "to_le"), ("Swap", "from_le"),
    ("Pow", "wrapping_pow"), ("Pow", "overflowing_pow"), ("Pow", "checked_pow"), ("Pow", "saturating_pow"), ("Pow", "pow"),
    ("Cmp", "max"), ("Cmp", "min"), ("Cmp", "eq"), ("Cmp", "lt"), ("Cmp", "ge"), ("Cmp", "hash_eq"), ("Cmp", "ne"), ("Cmp", "le"), ("Cmp", "gt"),
    // in place or not, according to n; undefined operands are left alone
    ("Intr", "add"), ("Intr", "sub"), ("Intr", "mul"), ("Intr", "addc"), ("Intr", "subc"), ("Intr", "mulc"),
    ("IntrDiv", "div"), ("IntrDiv", "rem"), ("IntrShift", "shl"), ("IntrShift", "shr"), ("IntrShift", "rol"), ("IntrShift", "ror"),
    ("IntrCount", "ctlz"), ("IntrCount", "cttz"),
    ("Trip", "debug"), ("Cast", "bytes"), ("Cast", "words"),
    ("Clamp", "clamp"),
    ("Words", "set_low"), ("Words", "set_high"), ("Words", "new"), ("Words", "swap_words"),
    ("Bank", "sum"), ("Bank", "product"), ("Bank", "sort"), ("Bank", "swap"),
    ("Trip", "decimal"), ("Trip", "binary"), ("Trip", "octal"), ("Trip", "hex"), ("Trip", "serde"), ("Trip", "bytes"),
    // decimal text read as hexadecimal digits
    ("Reread", "hex"),
    ("Float", "f32"), ("Float", "f64"),
    ("Narrow", "u8"), ("Narrow", "i8"), ("Narrow", "u16"), ("Narrow", "i32"), ("Narrow", "u64"), ("Narrow", "i64"), ("Narrow", "u128"), ("Narrow", "i128"),
    // into the other bank
    ("Cast", "as"), ("Cast", "try"), ("Cast", "text"), ("Cast", "serde"), ("Cast", "le_bytes"), ("Cast", "be_bytes"),
    ("Cast", "f64"), ("AbsDiff", "abs_diff")
  ]
  pure val ONLY_U: List[(str, str)] = [
    ("Mixed", "wrapping_add_signed"), ("Mixed", "overflowing_add_signed"), ("Mixed", "checked_add_signed"), ("Mixed", "saturating_add_signed"),
    ("Pow2", "is_power_of_two"), ("Pow2", "next_power_of_two"), ("Pow2", "checked_next_power_of_two")
  ]
  pure val ONLY_S: List[(str, str)] = [
    ("Mixed", "wrapping_add_unsigned"), ("Mixed", "overflowing_add_unsigned"), ("Mixed", "checked_add_unsigned"), ("Mixed", "saturating_add_unsigned"),
    ("Mixed", "wrapping_sub_unsigned"), ("Mixed", "overflowing_sub_unsigned"), ("Mixed", "checked_sub_unsigned"), ("Mixed", "saturating_sub_unsigned"),
    ("NegOp", "neg"), ("Sign", "abs"), ("Sign", "wrapping_abs"), ("Sign", "overflowing_abs"), ("Sign", "checked_abs"), ("Sign", "saturating_abs"),
    ("Sign", "signum"), ("Sign", "is_negative"), ("Sign", "is_positive"), ("Sign", "saturating_neg"), ("Sign", "signum128"), ("Cast", "unsigned_abs")
  ]
  pure val INSTRUCTIONS: List[(bool, (str, str))] =
    BOTH.foldl([], (l, e) => l.append((false, e)).append((true, e)))
      .concat(ONLY_U.foldl([], (l, e) => l.append((false, e))))
      .concat(ONLY_S.foldl([], (l, e) => l.append((true, e))))

  /* -------------------------------------------------------------- outcomes -- */

  pure def pick(l: List[Entry], e: str): Out =
    l.foldl(OAny, (o, x) => if (x._1 == e) x._2 else o)

  pure def narrow(e: str, x: int): int =
    if (e == "u8") wrapTo(8, false, x) else if (e == "i8") wrapTo(8, true, x)
    else if (e == "u16") wrapTo(16, false, x) else if (e == "i32") wrapTo(32, true, x)
    else if (e == "u64") wrapTo(64, false, x) else if (e == "i64") wrapTo(64, true, x)
    else if (e == "u128") wrapTo(128, false, x) else wrapTo(128, true, x)

  // Conversions into the other type.
  pure def cast(s: bool, e: str, a: int): Out =
    if (e == "as" or e == "bytes" or e == "words") OI(wrap(not(s), a))
    else if (e == "try") (if (inR(not(s), a)) OI(a) else OErr)
    else if (e == "text") lenient(parse(not(s), 10, [], decText(a)))
    else if (e == "serde") parsePrefixed(not(s), hexText(a))
    else if (e == "le_bytes") OI(extend(not(s), reverse(compLE(s, a))))
    else if (e == "be_bytes") OI(extend(not(s), reverse(compLE(s, a))))
    else if (e == "f64") OI(fromFloat(53, 11, not(s), toFloat(53, 11, a)))
    else OI(abs(a))

  // The outcome of instruction o on operands x (register a), y (register b),
  // z (register b of the other bank) and the old value w of register d.
  pure def outcome(o: Op, w: int, x: int, y: int, z: int, bank: List[int]): Out = {
    val s = o.s
    val e = o.e
    val f = o.fam
    if (f == "Wrap") pick(fWrap(s, x, y), e)
    else if (f == "Mixed") pick(fWrapMixed(s, x, z).concat(fOvfMixed(s, x, z)), e)
    else if (f == "Ovf") pick(fOvf(s, x, y), e)
    else if (f == "Neg") pick(fNeg(s, x), e)
    else if (f == "NegOp") pick(fNegOp(s, x), e)
    else if (f == "Ops") pick(fOps(s, x, y), e)
    else if (f == "BitOps") pick(fBitOps(s, x, y), e)
    else if (f == "Div") pick(fDiv(s, x, y), e)
    else if (f == "DivEuclid") pick(fDivEuclid(s, x, y), e)
    else if (f == "Shift") pick(fShift(s, x, o.n), e)
    else if (f == "ShiftOp") pick(fShiftOp(s, x, o.n), e)
    else if (f == "ShiftReg") pick(fShiftOp(s, x, y), e)
    else if (f == "ShiftOther") pick(fShiftOp(s, x, z), e)
    else if (f == "Count") pick(fCount(s, x), e)
    else if (f == "Swap") pick(fSwap(s, x), e)
    else if (f == "Pow") pick(fPow(s, x, o.n), e)
    else if (f == "Pow2") pick(fPow2(s, x), e)
    else if (f == "Cmp") pick(fCmp(s, x, y), e)
    else if (f == "Clamp") pick(fClamp(s, w, x, y), e)
    else if (f == "Words") (
      if (e == "swap_words") OI(joinW(s, loW(s, x), hiW(s, x)))
      // a word of register a is written to register d
      else if (e == "set_low") OI(joinW(s, hiW(s, w), if (o.n % 2 == 0) loW(s, x) else hiW(s, x)))
      else if (e == "set_high") OI(joinW(s, if (o.n % 2 == 0) loW(s, x) else hiW(s, x), loW(s, w)))
      else OI(if (o.n % 2 == 0) loW(s, x) else hiW(s, x)))
    else if (f == "Bank") (if (e == "sum" or e == "product") pick(fFold(s, bank), e) else OAny)
    else if (f == "Trip") OI(x)
    else if (f == "Reread") lenient(parse(s, 16, [], decText(x)))
    else if (f == "Float") OI(
      if (e == "f32") fromFloat(24, 8, s, toFloat(24, 8, x)) else fromFloat(53, 11, s, toFloat(53, 11, x)))
    // through a primitive and back with `as`
    else if (f == "Narrow") OI(wrap(s, narrow(e, x)))
    else if (f == "Cast") cast(s, e, x)
    else if (f == "AbsDiff") OI(abs(x - y))
    else if (f == "Sign") pick(fSign(s, x), e)
    else if (f == "Intr") pick(fIntr(s, x, y), e)
    else if (f == "IntrDiv") pick(fIntrDiv(s, x, y), e)
    else if (f == "IntrShift") pick(fIntrShift(s, x, o.n), e)
    else if (f == "IntrCount") pick(fIntrCount(s, x), e)
    else OAny
  }

  // Results of the other type.
  pure def crosses(o: Op): bool = o.fam == "Cast" or (o.fam == "AbsDiff" and o.s)

  /* ----------------------------------------------------------------- steps -- */

  pure def at(s: bool, i: int): int = i + (if (s) 3 else 0)
  pure def next3(i: int): int = if (i == 2) 0 else i + 1
  pure def sort3(l: List[int]): List[int] = {
    val a = min2(l[0], l[1])
    val b = max2(l[0], l[1])
    val m = min2(b, l[2])
    [min2(a, m), max2(a, m), max2(b, l[2])]
  }

  // Registers after the step, and the outcome.
  pure def apply(dbg: bool, r: List[int], o: Op): { r: List[int], obs: Out } = {
    val bank = if (o.s) r.slice(3, 6) else r.slice(0, 3)
    val da = at(o.s, o.a)
    val db = at(o.s, o.b)
    val dst = at(if (crosses(o)) not(o.s) else o.s, o.d)
    val dst2 = at(if (crosses(o)) not(o.s) else o.s, next3(o.d))
    if (o.fam == "Bank" and o.e == "sort") {
      val t = sort3(bank)
      { r: if (o.s) r.slice(0, 3).concat(t) else t.concat(r.slice(3, 6)), obs: OAny }
    } else if (o.fam == "Bank" and o.e == "swap")
      { r: r.replaceAt(da, r[db]).replaceAt(db, r[da]), obs: OAny }
    else {
      val out = outcome(o, r[at(o.s, o.d)], r[da], r[db], r[at(not(o.s), o.b)], bank)
      val r2 = match out {
        | OI(v) => r.replaceAt(dst, v)
        | OIB(p) => r.replaceAt(dst, p._1)
        | OII(p) => r.replaceAt(dst, p._1).replaceAt(dst2, p._2)
        | OIIB(p) => r.replaceAt(dst, p._1).replaceAt(dst2, p._2)
        | OD(v) => if (dbg) r else r.replaceAt(dst, v)
        | _ => r
      }
      { r: r2, obs: out }
    }
  }

  /* --------------------------------------------------------- state machine -- */

  pure val STARTS: Set[int] = Set(0, 1, 2, 3, 7, 10, 255, 65537, 10^19, 10^38,
    2^(MW / 4) - 1, 2^(MW / 4), 2^(MW / 2) - 1, 2^(MW / 2), 2^(MW / 2) + 1, 2^(MW / 2 - 1), 2^(3 * MW / 4) + 12345,
    HALF - 1, HALF, HALF + 1, M - 2, M - 1, (M - 1) / 3, (M - 1) / 5, (M - 1) / 15 * 7)
  pure val AMOUNTS: Set[int] = Set(0, 1, 2, 3, 5, 8, 31, 63, 64, 65, 100, 127, 128, 129, 191, 192, 193, 254, 255, 256, 257, 300, 512, 1000, 4294967295)

  // registers; the last instruction; its outcome; whether debug assertions are
  // on, chosen once; and the registers before the step
  var r: List[int]
  var op: Op
  var obs: Out
  var dbg: bool
  var old: List[int]

  pure val NOP: Op = { fam: "Init", e: "", s: false, d: 0, a: 0, b: 0, n: 0 }

  action init = {
    nondet a = STARTS.oneOf()
    nondet b = STARTS.oneOf()
    nondet c = STARTS.oneOf()
    nondet x = STARTS.oneOf()
    nondet y = STARTS.oneOf()
    nondet z = STARTS.oneOf()
    nondet p = Set(true, false).oneOf()
    all { r' = [a, b, c, asS(x), asS(-y), asS(z)], op' = NOP, obs' = OAny, dbg' = p, old' = [a, b, c, asS(x), asS(-y), asS(z)] }
  }

  action execute(o: Op): bool = {
    val t = apply(dbg, r, o)
    all { r' = t.r, op' = o, obs' = t.obs, dbg' = dbg, old' = r }
  }

  // A fresh value keeps long histories from settling at 0 and the bounds.
  action load = {
    nondet s = Set(true, false).oneOf()
    nondet d = Set(0, 1, 2).oneOf()
    nondet v = STARTS.oneOf()
    nondet k = 0.to(MW - 1).oneOf()
    val x = wrap(s, v + 2^k)
    all { r' = r.replaceAt(at(s, d), x), op' = { fam: "Load", e: "", s: s, d: d, a: 0, b: 0, n: x }, obs' = OAny, dbg' = dbg, old' = r }
  }

  action step = {
    nondet k = 0.to(INSTRUCTIONS.length() + 30).oneOf()
    nondet d = Set(0, 1, 2).oneOf()
    nondet a = Set(0, 1, 2).oneOf()
    nondet b = Set(0, 1, 2).oneOf()
    nondet n = AMOUNTS.oneOf()
    if (k < INSTRUCTIONS.length()) {
      val i = INSTRUCTIONS[k]
      execute({ fam: i._2._1, e: i._2._2, s: i._1, d: d, a: a, b: b, n: n })
    } else load
  }

  /* ------------------------------------------------------------ invariants -- */

  // Registers never leave their types.
  val typed = r.indices().forall(i => inR(i >= 3, r[i]))

  // What each kind of outcome may change.
  val frame = {
    val dst = at(if (crosses(op)) not(op.s) else op.s, op.d)
    val dst2 = at(if (crosses(op)) not(op.s) else op.s, next3(op.d))
    val changed = r.indices().filter(i => r[i] != old[i])
    match obs {
      | ON => changed == Set()
      | OP => changed == Set()
      | OErr => changed == Set()
      | OB(_) => changed == Set()
      | OD(_) => if (dbg) changed == Set() else changed.subseteq(Set(dst))
      | OI(v) => changed.subseteq(Set(dst)) and r[dst] == v
      | OIB(_) => changed.subseteq(Set(dst))
      | OII(_) => changed.subseteq(Set(dst, dst2))
      | OIIB(_) => changed.subseteq(Set(dst, dst2))
      | _ => true
    }
  }

  // The division law holds between the registers of a combined division.
  val division = {
    val s = op.s
    val x = old[at(s, op.a)]
    val y = old[at(s, op.b)]
    match obs {
      | OII(p) => if (op.fam == "Div" and op.e != "saturating_div_rem" and y != 0)
                    wrap(s, p._1 * y + p._2) == x and abs(p._2) < abs(y)
                  else true
      | _ => true
    }
  }

  // Serialization, text and byte round trips change nothing but the target.
  val roundtrip = if (op.fam == "Trip") r[at(op.s, op.d)] == old[at(op.s, op.a)] else true

  // Every instruction has a specified outcome.
  val total = match obs {
    // the intrinsics say nothing about a zero divisor, a quotient outside the
    // type and an amount of the width or more
    | OAny => Set("Init", "Load", "Bank").contains(op.fam)
        or (op.fam == "IntrDiv" and (old[at(op.s, op.b)] == 0 or (op.s and old[at(op.s, op.a)] == lo(op.s) and old[at(op.s, op.b)] == -1)))
        or (op.fam == "IntrShift" and op.n >= MW)
    | _ => true
  }

  val safe = typed and frame and division and roundtrip and total
}

module machine256 {
  import machine(MW = 256).* from "./machine"
}
