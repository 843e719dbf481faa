#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays diffable)."""
import json, os
P = []
def p(id, title, st, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files,
             mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

CFG = "in every build (native and LLVM intrinsics, debug and release)"

p("C01", "Wrapping arithmetic is exact integer arithmetic modulo 2^256",
  "For all 256-bit operands, wrapping addition, subtraction, multiplication and negation of U256 and I256 (including the mixed-sign add/sub variants) return the exact mathematical result reduced into the type's range modulo 2^256. They never panic, in any build.",
  ["inputs", "configurations"], "all pairs of 256-bit operands, both signednesses, " + CFG,
  "2^512 operand pairs; the tests fix a few dozen pairs, few of which propagate carries across the 64- and 128-bit word boundaries or exercise the top partial products.",
  ["src/intrinsics/native/add.rs", "src/intrinsics/native/sub.rs", "src/intrinsics/native/mul.rs", "src/int/api.rs", "src/uint/api.rs", "intrinsics/build/intrinsics.rs"],
  [("two-word add/sub with carry, four-word multiply", "src/intrinsics/native/{add,sub,mul}.rs"), ("generated LLVM IR", "intrinsics/build")],
  ["U256/I256::wrapping_{add,sub,mul,neg}", "wrapping_add_signed, wrapping_{add,sub}_unsigned"])

p("C02", "Overflow is detected exactly; checked and saturating results follow",
  "For addition, subtraction, multiplication, negation, absolute value and the mixed-sign variants, the overflowing form returns the wrapped result together with a flag that is true exactly when the mathematical result is outside the type's range. The checked form is None exactly when that flag is true and the exact result otherwise, and the saturating form is the mathematical result clamped to the type's range.",
  ["inputs", "configurations"], "all pairs of 256-bit operands, both signednesses, " + CFG,
  "The flag depends on the highest carry or partial product of a 512-bit result; the tests check it at MIN, MAX and a few sums only.",
  ["src/intrinsics/native/add.rs", "src/intrinsics/native/sub.rs", "src/intrinsics/native/mul.rs", "src/int/api.rs", "src/uint/api.rs"],
  [("carry/overflow-reporting intrinsics uaddc, iaddc, usubc, isubc, umulc, imulc", "src/intrinsics"), ("checked_*/saturating_* built on them", "src/{int,uint}/api.rs")],
  ["overflowing_*, checked_*, saturating_* for add, sub, mul, neg, abs and the signed/unsigned mixes"])

p("C03", "Operators agree with the named methods in every operand form and build",
  "The operators + - * / % & | ^ ! and unary - give the same mathematical result for every combination of owned, borrowed and 128-bit primitive operands and for the in-place assignment forms. With debug assertions + - * and negation panic exactly when the exact result does not fit, without them they wrap modulo 2^256. Division and remainder panic in every build exactly when the divisor is zero or the signed quotient overflows (MIN / -1).",
  ["inputs", "configurations"], "all operands, all operand forms (value, reference, u128/i128, reference to u128/i128, assignment), " + CFG,
  "The tests assert that the operator trait implementations exist; they do not evaluate each form, and hardly any runs in release mode where a different in-place code path is taken.",
  ["src/macros/ops.rs", "src/int/ops.rs", "src/uint/ops.rs", "src/intrinsics/native/divmod.rs"],
  [("operator macros with separate debug and release bodies", "src/macros/ops.rs")],
  ["core::ops traits on U256, I256, u128, i128 and references"])

p("C04", "Truncated division and remainder satisfy the division law",
  "For every dividend n and non-zero divisor d, div and rem in all their forms (plain, wrapping, overflowing, checked, saturating, and the combined div_rem functions) return q and r with n = q*d + r, |r| < |d| and r zero or of the sign of n. Division by zero panics or yields None in the checked forms, and the signed overflow MIN / -1 panics, wraps to (MIN, 0), sets the overflow flag, yields None or saturates to MAX according to the form.",
  ["inputs", "configurations"], "all dividend/divisor pairs, both signednesses, " + CFG,
  "Quotient-digit estimation has correction and add-back steps that need particular 64- and 128-bit digit patterns (probability about 2^-64 on random operands); the tests hit fixed pairs.",
  ["src/intrinsics/native/divmod.rs", "src/uint.rs", "src/int.rs", "src/uint/api.rs", "src/int/api.rs"],
  [("schoolbook division with 128-bit digits over a 128/64 division", "src/intrinsics/native/divmod.rs"), ("sign handling", "src/intrinsics/native/divmod.rs idivmod4")],
  ["div/rem methods and operators, div_rem, wrapping_/overflowing_/checked_/saturating_div_rem"])

p("C05", "Euclidean division returns the unique non-negative remainder",
  "For every n and non-zero d, div_euclid, rem_euclid and div_rem_euclid in all their forms (plain, wrapping, overflowing, checked, saturating) return the unique q and r with n = q*d + r and 0 <= r < |d|. Only division by zero panics or is None, and only MIN / -1 overflows (panic, None, flag, wrapped (MIN, 0) or saturated MAX, according to the form), in every build.",
  ["inputs", "configurations"], "all dividend/divisor pairs including MIN as divisor, both signednesses, " + CFG,
  "The adjustment depends on both signs, on divisibility and on |MIN| not being representable; the tests use 7/4-like examples.",
  ["src/int.rs", "src/int/api.rs", "src/uint.rs", "src/uint/api.rs"],
  [("sign adjustment of the truncated result", "src/int/api.rs div_euclid/rem_euclid"), ("adjustment on absolute values", "src/int.rs wrapping_div_rem_euclid")],
  ["*_euclid methods"])

p("C06", "Shifts and rotates move exactly the requested number of bits",
  "For every value and amount below 256, << multiplies by 2^n modulo 2^256, >> divides by 2^n rounding towards minus infinity (sign-extending for I256), and rotations permute bits cyclically. For larger or negative amounts the wrapping and overflowing forms and release-build operators use the amount modulo 256, checked forms return None and debug-build operators panic; rotations always use the amount modulo 256. This holds for every integer type of the shift amount, by value or by reference, including in-place shifts.",
  ["inputs", "configurations"], "all values, all u32 amounts, all amounts of every primitive integer type and U256/I256, " + CFG,
  "The tests sample a few amounts; the behaviour at 0, 127, 128, 129, 255, above 255 and for wide or negative amount types differs by code path and build.",
  ["src/macros/ops.rs", "src/intrinsics/native/shl.rs", "src/intrinsics/native/shr.rs", "src/intrinsics/native/rot.rs", "src/int/api.rs", "src/uint/api.rs"],
  [("two-word shift with case split at 128", "src/intrinsics/native/{shl,shr}.rs"), ("conversion of the amount", "src/macros/ops.rs")],
  ["<<, >>, <<=, >>=, {wrapping,overflowing,checked}_{shl,shr}, rotate_{left,right}"])

p("C07", "Bit counting, byte swapping and bit reversal match the binary expansion",
  "For every value, count/leading/trailing ones and zeros, swap_bytes, reverse_bits and the endianness conversions to_be/to_le/from_be/from_le agree with the 256-bit two's complement expansion of the value. Zero and all-ones give 256 where a count covers the whole width, and swapping or reversing twice is the identity.",
  ["inputs", "configurations"], "all values, both signednesses, " + CFG,
  "A count that is wrong only when one 128-bit word is all zeros or all ones is missed by sampled values; the LLVM backend computes the counts differently.",
  ["src/intrinsics/native/ctz.rs", "src/uint/api.rs", "src/int/api.rs"],
  [("word selection by mask", "src/intrinsics/native/ctz.rs"), ("word swap plus per-word operation", "src/{int,uint}/api.rs")],
  ["count_*, leading_*, trailing_*, swap_bytes, reverse_bits, to_be, to_le, from_be, from_le"])

p("C08", "Exponentiation is repeated multiplication with exact overflow detection",
  "For every base and exponent, wrapping_pow returns base^exp modulo 2^256 in the type's range, overflowing_pow adds a flag that is true exactly when the mathematical power is outside the range, checked_pow is None exactly then, and saturating_pow clamps the mathematical power to the range. The plain pow panics exactly on overflow with debug assertions and wraps without; exponent 0 gives 1 for every base.",
  ["inputs", "configurations"], "all bases and u32 exponents, both signednesses, " + CFG,
  "Square-and-multiply may overflow in an intermediate or only in the last step; the tests use small powers.",
  ["src/uint/api.rs", "src/int/api.rs"], [("square-and-multiply loops", "src/{int,uint}/api.rs")],
  ["pow, wrapping_pow, overflowing_pow, checked_pow, saturating_pow"])

p("C09", "Equality, ordering and hashing follow the numeric value",
  "Equality, partial and total ordering (and the derived min, max, clamp and comparison operators) of two values equal those of the integers they denote, also when one side is a u128 or i128 primitive on either side. Equal values hash equally, and a value's hash depends on all of its bits.",
  ["inputs", "configurations"], "all pairs of values and of value and primitive, both signednesses, " + CFG,
  "Ordering of two-word signed values depends on the sign of the high and the unsignedness of the low word; the tests compare four or five pairs.",
  ["src/macros/cmp.rs", "src/int/cmp.rs", "src/uint/cmp.rs"], [("lexicographic comparison of words", "src/{int,uint}/cmp.rs")],
  ["PartialEq, PartialOrd, Ord, Hash"])

p("C10", "Integer conversions preserve the value or report that it does not fit",
  "as-conversions between the 256-bit types and every primitive integer type (and bool) truncate or sign-extend the two's complement representation, From conversions preserve the value, and TryFrom conversions succeed with the same value exactly when it fits the target and otherwise return an error.",
  ["inputs", "configurations"], "all values of all source types, all target types, " + CFG,
  "There are over a hundred source/target pairs, with limits at every power of two; tests check a handful.",
  ["src/int/convert.rs", "src/uint/convert.rs", "src/int.rs", "src/uint.rs"],
  [("conversion macros", "src/{int,uint}/convert.rs")],
  ["as_* methods, AsU256, AsI256, From, TryFrom in both directions"])

p("C11", "Float conversions are correctly rounded out and truncating, saturating in",
  "Casting a 256-bit integer to f32 or f64 yields the nearest representable float with ties to even (and infinity where the rounded value exceeds the format). Casting a float to a 256-bit integer truncates toward zero, saturates at the type's bounds (also for infinities) and maps NaN to zero.",
  ["inputs", "configurations"], "all 256-bit values and all f32/f64 bit patterns, " + CFG,
  "Rounding depends on sticky bits up to 230 positions below the kept ones, saturation on exact exponents; the tests check single values.",
  ["src/int/convert.rs", "src/uint/convert.rs", "src/int.rs", "src/uint.rs"],
  [("exponent/mantissa decoding", "src/{int,uint}/convert.rs"), ("as_f32/as_f64", "src/{int,uint}.rs")],
  ["as_f32, as_f64, TryFrom-free From, f32/f64::as_u256, as_i256"])

p("C12", "Byte and word views are the two's complement representation",
  "to_be_bytes, to_le_bytes and to_ne_bytes give the 32 bytes of the value's two's complement representation in the named order, and the corresponding from functions are their inverses. from_words, into_words, new, low, high and the mutable word accessors read and write exactly the high and low 128-bit halves, leaving the other half untouched.",
  ["inputs", "configurations"], "all values and all 32-byte arrays, both signednesses, " + CFG,
  "2^256 values; the tests convert one constant per function.",
  ["src/int.rs", "src/uint.rs", "src/int/api.rs", "src/uint/api.rs"], [("word layout by target endianness", "src/{int,uint}.rs")],
  ["*_bytes, from_words, into_words, new, low(_mut), high(_mut)"])

p("C13", "Parsing accepts exactly the denoted in-range numerals and names the error",
  "from_str_radix, FromStr, from_str_hex and from_str_prefixed return the value denoted by a string consisting of an optional sign (minus only for I256), the prefix required by the function and one or more digits of the radix, whenever that value is in range, and an error for every other string. For from_str_radix, FromStr and from_str_hex the error kind distinguishes empty input, an invalid digit and positive or negative overflow, as for primitive integers; a radix outside 2..=36 panics.",
  ["inputs", "configurations"], "all strings and radices, both signednesses, " + CFG,
  "Strings around the overflow limits differ per radix and length, and parsing switches between an unchecked and a checked loop by length; tests contain a few literals.",
  ["src/parse.rs", "src/macros/parse.rs", "src/int/parse.rs", "src/uint/parse.rs"],
  [("generic radix parser with unchecked fast path", "src/parse.rs")],
  ["from_str_radix, FromStr::from_str, from_str_hex, from_str_prefixed"])

p("C14", "Compile-time literals denote their value or fail to compile",
  "int! and uint! evaluate a literal (optional sign for int!, optional 0b/0o/0x prefix, digits with underscores and ASCII whitespace ignored) to exactly the integer it denotes for every in-range literal. Literals that are out of range, empty or contain an invalid digit are rejected.",
  ["inputs", "configurations"], "all literal strings, both signednesses, " + CFG,
  "The constant evaluator has its own multiply-and-add with overflow checks that a few literals cannot cover.",
  ["src/parse.rs", "src/int/parse.rs", "src/uint/parse.rs", "src/lib.rs"],
  [("const multiply/add with overflow checks", "src/parse.rs const_from_str_prefixed")],
  ["int!, uint! (and the const function behind them)"])

p("C15", "Formatting renders the exact value under every format specification",
  "Display and Debug print the decimal value, and Binary, Octal, LowerHex and UpperHex the two's complement digits without leading zeros (or, with the '-' flag, sign and magnitude for negative I256), honouring width, fill, alignment, +, # and 0 exactly as primitive integers do. Debug with the x?/X? flags prints hexadecimal, and LowerExp/UpperExp print exactly what the value cast to f64 prints. A writer that fails receives the beginning of this text and its failure is reported.",
  ["inputs", "configurations"], "all values and format specifications, both signednesses, " + CFG,
  "Decimal conversion works in 4-digit chunks and fixed buffers; errors appear only for values with particular digit blocks or maximal lengths.",
  ["src/fmt.rs", "src/macros/fmt.rs", "src/int/fmt.rs", "src/uint/fmt.rs"],
  [("chunked decimal conversion", "src/fmt.rs fmt_u256"), ("generic radix conversion", "src/fmt.rs GenericRadix")],
  ["format!() with {}, {:?}, {:b}, {:o}, {:x}, {:X}, {:e}, {:E} and flags"])

p("C16", "Serde text forms encode canonically and decode exactly what they denote",
  "Serializing gives '0x'-prefixed minimal lower-case hexadecimal with a leading '-' for negative values (default, prefixed and permissive forms) or plain decimal (decimal form), for every value. Deserializing each form returns the denoted value and rejects malformed or out-of-range text; the permissive form also accepts exactly the integral numbers representable in the target type (floats only in their exact-integer range), and rejects negative numbers for U256. Decoding what a form encoded returns the original value.",
  ["inputs", "configurations"], "all values, all input strings and self-describing numbers, both signednesses, " + CFG,
  "Fixed-size buffers and sign handling fail only at extreme lengths; number visitors have per-type ranges; the tests pick few values.",
  ["src/serde.rs"], [("fixed format buffers", "src/serde.rs FormatBuffer"), ("visitors", "src/serde.rs decimal, prefixed, permissive")],
  ["Serialize/Deserialize impls, ethnum::serde::{decimal,prefixed,permissive}"])

p("C17", "Serde byte forms are exact, minimal where compressed, and round-trip",
  "The bytes forms encode exactly the 32 two's complement bytes in the named order and decode only inputs of exactly 32 bytes. The compressed forms encode the shortest byte string (in the named order, empty for zero) whose zero- or sign-extension is the value, decode every input of at most 32 bytes to its zero-extension (U256) or sign-extension from its most significant byte (I256), and reject longer ones. Decoding what a form encoded returns the original value, whether the input arrives as bytes or as a sequence with or without a length hint.",
  ["inputs", "configurations"], "all values, all byte strings of length 0..=33+, byte and sequence inputs, both signednesses, " + CFG,
  "Sign-extension errors need values whose top byte has its high bit set next to a byte boundary; the tests use a few constants.",
  ["src/serde.rs"], [("leading bit count and extension byte", "src/serde.rs compressed_bytes"), ("byte and sequence visitors", "src/serde.rs bytes")],
  ["ethnum::serde::bytes::{le,be,ne}, compressed_bytes::{le,be,ne}"])

p("C18", "Native and LLVM backends and all build profiles are observably identical",
  "For every operation and input, the crate built with its native Rust implementation and the crate built with the generated LLVM intrinsics return the same results, flags and panics. Debug and release builds differ only where an operator is documented to panic on overflow with debug assertions and to wrap without.",
  ["inputs", "configurations"], "all operations and operands across the four builds",
  "The tests of each build are run separately against fixed expectations; nothing compares builds on the same inputs beyond them.",
  ["src/intrinsics/llvm.rs", "src/intrinsics/native.rs", "intrinsics/build/intrinsics.rs", "intrinsics/build/main.rs", "intrinsics/src/lib.rs", "src/macros/ops.rs"],
  [("LLVM IR template rewritten from i128 to i256", "intrinsics/build/main.rs"), ("bindings", "src/intrinsics/llvm.rs")],
  ["all public functions, in the four builds"])

p("C19", "Every history of operations on variables follows the register-machine model",
  "Starting from any values, any sequence of method calls, operators, in-place assignments, conversions between U256 and I256, word and byte accesses, and text round trips on a set of variables leaves in every variable exactly the value the mathematical model prescribes, and produces exactly the prescribed flags, Nones and panics at each step. A panicking step leaves every variable unchanged, also the target of an in-place operator.",
  ["histories", "inputs", "configurations"], "all finite sequences of operations over U256 and I256 variables, " + CFG,
  "Tests call each function once on fresh constants; results that feed later operations through in-place forms, casts and aliases are never followed.",
  ["src/macros/ops.rs", "src/int/api.rs", "src/uint/api.rs", "src/intrinsics"],
  [("in-place and out-of-place code paths", "src/macros/ops.rs, src/intrinsics")], ["all public operations"],
  [("u registers", "unsigned 256-bit variables", "U256"), ("s registers", "signed 256-bit variables", "I256")])

p("C20", "Sign, magnitude and power-of-two helpers are exact",
  "For every value, abs, unsigned_abs, wrapping/checked/overflowing/saturating abs and neg, abs_diff, signum, signum128, is_positive and is_negative agree with the mathematical sign and magnitude, with MIN handled as each form documents. is_power_of_two, next_power_of_two and checked_next_power_of_two agree with the set of powers of two (None where the next power is not representable, and for next_power_of_two a panic with debug assertions and 0 without).",
  ["inputs", "configurations"], "all values (pairs for abs_diff), both signednesses, " + CFG,
  "MIN, zero, values with an empty high or low word and powers of two at word boundaries are the interesting cases; the tests use small values.",
  ["src/int/api.rs", "src/uint/api.rs"], [("signum from words", "src/int/api.rs"), ("one_less_than_next_power_of_two", "src/uint/api.rs")],
  ["abs family, signum, is_*, abs_diff, next_power_of_two family"])

p("C21", "Iterator sums and products are folds of the operators",
  "sum and product over any finite iterator of owned or borrowed values equal the mathematical sum and product when every partial result fits (0 and 1 for the empty iterator). Otherwise they panic with debug assertions and give the wrapped result without.",
  ["inputs", "histories", "configurations"], "all finite sequences of values, both signednesses, by value and by reference, " + CFG,
  "The tests fold one small range.",
  ["src/macros/iter.rs", "src/int/iter.rs", "src/uint/iter.rs"], [("fold over operators", "src/macros/iter.rs")],
  ["Iterator::sum, Iterator::product"])

p("C22", "Exported two- and three-operand intrinsics compute the same function",
  "Each exported arithmetic, shift, rotate, count and division intrinsic returns the mathematical result (modulo 2^256, with exact carry or overflow indication where it reports one) and writes its complete result. The in-place two-operand form and the out-of-place three-operand form of the same operation agree for all operands, in both backends.",
  ["inputs", "configurations"], "all operands with defined results (non-zero divisors, shift amounts below 256, any rotation), both backends and profiles",
  "The in-place forms are reached only by release-mode assignment operators; the tests call a few intrinsics on small values.",
  ["src/intrinsics.rs", "src/intrinsics/signed.rs", "src/intrinsics/native.rs", "src/intrinsics/llvm.rs"],
  [("2- and 3-operand implementations", "src/intrinsics/native/*.rs"), ("pointer casts for signed wrappers", "src/intrinsics/signed.rs")],
  ["ethnum::intrinsics::*, ethnum::intrinsics::signed::*"])

p("C23", "Text output parses back to the same value in every radix",
  "For every value, formatting in decimal, binary, octal, lower- or upper-case hexadecimal (with the '-' flag for negative values, with or without the # prefix) and parsing the text with the matching parser (FromStr, from_str_radix, from_str_hex, from_str_prefixed or the literal evaluator) returns the original value.",
  ["inputs", "configurations"], "all values, all supported radix/parser pairs, both signednesses, " + CFG,
  "A formatter and a parser that disagree only on some digit block or at the extremes escape sampled strings.",
  ["src/fmt.rs", "src/parse.rs", "src/macros/fmt.rs"], [("formatter", "src/fmt.rs"), ("parser", "src/parse.rs")],
  ["format!, from_str_radix, FromStr, from_str_hex, from_str_prefixed, const literal evaluator"])

p("C24", "Safe calls never read uninitialised memory or rely on false hints",
  "No sequence of calls to the safe public API reads uninitialised memory, accesses memory out of bounds or reaches a code path the implementation has declared unreachable. This includes the raw buffers used for formatting, serialization and in-place intrinsics.",
  ["inputs", "histories", "configurations"], "all call sequences, all builds",
  "Undefined behaviour is not an observable result a test can assert.",
  ["src/fmt.rs", "src/serde.rs", "src/intrinsics"], [("MaybeUninit buffers and unreachable_unchecked hints", "src/fmt.rs, src/serde.rs, src/intrinsics, src/int.rs")],
  ["all public functions"])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + '\n')
print(len(P))
