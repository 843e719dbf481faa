// Laws of the byte forms of serde.qnt that need more than one byte: 16 bits.
module laws_bytes {
  import num.* from "./num"
  import api(W = 16).* from "./api"
  import serde(SW = 16).* from "./serde"

  // 16-bit values: the compressed form extends back to the value, and nothing
  // shorter does.
  pure def lawCompressed(a: int, b: int): bool = Set(false, true).forall(s => {
    val u = a * 256 + b
    val x = if (s and u >= 32768) u - 65536 else u
    val le = compLE(s, x)
    val n = le.length()
    and {
      extend(s, reverse(le)) == x,
      n == 0 or extend(s, reverse(le.slice(0, n - 1))) != x,
      n == minBytes(s, x),
      fDeBytes(s, le)[3]._2 == OI(x),
      fDeBytes(s, reverse(le))[4]._2 == OI(x)
    }
  })
}
