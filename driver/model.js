// Model-level obligations: evaluates the laws of the specification on every
// point of their small domains. As a worker module of check.js, or alone:
//   node driver/model.js [all | C01 ...]
'use strict'
const fs = require('fs'), path = require('path'), { fork } = require('child_process')
const S = require('./spec.js')

// name -> [module, arity, domain size]
const LAWS = {}
for (const [mod, file] of [['laws', 'laws.qnt'], ['laws_text', 'laws_text.qnt'], ['laws_mem', 'laws_mem.qnt'], ['laws_bytes', 'laws_bytes.qnt']])
  for (const m of fs.readFileSync(path.join(S.SPEC, file), 'utf8').matchAll(/pure def ((?:limb|law)\w+)\(([^)]*)\)/g))
    LAWS[m[1]] = { mod, arity: m[2].split(',').length, size: /\bi: int/.test(m[2]) ? 50625 : 256 }

const BY = {
  C01: ['limbAdd', 'limbSub', 'limbMul', 'limbWordMul', 'lawAdd', 'lawMul'],
  C02: ['limbAdd', 'limbSub', 'limbMul', 'limbMixed', 'lawForms'],
  C03: ['lawForms', 'lawBitOps', 'lawDiv'],
  C04: ['limbUDiv', 'limbIDiv', 'limbNoAddBack', 'lawDiv'],
  C05: ['limbEuclid', 'lawDiv'],
  C06: ['limbShift', 'lawShift'],
  C07: ['limbBits', 'lawBits'],
  C08: ['limbPow', 'lawPow'],
  C09: ['lawCmp', 'limbMixed'],
  C10: ['lawCast'],
  C11: ['limbFloat', 'lawFloat', 'lawFromFloat'],
  C12: ['lawWords', 'lawBits'],
  C13: ['lawParse', 'lawPrefixed'],
  C14: ['limbLiteral', 'lawLiteral'],
  C15: ['lawRound', 'lawPad'],
  C16: ['lawSerde', 'lawFloatIn', 'lawRound'],
  C17: ['lawSerde', 'lawCompressed'],
  C18: [],
  C20: ['limbBits', 'limbMixed', 'lawPow2'],
  C21: ['lawFold'],
  C22: ['limbAdd', 'limbSub', 'limbMul', 'limbUDiv', 'limbIDiv', 'limbShift', 'limbBits'],
  C23: ['lawRound', 'lawParse'],
  C24: ['limbDecimal16', 'limbRadix16', 'limbDecimal256', 'limbRadix256', 'lawSizes', 'limbSerBuf', 'limbFormatBuffer', 'limbSequence', 'limbNoAddBack'],
}

function driver(names) {
  const mods = [...new Set(names.map(n => LAWS[n].mod))]
  const defs = names.map(n => LAWS[n].arity === 2
    ? `  pure def T_${n}(a: int): Set[int] = 0.to(255).filter(b => not(${n}(a, b)))`
    : `  pure def T_${n}(a: int): Set[int] = if (${n}(a)) Set() else Set(a)`)
  return `module drv {\n${mods.map(m => `  import ${m}.* from "./${m}"`).join('\n')}\n${defs.join('\n')}\n}`
}

// stride > 1 thins the first argument (the second is always exhaustive).
function run(names, worker, workers, stride, offset) {
  const out = {}
  if (!names.length) return out
  // One module at a time: instances of a module at two widths do not mix.
  const specs = new Map()
  for (const n of names) {
    const L = LAWS[n]
    if (!specs.has(L.mod)) specs.set(L.mod, S.load(driver(names.filter(x => LAWS[x].mod === L.mod))))
    const spec = specs.get(L.mod)
    const o = out[n] = { points: 0, failures: [] }
    const step = L.arity === 1 && L.size === 256 ? 1 : stride
    for (let a = offset % step + step * worker; a < L.size; a += step * workers) {
      const bad = S.js(spec.call('T_' + n, [S.int(BigInt(a))]))
      o.points += L.arity === 2 ? 256 : 1
      for (const b of bad) if (o.failures.length < 5) o.failures.push(L.arity === 2 ? [a, Number(b)] : [a])
    }
  }
  return out
}

function check(names, { stride = 1, offset = 0, workers = 8 } = {}) {
  if (!names.length) return Promise.resolve({})
  return Promise.all(Array.from({ length: workers }, (_, worker) => new Promise((res, rej) => {
    const p = fork(__filename, ['--worker'], { execArgv: ['--stack-size=4000'] })
    let got = null
    p.on('message', m => { got = m })
    p.on('exit', c => (got ? res(got) : rej(new Error('model worker ended with ' + c))))
    p.send({ names, worker, workers, stride, offset })
  }))).then(outs => {
    const sum = {}
    for (const n of names) sum[n] = { points: outs.reduce((t, o) => t + o[n].points, 0), failures: outs.flatMap(o => o[n].failures) }
    return sum
  })
}

module.exports = { LAWS, BY, check, run }
if (require.main === module) {
  if (process.argv[2] === '--worker') process.once('message', j => process.send(run(j.names, j.worker, j.workers, j.stride, j.offset), () => process.exit(0)))
  else {
    const ids = process.argv.slice(2)
    const names = !ids.length || ids[0] === 'all' ? Object.keys(LAWS) : [...new Set(ids.flatMap(i => BY[i] || [i]))]
    const t0 = Date.now()
    check(names).then(r => {
      let bad = 0
      for (const n in r) { bad += r[n].failures.length; console.log(n.padEnd(14), r[n].points, r[n].failures.length ? 'FAILS at ' + JSON.stringify(r[n].failures) : 'holds') }
      console.log(((Date.now() - t0) / 1000 | 0) + ' s')
      process.exit(bad ? 1 : 0)
    }, e => { console.error(e); process.exit(2) })
  }
}
