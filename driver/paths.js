// Operand pairs for every route through the two-word algorithms.
//
// limbs.qnt at LH = 128 maps an operand pair to the branches it takes. This
// program searches for pairs of every route: small-scope witnesses (exhaustive
// at 8 bits, where each digit has two bits) lifted to 64-bit digits, and
// structured random pairs. The result, driver/paths.json, is committed: a
// conformance run replays all of it and needs no search of its own.
//   node driver/paths.js [seconds] [pairs per route]
'use strict'
const fs = require('fs'), path = require('path'), { fork } = require('child_process')
const FILE = path.join(__dirname, 'paths.json')
const ROUTES = {
  div: 'if (b == 0) [] else udivmod(a, b).p',
  mul: 'umulc(a, b).p',
  imul: 'imulc(a, b).p',
  add: 'uaddc(a, b).p', iadd: 'iaddc(a, b).p',
  sub: 'usubc(a, b).p', isub: 'isubc(a, b).p',
}
function module_(lh) {
  const defs = Object.entries(ROUTES).map(([n, e]) => `  pure def R_${n}(a: int, b: int): List[int] = ${e}`)
  return `module drv {\n  import limbs(LH = ${lh}).* from "./limbs"\n${defs.join('\n')}\n}`
}
const LIFT = [[0n], [1n, (1n << 63n) - 1n], [1n << 63n, (1n << 64n) - 2n], [(1n << 64n) - 1n]]
function lift(r, x) { // x: four 2-bit digits
  let v = 0n
  for (let i = 3; i >= 0; i--) v = (v << 64n) | r.pick(LIFT[(x >> (2 * i)) & 3])
  return v
}

function search({ worker, workers, seconds, keep, seed }) {
  const S = require('./spec.js'), G = require('./gen.js'), RNG = require('./rng.js')
  const r = RNG.make('paths/' + seed + '/' + worker)
  const big = S.load(module_(128)), small = S.load(module_(4))
  const route = (sp, n, a, b) => S.js(sp.call('R_' + n, [S.int(a), S.int(b)])).join('')
  const found = {}, seen = {}
  for (const n in ROUTES) { found[n] = {}; seen[n] = 0 }
  const offer = (n, a, b) => {
    seen[n]++
    const p = route(big, n, a, b), l = found[n][p] || (found[n][p] = [])
    if (l.length < keep) l.push([a.toString(16), b.toString(16)])
  }
  // small-scope witnesses by route, the rare ones most often
  const wit = {}
  for (const n in ROUTES) {
    const by = {}
    for (let a = worker; a < 256; a += workers) for (let b = n === 'div' ? 1 : 0; b < 256; b++) {
      const p = route(small, n, BigInt(a), BigInt(b))
      ;(by[p] || (by[p] = [])).push([a, b])
    }
    wit[n] = Object.values(by)
  }
  const end = Date.now() + seconds * 1000
  while (Date.now() < end) for (const n in ROUTES) {
    const tries = n === 'div' ? 12 : 1
    for (let k = 0; k < tries; k++) {
      if (r.chance(0.5)) {
        const [x, y] = r.pick(r.pick(wit[n]))
        const sh = BigInt(n === 'div' && r.chance(0.3) ? r.int(64) : 0)
        const a = lift(r, x), b = lift(r, y) >> sh
        if (b !== 0n || n !== 'div') offer(n, a, b)
      } else if (n === 'div') {
        const [a, b] = G.division(r)
        offer(n, a, b)
      } else { const a = G.word(r); offer(n, a, G.partner(r, a)) }
    }
  }
  return { found, seen }
}

if (require.main === module) {
  if (process.argv[2] === '--worker') process.once('message', j => process.send(search(j), () => process.exit(0)))
  else {
    const seconds = +(process.argv[2] || 120), keep = +(process.argv[3] || 10), workers = 8
    Promise.all(Array.from({ length: workers }, (_, worker) => new Promise((res, rej) => {
      const p = fork(__filename, ['--worker'], { execArgv: ['--stack-size=4000'] })
      let got
      p.on('message', m => { got = m })
      p.on('exit', c => (got ? res(got) : rej(new Error('ended with ' + c))))
      p.send({ worker, workers, seconds, keep, seed: 1 })
    }))).then(outs => {
      const all = {}
      for (const n in ROUTES) {
        const m = {}
        // round robin over the workers, so that both sources are represented
        for (const o of outs) for (const p in o.found[n]) {
          const l = m[p] || (m[p] = [])
          for (const x of o.found[n][p]) l.push(x)
        }
        for (const p in m) { const l = m[p], step = Math.max(1, Math.floor(l.length / keep)); m[p] = l.filter((_, i) => i % step === 0).slice(0, keep) }
        all[n] = Object.fromEntries(Object.keys(m).sort().map(p => [p, m[p]]))
        console.log(n, Object.keys(m).length, 'routes', Object.values(m).reduce((t, l) => t + l.length, 0), 'pairs of', outs.reduce((t, o) => t + o.seen[n], 0))
      }
      fs.writeFileSync(FILE, JSON.stringify(all, null, 0).replace(/"([0-9]+)":\[\[/g, '\n"$1":[[') + '\n')
    })
  }
} else {
  let cache
  module.exports = {
    // [[a, b]] as bit patterns, and the number of routes they cover
    pairs(names) {
      cache = cache || JSON.parse(fs.readFileSync(FILE, 'utf8'))
      return names.flatMap(n => Object.values(cache[n]).flat().map(([a, b]) => [BigInt('0x' + a), BigInt('0x' + b)]))
    },
    routes(names) {
      cache = cache || JSON.parse(fs.readFileSync(FILE, 'utf8'))
      return Object.fromEntries(names.map(n => [n, Object.keys(cache[n]).length]))
    },
  }
}
