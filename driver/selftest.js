// Plants errors in the specification and looks who notices: the cases of the
// conformance plans (the outcome expected at 256 bits changes on one of them, so
// the unchanged code would be reported) or the laws. An error that nothing
// notices is a part of the specification that decides nothing.
//   node driver/selftest.js [mutants per module | all] [modules...]
'use strict'
const fs = require('fs'), path = require('path'), os = require('os'), { fork } = require('child_process')
const OPS = [
  [/ \+ /, [' - ']], [/ - /, [' + ']], [/ \* /, [' + ']], [/ \/ /, [' * ']], [/ % /, [' / ']],
  [/ < /, [' <= ', ' >= ']], [/ <= /, [' < ']], [/ > /, [' >= ', ' < ']], [/ >= /, [' > ']], [/ == /, [' != ']], [/ != /, [' == ']],
  [/ and /, [' or ']], [/ or /, [' and ']], [/\btrue\b/, ['false']], [/\bfalse\b/, ['true']], [/\bnot\(/, ['(']],
  [/\bmin2\(/, ['max2(']], [/\bmax2\(/, ['min2(']], [/\blo\(s\)/, ['hi(s)']], [/\bhi\(s\)/, ['lo(s)']],
  [/\btdiv\(/, ['ediv(']], [/\btrem\(/, ['erem(']], [/\bediv\(/, ['tdiv(']], [/\berem\(/, ['trem(']], [/\basU\(/, ['asS(']], [/\basS\(/, ['asU(']],
  [/\bfdiv\(/, ['tdiv(']], [/\bfmod\(/, ['trem(']], [/\bchecked\(/, ['wrapping(']], [/\bsaturating\(/, ['wrapping(']], [/\boperator\(/, ['wrapping(']],
  [/\boverflowing\(s, /, ['overflowing(not(s), ']], [/\breverse\(/, ['(']], [/\babs\(/, ['(']], [/\bON\b/, ['OP']], [/\bOP\b/, ['ON']], [/\bOD\(/, ['OI(']], [/\bOErr\b/, ['ON']],
  [/\bW\b/, ['(W - 1)']], [/\bM\b/, ['HALF']], [/\bHALF\b/, ['M']],
]
function mutants(file) {
  const lines = fs.readFileSync(file, 'utf8').split('\n'), out = []
  lines.forEach((l, i) => {
    if (/^\s*(\/\/|import|module|const|type|\|)/.test(l) || /pure def \w+\([^)]*\): [^=]*=\s*$/.test(l)) return
    const head = l.match(/^\s*pure (def \w+\(.*?\)|val \w+): [^=]*=(?!=)/)
    const from = head ? head[0].length : 0
    const code = l.split('//')[0], seen = new Set()
    const add = n => { if (n !== l && !seen.has(n)) { seen.add(n); out.push([i, l, n]) } }
    for (const [rx, reps] of OPS) for (const m of code.matchAll(new RegExp(rx, 'g'))) if (m.index >= from - 1) for (const r of reps) add(code.slice(0, m.index) + r + code.slice(m.index + m[0].length))
    for (const m of code.matchAll(/(?<![\w.])(\d+)\b/g)) if (m.index >= from) for (const d of [1, -1]) { const v = +m[1] + d; if (v >= 0) add(code.slice(0, m.index) + v + code.slice(m.index + m[0].length)) }
    for (const m of code.matchAll(/\bif \(/g)) { // a condition replaced
      let d = 0, j = m.index + 3
      for (; j < code.length; j++) { if (code[j] === '(') d++; else if (code[j] === ')' && --d === 0) break }
      if (j < code.length) for (const b of ['true', 'false']) add(code.slice(0, m.index + 4) + b + code.slice(j))
    }
  })
  return out
}
const MODS = {
  num: 'arith ops conv intr text ser', api: 'arith ops conv intr', text: 'text', serde: 'ser',
  limbs: '', buffers: '',
}
function plans(bins, cap) {
  const G = require('./gen.js'), RNG = require('./rng.js'), FA = require('./fams.js')
  G.setDict('/repo/src')
  const by = new Map(), seen = new Set()
  for (const id of Object.keys(G.PLANS)) {
    if (!G.PLANS[id].fams.some(f => bins.includes(FA.F[f].bin))) continue
    let n = 0
    for (const [f, a] of G.cases(id, 0, 8, RNG.make('selftest/' + id), 100000)) {
      if (!bins.includes(FA.F[f].bin)) continue
      if (++n > cap) break
      const k = f + JSON.stringify(a, (x, v) => typeof v === 'bigint' ? String(v) : v)
      if (!seen.has(k)) { seen.add(k); if (!by.has(f)) by.set(f, []); by.get(f).push(a) }
    }
  }
  return by
}
function tokens(by, stop) {
  const S = require('./spec.js'), FA = require('./fams.js')
  const names = [...by.keys()]
  if (!names.length) return null
  const spec = S.load(FA.driverModule(names)), out = new Map()
  // a slice of every family in turn, so that a change is found early
  for (const f of names) out.set(f, [])
  for (let k = 0, live = true; live;) {
    live = false
    for (const f of names) {
      const l = by.get(f), end = Math.min(l.length, k + 20)
      for (let i = k; i < end; i++) {
        live = true
        let t
        // the doubles of the exponent notations reach the code with the request
        const more = f === 'Exp' ? FA.F[f].req(l[i], spec) : ''
        try { t = S.entries(spec.call('D_' + f, FA.specArgs(FA.F[f], l[i]))).join(';') + more } catch (e) { t = 'error' }
        out.get(f).push(t)
        if (stop && stop.get(f)[i] !== t) return f + ' case ' + i
      }
    }
    k += 20
  }
  return stop ? null : out
}
const hashAll = m => new Map([...m].map(([f, l]) => [f, l]))

if (process.argv[2] === '--worker') {
  process.once('message', job => {
    const base = new Map()
    process.on('message', m => {
      const dir = process.env.SPEC_DIR
      const file = path.join(dir, m.mod + '.qnt'), orig = fs.readFileSync(path.join(job.spec, m.mod + '.qnt'), 'utf8')
      const lines = orig.split('\n'); lines[m.mut[0]] = m.mut[2]
      fs.writeFileSync(file, lines.join('\n'))
      let r
      try {
        const bins = MODS[m.mod].split(' ').filter(x => x)
        // a few cases of every plan, then more
        let hit = null
        for (const cap of bins.length ? [1500, 15000] : []) {
          const k = m.mod + cap
          if (!base.has(k)) {
            const by = plans(bins, cap)
            fs.writeFileSync(file, orig)
            base.set(k, { by, want: tokens(by) })
            fs.writeFileSync(file, lines.join('\n'))
          }
          if (hit = tokens(base.get(k).by, base.get(k).want)) break
        }
        if (hit) r = 'conformance: ' + hit
        else {
          const MO = require('./model.js')
          let names = Object.values(MO.BY).flat().filter((x, i, l) => l.indexOf(x) === i)
          if (m.mod === 'limbs') names = names.filter(n => n.startsWith('limb'))
          if (m.mod === 'buffers') names = ['limbFormatBuffer', 'limbSequence', 'lawSizes', 'limbSerBuf', 'limbDecimal256', 'limbDecimal16', 'limbRadix16', 'limbRadix256']
          const sweep = step => {
            for (const n of names) {
              let o
              try { o = MO.run([n], 0, 1, step(n), 1)[n] } catch (e) { if (!/^spec:/.test(e.message)) throw e; o = { failures: ['error'] } }
              if (o.failures.length) { r = 'law ' + n; return }
            }
          }
          sweep(n => m.mod === 'buffers' ? (n.includes('16') ? 97 : 41) : 8)
          // limbs.qnt is decided by the laws alone: every point of those
          if (!r && m.mod === 'limbs') sweep(() => 1)
        }
      } catch (e) { r = (/^spec:/.test(e.message) ? 'refused: ' : 'BROKEN: ') + String(e.message).slice(0, 80) }
      fs.writeFileSync(file, orig)
      process.send(r || 'SURVIVED')
    })
    process.send('ready')
  })
} else {
  const quota = process.argv[2] === undefined ? 60 : process.argv[2] === 'all' ? 1e9 : +process.argv[2]
  const RNG = require('./rng.js'), r = RNG.make('selftest/' + (process.env.VERIF_SEED || 1))
  const spec = path.resolve(__dirname, '../spec')
  const queue = []
  const mods = process.argv.length > 3 ? process.argv.slice(3) : Object.keys(MODS)
  for (const mod of mods) {
    let l = mutants(path.join(spec, mod + '.qnt'))
    for (let i = l.length - 1; i > 0; i--) { const j = r.int(i + 1); [l[i], l[j]] = [l[j], l[i]] }
    for (const mut of l.slice(0, quota)) queue.push({ mod, mut })
  }
  const count = {}, tmp = fs.mkdtempSync(path.join(os.tmpdir(), 'selftest-'))
  const total = queue.length
  let live = 0
  for (let w = 0; w < (+process.env.WORKERS || 8); w++) {
    const dir = path.join(tmp, String(w)); fs.cpSync(spec, dir, { recursive: true })
    const start = () => {
      let cur = null, timer
      const p = fork(__filename, ['--worker'], { serialization: 'advanced', execArgv: ['--stack-size=4000', '--max-old-space-size=3000'], env: Object.assign({}, process.env, { SPEC_DIR: dir }) })
      const done = res => {
        const k = cur.mod + ' ' + res.split(/[: ]/)[0]
        count[k] = (count[k] || 0) + 1
        if (/SURVIVED|BROKEN|timeout/.test(res)) console.log(`${res} ${cur.mod}.qnt:${cur.mut[0] + 1} | ${cur.mut[1].trim()} => ${cur.mut[2].trim()}`)
      }
      p.on('message', m => {
        clearTimeout(timer)
        if (m !== 'ready') { done(m); cur = null }
        cur = queue.pop()
        if (!cur) { p.disconnect(); return }
        timer = setTimeout(() => p.kill('SIGKILL'), 600000)
        p.send(cur)
      })
      p.on('exit', () => { clearTimeout(timer); if (cur) { done('timeout or crash'); fs.cpSync(spec, dir, { recursive: true }); cur = null; start() } else if (--live === 0) { fs.rmSync(tmp, { recursive: true }); console.log(total, 'errors planted:', JSON.stringify(count)) } })
      p.send({ spec })
    }
    live++; start()
  }
}
