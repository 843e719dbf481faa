// Shared by the checks: build, known findings, verdict, replay and evidence.
'use strict'
const fs = require('fs'), path = require('path')
const { spawn, spawnSync } = require('child_process')
const ROOT = path.resolve(__dirname, '..')
const WORK = process.env.VERIF_WORK || path.join(ROOT, '.work')
const SEED = parseInt(process.env.VERIF_SEED || '1', 10) || 0
const TIER = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick'

function build(bins, quiet) {
  const r = spawnSync('bash', [path.join(ROOT, 'tools/build.sh'), ...bins], { encoding: 'utf8', maxBuffer: 1 << 26 })
  if (r.status !== 0 && !quiet) { process.stderr.write(r.stderr.slice(-6000)); console.log('ERROR: the executors do not build against /repo'); process.exit(2) }
  return r.status === 0
}

// The same without blocking, so that other work can go on meanwhile.
function buildAsync(bins, kind) {
  return new Promise(res => {
    const p = spawn('bash', [path.join(ROOT, 'tools/build.sh'), ...bins], { stdio: ['ignore', 'ignore', 'pipe'], env: Object.assign({}, process.env, { VERIF_BUILDS: kind || '' }) })
    let err = ''
    p.stderr.setEncoding('utf8')
    p.stderr.on('data', d => { err = (err + d).slice(-8000) })
    p.on('close', c => {
      if (c !== 0) { process.stderr.write(err); console.log('ERROR: the executors do not build against /repo'); process.exit(2) }
      res()
    })
  })
}

// known-findings.txt: `property=<id> family=<f> entry=<e> request=<...>` lines
// (fixed: lines are a record only and suppress nothing).
function known() {
  const out = []
  let text = ''
  try { text = fs.readFileSync(path.join(ROOT, 'known-findings.txt'), 'utf8') } catch (e) { return out }
  for (const l of text.split('\n')) {
    const m = l.match(/^known: property=(\S+) entry=(\S+) request="([^"]*)" (.*)$/)
    if (m) out.push({ property: m[1], entry: m[2], request: m[3], what: m[4] })
  }
  return out
}

function verdict(id, bads, evidence, t0) {
  const k = known().filter(f => f.property === id)
  const isKnown = b => k.some(f => f.request === b.request && (f.entry === b.entry || b.entry.startsWith(f.entry + '.')))
  const fresh = bads.filter(b => !isKnown(b))
  for (const f of k) console.log(`KNOWN-FINDING: property=${id} ${f.what}`)
  evidence.violations = fresh.length
  evidence.wall_s = Math.round((Date.now() - t0) / 100) / 10
  fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true })
  fs.writeFileSync(path.join(ROOT, 'evidence', id + '.json'), JSON.stringify(evidence, null, 1) + '\n')
  if (!fresh.length) return 0
  const dir = path.join(ROOT, 'evidence', 'replay')
  fs.mkdirSync(dir, { recursive: true })
  const f = path.join(dir, id + '.json')
  const big = (key, v) => (typeof v === 'bigint' ? '#' + v : v)
  fs.writeFileSync(f, JSON.stringify({ property: id, replay: `node driver/replay.js ${f}`, violations: fresh.slice(0, 100) }, big, 1) + '\n')
  const seen = new Set()
  for (const b of fresh) {
    const key = b.family + b.entry + b.config
    if (seen.has(key) || seen.size >= 12) continue
    seen.add(key)
    console.log(`  ${b.config} ${b.entry}: expected ${String(b.expected).slice(0, 200)}, got ${String(b.got).slice(0, 200)}; request: ${b.request.slice(0, 300)}`)
  }
  console.log(`VIOLATION property=${id} replay=${f}`)
  return 1
}
module.exports = { ROOT, WORK, SEED, TIER, build, buildAsync, verdict }
