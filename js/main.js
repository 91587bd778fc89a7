// node main.js SPEC: runs the parts of ./SPEC.js with fast-check and writes $VERIF_OUT, as vcommon
// does for the parts written in Rust.
'use strict';
const fs = require('fs');
const path = require('path');
const crypto = require('crypto');
const fc = require('/opt/veriftools/node/node_modules/fast-check');
const host = require('../shim/host.js');

const env = process.env;
const thorough = env.VERIF_TIER === 'thorough';
const scale = Number(env.VERIF_SCALE) || (thorough ? 40 : 3);
const known = JSON.parse(env.VERIF_KNOWN || '[]').map(k => k[0]);
const replay = env.VERIF_REPLAY ? JSON.parse(fs.readFileSync(env.VERIF_REPLAY, 'utf8')) : null;
const curFd = env.VERIF_CUR ? fs.openSync(env.VERIF_CUR, 'w') : -1;
const out = { evaluations: 0, distinct_nontrivial: 0, parts: [], labels: {}, samples: [], violations: [], known_hits: {}, replayed: false };

class Fail extends Error {
  constructor(sig, msg) { super(msg); this.sig = sig; }
}
const fail = (sig, msg) => { throw new Fail(sig, msg); };
const check = (ok, sig, msg) => { if (!ok) fail(sig, typeof msg === 'function' ? msg() : msg); };
const label = l => { out.labels[l] = (out.labels[l] || 0) + 1; };

function finish(code) {
  fs.writeFileSync(env.VERIF_OUT, JSON.stringify(out));
  host.exit(code);
}
function trouble(e) {
  console.error('HARNESS:', e && e.stack || e);
  finish(72);
}
process.on('uncaughtException', trouble);
process.on('unhandledRejection', trouble);

// ---- the isolate under test ----
const iso = {
  call(req) { return JSON.parse(host.call(JSON.stringify(req))); },
  /** A new context (and, now and then, a new isolate) with the runtime's APIs. */
  fresh(prelude) {
    if (this.n === undefined || ++this.n % 200 === 0) {
      this.n = this.n || 0;
      this.call({ op: 'isolate' });
    }
    this.call({ op: 'context' });
    if (prelude) this.eval(prelude);
  },
  /** The string value of the last script; throws what the script throws. */
  eval(...src) {
    const r = this.call({ op: 'eval', src });
    if ('error' in r) {
      if (r.error === 'TERMINATED') fail('endless', 'this does not come to an end');
      if (String(r.error).startsWith('HARNESS')) trouble(r.error);
      const e = new Fail('threw', 'the isolate threw ' + r.error);
      e.js = r.error;
      throw e;
    }
    return r.value;
  },
  /** Evaluates the expression (a promise is awaited): {ok: value} or {err: name}. */
  json(expr) {
    const v = this.eval(
      `globalThis.__r = {pending: true}; (async () => { try { __r = {ok: await (${expr})} } catch (e) { __r = {err: String(e)} } })(); 0`,
      'JSON.stringify(__r)');
    return JSON.parse(v);
  },
};

const parts = [];
/** A part: `test(case)` (may be async) throws Fail if the oracle is violated. */
function part(name, runs, arb, nontrivial, test) { parts.push({ name, runs, arb, nontrivial, test }); }

async function exec(p, c) {
  if (curFd >= 0) {
    const s = Buffer.from(JSON.stringify({ part: p.name, case: c }));
    fs.writeSync(curFd, s, 0, s.length, 0);
    fs.ftruncateSync(curFd, s.length);
  }
  try {
    await p.test(c);
    return null;
  } catch (e) {
    if (e instanceof Fail) return e;
    trouble(e);
  }
}
const isKnown = f => {
  if (!known.includes(f.sig)) return false;
  out.known_hits[f.sig] = (out.known_hits[f.sig] || 0) + 1;
  return true;
};

async function run(p) {
  if (env.VERIF_ONLY && env.VERIF_ONLY !== p.name) return;
  if (replay) {
    if (replay.part !== p.name) return;
    out.replayed = true;
    out.evaluations++;
    const f = await exec(p, replay.case);
    if (f && !isKnown(f)) out.violations.push({ part: p.name, case: replay.case, sig: f.sig, msg: f.message });
    return;
  }
  const t0 = Date.now();
  const seed = crypto.createHash('sha256').update(`${env.VERIF_SEED}/${env.VERIF_PROP}/${p.name}`).digest().readInt32LE(0);
  const seen = new Set();
  let evals = 0, first = null, firstAt = 0, best = null;
  const prop = fc.asyncProperty(p.arb, async c => {
    if (!first) {
      evals++;
      if (p.nontrivial(c)) {
        const js = JSON.stringify(c);
        const h = crypto.createHash('md5').update(js).digest('base64');
        if (!seen.has(h)) {
          seen.add(h);
          if ([1, 17, 101].includes(seen.size) && js.length < 4000) out.samples.push({ part: p.name, case: c });
        }
      }
    } else if (Date.now() - firstAt > 40000) return;
    const f = await exec(p, c);
    if (!f || isKnown(f) || (first && f.sig !== first.sig)) return;
    if (!first) { first = f; firstAt = Date.now(); }
    best = { case: c, f };
    throw f;
  });
  await fc.check(prop, { seed, numRuns: Math.max(1, Math.ceil(p.runs * scale)), endOnFailure: false });
  if (best) out.violations.push({ part: p.name, case: best.case, sig: best.f.sig, msg: best.f.message });
  out.evaluations += evals;
  out.distinct_nontrivial += seen.size;
  out.parts.push({ part: p.name, cases: evals, distinct_nontrivial: seen.size, wall_s: (Date.now() - t0) / 1000 });
  if (env.VERIF_VERBOSE) console.error(`part ${p.name}: ${evals} cases, ${seen.size} nontrivial, ${(Date.now() - t0) / 1000}s`);
}

(async () => {
  require(path.resolve(__dirname, process.argv[2]))({ fc, part, iso, fail, check, label, Fail, prop: env.VERIF_PROP, thorough });
  for (const p of parts) await run(p);
  finish(0);
})().catch(trouble);
