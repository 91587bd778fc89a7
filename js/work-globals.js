// C46: what a script does to its globals stays with its worker, and none has shared memory.
'use strict';
module.exports = (t, c) => {
  const { fc, part, fail, label } = t;
  const A = c.A;
  const { victim, ops, deeds } = require('./work-victim.js');
  const { deed, deed2js } = deeds(fc, A);
  const poison = ds => {
    const at = w => ds.filter(d => d.when === w).map(deed2js).join('\n');
    return `
      addEventListener('fetch', e => { const R = Response, r = new R('p'), T = setTimeout, P = Promise; e.waitUntil(new P(y => T(() => { y(); ${at('late')} }, 4))); e.respondWith(r); ${at('handler')} });
      ${at('top')}`;
  };
  const mask = o => o.trace.filter(e => !['begin', 'warm', 'pool', 'over', 'new'].includes(e.k));
  // What comes of the victims: without times, as the others take turns with them.
  const of = (o, i, w) => {
    const g = o.got(i);
    if (!g) return `no response: ${c.show(o)}`;
    let body = g.body;
    try { const j = JSON.parse(g.body); body = [j.body, ...j.did, ...j.at.split('\n')].join('\n'); } catch (e) { }
    return [`${(o.one('exec', i) || {}).result} ${g.status} ${JSON.stringify(g.headers)} ${g.end}`, ...o.all('log').filter(e => e.w === `${w}#${i}` || e.w === w).map(e => e.level + ' ' + e.text), body].join('\n');
  };
  const bindings = [['K', 'kv']];
  const kase = fc.record({
    mode: c.mode, deeds: fc.array(deed, { minLength: 1, maxLength: 5 }), at: fc.array(fc.nat(12), { minLength: 1, maxLength: 3 }), owner: fc.boolean(), first: fc.boolean(),
  });
  const alone = {};
  const fetch = (worker, at, owner) => ({ kind: 'fetch', worker, at, owner, method: 'POST', url: 'http://w.test/', body: 'hello' });
  const pool = { thread: 1, concurrent: 3, cached: 2 };
  part('apart', 25, kase, () => true, async x => {
    const workers = { v: { script: victim, bindings, ops }, p: { script: poison(x.deeds), bindings, ops } };
    const run = steps => x.mode === 'worker' ? c.scene({ mode: x.mode, workers, patience: 3000, keep: false, steps }) : c.sceneIn(pool, { mode: x.mode, workers, patience: 3000, steps });
    const v = i => ({ ...fetch('v', i, 'a') });
    if (!alone[x.mode]) alone[x.mode] = of(x.mode === 'worker' ? await run([{ kind: 'new', worker: 'v' }, v(0)]) : await run([{ ...v(0), workerId: 'alone' }]), x.mode === 'worker' ? 1 : 0, 'v');
    if (!/^ok 202/.test(alone[x.mode])) fail('alone', `the victim alone: ${alone[x.mode].slice(0, 1500)}`);
    const steps = [], mine = [];
    // A worker id of its own for every case, so that no context is met again.
    const tag = `-${t.seq = (t.seq || 0) + 1}`;
    if (x.mode === 'worker') {
      for (const _ of x.at) steps.push({ kind: 'new', worker: 'p' }, { kind: 'fetch', worker: 'p', giveUp: 500 });
      steps.push({ kind: 'new', worker: 'v' }); mine.push(steps.push(v(0)) - 1);
    } else {
      const vs = x.at.map((a, i) => ({ ...v(a + (x.first ? 0 : 3)), workerId: 'v' + tag + i }));
      const ps = x.at.map((a, i) => ({ ...fetch('p', (x.first ? 3 : 0) + i * 4, x.owner ? 'a' : 'b'), giveUp: 900, workerId: 'p' + tag }));
      for (const s of [...vs, ...ps].sort((a, b) => a.at - b.at)) if (steps.push(s) && s.worker === 'v') mine.push(steps.length - 1);
    }
    const o = await run(steps);
    for (const i of mine) {
      const got = of(o, i, 'v'), want = alone[x.mode];
      if (got !== want) {
        const a = want.split('\n'), b = got.split('\n'), s = new Set(a), z = new Set(b);
        fail('differs', `after ${x.deeds.map(d => `${d.how} of ${d.path} (${d.name}, ${d.nth}) in ${d.when}`).join('; ')} by another worker, ${x.mode}: missing ${JSON.stringify(a.filter(l => !z.has(l)).slice(0, 4))}, new ${JSON.stringify(b.filter(l => !s.has(l)).slice(0, 4))}`);
      }
    }
    for (const d of x.deeds) label(d.how);
  });

  // No shared memory, no Atomics, by whatever way; and globals that are the same object under each name.
  const none = fc.record({ mode: c.mode, when: fc.constantFrom('top', 'handler', 'timer', 'wait', 'again'), how: fc.constantFrom(...Object.keys(WAYS())) });
  function WAYS() {
    return {
      name: 'typeof SharedArrayBuffer', atomics: 'typeof Atomics', self: 'typeof self.SharedArrayBuffer + typeof global.Atomics', in: '"SharedArrayBuffer" in globalThis || "Atomics" in globalThis',
      keys: 'Reflect.ownKeys(globalThis).filter(k => k === "Atomics" || k === "SharedArrayBuffer").join()', eval: '(0, eval)("typeof SharedArrayBuffer + typeof Atomics")', Function: 'Function("return typeof SharedArrayBuffer + typeof Atomics")()',
      aliases: 'self === globalThis && global === globalThis', clone: '(() => { try { return typeof structuredClone(globalThis.SharedArrayBuffer) } catch (e) { return "undefined" } })()',
    };
  }
  const WANT = { name: 'undefined', atomics: 'undefined', self: 'undefinedundefined', in: 'false', keys: '', eval: 'undefinedundefined', Function: 'undefinedundefined', aliases: 'true', clone: 'undefined' };
  part('shared', 15, none, () => true, x => {
    const e = `String(${WAYS()[x.how]})`;
    const js = `
      const sleep = ms => new Promise(r => setTimeout(r, ms));
      const top = ${e}; let n = 0;
      addEventListener('fetch', e => e.respondWith((async () => { n++; ${x.when === 'timer' ? 'await sleep(3);' : ''} ${x.when === 'wait' ? `e.waitUntil(sleep(2).then(() => console.log(${e})));` : ''} return new Response(${x.when === 'top' ? 'top' : e}); })()));`;
    const o = c.scene({ mode: x.mode, script: js, steps: [{ kind: 'fetch' }, ...(x.when === 'again' ? [{ kind: 'fetch', gap: 1 }] : [])] });
    for (const i of x.when === 'again' ? [0, 1] : [0]) if ((o.got(i) || {}).body !== WANT[x.how]) fail('shared', `${x.how} in ${x.when}, ${x.mode}: ${c.show(o)}`);
    if (x.when === 'wait' && o.logs().join() !== WANT[x.how]) fail('shared', `${x.how} in ${x.when}, ${x.mode}: ${c.show(o)}`);
    label(x.how);
  });
};
