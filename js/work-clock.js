// C50: performance.now, in real time.
'use strict';
module.exports = (t, c) => {
  const { fc, part, fail, label } = t;
  // How it is called, and from where
  const HOW = ['performance.now()', 'n()', 'n.call(null)', 'n.apply({}, [1, 2])', 'Reflect.apply(n, undefined, [{}])', 'performance["now"](NaN, "x")', '[performance].map(p => p.now())[0]', '({ n }).n()', 'globalThis.performance.now.bind(1)()'];
  const act = fc.oneof(
    { weight: 6, arbitrary: fc.tuple(fc.constant('read'), fc.nat(HOW.length - 1)) },
    { weight: 2, arbitrary: fc.tuple(fc.constant('loop'), fc.constantFrom(3, 50, 20_000)) },
    { weight: 3, arbitrary: fc.tuple(fc.constant('timer'), fc.constantFrom(0, 1, 2, 3, 5, 8)) },
    { weight: 1, arbitrary: fc.tuple(fc.constant('tick'), fc.nat(1)) },
    { weight: 1, arbitrary: fc.tuple(fc.constant('busy'), fc.constantFrom(1, 3)) },
    { weight: 1, arbitrary: fc.tuple(fc.constant('ask'), fc.constantFrom(0, 2)) });
  const acts = fc.array(act, { minLength: 1, maxLength: 6 });
  const step = fc.record({ worker: fc.nat(1), owner: fc.constantFrom('a', 'a', 'b'), gap: fc.oneof({ weight: 60, arbitrary: fc.constantFrom(0, 0, 1, 4) }, { weight: 1, arbitrary: fc.constantFrom(1100, 2300) }), task: fc.boolean(), acts, later: fc.boolean() });
  part('clock', 200, fc.record({ mode: fc.constantFrom('worker', 'worker', 'pinned', 'pinned', 'isolate'), style: c.mode, top: fc.array(act, { maxLength: 3 }), steps: fc.array(step, { minLength: 1, maxLength: 5 }) }), x => x.steps.length > 1, async x => {
    // A task on a lent isolate can only compute
    const plan = x.mode === 'isolate' ? x.steps.map(s => ({ ...s, later: false, acts: s.acts.filter(([k]) => !['timer', 'ask'].includes(k)) })) : x.steps;
    const script = `
      const me = Math.random().toString(36).slice(2) + Math.random().toString(36).slice(2);
      const n = performance.now;
      const sleep = ms => new Promise(r => setTimeout(r, ms));
      const read = how => { console.log('< ' + me); const v = HOW[how](); console.log('> ' + me + ' ' + v); return v; };
      const HOW = [${HOW.map(h => `() => ${h}`).join(', ')}];
      const hot = k => { let last = -1, bad = ''; for (let i = 0; i < k; i++) { const v = performance.now(); if (v < last) bad = 'goes from ' + last + ' to ' + v; if (Math.abs(v * 10 - Math.round(v * 10)) > 1e-6) bad = 'is ' + v; last = v; } return bad; };
      const now = ([k, a]) => {
        if (k === 'read') read(a);
        if (k === 'loop') { read(0); const bad = hot(a); read(0); if (bad) console.log('! ' + bad); }
        if (k === 'busy') { const end = Date.now() + a; while (Date.now() < end); read(0); }
      };
      const act = async ([k, a]) => {
        if (k === 'timer') { const from = read(0); await sleep(a); const to = read(0); console.log('d ' + a + ' ' + (to - from)); }
        else if (k === 'tick') { await null; read(0); }
        else if (k === 'ask') { try { await (await fetch('http://up.test/' + a)).text(); } catch {} read(0); }
        else now([k, a]);
      };
      read(0);
      for (const a of ${JSON.stringify(x.top)}) now(a);
      const STEPS = ${JSON.stringify(plan)};
      const serve = async (i, ctx) => {
        const s = STEPS[i];
        read(0);
        if (s.later) ctx.waitUntil((async () => { await sleep(1); read(0); })());
        for (const a of s.acts) await act(a);
        return 'done';
      };
      ${x.style === 'worker' ? `globalThis.default = { async fetch(q, env, ctx) { return new Response(await serve(+new URL(q.url).pathname.slice(1), ctx)); }, async task(e, env, ctx) { await serve(e.payload.i, ctx || e); return { success: true }; } };`
        : `addEventListener('fetch', e => e.respondWith(serve(+new URL(e.request.url).pathname.slice(1), e).then(s => new Response(s))));
           addEventListener('task', async e => { await serve(e.payload.i, e); });`}`;
    const steps = [], at = [];
    let last = -1;
    x.steps.forEach((s, i) => {
      const w = 'w' + s.worker;
      if (x.mode === 'worker' && last !== s.worker) steps.push({ kind: 'new', worker: w });
      last = s.worker;
      at.push(steps.length);
      const who = { worker: w, owner: s.owner, gap: s.gap };
      steps.push(s.task || x.mode === 'isolate' ? { kind: 'task', id: 't', payload: { i }, ...who } : { kind: 'fetch', url: `http://w.test/${i}`, ...who });
    });
    // Owners of other cases have other isolates
    const o = c.scene({ mode: x.mode, real: true, patience: 20_000, ops: { '*': [{ delay: 1, body: 'x' }] }, workers: { w0: { script }, w1: { script: script + '\n' } }, steps });
    at.forEach((k, i) => { if (o.exec(k) !== 'ok') fail('exec', `step ${i}: ${o.exec(k)}: ${c.show(o)}`); });
    // When a context was created, at the earliest and the latest
    const made = new Map();
    let before = 0, open = null, reads = 0;
    for (const e of o.trace) {
      if (e.k === 'exec' || e.k === 'begin') before = e.t;
      if (e.k !== 'log') continue;
      const [k, a, b] = e.text.split(' ');
      if (k === '!') fail('loop', `performance.now() ${e.text.slice(2)}`);
      if (k === 'd' && b < a - 0.1001) fail('early', `a timer of ${a} ms runs after ${b} ms`);
      if (k === '<') {
        if (!made.has(a)) made.set(a, { from: before - 0.002, to: e.t + 0.002, last: 0, reads: [] });
        open = e.t;
      }
      if (k !== '>') continue;
      const m = made.get(a), v = Number(b);
      reads++;
      m.reads.push(`${v} between ${open} and ${e.t}`);
      const d = () => `${m.reads.slice(-8).join(', ')} of a ${x.mode} whose start is between ${m.from} and ${m.to}`;
      if (!(v >= 0)) fail('number', `performance.now() is ${b}`);
      if (Math.abs(v * 10 - Math.round(v * 10)) > 1e-6) fail('fine', `performance.now() is ${b}, which is no multiple of 0.1 ms`);
      if (v < m.last) fail('back', `performance.now() goes from ${m.last} to ${v}`);
      m.last = v;
      m.from = Math.max(m.from, open - v - 0.102);
      m.to = Math.min(m.to, e.t - v + 0.002);
      if (m.from > m.to) fail('time', `performance.now() is not the time since one start: ${d()}`);
    }
    if (reads < 2 * x.steps.length) fail('lost', c.show(o));
    if (made.size < at.length) label('kept context');
    if (made.size > 1) label('several contexts');
  });
};
