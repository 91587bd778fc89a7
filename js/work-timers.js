// C29: timers.
'use strict';
module.exports = (t, c) => {
  const { fc, part, fail, label } = t;

  // Delays as they are written in the script, and what they stand for.
  const DELAYS = [['0', 0], ['3.7', 3], ['-5', 0], ['NaN', 0], ['undefined', 0], ['"12"', 12], ['null', 0], ['true', 1], ['-0', 0],
    ['({})', 0], ['[7]', 7], ['0.999', 0], ['"x"', 0], ['-Infinity', 0], ['({ valueOf() { return 6 } })', 6], ['-1e300', 0]];
  const FAR = ['2**31', '2**31 + 9', '4294967296', '2**32 + 7', '1e10', '2**34 + 3', '2**53', '2**53 + 8', '1e19', '2**64', '2**64 + 4096', '1e300', 'Number.MAX_VALUE', 'Infinity'];
  const delay = fc.oneof(
    { weight: 6, arbitrary: fc.integer({ min: 0, max: 12 }).map(n => [String(n), n]) },
    { weight: 2, arbitrary: fc.integer({ min: 13, max: 5000 }).map(n => [String(n), n]) },
    { weight: 2, arbitrary: fc.constantFrom(...DELAYS) });
  const N = 8;
  const act = fc.oneof(
    { weight: 4, arbitrary: fc.record({ k: fc.constant('start'), i: fc.nat(N - 1) }) },
    { weight: 2, arbitrary: fc.record({ k: fc.constant('clear'), i: fc.nat(N - 1), how: fc.nat(5) }) },
    { weight: 1, arbitrary: fc.record({ k: fc.constant('micro'), n: fc.integer({ min: 1, max: 3 }) }) },
    { weight: 1, arbitrary: fc.record({ k: fc.constant('far'), d: fc.nat(FAR.length - 1), iv: fc.boolean() }) },
    { weight: 1, arbitrary: fc.record({ k: fc.constant('unknown'), v: fc.nat(9) }) });
  const acts = n => fc.array(act, { maxLength: n });
  const timer = fc.record({
    every: fc.integer({ min: -3, max: 4 }), // > 0: an interval that ends itself after so many times
    delay, args: fc.array(fc.oneof(fc.integer(), fc.string({ maxLength: 3 }), fc.constant(null)), { maxLength: 3 }),
    acts: acts(4), throws: fc.integer({ min: 0, max: 5 }).map(n => n === 0), mid: fc.boolean(),
  });
  const UNKNOWN = ['undefined', 'null', 'NaN', '-1', '99999', '"x"', '{}', '1.5', '0', '2**70'];

  const program = fc.record({ mode: c.mode, timers: fc.array(timer, { minLength: N, maxLength: N }), root: fc.array(act, { minLength: 6, maxLength: 14 }), module: fc.boolean() });
  part('programs', 130, program, x => x.root.filter(a => a.k === 'start').length >= 3, x => {
    const T = x.timers;
    const js = `
      const T = [${T.map(d => `{every: ${d.every}, args: ${c.A(d.args)}, acts: ${c.A(d.acts)}, throws: ${d.throws}, mid: ${d.mid}, set(f) { return ${d.every > 0 ? 'setInterval' : 'setTimeout'}(f${d.delay[0] === 'undefined' && !d.args.length ? '' : ', ' + d.delay[0]}${d.args.map(a => ', ' + c.A(a)).join('')}) }}`).join(',\n')}];
      const FAR = [${FAR.join(', ')}], UNKNOWN = [${UNKNOWN.join(', ')}];
      const last = [], seen = new Set();
      let count = 0, micro = 0;
      function start(i, from) {
        if (i <= from || count > 60) return;
        const n = count++;
        let times = 0;
        const id = T[i].set((...args) => {
          console.log('fire ' + n + ' ' + JSON.stringify(args));
          if (T[i].every > 0 && ++times >= T[i].every) { console.log('clear ' + n); clearInterval(id); }
          const half = T[i].mid ? T[i].acts.length >> 1 : T[i].acts.length;
          run(T[i].acts.slice(0, half), i);
          if (T[i].throws) { const e = n % 3; if (e == 0) throw new Error('thrown'); if (e == 1) throw undefined; throw null; }
          run(T[i].acts.slice(half), i);
        });
        if (!Number.isInteger(id) || id <= 0 || seen.has(id)) console.log('bad id ' + id);
        seen.add(id);
        last[i] = [id, n];
        console.log('start ' + n + ' ' + i);
      }
      function run(acts, from) {
        for (const a of acts) {
          if (a.k == 'start') start(a.i, from);
          else if (a.k == 'clear' && last[a.i]) {
            const [id, n] = last[a.i];
            console.log('clear ' + n);
            [clearTimeout, clearInterval, x => clearTimeout(String(x)), x => { clearTimeout(x); clearInterval(x) }, x => window_(x), clearTimeout][a.how](id);
          } else if (a.k == 'micro') {
            for (let j = 0; j < a.n; j++) { const m = micro++; console.log('queue ' + m); queueMicrotask(() => console.log('micro ' + m)); }
          } else if (a.k == 'far') {
            try { const id = (a.iv ? setInterval : setTimeout)(() => { if (Number.isFinite(FAR[a.d])) console.log('far ' + FAR[a.d]); if (a.iv) clearInterval(id) }, FAR[a.d]); if (!Number.isInteger(id) || seen.has(id)) console.log('bad id ' + id); seen.add(id); }
            catch (e) { console.log('threw ' + FAR[a.d] + ' ' + e); }
          } else if (a.k == 'unknown') {
            try { clearTimeout(UNKNOWN[a.v]); clearInterval(UNKNOWN[a.v]); } catch (e) { console.log('threw clear ' + e); }
          }
        }
      }
      function window_(id) { globalThis.clearInterval(id) }
      const done = () => new Promise(r => { run(${c.A(x.root)}, -1); setTimeout(() => r(new Response('done')), 60000); });
      ${x.module ? 'globalThis.default = { fetch: done };' : "addEventListener('fetch', e => e.respondWith(done()));"}`;
    const o = c.scene({ mode: x.mode, script: js, patience: 200000, steps: [{ kind: 'fetch' }] });
    const g = o.got(0);
    if (!g || g.body !== 'done' || o.exec(0) !== 'ok') fail('lost', `the handler waits for a timer and got lost: ${c.show(o)}`);
    // ---- the model runs along the trace ----
    const pending = new Map();
    let seq = 0, micros = [];
    for (const e of o.trace.filter(e => e.k === 'log')) {
      const [what, a, b] = e.text.split(' ');
      if (what !== 'micro' && what !== 'queue' && micros.length && micros[0].t < e.t) fail('microtask', `microtask ${micros[0].m} has not run before later timers`);
      if (what === 'bad') fail('id', 'ids of timers are not fresh positive numbers: ' + e.text);
      else if (what === 'far') fail('early', `a timer with a delay of ${a} ms fires at ${e.t} ms`);
      else if (what === 'threw') fail('threw', e.text);
      else if (what === 'queue') micros.push({ m: a, t: e.t });
      else if (what === 'micro') {
        if (!micros.length || micros.shift().m !== a) fail('microtask', 'microtasks run out of order: ' + a);
      } else if (what === 'start') {
        const d = T[b];
        pending.set(a, { due: e.t + d.delay[1], seq: seq++, delay: d.delay[1], every: d.every > 0 ? d.delay[1] : -1, args: d.args });
      } else if (what === 'clear') pending.delete(a);
      else if (what === 'fire') {
        if (micros.length) fail('microtask', 'a timer runs before the microtasks queued before it');
        const p = pending.get(a);
        if (!p) fail('extra', `timer ${a} fires at ${e.t} ms although it is cleared or has fired`);
        if (e.text.slice(6 + a.length) !== JSON.stringify(p.args)) fail('args', `timer ${a} is called with ${e.text}, not with ${JSON.stringify(p.args)}`);
        if (e.t < p.due) fail('early', `timer ${a} fires at ${e.t} ms, not before ${p.due} ms`);
        if (e.t > p.due + 1) fail('late', `timer ${a} fires at ${e.t} ms, and is due at ${p.due} ms`);
        for (const [n, q] of pending) {
          if (q === p) continue;
          if (q.due + 1 < e.t) fail('late', `timer ${n} is due at ${q.due} ms and has not fired by ${e.t} ms`);
          // How an interval is started again is its own affair.
          if (!p.again && !q.again && q.seq < p.seq && q.delay <= p.delay && q.due <= p.due) fail('order', `timer ${a} fires before timer ${n}, which was started earlier and waits no longer`);
        }
        if (p.every >= 0) { p.due = e.t + p.every; p.again = true; } else pending.delete(a);
      }
    }
    for (const [n, q] of pending) if (q.due + 1 < g.t) fail('lost', `timer ${n} is due at ${q.due} ms and never fires`);
    label(o.trace.length > 30 ? 'over 30 records' : 'fewer records');
  });

  // Many at once: timers due at the same time, and answers that come together.
  part('many', 25, fc.record({ mode: c.mode, n: fc.oneof(fc.integer({ min: 1, max: 40 }), fc.constantFrom(63, 64, 65, 100, 128, 129, 256, 300, 700, 1025)), delays: fc.array(fc.constantFrom(0, 1, 5, 5, 30), { minLength: 1, maxLength: 4 }), ops: fc.nat(3), wait: fc.boolean(), every: fc.boolean() }), x => x.n > 32, x => {
    const js = `
      const order = [], delays = ${c.A(x.delays)};
      const all = [];
      function go() {
        for (let i = 0; i < ${x.n}; i++) {
          const d = delays[i % delays.length];
          all.push(new Promise(r => { if (${x.every} && i % 7 === 3) { const id = setInterval(() => { clearInterval(id); order.push(i); r(); }, d); } else setTimeout(() => { order.push(i); r(); }, d); }));
          if (i % 4 < ${x.ops}) all.push(env.K.get('k' + i).then(v => { if (v !== 'v') throw new Error('answer ' + v); }));
        }
        return Promise.all(all);
      }
      addEventListener('fetch', e => {
        if (${x.wait}) { e.waitUntil(go().then(() => console.log('over ' + JSON.stringify(order)))); e.respondWith(new Response('now')); }
        else e.respondWith(go().then(() => { console.log('over ' + JSON.stringify(order)); return new Response('then'); }));
      });`;
    const o = c.scene({ mode: x.mode, script: js, bindings: [['K', 'kv']], ops: { '*': [{ value: 'v', delay: x.delays[0] }] }, patience: 20_000, steps: [{ kind: 'fetch' }] });
    const d = `${x.n} timers after ${x.delays} ms, ${x.mode}${x.wait ? ', in waitUntil' : ''}`;
    const g = o.got(0), e = o.one('log');
    if (!g || o.exec(0) !== 'ok' || !e) fail('lost', `${d}: not all run: ${c.show(o)}`);
    const due = Math.max(...Array.from({ length: Math.min(x.n, x.delays.length) }, (_, i) => x.delays[i]), x.ops ? x.delays[0] : 0);
    if (e.t > due + 2) fail('late', `${d}: they have run by ${e.t} only`);
    const got = JSON.parse(e.text.slice(5));
    const want = got.slice().sort((a, b) => x.delays[a % x.delays.length] - x.delays[b % x.delays.length] || a - b);
    if (new Set(got).size !== x.n) fail('lost', `${d}: ${got.length} run, ${new Set(got).size} of them different`);
    if (!c.same(got, want)) fail('order', `${d}: they run as ${got}`);
    label(x.n > 64 ? 'over 64 at once' : 'fewer at once');
  });
};
