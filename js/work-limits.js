// C40: limits end what goes on too long, and only that. In real time.
'use strict';
module.exports = (t, c) => {
  const { fc, part, fail, label } = t;
  process.env.VERIF_POOL = JSON.stringify({ limits: { wall: 150, cpu: 60 } });
  const SPIN = { sync: 'while (true) ;', micro: 'await (async () => { while (true) await 0 })();', calls: 'const f = n => n ? f(n - 1) : 0; for (;;) f(50);', json: 'for (;;) JSON.parse("[1,2,3]");', sort: 'for (;;) [3, 1, 2].sort();' };
  const IDLE = { never: 'await new Promise(() => 0);', op: "await fetch('http://up.test/never');", timers: 'for (;;) await sleep(3);', interval: 'setInterval(() => 0, 5); await new Promise(() => 0);', long: 'await sleep(3600000);', stream: "await (await fetch('http://up.test/slow')).text();" };
  const kase = fc.record({
    mode: c.mode, what: fc.oneof(fc.constantFrom(...Object.keys(SPIN)), fc.constantFrom(...Object.keys(IDLE))),
    where: fc.constantFrom('start', 'late', 'then', 'timer', 'body', 'wait', 'task', 'scheduled'), module: fc.boolean(),
    by: fc.constantFrom('wall', 'cpu'), limit: fc.integer({ min: 40, max: 110 }), catches: fc.boolean(),
  });
  const wrap = (x, what) => {
    const w = x.catches ? `for (;;) try { ${what} } catch (e) { } finally { }` : what;
    const at = {
      start: w, late: `await sleep(10); ${w}`, then: `await Promise.resolve().then(async () => { ${w} });`, timer: `await new Promise((r, j) => setTimeout(async () => { try { ${w} r() } catch (e) { j(e) } }, 5));`,
      body: '', wait: '', task: w, scheduled: w,
    }[x.where];
    return `
      const sleep = ms => new Promise(r => setTimeout(r, ms));
      async function bad() { ${w} }
      async function make(q, wait) {
        if (q.url.endsWith('/again')) return new Response('again');
        ${x.where === 'wait' ? "wait(sleep(5).then(bad)); return new Response('given');" : x.where === 'body' ? "return new Response(new ReadableStream({ async pull(ctl) { ctl.enqueue('a'); await sleep(5); await bad(); ctl.enqueue('z'); ctl.close(); } }));" : `${at} return new Response('no')`}
      }
      ${x.module ? `globalThis.default = { fetch: (q, env, ctx) => make(q, p => ctx.waitUntil(p)), async task(e) { ${w} }${x.where === 'scheduled' ? ', async scheduled(e) { ' + w + ' }' : ''} };`
        : `addEventListener('fetch', e => e.respondWith(make(e.request, p => e.waitUntil(p)))); ${x.where === 'task' ? `addEventListener('task', async e => { ${w} });` : ''} ${x.where === 'scheduled' ? `addEventListener('scheduled', async e => { ${w} });` : ''}`}`;
  };
  const ops = { 'fetch http://up.test/never': [{ never: true }], 'fetch http://up.test/slow': [{ body: { chunks: Array.from({ length: 200 }, () => [20, 'x']) } }] };
  const first = x => x.where === 'task' ? { kind: 'task', at: 0 } : x.where === 'scheduled' ? { kind: 'task', source: { kind: 'schedule', time: 1 }, at: 0 } : { kind: 'fetch', url: 'http://w.test/', at: 0 };
  part('ends', 20, kase, () => true, x => {
    const spins = x.what in SPIN;
    const pinned = x.mode === 'pinned';
    if (!spins || pinned) x = { ...x, by: 'wall' };
    const limit = pinned ? 150 : x.limit;
    const o = c.scene({ mode: x.mode, real: true, script: wrap(x, SPIN[x.what] || IDLE[x.what]), limits: { wall: x.by === 'wall' ? limit : 0, cpu: x.by === 'cpu' ? limit : 0 }, ops, patience: 8000,
      steps: [first(x), ...(pinned ? [] : [{ kind: 'new' }]), { kind: 'fetch', url: 'http://w.test/again' , at: pinned ? 360 : 0 }] });
    const d = `${x.what} in ${x.where}${x.catches ? ', caught' : ''}, ${x.mode}, ${pinned ? 'both limits' : x.by + ' ' + limit}`;
    const exec = o.one('exec', 0);
    const ok = { wall: ['WallClockTimeout'], cpu: ['CpuTimeLimit'] }[x.by];
    if (pinned && spins) ok.push('CpuTimeLimit');
    // The response was sent: only the rest is ended.
    if (pinned && x.where === 'wait') ok.splice(0, 2, 'ok');
    if (exec.result === 'hang') fail('hang', `${d}: goes on: ${c.show(o)}`);
    if (!ok.includes(exec.result)) fail('reason', `${d}: ends with ${exec.result}, not ${ok.join(' or ')}: ${c.show(o)}`);
    if (exec.t > limit + 2500) fail('late', `${d}: ends after ${exec.t} ms`);
    if (x.by === 'wall' && !(pinned && spins) && exec.t < limit - 2) fail('early', `${d}: ends after ${exec.t} ms already`);
    if (o.all('clienthang').length) fail('client', `${d}: its client waits for ever: ${c.show(o)}`);
    if (x.where === 'body' && o.got(0).end === 'whole') fail('cut', `${d}: the client is told that ${JSON.stringify(o.got(0).body)} is all`);
    const again = o.got(pinned ? 1 : 2);
    if (!again || again.body !== 'again') fail('again', `${d}: the next request got ${JSON.stringify(again)}: ${c.show(o)}`);
    if (x.where === 'wait' && o.got(0).body !== 'given') fail('given', `${d}: the response was ${JSON.stringify(o.got(0))}`);
    label(`${spins ? 'spins' : 'idle'} ${x.where}`);
  });

  // Also at the top level of a script, and what its microtasks and getters of its handlers do.
  const AT = { top: w => w, micro: w => `Promise.resolve().then(() => { ${w} });`, getter: w => `globalThis.default = { get fetch() { ${w} } };`, accessor: w => `Object.defineProperty(globalThis, 'default', { get() { ${w} } });`, async: w => `(async () => { await 0; ${w} })();` };
  const top = fc.record({ mode: c.mode, what: fc.constantFrom(...Object.keys(SPIN).filter(k => k !== 'micro')), where: fc.constantFrom(...Object.keys(AT)), by: fc.constantFrom('wall', 'cpu'), limit: fc.integer({ min: 40, max: 110 }), catches: fc.boolean() });
  part('top', 8, top, () => true, x => {
    const pinned = x.mode === 'pinned';
    const w = x.catches ? `for (;;) try { ${SPIN[x.what]} } catch (e) { } finally { }` : SPIN[x.what];
    const limits = { wall: x.by === 'wall' ? x.limit : 0, cpu: x.by === 'cpu' ? x.limit : 0 };
    const good = `addEventListener('fetch', e => e.respondWith(new Response('again')));`;
    const o = c.scene({ mode: x.mode, real: true, script: good, workers: { bad: { script: `addEventListener('fetch', e => e.respondWith(new Response('no'))); ${AT[x.where](w)}`, limits, ops: {} } }, ops: {}, patience: 8000,
      steps: pinned ? [{ kind: 'fetch', worker: 'bad', at: 0 }, { kind: 'fetch', url: 'http://w.test/again', at: 360 }, { kind: 'fetch', worker: 'bad', at: 400 }] : [{ kind: 'new', worker: 'bad' }] });
    const d = `${x.what} in ${x.where}${x.catches ? ', caught' : ''}, ${x.mode}, ${pinned ? 'both limits' : x.by + ' ' + x.limit}`;
    const reasons = pinned ? ['WallClockTimeout', 'CpuTimeLimit'] : x.by === 'wall' ? ['WallClockTimeout'] : ['CpuTimeLimit'];
    for (const i of pinned ? [0, 2] : [0]) {
      const r = o.one(pinned ? 'exec' : 'new', i);
      if (!r || !reasons.includes(r.result)) fail('top reason', `${d}: ${JSON.stringify(r)}: ${c.show(o)}`);
      if (!pinned && r.t > x.limit + 2500) fail('top late', `${d}: ends after ${r.t} ms`);
      if (x.by === 'wall' && !pinned && r.t < x.limit - 2) fail('top early', `${d}: ends after ${r.t} ms already`);
    }
    if (pinned && (!o.got(1) || o.got(1).body !== 'again')) fail('top again', `${d}: the next request got ${JSON.stringify(o.got(1))}: ${c.show(o)}`);
    if (o.all('clienthang').length) fail('client', `${d}: its client waits for ever: ${c.show(o)}`);
    label(`top ${x.where}`);
  });

  // Not what stays below its limits, however long it waits for a CPU limit, or computes for a wall-clock limit.
  const fine = fc.record({ mode: c.mode, by: fc.constantFrom('wall', 'cpu'), work: fc.nat(15), idle: fc.nat(60), where: fc.constantFrom('start', 'wait', 'body'), module: fc.boolean() });
  part('lets be', 10, fine, () => true, x => {
    const js = `
      const sleep = ms => new Promise(r => setTimeout(r, ms));
      const work = ms => { const t = Date.now(); while (Date.now() - t < ms) ; };
      const all = async () => { work(${x.work}); await sleep(${x.by === 'cpu' && x.mode !== 'pinned' ? 200 + x.idle : x.idle}); console.log('done') };
      async function make(wait) {
        ${x.where === 'wait' ? 'wait(all());' : x.where === 'start' ? 'await all();' : ''}
        return new Response(${x.where === 'body' ? "new ReadableStream({ async pull(ctl) { await all(); ctl.enqueue('fine'); ctl.close() } })" : "'fine'"});
      }
      ${x.module ? `globalThis.default = { fetch: (q, env, ctx) => make(p => ctx.waitUntil(p)) };` : `addEventListener('fetch', e => e.respondWith(make(p => e.waitUntil(p))));`}`;
    const o = c.scene({ mode: x.mode, real: true, script: js, limits: x.by === 'cpu' ? { cpu: 150 } : { wall: 4000 }, patience: 8000, steps: [{ kind: 'fetch' }] });
    // A machine that is busy with other things may hold it up: not a matter of the code.
    const g = o.got(0);
    const exec = o.one('exec', 0);
    if (x.mode === 'pinned' && exec.t > 140) return;
    if (exec.result !== 'ok' || !g || g.body !== 'fine' || !o.logs().includes('done')) fail('ended', `${x.where}, ${x.mode}, ${x.by}: ${x.work} ms of work and ${x.idle} ms of waiting: ${c.show(o)}`);
    label(x.by);
  });

  // A Worker that was aborted runs nothing more, and says so; others are not concerned.
  const ab = fc.record({ before: fc.array(fc.constantFrom('fetch', 'task', 'left'), { maxLength: 3 }), after: fc.array(fc.constantFrom('fetch', 'task', 'abort'), { minLength: 1, maxLength: 4 }), module: fc.boolean(), wall: fc.constantFrom(0, 500) });
  part('aborted', 25, ab, x => x.before.length > 0, x => {
    const js = `let n = 0; const make = async u => { console.log('runs ' + ++n); if (u.endsWith('left')) await new Promise(() => 0); return new Response('fine') };
      ${x.module ? "globalThis.default = { fetch: q => make(q.url), async task() { console.log('runs ' + ++n) } };" : "addEventListener('fetch', e => e.respondWith(make(e.request.url))); addEventListener('task', async () => { console.log('runs ' + ++n) });"}`;
    const event = k => k === 'task' ? { kind: 'task' } : k === 'left' ? { kind: 'fetch', url: 'http://w.test/left', giveUp: 20 } : { kind: 'fetch', url: 'http://w.test/' };
    // What is given up is the last before
    const before = x.before.slice(0, x.before.indexOf('left') + 1 || 9);
    const steps = [{ kind: 'new', worker: 'v' }, ...before.map(event), { kind: 'abort' }, ...x.after.map(k => k === 'abort' ? { kind: 'abort' } : event(k)), { kind: 'new', worker: 'v' }, event('fetch')].map(s => ({ ...s, worker: 'v' }));
    const o = c.scene({ mode: 'worker', patience: 3000, workers: { v: { script: js, limits: { wall: x.wall } } }, steps });
    const d = `${before} abort ${x.after}`;
    const at = before.length + 1;
    steps.forEach((s, i) => {
      if (s.kind !== 'fetch' && s.kind !== 'task') return;
      const dead = i > at && i < steps.length - 1, r = o.exec(i), g = o.got(i);
      const want = dead ? 'Aborted' : s.giveUp ? 'given up' : 'ok';
      if (r !== want) fail('aborted', `${d}: step ${i} ends with ${r}, not ${want}: ${c.show(o)}`);
      if (dead && s.kind === 'fetch' && g && g.status === 200) fail('aborted', `${d}: step ${i} is answered after the abort`);
      if (!dead && s.kind === 'fetch' && !s.giveUp && (!g || g.body !== 'fine')) fail('answered', `${d}: step ${i} gets ${JSON.stringify(g)}`);
    });
    const runs = o.logs().filter(l => l.startsWith('runs')).length;
    if (runs !== before.length + 1) fail('runs', `${d}: ${runs} handlers run, not ${before.length + 1}`);
    if (o.all('clienthang').length) fail('client', `${d}: a client waits for ever: ${c.show(o)}`);
    label(`aborted after ${before.at(-1) || 'nothing'}`);
  });
};
