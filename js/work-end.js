// C52: what a worker has under way outside ends with it, and not before, and nothing else does.
'use strict';
module.exports = (t, c) => {
  const { fc, part, fail, label } = t;
  const A = c.A;
  // [how it is asked for, the tag of the operation, what may become of it]
  const KINDS = {
    fetch: [id => `fetch('http://x/${id}')`, id => `fetch http://x/${id}`, true],
    assets: [id => `env.A.fetch('http://x/${id}')`, id => `assets A http://x/${id}`, true],
    worker: [id => `env.W.fetch('http://x/${id}')`, id => `worker W http://x/${id}`, true],
    file: [id => `env.S.fetch('/${id}')`, id => `storage S fetch /${id}`, true],
    get: [id => `env.S.get('${id}')`, id => `storage S get ${id}`],
    put: [id => `env.S.put('${id}', 'text')`, id => `storage S put ${id}`],
    list: [id => `env.S.list({ prefix: '${id}' })`, id => `storage S list ${id}`],
    kv: [id => `env.K.get('${id}')`, id => `kv K get ${id}`],
    kvput: [id => `env.K.put('${id}', 'text')`, id => `kv K put ${id}`],
    db: [id => `env.D.query('${id}')`, id => `db D ${id}`],
    socket: [id => `new Promise((ok, no) => { const s = new WebSocket('ws://x/${id}'); keep.push(s); s.onopen = () => ok(); s.onerror = no; })`, id => `ws ws://x/${id}`],
  };
  // When it is answered; and then the body: none, short, one that never ends, chunks every few ms
  const op = fc.record({ kind: fc.constantFrom('fetch', 'fetch', ...Object.keys(KINDS)), delay: fc.oneof({ weight: 2, arbitrary: fc.constant(null) }, { weight: 3, arbitrary: fc.constantFrom(0, 0, 1, 3, 9, 30) }, { weight: 1, arbitrary: fc.constantFrom(200, 1e5) }), body: fc.constantFrom('none', 'text', 'tail', 'tail', 'chunks', 'chunks'), reads: fc.constantFrom('no', 'one', 'all', 'all', 'clone'), await: fc.boolean(), at: fc.constantFrom(0, 0, 2, 6) });
  const sent = fc.constantFrom(null, null, null, 'tail', 'chunks');
  const request = fc.record({
    who: fc.constantFrom('u', 'v', 'w'), owner: fc.constantFrom('a', 'a', 'b'), ops: fc.array(op, { maxLength: 5 }), sent, reads: fc.boolean(),
    how: fc.oneof({ weight: 10, arbitrary: fc.constantFrom('responds', 'responds', 'waits', 'throws', 'task', 'streams', 'leaves', 'gives up') }, { weight: 1, arbitrary: fc.constantFrom('spins') }), ms: fc.constantFrom(0, 1, 4, 12), at: fc.nat(20),
  });
  const POOLS = [{ thread: 1, concurrent: 1, cached: 0 }, { thread: 2, concurrent: 3, cached: 0 }, { thread: 1, concurrent: 20, cached: 0 }, { thread: 1, concurrent: 1, cached: 1 }, { thread: 2, concurrent: 1, cached: 0, simple: true, told: 5 }].map(p => ({ ...p, limits: { cpu: 100 } }));
  const script = `
    const keep = [], sleep = ms => new Promise(r => setTimeout(r, ms));
    setInterval(() => console.log('tick'), 3);
    const read = async (r, how) => {
      if (!(r?.body instanceof ReadableStream) || how === 'no') return keep.push(r);
      if (how === 'clone') keep.push(r.clone());
      const from = r.body.getReader();
      keep.push(r, from);
      while (!(await from.read()).done && how === 'all');
    };
    const ASKS = { ${Object.entries(KINDS).map(([k, v]) => `${k}: id => ${v[0]('${id}').replace(/'/g, '`')}`).join(',\n')} };
    const run = async (plan, wait) => {
      const all = plan.ops.map(async (o, j) => {
        if (o.at) await sleep(o.at);
        const id = plan.id + '-' + j;
        try { await read(await ASKS[o.kind](id), o.reads); console.log('done ' + id); } catch (e) { console.log('failed ' + id + ' ' + e); }
      });
      wait(Promise.all(all.filter((_, j) => plan.ops[j].await)));
      await sleep(plan.ms);
      if (plan.how === 'spins') for (;;);
      if (plan.how === 'throws') throw new Error('no');
    };
    addEventListener('fetch', e => {
      const plan = JSON.parse(e.request.headers.get('plan'));
      if (plan.reads && e.request.body) read(e.request, 'all').catch(() => {});
      const done = run(plan, p => { if (plan.how !== 'leaves') e.waitUntil(p); });
      if (plan.how === 'waits') { e.waitUntil(sleep(25)); }
      const body = () => plan.how === 'streams' || plan.how === 'leaves' ? new ReadableStream({ n: 0, async pull(k) { await sleep(3); k.enqueue(new Uint8Array(4)); if (++this.n === 6) k.close(); } }) : 'ok';
      e.respondWith(done.then(() => new Response(body())));
    });
    addEventListener('task', e => { e.waitUntil(run(e.payload, p => e.waitUntil(p))); });`;
  const bodyOf = k => ({ none: null, text: 'some text', tail: { chunks: [[0, 'abc'], [2, 'def']], tail: 1e9 }, chunks: { chunks: Array(60).fill([7, 'chunk']), cap: 2 } })[k];
  const lasts = o => o.delay === null || o.delay >= 200 || KINDS[o.kind][2] && o.reads === 'all' && ['tail', 'chunks'].includes(o.body);
  let nth = 0;
  part('ends', 120, fc.record({ mode: fc.constantFrom('worker', 'pinned', 'pinned', 'pinned'), pool: fc.constantFrom(...POOLS), requests: fc.array(request, { minLength: 1, maxLength: 5 }) }), x => x.requests.some(r => r.ops.some(lasts)), async x => {
    const pinned = x.mode === 'pinned', P = x.pool, kept = pinned && P.cached > 0, inTurn = kept || !pinned;
    let rs = x.requests.map(r => ({ ...r, ops: r.ops.map(o => ({ ...o, await: o.await && !lasts(o) })) }));
    // Of two in a row, each has a context of its own.
    if (kept) for (let i = 1; i < rs.length; i++) if (rs[i].who === rs[i - 1].who && rs[i].owner === rs[i - 1].owner) rs.splice(i--, 1);
    // What is ended takes the place of none.
    if (kept) rs = rs.map(r => ['spins', 'gives up'].includes(r.how) ? { ...r, how: 'responds' } : r);
    const ops = {}, steps = [], at = [], own = ++nth;
    rs.forEach((r, i) => {
      r.ops.forEach((o, j) => {
        const k = KINDS[o.kind];
        ops[k[1](`${i}-${j}`)] = [{ ...(o.delay === null ? { never: true } : { delay: o.delay }), ...(k[2] ? { body: bodyOf(o.body) } : {}), ...(o.kind === 'kv' ? { value: 'v' } : {}) }];
      });
      const plan = { id: String(i), ops: r.ops, ms: r.ms, how: r.how, reads: r.reads };
      const s = { worker: 'v' + i, workerId: r.who, owner: r.owner + own, ...(inTurn ? { gap: 5 } : { at: r.at }) };
      if (!pinned) steps.push({ kind: 'drop', worker: 'v' + i });
      at.push(steps.length);
      if (r.how === 'gives up') s.giveUp = r.ms + 2;
      if (r.how === 'leaves') s.client = { take: 1 };
      steps.push(r.how === 'task' ? { kind: 'task', id: 't', payload: plan, ...s } : { kind: 'fetch', method: r.sent ? 'POST' : 'GET', headers: [['plan', JSON.stringify(plan)]], ...(r.sent ? { body: bodyOf(r.sent) } : {}), ...s });
      if (!pinned) steps.push({ kind: 'wait', worker: 'v' + i, at: 500 * (i + 1) }, { kind: 'drop', worker: 'v' + i }, { kind: 'wait', worker: 'v' + i, at: 500 * (i + 1) + 100 });
    });
    if (!inTurn) steps.sort((a, b) => a.at - b.at);
    const place = i => inTurn ? at[i] : steps.findIndex(s => (s.payload || JSON.parse(s.headers[0][1])).id === String(i));
    const w = { script, limits: { cpu: 100 }, ops, bindings: [['A', 'assets'], ['S', 'storage'], ['K', 'kv'], ['D', 'db'], ['W', 'worker']] };
    const s = { workers: Object.fromEntries(rs.map((_, i) => ['v' + i, w])), steps, patience: 20_000, linger: 200 };
    const o = pinned ? await c.sceneIn(P, { mode: 'pinned', ...s }) : c.scene({ mode: 'worker', ...s });
    const all = rs.map((r, i) => ({ r, i, p: place(i) }));
    for (const e of all) {
      const { r, i, p } = e, d = `request ${i} of ${rs.length} (${r.how}, ${x.mode}${pinned ? ' ' + JSON.stringify(P) : ''})`;
      const exec = o.one('exec', p), res = exec && exec.result;
      if (!exec || res === 'hang') fail('hang', `${d} does not end: ${c.show(o)}`);
      const ended = res === 'given up' || r.how === 'spins';
      if (!ended && res !== 'ok') fail('exec', `${d} ends with ${res}: ${c.show(o)}`);
      // Its end: from, and to at the latest
      let from = exec.t, to = exec.t;
      if (!pinned) from = to = 500 * (i + 1);
      else if (kept && !ended) {
        const next = all[i + 1] && o.one('exec', all[i + 1].p);
        from = next ? o.one('begin', all[i + 1].p).t : Infinity;
        to = next ? next.t : Infinity;
      }
      const mine = e => pinned ? e.w === `v${i}#${p}` : e.w === 'v' + i;
      const [LOW, HIGH] = [from - 0.01, to + 3];
      r.ops.forEach((q, j) => {
        const id = `${i}-${j}`, k = KINDS[q.kind], what = `${d}: ${q.kind} (answered after ${q.delay}${k[2] ? `, body ${q.body}, read: ${q.reads}` : ''}${q.await ? ', awaited' : ''})`;
        const op = o.all('op').find(e => e.tag === k[1](id));
        if (!op) return;
        if (op.t > HIGH) fail('late', `${what} begins at ${op.t}, after the end at ${to}`);
        const of = kind => o.trace.find(e => e.k === kind && e.n === op.n && e.w === op.w);
        const answer = of('answer'), dropped = of('dropped');
        if (o.trace.filter(e => e.k === 'op' && e.tag === op.tag).length > 1) fail('twice', `${what} is asked twice`);
        if (answer && answer.t > HIGH) fail('goes on', `${what} is still awaited at ${answer.t}, after the end at ${to}: ${c.show(o)}`);
        if (dropped && dropped.t < LOW) fail('early', `${what} is given up at ${dropped.t}, before the end at ${from}: ${c.show(o)}`);
        if (dropped && dropped.t > HIGH) fail('goes on', `${what} is given up at ${dropped.t} only, after the end at ${to}: ${c.show(o)}`);
        if (!answer && !dropped && to < Infinity) fail('goes on', `${what} is not given up at the end at ${to}: ${c.show(o)}`);
        if (q.await && !ended && r.how !== 'throws' && r.how !== 'leaves' && !o.logs().includes('done ' + id)) fail('awaited', `${what} is not done: ${c.show(o)}`);
        if (dropped) label('operation given up');
        if (!answer) return;
        if (q.kind === 'socket') {
          const gone = of('wsgone');
          if (gone && gone.t < LOW) fail('early', `${what} is closed at ${gone.t}, before the end at ${from}: ${c.show(o)}`);
          if (to < Infinity && (!gone || gone.t > HIGH)) fail('goes on', `${what} is open after the end at ${to}: ${c.show(o)}`);
          if (gone) label('socket closed');
        }
        if (k[2] && ['tail', 'chunks'].includes(q.body)) {
          const ref = o.all('refused').find(e => e.what.op === op.n && e.what.w === op.w);
          const whole = q.body === 'chunks' && answer.t + 60 * 7 <= (to < Infinity ? HIGH : 0);
          // Chunks are refused when the next one comes; who just waits is told at once, if it is not a file.
          const slack = q.body === 'chunks' ? q.kind === 'file' ? 14 : 7 : q.kind === 'file' ? Infinity : 0;
          if (ref && ref.t < LOW) fail('early', `${what}: the body is refused at ${ref.t}, before the end at ${from}: ${c.show(o)}`);
          if (to < Infinity && !whole && slack < Infinity && (!ref || ref.t > HIGH + slack)) fail('goes on', `${what}: the body is taken after the end at ${to}: ${c.show(o)}`);
          if (ref) label('body refused');
        }
      });
      if (r.sent === 'chunks' && r.how !== 'task' && to < Infinity) {
        const ref = o.all('refused').find(e => e.what.request === p);
        const begun = pinned ? o.one('begin', p).t : 500 * i;
        if (!ref ? begun + 60 * 7 > HIGH + 14 : ref.t > HIGH + 14) fail('goes on', `${d}: its own body is taken after the end at ${to}: ${c.show(o)}`);
        if (ref) label('own body refused');
      }
      const late = o.all('log').find(e => mine(e) && e.t > HIGH);
      if (pinned && late) fail('late', `${d}: it says ${JSON.stringify(late.text)} at ${late.t}, after the end at ${to}`);
      if (ended) label('ended by a limit or given up');
    }
  });
};
