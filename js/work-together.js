// C44: a request is served in the same way alone, and together with others on its thread.
'use strict';
module.exports = (t, c) => {
  const { fc, part, fail, label } = t;
  const A = c.A;
  const POOLS = [{ thread: 1, concurrent: 4, cached: 2 }, { thread: 1, concurrent: 8, cached: 0 }, { thread: 2, concurrent: 2, cached: 1 }, { thread: 4, concurrent: 1, cached: 3 }, { thread: 3, concurrent: 3, cached: 8 }];
  const delay = fc.oneof(fc.constant(0), fc.integer({ min: 0, max: 40 }));
  const act = fc.tuple(fc.constantFrom('fetch', 'fetch', 'stream', 'fails', 'kv', 'storage', 'db', 'sleep', 'sleep', 'interval', 'compute', 'gc', 'digest', 'micro', 'pump', 'tee', 'socket', 'abort', 'throws', 'decode', 'all', 'cleared'), delay, fc.nat(9));
  const request = fc.record({
    at: fc.oneof(fc.constant(0), fc.integer({ min: 0, max: 50 })), owner: fc.constantFrom('a', 'a', 'b'), worker: fc.nat(1), acts: fc.array(act, { maxLength: 6 }), kind: fc.constantFrom('fetch', 'fetch', 'fetch', 'task'),
    body: fc.oneof(fc.constant(null), fc.string({ maxLength: 8 }), fc.record({ chunks: fc.array(fc.tuple(fc.integer({ min: 0, max: 15 }), c.bin({ minLength: 1, maxLength: 5 })), { minLength: 1, maxLength: 3 }) })),
    reply: fc.constantFrom('text', 'text', 'stream', 'push', 'forward', 'echo', 'throw'), wait: c.rare(delay, null), leave: c.rare(fc.nat(30), null), slow: fc.array(fc.nat(12), { maxLength: 2 }),
  });
  const kase = fc.record({ pool: fc.constantFrom(...POOLS), requests: fc.array(request, { minLength: 2, maxLength: 6 }) });
  const act2js = (ops, i, j, [what, d, k], say) => {
    const key = `r${i}-${j}`;
    const up = rule => { ops[`fetch http://up.test/${key}`] = [rule]; return `http://up.test/${key}`; };
    switch (what) {
      case 'fetch': return `(await (await fetch('${up({ delay: d, status: 200 + k, body: 'A-' + key })}')).text())`;
      case 'stream': return `(await (await fetch('${up({ delay: k, body: { chunks: [[0, 'A'], [d, '-'], [k, key]] } })}')).text())`;
      case 'fails': return `(await fetch('${up({ delay: d, error: 'E-' + key })}').catch(e => 'failed ' + e.message))`;
      case 'kv': ops[`kv K get ${key}`] = [{ delay: d, value: 'A-' + key }]; return `(await env.K.get('${key}'))`;
      case 'storage': ops[`storage S get ${key}`] = [{ delay: d, body: 'A-' + key }]; return `(await env.S.get('${key}'))`;
      case 'db': ops[`db D ${key}`] = [{ delay: d, rows: JSON.stringify(['A-' + key]) }]; return `(await env.D.query('${key}'))[0]`;
      case 'sleep': return `(await sleep(${d}), 'slept')`;
      case 'interval': return `(await new Promise(r => { let n = 0; const id = setInterval(() => { ${say}('tick ' + n); if (++n === ${1 + k % 4}) { clearInterval(id); r(n); } }, ${d + 1}); }))`;
      case 'cleared': return `(await (async () => { const id = setTimeout(() => ${say}('never'), ${d}); clearTimeout(id); await sleep(${d + 2}); return 'cleared'; })())`;
      case 'compute': return `(() => { let s = ${d}; for (let n = 0; n < ${k * 3000}; n++) s = (s * 31 + n) % 100003; return s })()`;
      case 'gc': return `(() => { let a = []; for (let n = 0; n < ${k * 40}; n++) a.push(new Uint8Array(5000).fill(n)); return a.reduce((s, b) => s + b[7], 0) })()`;
      case 'digest': return `new Uint8Array(await crypto.subtle.digest('SHA-256', new TextEncoder().encode('${key}'))).slice(0, 4).join()`;
      case 'micro': return `(await (async () => { let s = 0; for (let n = 0; n < ${k * 9}; n++) s += await n; return s })())`;
      case 'pump': return `(await (async () => { const r = new ReadableStream({ async pull(c) { await sleep(${k}); c.enqueue('${key}'); this.n = (this.n || 0) + 1; if (this.n > 2) c.close(); } }).getReader(); let s = ''; for (;;) { const { done, value } = await r.read(); if (done) return s; s += value; } })())`;
      case 'tee': return `(await (async () => { const r = await fetch('${up({ delay: k, body: { chunks: [[0, 'A'], [d, '-'], [0, key]] } })}'); const z = r.clone(); return (await Promise.all([r.text(), z.text()])).join('+'); })())`;
      case 'socket': ops[`ws ws://up.test/${key}`] = [{ delay: k, incoming: [[d, { text: 'A-' + key }]], onclose: 1 }];
        return `(await new Promise(r => { const w = new WebSocket('ws://up.test/${key}'); w.onmessage = e => { w.close(); r(e.data) }; }))`;
      case 'abort': return `(await (async () => { const a = new AbortController(); sleep(${d}).then(() => a.abort('${key}')); return new Promise(r => a.signal.addEventListener('abort', () => r(a.signal.reason))); })())`;
      case 'throws': return `(() => { try { throw new Error('${key}') } catch (e) { return e.message } })()`;
      case 'decode': return `(() => { const t = new TextDecoder(); return t.decode(new Uint8Array([0xe2, 0x82]), { stream: true }) + t.decode(new Uint8Array([0xac])); })()`;
      case 'all': return `(await Promise.all([sleep(${d}).then(() => 1), sleep(${k}).then(() => 2), fetch('${up({ delay: k * 2, body: 'B' })}').then(r => r.text())])).join()`;
    }
  };
  const make = x => {
    const ops = { '*': [{ error: 'not expected' }] };
    const programs = x.requests.map((q, i) => {
      const say = `note`;
      const lines = q.acts.map((a, j) => `out.push(${act2js(ops, i, j, a, say)}); ${say}(${j});`);
      if (q.wait !== null) lines.unshift(`wait(sleep(${q.wait}).then(() => ${say}('waited')));`);
      if (q.kind === 'fetch' && q.body !== null && q.reply !== 'echo') lines.push('out.push(await request.text());');
      ops[`fetch http://up.test/forward-${i}`] = [{ delay: 2, body: { chunks: [[0, 'f'], [5, 'w' + i], [3, '!']] } }];
      if (q.kind === 'task') lines.push(q.reply === 'throw' ? `throw new Error(JSON.stringify(out));` : 'return { success: true, data: out };');
      else lines.push({
        text: `return new Response(JSON.stringify(out), { status: ${200 + i} });`, throw: 'throw new Error(JSON.stringify(out));',
        stream: `{ const parts = [JSON.stringify(out), '!', '${'x'.repeat(i)}']; return new Response(new ReadableStream({ async pull(k) { await sleep(${i + 1}); parts.length ? k.enqueue(parts.shift()) : k.close(); }, cancel() { ${say}('cancel') } })); }`,
        push: `return new Response(new ReadableStream({ async start(k) { for (const p of [JSON.stringify(out), '?', '${i}']) { await sleep(3); k.enqueue(p); } k.close(); } }));`,
        forward: `{ const r = await fetch('http://up.test/forward-${i}'); return new Response(r.body, { status: 201, headers: { 'x-out': encodeURIComponent(JSON.stringify(out)) } }); }`,
        echo: `return new Response(request.body, { headers: { 'x-out': encodeURIComponent(JSON.stringify(out)) } });`,
      }[q.reply]);
      return `async (request, wait) => { const out = [], note = m => console.log('@${i} ' + m); ${lines.join('\n')} }`;
    });
    const script = w => `
      const sleep = ms => new Promise(r => setTimeout(r, ms));
      const P = [${programs.join(',\n')}];
      ${w ? "addEventListener('fetch', e => e.respondWith(P[+new URL(e.request.url).pathname.slice(1)](e.request, p => e.waitUntil(p)))); addEventListener('task', e => P[e.payload](null, p => e.waitUntil(p)));"
        : "globalThis.default = { fetch: (r, env, ctx) => P[+new URL(r.url).pathname.slice(1)](r, p => ctx.waitUntil(p)), task: (e, env, ctx) => P[e.payload](null, p => ctx.waitUntil(p)) };"}`;
    const workers = { w0: { script: script(0) }, w1: { script: script(1) } };
    const step = (q, i) => ({
      ...(q.kind === 'task' ? { kind: 'task', payload: i } : { kind: 'fetch', method: q.body === null ? 'GET' : 'POST', url: 'http://w.test/' + i, body: q.body, client: q.leave === null ? { delays: q.slow } : { leave: q.leave, delays: q.slow } }),
      owner: q.owner, worker: 'w' + q.worker, at: q.at,
    });
    const base = { mode: 'pinned', patience: 20000, ops, bindings: [['K', 'kv'], ['D', 'db'], ['S', 'storage']], workers: { w0: { ...workers.w0, bindings: [['K', 'kv'], ['D', 'db'], ['S', 'storage']] }, w1: { ...workers.w1, bindings: [['K', 'kv'], ['D', 'db'], ['S', 'storage']] } } };
    return { base, step };
  };
  // What came of one request: its own records, times from its begin on.
  const of = (o, s, i) => {
    const begin = (o.one('begin', s) || { t: 0 }).t;
    const own = o.trace.filter(e => (e.step === s && !['begin', 'warm'].includes(e.k)) || (e.k === 'log' && e.text.startsWith(`@${i} `)) || (e.k === 'op' && new RegExp(`(r|forward-)${i}(-|$)`).test(e.tag)));
    const what = [], when = [];
    for (const { t, step, n, w, ...e } of own) { what.push(JSON.stringify(e)); when.push(t - begin); }
    return { what, when };
  };
  const differ = (d, a, b, one, other) => {
    // Records of one instant may change places.
    const bag = v => [...v.what].sort().join('\n');
    if (bag(a) === bag(b)) return;
    const s = new Set(a.what), z = new Set(b.what);
    fail('differs', `${d}: ${a.what.find(l => !z.has(l))} ${one}, ${b.what.find(l => !s.has(l))} ${other} (${a.what.length} and ${b.what.length} records)\n${one}: ${a.what.join(' ').slice(0, 900)}\n${other}: ${b.what.join(' ').slice(0, 900)}`);
  };
  part('same', 110, kase, x => x.requests.some((p, i) => x.requests.some((q, j) => i !== j && p.acts.length && q.acts.length && Math.abs(p.at - q.at) < 20)), async x => {
    const { base, step } = make(x);
    const rs = x.requests.map((q, i) => [q, i]).sort((p, q) => p[0].at - q[0].at || p[1] - q[1]);
    const all = await c.sceneIn(x.pool, { ...base, linger: 60, steps: rs.map(([q, i]) => step(q, i)) });
    for (let k = 0; k < rs.length; k++) {
      const [q, i] = rs[k];
      const one = await c.sceneIn(x.pool, { ...base, linger: 60, steps: [{ ...step(q, i), at: 0 }] });
      const a = of(one, 0, i), b = of(all, k, i);
      const d = `request ${i} (${q.kind}, ${q.reply})`;
      if (one.exec(0) === 'hang') throw new Error('hangs alone: ' + c.show(one));
      differ(d, a, b, 'alone', 'with others');
      const last = [Math.max(...a.when), Math.max(...b.when)];
      if (Math.abs(last[0] - last[1]) > 4) fail('time', `${d}: ends after ${last[0]} ms alone, after ${last[1]} ms with others`);
    }
  });

  // A Worker and the pool do the same for the same requests, one after the other.
  part('worker and pool', 60, fc.record({ requests: fc.array(request, { minLength: 1, maxLength: 4 }) }), x => x.requests.some(q => q.acts.length > 1), x => {
    const requests = x.requests.map(q => ({ ...q, worker: x.requests[0].worker, owner: 'a' }));
    const { base, step } = make({ requests });
    const steps = requests.map((q, i) => ({ ...step(q, i), gap: 300 }));
    const a = c.scene({ ...base, linger: 60, steps }), b = c.scene({ ...base, mode: 'worker', linger: 60, steps });
    requests.forEach((q, i) => differ(`request ${i} (${q.kind}, ${q.reply})`, of(a, i, i), of(b, i, i), 'in the pool', 'as a Worker'));
  });

  // Limits, in real time: they end the request that they are for, and count nothing of the others.
  const LIMITS = { cpu: 150, wall: 900 };
  const one = fc.record({ at: fc.integer({ min: 0, max: 120 }), owner: fc.constantFrom('a', 'a', 'b'), kind: fc.constantFrom('waits', 'waits', 'computes', 'streams'), d: fc.integer({ min: 20, max: 200 }) });
  const ender = fc.record({ at: fc.integer({ min: 0, max: 80 }), owner: fc.constantFrom('a', 'a', 'b'), kind: fc.constantFrom('spins', 'idles', 'idles', 'catches') });
  const limits = fc.record({ pool: fc.constantFrom({ thread: 1, concurrent: 6 }, { thread: 2, concurrent: 6 }, { thread: 8, concurrent: 1 }), enders: fc.array(ender, { minLength: 1, maxLength: 2 }), others: fc.array(one, { minLength: 1, maxLength: 3 }), late: fc.boolean() });
  part('limits', 4, limits, () => true, async x => {
    const all = [...x.enders, ...x.others].map(q => ({ ...q }));
    // Some run when the wall-clock limit of the one that idles is reached.
    if (x.late) all.forEach(q => { if (['waits', 'computes', 'streams'].includes(q.kind)) q.at += LIMITS.wall - 150; });
    // One computes all the while that the limit of one that idles is reached.
    for (const q of x.enders) if (q.kind === 'idles') all.push({ kind: 'busy', at: q.at + LIMITS.wall - 60, owner: q.owner });
    all.sort((a, b) => a.at - b.at);
    const script = `
      const sleep = ms => new Promise(r => setTimeout(r, ms));
      const compute = ms => { for (const t = Date.now(); Date.now() - t < ms;); };
      addEventListener('fetch', e => { const [, kind, d] = new URL(e.request.url).pathname.split('/'); e.respondWith((async () => {
        switch (kind) {
          case 'spins': await sleep(20); for (;;); case 'catches': await sleep(20); for (;;) { try { for (;;); } catch {} }
          case 'idles': await new Promise(() => {});
          case 'busy': for (let k = 0; k < 11; k++) { compute(10); await sleep(1); } break;
          case 'computes': for (let k = 0; k < 4; k++) { compute(10); await sleep(d / 4); } break;
          case 'streams': { let n = 0; return new Response(new ReadableStream({ async pull(k) { await sleep(d / 3); k.enqueue('x'); if (++n === 3) k.close(); } })); }
          default: await sleep(+d);
        }
        return new Response('done');
      })()); });`;
    const after = LIMITS.wall * 2 + 400;
    const run = () => c.sceneIn({ ...x.pool, cached: 1, limits: LIMITS }, { mode: 'pinned', real: true, patience: 6000, script, steps: [...all, { kind: 'waits', d: 5, at: after, owner: 'a' }].map(q => ({ kind: 'fetch', url: `http://w.test/${q.kind}/${q.d || 0}`, at: q.at, owner: q.owner })) });
    // What computes for 110 ms is not late again and again
    const late = o => all.some((q, i) => q.kind === 'busy' && o.exec(i) === 'WallClockTimeout');
    let o = await run();
    for (let n = 0; n < 3 && late(o); n++) o = await run();
    if (late(o)) fail('stopped', `what computes while the limit of another is reached does not go on: ${c.show(o)}`);
    all.push({ kind: 'waits', d: 5 });
    all.forEach((q, i) => {
      const d = `request ${i} (${q.kind})`;
      const r = o.exec(i), took = o.one('exec', i).t - o.one('begin', i).t;
      // As long as that it may have waited for others.
      const long = r === 'WallClockTimeout' && took > LIMITS.wall - 5;
      if (q.kind === 'idles') { if (!long) fail('idle', `${d} ends after ${took} ms: ${r}`); return; }
      if (q.kind === 'spins' || q.kind === 'catches') { if (!long && r !== 'CpuTimeLimit') fail('spin', `${d} ends after ${took} ms: ${r}`); return; }
      if (long) return label('delayed');
      const body = (o.got(i) || {}).body;
      if (r !== 'ok') fail('charged', `${d} ends after ${took} ms: ${r}`);
      if (body !== (q.kind === 'streams' ? 'xxx' : 'done') || o.got(i).end !== 'whole') fail('response', `${d}: ${JSON.stringify(o.got(i))}`);
    });
    if (o.all('pool').at(-1).in_use !== 0) fail('leak', c.show(o));
  });
};
