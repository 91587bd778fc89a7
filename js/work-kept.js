// C48: which contexts and isolates the pool keeps, and what it counts.
'use strict';
module.exports = (t, c) => {
  const { fc, part, fail, label } = t;
  const A = c.A;
  const limits = { cpu: 100 };
  const POOLS = [
    { thread: 1, concurrent: 1, cached: 2 }, { thread: 2, concurrent: 3, cached: 3, reuses: 3 }, { thread: 3, concurrent: 2, cached: 1, owner: 1, reuses: 2 },
    { thread: 2, concurrent: 1, cached: 4, owner: 2, simple: true, told: 5 }, { thread: 3, concurrent: 1, cached: 2, simple: true, reuses: 4 },
    { thread: 2, concurrent: 2, cached: 0 }, { thread: 2, concurrent: 20, cached: 2, reuses: 1 }].map(p => ({ ...p, limits }));
  // Few of them in each case, so that they come again, in each order
  const whom = fc.array(fc.record({ owner: fc.constantFrom('a', 'a', 'a', 'a', 'b', 'c', 'd'), worker: fc.constantFrom('w', 'w', 'v', 'u', 'x'), version: fc.constantFrom(1, 1, 1, 2, -3), env: fc.constantFrom(null, null, 1, 0) }), { minLength: 2, maxLength: 7 });
  const request = fc.record({
    whom: fc.nat(6),
    kind: fc.oneof({ weight: 16, arbitrary: fc.constantFrom('ok', 'ok', 'throws', 'task', 'stream', 'wait', 'leaves') }, { weight: 2, arbitrary: fc.constantFrom('spin', 'spin late', 'spin task') }), n: fc.constantFrom(1, 1, 2, 3, 4),
  });
  let nth = 0;
  part('kept', 65, fc.record({ pool: fc.constantFrom(...POOLS), whom, requests: fc.array(request, { minLength: 4, maxLength: 20 }) }), x => x.requests.length > 5, async x => {
    const P = x.pool, N = P.thread, own = ++nth;
    // Who is ended is often the second one, and is followed by another
    const rs = x.requests.map(q => ({ ...q, ...x.whom[q.whom % x.whom.length] })).flatMap(q => [...Array(q.n - 1).fill({ ...q, kind: 'ok' }), q, ...(q.kind.startsWith('spin') && q.n > 1 ? [{ ...q, kind: 'ok' }] : [])]);
    const script = `
      const mine = [];
      const sleep = ms => new Promise(r => setTimeout(r, ms));
      const spin = () => { for (;;); };
      addEventListener('fetch', e => {
        const [, i, kind] = new URL(e.request.url).pathname.split('/');
        const text = JSON.stringify(mine);
        console.log(i + ' ' + text);
        mine.push(+i);
        if (kind === 'spin') spin();
        if (kind === 'wait') e.waitUntil(sleep(7));
        if (kind === 'spin-late') e.waitUntil(sleep(2).then(spin));
        if (kind === 'throws') throw new Error('no');
        if (kind !== 'stream' && kind !== 'leaves') return e.respondWith(new Response(text));
        const parts = ['a', 'b', 'c'];
        e.respondWith(new Response(new ReadableStream({ async pull(k) { await sleep(2); parts.length ? k.enqueue(new TextEncoder().encode(parts.shift())) : k.close(); } })));
      });
      addEventListener('task', async e => {
        const { i, kind } = e.payload;
        console.log(i + ' ' + JSON.stringify(mine));
        mine.push(i);
        await sleep(1);
        if (kind === 'spin task') spin();
      });`;
    const steps = [{ kind: 'pool' }];
    const at = rs.map((q, i) => {
      const who = { owner: q.owner + own, worker: 'v', workerId: q.worker, version: q.version, ...(q.env === null ? {} : { env: q.env }), gap: 1 };
      steps.push(q.kind.includes('task') ? { kind: 'task', id: 't', payload: { i, kind: q.kind }, ...who } : { kind: 'fetch', url: `http://w.test/${i}/${q.kind.replace(' ', '-')}`, ...(q.kind === 'leaves' ? { client: { take: 1 } } : {}), ...who });
      steps.push({ kind: 'pool', gap: 0 });
      return steps.length - 2;
    });
    const o = await c.sceneIn(P, { mode: 'pinned', patience: 20_000, workers: { v: { script } }, steps });
    // Owners of earlier cases make room first, as theirs was used before.
    let isolates = [], hits = 0;
    rs.forEach((q, i) => {
      const d = `request ${i} of ${JSON.stringify(P)} (${JSON.stringify({ ...q, n: undefined })}, after ${JSON.stringify(rs.slice(0, i).map(p => [p.owner, p.worker, p.version, p.env, p.kind].join(' ')))})`;
      let s = isolates.find(s => s.owner === q.owner);
      if (s) { hits++; label('isolate kept'); } else {
        if (isolates.length === N) { isolates.shift(); label('isolate made room'); }
        isolates.push(s = { owner: q.owner, contexts: [] });
      }
      isolates = [...isolates.filter(z => z !== s), s];
      const key = JSON.stringify([q.worker, q.version, q.env]);
      const found = s.contexts.find(z => z.key === key && z.uses.length < (P.reuses || 1000));
      if (!found && s.contexts.some(z => z.key === key)) label('used up');
      const want = found ? found.uses : [];
      const log = o.all('log').map(e => e.text.match(/^(\d+) (\[.*\])$/)).find(m => m && +m[1] === i);
      const warm = o.one('warm', at[i]) !== undefined;
      if (!log) fail('lost', `${d} did not run: ${c.show(o)}`);
      const got = JSON.parse(log[2]);
      if (!c.same(got, want)) fail(got.length ? 'kept' : 'lost', `${d} runs in the context of ${JSON.stringify(got)}, not of ${JSON.stringify(want)}`);
      if (warm !== !!found) fail('warm', `${d} is ${warm ? '' : 'not '}called warm`);
      if (found) label('context kept');
      s.contexts = s.contexts.filter(z => z !== found);
      const r = o.exec(at[i]);
      if (q.kind === 'spin' || q.kind === 'spin task') { if (r === 'ok') fail('limit', `${d} ends with ${r}`); } else if (r !== 'ok') fail('exec', `${d} ends with ${r}`);
      if (!q.kind.startsWith('spin')) {
        if (P.cached && s.contexts.length === P.cached) { s.contexts.shift(); label('context made room'); }
        if (P.cached) s.contexts.push({ key, uses: [...want, i] });
      } else label(found ? 'warm one ended' : 'new one ended');
      const [a, b] = [o.one('pool', 0), o.one('pool', at[i] + 1)];
      if (b.in_use) fail('in use', `${b.in_use} isolates are in use after ${d}`);
      if (b.total > N || b.total < isolates.length || b.capacity !== N) fail('total', `${b.total} of ${b.capacity} isolates after ${d}`);
      const counts = [b.requests - a.requests, b.hits - a.hits, b.misses - a.misses], right = [i + 1, hits, i + 1 - hits];
      if (!c.same(counts, right)) fail('counted', `${JSON.stringify(counts)} requests, hits and misses are counted, not ${JSON.stringify(right)}, after ${d}`);
      if (b.rate !== b.hits / b.requests) fail('rate', `a rate of ${b.rate} for ${b.hits} hits of ${b.requests}`);
    });
  });
};
