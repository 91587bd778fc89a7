// C39: the pool: who shares what, how many at a time, and that nothing gets lost.
'use strict';
module.exports = (t, c) => {
  const { fc, part, fail, label } = t;
  const A = c.A;
  const POOLS = [
    { thread: 1, concurrent: 1, cached: 1 }, { thread: 2, concurrent: 2, cached: 2, owner: 1 }, { thread: 2, concurrent: 4, cached: 1, owner: 2 },
    { thread: 3, concurrent: 1, cached: 0, owner: 2 }, { thread: 4, concurrent: 3, cached: 5 }, { thread: 1, concurrent: 2, cached: 3, owner: 1 },
    { thread: 2, concurrent: 1, cached: 2, owner: 2, simple: true, told: 3 }, { thread: 1, concurrent: 1, cached: 1, simple: true }, { thread: 3, concurrent: 1, cached: 3, owner: 1, simple: true }];
  const request = fc.record({
    at: fc.oneof(fc.constant(0), fc.integer({ min: 0, max: 60 }), fc.integer({ min: 0, max: 200 })), owner: fc.constantFrom('a', 'a', 'b', 'c'), worker: fc.constantFrom('w', 'w', 'second-worker', 'h\u00e9\u00e9\u00e9\u00e9\u00e9'), version: fc.constantFrom(1, 1, 2), env: fc.constantFrom(null, 1, 1, 2),
    d: fc.oneof(fc.constant(0), fc.integer({ min: 0, max: 40 })), kind: fc.constantFrom('ok', 'ok', 'ok', 'ok', 'throws', 'stream', 'task', 'wait', 'broken', 'leaves'), giveUp: c.rare(fc.integer({ min: 0, max: 30 }), null), op: fc.boolean(),
  });
  const kase = fc.record({ pool: fc.constantFrom(...POOLS), requests: fc.array(request, { minLength: 2, maxLength: 14 }) });
  part('sharing', 150, kase, x => x.requests.some((p, i) => x.requests.some((q, j) => j > i && p.owner === q.owner && q.at < p.at + p.d)), async x => {
    // In order of time; 1 us apart in effect, since they start one after the other.
    const rs = x.requests.map((r, i) => [r, i]).sort((p, q) => p[0].at - q[0].at || p[1] - q[1]).map(p => p[0]);
    const workers = {}, steps = [{ kind: 'pool', at: -1 }], at = [];
    const name = q => `${q.worker}`;
    rs.forEach((q, i) => {
      const id = `${q.worker}@${q.version}`;
      // The script of a step is that of its worker, version and environment.
      const w = `${q.kind === 'broken' ? 'broken ' : ''}${id}/${q.env}`;
      workers[w] = { env: { STAMP: String(q.env) }, script: q.kind === 'broken' ? 'throw new Error("broken")' : `
        const sleep = ms => new Promise(r => setTimeout(r, ms));
        globalThis.mine = [];
        const ID = ${A(id)};
        const say = i => JSON.stringify([ID, env.STAMP, mine.filter(k => k !== i)]);
        addEventListener('fetch', e => {
          const [, i, d, kind, op] = new URL(e.request.url).pathname.split('/');
          console.log('start ' + i);
          mine.push(+i);
          const text = say(+i);
          if (kind === 'wait') e.waitUntil(sleep(+d).then(() => console.log('end ' + i)));
          e.respondWith((async () => {
            if (op === 'true') await (await fetch('http://up.test/' + i)).text();
            if (kind !== 'wait') { await sleep(+d); console.log('end ' + i); }
            if (kind === 'throws') throw new Error(text);
            if (kind !== 'stream') return new Response(text);
            const parts = [text, '!'];
            return new Response(new ReadableStream({ async pull(k) { await sleep(3); parts.length ? k.enqueue(new TextEncoder().encode(parts.shift())) : k.close(); } }));
          })());
        });
        addEventListener('task', async e => {
          const { i, d } = e.payload;
          console.log('start ' + i);
          mine.push(i);
          const text = say(i);
          await sleep(d);
          console.log('end ' + i);
          return text;
        });` };
      at.push(steps.length);
      const who = { owner: q.owner, worker: w, workerId: q.worker, version: q.kind === 'broken' ? 9 : q.version, ...(q.env === null ? {} : { env: q.env }), at: q.at, ...(q.giveUp === null ? {} : { giveUp: q.giveUp }) };
      steps.push(q.kind === 'task' ? { kind: 'task', id: 't' + i, payload: { i, d: q.d }, ...who } : { kind: 'fetch', url: `http://w.test/${i}/${q.d}/${q.kind}/${q.op}`, ...(q.kind === 'leaves' ? { client: { leave: 5 } } : {}), ...who });
      steps.push({ kind: 'pool', at: q.at });
    });
    const end = Math.max(...rs.map(q => q.at)) + 1000;
    for (let k = 0; k < 4; k++) steps.push({ kind: 'pool', at: k * 70 + 35 });
    steps.sort((p, q) => p.at - q.at);
    rs.forEach((q, i) => { at[i] = steps.findIndex(s => s.url ? s.url.startsWith(`http://w.test/${i}/`) : s.id === 't' + i); });
    const o = await c.sceneIn(x.pool, { mode: 'pinned', patience: 5000, linger: end, ops: { '*': [{ delay: 4, body: 'x' }] }, workers, steps });
    const P = x.pool;
    const cap = P.owner ? P.owner * P.concurrent : Infinity;
    // What happened, in the order of the trace: a request is under way from its "begin" to its "exec".
    const place = (k, step) => o.trace.findIndex(e => e.k === k && e.step === step);
    const execs = rs.map((q, i) => o.one('exec', at[i]));
    const starts = rs.map((q, i) => o.all('log').filter(l => l.text === 'start ' + i));
    const ends = rs.map((q, i) => o.all('log').filter(l => l.text === 'end ' + i));
    const key = q => JSON.stringify([q.owner, q.worker, q.version, q.env]);
    const info = rs.map((q, i) => {
      const d = `request ${i} (${q.kind}, ${key(q)})`;
      if (!execs[i]) fail('lost', `${d}: no result of the execution: ${c.show(o)}`);
      const r = execs[i].result;
      if (r === 'hang') fail('hang', `${d} hangs: ${c.show(o)}`);
      return { q, i, d, r, refused: r.includes('at capacity'), from: o.one('begin', at[i]).t, to: execs[i].t, begin: place('begin', at[i]), end: place('exec', at[i]), ok: r === 'ok' };
    });
    for (const e of info) {
      const { q, i, d } = e;
      // Refused if and only if its owner has all that it may have.
      const others = info.filter(p => p !== e && !p.refused && p.q.owner === q.owner);
      const n = others.filter(p => p.begin < e.begin && p.end > e.begin).length;
      if (e.refused) {
        if (n < cap) fail('refused', `${d} is refused, and its owner has ${n} of ${cap} under way`);
        if (starts[i].length) fail('refused', `${d} is refused, and runs`);
        if (e.to > e.from + 1.5) fail('refused', `${d} is refused after ${e.to - e.from} ms`);
        label('refused');
        continue;
      }
      if (n >= cap) fail('too many', `${d} runs, and its owner already has ${n} of ${cap} under way`);
      if (starts[i].length > 1) fail('twice', `${d} runs ${starts[i].length} times`);
      if (q.kind === 'broken') { if (e.ok || starts[i].length) fail('broken', `${d}: ${e.r}`); continue; }
      if (e.r === 'given up') continue;
      if (!e.ok) fail('exec', `${d}: ${e.r}`);
      if (starts[i].length !== 1) fail('lost', `${d} did not run: ${c.show(o)}`);
      if (ends[i].length !== 1 && q.kind !== 'leaves') fail('lost', `${d} did not run to its end: ${c.show(o)}`);
      if (e.to > e.from + q.d + 60) fail('late', `${d} took ${e.to - e.from} ms`);
      // Its own script and environment, and what was there before.
      let text;
      if (q.kind === 'task') { const r = o.one('result', at[i]); if (!r || !r.success) fail('result', `${d}: ${JSON.stringify(r)}`); text = r.data; }
      else if (q.kind === 'leaves') { if (!o.got(at[i])) continue; text = Buffer.from(o.got(at[i]).body, 'latin1').toString(); }
      else {
        const g = o.got(at[i]);
        if (!g || g.end !== 'whole' || g.status !== (q.kind === 'throws' ? 500 : 200)) fail('response', `${d}: ${JSON.stringify(g)}`);
        text = Buffer.from(g.body, 'latin1').toString();
        if (q.kind === 'throws') text = text.slice(text.indexOf('['));
        if (q.kind === 'stream') { if (!text.endsWith('!')) fail('response', `${d}: ${text}`); text = text.slice(0, -1); }
      }
      let v;
      try { v = JSON.parse(text); } catch { fail('response', `${d}: ${text}`); }
      if (v[0] !== `${q.worker}@${q.version}`) fail('script', `${d} ran ${v[0]}`);
      if (v[1] !== String(q.env)) fail('env', `${d} saw the environment ${v[1]}`);
      e.seen = v[2];
      for (const k of v[2]) {
        const p = info[k];
        if (key(p.q) !== key(q)) fail('shared', `${d} shares a context with ${p.d}`);
        if (!p.ok) fail('reused', `${d} got the context of ${p.d}, which ended with ${p.r}`);
        if (p.end > e.begin) fail('concurrent', `${d} shares a context with ${p.d}, which is still running`);
        if (c.same(info[k].seen, v[2].slice(0, v[2].indexOf(k))) === false && info[k].seen) fail('history', `${d} saw ${JSON.stringify(v[2])}, and ${p.d} saw ${JSON.stringify(info[k].seen)}`);
      }
      const warm = o.one('warm', at[i]) !== undefined;
      if (warm !== v[2].length > 0) fail('warm', `${d}: ${warm ? 'a warm context that is new' : 'a used context that is not warm'}`);
      if (warm) label('warm');
      // It comes right after one that was the same, on the only isolate that there ever was: its context is kept.
      const before = info.filter(p => p.begin < e.begin && !p.refused);
      const last = before.reduce((a, p) => a && a.end > p.end ? a : p, null);
      const alone = before.every(p => p.q.owner === q.owner && before.filter(z => z.begin <= p.begin && z.end > p.begin).length <= P.concurrent);
      if (P.cached && last && key(last.q) === key(q) && last.ok && last.q.kind !== 'broken' && last.end < e.begin && alone) {
        label('right after');
        if (!warm) fail('cold', `${d} comes right after ${last.d}, and gets a new context`);
      }
    }
    const nexts = {};
    for (const e of info) if (e.seen && e.seen.length) {
      const k = e.seen[e.seen.length - 1];
      if (nexts[k] !== undefined) fail('shared', `requests ${nexts[k]} and ${e.i} both follow ${k}`);
      nexts[k] = e.i;
    }
    // What the pool says
    const over = o.all('pool').at(-1), first = o.one('pool', 0);
    const ran = info.filter(e => !e.refused).length, n = ['requests', 'hits', 'misses'].map(k => over[k] - first[k]);
    if (n[0] !== rs.length || n[1] + n[2] !== ran) fail('counted', `${n} requests, hits and misses are counted, of ${rs.length} requests, ${ran} of which ran`);
    if (over.in_use !== 0) fail('leak', `${over.in_use} isolates are in use when all is over: ${JSON.stringify(info.map(e => [e.d, e.r]))}`);
    if (over.total > P.thread) fail('total', `${over.total} isolates are left of at most ${P.thread}`);
    if (over.capacity !== P.thread) fail('capacity', `the capacity is ${over.capacity}`);
    for (const s of o.all('pool').filter(s => s.step !== null)) {
      const k = place('pool', s.step);
      const active = info.filter(e => !e.refused && e.q.kind !== 'broken' && e.begin < k && e.end > k);
      const owners = new Map();
      for (const e of active) owners.set(e.q.owner, (owners.get(e.q.owner) || 0) + 1);
      const least = [...owners.values()].reduce((n, m) => n + Math.ceil(m / P.concurrent), 0);
      if (s.in_use < least) fail('in use', `at ${s.t} ms ${s.in_use} isolates are in use, and ${JSON.stringify([...owners])} need ${least}`);
      if (s.in_use > s.total) fail('in use', `${s.in_use} of ${s.total} are in use`);
    }
  });
};
