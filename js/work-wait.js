// C35: what is given to waitUntil is done, and delays nobody.
'use strict';
module.exports = (t, c) => {
  const { fc, part, fail, label } = t;
  const A = c.A;
  // Each item is given by the handler, or by an earlier item while it runs.
  const item = fc.record({
    by: fc.oneof(fc.constant(-1), fc.integer({ min: -1, max: 8 })), when: fc.constantFrom('start', 'end'), d: fc.oneof(fc.constant(0), fc.nat(30), fc.integer({ min: 100, max: 900 })),
    kind: fc.constantFrom('promise', 'promise', 'promise', 'fetch', 'stream', 'thenable', 'value', 'micro'), ends: fc.constantFrom('', '', '', 'throw new Error("no")', 'throw undefined', 'throw null'),
  });
  const kase = fc.record({
    mode: c.mode, module: fc.boolean(), event: fc.constantFrom('fetch', 'fetch', 'fetch', 'task', 'scheduled'), items: fc.array(item, { minLength: 1, maxLength: 9 }),
    wait: fc.oneof(fc.constant(0), fc.nat(40)), give: fc.constantFrom('before', 'before', 'after'), outcome: fc.constantFrom('ok', 'ok', 'ok', 'stream', 'throw', 'throw now'), again: fc.nat(200),
  });
  part('done', 130, kase, x => x.items.length > 1, x => {
    const items = x.items.map((it, i) => ({ ...it, by: it.by < i ? it.by : -1 }));
    // These hold nothing open themselves, so that they can give nothing later.
    items.forEach(it => { if (it.by >= 0 && (items[it.by].kind === 'value' || items[it.by].kind === 'micro')) it.when = 'start'; });
    const script = `
      const sleep = ms => new Promise(r => setTimeout(r, ms));
      const ITEMS = ${A(items)};
      const ENDS = [${items.map(it => `() => { ${it.ends} }`).join(', ')}];
      function give(i, wait) {
        const it = ITEMS[i];
        const kids = when => ITEMS.forEach((k, j) => { if (k.by === i && k.when === when) give(j, wait) });
        console.log('begin ' + i);
        kids('start');
        const end = () => { kids('end'); console.log('end ' + i); ENDS[i](); };
        switch (it.kind) {
          case 'value': console.log('end ' + i); kids('end'); return wait([undefined, null, 5, {}, 'x', { then: 5 }][i % 6]);
          case 'micro': return wait(Promise.resolve().then(() => { end() }));
          case 'thenable': return wait({ then(f, g) { sleep(it.d).then(() => { try { end(); f() } catch (e) { g(e) } }) } });
          case 'fetch': return wait((async () => { const r = await fetch('http://up.test/' + i); await r.text(); end() })());
          case 'stream': return wait((async () => { const s = new ReadableStream({ async pull(c) { await sleep(it.d); c.enqueue('x'); c.close() } }).getReader(); while (!(await s.read()).done); end() })());
          default: return wait((async () => { await sleep(it.d); end() })());
        }
      }
      const all = wait => ITEMS.forEach((k, i) => { if (k.by < 0) give(i, wait) });
      async function make(wait, url) {
        if (url && url.endsWith('/again')) return new Response('again');
        ${x.give === 'before' ? 'all(wait);' : ''}
        ${x.outcome === 'throw now' ? 'throw new Error("now")' : `await sleep(${x.wait});`}
        ${x.give === 'after' ? 'all(wait);' : ''}
        ${x.outcome === 'throw' ? 'throw new Error("later")' : ''}
        console.log('given');
        ${x.event === 'fetch' ? `return new Response(${x.outcome === 'stream' ? "new ReadableStream({ async pull(c) { await sleep(20); c.enqueue('given'); c.close() } })" : "'given'"});` : ''}
      }
      ${x.module ? `globalThis.default = { fetch: (q, env, ctx) => make(p => ctx.waitUntil(p), q.url)${x.event === 'fetch' ? '' : `, ${x.event}: (e, env, ctx) => make(p => ctx.waitUntil(p))`} };`
        : `addEventListener('fetch', e => e.respondWith(make(p => e.waitUntil(p), e.request.url))); ${x.event === 'fetch' ? '' : `addEventListener('${x.event}', e => make(p => e.waitUntil(p)));`}`}`;
    // ---- when each must be done ----
    const start = [], end = [];
    const t0 = x.give === 'before' ? 0 : x.wait;
    const given = items.map(() => false);
    items.forEach((it, i) => {
      if (it.by < 0) { start[i] = t0; given[i] = !(x.give === 'after' && x.outcome === 'throw now'); }
      else { given[i] = given[it.by]; start[i] = it.when === 'start' ? start[it.by] : end[it.by]; }
      end[i] = start[i] + (it.kind === 'value' || it.kind === 'micro' ? 0 : it.d);
    });
    const ops = { '*': [{ body: 'x' }] };
    items.forEach((it, i) => { ops['fetch http://up.test/' + i] = [{ delay: it.d, body: 'x' }]; });
    const last = Math.max(0, ...end.filter((e, i) => given[i]));
    const pinned = x.mode === 'pinned';
    const again = pinned ? [{ kind: 'fetch', url: 'http://w.test/again', at: last + 500 + x.again }] : [];
    const first = x.event === 'fetch' ? { kind: 'fetch' } : { kind: 'task', source: x.event === 'scheduled' ? { kind: 'schedule', time: 5 } : { kind: 'invoke' } };
    const o = c.scene({ mode: x.mode, script, ops, patience: 50000, steps: [first, ...again] });
    const d = `${x.event}, ${x.module ? 'module' : 'classic'}, ${x.mode}`;
    const logs = o.all('log');
    items.forEach((it, i) => {
      const ends = logs.filter(l => l.text === 'end ' + i);
      if (!given[i]) { if (ends.length) fail('extra', `${d}: ${c.show(o)}`); return; }
      if (ends.length !== 1) fail('lost', `${d}: item ${i} is done ${ends.length} times: ${c.show(o)}`);
      if (ends[0].t > end[i] + 10 || ends[0].t < end[i] - 0.01) fail('time', `${d}: item ${i} is done at ${ends[0].t}, and not at ${end[i]}: ${c.show(o)}`);
    });
    const exec = o.one('exec', 0);
    if (!exec || exec.result !== 'ok') fail('exec', `${d}: the execution is ${exec && exec.result}: ${c.show(o)}`);
    const until = Math.max(last, x.outcome === 'throw now' ? 0 : x.wait + (x.event === 'fetch' && x.outcome === 'stream' ? 20 : 0));
    if (exec.t < last) fail('early', `${d}: the execution ends at ${exec.t}, before all is done at ${last}: ${c.show(o)}`);
    if (exec.t > until + 20) fail('late', `${d}: the execution ends at ${exec.t}, and all is done at ${until}: ${c.show(o)}`);
    const failed = x.outcome.startsWith('throw');
    const at = x.outcome === 'throw now' ? 0 : x.wait;
    if (x.event === 'fetch') {
      const g = o.got(0);
      if (!g || g.status !== (failed ? 500 : 200) || (!failed && g.body !== 'given') || g.end !== 'whole') fail('response', `${d}: the client got ${JSON.stringify(g)}: ${c.show(o)}`);
      if (g.t > at + 5) fail('delayed', `${d}: the response is made at ${at}, and the client gets it at ${g.t}`);
    } else {
      const r = o.one('result', 0);
      if (!r || r.success !== !(failed || items.some((it, i) => given[i] && it.ends && it.kind !== 'value'))) fail('result', `${d}: the result is ${JSON.stringify(r)}: ${c.show(o)}`);
    }
    if (pinned && (!o.got(1) || o.got(1).body !== 'again')) fail('again', `${d}: the next request got ${JSON.stringify(o.got(1))}: ${c.show(o)}`);
    label(x.event + (failed ? ' fails' : ''));
  });
};
