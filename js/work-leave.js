// C33: a client that leaves.
'use strict';
module.exports = (t, c) => {
  const { fc, part, fail, label } = t;
  const A = c.A;
  const gap = fc.oneof({ weight: 5, arbitrary: fc.oneof(fc.constant(0), fc.integer({ min: 1, max: 9 }), fc.integer({ min: 10, max: 60 }), fc.constant(700)) }, { weight: 1, arbitrary: fc.constant(1e6) });
  const kase = fc.record({
    mode: c.mode, module: fc.boolean(), k: fc.constantFrom('pull', 'pull', 'start', 'forward', 'tick'), gaps: fc.array(gap, { maxLength: 24 }), first: fc.oneof(fc.constant(0), fc.nat(30)),
    client: fc.oneof(fc.nat(8).map(take => ({ take, delays: [0] })), fc.record({ take: fc.nat(6), delays: fc.array(fc.nat(20), { minLength: 1, maxLength: 3 }) }), fc.record({ leave: fc.nat(40) })),
    wait: fc.option(fc.integer({ min: 0, max: 400 }), { nil: null }), cancel: fc.constantFrom('', '', 'slow', 'fails', 'never'), buffer: fc.integer({ min: 1, max: 4 }),
    // Something else goes on all the time
    busy: c.rare(fc.constantFrom(1, 5, 20, 90), 0),
    // Other streams of the request, which end meanwhile.
    aside: fc.array(fc.record({ at: fc.nat(60), how: fc.constantFrom('cancel', 'cancel', 'read', 'some') }), { maxLength: 2 }),
  });
  part('leaves', 150, kase, x => x.gaps.length > 0, x => {
    const n = x.gaps.length;
    const js = `
      const sleep = ms => new Promise(r => setTimeout(r, ms));
      const gaps = ${A(x.gaps)};
      const body = s => new Uint8Array([s]);
      const cancel = async why => { console.log('cancelled'); ${{ slow: 'await sleep(25); console.log("cleaned");', fails: 'throw new Error("no");', never: 'await new Promise(() => 0);' }[x.cancel] || ''} };
      const kinds = {
        pull() { let i = 0; return new ReadableStream({ async pull(ctl) { if (i === gaps.length) { console.log('closed'); return ctl.close(); } const d = gaps[i]; if (d) await sleep(d); console.log('made ' + i); ctl.enqueue(body(i++)) }, cancel }) },
        start() { return new ReadableStream({ async start(ctl) { (async () => { for (let i = 0; i < gaps.length; i++) { if (gaps[i]) await sleep(gaps[i]); console.log('made ' + i); ctl.enqueue(body(i)) } console.log('closed'); ctl.close() })().catch(() => console.log('stopped')) }, cancel }) },
        tick() { let i = 0, id; return new ReadableStream({ start(ctl) { id = setInterval(() => { if (i === gaps.length) { clearInterval(id); console.log('closed'); return ctl.close() } console.log('made ' + i); ctl.enqueue(body(i++)) }, 7) }, cancel(why) { clearInterval(id); return cancel(why) } }) },
        async forward() { return (await fetch('http://up.test/')).body },
      };
      async function make(q, wait) {
        if (q.url.endsWith('/again')) return new Response('again');
        ${x.wait === null ? '' : `wait(sleep(${x.wait}).then(() => console.log('waited')));`}
        for (const [at, how] of ${A(x.aside.map(a => [a.at, a.how]))}) (async () => {
          await sleep(at);
          const r = await fetch('http://up.test/aside');
          if (how === 'read') await r.text();
          else { const rd = r.body.getReader(); if (how === 'some') await rd.read(); await rd.cancel(); }
        })().catch(() => {});
        ${x.busy ? `setInterval(() => 0, ${x.busy});` : ''}
        await sleep(${x.first});
        return new Response(await kinds.${x.k}());
      }
      ${x.module ? `globalThis.default = { fetch: (q, env, ctx) => make(q, p => ctx.waitUntil(p)) };` : `addEventListener('fetch', e => e.respondWith(make(e.request, p => e.waitUntil(p))));`}`;
    const pinned = x.mode === 'pinned';
    const o = c.scene({ mode: x.mode, script: js, limits: { buffer: x.buffer }, patience: x.gaps.includes(1e6) ? 25_000 : 100_000, linger: 1500 + n * 710,
      ops: { 'fetch http://up.test/': [{ body: { chunks: x.gaps.map((d, i) => [d, String.fromCharCode(i)]), cap: 1 } }], 'fetch http://up.test/aside': [{ body: { chunks: [[0, 'a'], [2, 'b'], [500, 'c']], cap: 1 } }] },
      steps: [{ kind: 'fetch', url: 'http://w.test/', client: x.client }, ...(pinned ? [{ kind: 'fetch', url: 'http://w.test/again', at: 1200 + n * 710 }] : [])] });
    const d = `a ${x.k} body, ${x.mode}`;
    const logs = o.all('log');
    const at = s => (logs.find(l => l.text === s) || {}).t;
    const count = s => logs.filter(l => l.text === s).length;
    const left = o.one('left', 0);
    const exec = o.one('exec', 0);
    // Who waits for what never comes is ended by limits only.
    if ((!left || left.t >= 25_000) && x.gaps.includes(1e6)) return;
    if (!exec || exec.result !== 'ok') fail('exec', `${d}: the execution is ${exec && exec.result}: ${c.show(o)}`);
    if (o.all('clienthang').length) fail('hang', `${d}: the client waits for ever: ${c.show(o)}`);
    if (x.wait !== null && count('waited') !== 1) fail('wait', `${d}: what was given to waitUntil was not done: ${c.show(o)}`);
    if (pinned && o.got(1).body !== 'again') fail('again', `${d}: the next request got ${JSON.stringify(o.got(1))}`);
    if (!left) {
      if (count('cancelled')) fail('nobody', `${d}: cancelled, though nobody left: ${c.show(o)}`);
      label('all');
      return;
    }
    const waited = x.wait === null ? 0 : at('waited');
    const due = Math.max(left.t, x.first) + 110 + 25;
    if (exec.t > Math.max(due, waited + 5) + (pinned && x.cancel === 'never' ? 110 : 0)) fail('late', `${d}: the client left at ${left.t}, the execution ends at ${exec.t} only: ${c.show(o)}`);
    if (x.k === 'forward') {
      let last = x.first;
      for (const g of x.gaps.slice(0, -2)) last += g; // two more may be taken before the end shows
      if (n > 2 && !x.gaps.includes(1e6) && last > due + 10 && !o.all('refused').some(e => !/aside/.test(JSON.stringify(e.what)))) fail('upstream', `${d}: the client left at ${left.t}, and the rest is still fetched: ${c.show(o)}`);
      label('forward');
      return;
    }
    const closed = at('closed');
    if (count('cancelled') > 1) fail('twice', `${d}: cancelled ${count('cancelled')} times: ${c.show(o)}`);
    if (closed === undefined || closed > due) {
      // A pull() that gives a chunk just then is told by enqueue(), and has failed
      if (x.k === 'pull' && !count('cancelled') && logs.some(l => /Cannot enqueue: client disconnected/.test(l.text) && l.t <= due)) return label('told by enqueue');
      if (!count('cancelled')) fail('cancel', `${d}: the client left at ${left.t}, and the source is not told: ${c.show(o)}`);
      if (at('cancelled') > due) fail('when', `${d}: the client left at ${left.t}, and the source is told at ${at('cancelled')}`);
      if (x.cancel === 'slow' && !count('cleaned')) fail('clean', `${d}: cancel() is not waited for: ${c.show(o)}`);
      const more = logs.filter(l => l.text.startsWith('made') && l.t > at('cancelled'));
      if (more.length > 1) fail('goes on', `${d}: told at ${at('cancelled')}, and goes on: ${c.show(o)}`);
      label('cancelled');
    }
  });
};
