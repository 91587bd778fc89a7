// C49: limits of memory, of whole workers.
'use strict';
module.exports = (t, c) => {
  const { fc, part, fail, label } = t;
  const MB = 1 << 20;
  const PLACES = ['start', 'late', 'timer', 'body', 'wait', 'task', 'scheduled'];
  /** A script that does what "act(i)" does, at the place that each event names */
  const script = (module, act) => `
    const sleep = ms => new Promise(r => setTimeout(r, ms));
    const keep = [];
    ${act}
    async function make(url, wait) {
      const [, i, place] = new URL(url).pathname.split('/');
      if (place === 'none') return new Response('fine');
      if (place === 'start') return new Response(act(+i));
      if (place === 'late') { await sleep(3); return new Response(act(+i)); }
      if (place === 'timer') return new Response(await new Promise((r, j) => setTimeout(() => { try { r(act(+i)) } catch (e) { j(e) } }, 4)));
      if (place === 'wait') { wait(sleep(2).then(() => act(+i))); return new Response('given'); }
      let n = 0;
      return new Response(new ReadableStream({ pull(k) { if (n++) { act(+i); k.enqueue('z'); k.close(); } else k.enqueue('a'); } }));
    }
    ${module ? `globalThis.default = { fetch: (q, env, ctx) => make(q.url, p => ctx.waitUntil(p)), async task(e) { act(e.payload.i) }, async scheduled(e) { act(e.payload ? e.payload.i : e.scheduledTime) } };`
      : `addEventListener('fetch', e => e.respondWith(make(e.request.url, p => e.waitUntil(p))));
         addEventListener('task', async e => { act(e.payload.i) });
         addEventListener('scheduled', async e => { act(e.scheduledTime) });`}`;
  const event = (i, place) => place === 'task' ? { kind: 'task', payload: { i } } : place === 'scheduled' ? { kind: 'task', source: { kind: 'schedule', time: i }, payload: { i } } : { kind: 'fetch', url: `http://w.test/${i}/${place}` };

  // Buffers: exactly what is beyond the limit is refused, and ends its request only.
  const request = fc.record({
    owner: fc.constantFrom('a', 'a', 'b'), place: fc.constantFrom(...PLACES), what: fc.constantFrom('none', 'some', 'some', 'some', 'over', 'over', 'many'), catches: fc.boolean(),
    type: fc.constantFrom('ArrayBuffer', 'Uint8Array', 'Float64Array', 'slice'), parts: fc.array(fc.integer({ min: 1, max: 300 }), { minLength: 1, maxLength: 4 }),
  });
  const kase = fc.record({ mode: c.mode, module: fc.boolean(), heap: fc.constantFrom(3, 8, 13, 32), requests: fc.array(request, { minLength: 1, maxLength: 7 }), kept: fc.boolean() });
  part('buffers', 60, kase, x => x.requests.some(r => r.what === 'over' || r.what === 'many'), async x => {
    const pinned = x.mode === 'pinned', limit = x.heap * MB, rs = x.requests, share = Math.floor(limit * 0.9 / rs.length);
    const piece = Math.floor(limit * 0.07);
    // What each request asks for, in bytes
    const plans = rs.map(r => {
      const sum = r.parts.reduce((a, b) => a + b, 0), some = r.parts.map(p => Math.floor(share * p / sum / 16) * 16);
      return r.what === 'none' ? [] : r.what === 'over' ? [...some.slice(1), limit + 16 + r.parts[0] * 1000 * 16] : r.what === 'many' ? Array(40).fill(piece) : some;
    });
    const act = `
      const plans = ${JSON.stringify(plans)}, rs = ${JSON.stringify(rs.map(r => [r.type, r.catches]))};
      const get = (type, n) => { switch (type) { case 'ArrayBuffer': return new ArrayBuffer(n); case 'Uint8Array': return new Uint8Array(n); case 'Float64Array': return new Float64Array(n / 8); default: { const h = new ArrayBuffer(n / 2); return [h, h.slice(0)]; } } };
      function act(i) {
        const [type, catches] = rs[i];
        const mine = ${x.kept} ? keep : [];
        let n = 0;
        try { for (const p of plans[i]) { mine.push(get(type, p)); n++ } } catch (e) { console.log('refused ' + i + ' ' + n + ' ' + e.name); if (!catches) throw e }
        console.log('did ' + i + ' ' + n + ' ' + mine.length);
        return 'did';
      }`;
    const steps = rs.map((r, i) => ({ ...event(i, r.place), owner: r.owner, worker: 'v', gap: 1 }));
    const o = await c.sceneIn({ limits: { heap: x.heap } }, { mode: x.mode, patience: 5000, workers: { v: { script: script(x.module, act), limits: { heap: x.heap } } }, steps });
    const used = {}, full = {};
    rs.forEach((r, i) => {
      const d = `request ${i} of ${JSON.stringify(rs.map(r => [r.owner, r.what, r.place, r.type, r.catches ? 'catches' : ''].join(' ').trim()))}, ${x.mode}, ${x.heap} MB`;
      const own = pinned ? r.owner : '';
      used[own] = used[own] || 0;
      const logs = o.logs().map(l => l.split(' ')), refused = logs.find(l => l[0] === 'refused' && +l[1] === i), did = logs.find(l => l[0] === 'did' && +l[1] === i);
      const exec = o.exec(i);
      if (exec === 'hang' || o.all('clienthang').length) fail('hang', `${d} goes on: ${c.show(o)}`);
      if (full[own]) return;
      if (!refused && !did) fail('lost', `${d} did not run: ${c.show(o)}`);
      const granted = refused ? +refused[2] : +did[2];
      const bytes = plans[i].slice(0, granted).reduce((a, b) => a + b, 0);
      if (bytes > limit) fail('granted', `${d} got ${bytes} bytes`);
      const over = r.what === 'over' || r.what === 'many';
      if (r.what === 'over' && (!refused || granted !== plans[i].length - 1)) fail(refused ? 'refused' : 'granted', `${d}: ${plans[i]}: ${granted} are granted`);
      if (r.what === 'many') {
        if (!refused) fail('granted', `${d}: ${granted} times ${piece} are granted`);
        if (bytes < limit - used[own] - piece - 0.02 * limit) fail('refused', `${d}: is refused more than ${granted} times ${piece}, when ${used[own]} were in use at most`);
      }
      if (!over && refused) fail('refused', `${d}: ${plans[i]} after ${used[own]} bytes: refused after ${granted}`);
      if (refused && refused[3] !== 'RangeError') fail('error', `${d}: refused by a ${refused[3]}`);
      // The end
      const late = pinned && r.place === 'wait';
      const ends = over ? late ? ['MemoryLimit', 'ok'] : ['MemoryLimit'] : ['ok'];
      if (!ends.includes(exec)) fail(over ? 'not ended' : 'ended', `${d} ends with ${exec}: ${c.show(o)}`);
      label(over ? `over ${r.place}` : `under ${r.place}`);
      // Its client
      if (!r.place.match(/task|scheduled/)) {
        const g = o.got(i), whole = { start: 'did', late: 'did', timer: 'did', wait: 'given', body: 'az' }[r.place];
        if (!over || r.catches || r.place === 'wait') { if (!over && (!g || g.body !== whole || g.end !== 'whole')) fail('answer', `${d} is answered ${JSON.stringify(g)}`); }
        if (g && g.status === 200 && g.end === 'whole' && g.body !== whole) fail('cut', `${d}: the client is told that ${JSON.stringify(g.body)} is all`);
      } else if (!over && !(o.one('result', i) || {}).success) fail('result', `${d}: ${JSON.stringify(o.one('result', i))}`);
      // What a refused copy was taken from is in use too
      const half = refused && r.type === 'slice' ? plans[i][granted] / 2 : 0;
      used[own] += bytes + (used[own] + bytes + half < limit ? half : 0);
      // Nothing is said about what comes when hardly anything is left.
      const next = rs.slice(i + 1).reduce((a, r, j) => a + (pinned && r.owner !== own || r.what === 'many' ? 0 : plans[i + 1 + j].filter(p => p < limit).reduce((a, b) => a + b, 0)), 0);
      if (used[own] > limit - 300_000 || used[own] + next > limit - 20_000 || r.what === 'many' && used[own] > 0.97 * limit) full[own] = true;
    });
  });

  // The heap: endless growth ends its request, wherever it is and whatever it catches, and not the process.
  const GROW = {
    numbers: 'k.push(new Array(3e5).fill(i + 0.5)); mb += 2.3;', objects: 'k.push(Array.from({ length: 4e4 }, (_, j) => ({ i, j }))); mb += 1.2;', deep: 'k = [k, new Array(1e5).fill(0.1 + i)]; mb += 0.8;',
    map: 'const m = new Map(); for (let j = 0; j < 1e4; j++) m.set(j, [j + 0.5]); k.push(m); mb += 0.8;', closures: 'for (let j = 0; j < 1e4; j++) { const a = [i, j, 0.5]; k.push(() => a); } mb += 1.2;',
  };
  const grow = fc.record({ mode: c.mode, module: fc.boolean(), place: fc.constantFrom(...PLACES), again: fc.constantFrom(...PLACES), what: fc.constantFrom('numbers', 'numbers', 'deep', ...Object.keys(GROW)), heap: fc.constantFrom(16, 64, 100), catches: fc.boolean(), local: fc.boolean() });
  part('heap', 3, grow, () => true, async x => {
    const loop = `${x.local ? 'let k = [];' : ''} let mb = 0, told = 0; for (let i = 0; mb < 1500; i++) { ${GROW[x.what]} if (mb > told + 16) { told = mb; console.log('has ' + Math.floor(mb) + ' ' + I) } } return 'did'`;
    const act = `let k = []; function act(I) { ${x.catches ? `try { ${loop} } catch (e) { console.log('caught'); return 'did' } finally { if (k.length < 0) return 'did' }` : loop} }`;
    const o = await c.sceneIn({ limits: { heap: x.heap } }, { mode: x.mode, real: true, patience: 60_000, workers: { v: { script: script(x.module, act), limits: { heap: x.heap } } },
      steps: [event(0, x.place), event(1, 'none'), ...(x.mode === 'worker' ? [{ kind: 'new' }] : []), event(1, 'none'), event(4, x.again)].map(s => ({ ...s, worker: 'v', gap: 5 })) });
    const d = `${x.what} in ${x.place}${x.catches ? ', caught' : ''}, ${x.mode}, ${x.heap} MB`;
    const got = I => Math.max(0, ...o.logs().map(l => l.split(' ')).map(l => l[0] === 'has' && +l[2] === I ? +l[1] : 0));
    const exec = o.exec(0), had = got(0), last = x.mode === 'worker' ? 4 : 3, more = got(4);
    if (exec === 'hang' || o.all('clienthang').length) fail('hang', `${d} goes on: ${c.show(o)}`);
    if (had > 1450) fail('not ended', `${d} got all it asked for, ${had} MB`);
    if (exec !== 'MemoryLimit' && !(x.mode === 'pinned' && x.place === 'wait' && exec === 'ok')) fail('reason', `${d} ends with ${exec}`);
    const g = o.got(0);
    if (g && g.end === 'whole' && g.status === 200 && g.body !== 'given') fail('cut', `${d}: the client is told that ${JSON.stringify(g)} is all`);
    if (x.place === 'wait' && (!g || g.body !== 'given')) fail('given', `${d}: the response was ${JSON.stringify(g)}`);
    for (const i of x.mode === 'worker' ? [3] : [1, 2]) {
      const g = o.got(i);
      if (!g || g.body !== 'fine' || o.exec(i) !== 'ok') fail('again', `${d}: the next request gets ${JSON.stringify(g)} and ends with ${o.exec(i)}`);
    }
    // Who comes next has no more room than who came first
    if (o.exec(last) === 'hang') fail('hang', `${d}, then in ${x.again}: goes on: ${c.show(o)}`);
    if (more > had * 1.5 + 100) fail('more', `${d}: the first gets ${had} MB, the next one in ${x.again} ${more} MB`);
    if (o.exec(last) !== 'MemoryLimit' && !(x.mode === 'pinned' && x.again === 'wait')) fail('reason', `${d}: the next one in ${x.again} ends with ${o.exec(last)}`);
    label(`heap ${x.place}`);
    if (had > 2 * x.heap + 64) fail('heap-limit', `${d} gets ${had} MB before it is ended`);
  });
};
