// C38: what one request leaves behind does not reach the next ones of its worker.
'use strict';
module.exports = (t, c) => {
  const { fc, part, fail, label } = t;
  const A = c.A;
  const delay = fc.oneof(fc.constant(0), fc.integer({ min: 0, max: 40 }));
  const left = fc.tuple(fc.constantFrom('fetch', 'fetch', 'fetch fails', 'body', 'tee', 'kv', 'kv', 'db', 'storage', 'timeout', 'interval', 'socket', 'stream', 'never', 'microtasks', 'throws'), fc.oneof(delay, fc.integer({ min: 20, max: 150 })));
  const own = fc.tuple(fc.constantFrom('fetch', 'fetch', 'fetch fails', 'kv', 'kv', 'db', 'storage', 'sleep', 'interval', 'socket', 'self'), delay);
  const request = fc.record({
    gap: fc.oneof(fc.constant(0), delay), left: fc.array(left, { maxLength: 4 }), own: fc.array(own, { maxLength: 4 }), kind: fc.constantFrom('fetch', 'fetch', 'fetch', 'task'),
    body: fc.oneof(fc.constant(null), fc.string({ maxLength: 8 }), fc.record({ chunks: fc.array(fc.tuple(fc.integer({ min: 0, max: 15 }), c.bin({ minLength: 1, maxLength: 5 })), { minLength: 1, maxLength: 3 }) })), read: fc.boolean(),
    reply: fc.constantFrom('text', 'text', 'stream', 'forward', 'throw', 'late'), wait: fc.oneof(fc.constant(null), delay), leaves: c.rare(fc.nat(2), null), cut: fc.boolean(),
  });
  const kase = fc.record({ mode: c.mode, style: fc.constantFrom('classic', 'module'), requests: fc.array(request, { minLength: 2, maxLength: 5 }) });
  part('sequence', 130, kase, x => x.requests.some((r, i) => i < x.requests.length - 1 && r.left.length), x => {
    const ops = { '*': [{ error: 'not expected' }] };
    const body = x.requests.map((q, i) => {
      const lines = [`n.seen = ++globalThis.seen;`];
      const ask = (what, j, d, mine) => {
        const key = `${mine ? 'own' : 'left'}-${i}-${j}`;
        const say = A('A-' + key);
        switch (what) {
          case 'fetch': case 'self': ops[`fetch http://up.test/${key}`] = [{ delay: d, status: 200, body: what === 'fetch' ? { chunks: [[0, 'A-'], [d % 7, key]] } : 'A-' + key }]; return `fetch('http://up.test/${key}').then(r => r.text())`;
          case 'fetch fails': ops[`fetch http://up.test/${key}`] = [{ delay: d, error: 'E-' + key }]; return `fetch('http://up.test/${key}').then(() => 'no error', e => 'A-' + String(e && e.message || e).match(/E-(.*)/)[1])`;
          case 'kv': ops[`kv K get ${key}`] = [{ delay: d, value: 'A-' + key }]; return `K.get(${A(key)})`;
          case 'db': ops[`db D ${key}`] = [{ delay: d, rows: JSON.stringify(['A-' + key]) }]; return `D.query(${A(key)}).then(r => r[0])`;
          case 'storage': ops[`storage S get ${key}`] = [{ delay: d, body: 'A-' + key }]; return `S.get(${A(key)})`;
          case 'sleep': case 'timeout': return `new Promise(r => setTimeout(r, ${d}, ${say}))`;
          case 'interval': return mine ? `new Promise(r => { let k = 0; const id = setInterval(() => { if (++k === 2) { clearInterval(id); r(${say}); } }, ${d + 1}); })` : `setInterval(() => note('tick'), ${d + 1})`;
          case 'socket': ops[`ws ws://up.test/${key}`] = [{ delay: d % 5, incoming: [[d, { text: 'A-' + key }], [3, { text: 'more-' + key }], [3, { closed: [1000, ''] }]], onclose: 1 }];
            return `new Promise(r => { const w = new WebSocket('ws://up.test/${key}'); w.onmessage = e => { note('message'); r(e.data); ${mine ? 'w.close();' : ''} }; })`;
          case 'body': ops[`fetch http://up.test/${key}`] = [{ delay: 0, body: { chunks: [[0, 'first'], [d, 'second'], [d, 'third']] } }]; return `fetch('http://up.test/${key}').then(r => { const reader = r.body.getReader(); return reader.read().then(() => reader.read()); })`;
          case 'tee': ops[`fetch http://up.test/${key}`] = [{ delay: d, body: { chunks: [[0, 'x'], [d, 'y']] } }]; return `fetch('http://up.test/${key}').then(r => r.clone())`;
          case 'stream': return 'new ReadableStream({ async pull(k) { await sleep(5); k.enqueue(new Uint8Array(3)); note("pull"); } }).getReader().read()';
          case 'never': return 'new Promise(() => {})';
          case 'microtasks': return '(async () => { for (let k = 0; k < 50; k++) await 0; note("micro"); })()';
          case 'throws': return `Promise.resolve().then(() => { throw new Error('left') })`;
        }
      };
      q.left.forEach(([what, d], j) => lines.push(what === 'interval' ? ask(what, j, d, false) + ';' : `((p) => p.then(v => note('left'), () => note('left failed')))(${ask(what, j, d, false)});`));
      if (q.kind === 'fetch' && q.read && q.body !== null) lines.push('n.body = await n.request.text();');
      q.own.forEach(([what, d], j) => lines.push(`n.own.push(await ${ask(what, j, d, true)});`));
      if (q.kind === 'fetch' && q.reply === 'forward') ops[`fetch http://up.test/forward-${i}`] = [{ delay: 1, body: { chunks: [[0, 'f'], [3, 'w' + i], [3, '!']] } }];
      if (q.wait !== null) lines.push(`n.wait(sleep(${q.wait}).then(() => note('waited')));`);
      const text = 'JSON.stringify([n.i, n.seen, n.body, n.own])';
      if (q.kind === 'fetch') lines.push({
        text: `return new Response(${text}, { status: 200 + n.i });`, late: `await sleep(20); return new Response(${text}, { status: 200 + n.i });`,
        stream: `{ const parts = [${text}, '!', ${A('x'.repeat(i))}]; return new Response(new ReadableStream({ async pull(k) { await sleep(2); parts.length ? k.enqueue(new TextEncoder().encode(parts.shift())) : k.close(); } }), { status: 200 + n.i }); }`,
        forward: `{ const r = await fetch('http://up.test/forward-${i}'); return new Response(r.body, { status: 200 + n.i }); }`, throw: `throw new Error('thrown ' + ${text});`,
      }[q.reply]);
      else lines.push(q.reply === 'throw' ? `throw new Error('thrown ' + ${text});` : q.reply === 'late' ? `return { success: true };` : `return [n.i, n.seen, n.own];`);
      return `async n => { const note = what => console.log('note ${i} ' + what); ${lines.join('\n')} }`;
    });
    const steps = x.requests.map((q, i) => {
      return q.kind === 'task' ? { kind: 'task', gap: q.gap, id: 'task-' + i, payload: { i } }
        : { kind: 'fetch', gap: q.gap, method: q.body === null ? 'GET' : 'POST', url: 'http://w.test/' + i, body: q.body, ...(q.leaves === null ? {} : { client: q.reply === 'stream' || q.reply === 'forward' ? { take: q.leaves } : { leave: q.leaves * 5 } }) };
    });
    const o = c.scene({ mode: x.mode, patience: 1900, ops, bindings: [['K', 'kv'], ['D', 'db'], ['S', 'storage']], steps, script: `
      const sleep = ms => new Promise(r => setTimeout(r, ms));
      globalThis.seen = 0;
      ${x.style === 'classic' ? 'const { K, D, S } = env;' : 'let K, D, S;'}
      const HANDLERS = [${body.join(',\n')}];
      const serve = (i, request, wait) => HANDLERS[i]({ i, request, wait, own: [], body: null, seen: 0 });
      const num = r => +new URL(r.url).pathname.slice(1);
      ${x.style === 'classic' ? `
      addEventListener('fetch', e => e.respondWith(serve(num(e.request), e.request, p => e.waitUntil(p))));
      addEventListener('task', e => serve(e.payload.i, null, p => e.waitUntil(p)));` : `
      globalThis.default = { fetch(r, env, ctx) { ({ K, D, S } = env); return serve(num(r), r, p => ctx.waitUntil(p)); }, task(e, env, ctx) { ({ K, D, S } = env); return serve(e.payload.i, null, p => (ctx || e).waitUntil(p)); } };`}` });
    let seen = 0;
    x.requests.forEach((q, i) => {
      const d = `request ${i} (${x.mode}, ${x.style}, ${q.kind}, ${q.reply})`;
      const ex = o.one('exec', i);
      if (!ex || ex.result !== 'ok') fail('exec', `${d}: ${ex && ex.result}: ${c.show(o)}`);
      seen++;
      const own = q.own.map((_, j) => `A-own-${i}-${j}`);
      const text = () => JSON.stringify([i, seen, q.kind === 'fetch' && q.read && q.body !== null ? Buffer.from(typeof q.body === 'string' ? q.body : q.body.chunks.map(k => k[1]).join(''), 'latin1').toString('utf8') : null, own]);
      if (x.mode === 'pinned' && (o.one('warm', i) !== undefined) !== (i > 0)) fail('warm', `${d}: the context is ${i > 0 ? 'new' : 'used'}: ${c.show(o)}`);
      if (q.kind === 'task') {
        const r = o.one('result', i);
        if (!r) fail('lost', `${d}: no result`);
        if (q.reply === 'throw') { if (r.success || !r.error.endsWith(text())) fail('result', `${d}: ${JSON.stringify(r)}, not ${text()}`); }
        else if (!r.success || !c.same(r.data, q.reply === 'late' ? null : [i, seen, own])) fail('result', `${d}: ${JSON.stringify(r)}`);
      } else if (!(q.leaves !== null && !(q.reply === 'stream' || q.reply === 'forward'))) {
        const g = o.got(i);
        if (!g) fail('lost', `${d}: no response: ${c.show(o)}`);
        if (g.status !== (q.reply === 'throw' ? 500 : 200 + i)) fail('status', `${d}: the status is ${g.status}: ${JSON.stringify(g)}`);
        const want = q.reply === 'throw' ? text() : q.reply === 'forward' ? `fw${i}!` : q.reply === 'stream' ? text() + '!' + 'x'.repeat(i) : text();
        const got = Buffer.from(g.body || '', 'latin1').toString('utf8');
        if (q.leaves !== null && o.one('left', i) ? !want.startsWith(got) && !got.includes('\ufffd') : q.reply === 'throw' ? !got.endsWith(want) : got !== want || g.end !== 'whole') fail('body', `${d}: the body is ${got}, ended ${g.end}, not ${want}`);
      }
      if (q.wait !== null && !o.all('log').some(l => l.text === `note ${i} waited` && l.t <= ex.t)) fail('waitUntil', `${d}: the execution ended before its waitUntil`);
    });
    // In the pool nothing that was left goes on once its request is over.
    if (x.mode === 'pinned') for (const l of o.all('log').filter(l => l.text.startsWith('note '))) {
      const i = +l.text.split(' ')[1];
      const ex = o.one('exec', i);
      if (l.t > ex.t + 1) fail('goes on', `what request ${i} left behind ran at ${l.t}, after its end at ${ex.t}: ${l.text}`);
    }
    x.requests.forEach(q => { q.left.forEach(l => label(l[0])); });
  });
};
