// C31: a handler sees the request as it was sent.
'use strict';
module.exports = (t, c) => {
  const { fc, part, fail, label } = t;
  const A = c.A;
  const err = fc.oneof(fc.constant('cut'), fc.string({ minLength: 0, maxLength: 5 }), fc.constant('é\u{1F600}'));
  const body = fc.oneof(fc.constant(null), c.bin({ maxLength: 60 }),
    fc.record({ chunks: fc.oneof({ weight: 4, arbitrary: fc.array(fc.tuple(fc.oneof(fc.constant(0), fc.nat(9)), c.bin({ maxLength: 12 })), { maxLength: 25 }) }, { weight: 1, arbitrary: fc.array(fc.tuple(fc.constant(0), c.bin({ minLength: 1, maxLength: 3 })), { minLength: 14, maxLength: 45 }) }), cap: fc.integer({ min: 1, max: 5 }),
      err: c.rare(err), tail: fc.option(fc.nat(20), { nil: undefined }) })
      .map(b => ({ chunks: b.err === undefined ? b.chunks : [...b.chunks, [2, { err: b.err }]], cap: b.cap, tail: b.tail })));
  const url = fc.record({ scheme: fc.constantFrom('http', 'https'), host: fc.constantFrom('w.test', 'w.test:8080', 'sub.w.test', '127.0.0.1:81', '[::1]:82'), path: fc.array(fc.constantFrom('a', 'b%20c', '%C3%A9', '~', 'x;y', '%2F', 'é'), { maxLength: 3 }),
    query: fc.option(fc.constantFrom('', 'a=1&b=2', 'x=%20+y', 'q=é', '?', 'a=b=c'), { nil: undefined }) })
    .map(u => `${u.scheme}://${u.host}/${u.path.join('/')}${u.query === undefined ? '' : '?' + u.query}`);
  const hname = fc.constantFrom('x-a', 'X-Big', 'content-type', 'Accept', 'x-empty', 'cookie', '__proto__', 'constructor');
  const hval = fc.constantFrom('1', 'two words', 'a, b', 'k="v"; q=1', '', 'é');
  const read = fc.constantFrom('text', 'arrayBuffer', 'chunks', 'clone', 'clone both', 'none', 'part', 'tee', 'response', 'slow', 'late', 'twice');
  const one = fc.record({ method: fc.constantFrom('GET', 'POST', 'PUT', 'DELETE', 'PATCH', 'HEAD', 'OPTIONS'), url,
    headers: fc.array(fc.tuple(hname, hval), { maxLength: 4 }).map(l => [...new Map(l.map(p => [p[0], p]))].map(p => p[1])), body, read });
  const kase = fc.record({ mode: c.mode, module: fc.boolean(), reqs: fc.array(one, { minLength: 1, maxLength: 3 }), buffer: fc.integer({ min: 1, max: 6 }) });
  const JS = `
    const S = b => { let s = ''; for (const x of new Uint8Array(b.buffer || b, b.byteOffset || 0, b.byteLength)) s += String.fromCharCode(x); return s };
    const sleep = ms => new Promise(r => setTimeout(r, ms));
    async function all(stream, pause) { let s = ''; const r = stream.getReader(); for (;;) { const { done, value } = await r.read(); if (done) return s; s += S(value); if (pause) await sleep(pause); } }
    const READ = {
      text: async q => S(new TextEncoder().encode(await q.text())),
      arrayBuffer: async q => S(await q.arrayBuffer()),
      chunks: async q => q.body ? all(q.body) : '',
      slow: async q => q.body ? all(q.body, 7) : '',
      late: async q => { await sleep(40); return S(await q.arrayBuffer()) },
      clone: async q => { const k = q.clone(); return S(await k.arrayBuffer()) },
      'clone both': async q => { const k = q.clone(); const [a, b] = await Promise.all([q.arrayBuffer(), k.arrayBuffer()]); if (S(a) !== S(b)) throw new Error('clone differs'); return S(a) },
      none: async q => 'not read',
      part: async q => { if (q.body) { const r = q.body.getReader(); await r.read(); await r.cancel('enough'); } return 'not read' },
      tee: async q => { if (!q.body) return ''; const [a, b] = q.body.tee(); const [x, y] = await Promise.all([all(a), all(b, 3)]); if (x !== y) throw new Error('tee differs'); return x },
      response: async q => S(await new Response(q.body).arrayBuffer()),
      twice: async q => { const s = S(await q.arrayBuffer()); let again = false; try { await q.text(); again = true } catch (e) {} if (again && q.bodyUsed !== true) throw new Error('read twice'); return s },
    };
    async function handle(q) {
      const how = q.headers.get('x-how');
      const out = { method: q.method, url: q.url, isRequest: q instanceof Request, headers: [...q.headers].filter(p => p[0] !== 'x-how'), hasBody: q.body !== null };
      try { out.body = await READ[how](q); } catch (e) { out.err = e instanceof Error ? e.message : 'not an Error'; }
      return new Response(JSON.stringify(out));
    }`;
  part('seen', 130, kase, x => x.reqs.some(q => q.body), x => {
    const js = JS + (x.module ? `globalThis.default = { fetch: (q) => handle(q) };` : `addEventListener('fetch', e => e.respondWith(handle(e.request)));`);
    const steps = x.reqs.map((q, i) => ({ kind: x.mode === 'worker' && i ? 'new' : 'wait' , q }));
    const list = [];
    const at = [];
    x.reqs.forEach((q, i) => {
      if (i && x.mode === 'worker') list.push({ kind: 'new' });
      at.push(list.length);
      // One after the other: the pool's requests are apart by more than they take.
      list.push({ kind: 'fetch', at: x.mode === 'pinned' ? i * 5000 : undefined, method: q.method, url: q.url, headers: [...q.headers, ['x-how', q.read]], body: q.body });
    });
    const o = c.scene({ mode: x.mode, script: js, limits: { buffer: x.buffer }, steps: list });
    x.reqs.forEach((q, i) => {
      const g = o.got(at[i]);
      const d = `${q.method} ${q.url} read as ${q.read}`;
      if (!g || g.status !== 200 || o.exec(at[i]) !== 'ok') fail('lost', `${d}: ${c.show(o)}`);
      const r = JSON.parse(Buffer.from(g.body, 'latin1').toString('utf8'));
      if (!r.isRequest || r.method !== q.method) fail('method', `${d} is seen as ${r.method}`);
      if (r.url !== q.url) fail('url', `${d} is seen as ${r.url}`);
      const h = m => JSON.stringify(m.map(p => [p[0].toLowerCase(), p[1]]).sort((a, b) => a[0] < b[0] ? -1 : 1));
      if (h(r.headers) !== h(q.headers)) fail('headers', `${d} has the headers ${h(r.headers)}, not ${h(q.headers)}`);
      const b = q.body;
      const bad = b && b.chunks && b.chunks.find(k => typeof k[1] !== 'string');
      const bytes = b === null ? '' : typeof b === 'string' ? b : b.chunks.filter(k => typeof k[1] === 'string').map(k => k[1]).join('');
      if (q.read === 'none' || q.read === 'part') { label('not read'); return; }
      if (bad) {
        if (r.err === undefined || !r.err.includes(bad[1].err)) fail('error', `${d}: a body that fails with ${JSON.stringify(bad[1].err)} gives ${JSON.stringify(r)}`);
        label('fails');
        return;
      }
      const want = q.read === 'text' ? c.utf8(new TextDecoder().decode(Buffer.from(bytes, 'latin1'))) : bytes;
      if (r.body !== want) fail('body', `${d} has the body ${JSON.stringify(r.body === undefined ? r.err : r.body)}, not ${JSON.stringify(want)}`);
      label(b === null ? 'no body' : typeof b === 'string' ? 'bytes' : 'stream');
    });
  });
};
