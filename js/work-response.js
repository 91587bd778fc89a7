// C32: the client gets the response as the handler made it.
'use strict';
module.exports = (t, c) => {
  const { fc, part, fail, label } = t;
  const A = c.A;
  const bin = c.bin({ maxLength: 50 });
  const text = fc.oneof(fc.string({ maxLength: 20 }), fc.string({ unit: 'binary', maxLength: 8 }).map(s => s.toWellFormed()));
  const chunk = fc.record({ d: fc.oneof(fc.constant(0), fc.nat(6)), b: c.bin({ maxLength: 9 }), as: fc.constantFrom('u8', 'u8', 'view', 'dataview', 'buffer', 'string') });
  const stream = fc.record({ k: fc.constantFrom('pull', 'start', 'through'), chunks: fc.oneof({ weight: 4, arbitrary: fc.array(chunk, { maxLength: 14 }) }, fc.array(chunk, { minLength: 14, maxLength: 40 })), end: fc.constantFrom('close', 'close', 'close', 'error', 'throw') });
  const up = fc.oneof(bin, fc.constant(null), fc.record({ chunks: fc.array(fc.tuple(fc.nat(6), c.bin({ minLength: 1, maxLength: 9 })), { maxLength: 14 }), cap: fc.integer({ min: 1, max: 4 }),
    err: c.rare(fc.constantFrom('cut', '')) }).map(b => ({ chunks: b.err === undefined ? b.chunks : [...b.chunks, [2, { err: b.err }]], cap: b.cap })));
  const body = fc.oneof(
    fc.record({ k: fc.constant('none') }), fc.record({ k: fc.constant('text'), s: text }), fc.record({ k: fc.constantFrom('u8', 'view', 'buffer', 'blob', 'u16'), b: bin.map(s => s.length & 1 ? s.slice(1) : s) }),
    fc.record({ k: fc.constant('stream'), s: stream }), fc.record({ k: fc.constant('stream'), s: stream }),
    fc.record({ k: fc.constant('forward'), up, how: fc.constantFrom('same', 'body', 'body', 'clone', 'tee', 'part', 'new') }),
    fc.record({ k: fc.constant('echo'), up: up.filter(u => u !== null), clone: fc.boolean() }));
  const hname = fc.constantFrom('x-a', 'X-B', 'content-type', 'set-cookie', 'Set-Cookie', 'vary');
  const hval = fc.constantFrom('1', 'two words', 'a=b; Path=/', 'text/html; charset=utf-8', '', 'é', 'x, y');
  const kase = fc.record({
    mode: c.mode, module: fc.boolean(), body, status: fc.oneof(fc.constant(undefined), fc.integer({ min: 200, max: 599 })),
    headers: fc.array(fc.tuple(hname, hval), { maxLength: 5 }), form: fc.constantFrom('pairs', 'Headers', 'append'),
    // What is done with the response before it is handed over.
    after: fc.constantFrom('', '', '', 'clone', 'clone read', 'of clone', 'wrap', 'wait', 'read part'),
    respond: fc.constantFrom('promise', 'direct', 'late'), delays: fc.array(fc.oneof(fc.constant(0), fc.nat(8)), { maxLength: 4 }), buffer: fc.integer({ min: 1, max: 6 }),
  });
  const C = k => ({ u8: `BYTES(${A(k.b)})`, view: `VIEW(${A(k.b)})`, dataview: `new DataView(VIEW(${A(k.b)}).buffer, 4, ${k.b.length})`, buffer: `BYTES(${A(k.b)}).buffer`, string: A(k.b) })[k.as];
  const bytesOf = k => k.as === 'string' ? c.utf8(k.b) : k.b;
  const S = s => {
    const chunks = `[${s.chunks.map(k => `[${k.d}, () => ${C(k)}]`).join(', ')}]`;
    return `STREAM.${s.k}(${chunks}, ${A(s.end)})`;
  };
  const JS = `
    const BYTES = s => Uint8Array.from(s, c => c.charCodeAt(0));
    const VIEW = s => { const a = new Uint8Array(s.length + 16).fill(9); for (let i = 0; i < s.length; i++) a[4 + i] = s.charCodeAt(i); return a.subarray(4, 4 + s.length) };
    const sleep = ms => new Promise(r => setTimeout(r, ms));
    const STREAM = {
      pull(chunks, end) { let i = 0; return new ReadableStream({ async pull(ctl) {
        if (i === chunks.length) { if (end === 'close') return ctl.close(); if (end === 'throw') throw new Error('source'); return ctl.error(new Error('source')); }
        const k = chunks[i++]; if (k[0]) await sleep(k[0]); ctl.enqueue(k[1]()); } }) },
      start(chunks, end) { return new ReadableStream({ async start(ctl) {
        for (const k of chunks) { if (k[0]) await sleep(k[0]); ctl.enqueue(k[1]()); }
        if (end === 'close') return ctl.close(); if (end === 'throw') throw new Error('source'); ctl.error(new Error('source')); } }) },
      through(chunks, end) { const s = STREAM.start(chunks, end).getReader(); return new ReadableStream({ async pull(ctl) { const r = await s.read(); r.done ? ctl.close() : ctl.enqueue(r.value) } }) },
    };`;
  part('got', 150, kase, x => x.body.k !== 'none', x => {
    const b = x.body;
    const hs = A(x.headers);
    const status = x.status === undefined ? '' : `status: ${x.status}, `;
    const head = { pairs: `headers: ${hs}`, Headers: `headers: new Headers(${hs})`, append: '' }[x.form];
    const init = `{${status}${head}}`;
    let make;
    switch (b.k) {
      case 'none': make = `new Response(null, ${init})`; break;
      case 'text': make = `new Response(${A(b.s)}, ${init})`; break;
      case 'u8': make = `new Response(BYTES(${A(b.b)}), ${init})`; break;
      case 'view': make = `new Response(VIEW(${A(b.b)}), ${init})`; break;
      case 'u16': make = `new Response(new Uint16Array(VIEW(${A(b.b)}).buffer, 4, ${b.b.length / 2}), ${init})`; break;
      case 'buffer': make = `new Response(BYTES(${A(b.b)}).buffer, ${init})`; break;
      case 'blob': make = `new Response(new Blob([BYTES(${A(b.b)})]), ${init})`; break;
      case 'stream': make = `new Response(${S(b.s)}, ${init})`; break;
      case 'echo': make = `new Response(${b.clone ? 'q.clone().body' : 'q.body'}, ${init})`; break;
      default: make = { same: 'up', body: `new Response(up.body, ${init})`, new: `new Response(up.body, ${init})`, clone: `new Response(up.clone().body, ${init})`, tee: `new Response(up.body.tee()[1], ${init})`,
        part: `new Response(await rest(up.body), ${init})` }[b.how];
    }
    const js = JS + `
      async function rest(s) { const r = s.getReader(); await r.read(); r.releaseLock(); return s }
      async function make(q) {
        ${b.k === 'forward' ? "const up = await fetch('http://up.test/f');" : ''}
        let r = ${make};
        ${x.form === 'append' && !(b.k === 'forward' && b.how === 'same') ? `for (const [k, v] of ${hs}) r.headers.append(k, v);` : ''}
        ${{ clone: 'const other = r.clone();', 'clone read': 'await r.clone().arrayBuffer();', 'of clone': 'r = r.clone();', wrap: 'r = new Response(r.body, r);', wait: 'await sleep(15);',
          'read part': 'if (r.body) { const d = r.body.getReader(); await d.read(); d.releaseLock(); }' }[x.after] || ''}
        return r;
      }
      ${x.module ? `globalThis.default = { ${x.respond === 'late' ? 'async fetch(q) { await sleep(9); return make(q) }' : 'fetch: make'} };`
        : `addEventListener('fetch', e => e.respondWith(${{ promise: 'make(e.request)', direct: '(async () => make(e.request))()', late: 'sleep(9).then(() => make(e.request))' }[x.respond]}));`}`;
    const reads = (b.k === 'forward' && b.how === 'part' ? 1 : 0) + (x.after === 'read part' ? 1 : 0);
    // clone.arrayBuffer() takes chunks of bytes only.
    if (x.after === 'clone read' && b.k === 'stream' && b.s.chunks.some(k => k.as !== 'u8' && k.as !== 'view')) return;
    // Reading a part of a body that failed fails the handler: another property.
    const failsEarly = x.after === 'clone read' || reads;
    const upBody = b.up;
    const upErr = upBody && upBody.chunks && upBody.chunks.find(k => typeof k[1] !== 'string');
    const err = b.k === 'stream' ? b.s.end !== 'close' : (b.k === 'forward' || b.k === 'echo') && !!upErr;
    if (err && failsEarly) return;
    const list = b.k === 'stream' ? b.s.chunks.map(bytesOf) : upBody && upBody.chunks ? upBody.chunks.filter(k => typeof k[1] === 'string').map(k => k[1]) : null;
    // What was read before is gone, but where chunks are cut is known for a few kinds only.
    if (reads && !(b.k === 'stream' && b.s.chunks.every(k => k.b.length))) return;
    const o = c.scene({ mode: x.mode, script: js, limits: { buffer: x.buffer }, ops: { 'fetch http://up.test/f': [{ body: upBody, headers: [['x-up', '1'], ['set-cookie', 'u=1'], ['set-cookie', 'v=2']], status: 203 }] },
      steps: [{ kind: 'fetch', method: 'POST', body: b.k === 'echo' ? upBody : null, client: { delays: x.delays } }] });
    const g = o.got(0);
    const d = `a response of kind ${b.k}${b.how ? ' ' + b.how : ''}${b.s && b.s.k ? ' ' + b.s.k : ''}, ${x.after || 'as it is'}, ${x.mode}`;
    if (!g || o.exec(0) !== 'ok') fail('lost', `${d}: ${c.show(o)}`);
    const same = b.k === 'forward' && b.how === 'same' && x.after !== 'wrap';
    const upHeaders = [['x-up', '1'], ['set-cookie', 'u=1'], ['set-cookie', 'v=2']];
    const wantStatus = b.k === 'forward' && b.how === 'same' ? 203 : x.status === undefined ? 200 : x.status;
    if (g.status !== wantStatus) fail('status', `${d} has the status ${g.status}, not ${wantStatus}: ${c.show(o)}`);
    const wantHeaders = b.k === 'forward' && b.how === 'same' ? upHeaders : x.headers;
    const combine = l => { const m = {}; const cookies = []; for (let [k, v] of l) { k = k.toLowerCase(); if (k === 'set-cookie') cookies.push(v); else m[k] = k in m ? m[k] + ', ' + v : v; } return JSON.stringify([Object.entries(m).sort((p, q) => p[0] < q[0] ? -1 : 1), cookies]); };
    if (combine(g.headers) !== combine(wantHeaders)) fail('headers', `${d} has the headers ${combine(g.headers)}, not ${combine(wantHeaders)}`);
    const whole = b.k === 'none' ? '' : b.k === 'text' ? c.utf8(b.s) : b.b !== undefined ? b.b : list ? list.slice(Math.min(reads, list.length)).join('') : upBody || '';
    const body = g.body === null ? '' : g.body;
    if (err) {
      if (!whole.startsWith(body)) fail('body', `${d} has the body ${JSON.stringify(body)}, which ${JSON.stringify(whole)} does not begin with`);
      if (g.end === 'whole') fail('truncated', `${d}: its source fails, and the client is told that ${JSON.stringify(body)} is all`);
      label('fails');
      return;
    }
    if (g.end !== 'whole') fail('end', `${d} does not end: ${c.show(o)}`);
    if (reads && b.k === 'stream' && whole !== body) fail('rest', `${d}: after the first chunks the rest is ${JSON.stringify(body)}, not ${JSON.stringify(whole)}`);
    if (!reads && whole !== body) fail('body', `${d} has the body ${JSON.stringify(body)}, not ${JSON.stringify(whole)}: ${c.show(o)}`);
    label(b.k);
  });

  // Bodies of any size
  const size = fc.oneof(fc.constantFrom(4095, 4096, 8193, 16384, 65535, 65536, 65537, 131073, 262145), fc.integer({ min: 1, max: 400_000 }), fc.constant(1_100_000));
  part('big', 14, fc.record({ mode: c.mode, k: fc.constantFrom('u8', 'view', 'blob', 'text', 'pull', 'pieces', 'forward', 'forward whole', 'echo', 'echo whole'), size, piece: fc.constantFrom(1000, 4096, 30_000, 65_536, 65_537, 200_000), seed: fc.nat(250), after: fc.constantFrom('', '', 'clone', 'wrap', 'wait') }), x => x.size > 60_000, x => {
    const at = i => x.k === 'text' ? 97 + (i * 7 + (i >> 8) + x.seed) % 25 : (i * 7 + (i >> 8) * 3 + x.seed) & 255;
    let want = '';
    for (let i = 0; i < x.size; i++) want += String.fromCharCode(at(i));
    const chunks = [];
    for (let i = 0; i < x.size; i += Math.max(x.piece, x.size / 50 | 0)) chunks.push([0, want.slice(i, i + Math.max(x.piece, x.size / 50 | 0))]);
    const outside = x.k.startsWith('forward') || x.k.startsWith('echo'), up = x.k.endsWith('whole') ? want : { chunks, cap: 2 };
    const js = `
      const all = () => { const a = new Uint8Array(${x.size}); for (let i = 0; i < a.length; i++) a[i] = ${x.k === 'text' ? `97 + (i * 7 + (i >> 8) + ${x.seed}) % 25` : `i * 7 + (i >> 8) * 3 + ${x.seed}`}; return a; };
      async function body(q) {
        ${{ u8: 'return all();', view: 'const a = all(), b = new Uint8Array(a.length + 9); b.set(a, 4); return b.subarray(4, 4 + a.length);', blob: 'const a = all(); return new Blob([a.slice(0, 1000), a.slice(1000)]);', text: 'let s = ""; for (const b of all()) s += String.fromCharCode(b); return s;',
          pull: 'let a = all(); return new ReadableStream({ pull(k) { k.enqueue(a); k.close(); } });', pieces: `const a = all(); let i = 0; return new ReadableStream({ pull(k) { if (i >= a.length) return k.close(); k.enqueue(a.subarray(i, i += ${x.piece})); } });` }[x.k] || (x.k.startsWith('forward') ? "return (await fetch('http://up.test/f')).body;" : 'return q.body;')}
      }
      addEventListener('fetch', e => e.respondWith((async () => {
        let r = new Response(await body(e.request));
        ${{ clone: 'r.clone();', wrap: 'r = new Response(r.body, r);', wait: 'await new Promise(f => setTimeout(f, 5));' }[x.after] || ''}
        return r;
      })()));`;
    const o = c.scene({ mode: x.mode, script: js, limits: { buffer: 4 }, ops: outside && x.k.startsWith('f') ? { 'fetch http://up.test/f': [{ body: up }] } : {}, steps: [{ kind: 'fetch', method: 'POST', body: x.k.startsWith('echo') ? up : null }] });
    const g = o.got(0), d = `${x.size} bytes as ${x.k} of ${x.piece}, ${x.after || 'as it is'}, ${x.mode}`;
    if (!g || o.exec(0) !== 'ok') fail('lost', `${d}: no response: ${c.show(o)}`);
    if (g.body !== want) {
      let i = 0;
      while (i < want.length && g.body && g.body[i] === want[i]) i++;
      fail('body', `${d}: the client gets ${g.body && g.body.length} bytes, other ones from ${i} on`);
    }
    if (g.end !== 'whole') fail('end', `${d}: the end of the body is ${g.end}`);
    label(x.size > 65_536 ? 'over 64 KiB' : 'up to 64 KiB');
  });
};
