// C27: what bodies of requests and responses hold, through reading, cloning and re-use.
'use strict';
module.exports = ({ fc, part, iso, check, label }, { A, J, run, PRELUDE, hex, blob }) => {
  iso.fresh(PRELUDE + `
// Bytes that are a part of a larger buffer
globalThis.SUB = x => { const h = H(x), b = new Uint8Array(h.length + 5).fill(0x55); b.set(h, 2); return b.subarray(2, 2 + h.length) };
globalThis.READ = async s => { const r = s.getReader(); let out = ''; for (;;) { const { done, value } = await r.read(); if (done) return out; out += X(value) } };
globalThis.TRY = async f => { try { return await f() } catch (e) { return 'error: ' + (e instanceof SyntaxError ? 'SyntaxError' : e instanceof TypeError ? 'TypeError' : e) } };`);
  const text = fc.oneof(fc.constantFrom('', 'hello', '{"a":[1,2]}', ' null ', '0', '\u00e9\u20ac', '\ud83d\ude00', '"x"', '[', 'a=1&b=2'), fc.array(fc.constantFrom('a', '\ud800', '\u0000', '\u00ff', '\ufeff'), { maxLength: 4 }).map(a => a.join('')));
  const data = fc.oneof({ weight: 3, arbitrary: blob(fc.nat(16)) }, { weight: 1, arbitrary: fc.constantFrom('7b7d', 'efbbbf31', 'c3', 'ff00', '5b315d') }, { weight: 1, arbitrary: blob(fc.constantFrom(100, 3000)) });
  const source = fc.oneof(
    { weight: 1, arbitrary: fc.constantFrom('null', 'undefined').map(k => ({ k })) },
    { weight: 3, arbitrary: text.map(s => ({ k: 'text', s })) },
    { weight: 4, arbitrary: fc.record({ k: fc.constantFrom('whole', 'buffer', 'sub', 'dataview', 'i8'), d: data }) },
    { weight: 1, arbitrary: fc.record({ k: fc.constant('u16'), d: data.map(d => d.slice(0, d.length & ~3)) }) },
    { weight: 2, arbitrary: fc.record({ k: fc.constant('blob'), d: data }) },
    { weight: 1, arbitrary: fc.array(fc.tuple(fc.constantFrom('a', '\u00e9'), fc.constantFrom('1', 'x&y')), { maxLength: 2 }).map(p => ({ k: 'params', p })) },
    { weight: 3, arbitrary: fc.record({ k: fc.constant('stream'), l: fc.array(blob(fc.nat(6)), { maxLength: 4 }), lazy: fc.boolean(), sub: fc.boolean() }) });
  const src = s => s.k === 'text' ? A(s.s) : s.k === 'null' || s.k === 'undefined' ? s.k : s.k === 'blob' ? `new Blob([H('${s.d}')])` : s.k === 'params' ? `new URLSearchParams(${A(s.p)})`
    : s.k === 'stream' ? `(() => { const l = ${J(s.l)}; return new ReadableStream(${s.lazy ? '{ pull(c) { if (l.length) c.enqueue(X(l.shift())); else c.close() } }' : '{ start(c) { for (const x of l) c.enqueue(X(x)); c.close() } }'}) })()`.replace('X(', s.sub ? 'SUB(' : 'H(')
    : `KEEP(VIEW('${s.k}', '${s.d}'))`;
  const utf8 = s => Buffer.from(s.replace(/[\ud800-\udbff](?![\udc00-\udfff])|(?<![\ud800-\udbff])[\udc00-\udfff]/g, '\ufffd'));
  const bytes = s => s.k === 'null' || s.k === 'undefined' ? null : s.k === 'text' ? utf8(s.s) : s.k === 'params' ? Buffer.from(new URLSearchParams(s.p).toString()) : s.k === 'stream' ? Buffer.from(s.l.join(''), 'hex') : Buffer.from(s.d, 'hex');

  const how = fc.constantFrom('text', 'json', 'arrayBuffer', 'stream');
  const step = fc.oneof(
    { weight: 3, arbitrary: fc.record({ op: fc.constant('clone'), i: fc.nat(9) }) },
    { weight: 4, arbitrary: fc.record({ op: fc.constant('read'), i: fc.nat(9), how }) },
    { weight: 1, arbitrary: fc.record({ op: fc.constant('write') }) },
    { weight: 1, arbitrary: fc.record({ op: fc.constant('header'), i: fc.nat(9), v: fc.constantFrom('1', '2') }) },
    { weight: 1, arbitrary: fc.record({ op: fc.constant('rewrap'), i: fc.nat(9), kind: fc.constantFrom('Request', 'Response') }) });

  part('history', 900, fc.record({ kind: fc.constantFrom('Request', 'Response'), s: source, steps: fc.array(step, { minLength: 1, maxLength: 8 }) }), c => c.s.k !== 'null' && c.s.k !== 'undefined' && c.steps.length > 1, c => {
    const make = (kind, body, extra = '') => kind === 'Request' ? `new Request('http://x/y', {method: 'POST', body: ${body}${extra}})` : `new Response(${body}, {status: 201${extra}})`;
    let js = `(async () => { const used = [], out = []; const KEEP = v => { used.push(v); return v };\nconst all = [${make(c.kind, src(c.s), ', headers: {h: "0"}')}];\n`;
    const b = bytes(c.s);
    const m = [{ kind: c.kind, b, used: false, h: '0' }];
    const want = [];
    label(c.s.k);
    for (const s of c.steps) {
      const o = m[(s.i || 0) % m.length], at = `all[${(s.i || 0) % m.length}]`;
      label(s.op);
      if (s.op === 'write') js += 'for (const u of used) (u instanceof ArrayBuffer ? new Uint8Array(u) : new Uint8Array(u.buffer)).fill(0x77);\n';
      else if (s.op === 'header') { js += `${at}.headers.set('h', '${s.v}');\n`; o.h = s.v; } else if (s.op === 'clone') {
        if (o.taken) continue;
        if (o.used) { js += `out.push(await TRY(() => { ${at}.clone(); return 'cloned' }));\n`; want.push(['clone of a used body', 'error: TypeError']); } else { js += `all.push(${at}.clone());\n`; m.push({ ...o }); }
      } else if (s.op === 'rewrap') {
        // A new one with the body (a stream) of the old one, which is then taken.
        if (o.used || o.b === null) continue;
        js += `all.push(${make(s.kind, at + '.body', ', headers: ' + at + '.headers')});\n`;
        m.push({ ...o, kind: s.kind });
        o.taken = o.used = true;
      } else if (o.taken) continue;
      else {
        if (s.how === 'stream') {
          if (o.used || o.b === null) continue;
          js += `out.push(await TRY(() => READ(${at}.body)));\n`;
          want.push(['the stream of body', hex(o.b)]);
          o.taken = o.used = true;
          continue;
        }
        js += `out.push(await TRY(async () => { const v = await ${at}.${s.how}(); return ${s.how === 'arrayBuffer' ? '[X(v), v instanceof ArrayBuffer]' : '[v]'} }));\n`;
        const bb = o.b || Buffer.alloc(0);
        let w;
        if (o.used) w = 'error: TypeError';
        else if (s.how === 'arrayBuffer') w = [hex(bb), true];
        else {
          const t = new TextDecoder().decode(bb);
          try { w = [s.how === 'json' ? JSON.parse(t) : t]; } catch { w = 'error: SyntaxError'; }
        }
        want.push([`${s.how}() of ${at}`, w]);
        o.used = true;
        js += `out.push(${at}.bodyUsed);\n`;
        want.push([`bodyUsed of ${at}`, true]);
      }
    }
    // Whatever was not read is still there.
    m.forEach((o, i) => {
      if (o.used) return;
      js += `out.push(all[${i}].bodyUsed, await TRY(async () => X(await all[${i}].arrayBuffer())));\n`;
      want.push([`bodyUsed of all[${i}]`, false], [`arrayBuffer() of all[${i}]`, hex(o.b || Buffer.alloc(0))]);
    });
    js += `out.push(all.map(o => [o instanceof Request ? [o.method, o.url] : [o.status, o.ok], o.headers.get('h'), o.body === null]));\nreturn out })()`;
    want.push(['what is left', m.map(o => [o.kind === 'Request' ? ['POST', 'http://x/y'] : [201, true], o.h, o.b === null])]);
    const r = run(js);
    check(r.ok, 'threw', () => `${js}\ngave ${J(r)}`);
    want.forEach(([what, w], i) => check(J(r.ok[i]) === J(w), /^bodyUsed/.test(what) ? 'used' : /^what/.test(what) ? 'parts' : /^clone/.test(what) ? 'clone' : 'bytes', () => `${js}\n${what} is ${J(r.ok[i])}, not ${J(w)}`));
  });

  const status = fc.oneof(fc.integer({ min: 200, max: 599 }), fc.constantFrom(200, 201, 204, 299, 300, 302, 404, 500, 599));
  const method = fc.constantFrom('GET', 'get', 'POST', 'Post', 'put', 'DELETE', 'head', 'options', 'PATCH');
  const headers = fc.array(fc.tuple(fc.constantFrom('x-a', 'X-B', 'Content-Type'), fc.constantFrom('1', 'a/b')), { maxLength: 3 });
  part('fields', 400, fc.oneof(
    fc.record({ k: fc.constant('Response'), status, text: fc.constantFrom('', 'Fine'), headers }),
    fc.record({ k: fc.constant('Request'), method, headers, url: fc.constantFrom('http://x/', 'https://h.example/p?q=1#f') }),
    fc.record({ k: fc.constant('override'), method, headers, m2: fc.option(method, { nil: undefined }), h2: fc.option(headers, { nil: undefined }), body: fc.option(text, { nil: undefined }) }),
    fc.record({ k: fc.constant('json'), v: fc.jsonValue({ maxDepth: 2 }), status: fc.option(status, { nil: undefined }), headers }),
    fc.record({ k: fc.constant('redirect'), status: fc.oneof(fc.constantFrom(undefined, 301, 302, 303, 307, 308), fc.integer({ min: 200, max: 599 })) }),
    fc.constant({ k: 'error' })), () => true, c => {
    label(c.k);
    const sort = h => [...new Headers(h)].sort((a, b) => a[0] < b[0] ? -1 : 1);
    const show = '(h => [...h].sort((a, b) => a[0] < b[0] ? -1 : 1))';
    let js, want;
    if (c.k === 'Response') {
      js = `(() => { const r = new Response('x', {status: ${c.status}, statusText: '${c.text}', headers: ${A(c.headers)}}); return [r.status, r.statusText, r.ok, r.bodyUsed, ${show}(r.headers), r.clone().status] })()`;
      want = [c.status, c.text, c.status < 300, false, sort(c.headers), c.status];
    } else if (c.k === 'Request') {
      js = `(() => { const r = new Request('${c.url}', {method: '${c.method}', headers: ${A(c.headers)}}); const d = r.clone(); const s = new Request(new URL('${c.url}')); return [r.method, r.url, ${show}(r.headers), d.method, d.url, s.method, s.url] })()`;
      const n = new Request(c.url, { method: c.method });
      const M = c.method.toUpperCase();
      want = [M, c.url, sort(c.headers), M, c.url, 'GET', c.url];
    } else if (c.k === 'override') {
      js = `(() => { const a = new Request('http://x/', {method: '${c.method}', headers: ${A(c.headers)}}); const r = new Request(a, {${c.m2 ? `method: '${c.m2}',` : ''}${c.h2 ? `headers: ${A(c.h2)},` : ''}}); r.headers.set('z', '1'); return [r.method, r.url, ${show}(r.headers), a.method, ${show}(a.headers)] })()`;
      want = [(c.m2 || c.method).toUpperCase(), 'http://x/', sort([...(c.h2 || c.headers), ['z', '1']]), c.method.toUpperCase(), sort(c.headers)];
    } else if (c.k === 'json') {
      js = `(async () => { const r = Response.json(${A(c.v)}, {${c.status ? `status: ${c.status},` : ''}headers: ${A(c.headers)}}); return [r.status, r.headers.get('content-type'), await r.json()] })()`;
      const h = new Headers(c.headers);
      want = [c.status || 200, h.has('content-type') ? h.get('content-type') : 'application/json', c.v];
      // -0 is 0 in JSON, and __proto__ does not survive a literal.
      if (/__proto__/.test(J(c.v))) return;
      want = JSON.parse(J(want));
    } else if (c.k === 'redirect') {
      js = `(() => { try { const r = Response.redirect('http://y/', ${c.status}); return [r.status, r.headers.get('location'), r.body] } catch (e) { return e instanceof RangeError } })()`;
      want = c.status === undefined || [301, 302, 303, 307, 308].includes(c.status) ? [c.status || 302, 'http://y/', null] : true;
    } else {
      js = '(() => { const r = Response.error(); return [r.type, r.status, r.ok, r.body] })()';
      want = ['error', 0, false, null];
    }
    const r = run(js);
    check(J(r.ok) === J(want), c.k, () => `${js}\ngave ${J(r)}, not ${J(want)}`);
  });
};
