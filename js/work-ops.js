// C30: operations (fetch and bindings): what is asked for reaches the outside, and the answer its caller.
'use strict';
const { STATUS_CODES } = require('http');
module.exports = (t, c) => {
  const { fc, part, fail, label } = t;
  const str = fc.oneof({ weight: 3, arbitrary: fc.string({ maxLength: 8 }) }, fc.string({ unit: 'binary', maxLength: 5 }).map(s => s.toWellFormed()),
    fc.constantFrom('', '__proto__', 'a/b', 'é', '\u{1F600}', '0', 'null', 'a b', '%41', '\u0000x'));
  // Numbers that the harness's own JSON reader (serde_json) reads exactly.
  const num = fc.oneof(fc.integer(), fc.tuple(fc.maxSafeInteger(), fc.nat(9)).map(([n, k]) => Number((n / 10 ** k).toPrecision(15)) + 0), fc.maxSafeInteger(),
    fc.constantFrom(0, 1.5, 2147483648, -2147483649, 4294967296, 2 ** 53, 1e21, 0.1, -1e-7));
  const json = fc.letrec(tie => ({
    v: fc.oneof({ maxDepth: 3 }, fc.constant(null), fc.boolean(), num, str, fc.array(tie('v'), { maxLength: 3 }),
      fc.array(fc.tuple(str, tie('v')), { maxLength: 3 }).map(a => Object.fromEntries(a.filter(p => p[0] !== '__proto__')))),
  })).v;
  // Values that are nested deeply, or only look so.
  const deep = fc.record({ n: fc.integer({ min: 20, max: 100 }), kind: fc.nat(3), v: json }).map(({ n, kind, v }) => {
    if (kind === 3) return ['['.repeat(n * 3), '{"a":'.repeat(n), '\\"[{', v];
    for (let i = 0; i < n; i++) v = kind === 0 || (kind === 2 && i % 2) ? [v] : { a: v };
    return v;
  });
  const stored = fc.oneof({ weight: 6, arbitrary: json }, { weight: 1, arbitrary: deep });
  const prim = fc.oneof(fc.constant(null), fc.boolean(), num, str);
  const bin = c.bin();
  const delay = fc.oneof(fc.nat(20), fc.constant(0), fc.integer({ min: 20, max: 3000 }));
  const limit = fc.option(fc.oneof(fc.integer({ min: 1, max: 5 }), fc.constantFrom(1000, 4294967295)), { nil: undefined });
  const keyList = fc.oneof({ weight: 9, arbitrary: fc.array(str, { maxLength: 4 }) }, { weight: 1, arbitrary: fc.constantFrom(99, 100, 101, 256, 999, 1000, 1001, 1025, 2500).map(n => Array.from({ length: n }, (_, i) => 'key ' + i)) });
  const error = fc.oneof(fc.constant('boom'), fc.string({ minLength: 1, maxLength: 6 }), fc.constant('é\u{1F600}'));
  const header = fc.tuple(fc.constantFrom('x-a', 'x-b', 'content-type', 'set-cookie', 'vary'), fc.constantFrom('1', 'two', 'a=b; Path=/', 'text/plain', 'x, y', ''));
  const body = fc.oneof(fc.constant(null), bin,
    fc.record({ chunks: fc.array(fc.tuple(fc.nat(6), c.bin({ minLength: 1, maxLength: 9 })), { maxLength: 6 }), more: c.rare(fc.integer({ min: 10, max: 60 }), 0), cap: fc.integer({ min: 1, max: 4 }),
      fails: c.rare(fc.oneof(error, fc.constant(''))), tail: fc.option(fc.nat(5), { nil: undefined }) })
      .map(b => ({ ...b, chunks: b.more && b.chunks.length ? Array.from({ length: b.more }, (_, i) => [i % 9 ? 0 : b.chunks[i % b.chunks.length][0], b.chunks[i % b.chunks.length][1] + i]) : b.chunks }))
      .map(b => ({ chunks: b.fails === undefined ? b.chunks : [...b.chunks, [3, { err: b.fails }]], cap: b.cap, tail: b.fails === undefined ? b.tail : undefined })));
  const http = fc.record({
    status: fc.oneof(fc.constant(200), fc.integer({ min: 200, max: 599 }), fc.constantFrom(...Object.keys(STATUS_CODES).map(Number).filter(n => n >= 200))), headers: fc.array(header, { maxLength: 4 }), body,
    read: fc.constantFrom('whole', 'chunks', 'slow'),
  });
  const op = fc.oneof(
    fc.record({ api: fc.constantFrom('fetch', 'assets', 'worker'), http }),
    fc.record({ api: fc.constantFrom('fetch', 'assets', 'worker', 'sfetch'), http }),
    fc.record({ api: fc.constant('sget'), key: str, out: fc.option(bin, { nil: undefined }) }),
    fc.record({ api: fc.constant('sput'), key: str, body: fc.oneof(fc.record({ s: str }), fc.record({ b: bin, view: fc.boolean() })) }),
    fc.record({ api: fc.constant('shead'), key: str, size: fc.oneof(fc.nat(), fc.maxSafeInteger().map(Math.abs)), etag: fc.option(str, { nil: undefined }) }),
    fc.record({ api: fc.constant('slist'), prefix: fc.option(str, { nil: undefined }), limit, keys: keyList, truncated: fc.boolean(), none: fc.boolean() }),
    fc.record({ api: fc.constantFrom('sdelete', 'kdelete'), key: str }),
    fc.record({ api: fc.constant('kget'), key: str, out: fc.option(stored, { nil: undefined }) }),
    fc.record({ api: fc.constant('kput'), key: str, value: stored, expires: fc.option(fc.oneof(fc.integer({ min: 1, max: 100 }), fc.constant(4294967296)), { nil: undefined }) }),
    fc.record({ api: fc.constant('klist'), prefix: fc.option(str.filter(s => s), { nil: undefined }), limit, keys: keyList }),
    fc.record({ api: fc.constant('db'), sql: str, params: fc.option(fc.array(fc.oneof(prim, fc.array(prim, { maxLength: 3 })), { maxLength: 4 }), { nil: undefined }), rows: fc.oneof({ weight: 12, arbitrary: fc.array(stored, { maxLength: 3 }) }, { weight: 1, arbitrary: fc.constantFrom(101, 1001, 1500).map(n => Array.from({ length: n }, (_, i) => ({ i, s: 'row ' + i }))) }) }));
  const call = fc.record({ op, delay, error: c.rare(error), at: fc.oneof(fc.constant(0), fc.nat(30)), after: fc.integer({ min: -3, max: 5 }), twin: fc.integer({ min: -4, max: 5 }) });

  const A = c.A;
  const u = i => `http://up.test/r${i}`;
  // The call as written in the script; each call has tags of its own, or those of a twin.
  const CALL = {
    fetch: (o, i) => `fetch(${A(u(i))})`, assets: (o, i) => `env.AS.fetch(${A(u(i))})`, worker: (o, i) => `env.WO.fetch(${A(u(i))})`,
    sfetch: (o, i) => `env.ST.fetch(${A(u(i))})`,
    sget: (o, i) => `env.ST.get(${A(i + o.key)})`, sdelete: (o, i) => `env.ST.delete(${A(i + o.key)})`, shead: (o, i) => `env.ST.head(${A(i + o.key)})`,
    sput: (o, i) => `env.ST.put(${A(i + o.key)}, ${o.body.s !== undefined ? A(o.body.s) : o.body.view ? `VIEW(${A(o.body.b)})` : c.bytesJs(o.body.b)})`,
    slist: (o, i) => `env.ST.list(${o.none && o.prefix === undefined && o.limit === undefined ? '' : OPTS({ prefix: i + (o.prefix || ''), limit: o.limit })})`,
    kget: (o, i) => `env.KV.get(${A(i + o.key)})`, kdelete: (o, i) => `env.KV.delete(${A(i + o.key)})`,
    kput: (o, i) => `env.KV.put(${A(i + o.key)}, ${A(o.value)}${o.expires ? `, {expiresIn: ${o.expires}}` : ''})`,
    klist: (o, i) => `env.KV.list(${OPTS({ prefix: i + (o.prefix || ''), limit: o.limit })})`,
    db: (o, i) => `env.DB.query(${A(i + o.sql)}${o.params ? ', ' + A(o.params) : ''})`,
  };
  const OPTS = o => A(o);
  const isHttp = o => !!o.http;
  const prims = p => p === null ? null : typeof p === 'boolean' ? { bool: p } : typeof p === 'string' ? { string: p } : { num: p };
  const num_ = p => p && (p.int !== undefined || p.float !== undefined) ? { num: Number(p.int !== undefined ? p.int : p.float) } : p;
  /** What the outside must see. */
  const asked = (o, i) => {
    switch (o.api) {
      case 'fetch': case 'assets': case 'worker':
        return { op: o.api, url: u(i), method: 'GET', body: null, binding: { fetch: '', assets: 'AS', worker: 'WO' }[o.api] };
      case 'db': return { op: 'db', binding: 'DB', sql: i + o.sql, params: (o.params || []).map(p => Array.isArray(p) ? p.map(prims) : prims(p)) };
      default: {
        const [op, name] = [o.api[0] === 's' ? 'storage' : 'kv', o.api.slice(1)];
        const x = { op, binding: op === 'kv' ? 'KV' : 'ST', name };
        if (name === 'fetch') x.args = { key: `/r${i}` };
        else if (name === 'list') x.args = o.none && o.prefix === undefined && o.limit === undefined ? { prefix: null, limit: null } : { prefix: i + (o.prefix || ''), limit: o.limit === undefined ? null : o.limit };
        else x.args = { key: i + o.key };
        if (name === 'put') Object.assign(x.args, op === 'kv' ? { value: o.value, expiresIn: o.expires === undefined ? null : o.expires }
          : { body: o.body.s !== undefined ? c.utf8(o.body.s) : o.body.b });
        return x;
      }
    }
  };
  const combine = list => {
    const m = new Map();
    for (const [n, v] of list) m.set(n, m.has(n) && n !== 'set-cookie' ? m.get(n) + ', ' + v : n === 'set-cookie' && m.has(n) ? m.get(n) + '|' + v : v);
    return Object.fromEntries([...m].sort((a, b) => a[0] < b[0] ? -1 : 1));
  };
  /** What the caller must get, given the rule that was used for its operation. */
  const result = (o, r) => {
    if (r.error !== undefined) return { err: r.error };
    if (isHttp(o)) {
      const b = r.body;
      const err = b && b.chunks && b.chunks.find(x => typeof x[1] !== 'string');
      const data = b === null || b === undefined ? '' : typeof b === 'string' ? b : b.chunks.filter(x => typeof x[1] === 'string').map(x => x[1]).join('');
      const out = { status: r.status, ok: r.status < 300, headers: combine(r.headers) };
      if (err) out.bodyErr = err[1].err; else out.data = data;
      return { ok: out };
    }
    switch (o.api) {
      case 'sget': return { ok: r.body === undefined || r.body === null ? null : { text: r.body } };
      case 'shead': return { ok: r.etag === undefined ? { size: r.size } : { size: r.size, etag: r.etag } };
      case 'slist': return { ok: { keys: r.keys, truncated: r.truncated } };
      case 'kget': return { ok: 'value' in r ? r.value : null };
      case 'klist': return { ok: r.keys };
      case 'db': return { ok: JSON.parse(r.rows) };
      default: return { ok: undefined };
    }
  };
  const rule = (o, x) => {
    const r = { delay: x.delay };
    if (x.error !== undefined) return { ...r, error: x.error };
    if (isHttp(o)) {
      const nobody = [204, 205, 304].includes(o.http.status) ? null : o.http.body;
      return { ...r, status: o.http.status, headers: o.http.headers, body: nobody };
    }
    switch (o.api) {
      case 'sget': return o.out === undefined ? r : { ...r, body: o.out };
      case 'shead': return { ...r, size: o.size, etag: o.etag };
      case 'slist': return { ...r, keys: o.keys, truncated: o.truncated };
      case 'kget': return o.out === undefined ? r : { ...r, value: o.out };
      case 'klist': return { ...r, keys: o.keys };
      case 'db': return { ...r, rows: JSON.stringify(o.rows) };
      default: return r;
    }
  };
  const tag = a => {
    if (a.op === 'db') return `db DB ${a.sql}`;
    if (a.op === 'storage' || a.op === 'kv') return `${a.op} ${a.binding} ${a.name} ${a.args.key !== undefined ? a.args.key : a.args.prefix || ''}`;
    return `${a.op} ${a.binding}${a.binding ? ' ' : ''}${a.url}`;
  };
  const eq = (a, b) => {
    if (a === b || (typeof a === 'number' && typeof b === 'number' && a === b)) return true;
    if (typeof a !== 'object' || typeof b !== 'object' || !a || !b || Array.isArray(a) !== Array.isArray(b)) return false;
    const k = Object.keys(a), l = Object.keys(b);
    return k.length === l.length && k.every(x => Object.hasOwn(b, x) && eq(a[x], b[x]));
  };
  c.eq = eq;

  const kase = fc.record({ mode: c.mode, calls: fc.array(call, { minLength: 1, maxLength: 10 }), par: fc.boolean() });
  part('calls', 150, kase, x => x.calls.length >= 3, x => {
    // Twins ask for the same; they get the answers in the order in which they ask.
    const ops = x.calls.map((k, i) => k.twin >= 0 && k.twin < i ? null : k.op);
    const of = x.calls.map((k, i) => { let j = i; while (!ops[j]) j = x.calls[j].twin; return j; });
    const list = x.calls.map((k, i) => ({ ...k, op: ops[of[i]], id: of[i] }));
    const rules = {};
    list.forEach(k => { (rules[tag(asked(k.op, k.id))] ||= []).push(rule(k.op, k)); });
    const js = `
      const VIEW = s => { const b = new Uint8Array(s.length + 16).fill(7); for (let i = 0; i < s.length; i++) b[8 + i] = s.charCodeAt(i); return b.subarray(8, 8 + s.length) };
      const S = b => { let s = ''; for (const x of b) s += String.fromCharCode(x); return s };
      async function http(r, how) {
        const out = { status: r.status, ok: r.ok, headers: {}, text: r.statusText };
        for (const [k, v] of r.headers) out.headers[k] = k === 'set-cookie' ? r.headers.getSetCookie().join('|') : v;
        out.headers = Object.fromEntries(Object.entries(out.headers).sort((a, b) => a[0] < b[0] ? -1 : 1));
        try {
          if (how === 'whole') out.data = S(new Uint8Array(await r.arrayBuffer()));
          else {
            out.data = '';
            if (r.body) for (const rd = r.body.getReader();;) { const { done, value } = await rd.read(); if (done) break; out.data += S(value); if (how === 'slow') await sleep(7); }
          }
        } catch (e) { delete out.data; out.bodyErr = e instanceof Error ? e.message : 'not an Error: ' + e; }
        return out;
      }
      const CALLS = [${list.map(k => `() => ${CALL[k.op.api](k.op, k.id)}${isHttp(k.op) ? `.then(r => http(r, '${k.op.http.read}'))` : ''}`).join(',\n')}];
      const sleep = ms => new Promise(r => setTimeout(r, ms));
      const done = [];
      function go(i, at, after) {
        return done[i] = (async () => {
          if (after >= 0 && after < i) await done[after];
          if (at) await sleep(at);
          console.log('ask ' + i);
          let p;
          try { p = CALLS[i](); } catch (e) { console.log('sync ' + i + ' ' + e); return; }
          await p.then(
            v => console.log('settle ' + i + ' ' + JSON.stringify({ok: v})),
            e => console.log('settle ' + i + ' ' + JSON.stringify({err: e instanceof Error ? e.message : 'not an Error: ' + e})));
        })();
      }
      addEventListener('fetch', e => e.respondWith((async () => {
        ${list.map((k, i) => `go(${i}, ${k.at}, ${k.after})`).join('; ')};
        await Promise.all(done);
        await sleep(50);
        return new Response('done');
      })()));`;
    const o = c.scene({ mode: x.mode, script: js, ops: rules, env: {}, bindings: [['AS', 'assets'], ['ST', 'storage'], ['KV', 'kv'], ['DB', 'db'], ['WO', 'worker']], steps: [{ kind: 'fetch' }] });
    const bySettle = new Map();
    const order = [];
    for (const e of o.all('log')) {
      const m = /^(ask|settle|sync) (\d+) ?(.*)$/s.exec(e.text);
      if (!m) { if (!/buffer/.test(e.text)) fail('log', `unexpected log: ${e.text}`); continue; }
      if (m[1] === 'sync') fail('threw', `call ${m[2]} (${CALL[list[m[2]].op.api](list[m[2]].op, list[m[2]].id)}) throws ${m[3]}`);
      if (m[1] === 'ask') order.push(+m[2]);
      else {
        if (bySettle.has(+m[2])) fail('twice', `call ${m[2]} settles twice`);
        bySettle.set(+m[2], { t: e.t, r: JSON.parse(m[3]) });
      }
    }
    // What the outside was asked for, in order of tag.
    const seen = o.all('op');
    const wanted = order.map(i => asked(list[i].op, list[i].id));
    for (const w of wanted) {
      const k = seen.findIndex(s => s.tag === tag(w) && !s.used);
      if (k < 0) fail('not asked', `the outside is never asked for ${tag(w)}: ${c.show(o)}`);
      const s = seen[k];
      s.used = true;
      if (s.params) s.params = s.params.map(p => Array.isArray(p) ? p.map(num_) : num_(p));
      for (const f of Object.keys(w)) if (!eq(w[f], s[f])) fail('asked', `the outside is asked for ${f} = ${JSON.stringify(s[f])}, not ${JSON.stringify(w[f])}`);
    }
    const extra = seen.find(s => !s.used);
    if (extra) fail('extra', `the outside is asked for ${extra.tag}, which nobody asked for`);
    // Every caller gets the answer to its own call.
    const used = {};
    order.forEach(i => {
      const k = list[i], tg = tag(asked(k.op, k.id));
      const n = used[tg] = (used[tg] || 0) + 1;
      const want = result(k.op, rules[tg][Math.min(n, rules[tg].length) - 1]);
      const got = bySettle.get(i);
      if (got && got.r.ok && isHttp(k.op)) {
        // The outside gives no text of its own with a status: it is the usual one, or none.
        const { text } = got.r.ok;
        delete got.r.ok.text;
        if (text !== '' && text !== STATUS_CODES[got.r.ok.status]) fail('status text', `the answer ${got.r.ok.status} has the status text ${JSON.stringify(text)}`);
      }
      const what = CALL[k.op.api](k.op, k.id);
      if (!got) fail('unsettled', `${what} never settles: ${c.show(o)}`);
      if (k.op.api === 'sget' && want.ok && want.ok !== null) want.ok = new TextDecoder().decode(Buffer.from(want.ok.text, 'latin1'));
      const w = JSON.parse(JSON.stringify(want));
      if (want.err !== undefined ? !got.r.err || !got.r.err.includes(want.err) : !eq(w, got.r)) fail('answer', `${what} gives ${JSON.stringify(got.r)}, not ${JSON.stringify(w)}`);
      label(k.op.api + (want.err !== undefined ? ' error' : ''));
    });
    const g = o.got(0);
    if (order.length !== list.length || !g || g.body !== 'done' || o.exec(0) !== 'ok') fail('lost', c.show(o));
  });

  // Many calls that wait at the same time: each gets its own answer.
  const many = fc.record({ mode: c.mode, calls: fc.array(fc.tuple(fc.constantFrom('fetch', 'kget', 'sget', 'db', 'klist', 'worker'), fc.nat(40)), { minLength: 50, maxLength: 320 }), gap: fc.integer({ min: 1, max: 90 }) });
  part('many', 8, many, x => x.calls.length > 100, x => {
    const rules = {};
    const code = x.calls.map(([k, delay], i) => {
      const [tg, rule, js] = {
        fetch: [`fetch ${u(i)}`, { body: 'f' + i }, `fetch(${A(u(i))}).then(r => r.text())`],
        worker: [`worker WO ${u(i)}`, { body: 'w' + i }, `env.WO.fetch(${A(u(i))}).then(r => r.text())`],
        kget: [`kv KV get ${i}`, { value: 'k' + i }, `env.KV.get('${i}')`],
        sget: [`storage ST get ${i}`, { body: 's' + i }, `env.ST.get('${i}')`],
        db: [`db DB ${i}`, { rows: `["d${i}"]` }, `env.DB.query('${i}').then(r => r[0])`],
        klist: [`kv KV list ${i}`, { keys: ['l' + i] }, `env.KV.list({ prefix: '${i}' }).then(r => r[0])`],
      }[k];
      rules[tg] = [{ ...rule, delay }];
      return `() => ${js}`;
    });
    const o = c.scene({ mode: x.mode, script: `
      const CALLS = [${code.join(',\n')}];
      addEventListener('fetch', e => e.respondWith((async () => {
        const out = [];
        for (let i = 0; i < CALLS.length; i++) {
          out.push(CALLS[i]().catch(e => 'failed: ' + e));
          if (i % ${x.gap} === ${x.gap - 1}) await new Promise(r => setTimeout(r, 3));
        }
        return new Response(JSON.stringify(await Promise.all(out)));
      })()));`, ops: rules, bindings: [['AS', 'assets'], ['ST', 'storage'], ['KV', 'kv'], ['DB', 'db'], ['WO', 'worker']], steps: [{ kind: 'fetch' }] });
    const g = o.got(0);
    let got;
    try { got = JSON.parse(g.body); } catch { fail('lost', c.show(o)); }
    x.calls.forEach(([k], i) => { if (got[i] !== (k === 'klist' ? 'l' : k[0]) + i) fail('answer', `call ${i} (${k}) of ${x.calls.length} gives ${JSON.stringify(got[i])}`); });
    label('many');
  });

  // Arguments of any kind: a call is asked once and answered, or refused; it never stays pending.
  const VALUES = ['undefined', 'null', '0', '-1', '1.5', '5', '"5"', 'NaN', 'Infinity', '1n', '""', '"x"', 'true', '{}', '[]', '[1, "a", null]', '[[1]]', '[{}]', '() => 1', 'Symbol("s")',
    'new Date(0)', 'new Uint8Array(3)', 'new Uint16Array(3)', 'new ArrayBuffer(2)', 'new DataView(new ArrayBuffer(2))', 'new Blob(["abc"])', 'new Map([["a", 1]])', 'new URLSearchParams("a=b")',
    'new FormData()', '{ toString() { throw new Error("own") } }', '{ get key() { throw new Error("own") } }', 'new Proxy({}, { get() { throw new Error("own") } })', 'Object.create(null)',
    'new ReadableStream()', '(() => { const a = []; a.push(a); return a; })()', '(() => { const a = {}; a.a = a; return a; })()', '(() => { let a = []; for (let i = 0; i < 9000; i++) a = [a]; return a; })()', '({ get a() { return this } })', '"\\ud800"', 'new String("x")', 'new Request("http://up.test/q")', '2**32', '2**53', '-(2**63)'];
  const FORMS = ['env.ST.get(X)', 'env.ST.head(X)', 'env.ST.delete(X)', 'env.ST.put(X, Y)', 'env.ST.put("k", X)', 'env.ST.list(X)', 'env.ST.list({ prefix: X, limit: Y })', 'env.ST.list({ limit: X })', 'env.ST.fetch(X)',
    'env.KV.get(X)', 'env.KV.delete(X)', 'env.KV.put(X, Y)', 'env.KV.put("k", X)', 'env.KV.put("k", 1, X)', 'env.KV.put("k", 1, { expiresIn: X })', 'env.KV.list(X)', 'env.KV.list({ prefix: X, limit: Y })', 'env.KV.list({ limit: X })',
    'env.DB.query(X)', 'env.DB.query(X, Y)', 'env.DB.query("q", X)', 'env.DB.query("q", [X, Y])',
    ...['fetch', 'env.AS.fetch', 'env.WO.fetch'].flatMap(f => [`${f}(X)`, `${f}(X, Y)`, `${f}("http://up.test/", X)`, `${f}("http://up.test/", { method: X })`, `${f}("http://up.test/", { method: "POST", headers: X })`,
      `${f}("http://up.test/", { headers: { a: X, b: Y } })`, `${f}("http://up.test/", { method: "POST", body: X })`])];
  const oddCall = fc.record({ form: fc.constantFrom(...FORMS), x: fc.constantFrom(...VALUES), y: fc.constantFrom(...VALUES) });
  part('any arguments', 90, fc.record({ mode: c.mode, calls: fc.array(oddCall, { minLength: 1, maxLength: 12 }) }), x => x.calls.length > 1, x => {
    const code = x.calls.map(k => k.form.replace(/\b[XY]\b/g, v => `(${v === 'X' ? k.x : k.y})`));
    const o = c.scene({ mode: x.mode, ops: { '*': [{ keys: [], rows: '[]', value: null }] }, bindings: [['AS', 'assets'], ['ST', 'storage'], ['KV', 'kv'], ['DB', 'db'], ['WO', 'worker']], steps: [{ kind: 'fetch' }],
      script: `
      const CALLS = [${code.map(k => `() => ${k}`).join(',\n')}];
      addEventListener('fetch', e => e.respondWith((async () => {
        for (let i = 0; i < CALLS.length; i++) {
          console.log('start ' + i);
          let r;
          try { r = await Promise.race([CALLS[i]().then(() => 'kept', () => 'refused'), new Promise(r => setTimeout(() => r('pending'), 100))]); } catch (e) { r = 'threw'; }
          console.log('done ' + i + ' ' + r);
        }
        return new Response('done');
      })()));` });
    const g = o.got(0);
    if (!g || g.body !== 'done' || o.exec(0) !== 'ok') fail('lost', `${code.join('; ')}: ${c.show(o)}`);
    let asked = 0;
    for (const e of o.trace) {
      if (e.k === 'op') asked++;
      if (e.k !== 'log') continue;
      if (/^start/.test(e.text)) asked = 0;
      const m = /^done (\d+) (\w+)/.exec(e.text);
      if (!m) continue;
      // A stream that never ends is waited for.
      const waits = /new ReadableStream\(\)/.test(code[m[1]]);
      if (m[2] === 'pending' && !waits) fail('pending', `${code[m[1]]} never settles`);
      if (asked !== (m[2] === 'kept' ? 1 : 0)) fail('asked', `${code[m[1]]} is ${m[2]}, and the outside is asked ${asked} times`);
      label(m[2]);
    }
  });
};
