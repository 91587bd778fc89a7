// C34: one response for each request, whatever the handler does.
'use strict';
module.exports = (t, c) => {
  const { fc, part, fail, label } = t;
  const THROWN = ['new Error("boom")', 'new Error("")', '"text"', '""', 'undefined', 'null', '0', '42', 'false', 'NaN', '7n', 'Symbol("s")', '{}', '[]', 'Object.create(null)', '{ message: "m" }', '{ message: Symbol("m") }',
    '{ get message() { throw new Error("own") } }', '{ toString() { throw new Error("own") } }', 'new Proxy({}, { get() { throw new Error("own") } })', 'CYCLE', 'new Response("thrown")', '() => 1', 'Promise.reject(1)', 'new TypeError("é\\u{1F600}")',
    'new DOMException("d", "AbortError")', 'Object.assign(new Error("x"), { message: null })', '{ toJSON() { throw new Error("own") } }'].filter(x => !x.startsWith('Promise'));
  const ODD = ['undefined', 'null', '7', '"text"', 'true', '{}', '[]', '{ status: 200, body: "x" }', '() => new Response("f")', 'Symbol("s")', 'new Request("http://x.test/")', 'new Headers()', 'new Map()', '5n', 'Response', 'new Error("e")', '{ status: 299, headers: {}, _getRawBody() { return new Uint8Array(3) } }'];
  const wait = fc.constantFrom('', '', 'await 0;', 'await sleep(5);', 'await sleep(40);', "await (await fetch('http://up.test/x')).text();", 'for (let i = 0; i < 9; i++) await i;');
  const what = fc.oneof({ weight: 3, arbitrary: fc.constantFrom('good', 'stream', 'sub', 'used', 'await used', 'locked') .map(k => [k]) }, { weight: 4, arbitrary: fc.constantFrom(...THROWN).map(v => ['throw', v]) }, { weight: 2, arbitrary: fc.constantFrom(...ODD).map(v => ['odd', v]) });
  const one = fc.record({ wait, what, how: fc.constantFrom('respond now', 'respond promise', 'respond thenable', 'respond in async', 'respond in timer', 'return now', 'return promise', 'return thenable', 'both'), after: fc.constantFrom('', '', '', 'throw', 'reject', 'wait rejects', 'late throw') });
  const kase = fc.record({ mode: c.mode, module: fc.constantFrom(0, 0, 1, 2), beside: c.rare(fc.constantFrom('globalThis.default = {};', 'globalThis.default = null;', 'globalThis.default = { fetch: 7, scheduled() {} };', 'globalThis.default = { async task() {} };'), ''), reqs: fc.array(one, { minLength: 1, maxLength: 5 }) });
  const JS = `
    const sleep = ms => new Promise(r => setTimeout(r, ms));
    const CYCLE = {}; CYCLE.self = CYCLE; CYCLE.message = CYCLE;
    class Sub extends Response {}
    const stream = () => new ReadableStream({ async pull(ctl) { await sleep(3); ctl.enqueue('good'); ctl.close() } });
    const WHAT = {
      good: () => new Response('good', { status: 201 }), stream: () => new Response(stream(), { status: 201 }), sub: () => new Sub('good', { status: 201 }),
      used: () => { const r = new Response('good', { status: 201 }); r.text(); return r }, 'await used': () => { const r = new Response(stream(), { status: 201 }); r.arrayBuffer(); return r },
      locked: () => { const r = new Response(stream(), { status: 201 }); r.body.getReader(); return r },
    };`;
  part('answered', 130, kase, () => true, x => {
    const value = q => q.what[0] === 'throw' ? `(() => { throw ${q.what[1][0] === '{' ? '(' + q.what[1] + ')' : q.what[1]} })()` : q.what[0] === 'odd' ? `(${q.what[1]})` : `WHAT[${c.A(q.what[0])}]()`;
    const H = x.reqs.map((q, i) => {
      // What goes before cannot be waited for in these.
      const now = q.how === 'respond now' || q.how === 'return now';
      const prom = `(async () => { ${q.wait} return ${value(q)} })()`;
      const then = `({ then(f, g) { (async () => { try { ${q.wait} f(${value(q)}) } catch (e) { g(e) } })() } })`;
      if (x.module) {
        const body = { 'return now': `return ${value(q)}`, 'return thenable': `return ${then}` }[q.how] || `return ${prom}`;
        return `(req, env, ctx) => { ${q.after === 'wait rejects' ? 'ctx.waitUntil(sleep(2).then(() => { throw undefined }));' : q.after === 'late throw' ? 'setTimeout(() => { throw undefined }, 3);' : ''} ${body} }`;
      }
      const after = { throw: "throw new Error('after')", reject: "Promise.reject(new Error('nobody'))", 'wait rejects': 'e.waitUntil(sleep(2).then(() => { throw undefined }))', 'late throw': 'setTimeout(() => { throw undefined }, 3)' }[q.after] || '';
      switch (q.how) {
        case 'respond now': return `e => { e.respondWith(${value(q)}); ${after} }`;
        case 'respond promise': return `e => { e.respondWith(${prom}); ${after} }`;
        case 'respond thenable': return `e => { e.respondWith(${then}); ${after} }`;
        case 'respond in async': return `async e => { ${q.wait} e.respondWith(${value(q)}); ${after} }`;
        case 'respond in timer': return `e => { setTimeout(() => { let v; try { v = ${value(q)} } catch (err) { v = Promise.reject(err) } e.respondWith(v) }, 4); }`;
        case 'return now': return `e => { ${q.after === 'throw' ? '' : after}; return ${value(q)} }`;
        case 'return thenable': return `e => { ${q.after === 'throw' ? '' : after}; return ${then} }`;
        case 'both': return `e => { e.respondWith(${prom}); return new Response('other') }`;
        default: return `async e => { ${q.after === 'throw' ? '' : after}; ${q.wait} return ${value(q)} }`;
      }
    });
    // Neither answered nor failed: what becomes of it is the limits' affair.
    const silent = q => !x.module && q.how.startsWith('return') && q.what[0] === 'odd';
    const list = [];
    const at = [];
    x.reqs.forEach((q, i) => {
      if (silent(q)) return;
      if (list.length && x.mode === 'worker') list.push({ kind: 'new' });
      at[i] = list.length;
      list.push({ kind: 'fetch', at: x.mode === 'pinned' ? i * 2000 : 0, url: `http://w.test/${i}` });
    });
    if (!list.length) return;
    const js = JS + `
      const H = [${H.join(',\n')}];
      const no = (q) => +new URL(q.url).pathname.slice(1);
      ${x.module === 1 ? 'globalThis.default = { fetch(q, env, ctx) { return H[no(q)](q, env, ctx) } };' : x.module === 2 ? "addEventListener('fetch', e => e.respondWith(new Response('wrong one'))); globalThis.default = { async fetch(q, env, ctx) { return H[no(q)](q, env, ctx) } };"
        : x.beside + " addEventListener('fetch', e => H[no(e.request)](e));"}`;
    const o = c.scene({ mode: x.mode, script: js, patience: 5000, ops: { '*': [{ body: 'x' }] }, steps: list });
    x.reqs.forEach((q, i) => {
      if (silent(q)) return;
      const d = `${x.module ? 'module' : q.how} ${q.what.join(' ')}${q.after && !x.module ? ' then ' + q.after : ''}, ${x.mode}`;
      const n = o.all('response', at[i]).length;
      if (n !== 1) fail('none', `${d}: ${n} responses: ${c.show(o)}`);
      const g = o.got(at[i]);
      if (o.exec(at[i]) !== 'ok') fail('exec', `${d}: the execution is ${o.exec(at[i])}`);
      const good = ['good', 'stream', 'sub'].includes(q.what[0]);
      const failsToo = q.after === 'throw' && !x.module && q.how.startsWith('respond');
      if (good && !(failsToo && g.status === 500)) {
        if (g.status !== 201 || g.body !== 'good' || g.end !== 'whole') fail('good', `${d}: the client got ${JSON.stringify(g)}`);
        label('good');
      } else if (['used', 'await used', 'locked'].includes(q.what[0])) {
        if (g.status !== 500) fail('used', `${d}: the client got ${JSON.stringify(g)}`);
        label('used');
      } else {
        if (g.status !== 500 || g.end !== 'whole') fail('failed', `${d}: the client got ${JSON.stringify(g)}`);
        label('failed');
      }
    });
  });

  // Without a handler for it.
  const NONE = ['', 'globalThis.default = null;', 'globalThis.default = 42;', 'globalThis.default = "x";', 'globalThis.default = {};', 'globalThis.default = { fetch: 7 };', 'globalThis.default = { async scheduled() {} };', "addEventListener('scheduled', () => 0);", "addEventListener('task', () => 0);", "addEventListener('other', () => 0);", 'globalThis.default = [];', 'globalThis.default = { fetch: null, task() {} };'];
  part('no handler', 8, fc.record({ mode: c.mode, script: fc.constantFrom(...NONE), n: fc.integer({ min: 1, max: 2 }) }), () => true, x => {
    const o = c.scene({ mode: x.mode, script: x.script, patience: 5000, steps: x.mode === 'worker' ? [{ kind: 'fetch' }] : Array.from({ length: x.n }, (_, i) => ({ kind: 'fetch', at: i * 1000 })) });
    for (let i = 0; i < (x.mode === 'worker' ? 1 : x.n); i++) {
      const g = o.got(i);
      if (!g || g.status !== 501 || o.exec(i) !== 'ok') fail('501', `${x.script || 'an empty script'}: ${c.show(o)}`);
    }
  });
};
