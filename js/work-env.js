// C41: env: a worker sees the variables and bindings that it was given, all of them, and no others.
'use strict';
module.exports = (t, c) => {
  const { fc, part, fail, label } = t;
  const A = c.A;
  const str = fc.oneof(fc.string({ maxLength: 10 }), fc.string({ unit: 'binary', maxLength: 8 }).map(s => s.toWellFormed()), fc.constantFrom('', '"', "'", '\\', '`${1}`', '</script>', '\u2028\u2029', '\u0000', '\u{1F600}', '{}', 'null', '\r\n', '%s{}', '\\u0041', 'x'.repeat(5000)));
  const name = fc.oneof({ weight: 4, arbitrary: fc.constantFrom('KEY', 'TOKEN', 'DB_URL', 'a', 'K', 'S') }, { weight: 3, arbitrary: str },
    { weight: 2, arbitrary: fc.constantFrom('__proto__', 'constructor', 'toString', 'hasOwnProperty', 'then', 'env', '0', '10', '-1', 'fetch', '{name}', 'toJSON') });
  const vars = fc.oneof({ weight: 1, arbitrary: fc.constant(null) }, { weight: 6, arbitrary: fc.uniqueArray(fc.tuple(name, str), { maxLength: 6, selector: p => p[0] }) });
  const bindings = fc.uniqueArray(fc.tuple(name, fc.constantFrom('assets', 'storage', 'kv', 'db', 'worker')), { maxLength: 5, selector: p => p[0] });
  const worker = fc.record({ vars, bindings, style: fc.constantFrom('classic', 'module', 'module') });
  const kase = fc.record({ mode: c.mode, workers: fc.array(worker, { minLength: 1, maxLength: 3 }), uses: fc.array(fc.tuple(fc.nat(2), fc.nat(6), fc.constantFrom('fetch', 'fetch', 'task')), { minLength: 1, maxLength: 5 }), same: fc.boolean() });
  const METHODS = { assets: ['fetch'], storage: ['delete', 'fetch', 'get', 'head', 'list', 'put'], kv: ['delete', 'get', 'list', 'put'], db: ['query'], worker: ['fetch'] };
  part('seen', 130, kase, x => x.workers.some(w => (w.vars || []).length + w.bindings.length > 1), x => {
    const workers = {};
    x.workers.forEach((w, i) => {
      workers['w' + i] = {
        // A "__proto__" must be a key of its own here too.
        env: w.vars && Object.fromEntries(w.vars), bindings: w.bindings,
        script: `
        const sleep = ms => new Promise(r => setTimeout(r, ms));
        const show = env => Reflect.ownKeys(env).map(k => [typeof k === 'string' ? k : 'symbol', env[k] !== null && typeof env[k] === 'object' ? Object.keys(env[k]).sort() : env[k]]);
        const top = JSON.stringify(show(env));
        const spoil = [
          () => { env.KEY = 'spoilt' }, () => { 'use strict'; env.NEW = 'spoilt' }, () => { delete env[Object.keys(env)[0]] }, () => { globalThis.env = { KEY: 'spoilt' } },
          () => { 'use strict'; Object.defineProperty(env, Object.keys(env)[0], { value: 'spoilt' }) }, () => { Object.defineProperty(globalThis, 'env', { value: {} }) }, () => { Object.setPrototypeOf(env, { KEY: 'spoilt' }) },
        ];
        async function serve(env, i, k) {
          const said = { top, mine: JSON.stringify(show(env)), proto: Object.getPrototypeOf(env) === Object.prototype };
          const name = BINDINGS[k % BINDINGS.length];
          if (name !== undefined) {
            const key = 'use-' + i, b = env[name[0]];
            await ({ assets: () => b.fetch('http://x.test/' + key), worker: () => b.fetch('http://x.test/' + key), storage: () => b.get(key), kv: () => b.get(key), db: () => b.query(key) })[name[1]]();
          }
          try { spoil[k](); } catch {}
          said.after = JSON.stringify(show(globalThis.env));
          return JSON.stringify(said);
        }
        const BINDINGS = ${A(w.bindings)};
        ${w.style === 'module' ? `globalThis.default = { async fetch(r, env, ctx) { const [, i, k] = new URL(r.url).pathname.split('/'); return new Response(await serve(env, +i, +k)); }, async task(e, env) { return { success: true, data: await serve(env, e.payload.i, e.payload.k) }; } };`
          : `addEventListener('fetch', e => { const [, i, k] = new URL(e.request.url).pathname.split('/'); e.respondWith(serve(env, +i, +k).then(s => new Response(s))); });
             addEventListener('task', async e => ({ success: true, data: await serve(env, e.payload.i, e.payload.k) }));`}` };
    });
    const steps = [], at = [];
    let now = -1;
    const which = u => u % x.workers.length;
    x.uses.forEach(([u, k, kind], i) => {
      const w = 'w' + which(u);
      if (x.mode === 'worker' && now !== which(u)) steps.push({ kind: 'new', worker: w });
      now = which(u);
      at.push(steps.length);
      const who = { worker: w, at: x.mode === 'pinned' && !x.same ? i * 50 : 0, env: 1 };
      steps.push(kind === 'task' ? { kind, payload: { i, k }, ...who } : { kind, url: `http://w.test/${i}/${k}`, ...who });
    });
    const o = c.scene({ mode: x.mode, patience: 5000, ops: { '*': [{ delay: 3, body: 'x', rows: '[]' }] }, workers, steps });
    x.uses.forEach(([u, k, kind], i) => {
      const w = x.workers[which(u)], d = `use ${i} of worker ${which(u)}`;
      if (o.exec(at[i]) !== 'ok') fail('exec', `${d}: ${o.exec(at[i])}: ${c.show(o)}`);
      const text = kind === 'task' ? (o.one('result', at[i]) || {}).data : Buffer.from((o.got(at[i]) || {}).body || '', 'latin1').toString();
      let said;
      try { said = JSON.parse(text); } catch { fail('answer', `${d}: ${text}`); }
      const want = new Map(w.vars || []);
      for (const [n, kind] of w.bindings) want.set(n, METHODS[kind]);
      for (const when of ['top', 'mine', 'after']) {
        const got = JSON.parse(said[when]);
        const m = new Map(got);
        if (m.size !== got.length) fail('twice', `${d}: ${said[when]}`);
        for (const [n, v] of want) if (!c.same(m.get(n), v)) fail('env', `${d}: ${JSON.stringify(n)} is ${JSON.stringify(m.get(n))} (${when}), not ${JSON.stringify(v)}`);
        for (const [n] of m) if (!want.has(n)) fail('env', `${d}: sees ${JSON.stringify(n)} (${when})`);
      }
      if (!said.proto) fail('proto', d);
      const b = w.bindings[k % w.bindings.length];
      if (b) {
        const key = 'use-' + i;
        const ops = o.all('op').filter(e => e.op !== 'fetch' && (e.url === 'http://x.test/' + key || e.sql === key || (e.args && e.args.key === key)));
        if (ops.length !== 1 || ops[0].op !== b[1] || ops[0].binding !== b[0]) fail('binding', `${d} used ${JSON.stringify(b)}: ${JSON.stringify(ops)}`);
        if (ops[0].w.split('#')[0] !== 'w' + which(u)) fail('outside', `${d} asked the outside of ${ops[0].w}`);
        label('binding');
      }
    });
  });
};
