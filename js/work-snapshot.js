// C47: from the runtime's snapshot, a worker is and does what it is and does without.
'use strict';
const fs = require('fs');
const path = require('path');
module.exports = (t, c) => {
  const { fc, part, fail, label } = t;
  const A = c.A;
  const { victim, ops, deeds } = require('./work-victim.js');
  const { deed, deed2js } = deeds(fc, A);
  const root = path.join(process.env.VERIF_SCRATCH, 'snapshots');
  const dir = n => { const d = path.join(root, n); fs.mkdirSync(d, { recursive: true }); return d; };
  const POOL = { thread: 2, concurrent: 2, cached: 2 };
  const make = async (n, also = {}) => {
    const file = path.join(dir(n), 'snapshot.bin');
    const r = await c.sceneIn({ cwd: dir('none'), ...also }, { op: 'snapshot', path: file });
    if (r.error || !(r.len > 1000) || fs.statSync(file).size !== r.len) fail('made', `create_runtime_snapshot gave ${JSON.stringify(r)}`);
    return file;
  };
  let made = null;
  const worlds = async s => {
    await (made = made || make('with').catch(e => { made = null; throw e; }));
    return [await c.sceneIn({ cwd: dir('none'), ...POOL }, s), await c.sceneIn({ cwd: dir('with'), ...POOL }, s)];
  };
  const fetch = (worker, body = 'hello') => ({ kind: 'fetch', worker, method: 'POST', url: 'http://w.test/', body });
  const lines = o => o.trace.filter(e => !['begin', 'warm', 'pool', 'over'].includes(e.k)).map(e => {
    const { t, ...r } = e;
    if (e.k === 'response' || e.k === 'chunk') try { const j = JSON.parse(e.data); return JSON.stringify({ ...r, data: 0 }) + '\n' + [j.body, ...j.did, ...j.at.split('\n')].join('\n'); } catch (x) { }
    return JSON.stringify(r);
  }).sort().join('\n').split('\n');
  const compare = (what, [a, b]) => {
    const p = lines(a), q = lines(b), s = new Set(p), z = new Set(q);
    if (p.join('\n') !== q.join('\n')) fail('differs', `${what}: with the snapshot there is no ${JSON.stringify(p.filter(l => !z.has(l)).slice(0, 4))}, but ${JSON.stringify(q.filter(l => !s.has(l)).slice(0, 4))}`);
    return a;
  };
  const steps = (mode, list) => mode === 'worker' ? [{ kind: 'new', worker: 'v' }, ...list] : list;

  // All that a worker sees, and a bit of all that it can do, after what it did to its own globals.
  const kase = fc.record({ mode: c.mode, deeds: fc.oneof(fc.constant([]), fc.array(deed, { maxLength: 3 })), n: fc.integer({ min: 1, max: 3 }) });
  part('seen', 25, kase, x => x.deeds.length > 0, async x => {
    const by = w => x.deeds.filter(d => d.when === w).map(deed2js).join('\n');
    const script = `${by('top')}\n{${victim}}\n${by('handler')}`;
    const run = await worlds({ mode: x.mode, patience: 3000, workers: { v: { script, bindings: [['K', 'kv']], ops } }, steps: steps(x.mode, Array.from({ length: x.n }, (_, i) => ({ ...fetch('v'), giveUp: 900 }))) });
    const o = compare(`${x.mode}, ${x.n} times after ${x.deeds.map(d => `${d.how} of ${d.path} (${d.name}, ${d.nth}) in ${d.when}`).join('; ')}`, run);
    label(x.mode);
    if (!x.deeds.length && x.n === 1 && !/^ok$/.test(o.exec(x.mode === 'worker' ? 1 : 0))) fail('alone', `the victim alone: ${c.show(o)}`);
  });

  // Any calls of any methods of the classes of the runtime.
  const CLASSES = ['Blob', 'File', 'FormData', 'Headers', 'Request', 'Response', 'URL', 'URLSearchParams', 'AbortController', 'TextEncoder', 'TextDecoder', 'ReadableStream'];
  const value = fc.oneof(
    fc.constantFrom('undefined', 'null', '0', '-1', '3', '404', '1.5', 'NaN', 'true', '""', '"a"', '"a=1&b=%20c"', '"http://u:p@h:81/a/../b?q=1#f"', '"../x?y"', '"é😀\\ud800"', '"POST"', '"x-a"', '"utf-16le"', '"eA=="',
      '[]', '["x", "y"]', '[["a", "b"], ["A", "c"]]', '{}', '{ a: "b" }', '{ method: "PUT", body: "z", headers: { q: "r" } }', '{ status: 201, headers: [["set-cookie", "a=1"]] }', '{ type: "text/x" }', '{ fatal: true, stream: true }', '{ once: true }',
      'new Uint8Array([104, 105, 255])', 'new Uint16Array([1, 2]).buffer', 'new DataView(new ArrayBuffer(3), 1)', 'new Map([["k", "v"]])', 'new Date(5)', '/x/g', 'Symbol("s")', '10n', '(...a) => { note("called", a) }', '{ start(c) { c.enqueue("p"); c.close() } }', '{ pull(c) { c.enqueue(new Uint8Array([65])); c.close() } }',
      'new Error("boom")', '"abort"', 'Promise.resolve(7)'),
    fc.nat(8).map(n => `made[${n} % (made.length || 1)]`));
  const args = fc.array(value, { maxLength: 3 });
  const call = fc.oneof(
    { weight: 3, arbitrary: fc.record({ k: fc.constant('new'), cls: fc.constantFrom(...CLASSES), args }) },
    { weight: 5, arbitrary: fc.record({ k: fc.constant('call'), on: fc.nat(8), m: fc.nat(60), args }) },
    { weight: 1, arbitrary: fc.record({ k: fc.constant('static'), cls: fc.constantFrom('AbortSignal', 'Response', 'URL', 'Request', 'Blob'), m: fc.nat(20), args }) },
    { weight: 1, arbitrary: fc.record({ k: fc.constant('fn'), cls: fc.constantFrom('structuredClone', 'btoa', 'atob', 'queueMicrotask', 'fetch', 'self.String', 'global.parseInt'), args }) });
  const PROGRAM = `
    const seen = new Map();
    const tell = (v, d = 0) => {
      if (typeof v === 'bigint') return v + 'n';
      if (typeof v === 'symbol' || v === undefined || Object.is(v, -0) || typeof v === 'number') return String(v);
      if (typeof v === 'string') return JSON.stringify(v);
      if (v === null || typeof v === 'boolean') return String(v);
      if (v === globalThis) return 'globalThis';
      if (seen.has(v)) return '#' + seen.get(v);
      seen.set(v, seen.size);
      if (typeof v === 'function') return 'function ' + v.name + '/' + v.length;
      const tag = Object.prototype.toString.call(v) + ' ' + (v.constructor && v.constructor.name);
      if (d > 3) return tag;
      if (v instanceof Error) return tag + ' ' + v.name + ': ' + v.message;
      if (ArrayBuffer.isView(v) && !(v instanceof DataView)) return tag + ' ' + [...v].slice(0, 99).join();
      if (v instanceof ArrayBuffer) return tag + ' ' + [...new Uint8Array(v)].join();
      if (v instanceof Map || v instanceof Set) return tag + tell([...v], d + 1);
      if (v instanceof Date) return tag + +v;
      return tag + '{' + Reflect.ownKeys(v).map(k => String(k) + ':' + tell((Reflect.getOwnPropertyDescriptor(v, k) || {}).value, d + 1)).join() + '}';
    };
    const out = [], note = (w, v) => { seen.clear(); out.push(w + ' ' + tell(v)) };
    const names = o => { const l = []; for (let p = o; p && p !== Object.prototype && p !== Function.prototype; p = Object.getPrototypeOf(p)) for (const k of Reflect.ownKeys(p)) if (k !== 'constructor') l.push(k); return l };
    const settle = async v => v && typeof v.then === 'function' ? Promise.race([v, new Promise(r => setTimeout(() => r('pending'), 15))]) : v;
    const use = (o, m, a) => { const ns = names(o), k = ns[m % ns.length]; const v = o[k]; return [String(k), typeof v === 'function' ? Reflect.apply(v, o, a) : v] };`;
  const calls2js = calls => calls.map((k, i) => `await (async () => { try {
      const a = [${k.args.join(', ')}];
      ${{
        new: `const v = new ${k.cls}(...a); made.push(v); note('${i} new ${k.cls}', v);`,
        call: `if (!made.length) return; const [n, v] = use(made[${k.on} % made.length], ${k.m}, a); const s = await settle(v); if (s && typeof s === 'object') made.push(s); note('${i} ' + n, s);`,
        static: `const [n, v] = use(${k.cls}, ${k.m}, a); const s = await settle(v); if (s && typeof s === 'object') made.push(s); note('${i} ${k.cls}.' + n, s);`,
        fn: `note('${i} ${k.cls}', await settle(${k.cls}(...a)));`,
      }[k.k]}
    } catch (e) { note('${i} threw', e) } })();`).join('\n');
  part('calls', 60, fc.record({ mode: c.mode, calls: fc.array(call, { minLength: 2, maxLength: 14 }) }), x => x.calls.length > 3, async x => {
    const js = calls2js(x.calls);
    const script = `globalThis.default = { async fetch() { const made = []; Date.now = () => 5; ${PROGRAM}\n${js}\nreturn new Response(out.join('\\n')) } };`;
    const run = await worlds({ mode: x.mode, patience: 3000, workers: { v: { script, ops: { '*': [{ delay: 1, status: 200, body: 'up' }] } } }, steps: steps(x.mode, [{ ...fetch('v'), giveUp: 2000 }]) });
    const o = compare(`${x.mode}: ${script}`, run);
    const g = o.got(x.mode === 'worker' ? 1 : 0);
    label(g ? 'answered' : 'not answered');
    for (const l of g && g.body ? g.body.split('\n') : []) label(/^\d+ threw/.test(l) ? 'call threw' : 'call returned');
  });

  // The same on an isolate that is lent, for what needs no turn of the event loop.
  part('lent', 25, fc.record({ calls: fc.array(call, { minLength: 2, maxLength: 14 }), world: fc.constantFrom('none', 'with', 'empty') }), x => x.calls.length > 3, async x => {
    await worlds({ mode: 'worker', workers: {}, steps: [] });
    fs.writeFileSync(path.join(dir('empty'), 'snapshot.bin'), '');
    const script = `globalThis.default = { async task() { const made = []; Date.now = () => 5; ${PROGRAM.replace('new Promise(r => setTimeout(() => r(\'pending\'), 15))', '(async () => { for (let i = 0; i < 100; i++) await 0; return \'pending\' })()')}\n${calls2js(x.calls)}\nreturn { success: true, data: [Object.getOwnPropertyNames(globalThis).filter(k => k[0] !== '_').sort().join(), ...out] } } };`;
    const task = mode => ({ mode, patience: 3000, workers: { v: { script } }, steps: [...steps(mode, []), { kind: 'task', worker: 'v' }, { kind: 'task', worker: 'v' }].slice(0, 2) });
    const [o, w] = [await c.sceneIn({ cwd: dir(x.world), ...POOL }, task('isolate')), await c.sceneIn({ cwd: dir('none'), ...POOL }, task('worker'))];
    const want = w.one('result', 1);
    for (const i of [0, 1]) {
      const r = o.one('result', i), l = r && r.data || [];
      if (JSON.stringify(r) !== JSON.stringify({ ...want, step: i, t: r && r.t })) fail('lent', `snapshot ${x.world}, on a lent isolate, time ${i}: ${JSON.stringify(l.filter((y, n) => !want.data || y !== want.data[n]).slice(0, 3))} ${c.show(o)}, and a worker gives ${JSON.stringify(want.data && want.data.filter((y, n) => y !== l[n]).slice(0, 3))}`);
    }
    label(`lent ${x.world}`);
  });

  // A snapshot can be made again, by a process with or without one; an empty file is as none.
  part('made', 2, fc.record({ from: fc.constantFrom('none', 'with'), mode: c.mode, empty: fc.boolean() }), () => true, async x => {
    await worlds({ mode: 'worker', workers: {}, steps: [] });
    if (x.empty) fs.writeFileSync(path.join(dir('again'), 'snapshot.bin'), '');
    else {
      const [a, b] = [await make('again', { cwd: dir(x.from) }), path.join(dir('with'), 'snapshot.bin')].map(f => fs.statSync(f).size);
      if (Math.abs(a - b) > b / 10) fail('size', `a snapshot of ${b} bytes, then one of ${a}`);
    }
    const s = { mode: x.mode, patience: 3000, workers: { v: { script: victim, bindings: [['K', 'kv']], ops } }, steps: steps(x.mode, [fetch('v')]) };
    // A process of its own each time, as it reads the snapshot once only.
    compare(x.empty ? 'an empty snapshot' : `a snapshot made from ${x.from}`, [await c.sceneIn({ cwd: dir('none'), ...POOL }, s), await c.sceneIn({ cwd: dir('again'), ...POOL, nonce: t.n = (t.n || 0) + 1 }, s)]);
  });
};
