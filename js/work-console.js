// C42: console: every message once, in order, with its level and text, to the end.
'use strict';
module.exports = (t, c) => {
  const { fc, part, fail, label } = t;
  const A = c.A;
  const LEVEL = { log: 'Info', info: 'Info', warn: 'Warn', error: 'Error', debug: 'Debug', trace: 'Trace' };
  const str = fc.oneof(fc.string({ maxLength: 12 }), fc.string({ unit: 'binary', maxLength: 8 }), fc.constantFrom('', '%s %d', '\u0000', '\ud800', '\udc00x', '\u{1F600}', 'line\nline', '\u2028', 'x'.repeat(3000), '\u00e9'.repeat(40000)));
  // As JS text; the same text gives the expected value here.
  const prim = fc.oneof(str.map(A), fc.double().map(n => Object.is(n, -0) ? '-0' : `(${n})`), fc.integer().map(String), fc.constantFrom('undefined', 'null', 'true', 'false', 'NaN', '-0', '1e21', '7n', '-12345678901234567890n', 'Symbol("s")', 'Symbol()'));
  const json = fc.letrec(tie => ({ v: fc.oneof({ maxDepth: 3 }, str.map(A), fc.integer().map(String), fc.constantFrom('null', 'true', 'undefined', '-0', 'NaN', '() => 1', 'new Date(0)'),
    fc.array(tie('v'), { maxLength: 3 }).map(a => `[${a.join(', ')}]`), fc.array(fc.tuple(str, tie('v')), { maxLength: 3 }).map(a => `({ ${a.map(([k, v]) => `[${A(k)}]: ${v}`).join(', ')} })`)) })).v;
  const odd = fc.constantFrom('[1, [2, [3]]]', 'new Map([[1, 2]])', 'new Set([1])', 'Object.create(null)', '({ toJSON() { return "json" } })', '({ toJSON() { return undefined } })', '({ a: 1n })',
    '({ toString() { return "own" }, toJSON() { throw 1 } })', '(() => { const a = [1]; a.push(a); return a })()', '(() => { const a = {}; a.a = a; return a })()', 'new String("boxed")', 'new Number(5)', 'Object(Symbol("s"))', 'new Uint8Array([1, 2])',
    'function f(a) { return a }', 'class K {}', '(a, b) => a', '/re/g', 'new Date(86400000)', 'new Date(NaN)', 'new Proxy({ a: 1 }, {})', 'new Proxy([], { get() { throw new Error("no") } })', '({ get a() { throw new Error("no") } })', 'Promise.resolve(1)', '[undefined, () => 1, Symbol()]', '[,1]', 'new WeakMap()', 'Symbol.iterator', 'new (class Named { x = 1 })()');
  const errors = fc.constantFrom('new Error("m")', 'new TypeError("\\u00e9\\n2")', 'new Error("")', 'new RangeError()', 'Object.assign(new Error("m"), { stack: undefined })', 'Object.assign(new Error("m"), { stack: "my stack" })', 'Object.assign(new Error("m"), { stack: "", name: "N" })',
    'Object.assign(new Error("m"), { stack: { toString() { throw 1 } } })', 'new (class Sub extends Error { get name() { return "Sub" } })("s")', 'new Error("m", { cause: 1 })', 'new DOMException("m", "AbortError")');
  const arg = fc.oneof({ weight: 4, arbitrary: prim }, { weight: 3, arbitrary: json }, { weight: 2, arbitrary: odd }, { weight: 2, arbitrary: errors });
  const where = fc.constantFrom('top', 'top', 'handler', 'handler', 'handler', 'micro', 'timer', 'wait', 'stream', 'late', 'throw', 'detached', 'reject');
  const call = fc.tuple(fc.constantFrom(...Object.keys(LEVEL)), fc.array(arg, { maxLength: 4 }), where);
  const kase = fc.record({ mode: c.mode, calls: fc.array(call, { minLength: 1, maxLength: 14 }), end: fc.constantFrom('answer', 'answer', 'throw', 'reject'), style: fc.constantFrom('classic', 'module') });
  // Stacks name places: only the first lines are certain.
  const first = (s, n) => s.split('\n').slice(0, n).join('\n');
  const expect = text => {
    let a;
    try { a = (0, eval)(`(${text})`); } catch (e) { throw new Error(`${text}: ${e.message}`); }
    try {
      // (the runtime's DOMException is an Error too, and its stack, if any, starts in the same way)
      if (a instanceof Error) {
        const s = a.stack;
        if (!s) return { is: `${a.name}: ${a.message}` };
        const str = String(s), at = str.search(/\n\s+at /);
        return at < 0 ? { is: str } : { starts: first(str.slice(0, at), 9) };
      }
      if (typeof a === 'object' && a !== null) {
        try { const s = JSON.stringify(a); return { is: s === undefined ? String(a) : s }; } catch { return { is: String(a) }; }
      }
      return { is: String(a) };
    } catch { return { is: '[' + typeof a + ']' }; }
  };
  part('messages', 130, kase, x => x.calls.length > 2, x => {
    const go = place => x.calls.map((q, i) => [q, i]).filter(([q]) => q[2] === place).map(([[m, args], i]) => `console.${m}(${[`'@${i}'`, ...args].join(', ')});`).join('\n');
    const script = `
      const sleep = ms => new Promise(r => setTimeout(r, ms));
      ${go('top')}
      async function serve(wait) {
        ${go('handler')}
        Promise.resolve().then(() => { ${go('micro')} });
        setTimeout(() => { ${go('timer')} }, 5);
        wait((async () => { await sleep(20); ${go('wait')} })());
        const { log, info, warn, error, debug, trace } = console;
        ${go('detached').replaceAll('console.', '')}
        try { throw new Error('caught') } catch { ${go('throw')} }
        Promise.reject(1).catch(() => { ${go('reject')} });
        await sleep(10);
        setTimeout(() => { ${go('late')} }, 3);
        ${x.end === 'throw' ? 'throw new Error("end");' : x.end === 'reject' ? 'return Promise.reject(undefined);' : ''}
        return new Response(new ReadableStream({ async pull(k) { await sleep(2); ${go('stream')} k.enqueue('body'); k.close(); } }));
      }
      ${x.style === 'module' ? 'globalThis.default = { fetch: (r, env, ctx) => serve(p => ctx.waitUntil(p)) };' : "addEventListener('fetch', e => e.respondWith(serve(p => e.waitUntil(p))));"}`;
    const o = c.scene({ mode: x.mode, patience: 5000, steps: [{ kind: 'fetch' }], script });
    const d = () => c.show(o);
    if (o.exec(0) !== 'ok') fail('exec', d());
    const want = x.end === 'answer' ? 200 : 500;
    if ((o.got(0) || {}).status !== want) fail('answer', d());
    const logs = o.all('log').filter(l => l.text.startsWith('@'));
    const seen = new Map();
    for (const l of logs) {
      const i = parseInt(l.text.slice(1));
      if (seen.has(i)) fail('twice', `message ${i}: ${d()}`);
      seen.set(i, l);
    }
    x.calls.forEach(([m, args, place], i) => {
      const l = seen.get(i), what = `console.${m}(${args.join(', ')}) (${place})`.slice(0, 700);
      if (place === 'stream' && x.end !== 'answer') return;
      if (!l) fail('lost', `${what}: ${d()}`);
      if (l.level !== LEVEL[m]) fail('level', `${what}: ${l.level}`);
      let rest = l.text;
      const parts = [{ is: '@' + i }, ...args.map(expect)];
      for (let k = 0; k < parts.length; k++) {
        const p = parts[k];
        const body = (p.is ?? p.starts).toWellFormed();
        const sep = k ? ' ' : '';
        if (!rest.startsWith(sep + body)) fail('text', `${what}: ${JSON.stringify(rest.slice(0, 300))} for ${JSON.stringify((sep + body).slice(0, 300))}, in ${JSON.stringify(l.text.slice(0, 300))}`);
        rest = rest.slice(sep.length + body.length);
        if (p.starts !== undefined) {
          // The rest of the stack
          const m = /^(\n\s+at [^\n]*?(?= |$|\n))*/s.exec(rest);
          if (k === parts.length - 1) { if (rest && !/^\n\s+at /.test(rest)) fail('text', `${what}: ${JSON.stringify(rest)}`); rest = ''; }
          else return label('stack inside');
        }
      }
      if (rest) fail('text', `${what}: ${JSON.stringify(rest.slice(0, 300))} too much`);
      // Of one place, in the order of the calls
      for (const [j, z] of seen) if (j < i && x.calls[j][2] === place && logs.indexOf(z) > logs.indexOf(l)) fail('order', `messages ${j} and ${i}: ${d()}`);
    });
    const pos = i => logs.indexOf(seen.get(i));
    const rank = { top: 0, handler: 1, detached: 2, throw: 3, micro: 4, timer: 5, late: 7, wait: 8 };
    x.calls.forEach((a, i) => x.calls.forEach((b, j) => {
      if (rank[a[2]] < rank[b[2]] && pos(i) > pos(j)) fail('order', `${i} (${a[2]}) after ${j} (${b[2]}): ${d()}`);
    }));
  });
  // What was said before the end of the worker is not lost.
  part('to the end', 3, fc.record({ mode: fc.constant('worker'), n: fc.integer({ min: 1, max: 80 }), how: fc.constantFrom('loop', 'promise', 'timer'), cpu: fc.boolean() }), () => true, x => {
    const say = `for (let i = 0; i < ${x.n}; i++) console.log('@' + i); for (;;);`;
    const o = c.scene({ mode: x.mode, real: true, limits: x.cpu ? { cpu: 150 } : { wall: 500 }, patience: 10000, steps: [{ kind: 'fetch' }], script: `
      addEventListener('fetch', e => { ${x.how === 'loop' ? say : x.how === 'promise' ? `e.respondWith(Promise.resolve().then(() => { ${say} }));` : `e.respondWith(new Promise(() => setTimeout(() => { ${say} }, 1)));`} });` });
    if (o.exec(0) === 'ok' || o.exec(0) === 'hang') fail('exec', c.show(o));
    const logs = o.logs().filter(l => l.startsWith('@'));
    if (logs.length !== x.n || logs.some((l, i) => l !== '@' + i)) fail('lost', `${logs.length} of ${x.n} messages`);
  });
};
