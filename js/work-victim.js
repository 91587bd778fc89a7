// A worker that describes all that it sees, and does a bit of everything (for C46 and C47).
'use strict';
module.exports = (() => {
  // What a fresh worker sees of its environment, and what it can do.
  const FINGERPRINT = `
    const lines = [], seen = new Map();
    const look = (path, o, depth) => {
      if (o === null || typeof o !== 'object' && typeof o !== 'function') return;
      if (seen.has(o)) { lines.push(path + ' is ' + seen.get(o)); return; }
      seen.set(o, path);
      const f = typeof o === 'function' ? Function.prototype.toString.call(o) : '';
      lines.push(path + ' ' + Object.prototype.toString.call(o) + ' ' + Object.isExtensible(o) + (f ? ' ' + f.length + ' ' + f.slice(0, 60).replace(/\\s+/g, ' ') : ''));
      if (depth > 5) return;
      for (const k of Reflect.ownKeys(o).sort((a, b) => String(a) < String(b) ? -1 : 1)) {
        const d = Reflect.getOwnPropertyDescriptor(o, k), p = path + '.' + String(k);
        lines.push(p + ' ' + typeof d.value + ' ' + [d.writable, d.enumerable, d.configurable] + (['string', 'number', 'boolean'].includes(typeof d.value) ? ' ' + d.value : ''));
        look(p, d.value, depth + 1); look(p + '?get', d.get, depth + 1); look(p + '?set', d.set, depth + 1);
      }
      look(path + '.__proto__', Object.getPrototypeOf(o), depth + 1);
    };
    look('g', globalThis, 0);
    for (const [n, o] of Object.entries({ async: async function () {}, generator: function* () {}, array: [][Symbol.iterator](), map: new Map().entries(), regexp: 'a'.matchAll(/a/g), typed: new Uint8Array(1) })) look(n, Object.getPrototypeOf(o), 0);
    lines.sort();`;
  const DO = `
    const did = [];
    const step = async (n, f) => { let r; try { r = await f() } catch (e) { r = 'threw ' + e } did.push(n + ': ' + r) };
    await step('fetch', async () => (await (await fetch('http://up.test/x', { method: 'POST', body: 'ab', headers: { A: 'b' } })).text()));
    await step('json', async () => JSON.stringify(await (await fetch('http://up.test/json')).json()));
    await step('timers', () => new Promise(r => { const l = []; setTimeout(() => l.push(1), 3); const i = setInterval(() => { l.push(2); if (l.length > 3) { clearInterval(i); r(l.join()) } }, 2); }));
    await step('micro', () => new Promise(r => queueMicrotask(() => r('ran'))));
    await step('kv', () => env.K.get('a'));
    await step('stream', async () => { let s = ''; const [a, b] = new ReadableStream({ start(c) { c.enqueue('p'); c.enqueue('q'); c.close(); } }).tee(); for await (const x of [a, b]) { const r = x.getReader(); for (;;) { const { done, value } = await r.read(); if (done) break; s += value; } } return s; });
    await step('body', async () => new Response(new Blob(['x', new Uint8Array([65])])).text());
    await step('digest', async () => [...new Uint8Array(await crypto.subtle.digest('SHA-1', new TextEncoder().encode('é')))].join());
    await step('hmac', async () => { const k = await crypto.subtle.importKey('raw', new Uint8Array(9), { name: 'HMAC', hash: 'SHA-256' }, true, ['sign', 'verify']); return [...new Uint8Array(await crypto.subtle.sign('HMAC', k, new Uint8Array(3)))].join() });
    await step('text', () => new TextDecoder().decode(new TextEncoder().encode('a😀')) + btoa('x') + atob('eA=='));
    await step('url', () => new URL('../a?b=1#c', 'http://h:1/x/y').href + new URLSearchParams('a=1&b=%20'));
    await step('headers', () => JSON.stringify([...new Headers([['B', '1'], ['a', '2'], ['b', '3']])]));
    await step('clone', () => JSON.stringify(structuredClone({ a: [1, new Date(5)], m: [...new Map([[1, 2]])] })));
    await step('abort', () => { const a = new AbortController(); let n = 0; a.signal.addEventListener('abort', () => n++); a.abort(); return n + String(a.signal.aborted) });
    await step('form', async () => JSON.stringify([...await new Request('http://a/', { method: 'POST', headers: { 'content-type': 'application/x-www-form-urlencoded' }, body: 'a=1&b=2' }).formData()]));
    console.log('a', { b: 1 }, [2]); console.error(new RangeError('e').message);
    await step('error', () => { try { null.x } catch (e) { return e instanceof TypeError } });`;
  const victim = `
    const sleep = ms => new Promise(r => setTimeout(r, ms));
    const at = (() => { ${FINGERPRINT} return lines.join('\\n'); })();
    globalThis.default = { async fetch(q, env, ctx) {
      ctx.waitUntil(sleep(5).then(() => console.log('waited')));
      const body = await q.text();
      ${DO}
      return new Response(new ReadableStream({ async pull(k) { k.enqueue(new TextEncoder().encode(JSON.stringify({ body, at, did }))); await sleep(2); k.close(); } }), { status: 202, headers: { 'X-A': 'b' } });
    } };`;
  const ops = { 'fetch http://up.test/x': [{ delay: 3, body: { chunks: [[0, 'u'], [2, 'p']] } }], 'fetch http://up.test/json': [{ body: '{"a":[1]}' }], 'kv K get a': [{ delay: 1, value: 'v' }] };
  const deeds = (fc, A) => {
    // Everything that a script can get hold of by name.
    const PATHS = ['Object.prototype', 'Array.prototype', 'Function.prototype', 'Promise.prototype', 'Promise', 'Symbol.prototype', 'Symbol', 'String.prototype', 'Number.prototype', 'Map.prototype', 'Set.prototype', 'Uint8Array.prototype', 'Uint8Array', 'Object.getPrototypeOf(Uint8Array.prototype)', 'Object.getPrototypeOf(Uint8Array)',
      'ArrayBuffer.prototype', 'ArrayBuffer', 'Date', 'Date.prototype', 'JSON', 'Math', 'Reflect', 'RegExp.prototype', 'Error', 'Error.prototype', 'TypeError.prototype', 'globalThis', 'Object', 'Array', 'Proxy', 'WeakMap.prototype', 'Object.getPrototypeOf([][Symbol.iterator]())', 'Object.getPrototypeOf(async function () {})', 'Object.getPrototypeOf(function* () {})',
      'Headers.prototype', 'Request.prototype', 'Response.prototype', 'Response', 'ReadableStream.prototype', 'URL.prototype', 'URL', 'URLSearchParams.prototype', 'Blob.prototype', 'FormData.prototype', 'AbortController.prototype', 'AbortSignal.prototype', 'AbortSignal', 'TextDecoder.prototype', 'TextEncoder.prototype', 'crypto', 'crypto.subtle', 'console', 'performance', 'WebSocket.prototype', 'env', 'Intl', 'WebAssembly', 'globalThis.__timerCallbacks', 'globalThis.__proto__'];
    const NAMES = ['then', 'status', 'body', 'headers', 'data', 'value', 'done', 'length', 'constructor', 'toString', 'toJSON', 'get', 'set', 'push', 'call', 'apply', 'bind', 'url', 'method', 'fetch', 'default', 'waitUntil', 'success', 'message', 'stack', 'name', '0', 'byteLength', 'buffer'];
    const deed = fc.record({
      path: fc.constantFrom(...PATHS), how: fc.constantFrom('all throw', 'all same', 'delete', 'freeze', 'accessor', 'constructor', 'proto', 'named', 'one', 'species', 'code'),
      name: fc.constantFrom(...NAMES), nth: fc.nat(60), when: fc.constantFrom('top', 'handler', 'late'),
    });
    const CODE = ['Error.prepareStackTrace = () => "mine"; Error.stackTraceLimit = 0;', 'globalThis.self = globalThis.global = null;', 'for (const k of Object.getOwnPropertyNames(globalThis)) if (k.startsWith("__")) { try { globalThis[k] = () => { throw "mine" } } catch (e) {} }',
      'for (const k of Object.getOwnPropertyNames(globalThis)) if (/^[A-Z]/.test(k) && k !== "Object") { try { globalThis[k] = class {} } catch (e) {} }', 'setInterval(() => 0, 1);', 'new FinalizationRegistry(() => { throw 1 }).register({}, 1);',
      'Promise.reject(new Error("left"));', 'RegExp.prototype.exec = () => null;', 'Symbol.for("shared").description; Object.defineProperty(Object.prototype, "__proto__", { value: 1 });', 'Object.freeze(globalThis);', 'globalThis.fetch = globalThis.Response = globalThis.console = undefined;', 'let queueMicrotask = 1; var TextEncoder = 2;'];
    const deed2js = d => `try { ${{
      'all throw': `for (const k of Reflect.ownKeys(${d.path})) try { if (typeof ${d.path}[k] === 'function') Object.defineProperty(${d.path}, k, { value() { throw new Error('mine') }, configurable: true, writable: true }); } catch (e) { }`,
      'all same': `for (const k of Reflect.ownKeys(${d.path})) try { if (typeof ${d.path}[k] === 'function') ${d.path}[k] = () => 'mine'; } catch (e) { }`,
      delete: `for (const k of Reflect.ownKeys(${d.path})) try { delete ${d.path}[k]; } catch (e) { }`,
      freeze: `Object.freeze(${d.path});`,
      accessor: `Object.defineProperty(${d.path}, ${A(d.name)}, { get() { return 'mine' }, set() { throw new Error('mine') }, configurable: true });`,
      constructor: `${d.path}.constructor = class Mine {};`,
      proto: `Object.setPrototypeOf(${d.path}, { mine: 1, [${A(d.name)}]() { throw new Error('mine') } });`,
      named: `${d.path}[${A(d.name)}] = function () { throw new Error('mine') };`,
      one: `{ const p = ${d.path}, ks = Reflect.ownKeys(p).filter(k => typeof Reflect.getOwnPropertyDescriptor(p, k).value === 'function'), k = ks[${d.nth} % ks.length], f = p[k]; p[k] = function (...a) { const r = Reflect.apply(f, this, a); return typeof r === 'string' ? r + 'mine' : r }; }`,
      species: `Object.defineProperty(${d.path}, Symbol.species, { value: class { constructor() { throw new Error('mine') } }, configurable: true }); Object.defineProperty(${d.path}, Symbol.iterator, { value: function* () { yield 'mine' }, configurable: true });`,
      code: CODE[d.nth % CODE.length],
    }[d.how]} } catch (e) { }`;
    return { deed, deed2js };
  };
  return { FINGERPRINT, DO, victim, ops, deeds };
})();
