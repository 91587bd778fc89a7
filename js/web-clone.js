// C24: structuredClone against node's, on graphs of values built by the same script.
'use strict';
module.exports = ({ fc, part, iso, check, label }, { A, J, run, PRELUDE }) => {
  // BUILD makes the values of a list of nodes (the last is the root; REF i is node i, later ones too);
  // SHOW describes a value with the identity of everything in it.
  const LIB = `
globalThis.ARRAYS = {Int8Array, Uint8Array, Uint8ClampedArray, Int16Array, Uint16Array, Int32Array, Uint32Array, Float32Array, Float64Array, BigInt64Array, BigUint64Array};
globalThis.BUILD = nodes => {
  const made = nodes.map(n => {
    switch (n.k) {
      case 'object': return {};
      case 'null object': return Object.create(null);
      case 'instance': return new (class Point { constructor() { this.x = 1 } get y() { return 2 } })();
      case 'child': return Object.create({ inherited: 1, a: 2 }, { y: { value: 3, enumerable: true } });
      case 'array': { const a = []; a.length = n.len; return a }
      case 'map': return new Map();
      case 'set': return new Set();
      case 'date': return new Date(n.t === null ? NaN : n.t);
      case 'regexp': { const r = new RegExp(n.s, n.f); r.lastIndex = 2; return r }
      case 'buffer': { const b = new ArrayBuffer(n.len); const u = new Uint8Array(b); for (let i = 0; i < n.len; i++) u[i] = n.b + i; return b }
      case 'boxed': return n.t === 'number' ? Object(1.5) : n.t === 'string' ? Object('s\\u00e9') : n.t === 'bool' ? Object(n.f === 1) : Object(7n);
      case 'error': { const e = new globalThis[n.t](n.m); if (n.t === 'Error' && n.m === 'named') e.name = 'RangeError'; if (n.m === 'extra') e.extra = 1; return e }
      case 'function': return () => 1;
      case 'symbol': return Symbol('x');
      case 'weak': return new WeakMap();
      case 'promise': return Promise.resolve(1);
    }
  });
  // Views and, last, contents.
  nodes.forEach((n, i) => {
    if (n.k !== 'view') return;
    const on = nodes[n.on % nodes.length] && made[n.on % nodes.length];
    const b = on instanceof ArrayBuffer ? on : new ArrayBuffer(24);
    if (n.t === 'DataView') { const off = Math.min(n.off, b.byteLength); made[i] = new DataView(b, off, Math.min(n.len, b.byteLength - off)) }
    else { const T = ARRAYS[n.t], w = T.BYTES_PER_ELEMENT; const off = Math.min(n.off, Math.floor(b.byteLength / w)); made[i] = new T(b, off * w, Math.min(n.len, Math.floor((b.byteLength - off * w) / w))) }
  });
  const val = v => v.r !== undefined ? made[v.r % made.length] : v.n !== undefined ? {nan: NaN, inf: -Infinity, negz: -0, undef: undefined, big: 12345678901234567890n}[v.n] : v.v;
  nodes.forEach((n, i) => {
    const o = made[i];
    if (['object', 'null object', 'instance', 'child'].includes(n.k)) for (const [k, v] of n.c) Object.defineProperty(o, k, k === 'got' ? {get: () => val(v), enumerable: true, configurable: true} : {value: val(v), writable: true, enumerable: k !== 'hidden', configurable: true});
    if (n.k === 'array') n.c.forEach(([k, v], j) => { if (k === 'extra') o.extra = val(v); else o[j * n.gap] = val(v) });
    if (n.k === 'map') for (const [k, v, w] of n.c) o.set(w ? val(w) : k, val(v));
    if (n.k === 'set') for (const [k, v] of n.c) o.add(val(v));
  });
  return made[made.length - 1];
};
globalThis.SHOW = (root, from) => {
  const seen = new Map(), out = [];
  const walk = v => {
    if (v === undefined) return 'undefined';
    if (typeof v === 'bigint') return v + 'n';
    if (typeof v === 'number') return Object.is(v, -0) ? '-0' : String(v);
    if (typeof v === 'symbol' || typeof v === 'function') return typeof v;
    if (v === null || typeof v !== 'object') return JSON.stringify(v);
    if (seen.has(v)) return '#' + seen.get(v);
    const id = seen.size; seen.set(v, id);
    const props = () => Object.keys(v).map(k => JSON.stringify(k) + ':' + walk(v[k])).join();
    let s;
    if (v instanceof Date) s = 'Date ' + v.getTime();
    else if (v instanceof RegExp) s = 'RegExp ' + v + ' ' + v.lastIndex;
    else if (v instanceof ArrayBuffer) s = 'ArrayBuffer ' + [...new Uint8Array(v)];
    else if (ArrayBuffer.isView(v)) s = Object.prototype.toString.call(v) + v.byteOffset + '+' + v.byteLength + ' ' + walk(v.buffer);
    else if (v instanceof Map) s = 'Map ' + [...v].map(([k, x]) => walk(k) + '=>' + walk(x)).join();
    else if (v instanceof Set) s = 'Set ' + [...v].map(walk).join();
    else if (v instanceof Error) s = Object.getPrototypeOf(v).name + ' ' + v.message + ' ' + Object.hasOwn(v, 'message') + ' ' + props();
    else if (Array.isArray(v)) s = 'Array ' + v.length + ' ' + props();
    else if ([Number, String, Boolean, BigInt].some(T => v instanceof T)) s = 'boxed ' + typeof v.valueOf() + String(v);
    else s = (Object.getPrototypeOf(v) === Object.prototype ? 'plain' : 'other') + ' ' + props();
    out[id] = s;
    return '#' + id;
  };
  const top = walk(root);
  let shared = 0;
  if (from) { const s2 = new Set(); const reach = v => { if (v === null || typeof v !== 'object' || s2.has(v)) return; s2.add(v); if (v instanceof Map) for (const [k, x] of v) { reach(k); reach(x) } else if (v instanceof Set) for (const x of v) reach(x); else if (ArrayBuffer.isView(v)) reach(v.buffer); if (!ArrayBuffer.isView(v)) for (const k of Object.keys(v)) reach(v[k]) };
    reach(from); for (const o of seen.keys()) if (s2.has(o)) shared++ }
  return [top, ...out, 'shared ' + shared].join('\\n');
};
globalThis.TRY = nodes => { const v = BUILD(nodes); const before = SHOW(v); let c; try { c = structuredClone(v) } catch (e) { return 'refused: ' + e.name } return SHOW(c, v) + (SHOW(v) === before ? '' : 'the original has changed') };`;
  iso.fresh(PRELUDE + LIB);
  const mine = new Function(LIB + 'return globalThis.TRY');
  const TRY = mine();

  const ref = fc.nat(20).map(r => ({ r }));
  const val = fc.oneof({ weight: 4, arbitrary: ref }, { weight: 2, arbitrary: fc.constantFrom(1, 'x', true, null, 0, '', '\u00e9', 2.5).map(v => ({ v })) }, { weight: 1, arbitrary: fc.constantFrom('nan', 'inf', 'negz', 'undef', 'big').map(n => ({ n })) });
  const key = fc.oneof({ weight: 5, arbitrary: fc.constantFrom('a', 'b', 'c', 'd', '1', '0') }, { weight: 1, arbitrary: fc.constantFrom('__proto__', 'constructor', 'toString', 'length', 'hidden', 'got', '') });
  const contents = fc.uniqueArray(fc.tuple(key, val), { maxLength: 4, selector: x => x[0] });
  const node = fc.oneof(
    { weight: 5, arbitrary: fc.record({ k: fc.constantFrom('object', 'object', 'object', 'object', 'null object', 'instance', 'child'), c: contents }) },
    { weight: 4, arbitrary: fc.record({ k: fc.constant('array'), len: fc.nat(4), gap: fc.integer({ min: 1, max: 3 }), c: fc.array(fc.tuple(fc.constantFrom('v', 'v', 'v', 'v', 'v', 'extra'), val), { maxLength: 4 }) }) },
    { weight: 2, arbitrary: fc.record({ k: fc.constant('map'), c: fc.array(fc.oneof(fc.tuple(key, val), fc.tuple(key, val, val)), { maxLength: 4 }) }) },
    { weight: 2, arbitrary: fc.record({ k: fc.constant('set'), c: fc.array(fc.tuple(key, val), { maxLength: 4 }) }) },
    { weight: 1, arbitrary: fc.record({ k: fc.constant('date'), t: fc.constantFrom(0, -1, 1e12, null, 8.64e15) }) },
    { weight: 1, arbitrary: fc.record({ k: fc.constant('regexp'), s: fc.constantFrom('a+', '(?:)', '/', '\\\\d', '\n'), f: fc.constantFrom('', 'g', 'iu', 'gimsy', 'd', 'v', 'dgimsuy') }) },
    { weight: 2, arbitrary: fc.record({ k: fc.constant('buffer'), len: fc.nat(32), b: fc.nat(255) }) },
    { weight: 3, arbitrary: fc.record({ k: fc.constant('view'), t: fc.constantFrom('DataView', 'DataView', 'Int8Array', 'Uint8Array', 'Uint8ClampedArray', 'Int16Array', 'Uint16Array', 'Int32Array', 'Uint32Array', 'Float32Array', 'Float64Array', 'BigInt64Array', 'BigUint64Array'), on: fc.nat(20), off: fc.nat(4), len: fc.nat(12) }) },
    { weight: 1, arbitrary: fc.record({ k: fc.constant('boxed'), t: fc.constantFrom('number', 'string', 'bool', 'bigint'), f: fc.nat(1) }) },
    { weight: 1, arbitrary: fc.record({ k: fc.constant('error'), t: fc.constantFrom('Error', 'TypeError', 'RangeError', 'SyntaxError', 'EvalError', 'ReferenceError', 'URIError'), m: fc.constantFrom('oops', '', 'named', 'extra') }) });
  const bad = fc.constantFrom('function', 'symbol', 'weak', 'promise').map(k => ({ k }));
  const graph = fc.tuple(fc.array(fc.oneof({ weight: 40, arbitrary: node }, { weight: 1, arbitrary: bad }), { maxLength: 7 }), node).map(([l, n]) => [...l, n]);

  part('graph', 1500, graph, c => c.length > 2, c => {
    const want = TRY(c);
    const r = run(`TRY(${A(c)})`);
    if (/^refused/.test(want)) label('refused');
    check(r.ok !== undefined, 'threw', () => `TRY(${A(c)}) gave ${J(r)}`);
    check(r.ok === want, 'different', () => `the clone is\n${r.ok}\nnot\n${want}`);
  });
};
