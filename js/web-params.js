// C21: URLSearchParams against node's.
'use strict';
module.exports = ({ fc, part, iso, check, label }, { A, J, run, PRELUDE }) => {
  iso.fresh(PRELUDE);
  const word = fc.oneof(
    { weight: 4, arbitrary: fc.constantFrom('', 'a', 'b', 'A', 'key', 'a b', '1', 'null', 'undefined', '0', '__proto__', '\u00e9', '\ud83d\ude00', 'z', '\uffff') },
    { weight: 2, arbitrary: fc.array(fc.constantFrom(...'ab =&+%?#/\u00e9\u20ac;~!\'()*-._"<>[]{}|\\^`@:,$\n\t'), { maxLength: 8 }).map(a => a.join('')) },
    { weight: 1, arbitrary: fc.array(fc.integer({ min: 0, max: 0x10ffff }).filter(x => x < 0xd800 || x > 0xdfff).map(x => String.fromCodePoint(x)), { maxLength: 5 }).map(a => a.join('')) });
  const raw = fc.array(fc.oneof(
    { weight: 4, arbitrary: fc.constantFrom('a', 'b', 'key', '=', '&', '=', '&', '+', '%20', '%2B', '%26', '%3D', '%C3%A9', '%25', '1', '?') },
    { weight: 1, arbitrary: fc.constantFrom('%', '%4', '%zz', '%E9', '%C3', '%u0041', '\u00e9', '\ud83d\ude00', '#', '&&', '==', '=&', ';') }), { maxLength: 14 }).map(a => a.join(''));
  const pairs = fc.array(fc.tuple(word, word), { maxLength: 6 });
  const scalar = fc.oneof({ weight: 6, arbitrary: word.map(w => J(w)) }, { weight: 1, arbitrary: fc.constantFrom('1', 'null', 'undefined', 'true', '1.5', '[1,2]') });
  const init = fc.oneof(
    { weight: 4, arbitrary: raw.map(s => ({ k: 'string', s })) }, { weight: 2, arbitrary: pairs.map(p => ({ k: 'pairs', p })) },
    pairs.map(p => ({ k: 'object', p })), pairs.map(p => ({ k: 'map', p })), pairs.map(p => ({ k: 'copy', p })), fc.constant({ k: 'none' }));
  const step = fc.oneof(
    { weight: 3, arbitrary: fc.tuple(scalar, scalar).map(([n, v]) => `p.append(${n}, ${v})`) },
    { weight: 3, arbitrary: fc.tuple(scalar, scalar).map(([n, v]) => `p.set(${n}, ${v})`) },
    { weight: 2, arbitrary: scalar.map(n => `p.delete(${n})`) },
    { weight: 1, arbitrary: fc.constantFrom('p.sort()', 'for (const e of p) e[1] = "touched"', 'all.push(p); p = new URLSearchParams(p)', 'all.push(p); p = new URLSearchParams(p)', 'all.push(p); p = all[0]', 'p.getAll("a").push(1)', 'p = new URLSearchParams(p.toString())', 'p = new URLSearchParams("?" + p)') });
  const LIB = `globalThis.SHOW = (p, names) => { const me = {}, f = []; p.forEach(function (v, k, x) { f.push([k, v, x === p, this === me]) }, me);
      return { e: [...p], e2: [...p.entries()], k: [...p.keys()], v: [...p.values()], f, size: p.size, g: names.map(n => [p.get(n), p.getAll(n), p.has(n)]), again: [...new URLSearchParams(p.toString())] } };
    globalThis.OBJ = p => { const o = Object.create(null); for (const [k, v] of p) o[k] = v; return o };
    globalThis.INIT = i => new URLSearchParams(i.k === 'string' ? i.s : i.k === 'pairs' ? i.p : i.k === 'object' ? OBJ(i.p) : i.k === 'map' ? new Map(i.p) : i.k === 'copy' ? new URLSearchParams(i.p) : undefined);`;
  iso.eval(LIB);
  // The same source in a context of node's own.
  const vm = require('vm');
  const ref = vm.createContext({ URLSearchParams });
  vm.runInContext('globalThis.globalThis = globalThis;' + LIB, ref);

  // application/x-www-form-urlencoded parsing by the URL standard (node's own is wrong for a stray '%'
  // followed by characters beyond Latin 1).
  const parse = s => {
    const decode = s => {
      const b = Buffer.from(s.replaceAll('+', ' ')), out = [];
      for (let i = 0; i < b.length; i++) {
        const h = b.subarray(i + 1, i + 3).toString('latin1');
        if (b[i] === 0x25 && /^[0-9a-f]{2}$/i.test(h)) { out.push(parseInt(h, 16)); i += 2; } else out.push(b[i]);
      }
      return new TextDecoder('utf-8', { ignoreBOM: true }).decode(Buffer.from(out));
    };
    return s.replace(/^\?/, '').split('&').filter(x => x).map(x => {
      const i = x.indexOf('=');
      return i < 0 ? [decode(x), ''] : [decode(x.slice(0, i)), decode(x.slice(i + 1))];
    });
  };

  part('history', 900, fc.record({ init, steps: fc.array(step, { maxLength: 10 }), names: fc.array(scalar, { minLength: 1, maxLength: 3 }) }),
    c => c.init.k !== 'none' && (c.init.k !== 'string' || c.init.s.length > 1) || c.steps.length > 1, c => {
      label('init ' + c.init.k);
      const js = `(() => { const all = []; let p = INIT(${A(c.init)});\n${c.steps.map(s => A([s]).slice(2, -2)).map(s => JSON.parse('"' + s + '"')).join(';\n')};\nreturn { ...SHOW(p, [${c.names.join(',')}, "a", "key"]), all: all.map(q => [...q]) } })()`
        .replace(/[\u007f-\uffff]/g, x => '\\u' + x.charCodeAt(0).toString(16).padStart(4, '0'));
      const refInit = c.init.k === 'string' ? { k: 'pairs', p: parse(c.init.s) } : c.init;
      const want = JSON.parse(J(vm.runInContext(js.replace(A(c.init), () => A(refInit)), ref)));
      const r = run(js);
      check(r.ok, 'threw', () => `${js} gave ${J(r)}`);
      const e = want.e;
      check(J(r.ok.e) === J(e), 'entries', () => `${js}\ngives ${J(r.ok.e)}, not ${J(e)}`);
      check(J(r.ok.again) === J(e), 'roundtrip', () => `${js}\nbecomes ${J(r.ok.again)} through toString, not ${J(e)}`);
      for (const k of Object.keys(want)) check(J(r.ok[k]) === J(want[k]), k, () => `${js}\n${k}: ${J(r.ok[k])}, not ${J(want[k])}`);
    });
};
