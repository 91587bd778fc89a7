// C23: btoa and atob against the standard's "forgiving base64" (and base64url, which atob takes as well).
'use strict';
module.exports = ({ fc, part, iso, check, label }, { A, J, run, PRELUDE }) => {
  iso.fresh(PRELUDE + 'globalThis.D = s => Array.from(s, x => x.charCodeAt(0));');
  const latin = fc.oneof({ weight: 4, arbitrary: fc.array(fc.integer({ min: 0, max: 255 }), { maxLength: 40 }) }, { weight: 1, arbitrary: fc.array(fc.constantFrom(0, 255, 0xfb, 0xef, 0x3e, 0x3f), { maxLength: 12 }) },
    { weight: 1, arbitrary: fc.tuple(fc.integer({ min: 100, max: 5000 }), fc.nat(255)).map(([n, k]) => Array.from({ length: n }, (_, i) => (i * k + (i >> 8)) & 255)) });
  const str = a => a.map(x => String.fromCharCode(x)).join('');

  part('btoa', 500, latin, c => c.length > 2, c => {
    const want = Buffer.from(c).toString('base64');
    const r = run(`(() => { const s = btoa(${A(str(c))}); return [s, D(atob(s)), D(atob(s.replace(/=/g, '')))] })()`);
    check(r.ok, 'threw', () => `btoa and atob of ${J(c)} gave ${J(r)}`);
    check(r.ok[0] === want, 'btoa', () => `btoa of ${J(c)} gave ${r.ok[0]}, not ${want}`);
    check(J(r.ok[1]) === J(c), 'roundtrip', () => `atob of ${want} gave ${J(r.ok[1])}, not ${J(c)}`);
    check(J(r.ok[2]) === J(c), 'unpadded', () => `atob of ${want} without padding gave ${J(r.ok[2])}, not ${J(c)}`);
  });

  const any = fc.oneof({ weight: 3, arbitrary: fc.array(fc.oneof({ weight: 6, arbitrary: fc.integer({ min: 0, max: 255 }) }, { weight: 1, arbitrary: fc.integer({ min: 256, max: 0xffff }) }), { minLength: 1, maxLength: 12 }).map(a => A(str(a))) },
    { weight: 1, arbitrary: fc.array(fc.constantFrom(0, 1, 97, 254, 255, 256, 257, 511, 0xff00), { maxLength: 4 }).map(a => A(str(a))) },
    { weight: 1, arbitrary: fc.constantFrom('0', '12345', 'null', 'undefined', 'true', '[1,2]', '1.5') });
  part('values', 200, any, c => c.length > 3, c => {
    const s = String(eval('(' + c + ')'));
    const r = run(`btoa(${c})`);
    if (/[^\x00-\xff]/.test(s)) {
      label('beyond Latin 1');
      check(/InvalidCharacterError/.test(r.err || ''), 'accepted', () => `btoa(${c}) gave ${J(r)}, not an InvalidCharacterError`);
    } else check(r.ok === Buffer.from(s, 'latin1').toString('base64'), 'btoa', () => `btoa(${c}) gave ${J(r)}`);
  });

  const sym = fc.constantFrom(...'ABCabz019+/-_');
  const text = fc.tuple(fc.array(fc.oneof({ weight: 8, arbitrary: sym }, { weight: 1, arbitrary: fc.constantFrom(' ', '\n', '\t', '\r', '\f') }), { maxLength: 14 }), fc.constantFrom('', '', '=', '==', '= ', ' =', '===', '====', '= =\n=='), fc.nat(9), fc.nat(14),
    fc.constantFrom('=', '.', '!', '\u00a0', '\u2003', '\u0000', '\u00e9', '\ud83d\ude00', '*', '%', '\u0141'))
    .map(([a, pad, bad, at, x]) => { if (bad === 0) a.splice(at, 0, x); return a.join('') + pad; });
  const decode = s => {
    s = s.replace(/[\t\n\f\r ]/g, '');
    if (s.length % 4 === 0) s = s.replace(/==?$/, '');
    if (s.length % 4 === 1 || /[^A-Za-z0-9+/_-]/.test(s)) return null;
    return [...Buffer.from(s.replace(/-/g, '+').replace(/_/g, '/'), 'base64')];
  };
  part('atob', 900, text, c => c.length > 3, c => {
    const want = decode(c);
    const r = run(`D(atob(${A(c)}))`);
    if (want === null) {
      label('malformed');
      check(/InvalidCharacterError/.test(r.err || ''), 'malformed', () => `atob(${A(c)}) gave ${J(r)}, not an InvalidCharacterError`);
    } else check(J(r.ok) === J(want), 'atob', () => `atob(${A(c)}) gave ${J(r)}, not ${J(want)}`);
  });
};
