// C43: code caches: a bundle gives back what was packed, and a script runs from it as from its source.
'use strict';
module.exports = (t, c) => {
  const { fc, part, fail, label } = t;
  const A = c.A;
  const MAGIC = Buffer.from([0x5e, 0xca, 0xde, 0xc0]).toString('latin1');
  const text = fc.oneof(fc.string({ maxLength: 20 }), fc.string({ unit: 'binary', maxLength: 20 }).map(s => s.toWellFormed()), fc.constantFrom('', '\ufeffx', '\u0000', '\u{1F600}'.repeat(300), 'x'.repeat(70000), MAGIC));
  const change = fc.oneof({ weight: 2, arbitrary: fc.constant(null) }, { weight: 1, arbitrary: fc.tuple(fc.constant('cut'), fc.nat(30)) }, { weight: 1, arbitrary: fc.tuple(fc.constant('byte'), fc.nat(40), fc.integer({ min: 1, max: 255 })) },
    { weight: 1, arbitrary: fc.tuple(fc.constant('length'), fc.oneof(fc.nat(60), fc.integer({ min: 0, max: 0xffffffff }), fc.constantFrom(0xffffffff, 0x7fffffff, 0xfffffff8))) }, { weight: 1, arbitrary: fc.tuple(fc.constant('only'), c.bin({ maxLength: 20 })) });
  const fatal = new TextDecoder('utf-8', { fatal: true, ignoreBOM: true });
  part('bundle', 330, fc.record({ source: text, cache: c.bin(), change }), x => x.change !== null || x.cache.length > 0, x => {
    const r = t.iso.call({ op: 'cache', source: x.source, cache: x.cache });
    if (r.panic !== undefined) fail('panic', r.panic);
    const src = c.utf8(x.source);
    if (r.is !== true || !r.back || r.back[0] !== x.source || r.back[1] !== x.cache) fail('round trip', JSON.stringify(r).slice(0, 500));
    const len = Buffer.alloc(4);
    len.writeUInt32LE(src.length);
    if (r.packed !== MAGIC + len.toString('latin1') + src + x.cache) fail('format', JSON.stringify(r.packed).slice(0, 300));
    if (!x.change) return;
    let d = r.packed;
    const [k, n, v] = x.change;
    if (k === 'cut') d = n < 15 ? d.slice(0, n) : d.slice(0, Math.max(0, d.length - (n - 14)));
    if (k === 'byte') d = d.slice(0, n) + (n < d.length ? String.fromCharCode(d.charCodeAt(n) ^ v) : '') + d.slice(n + 1);
    if (k === 'length') { len.writeUInt32LE(n); d = d.slice(0, 4) + len.toString('latin1') + d.slice(8); }
    if (k === 'only') d = n;
    const z = t.iso.call({ op: 'cache', data: d });
    if (z.panic !== undefined) fail('panic', z.panic);
    const is = d.length >= 8 && d.startsWith(MAGIC);
    let want = null;
    if (is) {
      const end = 8 + Buffer.from(d.slice(4, 8), 'latin1').readUInt32LE();
      if (d.length >= end) try { want = [fatal.decode(Buffer.from(d.slice(8, end), 'latin1')), d.slice(end)]; } catch {}
    }
    label(want ? 'unpacks' : 'does not');
    if (z.is !== is) fail('is', `${z.is}: ${JSON.stringify(d).slice(0, 300)}`);
    if (!c.same(z.back, want)) fail('unpack', `${JSON.stringify(z.back).slice(0, 300)}, not ${JSON.stringify(want).slice(0, 300)}`);
  });

  const str = fc.oneof(fc.string({ maxLength: 6 }), fc.string({ unit: 'binary', maxLength: 4 }));
  const piece = fc.oneof(
    fc.tuple(fc.integer(), str).map(([n, s]) => `R.push(((a, b = ${n}) => a + b + ${A(s)})(1));`),
    fc.tuple(fc.nat(30), fc.integer({ min: 1, max: 9 })).map(([n, m]) => `{ let s = ${n}; for (let i = 0; i < ${m}; i++) s = s * 31 % 1009; R.push(s); }`),
    fc.tuple(str, fc.nat(9)).map(([s, n]) => `R.push((class K { #p = ${A(s)}; static n = ${n}; get p() { return this.#p + K.n; } m() { return super.toString().length; } } , new (class { #q = ${A(s)}; get q() { return this.#q } })().q));`),
    fc.array(fc.nat(99), { maxLength: 5 }).map(a => `R.push([...(function* () { for (const x of ${A(a)}) { const y = yield x * 2; R.push(y); } })()]);`),
    str.map(s => `LATER.push(async () => { await 0; R.push(${A(s)}); await new Promise(r => setTimeout(r, 3)); return ${A(s)}.length; });`),
    str.map(s => `function declared_${'N'}() { return ${A(s)}; } R.push(typeof declared_${'N'});`),
    fc.tuple(str, fc.nat(5)).map(([s, n]) => `R.push(/${'(a|b)*' + '.'.repeat(n)}/u.test(${A(s)}), \`t\${${n}}${s.replace(/[`\\$\r\n\u2028\u2029]/g, '').toWellFormed()}\`);`),
    fc.nat(5).map(n => `try { R.push(null.x${n}); } catch (e) { R.push(e.name); } finally { R.push(${n}); }`),
    fc.constantFrom('R.push(new URL("http://a/b").href, new Headers({ a: "b" }).get("a"));', 'R.push(typeof this, typeof globalThis.env);', 'console.log("said");', 'var shared = (globalThis.n = (globalThis.n || 0) + 1); R.push(shared);',
      'R.push(eval("1 + 1"));', 'R.push(new Function("a", "return a * 2")(4));', '// a comment\n', '/* \u00e9 */', 'R.push(((x) => { "use strict"; return this === undefined })());', 'label: for (;;) { break label; }', 'R.push(JSON.stringify(env));'));
  const bad = fc.constantFrom('let let = 1;', '}', 'R.push(', 'throw new Error("top");', 'throw null;', 'undefinedThing();', 'await 1;', 'import "x";', '"\\u{110000}"', '/(/');
  const kase = fc.record({ mode: c.mode, prefix: fc.constantFrom('', '', '"use strict";\n', '#!/usr/bin/env node\n', '\ufeff', '\n\n\n', '// \u{1F600}\n'), pieces: fc.array(piece, { maxLength: 8 }), bad: c.rare(bad, null),
    style: fc.constantFrom('classic', 'module'), reqs: fc.integer({ min: 1, max: 3 }), cache: fc.constantFrom('made', 'made', 'made', 'empty', 'other', 'garbage') });
  part('same', 100, kase, x => x.pieces.length > 1, x => {
    let n = 0;
    const script = `${x.prefix}const R = [], LATER = [];\n${x.pieces.map(p => p.replaceAll('declared_N', 'declared_' + n++)).join('\n')}\n${x.bad || ''}
      const serve = async i => { const later = []; for (const f of LATER) later.push(await f()); console.log('served ' + i); return new Response(JSON.stringify([R, later])); };
      ${x.style === 'module' ? 'globalThis.default = { fetch: r => serve(r.url) };' : "addEventListener('fetch', e => e.respondWith(serve(e.request.url)));"}`;
    const one = (extra) => c.scene({ mode: x.mode, patience: 5000, env: { A: 'b' }, script, ...extra, steps: Array.from({ length: x.reqs }, (_, i) => ({ kind: 'fetch', url: 'http://w.test/' + i, at: x.mode === 'pinned' ? i * 100 : 0 })) });
    const made = t.iso.call({ op: 'made', source: script }).len;
    if (!x.bad && !(made.Ok > 0)) fail('made', `no cache is made: ${JSON.stringify(made)} of ${script}`);
    const plain = one({});
    const cached = one({ made: { cache: 'made' }, empty: { cache: 'given', bytes: '' }, other: { cache: 'given', bytes: '' }, garbage: { cache: 'given', bytes: 'garbage' } }[x.cache]);
    // The text of errors apart, all is the same.
    const tell = o => o.trace.filter(e => e.k !== 'pool').map(e => {
      const { t, ...r } = e;
      if (typeof r.result === 'string' && r.result !== 'ok') { r.result = r.result.split('(')[0]; delete r.text; }
      return JSON.stringify(r);
    });
    const a = tell(plain), b = tell(cached);
    if (a.length !== b.length || a.some((l, i) => l !== b[i])) fail('differs', `${a.find((l, i) => l !== b[i])} from its source, ${b.find((l, i) => l !== a[i])} from its cache (${x.cache}): ${c.show(plain)} ${c.show(cached)}`);
    if (!x.bad && plain.exec(0) !== 'ok') throw new Error('the program does not run: ' + script + c.show(plain));
    if (x.bad) { label('bad'); if (plain.exec(0) === 'ok') throw new Error('the program runs'); }
  });
  // What is no bundle
  part('no bundle', 8, fc.record({ mode: c.mode, data: fc.oneof(c.bin(), c.bin().map(s => MAGIC + s), fc.constantFrom('', 'addEventListener("fetch", () => 1)', MAGIC, MAGIC + '\u00ff\u00ff\u00ff\u00ff', MAGIC + '\u0001\u0000\u0000\u0000\u00ff')) }), () => true, x => {
    const o = c.scene({ mode: x.mode, patience: 5000, cache: 'raw', bytes: x.data, steps: [{ kind: 'fetch' }] });
    const want = x.data.length >= 8 && x.data.startsWith(MAGIC) && x.data.slice(4, 8) === '\u0000\u0000\u0000\u0000';
    const r = (o.one('new', 0) || o.one('exec', 0) || {}).result;
    if (!want && (r === undefined || r === 'ok' || r === 'hang')) fail('accepted', c.show(o));
  });
};
