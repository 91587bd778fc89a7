// C15 TextEncoder, C16 TextDecoder; against node's and against rules of the Encoding standard.
'use strict';
module.exports = t => {
  const { fc, part, iso, fail, check, label } = t;
  const { J: J0, PRELUDE, anyBytes, fewBytes, kind, bytes, hex } = require('./common.js')(fc);
  // Source text is ASCII only, so that nothing depends on how the driver passes it.
  const J = v => J0(v).replace(/[\u007f-\uffff]/g, c => '\\u' + c.charCodeAt(0).toString(16).padStart(4, '0'));
  iso.fresh(PRELUDE + `globalThis.U = s => { let r = ''; for (let i = 0; i < s.length; i++) r += s.charCodeAt(i).toString(16).padStart(4, '0'); return r };`);
  const U = s => { let r = ''; for (let i = 0; i < s.length; i++) r += s.charCodeAt(i).toString(16).padStart(4, '0'); return r; };
  const run = expr => { const r = iso.json(expr); if (r.pending) fail('pending', `${expr.slice(0, 300)} never settles`); return r; };

  const unit = fc.oneof(
    { weight: 4, arbitrary: fc.integer({ min: 32, max: 126 }).map(c => String.fromCharCode(c)) },
    { weight: 2, arbitrary: fc.constantFrom('\u0000', '\u007f', '\u0080', '\u07ff', '\u0800', '\ufeff', '\ufffd', '\uffff', '\ud7ff', '\ue000', '\u2028', '\u00e9', '\u20ac') },
    { weight: 2, arbitrary: fc.integer({ min: 0x10000, max: 0x10ffff }).map(c => String.fromCodePoint(c)) },
    { weight: 2, arbitrary: fc.integer({ min: 0xd800, max: 0xdfff }).map(c => String.fromCharCode(c)) },
    { weight: 2, arbitrary: fc.integer({ min: 0, max: 0xffff }).map(c => String.fromCharCode(c)) });
  const text = fc.oneof(
    { weight: 5, arbitrary: fc.array(unit, { maxLength: 24 }).map(a => a.join('')) },
    { weight: 1, arbitrary: fc.tuple(fc.array(unit, { minLength: 1, maxLength: 5 }), fc.integer({ min: 50, max: 2000 })).map(([a, n]) => a.join('').repeat(n).slice(0, 9000)) },
    { weight: 1, arbitrary: fc.array(fc.integer({ min: 32, max: 255 }).map(c => String.fromCharCode(c)), { maxLength: 40 }).map(a => a.join('')) });
  const enc = s => Buffer.from(new TextEncoder().encode(s));
  const wide = s => /[^\x00-\x7f]/.test(s);

  // UTF-8 by the book: for oracles that do not rest on node.
  const utf8 = s => {
    const out = [];
    for (let i = 0; i < s.length; i++) {
      let c = s.charCodeAt(i);
      if (c >= 0xd800 && c < 0xdc00 && i + 1 < s.length && (s.charCodeAt(i + 1) & 0xfc00) === 0xdc00) c = 0x10000 + ((c - 0xd800) << 10) + (s.charCodeAt(++i) - 0xdc00);
      else if ((c & 0xf800) === 0xd800) c = 0xfffd;
      if (c < 0x80) out.push(c);
      else if (c < 0x800) out.push(0xc0 | c >> 6, 0x80 | c & 63);
      else if (c < 0x10000) out.push(0xe0 | c >> 12, 0x80 | c >> 6 & 63, 0x80 | c & 63);
      else out.push(0xf0 | c >> 18, 0x80 | c >> 12 & 63, 0x80 | c >> 6 & 63, 0x80 | c & 63);
    }
    return Buffer.from(out);
  };

  // ---- decoding ----
  const brokenUtf8 = fc.array(fc.oneof(
    { weight: 3, arbitrary: unit.map(s => hex(utf8(s))) },
    { weight: 2, arbitrary: fc.tuple(unit, fc.nat(3)).map(([s, n]) => hex(utf8(s).subarray(0, n))) },
    { weight: 1, arbitrary: fc.constantFrom('80', 'bf', 'c0', 'c1', 'f5', 'ff', 'e080', 'e09f', 'eda080', 'f08080', 'f48fbfbf', 'f4908080', 'efbbbf', 'efbb', 'f0908080', 'e0a0', 'ed9f') },
    { weight: 1, arbitrary: fc.uint8Array({ minLength: 1, maxLength: 4 }).map(hex) }), { maxLength: 20 }).map(a => a.join(''));
  const bom = { 'utf-8': 'efbbbf', 'utf-16le': 'fffe', 'utf-16be': 'feff' };
  const utf16 = le => fc.array(fc.oneof({ weight: 5, arbitrary: unit }, { weight: 1, arbitrary: fc.constant(null) }), { maxLength: 20 }).map(a => a.map(s => {
    if (s === null) return '41';
    const b = Buffer.from(s, 'utf16le');
    return hex(le ? b : b.swap16());
  }).join(''));
  const withBom = (e, a) => fc.tuple(fc.nat(5), a).map(([n, h]) => (n === 0 ? bom[e] : n === 1 ? bom[e] + bom[e] : n === 2 ? (e === 'utf-16le' ? 'feff' : 'fffe') : '') + h);
  const data = fc.oneof(
    { weight: 6, arbitrary: withBom('utf-8', fc.oneof(brokenUtf8, text.map(s => hex(utf8(s))), anyBytes)).map(d => ({ e: 'utf-8', d })) },
    { weight: 2, arbitrary: withBom('utf-16le', utf16(true)).map(d => ({ e: 'utf-16le', d })) },
    { weight: 1, arbitrary: withBom('utf-16be', utf16(false)).map(d => ({ e: 'utf-16be', d })) });
  const anyKind = fc.oneof({ weight: 5, arbitrary: kind }, { weight: 1, arbitrary: fc.constantFrom('dataview', 'i8', 'u8c') });

  // The decoders of the standard, on code units; `null` for an error in fatal mode.
  function refDecode(e, b, fatal, ignoreBOM) {
    let s = '';
    const bad = () => { if (fatal) throw new Error('fatal'); s += '\ufffd'; };
    if (e === 'utf-8') {
      let cp = 0, need = 0, lo = 0x80, hi = 0xbf;
      for (let i = 0; i < b.length; i++) {
        const x = b[i];
        if (!need) {
          if (x < 0x80) s += String.fromCharCode(x);
          else if (x >= 0xc2 && x <= 0xdf) { need = 1; cp = x & 31; }
          else if (x >= 0xe0 && x <= 0xef) { if (x === 0xe0) lo = 0xa0; if (x === 0xed) hi = 0x9f; need = 2; cp = x & 15; }
          else if (x >= 0xf0 && x <= 0xf4) { if (x === 0xf0) lo = 0x90; if (x === 0xf4) hi = 0x8f; need = 3; cp = x & 7; }
          else bad();
        } else if (x < lo || x > hi) { need = 0; lo = 0x80; hi = 0xbf; i--; bad(); }
        else { lo = 0x80; hi = 0xbf; cp = cp << 6 | x & 63; if (!--need) s += String.fromCodePoint(cp); }
      }
      if (need) bad();
    } else {
      const units = [];
      for (let i = 0; i + 1 < b.length; i += 2) units.push(e === 'utf-16le' ? b[i] | b[i + 1] << 8 : b[i] << 8 | b[i + 1]);
      let lead = 0;
      for (const u of units) {
        if (lead) {
          if ((u & 0xfc00) === 0xdc00) { s += String.fromCharCode(lead, u); lead = 0; continue; }
          lead = 0;
          bad();
        }
        if ((u & 0xfc00) === 0xd800) lead = u;
        else if ((u & 0xfc00) === 0xdc00) bad();
        else s += String.fromCharCode(u);
      }
      if (lead || b.length % 2) bad();
    }
    if (!ignoreBOM && s[0] === '\ufeff') s = s.slice(1);
    return s;
  }

  const props = {
    C15() {
      part('encode', 6000, fc.record({ s: text }), c => wide(c.s), c => {
        const r = run(`(() => { const e = new TextEncoder(), v = e.encode(${J(c.s)}); return [X(v), v instanceof Uint8Array, v.byteOffset, v.buffer.byteLength === v.length, e.encoding] })()`);
        check(r.ok, 'encode-threw', () => `encode(${J(c.s)}): ${r.err}`);
        check(r.ok[0] === hex(utf8(c.s)), 'encode', () => `encode(${J(c.s)}) is ${r.ok[0]}, not ${hex(utf8(c.s))}`);
        check(r.ok[1] && r.ok[2] === 0 && r.ok[3] && r.ok[4] === 'utf-8', 'encode-result', () => `the result of encode(${J(c.s)}) is not a plain Uint8Array: ${J(r.ok)}`);
      });
      // Strings however they came to be: joined, sliced, built from parts.
      part('ropes', 1500, fc.record({ parts: fc.array(text, { minLength: 1, maxLength: 6 }), a: fc.nat(30), n: fc.nat(60), how: fc.constantFrom('join', 'slice', 'template', 'flat', 'upper') }), c => wide(c.parts.join('')), c => {
        const all = c.parts.join('');
        const src = { join: `P.join('')`, slice: `(P.reduce((a, b) => a + b, '')).slice(${c.a}, ${c.a + c.n})`, template: '`${P[0]}|${P.slice(1).join("")}`', flat: `Array.from({length: ${all.length}}, (_, i) => String.fromCharCode(P.join('').charCodeAt(i))).join('')`, upper: `P.join('').toUpperCase()` }[c.how];
        const want = { join: all, slice: all.slice(c.a, c.a + c.n), template: c.parts[0] + '|' + c.parts.slice(1).join(''), flat: all, upper: all.toUpperCase() }[c.how];
        const r = run(`(() => { const P = ${J(c.parts)}; return X(new TextEncoder().encode(${src})) })()`);
        check(r.ok === hex(utf8(want)), 'encode', () => `encode of ${J(want)} (made by ${c.how}) is ${r.ok || r.err}, not ${hex(utf8(want))}`);
      });
      part('values', 200, fc.constantFrom('', 'undefined', 'null', '5', '-0', '1e21', 'true', '[1, [2, "\\u00e9"]]', '{}', '({ toString() { return "\\u20ac" } })', '10n', 'Symbol("x")', '({ toString() { throw new RangeError("mine") } })'), () => true, v => {
        const r = run(`X(new TextEncoder().encode(${v}))`);
        let want;
        try { want = { ok: hex(new TextEncoder().encode(eval(`(${v || 'undefined'})`))) }; } catch (e) { want = { err: e instanceof RangeError ? 'RangeError' : 'TypeError' }; }
        check('ok' in want ? r.ok === want.ok : 'err' in r && r.err.startsWith(want.err), 'encode-value', () => `encode(${v}) gives ${J(r)}, not ${J(want)}`);
      });
      part('into', 6000, fc.record({ s: text, room: fc.oneof({ weight: 3, arbitrary: fc.nat(12) }, { weight: 2, arbitrary: fc.nat(60) }, { weight: 1, arbitrary: fc.integer({ min: 0, max: 9000 }) }), before: fc.nat(5), after: fc.nat(5) }), c => wide(c.s) && utf8(c.s).length > c.room, c => {
        const ref = new Uint8Array(c.room).fill(0xa5);
        let read = 0, written = 0;
        for (const ch of c.s) { const b = utf8(ch); if (written + b.length > c.room) break; ref.set(b, written); written += b.length; read += ch.length; }
        const r = run(`(() => { const big = new Uint8Array(${c.before + c.room + c.after}).fill(0xa5); const v = new Uint8Array(big.buffer, ${c.before}, ${c.room}); const r = new TextEncoder().encodeInto(${J(c.s)}, v); return [r.read, r.written, X(big)] })()`);
        check(r.ok, 'into-threw', () => `encodeInto(${J(c.s)}, ${c.room} bytes): ${r.err}`);
        const want = [read, written, 'a5'.repeat(c.before) + hex(ref) + 'a5'.repeat(c.after)];
        check(r.ok[0] === read && r.ok[1] === written, 'into-counts', () => `encodeInto(${J(c.s)}, ${c.room} bytes) says ${r.ok.slice(0, 2)}, not ${want.slice(0, 2)}`);
        check(r.ok[2] === want[2], 'into-bytes', () => `encodeInto(${J(c.s)}, ${c.room} bytes) wrote ${r.ok[2]}, not ${want[2]}`);
      });
      // Encoding a text piece by piece with encodeInto gives what encode gives.
      part('pieces', 800, fc.record({ s: text.filter(s => s.length < 400), room: fc.integer({ min: 4, max: 9 }) }), c => wide(c.s) && c.s.length > 4, c => {
        const r = run(`(() => { const e = new TextEncoder(), v = new Uint8Array(${c.room}); let s = ${J(c.s)}, out = '', n = 0; while (s && n++ < 5000) { const r = e.encodeInto(s, v); if (!r.read) return 'stuck at ' + U(s); out += X(v.subarray(0, r.written)); s = s.slice(r.read) } return out })()`);
        check(r.ok === hex(utf8(c.s)), 'into-pieces', () => `encoding ${J(c.s)} by pieces of ${c.room} bytes gives ${r.ok || r.err}, not ${hex(utf8(c.s))}`);
      });
      // Results are independent of each other.
      part('fresh', 300, fc.record({ a: text, b: text }), c => c.a !== c.b, c => {
        const r = run(`(() => { const e = new TextEncoder(), x = e.encode(${J(c.a)}), y = e.encode(${J(c.b)}); const ry = X(y); x.fill(1); const z = e.encode(${J(c.a)}); return [X(z), X(y), ry] })()`);
        check(r.ok && r.ok[0] === hex(utf8(c.a)) && r.ok[1] === hex(utf8(c.b)), 'encode-shared', () => `results share memory: ${J(r)}`);
      });
    },

    C16() {
      const opts = { fatal: fc.boolean(), ignoreBOM: fc.boolean() };
      const ref = (e, h, o) => { try { return { ok: refDecode(e, bytes(h), o.fatal, o.ignoreBOM) }; } catch { return { err: 'TypeError' }; } };
      const same = (r, w) => 'ok' in w ? r.ok === U(w.ok) : 'err' in r && r.err.startsWith('TypeError');
      part('decode', 9000, fc.record({ d: data, kind: anyKind, ...opts }), c => c.d.d.length > 2, c => {
        const w = ref(c.d.e, c.d.d, c);
        const r = run(`U(new TextDecoder(${J(c.d.e)}, { fatal: ${c.fatal}, ignoreBOM: ${c.ignoreBOM} }).decode(VIEW(${J(c.kind)}, ${J(c.d.d)})))`);
        label(`${c.d.e} ${'ok' in w ? 'ok' : 'error'}`);
        check(same(r, w), 'ok' in w ? ('err' in r ? 'decode-refused' : 'decode') : 'decode-accepted', () => `${J(c.d.e)} decode of ${c.d.d} (fatal ${c.fatal}, ignoreBOM ${c.ignoreBOM}) gives ${J(r)}, not ${'ok' in w ? U(w.ok) : 'TypeError'}`);
      });
      // The decoder is reusable: earlier calls have no effect on later ones.
      part('again', 800, fc.record({ e: fc.constantFrom('utf-8', 'utf-16le'), ds: fc.array(data, { minLength: 2, maxLength: 6 }), ...opts }), c => c.ds.length > 2, c => {
        const r = run(`(() => { const d = new TextDecoder(${J(c.e)}, { fatal: ${c.fatal}, ignoreBOM: ${c.ignoreBOM} }); return ${J(c.ds.map(d => d.d))}.map(h => { try { return { ok: U(d.decode(H(h))) } } catch (e) { return { err: String(e) } } }) })()`);
        check(r.ok, 'decode-refused', () => r.err);
        c.ds.forEach((d, i) => { const w = ref(c.e, d.d, c); check(same(r.ok[i], w), 'decode-again', () => `call ${i} of one ${c.e} decoder, on ${d.d}, gives ${J(r.ok[i])}, not ${J(w)}`); });
      });
      // Chunks: all the text, nothing cut, and nothing held back that is complete.
      part('stream', 6000, fc.record({ d: data, cuts: fc.array(fc.nat(60), { minLength: 1, maxLength: 12 }), ignoreBOM: fc.boolean(), fatal: fc.boolean(), flush: fc.boolean(), rounds: fc.integer({ min: 1, max: 2 }), kind: anyKind }), c => c.d.d.length > 4, c => {
        const b = bytes(c.d.d), cs = [];
        let at = 0;
        for (const n of c.cuts) { const k = Math.min(b.length, at + n % 7); cs.push(hex(b.subarray(at, k))); at = k; }
        const last = hex(b.subarray(at));
        if (c.flush) cs.push(last);
        const w = ref(c.d.e, c.d.d, c);
        const r = run(`(() => { const d = new TextDecoder(${J(c.d.e)}, { ignoreBOM: ${c.ignoreBOM}, fatal: ${c.fatal} }), out = []; for (let i = 0; i < ${c.rounds}; i++) { let outs = []; try { for (const h of ${J(cs)}) outs.push(U(d.decode(VIEW(${J(c.kind)}, h), { stream: true }))); outs.push(U(${c.flush ? 'd.decode()' : `d.decode(VIEW(${J(c.kind)}, ${J(last)}))`})); out.push({ outs }) } catch (e) { out.push({ err: String(e), outs }); break } } return out })()`);
        check(r.ok, 'decode-refused', () => r.err);
        r.ok.forEach((o, i) => {
          const all = o.outs.join('');
          if ('ok' in w) check(!o.err && all === U(w.ok), 'stream', () => `round ${i}: ${c.d.e} chunks ${J(cs)}, ${last} (ignoreBOM ${c.ignoreBOM}) give ${J(o)}, not ${U(w.ok)}`);
          else check(o.err && o.err.startsWith('TypeError'), 'stream-accepted', () => `${c.d.e} chunks ${J(cs)}, ${last} are not refused: ${J(o)}`);
          // What is complete comes at once: at most one character is held back.
          if (c.fatal || o.err) return;
          let n = 0, got = '';
          cs.forEach((h, k) => {
            n += h.length / 2;
            got += o.outs[k];
            const held = c.d.e === 'utf-8' ? 3 : 3;
            const safe = U(refDecode(c.d.e, b.subarray(0, Math.max(0, (c.d.e === 'utf-8' ? n - held : (n - held) & ~1))), false, c.ignoreBOM)).replace(/(fffd)+$/, '');
            check(got.length >= safe.length && U(w.ok).startsWith(got), 'stream-late', () => `after ${n} bytes of ${c.d.d} only ${got} has come, ${safe} is complete`);
          });
        });
      });
      // Every encoding: pieces give what the whole gives.
      const LEGACY = ['gbk', 'gb18030', 'big5', 'euc-jp', 'shift_jis', 'euc-kr', 'iso-2022-jp', 'windows-1252', 'koi8-r', 'iso-8859-8-i', 'macintosh', 'x-user-defined', 'ibm866'];
      const multi = fc.array(fc.oneof({ weight: 3, arbitrary: fc.integer({ min: 0x81, max: 0xfe }) }, { weight: 2, arbitrary: fc.integer({ min: 0x30, max: 0x7e }) }, { weight: 1, arbitrary: fc.constantFrom(0x80, 0xff, 0x8e, 0x8f, 0xa0) }), { maxLength: 24 }).map(a => hex(a));
      const jis = fc.array(fc.oneof(fc.constantFrom('1b2442', '1b2842', '1b284a', '1b2849', '1b2440', '1b24', '1b28', '1b'), fc.tuple(fc.integer({ min: 0x21, max: 0x7e }), fc.integer({ min: 0x21, max: 0x7e })).map(hex)), { maxLength: 12 }).map(a => a.join(''));
      part('legacy', 2500, fc.record({ e: fc.constantFrom(...LEGACY), d: multi, j: jis, cuts: fc.array(fc.nat(7), { minLength: 1, maxLength: 8 }), fatal: fc.boolean() }), c => c.d.length > 4, c => {
        const h = c.e === 'iso-2022-jp' ? c.j : c.d, b = bytes(h), cs = [];
        let at = 0;
        for (const n of c.cuts) { const k = Math.min(b.length, at + n); cs.push(hex(b.subarray(at, k))); at = k; }
        cs.push(hex(b.subarray(at)));
        const r = run(`(() => { const D = () => new TextDecoder(${J(c.e)}, { fatal: ${c.fatal} }); const T = f => { try { return U(f()) } catch (e) { return String(e.name) } };
          const d = D(); return [T(() => D().decode(H(${J(h)}))), T(() => ${J(cs)}.map(h => d.decode(H(h), { stream: true })).join('') + d.decode())] })()`);
        check(r.ok, 'decode-refused', () => r.err);
        check(r.ok[0] === r.ok[1], 'stream-legacy', () => `${c.e} (fatal ${c.fatal}): ${h} is ${r.ok[0]}, but the chunks ${J(cs)} give ${r.ok[1]}`);
        // ASCII in between decodes to itself in all of these.
        if (c.e !== 'iso-2022-jp' && c.e !== 'shift_jis' && !c.fatal && !/[89a-f]./.test(h.replace(/../g, '$& ').trim())) check(r.ok[0] === U(Buffer.from(h, 'hex').toString('latin1')), 'decode-ascii', () => `${c.e} ${h} is ${r.ok[0]}`);
      });
      // The same with big chunks that end within a character.
      part('big', 400, fc.record({ e: fc.constantFrom('utf-8', 'utf-8', 'utf-16le', 'utf-16be', 'gbk', 'gb18030', 'shift_jis', 'big5'), unit: fc.constantFrom('61', '6162', 'c3a9', 'e282ac', 'f09f9880', '8140'), at: fc.oneof(fc.constantFrom(1024, 2048, 4096, 8192, 16384, 65536), fc.integer({ min: 100, max: 20000 })), by: fc.integer({ min: -6, max: 6 }), tail: fc.array(fc.constantFrom('c3a9', 'e282ac', 'f09f9880', '61', '81408140', '3dd800de', 'ff'), { minLength: 1, maxLength: 4 }).map(a => a.join('')), cut: fc.nat(8), fatal: fc.boolean() }), () => true, c => {
        const n = Math.max(1, Math.floor((c.at + c.by) * 2 / c.unit.length));
        const r = run(`(() => { const D = () => new TextDecoder(${J(c.e)}, { fatal: ${c.fatal} }); const T = f => { try { return f() } catch (e) { return String(e.name) } };
          const h = ${J(c.unit)}.repeat(${n}) + ${J(c.tail)}, k = ${n * c.unit.length} + ${2 * Math.min(c.cut, c.tail.length / 2)}; const d = D();
          const a = T(() => D().decode(H(h))), b = T(() => d.decode(H(h.slice(0, k)), { stream: true }) + d.decode(H(h.slice(k)), { stream: true }) + d.decode());
          return [a === b, a.length, b.length, U(a.slice(-8)), U(b.slice(-8))]; })()`);
        check(r.ok, 'decode-refused', () => r.err);
        check(r.ok[0], 'stream-big', () => `${c.e} (fatal ${c.fatal}): ${n} times ${c.unit} and ${c.tail} give ${r.ok[1]} characters that end with ${r.ok[3]}, but cut after ${c.cut} bytes of the tail ${r.ok[2]}, with ${r.ok[4]}`);
      });
      // Single-byte encodings and characters that everybody knows.
      const KNOWN = { 'windows-1252': ['80', '20ac', 'e9', '00e9', '9f', '0178', '81', '0081'], latin1: ['80', '20ac', 'fc', '00fc'], 'iso-8859-2': ['b1', '0105', 'f8', '0159'], 'iso-8859-15': ['a4', '20ac'], 'windows-1251': ['cf', '041f', 'ff', '044f'], 'koi8-r': ['f0', '041f', 'd1', '044f'], 'iso-8859-7': ['e1', '03b1'], 'windows-1250': ['9c', '015b'], macintosh: ['8e', '00e9'], ibm866: ['8f', '041f'],
        gbk: ['c4e3', '4f60', 'bac3', '597d'], gb18030: ['c4e3', '4f60', '81308130', '0080'], big5: ['a741', '4f60', 'a66e', '597d'], 'euc-jp': ['c6fc', '65e5', 'cbdc', '672c', '8eb1', 'ff71'], shift_jis: ['93fa', '65e5', '967b', '672c', 'b1', 'ff71'], 'euc-kr': ['b0a1', 'ac00', 'c7d1', 'd55c'], 'iso-2022-jp': ['1b2442467c4b5c1b2842', '65e5672c'], 'x-user-defined': ['80', 'f780'], 'windows-1254': ['fd', '0131'], 'windows-874': ['a1', '0e01'] };
      const known = fc.constantFrom(...Object.keys(KNOWN)).chain(e => fc.record({ e: fc.constant(e), is: fc.array(fc.nat(9), { minLength: 1, maxLength: 8 }), ascii: fc.array(fc.integer({ min: 0x20, max: 0x5b }).map(x => hex([x])), { maxLength: 8 }), upper: fc.boolean() }));
      part('known', 800, known, c => c.is.length > 1, c => {
        const tab = KNOWN[c.e];
        let h = '', u = '';
        c.is.forEach((i, k) => { const j = i % (tab.length / 2) * 2; h += tab[j]; u += tab[j + 1]; if (c.e === 'iso-2022-jp' && !c.ascii[k]) { h += '41'; u += '0041'; } if (c.ascii[k]) { h += c.ascii[k]; u += '00' + c.ascii[k]; } });
        const r = run(`U(new TextDecoder(${J(c.upper ? ` ${c.e.toUpperCase()}\n` : c.e)}, { fatal: true }).decode(H(${J(h)})))`);
        check(r.ok === u, 'decode-known', () => `${c.e} decode of ${h} is ${J(r)}, not ${u}`);
      });
      // Labels, as the standard has them.
      const LABELS = { 'utf-8': ['utf8', 'UTF-8', 'unicode-1-1-utf-8', 'x-unicode20utf8', 'unicode11utf8'], 'utf-16le': ['utf-16', 'ucs-2', 'UNICODE', 'csunicode', 'iso-10646-ucs-2', 'unicodefeff', 'utf-16LE'], 'utf-16be': ['unicodefffe', 'UTF-16BE'], 'windows-1252': ['ascii', 'latin1', 'iso-8859-1', 'us-ascii', 'cp1252', 'l1', 'ISO8859-1', 'x-cp1252', 'ansi_x3.4-1968'], 'shift_jis': ['sjis', 'ms_kanji', 'x-sjis', 'windows-31j', 'ms932'], 'euc-kr': ['korean', 'ks_c_5601-1987', 'windows-949', 'cseuckr'], gbk: ['gb2312', 'chinese', 'gb_2312-80', 'x-gbk', 'iso-ir-58'], gb18030: ['gb18030'], big5: ['big5-hkscs', 'cn-big5', 'x-x-big5'], 'iso-8859-2': ['latin2', 'l2', 'csisolatin2'], 'koi8-r': ['koi', 'koi8', 'cskoi8r'], 'koi8-u': ['koi8-ru'], macintosh: ['mac', 'x-mac-roman', 'csmacintosh'], 'windows-1251': ['cp1251', 'x-cp1251'], 'euc-jp': ['x-euc-jp', 'cseucpkdfmtjapanese'], 'iso-8859-8-i': ['logical', 'csiso88598i'], 'iso-8859-8': ['visual', 'hebrew'], 'windows-874': ['tis-620', 'dos-874', 'iso-8859-11'], 'x-mac-cyrillic': ['x-mac-ukrainian'], 'ibm866': ['866', 'cp866', 'csibm866'] };
      const pairs = Object.entries(LABELS).flatMap(([n, ls]) => [n, ...ls].map(l => [n, l]));
      part('labels', 800, fc.oneof({ weight: 4, arbitrary: fc.record({ p: fc.constantFrom(...pairs), pad: fc.constantFrom('', ' ', '\t', '\n ', '\r\f'), upper: fc.boolean(), ...opts }) },
        { weight: 1, arbitrary: fc.record({ bad: fc.constantFrom('', 'utf', 'utf-7', 'utf8x', 'utf-32', 'x', 'replacement', 'hz-gb-2312', 'utf-8\u0000', '\u00a0utf-8', 'null', 'binary', 'iso-2022-kr'), ...opts }) }), () => true, c => {
        const l = 'bad' in c ? c.bad : c.pad + (c.upper ? c.p[1].toUpperCase() : c.p[1]) + c.pad;
        const r = run(`(() => { const d = new TextDecoder(${J(l)}, { fatal: ${c.fatal}, ignoreBOM: ${c.ignoreBOM} }); return [d.encoding, d.fatal, d.ignoreBOM] })()`);
        if ('bad' in c) check('err' in r && r.err.startsWith('RangeError'), 'label-accepted', () => `TextDecoder(${J(l)}) gives ${J(r)}`);
        else check(J(r.ok) === J([c.p[0], c.fatal, c.ignoreBOM]), 'label', () => `TextDecoder(${J(l)}) gives ${J(r)}, not ${c.p[0]}`);
      });
      part('values', 60, fc.constantFrom('5', '"abc"', '{}', '[1]', 'true', '(() => 1)', '10n'), () => true, v => {
        for (const o of ['', ', { stream: true }']) {
          const r = run(`new TextDecoder().decode(${v}${o})`);
          check('err' in r && r.err.startsWith('TypeError'), 'decode-value', () => `decode(${v}${o}) gives ${J(r)}`);
        }
      });
      part('roundtrip', 2000, fc.record({ s: text, n: fc.integer({ min: 1, max: 9 }) }), c => wide(c.s), c => {
        const r = run(`(() => { const b = new TextEncoder().encode(${J(c.s)}), d = new TextDecoder('utf-8', { fatal: true, ignoreBOM: true }), e = new TextDecoder('utf-8', { ignoreBOM: true }); let s = ''; for (let i = 0; i < b.length; i += ${c.n}) s += e.decode(b.subarray(i, i + ${c.n}), { stream: true }); return [U(d.decode(b)), U(s + e.decode())] })()`);
        const want = U(c.s.toWellFormed());
        check(r.ok && r.ok[0] === want && r.ok[1] === want, 'roundtrip', () => `${J(c.s)} comes back as ${J(r)}, not ${want}`);
      });
    },
  };
  props[t.prop]();
};
