// C25: Blob and File against a model: bytes and a type.
'use strict';
module.exports = ({ fc, part, iso, check, label }, { A, J, run, PRELUDE, hex, blob }) => {
  iso.fresh(PRELUDE + `globalThis.READ = async s => { const r = s.getReader(); let out = ''; for (;;) { const { done, value } = await r.read(); if (done) return out; out += X(value) } };`);
  const text = fc.oneof({ weight: 3, arbitrary: fc.constantFrom('', 'abc', '\u00e9\u20ac', '\ud83d\ude00', '\r\n', 'x'.repeat(70), '\ufeff', '\ufeffabc', '\ufeff\ufeffx') }, { weight: 1, arbitrary: fc.array(fc.constantFrom('a', '\ud800', '\udc00', '\u00ff', '\u0000'), { maxLength: 5 }).map(a => a.join('')) });
  const size = fc.oneof({ weight: 5, arbitrary: fc.nat(12) }, { weight: 1, arbitrary: fc.constantFrom(64, 100, 1000, 5000) });
  const data = blob(size);
  // Parts: text, buffers and views (b: whether the caller writes to them afterwards), earlier blobs.
  const bit = fc.oneof({ weight: 3, arbitrary: fc.record({ k: fc.constant('text'), s: text }) },
    { weight: 4, arbitrary: fc.record({ k: fc.constantFrom('whole', 'buffer', 'sub', 'dataview', 'i8'), d: data }) },
    { weight: 1, arbitrary: fc.record({ k: fc.constant('u16'), d: data.map(d => d.slice(0, d.length & ~3)) }) },
    { weight: 3, arbitrary: fc.record({ k: fc.constant('blob'), i: fc.nat(20) }) },
    { weight: 1, arbitrary: fc.record({ k: fc.constant('value'), s: fc.constantFrom('12', 'null', 'undefined', 'true', '({})') }) });
  const type = fc.constantFrom('', 'text/plain', 'application/octet-stream', 'a/b;c=d');
  const at = fc.oneof({ weight: 2, arbitrary: fc.constant(undefined) }, { weight: 5, arbitrary: fc.integer({ min: -20, max: 30 }) }, { weight: 1, arbitrary: fc.constantFrom(0, 1000, -1000, 4999) });
  const step = fc.oneof(
    { weight: 4, arbitrary: fc.record({ op: fc.constantFrom('blob', 'blob', 'file'), p: fc.array(bit, { maxLength: 4 }), type, m: fc.constantFrom(undefined, 0, 123456789) }) },
    { weight: 4, arbitrary: fc.record({ op: fc.constant('slice'), i: fc.nat(20), a: at, b: at, type: fc.option(type, { nil: undefined }) }) },
    { weight: 1, arbitrary: fc.record({ op: fc.constant('write') }) }, { weight: 1, arbitrary: fc.record({ op: fc.constantFrom('writeOut', 'writeStream'), i: fc.nat(20) }) });
  const utf8 = s => Buffer.from(s.replace(/[\ud800-\udbff](?![\udc00-\udfff])|(?<![\ud800-\udbff])[\udc00-\udfff]/g, '\ufffd'));
  const bytes = h => Buffer.from(h, 'hex');

  part('history', 700, fc.array(step, { minLength: 1, maxLength: 8 }), c => c.length > 1, c => {
    let js = '(async () => { const all = [], used = [];\nconst KEEP = v => { used.push(v); return v };\n';
    const m = [];
    for (const s of c) {
      label(s.op);
      if (s.op === 'blob' || s.op === 'file') {
        const bits = s.p.filter(p => p.k !== 'blob' || m.length);
        const src = bits.map(p => p.k === 'text' ? A(p.s) : p.k === 'value' ? p.s : p.k === 'blob' ? `all[${p.i % m.length}]` : `KEEP(VIEW('${p.k}', '${p.d}'))`).join(', ');
        const b = Buffer.concat(bits.map(p => p.k === 'text' ? utf8(p.s) : p.k === 'value' ? Buffer.from(String(eval(p.s))) : p.k === 'blob' ? m[p.i % m.length].b : bytes(p.d)));
        if (s.op === 'file') {
          js += `all.push(new File([${src}], 'n\u002e', {type: ${A(s.type)}${s.m === undefined ? '' : `, lastModified: ${s.m}`}}));\n`;
          m.push({ b, type: s.type, name: 'n.', m: s.m });
        } else {
          js += `all.push(new Blob([${src}], {type: ${A(s.type)}}));\n`;
          m.push({ b, type: s.type });
        }
      } else if (s.op === 'write') js += 'for (const u of used) (u instanceof ArrayBuffer ? new Uint8Array(u) : new Uint8Array(u.buffer)).fill(0x77);\n';
      else if (m.length === 0) continue;
      else if (s.op === 'writeOut') js += `new Uint8Array(await all[${s.i % m.length}].arrayBuffer()).fill(0x78);\n`;
      else if (s.op === 'writeStream') js += `{ const r = all[${s.i % m.length}].stream().getReader(); const { value } = await r.read(); if (value) value.fill(0x79) }\n`;
      else {
        const o = m[s.i % m.length];
        js += `all.push(all[${s.i % m.length}].slice(${[s.a, s.b, s.type === undefined ? undefined : A(s.type)].map(String).join(', ')}));\n`;
        const clamp = (v, d) => v === undefined ? d : v < 0 ? Math.max(0, o.b.length + v) : Math.min(v, o.b.length);
        const a = clamp(s.a, 0), b = clamp(s.b, o.b.length);
        m.push({ b: o.b.subarray(a, Math.max(a, b)), type: s.type || '' });
      }
    }
    js += `const out = []; for (const b of all) out.push({size: b.size, type: b.type, text: await b.text(), buffer: X(await b.arrayBuffer()), kind: Object.prototype.toString.call(await b.arrayBuffer()), stream: await READ(b.stream()), blob: b instanceof Blob, file: b instanceof File, name: b.name, m: b.lastModified }); return out })()`;
    const r = run(js);
    check(r.ok, 'threw', () => `${js}\ngave ${J(r)}`);
    r.ok.forEach((g, i) => {
      const w = m[i], h = hex(w.b), say = what => () => `${js}\nblob ${i}: ${what}: ${J(g)}, not ${h} of type ${w.type}`;
      check(g.size === w.b.length, 'size', say('size'));
      check(g.buffer === h && g.kind === '[object ArrayBuffer]', 'buffer', say('arrayBuffer()'));
      check(g.stream === h, 'stream', say('stream()'));
      check(g.text === new TextDecoder().decode(w.b), 'text', say('text()'));
      check(g.type === w.type, 'type', say('type'));
      check(g.blob && g.file === (w.name !== undefined) && g.name === w.name, 'kind', say('kind'));
      if (w.name !== undefined) check(w.m === undefined ? g.m > 1e12 : g.m === w.m, 'modified', say('lastModified'));
    });
  });
};
