// C26: FormData against a model, and forms decoded from bodies.
'use strict';
module.exports = ({ fc, part, iso, check, label }, { A, J, run, PRELUDE, hex, blob }) => {
  iso.fresh(PRELUDE + `
globalThis.VAL = async v => v instanceof File ? {file: v.name, type: v.type, data: X(await v.arrayBuffer())} : v instanceof Blob ? 'a bare blob' : typeof v === 'string' ? {s: v} : 'a ' + typeof v;
globalThis.SHOW = async (f, names) => { const me = {}, each = []; f.forEach(function (v, k, x) { each.push([k, v, x === f && this === me]) }, me);
  const pairs = async l => { const r = []; for (const [k, v] of l) r.push([k, await VAL(v)]); return r };
  const vals = async l => { const r = []; for (const v of l) r.push(await VAL(v)); return r };
  const g = []; for (const n of names) { const v = f.get(n); g.push([v === null ? null : await VAL(v), await vals(f.getAll(n)), f.has(n)]) }
  return { e: await pairs(f), e2: await pairs(f.entries()), k: [...f.keys()], v: await vals(f.values()), each: await pairs(each), eachThis: each.every(x => x[2]), g } };`);
  const word = fc.constantFrom('a', 'b', 'name', '', 'x y', '\u00e9', '1', 'null', 'undefined', 'true', '__proto__', 'length');
  // A name as it is written: what is no string counts as one.
  const N = s => s.raw && ['1', 'null', 'undefined', 'true'].includes(s.n) ? s.n : A(s.n);
  const data = blob(fc.nat(12));
  const value = fc.oneof(
    { weight: 4, arbitrary: fc.record({ k: fc.constant('text'), s: fc.oneof(word, fc.constantFrom('line\r\nline', '\ud83d\ude00', 'a=b&c')) }) },
    { weight: 1, arbitrary: fc.record({ k: fc.constant('js'), s: fc.constantFrom('1', 'null', 'undefined', 'true', '[1,2]') }) },
    { weight: 2, arbitrary: fc.record({ k: fc.constant('blob'), d: data, type: fc.constantFrom('', 'text/plain') }) },
    { weight: 2, arbitrary: fc.record({ k: fc.constant('file'), d: data, type: fc.constantFrom('', 'image/png'), n: fc.constantFrom('f.txt', '', '\u00e9') }) });
  const step = fc.oneof(
    { weight: 5, arbitrary: fc.record({ op: fc.constantFrom('append', 'set'), n: word, raw: fc.boolean(), v: value, f: fc.option(fc.constantFrom('other.txt', '', 'null'), { nil: undefined, freq: 3 }) }) },
    { weight: 2, arbitrary: fc.record({ op: fc.constant('delete'), n: word, raw: fc.boolean() }) }, { weight: 1, arbitrary: fc.record({ op: fc.constant('touch') }) });
  const src = v => v.k === 'text' ? A(v.s) : v.k === 'js' ? v.s : v.k === 'blob' ? `new Blob([H('${v.d}')], {type: '${v.type}'})` : `new File([H('${v.d}')], ${A(v.n)}, {type: '${v.type}'})`;
  const model = (v, f) => v.k === 'text' ? { s: v.s } : v.k === 'js' ? { s: String(eval(v.s)) } : { file: f !== undefined ? f : v.k === 'file' ? v.n : 'blob', type: v.type, data: v.d };

  part('history', 500, fc.array(step, { minLength: 1, maxLength: 10 }), c => c.length > 2, c => {
    let js = '(async () => { const f = new FormData();\n', m = [];
    for (const s of c) {
      label(s.op);
      if (s.op === 'touch') js += 'for (const e of f) e[1] = "touched"; f.getAll("a").push("touched");\n';
      else if (s.op === 'delete') { js += `f.delete(${N(s)});\n`; m = m.filter(e => e[0] !== s.n); } else {
        const isFile = s.v.k === 'blob' || s.v.k === 'file';
        js += `f.${s.op}(${N(s)}, ${src(s.v)}${s.f !== undefined && isFile ? ', ' + A(s.f) : ''});\n`;
        const e = [s.n, model(s.v, s.f)];
        const i = s.op === 'set' ? m.findIndex(x => x[0] === s.n) : -1;
        if (i < 0) m.push(e);
        else { m[i] = e; m = m.filter((x, j) => j <= i || x[0] !== s.n); }
      }
    }
    const names = ['a', 'b', '', ...c.map(s => s.n).filter(n => n !== undefined)];
    js += `return SHOW(f, ${A(names)}) })()`;
    const r = run(js);
    check(r.ok, 'threw', () => `${js}\ngave ${J(r)}`);
    const say = (what, got, want) => () => `${js}\n${what}: ${J(got)}, not ${J(want)}`;
    check(J(r.ok.e) === J(m), 'entries', say('entries', r.ok.e, m));
    for (const k of ['e2', 'each']) check(J(r.ok[k]) === J(m), k, say(k, r.ok[k], m));
    check(J(r.ok.k) === J(m.map(e => e[0])) && J(r.ok.v) === J(m.map(e => e[1])) && r.ok.eachThis, 'iterators', say('iterators', r.ok, m));
    names.forEach((n, i) => {
      const l = m.filter(e => e[0] === n).map(e => e[1]);
      const want = [l.length ? l[0] : null, l, l.length > 0];
      check(J(r.ok.g[i]) === J(want), 'get', say(`get, getAll and has of ${J(n)}`, r.ok.g[i], want));
    });
  });

  // A body in multipart/form-data, written here, decoded there. Contents may look like the boundary.
  const piece = b => fc.constantFrom('', 'text', '\r\n', '--', '\r\n--', '--' + b, '--' + b + '--', b, '\r\n--' + b.slice(0, -1), 'x\r\n\r\ny', '\r', '\n--' + b, '\u00e9', '\r\n--' + b.slice(0, -1) + '_', 'Content-Type: a/b');
  const boundary = fc.constantFrom('----WebKitFormBoundaryAbC123', 'b', '0123456789', 'a-b_c', "x'y(z)+_,-./:=?");
  const token = fc.constantFrom('a', 'b', 'name', 'filename', 'file name', '\u00e9', 'x;y', 'a=b', 'name=x', "it's", '');
  const multipart = boundary.chain(b => fc.record({ b: fc.constant(b), quoted: fc.boolean(), cut: fc.array(fc.nat(50), { maxLength: 3 }), on: fc.constantFrom('Request', 'Response'), pre: fc.constantFrom('', '', 'preamble\r\n', '\r\n'), post: fc.constantFrom('\r\n', '', '\r\nepilogue'),
    parts: fc.array(fc.record({ n: token, f: fc.option(token.filter(t => t), { nil: undefined }), first: fc.boolean(), type: fc.option(fc.constantFrom('text/plain', 'image/png', 'application/json;charset=x'), { nil: undefined }), extra: fc.boolean(),
      bin: fc.option(blob(fc.nat(10)), { nil: undefined, freq: 3 }), body: fc.array(piece(b), { maxLength: 4 }).map(a => a.join('')) }), { maxLength: 4 }) }));
  part('multipart', 900, multipart, c => c.parts.length > 0 && c.parts.some(p => p.bin || p.body), c => {
    const out = [], want = [];
    const say = s => out.push(Buffer.from(s));
    say(c.pre);
    for (const p of c.parts) {
      let data = p.bin !== undefined && p.f !== undefined ? Buffer.from(p.bin, 'hex') : Buffer.from(p.body);
      // Whatever contains the delimiter cannot be sent with this boundary.
      const d = Buffer.from('\r\n--' + c.b);
      if (Buffer.concat([Buffer.from('\r\n'), data, Buffer.from('\r\n')]).includes(d)) { label('boundary in data'); data = Buffer.from('safe'); }
      const file = p.f !== undefined ? `filename="${p.f}"` : '';
      const name = `name="${p.n}"`;
      say(`--${c.b}\r\n${p.extra ? 'X-Extra: 1\r\n' : ''}Content-Disposition: form-data; ${p.f === undefined ? name : p.first ? file + '; ' + name : name + '; ' + file}\r\n${p.f !== undefined && p.type ? `Content-Type: ${p.type}\r\n` : ''}\r\n`);
      out.push(data);
      say('\r\n');
      want.push([p.n, p.f !== undefined ? { file: p.f, type: p.type || null, data: hex(data) } : { s: data.toString() }]);
    }
    say(`--${c.b}--${c.post}`);
    const body = Buffer.concat(out);
    // The body comes in pieces.
    const cuts = [...new Set(c.cut.map(x => x % (body.length + 1)))].sort((a, b) => a - b);
    const chunks = [];
    [...cuts, body.length].reduce((a, b) => { chunks.push(hex(body.subarray(a, b))); return b; }, 0);
    const ct = `multipart/form-data; boundary=${c.quoted || /[^\w-]/.test(c.b) ? `"${c.b}"` : c.b}`;
    const src = `(() => { const l = ${J(chunks)}; return new ReadableStream({ pull(c) { if (l.length) c.enqueue(H(l.shift())); else c.close() } }) })()`;
    const js = `(async () => { const r = ${c.on === 'Request' ? `new Request('http://x/', {method: 'POST', body: ${src}, headers: {'Content-Type': ${A(ct)}}})` : `new Response(${src}, {headers: {'Content-Type': ${A(ct)}}})`};
      return (await SHOW(await r.formData(), [])).e })()`;
    const r = run(js);
    check(r.ok, 'threw', () => `${js}\ngave ${J(r)}`);
    // The type of a file without one is up to the decoder.
    r.ok.forEach((e, i) => { if (want[i] && want[i][1].type === null && e[1] && e[1].type !== undefined) e[1].type = null; });
    check(J(r.ok) === J(want), 'multipart', () => `${J(body.toString('latin1'))} as ${ct}\ngave ${J(r.ok)}, not ${J(want)}`);
  });

  const pair = fc.tuple(fc.constantFrom('a', 'b c', '\u00e9', '=', '&', '+', '%', ''), fc.constantFrom('', '1', 'x y', '\ud83d\ude00', 'a=b', 'c&d', '+', '%41', 'line\r\n'));
  part('urlencoded', 200, fc.record({ p: fc.array(pair, { maxLength: 5 }), on: fc.constantFrom('Request', 'Response'), ct: fc.constantFrom('application/x-www-form-urlencoded', 'application/x-www-form-urlencoded;charset=UTF-8') }), c => c.p.length > 0, c => {
    const body = new URLSearchParams(c.p).toString();
    const js = `(async () => { const r = ${c.on === 'Request' ? `new Request('http://x/', {method: 'POST', body: ${A(body)}, headers: {'content-type': '${c.ct}'}})` : `new Response(${A(body)}, {headers: {'content-type': '${c.ct}'}})`}; return (await SHOW(await r.formData(), [])).e })()`;
    const r = run(js);
    const want = c.p.map(([k, v]) => [k, { s: v }]);
    check(J(r.ok) === J(want), 'urlencoded', () => `${js}\ngave ${J(r)}, not ${J(want)}`);
  });
};
