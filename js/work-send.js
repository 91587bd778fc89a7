// C45: what fetch and the fetch of bindings send.
'use strict';
module.exports = (t, c) => {
  const { fc, part, fail, label } = t;
  const A = c.A;
  const text = fc.oneof(fc.string({ maxLength: 12 }), fc.string({ unit: 'binary', maxLength: 6 }).map(s => s.toWellFormed()), fc.constantFrom('', 'a=b&c', 'é\u{1F600}', 'x\r\ny', '--'));
  const name = fc.oneof(fc.string({ maxLength: 6 }), fc.constantFrom('a', 'a"b', 'x\r\ny', 'x\ny', 'é', '"; filename="f', '%22', 'a;b', '\\'));
  const type = fc.constantFrom('', 'text/plain', 'application/x-own', 'image/png');
  const bin = c.bin();
  const hname = fc.constantFrom('x-a', 'X-A', 'x-b', 'Content-Type', 'content-type', 'Accept', 'X-Num');
  const hval = fc.oneof(fc.constantFrom('1', 'two words', 'text/own; q=1', 'a,b', ''), fc.integer({ min: 0, max: 99 }));
  const headers = fc.option(fc.record({ list: fc.array(fc.tuple(hname, hval), { maxLength: 4 }), form: fc.constantFrom('object', 'pairs', 'Headers', 'Map') }), { nil: undefined });
  const body = fc.oneof(
    fc.constant(undefined),
    fc.record({ k: fc.constant('text'), s: text }),
    fc.record({ k: fc.constantFrom('buffer', 'view', 'dataview', 'u16', 'blob', 'file'), b: bin.map(s => s.length & 1 ? s.slice(1) : s), type }),
    fc.record({ k: fc.constant('params'), list: fc.array(fc.tuple(text, text), { maxLength: 4 }) }),
    fc.record({ k: fc.constant('form'), list: fc.array(fc.oneof(fc.record({ n: name, s: text }), fc.record({ n: name, b: bin, f: name, type })), { maxLength: 4 }) }),
    fc.record({ k: fc.constant('stream'), chunks: fc.array(fc.record({ b: bin, d: fc.nat(3), view: fc.boolean() }), { maxLength: 5 }), fails: fc.nat(5).map(n => n === 0) }),
    fc.record({ k: fc.constant('odd'), v: fc.constantFrom('7', 'true', '0', 'false', '({ toString() { return "own" } })', '[1, 2]') }));
  const init = fc.record({ method: fc.option(fc.constantFrom('GET', 'post', 'PUT', 'Delete', 'PATCH', 'head', 'OPTIONS'), { nil: undefined }), headers, body });
  const send = fc.record({
    via: fc.constantFrom('fetch', 'fetch', 'AS', 'WO'),
    input: fc.constantFrom('string', 'URL', 'request', 'request', 'clone'), request: init, options: init, bare: fc.boolean(),
    before: fc.constantFrom('', '', '', 'read', 'lock'), mutate: fc.boolean(),
  });
  const kase = fc.record({ mode: c.mode, sends: fc.array(send, { minLength: 1, maxLength: 6 }) });

  const H = h => {
    const e = h.list.map(([k, v]) => `[${A(k)}, ${A(v)}]`).join(', ');
    return { object: `OBJ([${e}])`, pairs: `[${e}]`, Headers: `new Headers([${e}])`, Map: `new Map([${e}])` }[h.form];
  };
  const hlist = h => h.form === 'object' || h.form === 'Map' ? [...new Map(h.list)] : h.list;
  const B = b => {
    switch (b.k) {
      case 'text': return A(b.s);
      case 'buffer': return `MUT(${c.bytesJs(b.b)}).buffer`;
      case 'view': return `VIEW(${A(b.b)}, Uint8Array)`;
      case 'dataview': return `VIEW(${A(b.b)}, DataView)`;
      case 'u16': return `VIEW(${A(b.b)}, Uint16Array)`;
      case 'blob': return `new Blob([${c.bytesJs(b.b)}], {type: ${A(b.type)}})`;
      case 'file': return `new File([${c.bytesJs(b.b)}], 'n', {type: ${A(b.type)}})`;
      case 'params': return `new URLSearchParams([${b.list.map(p => A(p)).join(', ')}])`;
      case 'form': return `FORM([${b.list.map(p => A(p)).join(', ')}])`;
      case 'stream': return `STREAM(${A(b.chunks)}, ${b.fails})`;
      default: return b.v;
    }
  };
  const I = i => `{${[i.method && `method: ${A(i.method)}`, i.headers && `headers: ${H(i.headers)}`, i.body && `body: ${B(i.body)}`].filter(Boolean).join(', ')}}`;
  const ODD = { '7': '7', true: 'true', 0: '0', false: 'false', '({ toString() { return "own" } })': 'own', '[1, 2]': '1,2' };
  /** The bytes that must be sent, null if the body fails, and the type that goes with the kind of body. */
  const bytes = b => {
    if (!b) return '';
    if (b.k === 'text') return c.utf8(b.s);
    if (b.k === 'params') return c.utf8(new URLSearchParams(b.list).toString());
    if (b.k === 'stream') return b.fails ? null : b.chunks.map(x => x.b).join('');
    if (b.k === 'odd') return ODD[b.v];
    return b.b;
  };
  const nl = s => s.replace(/\r\n|\r|\n/g, '\r\n');
  /** A form as it was sent, decoded from RFC 7578. */
  const decode = (body, boundary) => {
    const out = [];
    if (body !== `--${boundary}--\r\n` && body !== `--${boundary}--` && !body.startsWith(`--${boundary}\r\n`)) return 'no boundary at the start';
    const parts = ('\r\n' + body).split(`\r\n--${boundary}`);
    if (parts.shift() !== '') return 'a preamble';
    if (!['--', '--\r\n'].includes(parts.pop())) return 'no end';
    for (const p of parts) {
      const k = p.indexOf('\r\n\r\n');
      if (k < 0 || !p.startsWith('\r\n')) return 'a part without a head';
      const head = {};
      for (const l of p.slice(2, k).split('\r\n')) { const j = l.indexOf(':'); if (j < 0) return 'a bad head line ' + l; head[l.slice(0, j).toLowerCase()] = l.slice(j + 1).trim(); }
      const m = /^form-data; name="([^"]*)"(?:; filename="([^"]*)")?$/.exec(head['content-disposition'] || '');
      if (!m) return 'a bad disposition: ' + head['content-disposition'];
      out.push({ n: m[1], f: m[2], type: head['content-type'], data: p.slice(k + 4) });
    }
    return out;
  };
  const esc = s => c.utf8(nl(s).replace(/\r\n/g, '%0D%0A').replace(/"/g, '%22'));

  part('sent', 130, kase, x => x.sends.length > 1 && x.sends.some(s => s.options.body || s.request.body), x => {
    const js = `
      const OBJ = list => Object.fromEntries(list);
      const muts = [];
      const MUT = a => (muts.push(a), a);
      const VIEW = (s, T) => { const a = new Uint8Array(s.length + 32).fill(9); for (let i = 0; i < s.length; i++) a[8 + i] = s.charCodeAt(i); MUT(a); return new T(a.buffer, 8, s.length / (T.BYTES_PER_ELEMENT || 1)) };
      const BYTES = s => Uint8Array.from(s, c => c.charCodeAt(0));
      const FORM = list => { const f = new FormData(); for (const p of list) p.s !== undefined ? f.append(p.n, p.s) : f.append(p.n, new Blob([BYTES(p.b)], {type: p.type}), p.f); return f };
      const STREAM = (chunks, fails) => { let i = 0; return new ReadableStream({ async pull(ctl) {
        if (i === chunks.length) return fails ? ctl.error(new Error('source')) : ctl.close();
        const k = chunks[i++];
        if (k.d) await new Promise(r => setTimeout(r, k.d));
        if (k.view) { const a = new Uint8Array(k.b.length + 3).fill(8); a.set(BYTES(k.b), 2); ctl.enqueue(a.subarray(2, 2 + k.b.length)); } else ctl.enqueue(BYTES(k.b));
      } }) };
      const VIA = { fetch: (...a) => fetch(...a), AS: (...a) => env.AS.fetch(...a), WO: (...a) => env.WO.fetch(...a) };
      const SENDS = [${x.sends.map((s, i) => `async () => {
        const url = 'http://up.test/s${i}?q=1';
        let input = ${{ string: 'url', URL: 'new URL(url)' }[s.input] || `new Request(url, ${I(s.request)})`};
        ${s.input === 'clone' ? 'const other = input; input = input.clone();' : ''}
        ${s.before === 'read' && s.input !== 'string' && s.input !== 'URL' ? 'if (input.body) await input.text().catch(() => 0);' : ''}
        ${s.before === 'lock' && s.input !== 'string' && s.input !== 'URL' ? 'if (input.body) input.body.getReader();' : ''}
        const options = ${s.bare ? 'undefined' : I(s.options)};
        const was = JSON.stringify(options && options.headers && [...(options.headers.entries ? options.headers.entries() : Object.entries(options.headers))]);
        let p;
        try { p = VIA.${s.via}(input${s.bare ? '' : ', options'}); } catch (e) { console.log('sync ${i} ' + e); return; }
        ${s.mutate ? 'for (const a of muts) a.fill(255);' : ''}
        muts.length = 0;
        let r = null, err = null;
        try { r = await p; } catch (e) { err = e instanceof Error ? e.message : 'not an Error'; }
        const now = JSON.stringify(options && options.headers && [...(options.headers.entries ? options.headers.entries() : Object.entries(options.headers))]);
        console.log('sent ${i} ' + JSON.stringify({ status: r && r.status, err, used: !!input.bodyUsed, same: was === now, text: r && await r.text() }));
      }`).join(',\n')}];
      addEventListener('fetch', e => e.respondWith((async () => {
        await Promise.all(SENDS.map(f => f().catch(e => console.log('failed ' + e.stack))));
        return new Response('done');
      })()));`;
    const ops = {};
    for (const op of ['fetch', 'assets AS', 'worker WO']) x.sends.forEach((s, i) => { ops[`${op} http://up.test/s${i}?q=1`] = [{ body: 'answer ' + i }]; });
    const o = c.scene({ mode: x.mode, script: js, ops, bindings: [['AS', 'assets'], ['WO', 'worker']], steps: [{ kind: 'fetch' }] });
    const g = o.got(0);
    if (!g || g.body !== 'done' || o.exec(0) !== 'ok') fail('lost', c.show(o));
    const logs = o.logs().filter(l => !/buffering entire/.test(l));
    x.sends.forEach((s, i) => {
      const isReq = s.input === 'request' || s.input === 'clone';
      const opt = s.bare ? {} : s.options, req = isReq ? s.request : {};
      const own = opt.body !== undefined;
      const b = own ? opt.body : req.body;
      const seen = o.all('op').filter(e => e.url === `http://up.test/s${i}?q=1`);
      const line = logs.find(l => l.startsWith(`sent ${i} `));
      const desc = `send ${i} (${s.via} of a ${s.input})`;
      if (!line) fail('unsettled', `${desc} does not settle: ${JSON.stringify(logs)}`);
      const r = JSON.parse(line.slice(line.indexOf('{')));
      if (!r.same) fail('changed', `${desc} changes the headers of its caller`);
      const spoiled = isReq && !own && req.body && (s.before === 'read' || s.before === 'lock');
      // Sending a body of a request that was used, or a body that fails, is refused.
      if (spoiled || bytes(b) === null && b.k === 'stream') {
        if (r.err === null || seen.length) fail('spoiled', `${desc} sends ${JSON.stringify(seen)} although its body ${spoiled ? 'was used' : 'fails'}`);
        label('refused');
        return;
      }
      if (r.err !== null || r.text !== 'answer ' + i) fail('answer', `${desc} gives ${line}`);
      if (seen.length !== 1) fail('count', `${desc} is seen ${seen.length} times`);
      const e = seen[0];
      if (e.op !== { fetch: 'fetch', AS: 'assets', WO: 'worker' }[s.via]) fail('where', `${desc} goes to ${e.op}`);
      const method = (opt.method || req.method || 'GET').toUpperCase();
      if (e.method !== method) fail('method', `${desc} is a ${e.method}, not a ${method}`);
      const h = new Headers((opt.headers !== undefined ? hlist(opt.headers) : req.headers ? hlist(req.headers) : []).map(([k, v]) => [k, String(v)]));
      const want = Object.fromEntries(h);
      const got = Object.fromEntries(e.headers.map(([k, v]) => [k.toLowerCase(), v]));
      const implied = b && (b.k === 'params' ? 'application/x-www-form-urlencoded;charset=UTF-8' : (b.k === 'blob' || b.k === 'file') && b.type || (b.k === 'form' && 'form'));
      const type = got['content-type'];
      if (!('content-type' in want)) {
        delete got['content-type'];
        if (implied && own && implied !== 'form' && type !== implied) fail('type', `${desc} has the content type ${type}, not ${implied}`);
        if (type !== undefined && !implied && !(b && (b.k === 'text' || b.k === 'odd') && /^text\/plain/.test(type))) fail('type', `${desc} has a content type (${type}) that nobody gave`);
      }
      const names = Object.keys({ ...want, ...got });
      for (const n of names) if (want[n] !== got[n]) fail('headers', `${desc} has the header ${n}: ${JSON.stringify(got[n])}, not ${JSON.stringify(want[n])}`);
      if (b && b.k === 'form') {
        // As the body of a Request, a form is outside the domain.
        if (!own || 'content-type' in want) return;
        const m = /^multipart\/form-data; boundary=([^\s;"]+)$/.exec(type || '');
        if (!m) fail('form type', `${desc} has the content type ${type}`);
        const f = decode(e.body, m[1]);
        if (typeof f === 'string') fail('form', `${desc} sends a form with ${f}: ${JSON.stringify(e.body)}`);
        if (f.length !== b.list.length) fail('form', `${desc} sends ${f.length} parts, not ${b.list.length}: ${JSON.stringify(e.body)}`);
        f.forEach((p, j) => {
          const w = b.list[j];
          if (p.n !== esc(w.n)) fail('form name', `${desc} sends a part named ${JSON.stringify(p.n)}, not ${JSON.stringify(esc(w.n))}`);
          if (w.s !== undefined) {
            if (p.f !== undefined || (p.data !== c.utf8(w.s) && p.data !== c.utf8(nl(w.s)))) fail('form text', `${desc} sends ${JSON.stringify(p)} for ${JSON.stringify(w)}`);
          } else if (p.f !== esc(w.f) || p.data !== w.b || p.type !== (w.type || 'application/octet-stream')) fail('form file', `${desc} sends ${JSON.stringify(p)} for ${JSON.stringify(w)}`);
        });
        label('form');
        return;
      }
      // How a form is escaped is its own affair.
      if (b && b.k === 'params') {
        const list = JSON.stringify([...new URLSearchParams(e.body === null ? '' : e.body)]);
        if (list !== JSON.stringify(b.list)) fail('params', `${desc} sends ${JSON.stringify(e.body)} for ${JSON.stringify(b.list)}`);
      } else if ((e.body === null ? '' : e.body) !== bytes(b)) fail('body', `${desc} has the body ${JSON.stringify(e.body)}, not ${JSON.stringify(bytes(b))}`);
      if (isReq && !own && b && !r.used) fail('used', `${desc} does not mark the body of its request as used`);
      label(b ? b.k : 'no body');
    });
  });
};
