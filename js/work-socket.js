// C37: WebSockets: what either side sends arrives, once and in order, and each ends with one close event.
'use strict';
module.exports = (t, c) => {
  const { fc, part, fail, label } = t;
  const A = c.A;
  const delay = fc.oneof(fc.constant(0), fc.integer({ min: 0, max: 30 }));
  const text = fc.oneof(fc.string({ maxLength: 12 }), fc.string({ unit: 'binary', maxLength: 6 }).map(s => s.toWellFormed()), fc.constantFrom('', '\u0000', '\u{1F600}', 'a'.repeat(70000)));
  const bin = fc.oneof(c.bin(), fc.constantFrom('', '\u0000\u00ff', '\u0080'.repeat(66000)));
  const reason = fc.oneof(fc.constant(''), fc.string({ maxLength: 20 }), fc.constantFrom('\u00e9'.repeat(61), 'x'.repeat(123)));
  const code = fc.oneof(fc.constant(1000), fc.integer({ min: 3000, max: 4999 }));
  const incoming = fc.tuple(delay, fc.oneof(
    { weight: 4, arbitrary: fc.record({ text }) }, { weight: 4, arbitrary: fc.record({ binary: bin }) }, { weight: 1, arbitrary: fc.record({ error: fc.string({ maxLength: 8 }) }) },
    { weight: 1, arbitrary: fc.record({ closed: fc.tuple(fc.oneof(code, fc.constantFrom(1001, 1006, 1011)), reason) }) }));
  const VIEWS = ['Uint8Array', 'sub', 'buffer', 'DataView', 'Uint16Array', 'Blob'];
  const send = fc.oneof(
    fc.record({ k: fc.constant('text'), v: text }),
    fc.record({ k: fc.constant('binary'), v: bin, as: fc.constantFrom(...VIEWS) }),
    fc.record({ k: fc.constant('value'), v: fc.constantFrom(['12.5', '12.5'], ['null', 'null'], ['undefined', 'undefined'], ['[1, 2]', '1,2'], ['{ toString() { return "t\\u00e9" } }', 't\u00e9'], ['new String("boxed")', 'boxed'], ['"\\ud800x"', '\ufffdx']) }),
    fc.record({ k: fc.constant('bad'), v: fc.constantFrom('Symbol()', '{ toString() { throw new RangeError("no") } }', 'Object.create(null)') }));
  const act = fc.tuple(delay, fc.oneof({ weight: 6, arbitrary: send },
    { weight: 1, arbitrary: fc.record({ k: fc.constant('close'), code: fc.oneof(fc.constant(null), code), reason: fc.oneof(fc.constant(null), reason), as: fc.constantFrom('', 'text', 'close half') }) },
    { weight: 1, arbitrary: fc.record({ k: fc.constant('close bad'), v: fc.constantFrom('999', '1001', '0', 'null', '-1', '70000', '"x"', 'NaN', '{}', '1000, "x".repeat(124)', '3000, "\\u00e9".repeat(62)', 'undefined, "x".repeat(200)', 'Infinity') }) },
    { weight: 1, arbitrary: fc.record({ k: fc.constantFrom('accept', 'unlisten', 'throwing') }) }));
  const socket = fc.record({
    at: delay, how: fc.constantFrom('new', 'new', 'fetch'), url: fc.constantFrom('ws://h.test/', 'wss://h.test/p?q=1', 'ws://h.test:81/x', 'http://h.test/', 'https://h.test/a'),
    protocols: fc.constantFrom([null, null], ["'chat'", 'chat'], ["['a', 'b']", 'a, b'], ['[]', '']),
    connect: delay, error: c.rare(fc.constantFrom('refused', '', 'n\u00e9'), null), incoming: fc.array(incoming, { maxLength: 6 }), echo: fc.boolean(), onclose: fc.option(delay), end: fc.boolean(),
    acts: fc.array(act, { maxLength: 8 }), accept: fc.oneof(fc.constant(null), fc.constant(0), delay),
  });
  const kase = fc.record({ mode: c.mode, sockets: fc.oneof({ weight: 4, arbitrary: fc.array(socket, { minLength: 1, maxLength: 3 }) }, { weight: 1, arbitrary: fc.array(socket, { minLength: 4, maxLength: 8 }) }) });
  part('messages', 130, kase, x => x.sockets.some(s => s.error === null && (s.incoming.length || s.acts.length > 1)), x => {
    const value = a => {
      if (a.k === 'text') return A(a.v);
      if (a.k !== 'binary') return a.k === 'bad' ? a.v : a.v[0];
      const b = c.bytesJs(a.v);
      switch (a.as) {
        case 'sub': return `(() => { const u = new Uint8Array(${a.v.length + 5}); u.fill(7); u.set(${b}, 3); return u.subarray(3, ${3 + a.v.length}); })()`;
        case 'buffer': return `${b}.buffer`;
        case 'DataView': return `new DataView(${b}.buffer)`;
        case 'Uint16Array': return a.v.length % 2 ? b : `new Uint16Array(${b}.buffer)`;
        case 'Blob': return a.v.length % 3 ? `new Blob(['xy', ${b}.subarray(0, ${a.v.length >> 1}), new Blob([${b}.subarray(${a.v.length >> 1})])]).slice(2)` : `new Blob([${b}])`;
        default: return b;
      }
    };
    const total = 200 + Math.max(...x.sockets.map(s => s.at + s.connect + (s.onclose || 0) + (s.accept || 0) + s.incoming.reduce((n, i) => n + i[0], 0) + s.acts.reduce((n, a) => n + a[0], 0)));
    const ops = {};
    x.sockets.forEach((s, i) => {
      // What the outside is asked for tells the sockets apart.
      s.real = s.url + (s.url.includes('?') ? '&' : '?') + 's' + i;
      s.target = s.how === 'fetch' ? s.real : s.real.replace(/^http/, 'ws');
      ops['ws ' + s.target] = [{ delay: s.connect, ...(s.error === null ? {} : { error: s.error }), incoming: s.incoming, echo: s.echo, end: s.end, ...(s.onclose === null ? {} : { onclose: s.onclose }) }];
    });
    const o = c.scene({ mode: x.mode, patience: 20000, ops, steps: [{ kind: 'fetch' }], script: `
      const sleep = ms => new Promise(r => setTimeout(r, ms));
      const log = (...a) => console.log(JSON.stringify(a));
      const data = d => typeof d === 'string' ? { text: d } : d instanceof ArrayBuffer ? { binary: String.fromCharCode.apply(null, []) + Array.from(new Uint8Array(d), b => String.fromCharCode(b)).join('') } : { odd: String(d) };
      const SOCKETS = [${x.sockets.map((s, i) => `async () => {
        await sleep(${s.at});
        let w;
        ${s.how === 'new' ? `w = new WebSocket(${[A(s.real), ...(s.protocols[0] ? [s.protocols[0]] : [])].join(', ')});` : `
        try {
          const r = await fetch(${A(s.real)}, { headers: { ${s.protocols[0] ? '"Sec-WebSocket-Protocol": String(' + s.protocols[0] + '), ' : ''}UPGRADE: 'WebSocket' } });
          w = r.webSocket;
          log(${i}, 'status', r.status, w.readyState);
        } catch (e) { log(${i}, 'failed', e && e.message || String(e)); return; }`}
        const show = e => ({ ...(e.type === 'message' ? data(e.data) : e.type === 'close' ? { closed: [e.code, e.reason], clean: e.wasClean } : e.type === 'error' ? { error: e.message } : {}) });
        const ear = e => log(${i}, 'ear', e.type, show(e), w.readyState);
        const bad = () => { throw Object.create(null); };
        for (const n of ['open', 'message', 'close', 'error']) {
          w['on' + n] = function (e) { log(${i}, 'on', e.type, show(e), this === w ? w.readyState : -1); };
          w.addEventListener(n, ear);
        }
        ${s.how === 'new' || s.accept === null ? '' : s.accept ? `sleep(${s.accept}).then(() => { log(${i}, 'accept'); w.accept(); });` : `log(${i}, 'accept'); w.accept();`}
        ${s.acts.map(([d, a], j) => `${d ? `await sleep(${d});` : ''}
        ${a.k === 'accept' ? (s.how === 'new' ? '' : `log(${i}, 'accept'); w.accept();`)
          : a.k === 'unlisten' ? `log(${i}, 'unlisten'); for (const n of ['open', 'message', 'close', 'error']) w.removeEventListener(n, ear);`
          : a.k === 'throwing' ? "for (const n of ['open', 'message', 'close', 'error']) { w.removeEventListener(n, ear); w.addEventListener(n, bad); w.addEventListener(n, ear); }"
          : `try { log(${i}, 'do', ${j}, w.readyState); w.${a.k === 'close' ? `close(${[...(a.code === null && a.reason === null ? [] : [a.code === null ? 'undefined' : a.as === 'text' ? `'${a.code}'` : a.as ? `${a.code}.2` : a.code]), ...(a.reason === null ? [] : [A(a.reason)])].join(', ')})` : a.k === 'close bad' ? `close(${a.v})` : `send(${value(a)})`}; log(${i}, 'did', ${j}, w.readyState); } catch (e) { log(${i}, 'threw', ${j}, e && e.name, w.readyState); }`}`).join('\n')}
      }`).join(',\n')}];
      addEventListener('fetch', e => e.respondWith((async () => { for (const s of SOCKETS) s(); await sleep(${total}); log(-1, 'end', total); return new Response('done'); })()));
      const total = ${total};` });
    if (o.exec(0) !== 'ok' || (o.got(0) || {}).body !== 'done') fail('end', c.show(o));
    const logs = o.all('log').map(e => { try { return { t: e.t, a: JSON.parse(e.text) }; } catch { return null; } }).filter(Boolean);
    const finish = logs.find(l => l.a[1] === 'end').t;
    x.sockets.forEach((s, i) => {
      const d = `socket ${i} (${s.how})`;
      const mine = logs.filter(l => l.a[0] === i);
      const asked = o.all('op').filter(e => e.op === 'ws' && e.url === s.target);
      if (asked.length !== 1) fail('asked', `${d}: ${asked.length} connections for ${s.target}: ${c.show(o)}`);
      const n = asked[0].n;
      const wantHeaders = s.how === 'fetch' ? [...(s.protocols[0] ? [['sec-websocket-protocol', s.protocols[1] ]] : []), ['upgrade', 'WebSocket']] : s.protocols[0] ? [['sec-websocket-protocol', s.protocols[1]]] : [];
      const got = asked[0].headers.map(h => [h[0].toLowerCase(), h[1]]);
      if (s.protocols[0] !== '[]' && !(s.how === 'fetch' && s.protocols[0] && s.protocols[0][0] === '[') && JSON.stringify(got) !== JSON.stringify(wantHeaders)) fail('headers', `${d}: asked with ${JSON.stringify(got)}, not ${JSON.stringify(wantHeaders)}`);
      const out = o.all('wsout').filter(e => e.n === n).map(e => e.m);
      const events = mine.filter(l => l.a[1] === 'on');
      if (s.error !== null && s.how === 'fetch') {
        if (mine.length !== 1 || mine[0].a[1] !== 'failed' || (s.error && !mine[0].a[2].includes(s.error))) fail('failed', `${d}: ${JSON.stringify(mine)}`);
        return;
      }
      if (s.how === 'fetch' && (mine[0].a[2] !== 101 || mine[0].a[3] !== 1)) fail('status', `${d}: ${JSON.stringify(mine[0])}`);
      // What the script did, and what must have come of it.
      const sent = [], when = [];
      let early = false, closing = false, acceptAt = s.how === 'new' ? 0 : Infinity;
      const closedAt = mine.findIndex(l => l.a[1] === 'on' && l.a[2] === 'close');
      mine.forEach((l, p) => {
        if (l.a[1] === 'accept') acceptAt = Math.min(acceptAt, l.t);
        if (l.a[1] !== 'do') return;
        const [, , j, state] = l.a;
        const a = s.acts[j][1];
        const after = mine.slice(p + 1).find(m => (m.a[1] === 'did' || m.a[1] === 'threw') && m.a[2] === j);
        if (!after) fail('stuck', `${d}: ${a.k} did not return`);
        const now = after.a[after.a.length - 1];
        const threw = after.a[1] === 'threw' ? after.a[3] : null;
        const what = `${d}: ${JSON.stringify(a).slice(0, 80)} in state ${state}`;
        const connecting = s.how === 'new' && !mine.slice(0, p).some(m => m.a[1] === 'on' && ['open', 'close'].includes(m.a[2]));
        const expect = closedAt >= 0 && closedAt < p ? 3 : closing ? 2 : connecting ? 0 : 1;
        if (state !== expect) fail('state', `${what}: the state must be ${expect}: ${JSON.stringify(mine)}`.slice(0, 900));
        if (a.k === 'close bad') {
          if (!['InvalidAccessError', 'SyntaxError'].includes(threw) || now !== state) fail('close', `${what}: ${threw}, state ${now}`);
        } else if (a.k === 'close') {
          if (threw) fail('close', `${what} threw ${threw}`);
          if (now !== (state === 3 ? 3 : 2)) fail('close', `${what}: now in state ${now}`);
          if (state === 0) early = closing = true;
          if (state === 1) { closing = true; when.push(l.t); sent.push({ close: [a.code === null ? 1000 : a.code, a.reason === null ? '' : a.reason] }); }
        } else {
          if (now !== state) fail('send', `${what}: now in state ${now}`);
          if (state === 0) { if (threw !== 'InvalidStateError') fail('send', `${what} threw ${threw}`); return; }
          if (a.k === 'bad') { if (state === 1 && !threw) fail('send', `${what} did not throw`); return; }
          if (threw) fail('send', `${what} threw ${threw}`);
          if (state === 1) when.push(l.t), sent.push(a.k === 'text' ? { text: a.v } : a.k === 'value' ? { text: a.v[1] } : { binary: a.v });
        }
      });
      const answered = o.all('answer').find(e => e.n === n);
      if (early && s.error === null && answered) sent.push(...(out.length === 1 ? out : [{ close: 'expected' }]));
      // What is sent once the other side has ended it may be lost.
      const over = o.all('wsin').find(e => e.n === n && (e.m.closed || e.m.end));
      while (over && sent.length > out.length && when[sent.length - 1] >= over.t) sent.pop();
      if (!c.same(out, sent)) fail('sent', `${d}: the other side got ${JSON.stringify(out).slice(0, 400)}, not ${JSON.stringify(sent).slice(0, 400)}`);
      // What the script must have been told of.
      const want = [];
      if (s.how === 'new') {
        const at = answered.t;
        if (early) { if (s.error !== null) want.push([at, 'error']); want.push([at, 'close', null]); }
        else if (s.error !== null) want.push([at, 'error'], [at, 'close', { closed: [1006], clean: false }]);
        else want.push([at, 'open', {}]);
      }
      if (s.error === null && !early && acceptAt < Infinity) {
        for (const e of o.all('wsin').filter(e => e.n === n)) {
          const at = Math.max(e.t, acceptAt);
          if (e.m.closed) { want.push([at, 'close', { ...e.m, clean: e.m.closed[0] !== 1006 }]); break; }
          if (e.m.end) { want.push([at, 'close', { closed: [1006, ''], clean: false }]); break; }
          if (e.m.error !== undefined) want.push([at, 'error', e.m]);
          else want.push([at, 'message', e.m]);
        }
      }
      const due = want.filter(w => w[0] < finish - 2);
      const seen = events.map(l => [l.t, l.a[2], l.a[3]]);
      const brief = v => JSON.stringify(v).slice(0, 500);
      due.forEach(([at, type, v], k) => {
        const e = seen[k];
        if (!e || e[1] !== type) fail('events', `${d}: event ${k} must be ${type} ${brief(v)}, and is ${e ? e[1] : 'missing'}; ${brief(seen)}`);
        if (e[0] < at || e[0] > at + 1.5) fail('late', `${d}: ${type} at ${e[0]}, due at ${at}`);
        if (type === 'message' && !c.same(e[2], v)) fail('message', `${d}: message ${k} is ${brief(e[2])}, not ${brief(v)}`);
        if (type === 'close' && v && (e[2].closed[0] !== v.closed[0] || (v.closed[1] !== undefined && e[2].closed[1] !== v.closed[1]) || e[2].clean !== v.clean)) fail('close', `${d}: closed with ${brief(e[2])}, not ${brief(v)}`);
      });
      if (seen.length > want.length) fail('events', `${d}: more events than there were: ${brief(seen.slice(want.length))}`);
      if (seen.filter(e => e[1] === 'close').length > 1) fail('close', `${d}: closed twice`);
      for (const l of events) {
        const closingThen = mine.slice(0, mine.indexOf(l)).some(m => m.a[1] === 'did' && s.acts[m.a[2]][1].k === 'close');
        const st = l.a[2] === 'close' ? 3 : l.a[2] === 'error' && s.error !== null ? 3 : closingThen ? 2 : 1;
        if (l.a[4] !== st) fail('state', `${d}: in the ${l.a[2]} event the state is ${l.a[4]}, not ${st}`);
      }
      // The listener is called for each event as the handler was, until it is removed.
      const un = mine.findIndex(l => l.a[1] === 'unlisten'); // "throwing" may put it back
      const back = s.acts.some(a => a[1].k === 'throwing') ? -1 : un;
      if (un < 0 || back >= 0) {
        const upTo = un < 0 ? mine : mine.slice(0, un);
        const heard = mine.filter(l => l.a[1] === 'ear').map(l => l.a.slice(2));
        if (!c.same(heard, upTo.filter(l => l.a[1] === 'on').map(l => l.a.slice(2)))) fail('listener', `${d}: the listener was called for ${brief(heard)}, and the handler for ${brief(events.map(l => l.a.slice(2)))}`);
      }
      label(s.how); if (closedAt >= 0) label('closed'); if (early) label('closed early');
    });
  });

  const BADURL = ["''", "'not a url'", "'ftp://h/'", "'ws://h/#x'", "'wss://h/p#frag'", "'h.test'", "'javascript:1'", "'http:'"];
  part('refused', 8, fc.record({ mode: c.mode, urls: fc.array(fc.constantFrom(...BADURL), { minLength: 1, maxLength: 8 }) }), () => true, x => {
    const o = c.scene({ mode: x.mode, patience: 5000, ops: {}, steps: [{ kind: 'fetch' }], script: `addEventListener('fetch', e => e.respondWith(new Response(JSON.stringify([${x.urls.map(u => `(() => { try { new WebSocket(${u}); return 'made'; } catch (e) { return e.name; } })()`)}]))));` });
    const g = o.got(0);
    if (!g || g.body !== JSON.stringify(x.urls.map(() => 'SyntaxError'))) fail('refused', `${x.urls}: ${c.show(o)}`);
    if (o.all('op').length) fail('asked', c.show(o));
  });
};
