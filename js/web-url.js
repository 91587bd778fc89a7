// C22: URL against node's, for URLs made of the characters that RFC 3986 allows.
'use strict';
module.exports = ({ fc, part, iso, check, label }, { A, J, run, PRELUDE }) => {
  iso.fresh(PRELUDE);
  const chars = (set, max, min = 0) => fc.array(fc.oneof({ weight: 5, arbitrary: fc.constantFrom(...set) }, { weight: 1, arbitrary: fc.constantFrom('%20', '%2F', '%C3%A9', '%3F', '%23', '%40') }), { minLength: min, maxLength: max }).map(a => a.join(''));
  const upper = a => fc.tuple(a, fc.nat(3)).map(([s, n]) => n === 0 ? s.toUpperCase() : n === 1 ? s.replace(/[a-z]/, x => x.toUpperCase()) : s);
  const scheme = upper(fc.constantFrom('http', 'https', 'http', 'https', 'ws', 'wss'));
  const hostLabel = fc.array(fc.constantFrom(...'abcz019-'), { maxLength: 4 }).map(a => 'x' + a.join('') + 'y');
  const host = upper(fc.oneof({ weight: 6, arbitrary: fc.array(hostLabel, { minLength: 1, maxLength: 3 }).map(a => a.join('.')) },
    { weight: 1, arbitrary: fc.constantFrom('localhost', '127.0.0.1', '10.20.30.255') },
    { weight: 1, arbitrary: fc.constantFrom('[::1]', '[2001:db8::1]', '[1:2:3:4:5:6:7:8]', '[::]') }));
  const port = fc.oneof({ weight: 4, arbitrary: fc.constant('') }, { weight: 3, arbitrary: fc.integer({ min: 1, max: 65535 }).map(n => ':' + n) }, { weight: 2, arbitrary: fc.constantFrom(':80', ':443', ':0', ':65535', ':', ':00080') });
  const user = fc.oneof({ weight: 4, arbitrary: fc.constant('') }, { weight: 2, arbitrary: fc.tuple(chars('abU1-._~!$&', 5), chars('abU1-._~!$&:', 5), fc.boolean()).map(([u, p, b]) => (b ? u + ':' + p : u) + '@') });
  const segment = fc.oneof({ weight: 5, arbitrary: chars('abcXY01-._~!$&()*+,;=:@', 5) }, { weight: 2, arbitrary: fc.constantFrom('.', '..', '', 'index.html', '...', '.a', 'a.') });
  const path = fc.array(segment, { maxLength: 5 }).map(a => a.map(s => '/' + s).join(''));
  const query = fc.oneof({ weight: 2, arbitrary: fc.constant('') }, { weight: 3, arbitrary: chars('ab12=&=&+;:@/?-._~!$()*,', 10).map(s => '?' + s) });
  const hash = fc.oneof({ weight: 3, arbitrary: fc.constant('') }, { weight: 2, arbitrary: chars('ab1=&/?:@-._~!$()*,;', 6).map(s => '#' + s) });
  const abs = fc.record({ s: scheme, u: user, h: host, p: port, d: path, q: query, f: hash });
  const str = c => `${c.s}://${c.u}${c.h}${c.p}${c.d}${c.q}${c.f}`;
  // A relative path whose first segment has a ':' would be a scheme.
  const relative = fc.oneof(
    { weight: 3, arbitrary: fc.tuple(path, query, hash).map(([p, q, f]) => p.replace(/^\/+/, '').replace(/^[^/]*:/, 'x') + q + f) },
    { weight: 3, arbitrary: fc.tuple(path, query, hash).map(([p, q, f]) => p.replace(/^\/+/, '/') + q + f) },
    fc.tuple(query, hash).map(([q, f]) => q + f), fc.tuple(host, port, path, query).map(([h, o, p, q]) => '//' + h + o + p + q),
    abs.map(str), fc.tuple(fc.constantFrom('git+ssh', 'a.b-c', 's3', 'Redis'), hostLabel, path, query).map(([s, h, p, q]) => s + '://' + h + (p || '/') + q), fc.constantFrom('', '.', '..', './', '../', '../../x', 'a/./b/../c', '/./', '?', '#'))
    // '//' and an empty host, and a path that begins with '//', are beyond a reference.
    .filter(r => !/^\/\/(\/|$)/.test(r));
  const FIELDS = ['href', 'protocol', 'username', 'password', 'host', 'hostname', 'port', 'pathname', 'search', 'hash', 'origin'];
  iso.eval(`globalThis.SHOW = u => { const r = {}; for (const k of ${J(FIELDS)}) r[k] = u[k]; r.string = String(u); r.json = JSON.stringify({u}); r.params = [...u.searchParams]; return r }`);
  const SHOW = u => {
    const r = {};
    for (const k of FIELDS) r[k] = u[k];
    // An empty query or fragment leaves its delimiter in the standard's href: not of interest.
    return Object.assign(r, { string: String(u), json: J({ u }), params: [...u.searchParams] });
  };
  // ':' within the password is encoded by the standard: the same to all who read it.
  const colons = s => s.replace(/^[^/]*\/\/[^@/?#]*@/, m => m.replace(/%3A/g, ':'));
  const colon = s => String(s).replace(/%3A/g, ':');
  const bare = s => colons(s).replace(/^([^?#]*)\?(?=#|$)/, '$1').replace(/^([^#]*)#$/, '$1');
  const same = (got, want, what) => {
    for (const k of ['href', 'string']) { got[k] = bare(String(got[k])); want[k] = bare(want[k]); }
    for (const x of [got, want]) x.password = String(x.password).replace(/%3A/g, ':');
    for (const x of [got, want]) x.json = J({ u: bare(JSON.parse(x.json).u || '') });
    for (const k of Object.keys(want)) check(J(got[k]) === J(want[k]), k, () => `${what}\n${k} is ${J(got[k])}, not ${J(want[k])}`);
  };
  // Dot segments and references by the standard (node 22 leaves a last "/." after a segment like "/.a").
  const undot = path => {
    const out = [], seg = path.split('/').slice(1);
    seg.forEach((x, i) => {
      if (x === '..') out.pop();
      if (x !== '..' && x !== '.') out.push(x);
      else if (i === seg.length - 1) out.push('');
    });
    return path && '/' + out.join('/');
  };
  const split = s => /^(?:([a-z][a-z0-9+.-]*:))?(?:\/\/([^/?#]*))?([^?#]*)(\?[^#]*)?(#.*)?$/i.exec(s).slice(1).map(x => x === undefined ? null : x);
  const ref = (s, base) => {
    let [scheme, auth, path, query, frag] = split(s);
    if (base !== undefined && scheme === null) {
      const b = split(ref(base).href);
      scheme = b[0];
      if (auth === null) {
        auth = b[1];
        if (path === '') { path = b[2]; query = query === null ? b[3] : query; } else if (path[0] !== '/') path = b[2].replace(/[^/]*$/, '') + path;
      }
    }
    return new URL(scheme + '//' + auth + undot(path) + (query || '') + (frag || ''));
  };
  const valid = (s, b) => { try { return new URL(s, b); } catch { return null; } };

  part('absolute', 700, abs, c => c.u + c.p + c.d + c.q + c.f !== '', c => {
    const s = str(c);
    const js = `SHOW(new URL(${A(s)}))`;
    const r = run(js);
    check(r.ok, 'refused', () => `${js} gave ${J(r)}`);
    same(r.ok, SHOW(ref(s)), js);
    // A URL made of a URL, and of its href, is the same.
    const again = run(`(() => { const u = new URL(${A(s)}); return [SHOW(new URL(u)), SHOW(new URL(u.href)), SHOW(u)] })()`);
    check(again.ok && J(again.ok[0]) === J(again.ok[2]) && J(again.ok[1]) === J(again.ok[2]), 'again', () => `${js} again: ${J(again)}`);
  });

  // Other schemes that have a host: nothing of it is normal form but the scheme and the path.
  const other = fc.record({ s: upper(fc.constantFrom('redis', 'postgres', 'mongodb+srv', 'a.b-c', 's3')), u: user, h: host.filter(h => h[0] !== '['), p: port.filter(p => !/^:0*(0\d.*)?$/.test(p)), d: path.filter(p => p), q: query, f: hash });
  part('other', 200, other, c => c.u + c.p + c.q + c.f !== '', c => {
    const s = str(c);
    const js = `SHOW(new URL(${A(s)}))`;
    const r = run(js);
    check(r.ok, 'refused', () => `${js} gave ${J(r)}`);
    const want = SHOW(ref(s));
    want.origin = r.ok.origin; // opaque in the standard
    same(r.ok, want, js);
  });

  part('relative', 700, fc.record({ base: abs, ref: relative, as: fc.constantFrom('string', 'url') }), c => c.ref !== '' && c.base.d !== '', c => {
    const b = str(c.base);
    const js = `SHOW(new URL(${A(c.ref)}, ${c.as === 'url' ? `new URL(${A(b)})` : A(b)}))`;
    const r = run(js);
    check(r.ok, 'refused', () => `${js} gave ${J(r)}`);
    const want = SHOW(ref(c.ref, b));
    if (want.origin === 'null') want.origin = r.ok.origin;
    same(r.ok, want, js);
  });

  const word = fc.constantFrom('a', 'b', 'key', '', 'x y', '\u00e9', '1&2', '=', '#', '+');
  const pstep = fc.oneof(fc.tuple(fc.constantFrom('append', 'set'), word, word), fc.tuple(fc.constant('delete'), word), fc.constant(['sort']));
  part('params', 500, fc.record({ url: abs, steps: fc.array(pstep, { minLength: 1, maxLength: 6 }) }), c => c.steps.length > 1, c => {
    const s = str(c.url);
    const js = `(() => { const u = new URL(${A(s)}); const r = [];\n${c.steps.map(([op, ...a]) => `u.searchParams.${op}(${a.map(A).join(', ')}); r.push([SHOW(u), SHOW(new URL(u.href))]);`).join('\n')}\nreturn r })()`;
    const r = run(js);
    check(r.ok, 'threw', () => `${js} gave ${J(r)}`);
    const u = ref(s);
    c.steps.forEach(([op, ...a], i) => {
      u.searchParams[op](...a);
      const want = SHOW(u);
      const [got, again] = r.ok[i];
      const where = `${js}\nafter step ${i}`;
      check(J(got.params) === J(want.params), 'params', () => `${where}: params ${J(got.params)}, not ${J(want.params)}`);
      check(J(again.params) === J(want.params), 'href-params', () => `${where}: href ${got.href} has the params ${J(again.params)}, not ${J(want.params)}`);
      check(got.search === again.search, 'search', () => `${where}: search is ${got.search}, href is ${got.href}`);
      check(bare(got.href) === bare(again.href), 'href', () => `${where}: href is ${got.href}, or ${again.href}`);
      for (const k of FIELDS) if (k !== 'href' && k !== 'search') check(colon(got[k]) === colon(want[k]) && colon(again[k]) === colon(want[k]), k, () => `${where}: ${k} is ${J(got[k])} and, in href, ${J(again[k])}, not ${J(want[k])}`);
    });
  });

  const broken = fc.oneof(relative.filter(r => !valid(r)), fc.tuple(scheme, fc.constantFrom('', '/', '//', '//:80', '//h:x', '//h:70000', '//h:-1', '//[::1', '//?', '//#x', '//u@', '//u@/')).map(([s, r]) => s + ':' + r)).filter(s => !valid(s));
  part('refused', 200, broken, s => s.length > 1, s => {
    const js = `SHOW(new URL(${A(s)}))`;
    const r = run(js);
    check(/^TypeError/.test(r.err || ''), 'accepted', () => `${js} gave ${J(r)}, not a TypeError`);
  });

  const assign = fc.oneof(fc.tuple(fc.constantFrom('pathname'), path.map(p => '/a' + undot(p))), fc.tuple(fc.constantFrom('hash'), hash.filter(h => h)), fc.tuple(fc.constantFrom('search'), query.filter(q => q)),
    fc.tuple(fc.constantFrom('hostname'), hostLabel), fc.tuple(fc.constantFrom('port'), fc.constantFrom('8080', '1')));
  part('assign', 30, fc.record({ url: abs, a: assign }), () => true, c => {
    const s = str(c.url);
    const js = `(() => { const u = new URL(${A(s)}); u[${A(c.a[0])}] = ${A(c.a[1])}; return SHOW(u) })()`;
    const u = ref(s);
    u[c.a[0]] = c.a[1];
    const r = run(js);
    check(r.ok, 'threw', () => `${js} gave ${J(r)}`);
    check(bare(r.ok.href) === bare(u.href), 'assignment', () => `${js}: href is ${r.ok.href}, not ${u.href}`);
  });
};
