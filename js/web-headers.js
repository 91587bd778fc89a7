// C20: Headers against a model: a list of [lower-case name, value].
'use strict';
module.exports = ({ fc, part, iso, check, label }, { A, J, run, PRELUDE }) => {
  iso.fresh(PRELUDE);
  const APART = ['set-cookie', 'www-authenticate', 'proxy-authenticate']; // never combined
  const name = fc.oneof(
    { weight: 6, arbitrary: fc.constantFrom('a', 'x-b', 'Accept', 'content-type', 'Set-Cookie', 'WWW-Authenticate', 'proxy-authenticate', 'constructor', '__proto__', 'toString', 'size', 'x') },
    { weight: 1, arbitrary: fc.array(fc.constantFrom(...'abXY019-_!#$%&\'*+.^`|~'), { minLength: 1, maxLength: 6 }).map(a => a.join('')) })
    .chain(n => fc.array(fc.boolean(), { minLength: n.length, maxLength: n.length }).map(b => b[0] ? n : [...n].map((ch, i) => b[i] ? ch.toUpperCase() : ch.toLowerCase()).join('')));
  const value = fc.oneof(
    { weight: 4, arbitrary: fc.constantFrom('', '1', 'text/html', 'a=b; Path=/', 'x, y', ',', '0', 'undefined', 'v', 'w') },
    { weight: 2, arbitrary: fc.array(fc.integer({ min: 33, max: 126 }).map(c => String.fromCharCode(c)), { maxLength: 12 }).map(a => a.join('')) },
    { weight: 1, arbitrary: fc.array(fc.integer({ min: 0xa1, max: 0xff }).map(c => String.fromCharCode(c)), { maxLength: 6 }).map(a => a.join('')) });
  const pairs = fc.array(fc.tuple(name, value), { maxLength: 6 });
  const step = fc.oneof(
    { weight: 4, arbitrary: fc.record({ op: fc.constant('append'), n: name, v: value }) },
    { weight: 3, arbitrary: fc.record({ op: fc.constant('set'), n: name, v: value }) },
    { weight: 2, arbitrary: fc.record({ op: fc.constant('delete'), n: name }) },
    { weight: 2, arbitrary: fc.record({ op: fc.constantFrom('copy', 'copyPairs', 'copyEntries', 'copyMap', 'request', 'response') }) },
    { weight: 1, arbitrary: fc.record({ op: fc.constantFrom('touchCookies', 'touchEntries') }) });
  const init = fc.oneof(pairs.map(p => ({ k: 'pairs', p })), pairs.map(p => ({ k: 'object', p })), pairs.map(p => ({ k: 'map', p })), fc.constant({ k: 'none', p: [] }));

  const LIB = `globalThis.OBJ = p => { const o = Object.create(null); for (const [k, v] of p) o[k] = v; return o };
    globalThis.INIT = (k, p) => k === 'pairs' ? p : k === 'object' ? OBJ(p) : k === 'map' ? new Map(p) : undefined;
    globalThis.SHOW = (h, names) => ({ e: [...h], e2: [...h.entries()], k: [...h.keys()], v: [...h.values()],
      f: (() => { const r = []; const me = {}; h.forEach(function (v, k, x) { r.push([k, v, x === h, this === me]) }, me); return r })(),
      g: names.map(n => [h.get(n), h.has(n)]), c: h.getSetCookie() });`;
  iso.eval(LIB);

  class Model {
    constructor(l) { this.l = l; }
    static init(k, p) {
      if (k === 'object') p = [...p.reduce((m, [n, v]) => m.set(n, v), new Map())];
      if (k === 'map') p = [...new Map(p)];
      const m = new Model([]);
      for (const [n, v] of p) m.append(n, v);
      return m;
    }
    append(n, v) {
      n = n.toLowerCase();
      const i = this.l.findIndex(e => e[0] === n);
      if (i < 0) this.l.push([n, [v]]);
      else if (APART.includes(n)) this.l[i][1].push(v);
      else this.l[i][1] = [this.l[i][1][0] + ', ' + v];
    }
    set(n, v) {
      n = n.toLowerCase();
      const i = this.l.findIndex(e => e[0] === n);
      if (i < 0) this.l.push([n, [v]]);
      else this.l[i][1] = [v];
    }
    delete(n) { this.l = this.l.filter(e => e[0] !== n.toLowerCase()); }
    get(n) { const e = this.l.find(e => e[0] === n.toLowerCase()); return e ? e[1] : null; }
    entries() { return this.l.flatMap(([n, vs]) => vs.map(v => [n, v])); }
  }
  const sorted = l => l.map((e, i) => [e, i]).sort((a, b) => a[0][0] < b[0][0] ? -1 : a[0][0] > b[0][0] ? 1 : a[1] - b[1]).map(x => x[0]);

  part('history', 900, fc.record({ init, steps: fc.array(step, { maxLength: 14 }) }), c => c.steps.length >= 2 && c.init.p.length + c.steps.length >= 3, c => {
    const names = [...new Set([...c.init.p.map(p => p[0]), ...c.steps.filter(s => s.n !== undefined).map(s => s.n), 'set-cookie', 'nothing'])];
    let js = `(() => { let h = new Headers(INIT(${A(c.init.k)}, ${A(c.init.p)})); const all = [h]; const out = [];\n`;
    const m = [Model.init(c.init.k, c.init.p)];
    const clone = x => new Model(x.l.map(([n, vs]) => [n, [...vs]]));
    const want = [];
    for (const s of c.steps) {
      const top = m[m.length - 1];
      label(s.op);
      if (s.op === 'append' || s.op === 'set') { js += `h.${s.op}(${A(s.n)}, ${A(s.v)});\n`; top[s.op](s.n, s.v); }
      else if (s.op === 'delete') { js += `h.delete(${A(s.n)});\n`; top.delete(s.n); }
      else if (s.op === 'touchCookies') js += `h.getSetCookie().push('touched');\n`;
      else if (s.op === 'touchEntries') js += `for (const e of h) e[1] = 'touched';\n`;
      else {
        const mk = { copy: 'new Headers(h)', copyPairs: 'new Headers([...h])', copyEntries: 'new Headers(h.entries())', copyMap: 'new Headers(h)',
          request: 'new Request("http://x/", {headers: h}).headers', response: 'new Response(null, {headers: h}).headers' }[s.op];
        js += `h = ${mk}; all.push(h);\n`;
        m.push(clone(top));
      }
    }
    js += `return all.map(h => SHOW(h, ${A(names)})) })()`;
    const r = run(js);
    check(r.ok, 'threw', () => `${js} gave ${J(r)}`);
    r.ok.forEach((g, i) => {
      const e = m[i].entries();
      const where = `Headers ${i} of\n${js}\n`;
      check(J(sorted(g.e)) === J(sorted(e)), 'entries', () => `${where} iterates as ${J(g.e)}, not ${J(e)}`);
      check(J(g.e) === J(g.e2) && J(g.e.map(x => x[0])) === J(g.k) && J(g.e.map(x => x[1])) === J(g.v) && J(g.f) === J(g.e.map(x => [x[0], x[1], true, true])), 'iterators',
        () => `${where} iterations differ: ${J(g)}`);
      names.forEach((n, k) => {
        const w = m[i].get(n);
        check(g.g[k][1] === (w !== null), 'has', () => `${where} has(${J(n)}) is ${g.g[k][1]}`);
        const ok = w === null ? g.g[k][0] === null : g.g[k][0] === w[0] || g.g[k][0] === w.join(', ');
        check(ok, 'get', () => `${where} get(${J(n)}) is ${J(g.g[k][0])}, not ${J(w)}`);
      });
      check(J(g.c) === J(m[i].get('set-cookie') || []), 'cookies', () => `${where} getSetCookie() is ${J(g.c)}, not ${J(m[i].get('set-cookie') || [])}`);
    });
  });
};
