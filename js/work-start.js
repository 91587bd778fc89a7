// C51: scripts that can't be evaluated are refused with their error, and nothing else notices.
'use strict';
module.exports = (t, c) => {
  const { fc, part, fail, label } = t;
  const A = c.A;
  const str = fc.oneof(fc.string({ maxLength: 8 }), fc.string({ unit: 'binary', maxLength: 5 }), fc.constantFrom('', 'boom', 'é\u{1F600}', 'a\u0000b', '"', '\\', 'two\nlines', '\ud800', 'x'.repeat(3000)));
  // What is thrown, and what is then told; null where nothing is said of it
  const thrown = fc.oneof(
    str.map(s => [`new Error(${A(s)})`, s ? 'Error: ' + s : 'Error']),
    fc.tuple(fc.constantFrom('TypeError', 'RangeError', 'SyntaxError', 'EvalError'), str).map(([k, s]) => [`new ${k}(${A(s)})`, s ? `${k}: ${s}` : k]),
    str.map(s => [`new (class Mine extends Error { get name() { return 'Mine'; } })(${A(s)})`, s ? 'Mine: ' + s : 'Mine']),
    str.map(s => [`Object.assign(new Error(${A(s)}), { stack: 'none' })`, s ? 'Error: ' + s : 'Error']),
    str.map(s => [A(s), s]),
    str.map(s => [`({ toString() { return ${A(s)}; } })`, s]),
    str.map(s => [`({ [Symbol.toPrimitive]: () => ${A(s)} })`, s]),
    fc.constantFrom(['null', 'null'], ['undefined', 'undefined'], ['0', '0'], ['-0', '0'], ['false', 'false'], ['12n', '12'], ['[1, [2]]', '1,2'], ['({})', '[object Object]'], ['new Error("a", { cause: new Error("b") })', 'Error: a'], ['Object.freeze(new Error("cold"))', 'Error: cold'],
      ['Symbol("s")', null], ['Object.create(null)', null], ['({ toString() { throw 1; } })', null], ['({ toString() { return {}; }, valueOf: null })', null], ['new Proxy({}, { get() { throw new Error("deep"); } })', null]));
  // Where it is thrown
  const place = fc.constantFrom('throw X;', 'function f() { throw X; } f();', '(() => { throw X; })();', 'class K { static { throw X; } }', 'class K { static [(() => { throw X; })()]() {} }', 'const { a = (() => { throw X; })() } = {};', 'for (const v of (function* () { yield 1; throw X; })());', '[1].map(() => { throw X; });',
    'try { throw 1; } catch { throw X; }', 'try { throw 1; } finally { throw X; }', 'try { throw X; } finally { globalThis.fin = 1; }', 'new Proxy({}, { get() { throw X; } }).a;', 'JSON.stringify({ toJSON() { throw X; } });', 'eval("throw X");', 'new Function("X", "throw X")(X);', 'new Headers({ get a() { throw X; } });', 'structuredClone({ get a() { throw X; } });');
  const runs = fc.oneof({ weight: 4, arbitrary: fc.tuple(place, thrown).map(([p, [js, text]]) => ({ k: 'throws', js: `const X = ${js}; ${p}`, text })) },
    // What V8 and the runtime throw: the script itself says its text
    { weight: 2, arbitrary: fc.constantFrom('null.x', 'missing()', 'new URL("not one")', 'env.MISSING.x', 'decodeURIComponent("%")', 'JSON.parse("{")', 'atob("%")', '(function f() { f(); })()', 'new ArrayBuffer(-1)', '"use strict"; undefined.y = 1', 'BigInt(1.5)', 'fetch.x.y', 'eval("let let")', 'new Array(-1)', 'Symbol() + ""', 'x; let x = 1').map(js => ({ k: 'fails', js })) });
  const SYNTAX = ['let let = 1;', '}', 'f(', 'await 1;', 'import "x";', 'export default {};', '"\\u{110000}"', '/(/', 'let a; let a;', 'return 1;', '`', 'yield: 1; break;', 'x = {,}', '#', 'new.target', '(function () { "use strict"; with (a) {} });', '1 = 2', 'class { }', 'const q;'];
  const syntax = fc.constantFrom(...SYNTAX).map(js => ({ k: 'syntax', js }));
  // What was done before
  const BEFORE = ["addEventListener('fetch', e => e.respondWith(new Response('wrong')));", "globalThis.default = { fetch: () => new Response('wrong'), task: () => ({ success: true, data: 'wrong' }) };", "addEventListener('task', e => e.respondWith({ success: true, data: 'wrong' }));",
    "setTimeout(() => console.log('later timer'), 0);", "setTimeout(() => console.log('later timer'), 7);", "setInterval(() => console.log('later interval'), 3);", 'Promise.reject(new Error("unseen"));', 'Promise.resolve().then(() => { throw 1; });', 'fetch("http://up.test/a").then(r => r.text(), () => 0);',
    'globalThis.mark = Array.mark = Object.prototype.mark = 1;', 'new ReadableStream({ pull() { throw 1; } }).getReader().read();', 'globalThis.CustomThing = globalThis.btoa = 0;', 'Error.prepareStackTrace = () => "mine";', 'Error.stackTraceLimit = 0;', 'queueMicrotask(() => globalThis.late = 1);', 'globalThis.keep = new Uint8Array(300000);'];
  const broken = fc.record({ what: fc.oneof({ weight: 3, arbitrary: runs }, { weight: 1, arbitrary: syntax }), before: fc.array(fc.constantFrom(...BEFORE), { maxLength: 3 }), says: fc.array(fc.constantFrom('one', 'two é', ''), { maxLength: 2 }), form: fc.constantFrom('', '', 'made', 'given', 'coin') });
  const step = fc.record({ who: fc.constantFrom('good', 'bad', 'bad', 'bad2', 'fixed'), owner: fc.constantFrom('a', 'a', 'b'), task: fc.boolean(), gap: fc.constantFrom(undefined, 0, 0, 20) });
  part('scripts', 170, fc.record({ mode: fc.constantFrom('worker', 'pinned', 'pinned', 'isolate'), bad: broken, bad2: broken, steps: fc.array(step, { minLength: 1, maxLength: 6 }), style: c.mode }), x => x.steps.some(s => s.who.startsWith('bad')) && x.steps.length > 1, x => {
    const pinned = x.mode === 'pinned', lent = x.mode === 'isolate';
    const good = tag => `
      console.log('good ' + [typeof mark, typeof Array.mark, typeof ({}).mark, typeof btoa, typeof keep].join());
      const serve = async () => { ${lent ? '' : "await new Promise(r => setTimeout(r, 12)); await (await fetch('http://up.test/b')).text();"} return '${tag}'; };
      ${x.style === 'worker' ? 'globalThis.default = { fetch: async () => new Response(await serve()), task: async () => ({ success: true, data: await serve() }) };'
        : "addEventListener('fetch', e => e.respondWith(serve().then(s => new Response(s)))); addEventListener('task', async e => { e.respondWith({ success: true, data: await serve() }); });"}`;
    const bad = (b, id) => {
      const n = b.what, says = b.says.map(s => `console.log(${A('say ' + s)});`).join(' ');
      if (n.k === 'syntax') return { form: b.form === 'coin' ? '' : b.form, script: `${says}\n${b.before.join('\n')}\n${n.js}` };
      const coin = b.form === 'coin';
      const js = n.k === 'throws' ? n.js : `try { ${n.js} } catch (e) { console.log(${A('text ' + id + ' ')} + e); throw e; }`;
      return { form: coin ? "" : b.form, script: `${says}\n${b.before.filter(s => !coin || !s.startsWith("addEventListener")).join('\n')}\n
        const heads = ${coin ? 'crypto.getRandomValues(new Uint8Array(1))[0] & 1' : '1'};
        console.log('coin ${id} ' + heads);
        if (heads) { ${js} }
        console.log('on ${id}');
        globalThis.default = { fetch: () => new Response('coin'), task: () => ({ success: true, data: 'coin' }) };` };
    };
    const workers = { good: { script: good('good') }, fixed: { script: good('fixed') } };
    for (const id of ['bad', 'bad2']) {
      const b = bad(x[id], id);
      workers[id] = { script: b.script, ...(b.form === 'made' && !lent ? { cache: 'made' } : b.form ? { cache: 'given', bytes: 'no cache' } : {}) };
    }
    const steps = [], at = [];
    x.steps.forEach((s, i) => {
      if (x.mode === 'worker') steps.push({ kind: 'drop', worker: 'good' });
      at.push(steps.length);
      // A worker that is repaired has another version
      const who = { worker: s.who, owner: s.owner, gap: pinned ? s.gap : 0, ...(s.who === 'fixed' ? { workerId: 'bad', version: 2 } : {}) };
      steps.push(s.task || lent ? { kind: 'task', id: 't' + i, ...who } : { kind: 'fetch', url: `http://w.test/${i}`, ...who });
    });
    steps.push({ kind: 'wait', gap: 50 });
    if (pinned) steps.push({ kind: 'pool', gap: 0 });
    const o = c.scene({ mode: x.mode, goOn: true, patience: 10_000, ops: { '*': [{ delay: 5, body: 'x' }] }, workers, steps });
    const coins = o.all('log').filter(l => l.text.startsWith('coin '));
    const d = i => `step ${i} (${x.steps[i].who}, ${x.mode}): ${c.show(o)}\n${workers[x.steps[i].who].script}`;
    for (const l of o.all('log')) {
      if (l.text.startsWith('later ') && !coins.some(q => q.text.endsWith(' 0'))) fail('later', `a timer of a script that failed runs: ${d(0)}`);
      if (l.text.startsWith('good ') && l.text !== 'good undefined,undefined,undefined,function,undefined') fail('apart', `the globals of another are seen: ${l.text}: ${d(0)}`);
    }
    let tries = 0, fails = 0;
    x.steps.forEach((s, i) => {
      const k = at[i], r = o.one('result', k), g = o.got(k), task = s.task || lent;
      const served = task ? r && r.success && r.data : g && g.body;
      const made = x.mode === 'worker' ? o.one('new', k) : null;
      if (s.who === 'good' || s.who === 'fixed') {
        if (made || o.exec(k) !== 'ok' || served !== s.who) fail('good', `a good worker is not served: ${d(i)}`);
        return;
      }
      const b = x[s.who], coin = b.form === 'coin' && b.what.k !== 'syntax';
      const e = x.mode === 'worker' ? made : o.one('exec', k);
      if (coin && (x.mode === 'worker' ? !made : e && e.result === 'ok')) {
        if (served !== 'coin') fail('coin', `the script went on, and is not served: ${d(i)}`);
        label('went on');
        return;
      }
      tries++;
      if (!coin) fails++;
      if (!e || !e.result.startsWith('Exception(')) fail('refused', `a script that fails is not refused with an exception: ${d(i)}`);
      if (x.mode !== 'worker' && !o.one(task ? 'noresult' : 'noresponse', k)) fail('answer', `a script that fails has an answer: ${d(i)}`);
      const n = b.what;
      const told = n.k === 'syntax' ? 'SyntaxError: ' : n.k === 'throws' ? n.text : (o.logs().find(l => l.startsWith(`text ${s.who} `)) || '').slice(6 + s.who.length);
      if (n.k === 'fails' && !told) fail('text', `the script did not get to where it fails: ${d(i)}`);
      if (told !== null && !e.text.includes(told.toWellFormed())) fail('text', `the reason is ${A(e.text)}, not ${A(told)}: ${d(i)}`);
      label(n.k);
      if (coin) label('coin');
    });
    // Each request of a script that failed tried it again: what it said came, of each try; nothing is kept
    for (const id of ['bad', 'bad2']) {
      const b = x[id], n = x.steps.filter(s => s.who === id).length;
      if (b.what.k === 'syntax' || !n) continue;
      const mine = coins.filter(q => q.text.startsWith(`coin ${id} `));
      if (b.form !== 'coin' && mine.length !== n) fail('tries', `${n} requests of ${id} evaluate the script ${mine.length} times: ${c.show(o)}`);
      if (b.form !== 'coin' && o.logs().includes('on ' + id)) fail('on', `a script goes on after its error: ${c.show(o)}`);
    }
    for (const said of ['say one', 'say two é', 'say ']) {
      const per = id => x[id].what.k === 'syntax' || x[id].form === 'coin' ? 0 : x[id].says.filter(s => 'say ' + s === said).length * x.steps.filter(s => s.who === id).length;
      if (['bad', 'bad2'].some(id => x[id].form === 'coin')) continue;
      const want = per('bad') + per('bad2'), is = o.logs().filter(l => l === said).length;
      if (is !== want) fail('said', `"${said}" comes ${is} times, not ${want}: ${c.show(o)}`);
    }
    const p = o.one('pool');
    if (pinned && (!p || p.in_use !== 0)) fail('pool', `isolates stay in use: ${c.show(o)}`);
  });
};
