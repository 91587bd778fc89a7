// C36: tasks and schedules: the handler sees the task, and its sender the result.
'use strict';
module.exports = (t, c) => {
  const { fc, part, fail, label } = t;
  const A = c.A;
  const str = fc.oneof(fc.string({ maxLength: 8 }), fc.string({ unit: 'binary', maxLength: 5 }).map(s => s.toWellFormed()), fc.constantFrom('', '__proto__', 'é\u{1F600}', 'a\u0000b', '"', '\u2028'));
  const num = fc.oneof(fc.integer(), fc.maxSafeInteger(), fc.tuple(fc.maxSafeInteger(), fc.nat(9)).map(([n, k]) => Number((n / 10 ** k).toPrecision(15)) + 0), fc.constantFrom(0, 1.5, 2 ** 53, 1e21, 1e-7));
  const json = fc.letrec(tie => ({
    v: fc.oneof({ maxDepth: 3 }, fc.constant(null), fc.boolean(), num, str, fc.array(tie('v'), { maxLength: 3 }),
      fc.array(fc.tuple(str, tie('v')), { maxLength: 3 }).map(a => Object.fromEntries(a.filter(p => p[0] !== '__proto__')))),
  })).v;
  const THROWN = [['new Error("boom")', 'boom'], ['"text"', 'text'], ['undefined', null], ['null', null], ['0', null], ['Symbol("s")', null], ['{}', null], ['Object.create(null)', null], ['new TypeError("é")', 'é'], ['new Proxy({}, { get() { throw 1 } })', null]];
  const outcome = fc.oneof(
    fc.record({ k: fc.constantFrom('respond', 'respond late', 'respond and return', 'return'), success: fc.oneof(fc.option(fc.boolean(), { nil: undefined }), fc.constantFrom(null, 0, '', 'no', 'omitted')), data: fc.option(json, { nil: undefined }), error: fc.oneof(fc.option(str, { nil: undefined }), fc.constantFrom(0, 1.5, true, false, null), fc.constant(['x', 1])), other: json }),
    fc.record({ k: fc.constantFrom('respond plain', 'return plain'), v: json }),
    fc.record({ k: fc.constantFrom('throw now', 'throw', 'respond and throw'), v: fc.constantFrom(...THROWN) }),
    fc.record({ k: fc.constant('nothing') }));
  const name = fc.oneof(fc.constant('w1'), str);
  const source = fc.oneof(fc.constant(undefined), fc.record({ kind: fc.constant('schedule'), time: fc.oneof(fc.constant(0), fc.nat(), fc.maxSafeInteger().map(Math.abs)) }), fc.record({ kind: fc.constantFrom('chain', 'worker', 'invoke'), name }));
  const task = fc.record({ id: str, payload: fc.option(json, { nil: undefined }), source, attempt: fc.oneof(fc.integer({ min: 1, max: 5 }), fc.constantFrom(0, 4294967295)), outcome, first: fc.nat(3), wait: fc.constantFrom('', '', 'await 0;', 'await sleep(12);', "await (await fetch('http://up.test/x')).text();") });
  const kase = fc.record({ mode: fc.oneof(c.mode, c.mode, fc.constant('isolate')), style: fc.constantFrom('task', 'task', 'module', 'module', 'scheduled', 'module scheduled', 'both', 'module both', 'task beside', 'scheduled beside'), tasks: fc.array(task, { minLength: 1, maxLength: 4 }) });
  part('results', 130, kase, x => x.tasks.some(q => q.payload !== undefined || q.outcome.data !== undefined), x => {
    // Nothing is said of I/O and timers of what runs on an isolate that is lent
    const lent = x.mode === 'isolate';
    const body = q => {
      const o = q.outcome, wait = lent && /sleep|fetch/.test(q.wait) ? 'await 0;' : q.wait;
      const obj = ret => `({ ${[o.success === 'omitted' ? (ret ? 'success: 1' : '') : `success: ${o.success === undefined ? "undefined" : A(o.success)}`, o.data === undefined ? '' : `data: P(${A(A(o.data))})`, o.error === undefined ? '' : `error: ${A(o.error)}`].filter(Boolean).join(', ')} })`;
      const v = s => `P(${A(A(s))})`;
      const thrown = o.k.includes('throw') ? `(${o.v[0]})` : '';
      // What fails besides is not what is told
      const besides = o.k.includes('throw') && !q.first ? 'w(Promise.reject(new Error("besides")));' : '';
      switch (o.k) {
        case 'respond': return [`e.respondWith(${obj()});`, wait];
        case 'respond late': return [wait, `e.respondWith(${obj()});`];
        case 'respond and return': return [`e.respondWith(${obj()});`, wait, `return { success: true, data: ${v(o.other)} };`];
        case 'return': return [wait, `return ${obj(true)};`];
        case 'respond plain': return [wait, `e.respondWith(${prim(o.v) ? v(o.v) : `{ success: true, data: ${v(o.v)} }`});`];
        case 'return plain': return [wait, `return ${plainObj(o.v) && 'success' in o.v ? `{ success: true, data: ${v(o.v)} }` : v(o.v)};`];
        case 'throw now': return [besides, `throw ${thrown};`];
        case 'throw': return [besides, wait, `throw ${thrown};`];
        case 'respond and throw': return ["e.respondWith({ success: true, data: 1 });", besides, wait, `throw ${thrown};`];
        default: return [wait];
      }
    };
    const prim = v => v === null || typeof v !== 'object';
    const plainObj = v => !prim(v) && !Array.isArray(v);
    const H = x.tasks.map(q => `[${q.outcome.k === 'throw now'}, ${q.outcome.k === 'throw now' ? `(e, w) => { ${body(q).join(' ')} }` : `async (e, w) => { ${body(q).join(' ')} }`}]`);
    const sched = x.style.includes('scheduled');
    const reg = {
      task: "addEventListener('task', handle);", module: 'globalThis.default = { task: handle };', scheduled: "addEventListener('scheduled', handle);", 'module scheduled': 'globalThis.default = { scheduled: handle };',
      'task beside': "addEventListener('task', handle); globalThis.default = { fetch() {}, task: 7 };", 'scheduled beside': "globalThis.default = { fetch() {} }; addEventListener('scheduled', handle);",
      both: "addEventListener('scheduled', () => { throw new Error('wrong one') }); addEventListener('task', handle);",
      'module both': "addEventListener('task', () => { throw new Error('wrong one') }); globalThis.default = { fetch() {}, scheduled() { throw new Error('wrong one') }, task: handle };",
    }[x.style];
    const list = [];
    const at = [];
    x.tasks.forEach((q, i) => {
      if (i && x.mode === 'worker') list.push({ kind: 'new' });
      at.push(list.length);
      list.push({ kind: 'task', at: x.mode === 'pinned' ? i * 1000 : 0, id: q.id, payload: q.payload, source: q.source, attempt: q.attempt });
    });
    // In a worker each task is the first one; in the pool the contexts may be the same, so that the id tells.
    const o = c.scene({ mode: x.mode, patience: 5000, ops: { '*': [{ body: 'x' }] }, env: { NAME: 'v' }, steps: list, workers: {}, script: `
      const sleep = ms => new Promise(r => setTimeout(r, ms));
      const P = JSON.parse, before = [typeof globalThis.seen, typeof Array.seen].join();
      globalThis.seen = Array.seen = 1;
      const H = [${H.join(',\n')}];
      const TASKS = ${A(x.tasks.map(q => [q.id, q.attempt, q.source && q.source.kind === 'schedule' ? q.source.time : null]))};
      // Which one it is: the calls are told apart by what the outside logged.
      function handle(e, env, ctx) {
        const n = TASKS.findIndex(([id, a, time]) => ${sched && !x.style.includes('module') ? 'true' : '(e.taskId === undefined || id === e.taskId && a === e.attempt)'} && (time === null ? e.scheduledTime === undefined : e.scheduledTime === time));
        console.log('event ' + JSON.stringify({ before, keys: Object.keys(e).filter(k => k !== 'waitUntil' && k !== 'respondWith'), taskId: e.taskId, attempt: e.attempt, payload: e.payload, scheduledTime: e.scheduledTime, wait: typeof (ctx || e).waitUntil, env: env && env.NAME, n }));
        if (n < 0) return;
        return H[n][1](e, p => (ctx || e).waitUntil(p));
      }
      ${reg}` });
    // Tasks that the handler cannot tell apart are left out.
    const key = q => JSON.stringify(sched && !x.style.includes('module') ? [q.source && q.source.kind === 'schedule' ? q.source.time : null] : [q.id, q.attempt, q.source && q.source.kind === 'schedule' ? q.source.time : null]);
    const events = o.all('log').filter(l => l.text.startsWith('event '));
    if (events.length !== x.tasks.length) fail('events', `${x.style}: ${events.length} events for ${x.tasks.length} tasks: ${c.show(o)}`);
    x.tasks.forEach((q, i) => {
      const d = `${x.style}, ${x.mode}, ${q.outcome.k}`;
      const e = JSON.parse(events[i].text.slice(6));
      const time = q.source && q.source.kind === 'schedule' ? q.source.time : undefined;
      if (x.mode !== 'pinned' && e.before !== 'undefined,undefined') fail('apart', `${d}: the globals are those of the task before`);
      if (e.scheduledTime !== time) fail('time', `${d}: scheduledTime is ${e.scheduledTime}, not ${time}`);
      if (!sched || x.style === 'module scheduled') {
        if (e.taskId !== q.id || e.attempt !== q.attempt) fail('task', `${d}: the handler sees ${events[i].text}, and the task is ${q.id}, attempt ${q.attempt}`);
        if (e.keys.includes('payload') !== (q.payload !== undefined) || (q.payload !== undefined && !c.same(e.payload, q.payload))) fail('payload', `${d}: the payload is ${JSON.stringify(e.payload)}, not ${JSON.stringify(q.payload)}`);
      }
      if (e.wait !== 'function') fail('waitUntil', `${d}: there is no waitUntil`);
      if (x.style.includes('module') && e.env !== 'v') fail('env', `${d}: there is no env`);
      if (x.tasks.findIndex(p => key(p) === key(q)) !== i) return;
      if (e.n !== i) return;
      const r = o.one('result', at[i]);
      if (!r || o.exec(at[i]) !== 'ok') fail('lost', `${d}: no result: ${c.show(o)}`);
      const k = q.outcome;
      let want;
      if (sched && k.k.includes('respond')) return;
      if (k.k.includes('throw')) want = { success: false };
      else if (sched) { want = { success: true, data: null, error: null }; }
      else if (k.k === 'nothing') want = { success: true, data: null, error: null };
      else if (k.k.includes('plain')) want = { success: true, data: k.v, error: null };
      else want = { success: k.success !== false, data: k.data === undefined ? null : k.data, error: k.error === undefined || k.error === null ? null : String(k.error) };
      if (r.success !== want.success) fail('success', `${d}: success is ${r.success}: ${JSON.stringify(r)}`);
      if (k.k.includes('throw')) {
        if (typeof r.error !== 'string' || (k.v[1] && r.error !== k.v[1])) fail('error', `${d} ${k.v[0]}: the error is ${JSON.stringify(r.error)}`);
      } else {
        if (!c.same(r.data, want.data)) fail('data', `${d}: the data is ${JSON.stringify(r.data)}, not ${JSON.stringify(want.data)}`);
        if (r.error !== want.error) fail('error', `${d}: the error is ${JSON.stringify(r.error)}, not ${JSON.stringify(want.error)}`);
      }
      label(k.k);
    });
  });

  const NONE = ['', 'globalThis.default = { fetch() {} };', "addEventListener('fetch', () => 0);", 'globalThis.default = {};', 'globalThis.default = null;', 'globalThis.default = { task: 7, scheduled: null };'];
  part('no handler', 6, fc.record({ mode: c.mode, script: fc.constantFrom(...NONE), schedule: fc.boolean() }), () => true, x => {
    const o = c.scene({ mode: x.mode, script: x.script, patience: 5000, steps: [{ kind: 'task', source: x.schedule ? { kind: 'schedule', time: 4 } : undefined }] });
    const r = o.one('result', 0);
    if (!r || r.success || o.exec(0) !== 'ok') fail('no handler', `${x.script || 'an empty script'}: ${c.show(o)}`);
  });
};
