// Whole workers (harness-b): C29 timers, C30 operations, C31 requests, C32 responses, C33 clients that leave,
// C34 handlers, C35 waitUntil, C36 tasks, C37 WebSocket, C38 reuse, C39 pool, C40 limits, C41 env, C42 console,
// C43 code caches, C44 concurrency, C45 what fetch sends, C46 globals, C47 snapshot,
// C48 what is kept, C49 memory, C50 the clock, C51 scripts that fail, C52 ends.
'use strict';
const cp = require('child_process');
const path = require('path');
module.exports = t => {
  const { fc, prop } = t;
  const c = require('./common.js')(fc);
  c.A = v => JSON.stringify(v).replace(/[\u007f-\uffff]/g, x => '\\u' + x.charCodeAt(0).toString(16).padStart(4, '0'));
  c.mode = fc.constantFrom('worker', 'pinned');
  /** Mostly nothing. */
  c.rare = (arb, none) => fc.oneof({ weight: 5, arbitrary: fc.constant(none) }, { weight: 1, arbitrary: arb });
  /** Bytes are strings of code points up to U+00FF, here as there. */
  c.bin = o => fc.uint8Array(o || { maxLength: 40 }).map(a => String.fromCharCode(...a));
  c.bytesJs = s => `Uint8Array.from(${c.A(s)}, c => c.charCodeAt(0))`;
  /** Equal as JSON, whatever the order of keys. */
  c.same = (a, b) => {
    if (a === b) return true;
    if (typeof a !== 'object' || typeof b !== 'object' || !a || !b || Array.isArray(a) !== Array.isArray(b)) return false;
    const k = Object.keys(a);
    return k.length === Object.keys(b).length && k.every(x => Object.hasOwn(b, x) && c.same(a[x], b[x]));
  };
  c.utf8 = s => Buffer.from(s, 'utf8').toString('latin1');
  /** Runs a scenario; what came of it. */
  c.scene = s => view(t.iso.call({ op: 'scenario', ...s }));
  /** The same in a process of its own, with a pool like this; waits for it. */
  const children = {};
  c.sceneIn = (pool, s) => new Promise((resolve, reject) => {
    const { cwd } = pool, key = JSON.stringify(pool);
    let ch = children[key];
    if (!ch) {
      ch = children[key] = cp.fork(path.join(__dirname, 'child.js'), [], { cwd, env: { ...process.env, VERIF_POOL: key, ...pool.simple && { VERIF_LIB: process.env.VERIF_LIB_SIMPLE }, ...pool.reuses && { CONTEXT_MAX_REUSES: String(pool.reuses) } }, stdio: ['ignore', 'ignore', 'inherit', 'ipc'] });
      ch.on('message', m => { const [f] = ch.now; ch.now = null; f(m); });
      ch.on('exit', (code, sig) => { delete children[key]; if (ch.now) ch.now[1](new t.Fail('crash', `the process ended with ${sig || code}`)); });
    }
    ch.now = [m => { try { resolve(s.op ? m : view(m)); } catch (e) { reject(e); } }, reject];
    ch.send({ op: 'scenario', ...s });
  });
  process.on('exit', () => { for (const k in children) children[k].kill('SIGKILL'); });
  const view = r => {
    if (r.panic !== undefined) t.fail('panic', `the runtime panicked: ${r.panic}`);
    if (!r.trace) throw new Error('no trace: ' + JSON.stringify(r));
    const o = {
      trace: r.trace,
      all: (k, step) => r.trace.filter(e => e.k === k && (step === undefined || e.step === step)),
      one: (k, step) => o.all(k, step)[0],
      logs: () => o.all('log').map(e => e.text),
      /** What the client of a step got: {status, headers, body, end: whole|error|none} */
      got(step) {
        const e = o.one('response', step);
        if (!e) return null;
        let body = e.data, end = 'whole';
        if (e.body === 'none') body = null;
        if (e.body === 'stream') {
          body = o.all('chunk', step).map(x => x.data).join('');
          end = o.one('error', step) ? 'error' : o.one('end', step) ? 'whole' : 'none';
        }
        return { status: e.status, headers: e.headers, kind: e.body, body, end, t: e.t };
      },
      exec: step => (o.one('exec', step) || {}).result,
    };
    return o;
  };
  c.show = o => JSON.stringify(o.trace ? o.trace : o).slice(0, 1500);
  const file = {
    C29: 'timers', C30: 'ops', C31: 'request', C32: 'response', C33: 'leave', C34: 'handler', C35: 'wait', C36: 'task',
    C37: 'socket', C38: 'reuse', C39: 'pool', C40: 'limits', C41: 'env', C42: 'console', C43: 'cache', C44: 'together', C45: 'send', C46: 'globals', C47: 'snapshot', C48: 'kept', C49: 'memory', C50: 'clock', C51: 'start', C52: 'end',
  }[prop];
  require('./work-' + file + '.js')(t, c);
};
