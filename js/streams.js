// C17 ReadableStream against a model; C18 tee.
'use strict';
module.exports = t => {
  const { fc, part, iso, fail, check, label } = t;
  const J = JSON.stringify;

  // Runs in the isolate. A world W has one stream; OP(op) does one step, OBS() looks at everything.
  const PRELUDE = `
globalThis.S = v => typeof v + ':' + (v instanceof Uint8Array ? Array.from(v) : typeof v === 'object' && v ? JSON.stringify(v) : String(v));
globalThis.VAL = n => n % 8 === 3 ? undefined : n % 8 === 5 ? 0 : n % 8 === 6 ? '' : n % 8 === 7 ? null : n;
globalThis.TVAL = n => n % 3 === 0 ? Uint8Array.from([n, n + 1, n + 2]).subarray(n % 2) : n % 3 === 1 ? { n } : VAL(n);
globalThis.WATCH = p => { const s = { s: 'pending' }; p.then(v => { s.s = 'ok'; s.v = v }, e => { s.s = 'err'; s.v = e }); return s };
globalThis.KIND = e => e instanceof TypeError ? 'TypeError' : String(e);
globalThis.BEGIN = (spec, value) => {
  const w = globalThis.W = { n: 0, errs: 0, c: null, pulls: 0, inflight: 0, overlap: 0, cancels: [], deferred: [], reads: [], readers: [], cancelPs: [], res: null, accepted: [], snaps: [], leaves: [], ended: '' };
  const one = a => { try {
    if (a === 'e') { const v = value(w.n++), s = S(v); w.c.enqueue(v); w.accepted.push(s) }
    if (a === 'c') { w.c.close(); w.ended = w.ended || 'closed' }
    if (a === 'x') { w.c.error('err' + w.errs++); }
    if (a === 'u') { w.c.error([undefined, 0, '', null][w.errs++ % 4]); }
    return 'ok' } catch (e) { return KIND(e) } };
  w.acts = l => l.map(one);
  const src = {};
  if (spec.start) src.start = c => { w.c = c; w.res = w.acts(spec.start.acts); if (spec.start.mode === 'promise') return Promise.resolve(5); if (spec.start.mode === 'reject') return Promise.reject('start'); if (spec.start.mode === 'later') return new Promise((ok, no) => w.deferred.push(() => no('start'))) };
  if (spec.pulls) src.pull = c => {
    if (!w.c) w.c = c; else if (w.c !== c) w.overlap = 'other controller';
    const b = spec.pulls[w.pulls++ % spec.pulls.length];
    if (w.inflight) w.overlap = 'two at once';
    w.acts(b.now);
    if (b.mode === 'throw') throw 'pulled';
    if (b.mode === 'undef') return;
    w.inflight++;
    const end = () => { w.acts(b.later); w.inflight--; if (b.fails) throw 'pulled' };
    if (b.mode === 'promise') return Promise.resolve().then(end);
    return new Promise((ok, no) => w.deferred.push(() => { try { end(); ok() } catch (e) { no(e) } }));
  };
  if (spec.cancel !== 'none') src.cancel = r => { w.cancels.push(S(r)); if (spec.cancel === 'throw') throw 'cancelled'; if (spec.cancel === 'reject') return Promise.reject('cancelled'); if (spec.cancel === 'promise') return Promise.resolve(7) };
  try { w.stream = new ReadableStream(src) } catch (e) { w.res = 'threw ' + KIND(e) }
};
globalThis.READER = r => { const o = { r, closed: WATCH(r.closed) }; W.readers.push(o); return W.readers.length - 1 };
globalThis.OP = op => {
  const w = W; w.res = null;
  try {
    switch (op[0]) {
      case 'acts': w.res = w.acts(op[1]); break;
      case 'get': w.res = READER(w.stream.getReader()); break;
      case 'read': for (let i = 0; i < op[2]; i++) w.reads.push(WATCH(w.readers[op[1]].r.read())); break;
      case 'release': w.readers[op[1]].r.releaseLock(); w.res = 'ok'; break;
      case 'cancelR': w.cancelPs.push(WATCH(w.readers[op[1]].r.cancel(op[2]))); break;
      case 'cancelS': w.cancelPs.push(WATCH(w.stream.cancel(op[1]))); break;
      case 'settle': if (w.deferred.length) w.deferred.shift()(); break;
    }
  } catch (e) { w.res = 'threw ' + KIND(e) }
};
globalThis.OBS = () => { const w = W, st = x => x.s === 'pending' ? 'pending' : x.s === 'ok' ? 'ok ' + S(x.v) : 'err ' + KIND(x.v);
  W.snaps.push({ res: w.res, reads: w.reads.map(x => x.s === 'ok' ? (x.v.done === true ? 'done' + (x.v.value === undefined ? '' : ' with a value') : x.v.done === false ? S(x.v.value) : 'odd ' + JSON.stringify(x.v)) : st(x)), closed: w.readers.map(o => st(o.closed)), cancelPs: w.cancelPs.map(st),
  locked: w.stream && w.stream.locked, size: w.c && String(w.c.desiredSize), aborted: w.c && w.c.signal.aborted, reason: w.c && w.c.signal.aborted ? KIND(w.c.signal.reason) : '', pulls: w.pulls, overlap: w.overlap, cancels: [...w.cancels], accepted: w.accepted.length, inflight: w.inflight, n: w.n }) };
`;
  iso.fresh(PRELUDE);
  const VAL = n => n % 8 === 3 ? undefined : n % 8 === 5 ? 0 : n % 8 === 6 ? '' : n % 8 === 7 ? null : n;
  const S = v => typeof v + ':' + (typeof v === 'object' && v ? J(v) : String(v));

  // ---- C17 ----
  const acts = (max, ws) => fc.array(fc.oneof({ weight: ws[0], arbitrary: fc.constant('e') }, { weight: ws[1], arbitrary: fc.constant('c') }, { weight: ws[2], arbitrary: fc.constant('x') }, { weight: ws[3] || 0, arbitrary: fc.constant('u') }), { maxLength: max });
  const behaviour = fc.record({ now: acts(2, [14, 2, 1]), later: acts(2, [14, 2, 1]), mode: fc.oneof({ weight: 3, arbitrary: fc.constant('undef') }, { weight: 4, arbitrary: fc.constant('promise') }, { weight: 4, arbitrary: fc.constant('defer') }, { weight: 1, arbitrary: fc.constant('throw') }), fails: fc.nat(15).map(n => n === 0) });
  const source = fc.record({
    start: fc.record({ acts: acts(4, [12, 2, 1]), mode: fc.oneof({ weight: 12, arbitrary: fc.constantFrom('sync', 'promise') }, { weight: 1, arbitrary: fc.constant('reject') }, { weight: 2, arbitrary: fc.constant('later') }) }),
    pulls: fc.oneof({ weight: 2, arbitrary: fc.constant(null) }, { weight: 3, arbitrary: fc.array(behaviour, { minLength: 1, maxLength: 5 }) }),
    cancel: fc.constantFrom('none', 'undef', 'promise', 'throw', 'reject') })
    // While start is under way, the standard does not pull, and this does
    .map(s => s.start.mode === 'later' ? { ...s, pulls: null } : s);
  const op = fc.oneof(
    { weight: 7, arbitrary: fc.tuple(fc.constant('acts'), acts(3, [32, 2, 2, 1]).filter(a => a.length)) },
    { weight: 9, arbitrary: fc.tuple(fc.constant('read'), fc.nat(30), fc.oneof({ weight: 3, arbitrary: fc.constant(1) }, { weight: 1, arbitrary: fc.integer({ min: 2, max: 4 }) })) },
    { weight: 3, arbitrary: fc.tuple(fc.constant('get')) },
    { weight: 2, arbitrary: fc.tuple(fc.constant('release'), fc.nat(30)) },
    { weight: 4, arbitrary: fc.tuple(fc.constant('settle')) },
    { weight: 1, arbitrary: fc.tuple(fc.constant('cancelR'), fc.nat(30), fc.constantFrom('why', 'reason', 0)) },
    { weight: 1, arbitrary: fc.tuple(fc.constant('cancelS'), fc.constantFrom('why', 'reason', 0)) });

  /** What the stream has to do. */
  class Model {
    constructor(spec) {
      Object.assign(this, { spec, q: [], closeReq: false, state: 'readable', err: null, readers: [], cur: null, reads: [], pulls: 0, pulling: false, again: false, deferred: [], todo: [], n: 0, errs: 0, cancels: [], cancelPs: [], aborted: false, why: '', loose: new Set() });
      this.res = spec.start.acts.map(a => this.act(a));
      if (spec.start.mode === 'reject') this.error('start');
      if (spec.start.mode === 'later') this.deferred.push(() => this.error('start'));
    }
    act(a) {
      if (a === 'e') {
        const v = S(VAL(this.n++));
        if (this.closeReq || this.state !== 'readable') return 'TypeError';
        this.q.push(v);
        this.serve();
        if (this.cur && this.cur.requests.length) this.pull();
      } else if (a === 'c') {
        if (this.closeReq || this.state !== 'readable') return 'TypeError';
        this.closeReq = true;
        this.serve();
      } else this.error(a === 'x' ? 'err' + this.errs++ : [undefined, 0, '', null][this.errs++ % 4]);
      return 'ok';
    }
    error(e) {
      if (this.state !== 'readable') return;
      this.state = 'errored';
      this.err = e;
      this.q = [];
      this.aborted = true;
      this.why = e;
      if (this.cur) { for (const i of this.cur.requests.splice(0)) this.reads[i] = 'err ' + e; this.cur.closed = 'err ' + e; }
    }
    serve() {
      const r = this.cur;
      while (r && r.requests.length && this.q.length) this.reads[r.requests.shift()] = this.q.shift();
      if (this.state === 'readable' && this.closeReq && !this.q.length) {
        this.state = 'closed';
        if (r) { for (const i of r.requests.splice(0)) this.reads[i] = 'done'; r.closed = 'ok undefined:undefined'; }
      }
    }
    pull() {
      if (!this.spec.pulls) return;
      if (this.pulling) { this.again = true; return; }
      this.pulling = true;
      this.again = false;
      const b = this.spec.pulls[this.pulls++ % this.spec.pulls.length];
      b.now.forEach(a => this.act(a));
      const finish = () => {
        if (b.mode === 'promise' || b.mode === 'defer') b.later.forEach(a => this.act(a));
        if (b.mode === 'throw' || (b.fails && b.mode !== 'undef')) { this.error('pulled'); return; }
        this.pulling = false;
        if (this.again && this.cur && this.cur.requests.length) this.pull();
      };
      (b.mode === 'defer' ? this.deferred : this.todo).push(finish);
    }
    drain() { while (this.todo.length) this.todo.shift()(); }
    cancel(reason) {
      if (this.state === 'closed') return 'ok undefined:undefined';
      if (this.state === 'errored') return 'err ' + this.err;
      this.state = 'closed';
      this.q = [];
      this.aborted = true;
      this.why = reason;
      if (this.cur) { for (const i of this.cur.requests.splice(0)) this.reads[i] = 'done'; this.cur.closed = 'ok undefined:undefined'; this.cur.detached = true; this.cur = null; }
      const how = this.spec.cancel;
      if (how === 'none') return 'ok undefined:undefined';
      this.cancels.push(S(reason));
      return how === 'throw' || how === 'reject' ? 'err cancelled' : how === 'promise' ? null : 'ok undefined:undefined';
    }
    op(o) {
      this.res = null;
      const r = this.readers[o[1]];
      switch (o[0]) {
        case 'acts': this.res = o[1].map(a => this.act(a)); break;
        case 'get':
          if (this.cur) { this.res = 'threw TypeError'; break; }
          this.cur = { requests: [], closed: this.state === 'closed' ? 'ok undefined:undefined' : this.state === 'errored' ? 'err ' + this.err : 'pending' };
          this.res = this.readers.push(this.cur) - 1;
          break;
        case 'read':
          for (let k = 0; k < o[2]; k++) {
            const i = this.reads.push('pending') - 1;
            if (r.released) { this.reads[i] = 'err TypeError'; if (r.cancelled) this.loose.add(i); continue; }
            if (this.state === 'errored') this.reads[i] = 'err ' + this.err;
            else if (this.state === 'closed') this.reads[i] = 'done';
            else if (this.q.length) { this.reads[i] = this.q.shift(); this.serve(); } else { r.requests.push(i); this.pull(); }
          }
          break;
        case 'release':
          if (r.released) { this.res = 'ok'; break; }
          if (r.requests.length) { this.res = 'threw TypeError'; break; }
          r.released = true;
          this.res = 'ok';
          if (this.cur === r) this.cur = null;
          break;
        case 'cancelR':
          if (r.released) { this.cancelPs.push('err TypeError'); break; }
          this.cancelPs.push(this.cancel(o[2]));
          r.released = r.cancelled = true;
          if (this.cur === r) this.cur = null;
          break;
        case 'cancelS': this.cancelPs.push(this.cancel(o[1])); break;
        case 'settle': if (this.deferred.length) this.deferred.shift()(); break;
      }
      this.drain();
    }
    get size() { return this.state === 'errored' ? 'null' : this.state === 'closed' ? '0' : this.q.length ? '0' : '1'; }
  }

  const props = {
    C17() {
      const history = fc.record({ spec: source, ops: fc.array(op, { minLength: 1, maxLength: 30 }) });
      const busy = c => c.ops.filter(o => o[0] === 'read').length > 1 && c.ops.some(o => o[0] === 'acts' || o[0] === 'settle' || c.spec.pulls);
      const test = c => {
        const m = new Model(c.spec), want = [];
        // Readers are numbered; operations on readers that are not there are left out, as are those on readers the stream was cancelled under.
        const ops = [];
        const keep = () => want.push({ res: m.res, reads: [...m.reads], closed: m.readers.map(r => r.released && r.closed === 'pending' ? null : r.closed), cancelPs: [...m.cancelPs], locked: m.readers.some(r => r.detached) ? null : !!m.cur, size: m.size, aborted: m.aborted, why: m.why, pulls: m.pulls, cancels: [...m.cancels] });
        keep();
        for (const o of c.ops) {
          let p = o;
          if (['read', 'release', 'cancelR'].includes(o[0])) {
            if (!m.readers.length) continue;
            // Mostly the last one
            const i = o[1] < 24 ? m.readers.length - 1 : o[1] % m.readers.length;
            p = [o[0], i, ...o.slice(2)];
            if (m.readers[i].detached && o[0] !== 'read' && !m.readers[i].released) continue;
          }
          ops.push(p);
          m.op(p);
          keep();
        }
        const src = [`BEGIN(${J(c.spec)}, VAL)`, 'OBS()'];
        for (const o of ops) src.push(`OP(${J(o)})`, 'OBS()');
        const snaps = JSON.parse(iso.eval(...src, 'JSON.stringify(W.snaps)'));
        want.forEach((w, i) => {
          const g = snaps[i], at = () => `after ${i ? J(ops[i - 1]) : 'the start'} (step ${i} of ${J(ops)}) of ${J(c.spec)}`;
          check(!g.overlap, 'pull-overlap', () => `${at()}: pull: ${g.overlap}`);
          w.reads.forEach((r, k) => {
            if (m.loose.has(k) && g.reads[k] === 'done') return;
            check(g.reads[k] === r, g.reads[k] === 'pending' ? 'read-stuck' : 'read', () => `${at()}: read ${k} is ${g.reads[k]}, not ${r}`);
          });
          check(J(g.res) === J(w.res), 'result', () => `${at()}: gives ${J(g.res)}, not ${J(w.res)}`);
          w.closed.forEach((r, k) => check(r === null || g.closed[k] === r, 'closed', () => `${at()}: closed of reader ${k} is ${g.closed[k]}, not ${r}`));
          w.cancelPs.forEach((r, k) => check(r === null ? g.cancelPs[k].startsWith('ok') : g.cancelPs[k] === r, 'cancel-result', () => `${at()}: cancel ${k} is ${g.cancelPs[k]}, not ${r}`));
          check(J(g.cancels) === J(w.cancels), 'cancel-source', () => `${at()}: the source was cancelled with ${J(g.cancels)}, not ${J(w.cancels)}`);
          check(w.locked === null || g.locked === w.locked, 'locked', () => `${at()}: locked is ${g.locked}`);
          check(g.size === w.size, 'desired-size', () => `${at()}: desiredSize is ${g.size}, not ${w.size}`);
          check(g.aborted === w.aborted, 'signal', () => `${at()}: signal.aborted is ${g.aborted}`);
          check(!w.why || g.reason === w.why, 'signal-reason', () => `${at()}: signal.reason is ${g.reason}, not ${w.why}`);
          check(g.pulls === w.pulls, 'pulls', () => `${at()}: pull was called ${g.pulls} times, not ${w.pulls}`);
        });
        label(`ends ${m.state}`);
      };
      part('model', 7000, history, busy, test);
      // A single reader that reads everything: long streams.
      const readAll = fc.record({ spec: fc.record({ start: fc.record({ acts: acts(3, [5, 0, 0]), mode: fc.constantFrom('sync', 'promise') }), pulls: fc.array(fc.record({ now: acts(2, [20, 1, 0]), later: acts(2, [20, 1, 0]), mode: fc.constantFrom('undef', 'promise', 'defer'), fails: fc.constant(false) }), { minLength: 2, maxLength: 8 }), cancel: fc.constant('undef') }),
        ops: fc.array(fc.oneof({ weight: 4, arbitrary: fc.tuple(fc.constant('read'), fc.constant(0), fc.integer({ min: 1, max: 6 })) }, { weight: 2, arbitrary: fc.constant(['settle']) }, { weight: 1, arbitrary: fc.constant(['acts', ['e', 'e']]) }), { minLength: 5, maxLength: 60 }).map(o => [['get'], ...o]) });
      part('long', 1200, readAll, c => c.ops.length > 10, test);
      // start that throws
      part('start', 100, fc.record({ acts: acts(3, [5, 1, 1]) }), c => c.acts.length > 0, c => {
        const r = iso.json(`(() => { let k; try { new ReadableStream({ start(c) { k = c; ${c.acts.map(a => a === 'e' ? 'try { c.enqueue(1) } catch {}' : a === 'c' ? 'try { c.close() } catch {}' : 'c.error(1)').join(';')}; throw new RangeError('mine') } }) } catch (e) { return String(e) } return 'no exception' })()`);
        check(r.ok === 'RangeError: mine', 'start-threw', () => `start throws: ${J(r)}`);
      });
    },

    C18() {
      const TVAL = n => n % 3 === 0 ? 'object:' + [n, n + 1, n + 2].slice(n % 2).join(',') : n % 3 === 1 ? S({ n }) : S(VAL(n));
      const tb = fc.record({ now: acts(2, [14, 1, 1]), later: acts(2, [14, 1, 1]), mode: fc.constantFrom('undef', 'promise', 'defer'), fails: fc.constant(false) }).map(b => ({ ...b, now: b.now.length || b.mode !== 'undef' ? b.now : ['e'], later: b.now.length + b.later.length ? b.later : ['e'] }));
      const tspec = fc.record({ start: fc.record({ acts: acts(4, [12, 1, 0]), mode: fc.constantFrom('sync', 'promise') }), pulls: fc.oneof({ weight: 2, arbitrary: fc.constant(null) }, { weight: 3, arbitrary: fc.array(tb, { minLength: 1, maxLength: 4 }) }), cancel: fc.constantFrom('none', 'undef', 'promise') });
      const top = fc.oneof(
        { weight: 5, arbitrary: fc.tuple(fc.constant('acts'), acts(3, [18, 1, 1]).filter(a => a.length)) },
        { weight: 12, arbitrary: fc.tuple(fc.constant('read'), fc.nat(99), fc.oneof({ weight: 3, arbitrary: fc.constant(1) }, { weight: 1, arbitrary: fc.integer({ min: 2, max: 5 }) })) },
        { weight: 4, arbitrary: fc.tuple(fc.constant('settle')) },
        { weight: 1, arbitrary: fc.tuple(fc.constant('cancel'), fc.nat(99)) });
      const TEE = `
globalThis.TEE = nest => { const w = W; w.mutate = true; let leaves = w.stream.tee(); for (const i of nest) { const k = i % leaves.length; leaves.splice(k, 1, ...leaves[k].tee()) }
  w.lockErrs = [() => w.stream.getReader(), () => w.stream.tee()].map(f => { try { f(); return 'no error' } catch (e) { return KIND(e) } });
  w.leaves = leaves.map(s => ({ r: s.getReader(), reads: [], cancelled: null })) };
globalThis.TOP = op => { const w = W; try { switch (op[0]) {
  case 'acts': w.acts(op[1]); break;
  case 'settle': if (w.deferred.length) w.deferred.shift()(); break;
  case 'read': { const l = w.leaves[op[1]]; for (let i = 0; i < op[2]; i++) { const s = { s: 'pending' }; l.reads.push(s); l.r.read().then(x => { s.s = x.done ? 'done' : S(x.value); if (x.value instanceof Uint8Array) x.value.fill(238) }, e => { s.s = 'err ' + KIND(e) }) } break; }
  case 'cancel': { const l = w.leaves[op[1]]; l.cancelled = WATCH(l.r.cancel('leaf' + op[1])); break; } } } catch (e) { w.broken = KIND(e) } };
globalThis.TOBS = () => { const w = W; w.snaps.push({ leaves: w.leaves.map(l => ({ reads: l.reads.map(x => x.s), c: l.cancelled && l.cancelled.s })), accepted: [...w.accepted], ended: w.ended, errs: w.errs, size: String(w.c.desiredSize), pulls: w.pulls, inflight: w.inflight, overlap: w.overlap, cancels: [...w.cancels], broken: w.broken, deferred: w.deferred.length, lockErrs: w.lockErrs, locked: w.stream.locked, res: w.res }) };
`;
      iso.eval(TEE);
      part('tee', 7000, fc.record({ spec: tspec, nest: fc.array(fc.nat(9), { maxLength: 2 }), ops: fc.array(top, { minLength: 2, maxLength: 30 }) }), c => c.ops.filter(o => o[0] === 'read').length > 2, c => {
        const leaves = 2 + c.nest.length;
        const dead = new Set(), ops = [];
        for (const o of c.ops) {
          if (o[0] === 'read' || o[0] === 'cancel') {
            const i = o[1] % leaves;
            if (dead.has(i)) continue;
            if (o[0] === 'cancel') dead.add(i);
            ops.push([o[0], i, ...o.slice(2)]);
          } else ops.push(o);
        }
        const src = [`BEGIN(${J(c.spec)}, TVAL)`, `TEE(${J(c.nest)})`, 'TOBS()'];
        for (const o of ops) src.push(`TOP(${J(o)})`, 'TOBS()');
        const snaps = JSON.parse(iso.eval(...src, 'JSON.stringify(W.snaps)'));
        check(J(snaps[0].lockErrs) === J(['TypeError', 'TypeError']) && snaps[0].locked, 'tee-lock', () => `a stream that was split can still be read: ${J(snaps[0].lockErrs)}`);
        const asked = Array(leaves).fill(0), cut = Array(leaves).fill(null);
        let prev = null, lastCancelOpen = null;
        snaps.forEach((g, i) => {
          const o = ops[i - 1], at = () => `after ${J(o || 'tee')} (step ${i} of ${J(ops)}) of ${J(c.spec)}, nested ${J(c.nest)}`;
          if (o && o[0] === 'read') asked[o[1]] += o[2];
          if (o && o[0] === 'cancel') { cut[o[1]] = true; lastCancelOpen = prev.ended === '' && prev.errs === 0; }
          check(!g.broken, 'tee-threw', () => `${at()}: ${g.broken}`);
          check(!g.overlap, 'pull-overlap', () => `${at()}: pull: ${g.overlap}`);
          const errored = g.errs > 0;
          g.leaves.forEach((l, k) => {
            let over = false;
            l.reads.forEach((r, n) => {
              const where = () => `${at()}: read ${n} of branch ${k} is ${r}`;
              if (r === 'pending') {
                check(!cut[k], 'tee-stuck', () => `${where()} though the branch was cancelled`);
                check(errored || n >= g.accepted.length, 'tee-stuck', () => `${where()} though ${g.accepted.length} chunks were enqueued`);
                check(!errored && g.ended === '', 'tee-stuck', () => `${where()} though the stream has ended`);
                check(!c.spec.pulls || g.inflight > 0, 'tee-starved', () => `${where()} and the source is not asked for more`);
                over = true;
              } else if (r === 'done') {
                check(cut[k] || (g.ended && n >= g.accepted.length), 'tee-early-end', () => `${where()}, with ${g.accepted.length} chunks and the end ${J(g.ended)}`);
                over = true;
              } else if (r.startsWith('err ')) {
                check(errored && r.startsWith('err err'), 'tee-error', where);
                over = true;
              } else {
                check(!over, 'tee-order', () => `${where()} after an earlier one that has no chunk: ${J(l.reads)}`);
                check(n < g.accepted.length && r === g.accepted[n], 'tee-chunk', () => `${where()}, not ${g.accepted[n]}`);
              }
            });
            check(!cut[k] || l.c !== 'pending', 'tee-cancel', () => `${at()}: cancel of branch ${k} is ${l.c}`);
          });
          if (c.spec.pulls) check(g.pulls <= Math.max(...asked), 'tee-greedy', () => `${at()}: pull was called ${g.pulls} times for at most ${Math.max(...asked)} reads`);
          const all = cut.every(x => x);
          check(g.cancels.length <= (all ? 1 : 0), 'tee-cancel-early', () => `${at()}: the source was cancelled ${g.cancels.length} times with ${cut.filter(x => x).length} of ${leaves} branches cancelled`);
          check(g.cancels.every(r => /leaf\d/.test(r)), 'tee-cancel-reason', () => `${at()}: the source was cancelled with ${J(g.cancels)}, which no branch was`);
          if (all && c.spec.cancel !== 'none' && lastCancelOpen) check(g.cancels.length === 1, 'tee-cancel-lost', () => `${at()}: all branches are cancelled and the source is not`);
          prev = g;
        });
        label(c.spec.pulls ? 'pull source' : 'push source');
      });
    },
  };
  props[t.prop]();
};
