// C28: abort signals against a model: one abort, one call per listener, in order.
'use strict';
module.exports = ({ fc, part, iso, check, label }, { A, J, run, PRELUDE }) => {
  iso.fresh(PRELUDE);
  // What a listener does when it is called, besides saying so.
  const act = fc.oneof({ weight: 5, arbitrary: fc.constant({ k: 'none' }) }, { weight: 2, arbitrary: fc.constant({ k: 'throw' }) },
    { weight: 2, arbitrary: fc.record({ k: fc.constantFrom('add', 'remove'), l: fc.nat(5) }) }, { weight: 1, arbitrary: fc.constant({ k: 'abort' }) }, { weight: 1, arbitrary: fc.constant({ k: 'look' }) });
  const listener = fc.record({ object: fc.boolean(), act });
  // Reasons are source text; undefined stands for "none given".
  const reason = fc.constantFrom(undefined, 'undefined', 'null', '0', 'false', "''", "'why'", 'NaN', 'R', '[1]', 'new TypeError("t")');
  const op = fc.oneof(
    { weight: 6, arbitrary: fc.record({ op: fc.constant('add'), l: fc.nat(5) }) },
    { weight: 3, arbitrary: fc.record({ op: fc.constant('remove'), l: fc.nat(5) }) },
    { weight: 3, arbitrary: fc.record({ op: fc.constant('abort'), reason }) },
    { weight: 1, arbitrary: fc.record({ op: fc.constant('onabort'), l: fc.option(fc.nat(5), { nil: null }) }) },
    { weight: 1, arbitrary: fc.record({ op: fc.constant('other'), l: fc.nat(5) }) },
    { weight: 2, arbitrary: fc.constant({ op: 'look' }) });
  const kind = fc.oneof({ weight: 6, arbitrary: fc.constant('controller') }, { weight: 2, arbitrary: fc.constant('timeout') }, { weight: 1, arbitrary: fc.constant('aborted') });

  part('history', 1200, fc.record({ kind, first: reason, ls: fc.array(listener, { minLength: 6, maxLength: 6 }), ops: fc.array(op, { minLength: 1, maxLength: 12 }), again: op }), c => c.ops.filter(o => o.op === 'abort').length > 0 && c.ops.length > 3, c => {
    label(c.kind);
    const args = r => r === undefined ? '' : r;
    const fire = r => c.kind === 'controller' ? `ctl.abort(${args(r)})` : c.kind === 'timeout' ? '__timers[0] && __timers[0][0]()' : '0';
    let js = `(() => { const log = [], R = {r: 1}; const says = []; globalThis.__timers.length = 0; globalThis.__logged.length = 0;
const NAME = v => v === R ? 'R' : v instanceof TypeError ? 'TypeError' : v instanceof DOMException ? v.name + (v instanceof Error) : Array.isArray(v) ? 'array' : typeof v + ' ' + String(v);
const LOOK = () => { let t = 'no'; try { sig.throwIfAborted() } catch (e) { t = NAME(e) } return [sig.aborted, NAME(sig.reason), t] };\n`;
    js += c.kind === 'controller' ? 'const ctl = new AbortController(), sig = ctl.signal;\n' : c.kind === 'timeout' ? 'const sig = AbortSignal.timeout(77); if (__timers.length !== 1 || __timers[0][1] !== 77) log.push("timer");\n' : `const sig = AbortSignal.abort(${args(c.first)});\n`;
    js += 'const L = [];\n';
    c.ls.forEach((l, i) => {
      const a = l.act;
      const body = a.k === 'throw' ? `throw new Error('from ${i}')` : a.k === 'add' ? `sig.addEventListener('abort', L[${a.l}])` : a.k === 'remove' ? `sig.removeEventListener('abort', L[${a.l}])` : a.k === 'abort' ? fire("'again'") : a.k === 'look' ? 'log.push(LOOK())' : '';
      const f = `{ log.push(['call ${i}', e.type, e.target === sig, this === ${l.object ? `L[${i}]` : 'sig'}, sig.aborted]); ${body} }`;
      js += l.object ? `L.push({ handleEvent(e) ${f} });\n` : `L.push(function (e) ${f});\n`;
    });
    // The model.
    const name = r => r === undefined || r === 'undefined' ? 'AbortErrortrue' : { null: 'object null', 0: 'number 0', false: 'boolean false', "''": 'string ', "'why'": 'string why', NaN: 'number NaN', R: 'R', '[1]': 'array', 'new TypeError("t")': 'TypeError' }[r];
    const m = { aborted: false, reason: 'undefined undefined', ls: [], on: null };
    const log = [];
    const thrown = [];
    let onCalls = 0, onWant = 0;
    const look = () => [m.aborted, m.reason, m.aborted ? m.reason : 'no'];
    const abort = r => {
      if (m.aborted) return;
      m.aborted = true;
      m.reason = c.kind === 'timeout' ? 'TimeoutErrortrue' : name(r);
      if (m.on !== null) { onWant++; if (m.on % 3 === 0) thrown.push('Error: on'); }
      for (const i of [...m.ls]) {
        if (!m.ls.includes(i)) continue;
        const a = c.ls[i].act;
        log.push([`call ${i}`, 'abort', true, true, true]);
        if (a.k === 'throw') thrown.push(`Error: from ${i}`);
        else if (a.k === 'add') { if (!m.ls.includes(a.l)) m.ls.push(a.l); } else if (a.k === 'remove') m.ls = m.ls.filter(x => x !== a.l);
        else if (a.k === 'look') log.push(look());
      }
    };
    if (c.kind === 'aborted') { m.aborted = true; m.reason = name(c.first); }
    for (const o of [...c.ops, c.again, { op: 'look' }]) {
      label(o.op);
      if (o.op === 'add') { js += `sig.addEventListener('abort', L[${o.l}]);\n`; if (!m.ls.includes(o.l)) m.ls.push(o.l); } else if (o.op === 'remove') { js += `sig.removeEventListener('abort', L[${o.l}]);\n`; m.ls = m.ls.filter(x => x !== o.l); } else if (o.op === 'other') js += `sig.addEventListener('load', L[${o.l}]); sig.removeEventListener('load', L[${o.l}]);\n`;
      else if (o.op === 'onabort') { js += `sig.onabort = ${o.l === null ? null : `function (e) { says.push(e.type + (this === sig && e.target === sig)); ${o.l % 3 ? '' : 'throw new Error("on")'} }`};\n`; m.on = o.l; } else if (o.op === 'look') { js += 'log.push(LOOK());\n'; log.push(look()); } else {
        js += fire(o.reason) + ';\n';
        abort(o.reason);
      }
    }
    js += 'return [log, __logged, says] })()';
    const r = run(js);
    check(r.ok, 'threw', () => `${js}\ngave ${J(r)}`);
    check(J(r.ok[0]) === J(log), 'calls', () => `${js}\ngave ${J(r.ok[0])}, not ${J(log)}`);
    check(J(r.ok[1]) === J(thrown), 'console', () => `${js}\nlogged ${J(r.ok[1])}, not ${J(thrown)}`);
    check(J(r.ok[2]) === J(Array(onWant).fill('aborttrue')), 'onabort', () => `${js}\ncalled onabort ${J(r.ok[2])}, not ${onWant} times`);
  });
};
