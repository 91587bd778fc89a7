// C10 digest, C11 HMAC, C12 PBKDF2, C13 ECDSA and RSA signatures, C14 random values; against node's crypto.
'use strict';
const crypto = require('crypto');

module.exports = t => {
  const { fc, part, iso, fail, check, label } = t;
  const { J, PRELUDE, anyBytes, fewBytes, kind, bytes, hex } = require('./common.js')(fc);
  const HASHES = { 'SHA-1': 'sha1', 'SHA-256': 'sha256', 'SHA-384': 'sha384', 'SHA-512': 'sha512' };
  const hash = fc.constantFrom(...Object.keys(HASHES));
  const spelled = fc.tuple(hash, fc.constantFrom('as', 'lower', 'object')).map(([h, how]) => ({ h, how }));
  const spell = ({ h, how }) => how === 'lower' ? J(h.toLowerCase()) : how === 'object' ? J({ name: h }) : J(h);
  const s = 'crypto.subtle';
  iso.fresh(PRELUDE);
  const str = v => v === undefined ? 'undefined' : J(v);
  const run = expr => { const r = iso.json(expr); if (r.pending) fail('pending', `${expr.slice(0, 300)} never settles`); return r; };
  /** Whatever a promise of bytes gives: {ok: hex} or {err}. */
  const runX = expr => run(`(async () => { const r = await (${expr}); if (!(r instanceof ArrayBuffer)) throw new Error('not an ArrayBuffer'); return X(r) })()`);
  const expectBytes = (expr, want, sig, what) => {
    const r = runX(expr);
    check('ok' in r, sig + '-refused', () => `${what}: ${r.err}`);
    check(r.ok === hex(want), sig, () => `${what}: ${r.ok}; node says ${hex(want)}`);
  };

  const props = {
    C10() {
      part('digest', 4000, fc.record({ alg: spelled, data: anyBytes, kind }), c => c.data.length > 0, c => {
        expectBytes(`${s}.digest(${spell(c.alg)}, VIEW(${J(c.kind)}, ${J(c.data)}))`,
          crypto.createHash(HASHES[c.alg.h]).update(bytes(c.data)).digest(), 'digest', `digest ${spell(c.alg)} of ${c.kind} ${c.data.slice(0, 80)}`);
      });
      // The input is neither changed nor looked at later.
      part('input', 500, fc.record({ alg: spelled, data: anyBytes, kind, after: fc.boolean() }), c => c.data.length > 2, c => {
        const r = run(`(async () => { const v = VIEW(${J(c.kind)}, ${J(c.data)}); const p = ${s}.digest(${spell(c.alg)}, v);
          const u = v instanceof ArrayBuffer ? new Uint8Array(v) : v; const same = X(u) === ${J(c.data)}; if (${c.after}) u.fill(0x77);
          const one = X(await p); const other = await ${s}.digest(${spell(c.alg)}, H(${J(c.data)})); new Uint8Array(await p).fill(0); return { same, one, other: X(other) } })()`);
        check(r.ok, 'digest-refused', () => `digest: ${r.err}`);
        const want = hex(crypto.createHash(HASHES[c.alg.h]).update(bytes(c.data)).digest());
        check(r.ok.same, 'input-changed', () => `digest changed its input ${c.data.slice(0, 80)}`);
        check(r.ok.one === want && r.ok.other === want, 'input-aliased', () => `digest of ${c.data.slice(0, 80)}, then the buffers were overwritten: ${J(r.ok)}, not ${want}`);
      });
      // Other kinds of data: right or refused. What is not data or not an algorithm: refused.
      const odd = fc.oneof(
        fc.record({ alg: hash, odd: fc.constantFrom('dataview', 'u16', 'i8', 'u8c'), data: fewBytes.map(h => h.slice(0, h.length & ~3)) }),
        fc.record({ alg: hash, value: fc.constantFrom('null', 'undefined', '"abc"', '5', '{}', '[1,2]', '{byteLength: 3}') }),
        fc.record({ bad: fc.constantFrom('"MD5"', '"SHA-224"', '"SHA256"', '""', '"sha"', '{}', 'null', 'undefined', '{name: "MD5"}', '"SHA-512/256"', '5'), data: fewBytes }));
      part('odd', 300, odd, () => true, c => {
        const alg = c.bad || J(c.alg), v = c.value || `VIEW(${J(c.odd || 'whole')}, ${J(c.data)})`;
        const r = runX(`${s}.digest(${alg}, ${v})`);
        if ('err' in r) return;
        check(c.odd, 'accepted', () => `digest(${alg}, ${v}) gave ${r.ok}`);
        check(r.ok === hex(crypto.createHash(HASHES[c.alg]).update(bytes(c.data)).digest()), 'digest', () => `digest(${alg}, ${v}) gave ${r.ok}`);
      });
      // Many at once.
      part('many', 60, fc.array(fc.record({ alg: spelled, data: anyBytes }), { minLength: 2, maxLength: 20 }), () => true, cs => {
        const r = run(`Promise.all([${cs.map(c => `${s}.digest(${spell(c.alg)}, H(${J(c.data)})).then(X)`)}])`);
        check(r.ok, 'digest-refused', () => `digest: ${r.err}`);
        cs.forEach((c, i) => check(r.ok[i] === hex(crypto.createHash(HASHES[c.alg.h]).update(bytes(c.data)).digest()), 'digest', () => `digest ${i} of ${cs.length} at once is ${r.ok[i]}`));
      });
    },

    C11() {
      const key = (c, data = `VIEW(${J(c.kkind)}, ${J(c.key)})`) => `await ${s}.importKey('raw', ${data}, {name: 'HMAC', hash: ${spell(c.alg)}}, ${!!c.ext}, ['sign', 'verify'])`;
      const base = { alg: spelled, key: anyBytes, kkind: kind, data: anyBytes, kind, obj: fc.boolean() };
      const alg = c => c.obj ? '{name: "HMAC"}' : '"HMAC"';
      const mac = c => crypto.createHmac(HASHES[c.alg.h], bytes(c.key)).update(bytes(c.data)).digest();
      part('sign', 2500, fc.record(base), c => c.data.length > 0 && c.key.length > 0, c => {
        expectBytes(`(async () => { const k = ${key(c)}; return ${s}.sign(${alg(c)}, k, VIEW(${J(c.kind)}, ${J(c.data)})) })()`, mac(c), 'sign',
          `HMAC ${spell(c.alg)} with the key ${c.kkind} ${c.key.slice(0, 80)} of ${c.kind} ${c.data.slice(0, 80)}`);
      });
      // A signature that differs from the right one in anything must be refused.
      const change = fc.oneof(fc.constant({ t: 'none' }), fc.record({ t: fc.constant('flip'), at: fc.nat(2000), bit: fc.nat(7) }),
        fc.record({ t: fc.constant('cut'), n: fc.integer({ min: 1, max: 64 }) }), fc.record({ t: fc.constant('more'), n: fc.integer({ min: 1, max: 64 }) }),
        fc.record({ t: fc.constantFrom('data', 'key', 'otherhash', 'zero', 'empty'), at: fc.nat(5000), bit: fc.nat(7), h: hash }));
      part('verify', 4000, fc.record({ ...base, skind: kind, change }), c => c.change.t !== 'none', c => {
        let sig = Buffer.from(mac(c)), want = true, data = c.data, k = c.key;
        const ch = c.change;
        const flip = h => { const b = bytes(h); if (!b.length) return '01'; b[ch.at % b.length] ^= 1 << ch.bit; return hex(b); };
        if (ch.t === 'flip') { sig[ch.at % sig.length] ^= 1 << ch.bit; want = false; }
        if (ch.t === 'cut') { sig = sig.subarray(0, Math.max(0, sig.length - ch.n)); want = false; }
        if (ch.t === 'more') { sig = Buffer.concat([sig, Buffer.alloc(ch.n)]); want = false; }
        if (ch.t === 'data') { data = flip(data); want = false; }
        if (ch.t === 'key') { k = flip(k.length ? k : ''); }
        if (ch.t === 'otherhash') { sig = crypto.createHmac(HASHES[ch.h], bytes(c.key)).update(bytes(c.data)).digest(); }
        if (ch.t === 'zero') sig = Buffer.alloc(sig.length);
        if (ch.t === 'empty') sig = Buffer.alloc(0);
        want = sig.equals(crypto.createHmac(HASHES[c.alg.h], bytes(k)).update(bytes(data)).digest());
        const c2 = { ...c, key: k };
        const r = run(`(async () => { const k = ${key(c2)}; return ${s}.verify(${alg(c)}, k, VIEW(${J(c.skind)}, ${J(hex(sig))}), VIEW(${J(c.kind)}, ${J(data)})) })()`);
        label(`verify ${ch.t}: ${want}`);
        check(r.ok === want, want ? 'verify-refused' : 'verify-accepted', () => `verify says ${str(r.ok)} ${r.err || ''}, not ${want} (${J(ch)})`);
      });
      // Keys are independent, and fixed when imported.
      part('keys', 500, fc.record({ keys: fc.array(fc.record({ alg: spelled, key: fewBytes, kkind: kind, ext: fc.boolean() }), { minLength: 1, maxLength: 5 }),
        uses: fc.array(fc.tuple(fc.nat(4), fewBytes), { minLength: 1, maxLength: 8 }), wipe: fc.boolean() }), c => c.keys.length > 1, c => {
        const r = run(`(async () => { const ks = [], raws = []; ${c.keys.map(k => `{ const v = VIEW(${J(k.kkind)}, ${J(k.key)}); raws.push(v instanceof ArrayBuffer ? new Uint8Array(v) : v); ks.push(${key(k, 'v')}) }`).join('\n')}
          if (${c.wipe}) raws.forEach(r => r.fill(0x5a));
          const out = []; for (const [i, d] of ${J(c.uses)}) out.push(X(await ${s}.sign('HMAC', ks[i % ks.length], H(d))));
          return { out, keys: ks.map(k => [k.type, k.extractable, k.algorithm.name, [...k.usages], k instanceof CryptoKey]) } })()`);
        check(r.ok, 'keys-refused', () => r.err);
        c.uses.forEach(([i, d], n) => {
          const k = c.keys[i % c.keys.length];
          const want = hex(crypto.createHmac(HASHES[k.alg.h], bytes(k.key)).update(bytes(d)).digest());
          check(r.ok.out[n] === want, c.wipe ? 'key-aliased' : 'keys-mixed', () => `signature ${n} with key ${i % c.keys.length} is ${r.ok.out[n]}, not ${want}${c.wipe ? ' (the bytes given to importKey were overwritten afterwards)' : ''}`);
        });
        r.ok.keys.forEach((k, i) => check(J(k) === J(['secret', c.keys[i].ext, 'HMAC', ['sign', 'verify'], true]), 'key-object', () => `key ${i} says ${J(k)}`));
      });
      // A key of another algorithm is no HMAC key: its bytes may be public.
      const other = fc.constantFrom('rsa-public', 'rsa-private', 'ecdsa-public', 'ecdsa-private', 'pbkdf2');
      part('confusion', 100, fc.record({ other, material: fewBytes, data: fewBytes, verify: fc.boolean() }), () => true, c => {
        const rsa = `{name: 'RSASSA-PKCS1-v1_5', hash: 'SHA-256'}`, ec = `{name: 'ECDSA', namedCurve: 'P-256', hash: {name: 'SHA-256'}}`;
        const imp = { 'rsa-public': `'spki', M, ${rsa}`, 'rsa-private': `'pkcs8', M, ${rsa}`, 'ecdsa-public': `'raw', M, ${ec}`, 'ecdsa-private': `'pkcs8', M, ${ec}`, pbkdf2: `'raw', M, 'PBKDF2'` }[c.other];
        const k = run(`(async () => { globalThis.K = null; globalThis.K = await ${s}.importKey(${imp.replace('M', `H(${J(c.material)})`)}, false, ['sign', 'verify']) })()`);
        if ('err' in k) { label('refused at import'); return; }
        const mac = hex(crypto.createHmac('sha256', bytes(c.material)).update(bytes(c.data)).digest());
        const r = c.verify ? run(`${s}.verify('HMAC', K, H(${J(mac)}), H(${J(c.data)}))`) : run(`${s}.sign('HMAC', K, H(${J(c.data)})).then(X)`);
        check('err' in r || r.ok === false, 'confusion', () => `HMAC ${c.verify ? 'verify' : 'sign'} with a key of ${c.other} (${c.material}) gave ${str(r.ok)}`);
      });
      part('odd', 150, fc.record({ what: fc.constantFrom("importKey('jwk', H('00'), {name: 'HMAC', hash: 'SHA-256'}, false, ['sign'])", "importKey('raw', 'text', {name: 'HMAC', hash: 'SHA-256'}, false, ['sign'])",
        "importKey('raw', null, {name: 'HMAC', hash: 'SHA-256'}, false, ['sign'])", "importKey('raw', H('00'), {name: 'HMACX', hash: 'SHA-256'}, false, ['sign'])",
        "sign('HMAC', {}, H('00'))", "sign('HMAC', null, H('00'))", "importKey('raw', H('00'), {name: 'HMAC', hash: 'MD5'}, false, ['sign']).then(k => crypto.subtle.sign('HMAC', k, H('00')))",
        "importKey('raw', H('00'), {name: 'HMAC', hash: 'SHA-256'}, false, ['sign']).then(k => crypto.subtle.sign('HMAC', k, 'text'))",
        "importKey('raw', H('00'), {name: 'HMAC', hash: 'SHA-256'}, false, ['sign']).then(k => crypto.subtle.sign('HMAX', k, H('00')))",
        ...['null', 'undefined', '5', '[1]', '{}', "'text'"].flatMap(j => [`importKey('raw', ${j}, {name: 'HMAC', hash: 'SHA-256'}, false, ['sign'])`, `importKey(${j}, H('00'), {name: 'HMAC', hash: 'SHA-256'}, false, ['sign'])`,
          `importKey('raw', H('00'), ${j}, false, ['sign'])`, `verify('HMAC', ${j}, H('00'), H('00'))`, `sign(${j}, HMACKEY, H('00'))`, `verify(${j}, HMACKEY, H('00'), H('00'))`, `verify('HMAC', HMACKEY, ${j}, H('00'))`, `verify('HMAC', HMACKEY, H('00'), ${j})`, `sign('HMAC', HMACKEY, ${j})`])) }), () => true, c => {
        const r = run(`(async () => { const HMACKEY = await ${s}.importKey('raw', H('00'), {name: 'HMAC', hash: 'SHA-256'}, false, ['sign', 'verify']); return ${s}.${c.what} })()`);
        check('err' in r, 'accepted', () => `${c.what} gave ${str(r.ok)}`);
      });
    },

    C12() {
      const base = { alg: spelled, pass: anyBytes, pkind: kind, salt: fewBytes, skind: kind, iterations: fc.oneof(fc.integer({ min: 1, max: 60 }), fc.integer({ min: 100, max: 2000 })), n: fc.oneof(fc.integer({ min: 1, max: 80 }), fc.constantFrom(16, 20, 32, 48, 64, 65, 128, 200)) };
      const derive = (c, bits) => `(async () => { const v = VIEW(${J(c.pkind)}, ${J(c.pass)}); const k = await ${s}.importKey('raw', v, ${c.obj ? '{name: "PBKDF2"}' : '"PBKDF2"'}, false, ['deriveBits']);
        if (${!!c.wipe}) (v instanceof ArrayBuffer ? new Uint8Array(v) : v).fill(0x5a);
        return ${s}.deriveBits({name: 'PBKDF2', salt: VIEW(${J(c.skind)}, ${J(c.salt)}), iterations: ${c.iterations}, hash: ${spell(c.alg)}}, k, ${bits}) })()`;
      part('derive', 1500, fc.record({ ...base, obj: fc.boolean(), wipe: fc.boolean() }), c => c.n > 1 && c.iterations > 1, c => {
        expectBytes(derive(c, c.n * 8), crypto.pbkdf2Sync(bytes(c.pass), bytes(c.salt), c.iterations, c.n, HASHES[c.alg.h]), c.wipe ? 'derive-aliased' : 'derive',
          `PBKDF2 ${spell(c.alg)} of ${c.pass.slice(0, 60)}, salt ${c.salt}, ${c.iterations} iterations, ${c.n} bytes${c.wipe ? ' (the password was overwritten after the import)' : ''}`);
      });
      // What cannot be given exactly is refused: not all lengths are whole bytes, and so on.
      part('odd', 400, fc.oneof(
        fc.record({ ...base, bits: fc.integer({ min: 1, max: 600 }).filter(n => n % 8).map(String) }),
        fc.record({ ...base, bits: fc.constantFrom('-8', 'NaN', '"abc"', '12.5', 'undefined') }),
        fc.record({ ...base, bits: fc.constant('64'), bad: fc.constantFrom('0', '-1', 'NaN', '"abc"', 'undefined', 'null', '4294967296', '4294967297', '0.5') })), () => true, c => {
        const expr = derive(c.bad ? { ...c, iterations: c.bad } : c, c.bits);
        const r = runX(expr);
        check('err' in r, c.bad ? 'iterations-accepted' : 'length-accepted', () => `deriveBits of ${c.bits} bits with ${c.bad || c.iterations} iterations gave ${r.ok}`);
      });
      part('wrong-key', 80, fc.record({ k: fc.constantFrom("importKey('raw', M, {name: 'HMAC', hash: 'SHA-256'}, false, ['sign'])", "importKey('pkcs8', M, {name: 'RSASSA-PKCS1-v1_5', hash: 'SHA-256'}, false, ['sign'])"), m: fewBytes, alg: spelled }), () => true, c => {
        const r = runX(`(async () => ${s}.deriveBits({name: 'PBKDF2', salt: H('00'), iterations: 1, hash: ${spell(c.alg)}}, await ${s}.${c.k.replace('M', `H(${J(c.m)})`)}, 64))()`);
        check('err' in r, 'confusion', () => `deriveBits with a key of another algorithm gave ${r.ok}`);
      });
      const junk = fc.constantFrom('null', 'undefined', '5', '[1, 2]', '{}', 'new Map()', '{byteLength: 3}', '() => 1', 'true');
      const malformed = fc.oneof(
        fc.record({ what: fc.constant('data'), junk }), fc.record({ what: fc.constant('salt'), junk: fc.oneof(junk, fc.constant('"salt"')) }),
        fc.record({ what: fc.constant('format'), junk: fc.constantFrom('"jwk"', '"RAW"', '"pkcs8"', '"spki"', '""', 'undefined', 'null', '5') }),
        fc.record({ what: fc.constant('alg'), junk: fc.constantFrom('"HMAC"', '{name: "HKDF", salt: A.salt, iterations: 1, hash: A.hash}', '{...A, name: "ECDH"}', '{...A, name: undefined}', '{...A, name: ""}', '"PBKDF2"', '{}', 'undefined', 'null', '5') }),
        fc.record({ what: fc.constant('key'), junk: fc.oneof(junk, fc.constantFrom('{algorithm: {name: "PBKDF2"}}', '{type: "secret", algorithm: {}}', '"key"')) }),
        fc.record({ what: fc.constant('hash'), junk: fc.oneof(junk.filter(j => j !== 'new Map()'), fc.constantFrom('"MD5"', '"SHA-224"', '""', '{name: "nope"}', '{name: 5}')) }));
      part('malformed', 250, malformed, () => true, c => {
        const at = (what, right) => c.what === what ? c.junk : right;
        const r = runX(`(async () => { let A = {name: 'PBKDF2', salt: ${at('salt', "H('01')")}, iterations: 2, hash: ${at('hash', "'SHA-256'")}};
          const k = await ${s}.importKey(${at('format', "'raw'")}, ${at('data', "H('02')")}, 'PBKDF2', false, ['deriveBits']); return ${s}.deriveBits(${at('alg', 'A')}, ${at('key', 'k')}, 64) })()`);
        check('err' in r, 'malformed-accepted', () => `deriveBits with ${c.what} ${c.junk} gave ${r.ok}`);
        const t = runX(`(async () => ${s}.deriveBits({name: 'PBKDF2', salt: H('01'), iterations: 2, hash: 'SHA-256'}, await ${s}.importKey('raw', H('02'), 'PBKDF2', false, ['deriveBits']), 64))()`);
        check(t.ok === hex(crypto.pbkdf2Sync(bytes('02'), bytes('01'), 2, 8, 'sha256')), 'malformed-stays', () => `after deriveBits with ${c.what} ${c.junk}: ${str(t.ok ?? t.err)}`);
      });
      part('text', 100, fc.record({ text: fc.string({ unit: 'grapheme', maxLength: 30 }), alg: spelled }), c => c.text.length > 0, c => {
        expectBytes(`(async () => ${s}.deriveBits({name: 'PBKDF2', salt: H('0102'), iterations: 3, hash: ${spell(c.alg)}}, await ${s}.importKey('raw', ${J(c.text)}, 'PBKDF2', false, ['deriveBits']), 256))()`,
          crypto.pbkdf2Sync(Buffer.from(c.text), Buffer.from([1, 2]), 3, 32, HASHES[c.alg.h]), 'derive-text', `PBKDF2 of the text ${J(c.text)}`);
      });
    },

    C13() {
      const EC = `{name: 'ECDSA', namedCurve: 'P-256'}`, ECS = `{name: 'ECDSA', hash: {name: 'SHA-256'}}`;
      const ecPair = crypto.generateKeyPairSync('ec', { namedCurve: 'P-256' });
      const raw = k => { const j = k.export({ format: 'jwk' }); return Buffer.concat([Buffer.from([4]), Buffer.from(j.x, 'base64url'), Buffer.from(j.y, 'base64url')]); };
      const fromRaw = b => crypto.createPublicKey({ format: 'jwk', key: { kty: 'EC', crv: 'P-256', x: b.subarray(1, 33).toString('base64url'), y: b.subarray(33).toString('base64url') } });
      const ok = (r, sig, what) => { check('ok' in r, sig, () => `${what}: ${r.err}`); return r.ok; };
      part('ecdsa-generated', 300, fc.record({ data: anyBytes, kind, other: anyBytes, flip: fc.nat(511), usages: fc.constantFrom(['sign', 'verify'], ['sign'], ['verify']) }), c => c.data.length > 0, c => {
        const r = ok(run(`(async () => { const p = await ${s}.generateKey(${EC}, true, ${J(c.usages)});
          const d = VIEW(${J(c.kind)}, ${J(c.data)}); const sig = await ${s}.sign(${ECS}, p.privateKey, d); const bad = new Uint8Array(sig.slice(0)); bad[${c.flip >> 3}] ^= ${1 << (c.flip & 7)};
          return { sig: X(sig), pub: X(p.publicKey.__keyData), good: await ${s}.verify(${ECS}, p.publicKey, sig, d), flipped: await ${s}.verify(${ECS}, p.publicKey, bad, d),
            cut: await ${s}.verify(${ECS}, p.publicKey, sig.slice(0, 63), d), other: await ${s}.verify(${ECS}, p.publicKey, sig, H(${J(c.other)})),
            types: [p.privateKey.type, p.publicKey.type, p.privateKey instanceof CryptoKey, p.privateKey.algorithm.name, [...p.privateKey.usages], [...p.publicKey.usages]] } })()`), 'ecdsa-refused', 'ECDSA');
        check(r.good === true, 'ecdsa-roundtrip', 'a signature is not verified with its own key pair');
        check(r.flipped === false && r.cut === false, 'ecdsa-accepted', () => `a changed signature is accepted: ${J(r)}`);
        check(r.other === (c.other === c.data), 'ecdsa-accepted', () => `the signature of ${c.data.slice(0, 60)} verifies ${c.other.slice(0, 60)}: ${r.other}`);
        check(r.sig.length === 128 && crypto.verify('sha256', bytes(c.data), { key: fromRaw(bytes(r.pub)), dsaEncoding: 'ieee-p1363' }, bytes(r.sig)), 'ecdsa-node', () => `node does not verify ${r.sig}`);
        check(J(r.types) === J(['private', 'public', true, 'ECDSA', c.usages.filter(u => u === 'sign'), c.usages.filter(u => u === 'verify')]), 'key-object', () => `the keys say ${J(r.types)}`);
      });
      part('ecdsa-imported', 300, fc.record({ data: anyBytes, kind, flip: fc.nat(511), fresh: fc.boolean(), bad: fc.constantFrom('none', 'sig', 'data', 'key'), wipe: fc.boolean() }), c => c.bad !== 'none', c => {
        const pair = c.fresh ? crypto.generateKeyPairSync('ec', { namedCurve: 'P-256' }) : ecPair;
        const sig = crypto.sign('sha256', bytes(c.data), { key: pair.privateKey, dsaEncoding: 'ieee-p1363' });
        let data = c.data, key = pair;
        if (c.bad === 'sig') sig[c.flip >> 3] ^= 1 << (c.flip & 7);
        if (c.bad === 'data') data = c.data + '00';
        if (c.bad === 'key') key = crypto.generateKeyPairSync('ec', { namedCurve: 'P-256' });
        const r = ok(run(`(async () => { const pb = H(${J(hex(raw(key.publicKey)))}), sb = H(${J(hex(pair.privateKey.export({ format: 'der', type: 'pkcs8' })))}); const pub = await ${s}.importKey('raw', pb, ${EC}, true, ['verify']);
          const priv = await ${s}.importKey('pkcs8', sb, ${EC}, false, ['sign']); if (${c.wipe}) { pb.fill(1); sb.fill(2) }
          return { v: await ${s}.verify(${ECS}, pub, H(${J(hex(sig))}), VIEW(${J(c.kind)}, ${J(data)})), sig: X(await ${s}.sign(${ECS}, priv, VIEW(${J(c.kind)}, ${J(c.data)}))) } })()`), c.wipe ? 'key-aliased' : 'ecdsa-refused', 'ECDSA with imported keys');
        check(r.v === (c.bad === 'none'), c.bad === 'none' ? (c.wipe ? 'key-aliased' : 'ecdsa-verify') : 'ecdsa-accepted', () => `verify of node's signature (changed: ${c.bad}) says ${r.v}`);
        check(crypto.verify('sha256', bytes(c.data), { key: pair.publicKey, dsaEncoding: 'ieee-p1363' }, bytes(r.sig)), 'ecdsa-node', () => `node does not verify ${r.sig}`);
      });
      // A hash that was asked for is used, or refused.
      part('ecdsa-hash', 60, fc.record({ data: fewBytes, h: fc.constantFrom('SHA-1', 'SHA-256', 'SHA-384', 'SHA-512', 'MD5'), obj: fc.boolean() }), c => c.h !== 'SHA-256', c => {
        const alg = `{name: 'ECDSA', hash: ${c.obj ? J({ name: c.h }) : J(c.h)}}`;
        const r = run(`(async () => { const p = await ${s}.generateKey(${EC}, true, ['sign', 'verify']); return [X(await ${s}.sign(${alg}, p.privateKey, H(${J(c.data)}))), X(p.publicKey.__keyData)] })()`);
        if ('err' in r) { check(c.h !== 'SHA-256', 'ecdsa-refused', () => r.err); label('hash refused'); } else {
          check(HASHES[c.h] && crypto.verify(HASHES[c.h], bytes(c.data), { key: fromRaw(bytes(r.ok[1])), dsaEncoding: 'ieee-p1363' }, bytes(r.ok[0])), 'ecdsa-hash', () => `sign with ${alg} gave a signature that is not one with ${c.h}`);
        }
        const q = crypto.sign('sha256', bytes(c.data), { key: ecPair.privateKey, dsaEncoding: 'ieee-p1363' });
        const v = run(`(async () => ${s}.verify(${alg}, await ${s}.importKey('raw', H(${J(hex(raw(ecPair.publicKey)))}), ${EC}, true, ['verify']), H(${J(hex(q))}), H(${J(c.data)})))()`);
        check(c.h === 'SHA-256' ? v.ok === true : v.ok !== true, 'ecdsa-hash', () => `verify with ${alg} of a signature made with SHA-256 says ${str(v.ok)}`);
      });

      const rsaKeys = [2048, 2048, 3072].map(n => crypto.generateKeyPairSync('rsa', { modulusLength: n }));
      const RSA = h => `{name: 'RSASSA-PKCS1-v1_5', hash: ${J(h)}}`;
      const rh = fc.constantFrom('SHA-256', 'SHA-384', 'SHA-512');
      const pubForm = fc.constantFrom('spki', 'pkcs1'), privForm = fc.constantFrom('pkcs8', 'pkcs1');
      const pubDer = (k, f) => hex(k.publicKey.export({ format: 'der', type: f })), privDer = (k, f) => hex(k.privateKey.export({ format: 'der', type: f }));
      part('rsa', 250, fc.record({ k: fc.nat(2), h: rh, data: anyBytes, kind, flip: fc.nat(2047), bad: fc.constantFrom('none', 'sig', 'cut', 'data', 'key', 'hash'), pub: pubForm, priv: privForm, wipe: fc.boolean(), h2: rh }), c => c.bad !== 'none', c => {
        const pair = rsaKeys[c.k];
        let sig = crypto.sign(HASHES[c.h], bytes(c.data), { key: pair.privateKey, padding: crypto.constants.RSA_PKCS1_PADDING });
        const right = hex(sig);
        let data = c.data, key = pair, want = true;
        if (c.bad === 'sig') { sig[c.flip >> 3] ^= 1 << (c.flip & 7); want = false; }
        if (c.bad === 'cut') { sig = sig.subarray(0, sig.length - 1); want = false; }
        if (c.bad === 'data') { data = c.data + '00'; want = false; }
        if (c.bad === 'key') { key = rsaKeys[(c.k + 1) % 3]; want = false; }
        if (c.bad === 'hash') want = c.h === c.h2;
        const r = ok(run(`(async () => { const pb = H(${J(pubDer(key, c.pub))}), sb = H(${J(privDer(pair, c.priv))}); const pub = await ${s}.importKey('spki', pb, ${RSA(c.bad === 'hash' ? c.h2 : c.h)}, true, ['verify']);
          const priv = await ${s}.importKey('pkcs8', sb, ${RSA(c.h)}, false, ['sign']); if (${c.wipe}) { pb.fill(1); sb.fill(2) }
          return { v: await ${s}.verify('RSASSA-PKCS1-v1_5', pub, H(${J(hex(sig))}), VIEW(${J(c.kind)}, ${J(data)})), sig: X(await ${s}.sign({name: 'RSASSA-PKCS1-v1_5'}, priv, VIEW(${J(c.kind)}, ${J(c.data)}))) } })()`), c.wipe ? 'key-aliased' : `rsa-refused-${c.priv}`, `RSA with a private key as ${c.priv}`);
        check(r.v === want, want ? (c.wipe ? 'key-aliased' : `rsa-verify-${c.pub}`) : 'rsa-accepted', () => `verify of node's signature (public key as ${c.pub}, changed: ${c.bad}) says ${r.v}`);
        check(r.sig === right, 'rsa-sign', () => `the signature is ${r.sig.slice(0, 64)}..., node's is ${right.slice(0, 64)}...`);
      });
      // Keys of another kind are refused.
      part('confusion', 120, fc.record({ op: fc.constantFrom('sign', 'verify'), want: fc.constantFrom('ECDSA', 'RSASSA-PKCS1-v1_5'), have: fc.constantFrom('hmac', 'pbkdf2', 'ec-pub', 'ec-priv', 'rsa-pub', 'rsa-priv'), data: fewBytes }), () => true, c => {
        const right = (c.want === 'ECDSA' ? 'ec-' : 'rsa-') + (c.op === 'sign' ? 'priv' : 'pub');
        if (c.have === right) return;
        const imp = { hmac: `'raw', H('0102'), {name: 'HMAC', hash: 'SHA-256'}`, pbkdf2: `'raw', H('0102'), 'PBKDF2'`, 'ec-pub': `'raw', H(${J(hex(raw(ecPair.publicKey)))}), ${EC}`, 'ec-priv': `'pkcs8', H(${J(hex(ecPair.privateKey.export({ format: 'der', type: 'pkcs8' })))}), ${EC}`,
          'rsa-pub': `'spki', H(${J(pubDer(rsaKeys[0], 'spki'))}), ${RSA('SHA-256')}`, 'rsa-priv': `'pkcs8', H(${J(privDer(rsaKeys[0], 'pkcs8'))}), ${RSA('SHA-256')}` }[c.have];
        const alg = `{name: ${J(c.want)}, hash: 'SHA-256'}`;
        const sig = c.want === 'ECDSA' ? crypto.sign('sha256', bytes(c.data), { key: ecPair.privateKey, dsaEncoding: 'ieee-p1363' }) : crypto.sign('sha256', bytes(c.data), rsaKeys[0].privateKey);
        const r = run(`(async () => { const k = await ${s}.importKey(${imp}, false, ['sign', 'verify']); return ${c.op === 'sign' ? `X(await ${s}.sign(${alg}, k, H(${J(c.data)})))` : `${s}.verify(${alg}, k, H(${J(hex(sig))}), H(${J(c.data)}))`} })()`);
        check('err' in r || r.ok === false, 'confusion', () => `${c.want} ${c.op} with a key of ${c.have} gave ${str(r.ok)}`);
      });
      // What is no key data, format, algorithm, key or data is refused, and every call is answered.
      const junk = fc.constantFrom('"text"', 'null', 'undefined', '5', '[1, 2]', '{}', 'Symbol.iterator', 'new Map()', '{byteLength: 3}', '() => 1');
      const fam = fc.constantFrom('ec', 'rsa');
      const malformed = fc.oneof(
        fc.record({ what: fc.constant('import-data'), fam, priv: fc.boolean(), junk }),
        fc.record({ what: fc.constant('import-format'), fam, priv: fc.boolean(), junk: fc.constantFrom('"jwk"', '"RAW"', '"Pkcs8"', '"der"', '""', 'undefined', 'null', '5') }),
        fc.record({ what: fc.constant('import-alg'), fam, priv: fc.boolean(), junk: fc.constantFrom('"ECDH"', '{name: "RSA-OAEP"}', '{name: "RSA-PSS"}', '{}', 'undefined', 'null', '5', '{name: 5}', '{name: ""}', '{name: "ECDSA", namedCurve: "P-999"}') }),
        fc.record({ what: fc.constant('generate'), junk: fc.constantFrom('"ECDH"', '{}', 'undefined', 'null', '5', '{name: "nope"}', '{name: "ECDSA", namedCurve: "P-999"}') }),
        fc.record({ what: fc.constantFrom('data', 'key'), fam, op: fc.constantFrom('sign', 'verify'), junk }),
        fc.record({ what: fc.constant('signature'), fam, op: fc.constant('verify'), junk }),
        fc.record({ what: fc.constant('alg'), fam, op: fc.constantFrom('sign', 'verify'), junk: fc.constantFrom('"ECDH"', '{name: "RSA-PSS"}', '{}', 'undefined', 'null', '5', '{name: 5}') }),
        fc.record({ what: fc.constant('key'), fam, op: fc.constantFrom('sign', 'verify'), junk: fc.constantFrom('{type: "private"}', '{type: "public", algorithm: {}}', '{type: "private", algorithm: {name: A.name}}', '{type: "public", algorithm: {name: A.name, hash: {name: "SHA-256"}}}', '{type: "public", algorithm: {name: A.name, hash: {name: "SHA-256"}}, __keyData: "x"}') }));
      part('malformed', 400, malformed, () => true, c => {
        const ec = c.fam === 'ec', alg = ec ? EC : RSA('SHA-256'), salg = ec ? ECS : `{name: 'RSASSA-PKCS1-v1_5'}`;
        const priv = c.priv ?? c.op === 'sign';
        const der = ec ? (priv ? ecPair.privateKey.export({ format: 'der', type: 'pkcs8' }) : raw(ecPair.publicKey)) : bytes((priv ? privDer : pubDer)(rsaKeys[0], priv ? 'pkcs8' : 'spki'));
        const fmt = priv ? 'pkcs8' : ec ? 'raw' : 'spki';
        const sig = ec ? crypto.sign('sha256', Buffer.from('x'), { key: ecPair.privateKey, dsaEncoding: 'ieee-p1363' }) : crypto.sign('sha256', Buffer.from('x'), rsaKeys[0].privateKey);
        const I = (f, d, a) => `await ${s}.importKey(${f}, ${d}, ${a}, false, ['sign', 'verify'])`, D = `H(${J(hex(der))})`, S = `H(${J(hex(sig))})`, X = c.junk;
        const use = (a, k, sg, d) => `const A = ${salg}; const k = ${k === 'K' ? I(J(fmt), D, alg) : k}; return await ${s}.${c.op}(${c.op === 'sign' ? [a, 'k', d] : [a, 'k', sg, d]})`;
        const code = {
          'import-data': () => `return ${I(J(fmt), X, alg)}`, 'import-format': () => `return ${I(X, D, alg)}`, 'import-alg': () => `return ${I(J(fmt), D, X)}`,
          generate: () => `return await ${s}.generateKey(${X}, true, ['sign', 'verify'])`,
          data: () => use('A', 'K', S, X), signature: () => use('A', 'K', X, `H('78')`), alg: () => use(X, 'K', S, `H('78')`), key: () => use('A', X, S, `H('78')`),
        }[c.what]();
        const r = run(`(async () => { const r = await (async () => { ${code} })(); return r === false ? 'no' : 'accepted: ' + (r instanceof ArrayBuffer ? 'bytes' : typeof r) })()`);
        check('err' in r || r.ok === 'no', 'malformed-accepted', () => `${c.what} ${X} (${c.fam || ''} ${c.op || ''}) gave ${r.ok}`);
        // Nothing of it stays: the next signature is right.
        const t = run(`(async () => { const k = ${I(`'pkcs8'`, `H(${J(privDer(rsaKeys[0], 'pkcs8'))})`, RSA('SHA-256'))}; return X(await ${s}.sign('RSASSA-PKCS1-v1_5', k, H('78'))) })()`);
        check(t.ok === hex(crypto.sign('sha256', Buffer.from('x'), rsaKeys[0].privateKey)), 'malformed-stays', () => `after ${c.what} ${X}, signing gave ${str(t.ok ?? t.err)}`);
      });
      // Damaged keys are refused; nothing breaks.
      part('damaged', 150, fc.record({ which: fc.constantFrom('ec-pub', 'ec-priv', 'rsa-pub', 'rsa-priv'), cut: fc.nat(1200), at: fc.nat(1200), x: fc.integer({ min: 1, max: 255 }), how: fc.constantFrom('cut', 'change', 'junk'), junk: fewBytes }), () => true, c => {
        const der = { 'ec-pub': raw(ecPair.publicKey), 'ec-priv': ecPair.privateKey.export({ format: 'der', type: 'pkcs8' }), 'rsa-pub': bytes(pubDer(rsaKeys[0], 'spki')), 'rsa-priv': bytes(privDer(rsaKeys[0], 'pkcs8')) }[c.which];
        let d = Buffer.from(der);
        if (c.how === 'cut') d = d.subarray(0, c.cut % d.length);
        if (c.how === 'change') d[c.at % d.length] ^= c.x;
        if (c.how === 'junk') d = bytes(c.junk);
        const alg = c.which[0] === 'e' ? EC : RSA('SHA-256'), salg = c.which[0] === 'e' ? ECS : `'RSASSA-PKCS1-v1_5'`;
        const fmt = c.which === 'ec-pub' ? 'raw' : c.which === 'rsa-pub' ? 'spki' : 'pkcs8';
        const priv = c.which.endsWith('priv');
        const sig = c.which[0] === 'e' ? crypto.sign('sha256', Buffer.from('x'), { key: ecPair.privateKey, dsaEncoding: 'ieee-p1363' }) : crypto.sign('sha256', Buffer.from('x'), rsaKeys[0].privateKey);
        const r = run(`(async () => { const k = await ${s}.importKey('${fmt}', H(${J(hex(d))}), ${alg}, false, ['sign', 'verify']); return ${priv ? `X(await ${s}.sign(${salg}, k, H('78')))` : `${s}.verify(${salg}, k, H(${J(hex(sig))}), H('78'))`} })()`);
        if (!priv && c.how !== 'change') check(r.ok !== true, 'damaged-accepted', () => `a damaged key (${c.how}) verifies`);
        if (priv && 'ok' in r) {
          // A change in what does not matter (say, a parameter the signer does not need) is fine if the signature is right.
          const good = c.which[0] === 'e' ? crypto.verify('sha256', Buffer.from('x'), { key: ecPair.publicKey, dsaEncoding: 'ieee-p1363' }, bytes(r.ok)) : crypto.verify('sha256', Buffer.from('x'), rsaKeys[0].publicKey, bytes(r.ok));
          check(good, 'damaged-accepted', () => `a damaged private key (${c.how} ${c.at % d.length}) signs wrongly`);
        }
      });
    },

    C14() {
      const types = { Uint8Array: 1, Int8Array: 1, Uint8ClampedArray: 1, Uint16Array: 2, Int16Array: 2, Uint32Array: 4, Int32Array: 4, BigInt64Array: 8, BigUint64Array: 8 };
      part('fill', 1500, fc.record({ type: fc.oneof({ weight: 6, arbitrary: fc.constant('Uint8Array') }, { weight: 2, arbitrary: fc.constantFrom(...Object.keys(types)) }), n: fc.oneof(fc.nat(40), fc.integer({ min: 100, max: 8000 }), fc.constantFrom(0, 1, 65536)), before: fc.nat(9), after: fc.nat(9) }), c => c.n > 16, c => {
        const k = types[c.type], n = Math.min(c.n, Math.floor(65536 / k));
        const r = run(`(async () => { const b = new Uint8Array(${(c.before + n + c.after) * k}).fill(0xa5); const v = new ${c.type}(b.buffer, ${c.before * k}, ${n}); const out = crypto.getRandomValues(v);
          return { same: out === v, h: X(v), left: b.subarray(0, ${c.before * k}).every(x => x === 0xa5), right: b.subarray(${(c.before + n) * k}).every(x => x === 0xa5), len: v.length } })()`);
        check('ok' in r, 'random-refused', () => `getRandomValues(${c.type} of ${n}): ${r.err}`);
        check(r.ok.same, 'random-result', () => `getRandomValues(${c.type} of ${n}) does not return its argument`);
        check(r.ok.left && r.ok.right && r.ok.len === n, 'random-outside', () => `getRandomValues of a view at ${c.before * k} changed bytes outside the view`);
        const b = bytes(r.ok.h);
        // 16 bytes or more that are all as before, or a long run of equal bytes, are beyond bad luck.
        let longest = 0, cur = 0;
        for (let i = 0; i < b.length; i++) { cur = i && b[i] === b[i - 1] ? cur + 1 : 1; longest = Math.max(longest, cur); }
        check(b.length < 16 || longest < 12, 'random-not-filled', () => `getRandomValues(${c.type} of ${n}) left a run of ${longest} equal bytes`);
        if (b.length >= 4096) {
          const count = new Array(256).fill(0);
          for (const x of b) count[x]++;
          const chi = count.reduce((a, x) => a + (x - b.length / 256) ** 2 / (b.length / 256), 0);
          check(chi < 450, 'random-biased', () => `bytes of getRandomValues(${c.type} of ${n}) are not uniform: chi2 ${chi}`);
        }
      });
      const seen = new Set();
      part('distinct', 300, fc.record({ n: fc.integer({ min: 16, max: 64 }), times: fc.integer({ min: 2, max: 20 }), fresh: fc.boolean() }), () => true, c => {
        if (c.fresh) iso.fresh(PRELUDE);
        const r = run(`Array.from({length: ${c.times}}, () => X(crypto.getRandomValues(new Uint8Array(${c.n}))))`);
        check('ok' in r, 'random-refused', () => r.err);
        for (const h of r.ok) {
          for (const k of [h.slice(0, 32), h.slice(-32)]) {
            if (c.n > 16 || k === h.slice(0, 32)) { check(!seen.has(k) || c.n === 16 && r.ok.filter(x => x === h).length === 1 && h.slice(0, 32) === h.slice(-32) && !seen.has(k), 'random-repeated', () => `the random bytes ${k} came twice`); }
          }
          seen.add(h.slice(0, 32));
          seen.add(h.slice(-32));
        }
      });
      part('uuid', 300, fc.record({ times: fc.integer({ min: 1, max: 40 }), fresh: fc.boolean() }), () => true, c => {
        if (c.fresh) iso.fresh(PRELUDE);
        const r = run(`Array.from({length: ${c.times}}, () => crypto.randomUUID())`);
        check('ok' in r, 'uuid-refused', () => r.err);
        for (const u of r.ok) {
          check(/^[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}$/.test(u), 'uuid-form', () => `randomUUID gave ${u}`);
          check(!seen.has(u), 'uuid-repeated', () => `randomUUID gave ${u} twice`);
          seen.add(u);
        }
      });
      part('odd', 40, fc.record({ v: fc.constantFrom('new Float64Array(4)', 'new Float32Array(4)', 'new DataView(new ArrayBuffer(8))', 'new ArrayBuffer(8)', '[1, 2]', 'null', '"abc"', '', '5') }), () => true, c => {
        const r = run(`(async () => { const v = ${c.v || 'undefined'}; const out = crypto.getRandomValues(v); return out === v })()`);
        // The Web's rule is a TypeMismatchError; what must not happen is a success that filled nothing.
        check(!(r.ok === true), 'random-accepted', () => `getRandomValues(${c.v}) claims success`);
      });
    },
  };
  props[t.prop]();
};
