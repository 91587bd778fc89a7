// Shared by the specs: bytes as hex strings in cases, and what goes around a case in the isolate.
'use strict';
const hex = b => Buffer.from(b).toString('hex');
const bytes = h => Buffer.from(h, 'hex');

/** Helpers inside the isolate: H(hex) -> Uint8Array; X(ArrayBuffer or view) -> hex; VIEW(kind, hex) -> a BufferSource. */
const PRELUDE = `
globalThis.H = s => { const b = new Uint8Array(s.length / 2); for (let i = 0; i < b.length; i++) b[i] = parseInt(s.substr(2 * i, 2), 16); return b };
globalThis.X = v => { const b = v instanceof ArrayBuffer ? new Uint8Array(v) : new Uint8Array(v.buffer, v.byteOffset, v.byteLength); let s = ''; for (const x of b) s += (x < 16 ? '0' : '') + x.toString(16); return s };
globalThis.VIEW = (kind, s) => {
  const b = H(s);
  if (kind === 'whole') return b;
  if (kind === 'buffer') return b.buffer;
  const pad = 8, big = new Uint8Array(b.length + 2 * pad).fill(0xa5);
  big.set(b, pad);
  if (kind === 'sub') return big.subarray(pad, pad + b.length);
  if (kind === 'dataview') return new DataView(big.buffer, pad, b.length);
  if (kind === 'u16') return new Uint16Array(big.buffer, pad, b.length / 2);
  if (kind === 'i8') return new Int8Array(big.buffer, pad, b.length);
  if (kind === 'u8c') return new Uint8ClampedArray(big.buffer, pad, b.length);
  throw new Error('kind ' + kind);
};
`;

module.exports = fc => {
  const J = JSON.stringify;
  /** Sizes around the block sizes of hashes, and a few long ones. */
  const size = fc.oneof({ weight: 6, arbitrary: fc.nat(70) }, { weight: 3, arbitrary: fc.integer({ min: 100, max: 300 }) },
    { weight: 2, arbitrary: fc.constantFrom(0, 1, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 255, 256, 257) },
    { weight: 1, arbitrary: fc.integer({ min: 1000, max: 20000 }) });
  const blob = s => s.chain(n => n > 400
    ? fc.tuple(fc.nat(255), fc.nat(255)).map(([a, b]) => Buffer.from(Uint8Array.from({ length: n }, (_, i) => a + i * (b | 1) + (i >> 8))).toString('hex'))
    : fc.uint8Array({ minLength: n, maxLength: n }).map(hex));
  const anyBytes = blob(size);
  const fewBytes = blob(fc.nat(40));
  const kind = fc.constantFrom('whole', 'buffer', 'sub');
  return { J, hex, bytes, PRELUDE, size, blob, anyBytes, fewBytes, kind };
};
