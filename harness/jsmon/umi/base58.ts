const A = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
const I: Record<string, bigint> = {};
[...A].forEach((c, i) => {
  I[c] = BigInt(i);
});
const enc = new Map<string, string>();
const dec = new Map<string, Uint8Array>();
const encode = (b: Uint8Array): string => {
  const h = Buffer.from(b).toString('hex');
  const known = enc.get(h);
  if (known !== undefined) return known;
  let z = 0;
  while (z < b.length && b[z] === 0) z += 1;
  let n = h ? BigInt(`0x${h}`) : 0n;
  let s = '';
  while (n > 0n) {
    s = A[Number(n % 58n)] + s;
    n /= 58n;
  }
  s = '1'.repeat(z) + s;
  if (enc.size > 20000) enc.clear();
  enc.set(h, s);
  return s;
};
const decode = (s: string): Uint8Array => {
  const known = dec.get(s);
  if (known !== undefined) return known.slice();
  let z = 0;
  while (z < s.length && s[z] === '1') z += 1;
  let n = 0n;
  for (const c of s) {
    if (I[c] === undefined) throw new Error(`Expected a string of base 58, got [${s}].`);
    n = n * 58n + I[c];
  }
  let h = n === 0n ? '' : n.toString(16);
  if (h.length % 2) h = `0${h}`;
  const out = Uint8Array.from([...new Uint8Array(z), ...Buffer.from(h, 'hex')]);
  if (dec.size > 20000) dec.clear();
  dec.set(s, out);
  return out.slice();
};
export const base58 = {
  description: 'base58',
  fixedSize: null,
  maxSize: null,
  serialize: (v: string) => decode(v),
  deserialize: (b: Uint8Array, o = 0): [string, number] => [encode(b.slice(o)), b.length],
};
