// Stand-in for '@metaplex-foundation/umi/serializers' (the package is not available offline):
// the encodings its documentation describes, with its checks.
import { base58 } from './base58';
export { base58 };

export type Serializer<T = any, U = T> = {
  description: string;
  fixedSize: number | null;
  maxSize: number | null;
  serialize: (value: any) => Uint8Array;
  deserialize: (buffer: Uint8Array, offset?: number) => [any, number];
};
export type GetDataEnumKind<T, K> = any;
export type GetDataEnumKindContent<T, K> = any;

export const mergeBytes = (parts: Uint8Array[]): Uint8Array => {
  const n = parts.reduce((a, p) => a + p.length, 0);
  const out = new Uint8Array(n);
  let o = 0;
  parts.forEach((p) => {
    out.set(p, o);
    o += p.length;
  });
  return out;
};
export const padBytes = (b: Uint8Array, n: number): Uint8Array => {
  if (b.length >= n) return b;
  const out = new Uint8Array(n);
  out.set(b);
  return out;
};
export const fixBytes = (b: Uint8Array, n: number): Uint8Array => padBytes(b.slice(0, n), n);

const notEmpty = (what: string, b: Uint8Array, o: number) => {
  if (b.slice(o).length === 0) throw new Error(`Serializer [${what}] cannot deserialize empty buffers.`);
};
const enough = (what: string, b: Uint8Array, n: number) => {
  if (b.length < n) throw new Error(`Serializer [${what}] expected ${n} bytes, got ${b.length}.`);
};

const int = (name: string, size: number, signed = false) => (options: any = {}): Serializer => ({
  description: options.description ?? name,
  fixedSize: size,
  maxSize: size,
  serialize: (value: any) => {
    if (typeof value !== 'number' && typeof value !== 'bigint' && typeof value !== 'string') {
      throw new Error(`Serializer [${name}] expected a number, got ${typeof value}`);
    }
    let v = BigInt(value);
    const bits = BigInt(size * 8);
    const min = signed ? -(1n << (bits - 1n)) : 0n;
    const max = signed ? (1n << (bits - 1n)) - 1n : (1n << bits) - 1n;
    if (v < min || v > max) throw new Error(`Serializer [${name}] expected number to be between ${min} and ${max}, got ${v}.`);
    if (v < 0n) v += 1n << bits;
    const out = new Uint8Array(size);
    for (let i = 0; i < size; i += 1) {
      out[i] = Number((v >> BigInt(8 * i)) & 255n);
    }
    if (options.endian === 'be') out.reverse();
    return out;
  },
  deserialize: (b: Uint8Array, o = 0) => {
    notEmpty(name, b, o);
    const s = b.slice(o, o + size);
    enough(name, s, size);
    if (options.endian === 'be') s.reverse();
    let v = 0n;
    for (let i = size - 1; i >= 0; i -= 1) v = (v << 8n) | BigInt(s[i]);
    if (signed && v >> BigInt(size * 8 - 1)) v -= 1n << BigInt(size * 8);
    return [size > 4 ? v : Number(v), o + size];
  },
});
export const u8 = int('u8', 1);
export const u16 = int('u16', 2);
export const u32 = int('u32', 4);
export const u64 = int('u64', 8);
export const u128 = int('u128', 16);
export const i8 = int('i8', 1, true);
export const i16 = int('i16', 2, true);
export const i32 = int('i32', 4, true);
export const i64 = int('i64', 8, true);
export const i128 = int('i128', 16, true);

export const mapSerializer = <A = any, B = any, C = any, D = any>(s: Serializer, unmap: (v: any) => any, map?: (v: any, b: Uint8Array, o: number) => any): Serializer => ({
  description: s.description,
  fixedSize: s.fixedSize,
  maxSize: s.maxSize,
  serialize: (v: any) => s.serialize(unmap(v)),
  deserialize: (b: Uint8Array, o = 0) => {
    const [v, n] = s.deserialize(b, o);
    return [map ? map(v, b, o) : v, n];
  },
});
export const fixSerializer = (s: Serializer, n: number, description?: string): Serializer => ({
  description: description ?? `fixed(${n}, ${s.description})`,
  fixedSize: n,
  maxSize: n,
  serialize: (v: any) => fixBytes(s.serialize(v), n),
  deserialize: (b: Uint8Array, o = 0) => {
    let x = b.slice(o, o + n);
    enough('fixSerializer', x, n);
    if (s.fixedSize !== null) x = fixBytes(x, s.fixedSize);
    const [v] = s.deserialize(x, 0);
    return [v, o + n];
  },
});
export const reverseSerializer = (s: Serializer): Serializer => ({
  ...s,
  serialize: (v: any) => s.serialize(v).reverse(),
  deserialize: (b: Uint8Array, o = 0) => {
    const n = s.fixedSize as number;
    const [v] = s.deserialize(b.slice(o, o + n).reverse());
    return [v, o + n];
  },
});

export const removeNullCharacters = (v: string) => v.replace(/\u0000/g, '');
export const utf8: Serializer = {
  description: 'utf8',
  fixedSize: null,
  maxSize: null,
  serialize: (v: string) => new TextEncoder().encode(v),
  deserialize: (b: Uint8Array, o = 0) => [removeNullCharacters(new TextDecoder().decode(b.slice(o))), b.length],
};
export const base16: Serializer = {
  description: 'base16',
  fixedSize: null,
  maxSize: null,
  serialize: (v: string) => Uint8Array.from(Buffer.from(v, 'hex')),
  deserialize: (b: Uint8Array, o = 0) => [Buffer.from(b.slice(o)).toString('hex'), b.length],
};
export const base64: Serializer = {
  description: 'base64',
  fixedSize: null,
  maxSize: null,
  serialize: (v: string) => Uint8Array.from(Buffer.from(v, 'base64')),
  deserialize: (b: Uint8Array, o = 0) => [Buffer.from(b.slice(o)).toString('base64'), b.length],
};

const prefixed = (what: string, size: any, content: Serializer): Serializer => ({
  description: what,
  fixedSize: null,
  maxSize: null,
  serialize: (v: any) => {
    const c = content.serialize(v);
    return mergeBytes([size.serialize(c.length), c]);
  },
  deserialize: (b: Uint8Array, o = 0) => {
    notEmpty(what, b, o);
    const [n, p] = size.deserialize(b, o);
    const len = Number(n);
    const c = b.slice(p, p + len);
    enough(what, c, len);
    const [v] = content.deserialize(c);
    return [v, p + len];
  },
});
export const string = (options: any = {}): Serializer => {
  const size = options.size ?? u32();
  const encoding = options.encoding ?? utf8;
  if (size === 'variable') return { ...encoding, description: options.description ?? 'string' };
  if (typeof size === 'number') return fixSerializer(encoding, size, options.description ?? 'string');
  return prefixed(options.description ?? 'string', size, encoding);
};
const raw: Serializer = {
  description: 'bytes',
  fixedSize: null,
  maxSize: null,
  serialize: (v: any) => {
    if (!(v instanceof Uint8Array)) throw new Error('bytes expected');
    return new Uint8Array(v);
  },
  deserialize: (b: Uint8Array, o = 0) => [b.slice(o), b.length],
};
export const bytes = (options: any = {}): Serializer => {
  const size = options.size ?? 'variable';
  if (size === 'variable') return raw;
  if (typeof size === 'number') return fixSerializer(raw, size);
  return prefixed('bytes', size, raw);
};
export const bool = (options: any = {}): Serializer => {
  const size = options.size ?? u8();
  return {
    description: 'bool',
    fixedSize: size.fixedSize,
    maxSize: size.fixedSize,
    serialize: (v: any) => size.serialize(v ? 1 : 0),
    deserialize: (b: Uint8Array, o = 0) => {
      notEmpty('bool', b, o);
      const [v, n] = size.deserialize(b, o);
      return [Number(v) === 1, n];
    },
  };
};
export const unit = (options: any = {}): Serializer => ({
  description: 'unit',
  fixedSize: 0,
  maxSize: 0,
  serialize: () => new Uint8Array(),
  deserialize: (_b: Uint8Array, o = 0) => [undefined, o],
});
export const array = (item: Serializer, options: any = {}): Serializer => {
  const size = options.size ?? u32();
  return {
    description: options.description ?? 'array',
    fixedSize: typeof size === 'number' && item.fixedSize !== null ? size * item.fixedSize : null,
    maxSize: null,
    serialize: (v: any[]) => {
      if (typeof size === 'number' && v.length !== size) throw new Error(`Expected [array] to have ${size} items, got ${v.length}.`);
      const prefix = typeof size === 'object' ? [size.serialize(v.length)] : [];
      return mergeBytes([...prefix, ...v.map((x) => item.serialize(x))]);
    },
    deserialize: (b: Uint8Array, o = 0) => {
      const out: any[] = [];
      let at = o;
      if (size === 'remainder') {
        while (at < b.length) {
          const [v, n] = item.deserialize(b, at);
          out.push(v);
          at = n;
        }
        return [out, at];
      }
      let count = size;
      if (typeof size === 'object') {
        if (b.slice(o).length === 0) return [[], o];
        const [n, p] = size.deserialize(b, o);
        count = Number(n);
        at = p;
      }
      for (let i = 0; i < count; i += 1) {
        const [v, n] = item.deserialize(b, at);
        out.push(v);
        at = n;
      }
      return [out, at];
    },
  };
};
export const tuple = (items: Serializer[]): Serializer => ({
  description: 'tuple',
  fixedSize: null,
  maxSize: null,
  serialize: (v: any[]) => mergeBytes(items.map((s, i) => s.serialize(v[i]))),
  deserialize: (b: Uint8Array, o = 0) => {
    let at = o;
    const out = items.map((s) => {
      const [v, n] = s.deserialize(b, at);
      at = n;
      return v;
    });
    return [out, at];
  },
});
export const struct = <T = any>(fields: [string, Serializer][], options: any = {}): Serializer => ({
  description: options.description ?? 'struct',
  fixedSize: fields.reduce((a: number | null, [, s]) => (a === null || s.fixedSize === null ? null : a + s.fixedSize), 0),
  maxSize: fields.reduce((a: number | null, [, s]) => (a === null || s.maxSize === null ? null : a + s.maxSize), 0),
  serialize: (v: any) => mergeBytes(fields.map(([k, s]) => s.serialize(v[k]))),
  deserialize: (b: Uint8Array, o = 0) => {
    let at = o;
    const out: any = {};
    fields.forEach(([k, s]) => {
      const [v, n] = s.deserialize(b, at);
      at = n;
      out[k] = v;
    });
    return [out, at];
  },
});
const isOption = (v: any) => !!(v && typeof v === 'object' && '__option' in v);
export const option = (item: Serializer, options: any = {}): Serializer => {
  const prefix = options.prefix ?? u8();
  return {
    description: 'option',
    fixedSize: null,
    maxSize: null,
    serialize: (v: any) => {
      const x = isOption(v) ? v : v !== null && v !== undefined ? { __option: 'Some', value: v } : { __option: 'None' };
      if (x.__option === 'None') return prefix.serialize(0);
      return mergeBytes([prefix.serialize(1), item.serialize(x.value)]);
    },
    deserialize: (b: Uint8Array, o = 0) => {
      if (b.slice(o).length === 0) return [{ __option: 'None' }, o];
      const [p, at] = prefix.deserialize(b, o);
      if (Number(p) === 0) return [{ __option: 'None' }, at];
      const [v, n] = item.deserialize(b, at);
      return [{ __option: 'Some', value: v }, n];
    },
  };
};
export const nullable = (item: Serializer, options: any = {}): Serializer =>
  mapSerializer(option(item, options), (v) => v, (v) => (v.__option === 'None' ? null : v.value));
export const scalarEnum = <T = any>(constructor: any, options: any = {}): Serializer => {
  const size = options.size ?? u8();
  const names = Object.keys(constructor).filter((k) => Number.isNaN(Number(k)));
  const values = names.map((k) => constructor[k]);
  const numeric = values.every((v) => typeof v === 'number');
  const min = numeric ? Math.min(...values) : 0;
  const max = numeric ? Math.max(...values) : names.length - 1;
  const fail = (v: any) => {
    throw new Error(`Enum variant ${String(v)} is invalid: expected one of [${names.join(', ')}]`);
  };
  return {
    description: options.description ?? 'enum',
    fixedSize: size.fixedSize,
    maxSize: size.maxSize,
    serialize: (v: any) => {
      let n: any = v;
      if (typeof v === 'string') {
        n = names.includes(v) ? (numeric ? constructor[v] : names.indexOf(v)) : values.indexOf(v);
      }
      if (typeof n !== 'number' || Number.isNaN(n) || n < min || n > max) fail(v);
      return size.serialize(n);
    },
    deserialize: (b: Uint8Array, o = 0) => {
      notEmpty('enum', b, o);
      const [x, n] = size.deserialize(b, o);
      const v = Number(x);
      if (v < min || v > max) fail(v);
      return [numeric ? v : constructor[names[v]], n];
    },
  };
};
export const dataEnum = <T = any>(variants: [string, Serializer][], options: any = {}): Serializer => {
  const size = options.size ?? u8();
  return {
    description: options.description ?? 'dataEnum',
    fixedSize: null,
    maxSize: null,
    serialize: (v: any) => {
      const i = variants.findIndex(([k]) => v.__kind === k);
      if (i < 0) throw new Error(`Invalid data enum variant ${v.__kind}`);
      return mergeBytes([size.serialize(i), variants[i][1].serialize(v)]);
    },
    deserialize: (b: Uint8Array, o = 0) => {
      notEmpty('dataEnum', b, o);
      const [d, at] = size.deserialize(b, o);
      const f = variants[Number(d)];
      if (!f) throw new Error(`Enum discriminator ${d} out of range`);
      const [v, n] = f[1].deserialize(b, at);
      return [{ __kind: f[0], ...(v ?? {}) }, n];
    },
  };
};
export const publicKey = (options: any = {}): Serializer => ({
  description: 'publicKey',
  fixedSize: 32,
  maxSize: 32,
  serialize: (v: any) => {
    let k = v;
    if (typeof k === 'object' && k !== null && 'publicKey' in k) k = k.publicKey;
    if (Array.isArray(k)) [k] = k;
    const b = base58.serialize(k);
    if (b.length !== 32) throw new Error(`The provided public key is invalid: ${k}`);
    return b;
  },
  deserialize: (b: Uint8Array, o = 0) => {
    notEmpty('publicKey', b, o);
    const s = b.slice(o, o + 32);
    enough('publicKey', s, 32);
    return [base58.deserialize(s)[0], o + 32];
  },
});
export const map = (k: Serializer, v: Serializer, options: any = {}): Serializer =>
  mapSerializer(array(tuple([k, v]), options), (m: any) => [...m.entries()], (l: any) => new Map(l));
export const set = (item: Serializer, options: any = {}): Serializer =>
  mapSerializer(array(item, options), (m: any) => [...m], (l: any) => new Set(l));
