// Stand-in for '@metaplex-foundation/umi': keys, signers, builders of transactions and of account
// queries, as documented. Nothing here talks to a network.
import { createHash } from 'crypto';
import { base58 } from './base58';

export type PublicKey<T = any> = any;
export type Pda = any;
export type Signer = any;
export type Context = any;
export type Program = any;
export type AccountMeta = any;
export type Option<T> = any;
export type OptionOrNullable<T> = any;
export type Account<T> = any;
export type RpcAccount = any;

// keys
export const defaultPublicKey = () => '11111111111111111111111111111111';
export const isPublicKey = (v: any) => {
  if (typeof v !== 'string' || v.length < 32 || v.length > 44) return false;
  try {
    return base58.serialize(v).length === 32;
  } catch {
    return false;
  }
};
export const isPda = (v: any) => Array.isArray(v) && v.length === 2 && typeof v[1] === 'number' && isPublicKey(v[0]);
export const isSigner = (v: any) => !!v && typeof v === 'object' && 'publicKey' in v && 'signMessage' in v;
export const publicKey = (input: any, includePda: boolean = true): any => {
  const key = (() => {
    if (typeof input === 'string') return input;
    if (Array.isArray(input) && isPda(input)) return includePda ? input : input[0];
    if (input && typeof input === 'object' && 'publicKey' in input) return input.publicKey;
    if (input && typeof input.toBase58 === 'function') return input.toBase58();
    return base58.deserialize(input)[0];
  })();
  if (!Array.isArray(key) && !isPublicKey(key)) throw new Error(`The provided public key is invalid: ${String(key)}`);
  return key;
};
export const publicKeyBytes = (k: any) => base58.serialize(k);
export const samePublicKey = (a: any, b: any) => publicKey(a, false) === publicKey(b, false);
export const uniquePublicKeys = (l: any[]) => [...new Set(l)];
const unsupported = async () => {
  throw new Error('signing is not part of this stand-in');
};
export const createNoopSigner = (k: any) => ({ publicKey: k, signMessage: unsupported, signTransaction: unsupported, signAllTransactions: unsupported });
export const createSignerFromKeypair = (_c: any, k: any) => createNoopSigner(k.publicKey);
export const generateSigner = (c: any) => createSignerFromKeypair(c, c.eddsa.generateKeypair());
export const signerIdentity = (s: any) => ({ install: (u: any) => { u.identity = s; u.payer = s; } });

// options
export const some = (value: any) => ({ __option: 'Some', value });
export const none = () => ({ __option: 'None' });
export const isOption = (v: any) => !!(v && typeof v === 'object' && '__option' in v);
export const isSome = (o: any) => o.__option === 'Some';
export const isNone = (o: any) => o.__option === 'None';
export const wrapNullable = (v: any) => (v !== null && v !== undefined ? some(v) : none());
export const unwrapOption = (o: any, f?: () => any) => (isSome(o) ? o.value : f ? f() : null);

// curve
const P = (1n << 255n) - 19n;
const mod = (a: bigint) => ((a % P) + P) % P;
const pow = (b: bigint, e: bigint) => {
  let r = 1n;
  let x = mod(b);
  let n = e;
  while (n > 0n) {
    if (n & 1n) r = (r * x) % P;
    x = (x * x) % P;
    n >>= 1n;
  }
  return r;
};
const D = mod(-121665n * pow(121666n, P - 2n));
const onCurve = (b: Uint8Array) => {
  let y = 0n;
  for (let i = 31; i >= 0; i -= 1) y = (y << 8n) | BigInt(i === 31 ? b[i] & 0x7f : b[i]);
  y = mod(y);
  const y2 = (y * y) % P;
  const x2 = mod((y2 - 1n) * pow(D * y2 + 1n, P - 2n));
  return x2 === 0n || pow(x2, (P - 1n) / 2n) === 1n;
};
const pdas = new Map<string, [string, number]>();
const findPda = (program: any, seeds: Uint8Array[]): [string, number] => {
  const id = publicKey(program, false);
  const name = [id, ...seeds.map((s) => Buffer.from(s).toString('hex'))].join(' ');
  const known = pdas.get(name);
  if (known) return [...known];
  for (let bump = 255; bump >= 0; bump -= 1) {
    const h = createHash('sha256');
    seeds.forEach((s) => {
      if (s.length > 32) throw new Error('Max seed length exceeded');
      h.update(s);
    });
    h.update(Uint8Array.from([bump]));
    h.update(base58.serialize(id));
    h.update('ProgramDerivedAddress');
    const k = Uint8Array.from(h.digest());
    if (!onCurve(k)) {
      const out: [string, number] = [base58.deserialize(k)[0], bump];
      if (pdas.size > 5000) pdas.clear();
      pdas.set(name, out);
      return [...out];
    }
  }
  throw new Error('no address');
};

// programs
const createPrograms = (programs: Map<string, any>, bindings: Map<string, string>): any => {
  const resolve = (name: string): string => {
    let n = name;
    for (let i = 0; i < 10 && bindings.has(n); i += 1) n = bindings.get(n) as string;
    return n;
  };
  const find = (name: string) => {
    const n = resolve(name);
    return [...programs.values()].find((p) => p.name === n || p.publicKey === n);
  };
  const self: any = {
    has: (name: string) => !!find(name),
    get: (name: string) => {
      const p = find(name);
      if (!p) throw new Error(`The provided program name [${name}] is not recognized in the program repository.`);
      return p;
    },
    getPublicKey: (name: string, fallback?: any) => {
      const p = find(name);
      if (p) return p.publicKey;
      const n = resolve(name);
      if (isPublicKey(n)) return n;
      if (fallback !== undefined) return fallback;
      throw new Error(`The provided program name [${name}] is not recognized in the program repository.`);
    },
    all: () => [...programs.values()],
    add: (p: any, overrides = true) => {
      if (overrides || !programs.has(p.name)) programs.set(p.name, p);
    },
    bind: (a: string, b: string) => {
      bindings.set(a, b);
    },
    unbind: (a: string) => bindings.delete(a),
    clone: () => createPrograms(new Map(programs), new Map(bindings)),
    resolveError: () => null,
  };
  return self;
};
export const createContext = (identity: any, payer: any, fresh: () => string, rpc: any = {}): any => {
  const c: any = {
    identity,
    payer,
    rpc,
    programs: createPrograms(new Map(), new Map()),
    eddsa: {
      generateKeypair: () => ({ publicKey: fresh(), secretKey: new Uint8Array(64) }),
      findPda,
      isOnCurve: (k: any) => onCurve(base58.serialize(publicKey(k, false))),
    },
    transactions: {},
    use: (p: any) => {
      p.install(c);
      return c;
    },
  };
  return c;
};

// transactions
export const TRANSACTION_SIZE_LIMIT = 1232;
const sizeOf = (items: any[], payer: any): number => {
  const keys = new Map<string, boolean>();
  if (payer) keys.set(payer, true);
  let ix = 0;
  const short = (n: number) => (n < 128 ? 1 : n < 16384 ? 2 : 3);
  items.forEach(({ instruction: i }) => {
    if (!keys.has(i.programId)) keys.set(i.programId, false);
    i.keys.forEach((k: any) => keys.set(k.pubkey, !!keys.get(k.pubkey) || k.isSigner));
    ix += 1 + short(i.keys.length) + i.keys.length + short(i.data.length) + i.data.length;
  });
  const signers = [...keys.values()].filter((s) => s).length;
  return short(signers) + 64 * signers + 1 + 3 + short(keys.size) + 32 * keys.size + 32 + short(items.length) + ix + 1;
};
const itemsOf = (x: any): any[] => {
  if (Array.isArray(x)) return x.flatMap(itemsOf);
  return x instanceof TransactionBuilder ? x.items : [x];
};
export class TransactionBuilder {
  constructor(readonly items: any[] = [], readonly options: any = {}) {}
  empty() {
    return new TransactionBuilder([], this.options);
  }
  setItems(x: any) {
    return new TransactionBuilder(itemsOf(x), this.options);
  }
  prepend(x: any) {
    return new TransactionBuilder([...itemsOf(x), ...this.items], this.options);
  }
  append(x: any) {
    return new TransactionBuilder([...this.items, ...itemsOf(x)], this.options);
  }
  add(x: any) {
    return this.append(x);
  }
  mapInstructions(f: (x: any) => any) {
    return new TransactionBuilder(this.items.map(f), this.options);
  }
  addRemainingAccounts(meta: any, index?: number) {
    const metas = Array.isArray(meta) ? meta : [meta];
    const at = index ?? this.items.length - 1;
    const keys = metas.map((m) => ('pubkey' in m ? m : { pubkey: m.signer.publicKey, isSigner: true, isWritable: m.isWritable }));
    const signers = metas.flatMap((m) => ('pubkey' in m ? [] : [m.signer]));
    return this.mapItems((it, i) =>
      i === at ? { ...it, instruction: { ...it.instruction, keys: [...it.instruction.keys, ...keys] }, signers: [...it.signers, ...signers] } : it
    );
  }
  private mapItems(f: (x: any, i: number) => any) {
    return new TransactionBuilder(this.items.map(f), this.options);
  }
  splitByIndex(i: number) {
    return [new TransactionBuilder(this.items.slice(0, i), this.options), new TransactionBuilder(this.items.slice(i), this.options)];
  }
  unsafeSplitByTransactionSize(context: any) {
    return this.items.reduce(
      (out: TransactionBuilder[], item: any) => {
        const last = out.pop() as TransactionBuilder;
        const more = last.add(item);
        if (more.fitsInOneTransaction(context)) out.push(more);
        else out.push(last, last.empty().add(item));
        return out;
      },
      [this.empty()]
    );
  }
  setFeePayer(feePayer: any) {
    return new TransactionBuilder(this.items, { ...this.options, feePayer });
  }
  getFeePayer(context: any) {
    return this.options.feePayer ?? context.payer;
  }
  getInstructions() {
    return this.items.map((i) => i.instruction);
  }
  getSigners(context: any) {
    return [this.getFeePayer(context), ...this.items.flatMap((i) => i.signers)];
  }
  getTransactionSize(context: any) {
    return sizeOf(this.items, this.getFeePayer(context).publicKey);
  }
  minimumTransactionsRequired(context: any) {
    return Math.ceil(this.getTransactionSize(context) / TRANSACTION_SIZE_LIMIT);
  }
  fitsInOneTransaction(context: any) {
    return this.minimumTransactionsRequired(context) === 1;
  }
}
export const transactionBuilder = (items: any[] = []) => new TransactionBuilder(items);
const buildersOf = (x: any): any[] => {
  if (Array.isArray(x)) return x.flatMap(buildersOf);
  return x instanceof TransactionBuilderGroup ? x.builders : [x];
};
export class TransactionBuilderGroup {
  constructor(readonly builders: any[] = [], readonly options: any = {}) {}
  prepend(x: any) {
    return new TransactionBuilderGroup([...buildersOf(x), ...this.builders], this.options);
  }
  append(x: any) {
    return new TransactionBuilderGroup([...this.builders, ...buildersOf(x)], this.options);
  }
  add(x: any) {
    return this.append(x);
  }
  sequential() {
    return new TransactionBuilderGroup(this.builders, { ...this.options, parallel: false });
  }
  parallel() {
    return new TransactionBuilderGroup(this.builders, { ...this.options, parallel: true });
  }
  isParallel() {
    return this.options.parallel ?? false;
  }
  merge() {
    return new TransactionBuilder(this.builders.flatMap((b) => b.items));
  }
}
export const transactionBuilderGroup = (x: any[] = []) => new TransactionBuilderGroup(buildersOf(x));

// accounts
export const assertAccountExists = (a: any, name?: string) => {
  if (!a.exists) throw new Error(`The account of type [${name}] was not found at the provided address [${a.publicKey}].`);
};
export const deserializeAccount = (raw: any, serializer: any) => {
  const { data, publicKey: key, ...rest } = raw;
  try {
    const [parsed] = serializer.deserialize(data);
    return { publicKey: key, header: rest, ...parsed };
  } catch (error: any) {
    throw new Error(`The account at the provided address [${key}] is not of the expected type [${serializer.description}]: ${error.message}`);
  }
};
export class GpaBuilder {
  constructor(readonly context: any, readonly programId: any, readonly options: any = {}) {}
  with(o: any) {
    return new GpaBuilder(this.context, this.programId, { ...this.options, ...o });
  }
  registerFields<T>(fields: any) {
    return this.with({ fields });
  }
  registerFieldsFromStruct(fields: [string, any][]) {
    let at: number | null = 0;
    const out: any = {};
    fields.forEach(([k, s]) => {
      out[k] = [at, s];
      at = at === null || s.fixedSize === null ? null : at + s.fixedSize;
    });
    return this.with({ fields: out });
  }
  deserializeUsing<T>(f: any) {
    return this.with({ deserialize: f });
  }
  where(offset: any, bytes: Uint8Array) {
    if (typeof offset !== 'number') throw new Error('offset unknown');
    return this.with({ filters: [...(this.options.filters ?? []), { memcmp: { offset, bytes } }] });
  }
  whereField(name: string, value: any) {
    const f = this.options.fields?.[name];
    if (!f) throw new Error(`Field [${name}] is not defined.`);
    return this.where(f[0], f[1].serialize(value));
  }
  whereSize(n: number) {
    return this.with({ filters: [...(this.options.filters ?? []), { dataSize: n }] });
  }
}
export const gpaBuilder = (context: any, programId: any) => new GpaBuilder(context, programId);

// errors
export class ProgramError extends Error {
  override readonly name: string = 'ProgramError';
  constructor(message: string, readonly program: any, readonly cause?: any) {
    super(message);
  }
}
export const unwrapOptionRecursively = (o: any, f?: () => any): any => {
  if (!o || typeof o !== 'object' || o instanceof Uint8Array) return o;
  if ('__option' in o) return isSome(o) ? unwrapOptionRecursively(o.value, f) : f ? f() : null;
  if (Array.isArray(o)) return o.map((x) => unwrapOptionRecursively(x, f));
  return Object.fromEntries(Object.entries(o).map(([k, v]) => [k, unwrapOptionRecursively(v, f)]));
};
export const lamports = (n: any) => ({ basisPoints: BigInt(n), identifier: 'SOL', decimals: 9 });
