// Runs the JavaScript clients on requests read from standard input, one JSON document per line, and
// answers with what they produced. All judging happens in the monitor that sends the requests.
import * as asset from '@client/asset';
import * as bridge from '@client/bridge';
import * as proxy from '@client/proxy';
import { createContext, createNoopSigner, TransactionBuilder, TransactionBuilderGroup } from '@metaplex-foundation/umi';
import { createInterface } from 'readline';

const A: any = asset;
const B: any = bridge;
const X: any = proxy;
const hex = (b: any) => Buffer.from(b).toString('hex');
const unhex = (s: string) => Uint8Array.from(Buffer.from(s, 'hex'));

// ---------- extensions: a plain description <-> the objects of the client
const ACCOUNTS = ['Asset', 'Authority', 'Recipient'];
const toRule = (c: any, helper: boolean): any => {
  if (c === 'Empty') return helper ? A.empty() : { type: 'Empty' };
  const [k, v]: [string, any] = Object.entries(c)[0] as any;
  switch (k) {
    case 'And':
    case 'Or': {
      const l = v.map((x: any) => toRule(x, helper));
      return helper ? (k === 'And' ? A.and(l) : A.or(l)) : { type: k, constraints: l };
    }
    case 'Not': {
      const x = toRule(v, helper);
      return helper ? A.not(x) : { type: 'Not', constraint: x };
    }
    case 'OwnedBy':
      return helper ? A.ownedBy(ACCOUNTS[v[0]], v[1]) : { type: 'OwnedBy', account: ACCOUNTS[v[0]], owners: v[1] };
    default:
      return helper ? A.pubkeyMatch(ACCOUNTS[v[0]], v[1]) : { type: 'PubkeyMatch', account: ACCOUNTS[v[0]], pubkeys: v[1] };
  }
};
const fromRule = (c: any): any => {
  switch (c.type) {
    case 'Empty':
      return 'Empty';
    case 'And':
    case 'Or':
      return { [c.type]: c.constraints.map(fromRule) };
    case 'Not':
      return { Not: fromRule(c.constraint) };
    case 'OwnedBy':
      return { OwnedBy: [ACCOUNTS.indexOf(c.account), c.owners] };
    case 'PubkeyMatch':
      return { PubkeyMatch: [ACCOUNTS.indexOf(c.account), c.pubkeys] };
    default:
      throw new Error(`rule ${JSON.stringify(c)}`);
  }
};
// no role is either an empty list or, as accounts are read, the role None
let turn = 0;
const roleList = (m: number) => (m === 0 && (turn += 1) % 2 ? [A.DelegateRole.None] : [1, 2, 4].flatMap((b, i) => (m & b ? [[A.DelegateRole.Transfer, A.DelegateRole.Lock, A.DelegateRole.Burn][i]] : [])));
const roleMask = (l: any[]) =>
  l.reduce((m, r) => m | (r === A.DelegateRole.Transfer ? 1 : r === A.DelegateRole.Lock ? 2 : r === A.DelegateRole.Burn ? 4 : r === A.DelegateRole.None ? 0 : 128), 0);
const NAMES = ['None', 'Attributes', 'Blob', 'Creators', 'Links', 'Metadata', 'Grouping', 'Royalties', 'Manager', 'Proxy', 'Properties', 'Bucket'];

const toExt = (e: any): any => {
  const name = NAMES[e.type];
  const v = e.value;
  const h = e.helper;
  const type = A.ExtensionType[name];
  switch (name) {
    case 'Attributes': {
      const values = v.values.map(([n, x]: any) => ({ name: n, value: x }));
      return h ? A.attributes(values) : { type, values };
    }
    case 'Links': {
      const values = v.values.map(([n, x]: any) => ({ name: n, uri: x }));
      return h ? A.links(values) : { type, values };
    }
    case 'Blob':
      return h ? A.blob(v.contentType, unhex(v.data)) : { type, contentType: v.contentType, data: Array.from(unhex(v.data)) };
    case 'Bucket':
      return h ? A.bucket(unhex(v.data)) : { type, data: Array.from(unhex(v.data)) };
    case 'Creators': {
      const values = v.values.map(([address, verified, share]: any) => ({ address, verified, share }));
      return h ? A.creators(values.map(({ verified, ...x }: any) => x)) : { type, values };
    }
    case 'Metadata': {
      const [symbol, description, uri, imageUri] = v.s;
      if (!h) return { type, symbol, description, uri, imageUri };
      const o: any = { symbol, description, uri, imageUri };
      Object.keys(o).forEach((k) => {
        if (o[k] === '') delete o[k];
      });
      return Object.keys(o).length === 0 ? A.metadata() : A.metadata(o);
    }
    case 'Grouping': {
      if (!h) return { type, size: BigInt(v.size), maxSize: BigInt(v.maxSize), delegate: v.delegate };
      const max = BigInt(v.maxSize);
      const n: any = max < 1000n ? Number(max) : max;
      if (v.delegate !== null) return A.grouping(n, v.delegate);
      return max === 0n ? A.grouping() : A.grouping(n);
    }
    case 'Royalties': {
      const bp = v.basisPoints.length < 6 ? Number(v.basisPoints) : BigInt(v.basisPoints);
      if (h && v.constraint === 'Empty') return A.royalties(bp);
      const c = toRule(v.constraint, h);
      return h ? A.royalties(bp, c) : { type, basisPoints: bp, constraint: c };
    }
    case 'Manager': {
      const roles = roleList(v.roles);
      if (h && roles.length === 1) return A.manager(v.address, roles[0]);
      return h ? A.manager(v.address, roles) : { type, delegate: { address: v.address, roles } };
    }
    case 'Proxy':
      return { type, program: v.program, seeds: Array.from(unhex(v.seeds)), bump: v.bump, authority: v.authority };
    case 'Properties': {
      const values = v.values.map(([n, t, x]: any) => ({
        name: n,
        type: [A.Type.Text, A.Type.Number, A.Type.Boolean][t],
        value: t === 0 ? x : t === 1 ? BigInt(x) : x === 'true',
      }));
      return h ? A.properties(values.map(({ type: _t, ...x }: any) => x)) : { type, values };
    }
    default:
      throw new Error(`extension ${e.type}`);
  }
};
const fromExt = (e: any): any => {
  const name = A.ExtensionType[e.type];
  const type = NAMES.indexOf(name);
  const value = (() => {
    switch (name) {
      case 'Attributes':
        return { values: e.values.map((x: any) => [x.name, x.value]) };
      case 'Links':
        return { values: e.values.map((x: any) => [x.name, x.uri]) };
      case 'Blob':
        return { contentType: e.contentType, data: hex(e.data) };
      case 'Bucket':
        return { data: hex(e.data) };
      case 'Creators':
        return { values: e.values.map((x: any) => [x.address, x.verified, x.share]) };
      case 'Metadata':
        return { s: [e.symbol, e.description, e.uri, e.imageUri] };
      case 'Grouping':
        return { size: String(e.size), maxSize: String(e.maxSize), delegate: e.delegate };
      case 'Royalties':
        return { basisPoints: String(e.basisPoints), constraint: fromRule(e.constraint) };
      case 'Manager':
        return { address: e.delegate.address, roles: roleMask(e.delegate.roles) };
      case 'Proxy':
        return { program: e.program, seeds: hex(e.seeds), bump: e.bump, authority: e.authority };
      case 'Properties':
        return { values: e.values.map((x: any) => [x.name, [A.Type.Text, A.Type.Number, A.Type.Boolean].indexOf(x.type), String(x.value)]) };
      default:
        throw new Error(`extension ${e.type}`);
    }
  })();
  return { type, value };
};

// ---------- instructions
const account = (a: any): any => {
  if (a === null || a === undefined) return undefined;
  if (a.signer) return createNoopSigner(a.key);
  return a.pda ? [a.key, 255] : a.key;
};
const fresh = (list: string[]) => {
  let i = 0;
  return () => {
    if (i >= list.length) throw new Error('no more keys');
    i += 1;
    return list[i - 1];
  };
};
const contextOf = (q: any, rpc: any = {}) => {
  const c = createContext(q.identity ? createNoopSigner(q.identity) : null, q.payer ? createNoopSigner(q.payer) : null, fresh(q.fresh ?? []), rpc);
  if (q.plugins) {
    c.use(A.niftyAsset());
    c.use(B.niftyBridge());
    c.use(X.niftyProxy());
  }
  // deployed elsewhere
  Object.entries(q.deployed ?? {}).forEach(([name, publicKey]) => c.programs.add({ name, publicKey, getErrorFromCode: () => null, getErrorFromName: () => null, isOnCluster: () => true }));
  return c;
};
const argsOf = (a: any): any => {
  const o: any = {};
  Object.entries(a ?? {}).forEach(([k, v]: any) => {
    switch (k) {
      case 'extension':
        o.extension = toExt(v);
        break;
      case 'extensions':
        o.extensions = v.map(toExt);
        break;
      case 'delegateInput':
        o.delegateInput = v === 'All' ? A.delegateInput('All') : A.delegateInput('Some', { roles: v.map((r: string) => A.DelegateRole[r]) });
        break;
      case 'strategy':
        o.strategy = v === 'Trim' ? A.strategy('Trim') : A.strategy('Extend', { value: v });
        break;
      case 'extensionType':
        o.extensionType = A.ExtensionType[NAMES[v]];
        break;
      case 'standard':
        o.standard = [A.Standard.NonFungible, A.Standard.Managed, A.Standard.Soulbound, A.Standard.Proxied][v];
        break;
      case 'data':
        o.data = unhex(v);
        break;
      default:
        o[k] = v;
    }
  });
  return o;
};
const show = (c: any, r: any) => {
  const builders = r instanceof TransactionBuilderGroup ? r.builders : [r];
  return builders
    .filter((b: any) => b.items.length > 0)
    .map((b: any) => ({
      size: b.getTransactionSize(c),
      signers: b.items.flatMap((i: any) => i.signers.map((s: any) => s.publicKey)),
      ixs: b.items.map(({ instruction: i }: any) => ({ program: i.programId, keys: i.keys.map((k: any) => [k.pubkey, k.isSigner, k.isWritable]), data: hex(i.data) })),
    }));
};

const header = (a: any) => ({
  discriminator: a.discriminator === A.Discriminator.Asset ? 1 : a.discriminator === A.Discriminator.Uninitialized ? 0 : 9,
  state: [A.State.Unlocked, A.State.Locked].indexOf(a.state),
  standard: [A.Standard.NonFungible, A.Standard.Managed, A.Standard.Soulbound, A.Standard.Proxied].indexOf(a.standard),
  mutable: a.mutable,
  owner: a.owner,
  group: a.group,
  authority: a.authority,
  delegate: a.delegate === null ? null : { address: a.delegate.address, roles: roleMask(a.delegate.roles) },
  name: a.name,
});
const raw = (q: any) => ({ publicKey: q.key, data: unhex(q.data), owner: q.owner, lamports: { basisPoints: 1n, identifier: 'SOL', decimals: 9 }, executable: false });
const rpcOf = (accounts: any) => {
  const one = (k: string) => (accounts[k] === undefined ? { exists: false, publicKey: k } : { exists: true, ...raw({ key: k, data: accounts[k], owner: A.ASSET_PROGRAM_ID }) });
  return { getAccount: async (k: any) => one(k), getAccounts: async (l: any[]) => l.map(one) };
};
const whole = (a: any) => ({
  key: a.publicKey,
  header: header(a),
  extensions: a.extensions.map((e: any) => {
    const same = A.getExtension(a, e.type);
    return { ...fromExt(e), found: same !== undefined && JSON.stringify(fromExt(same)) === JSON.stringify(fromExt(e)) };
  }),
});

const handle = async (q: any): Promise<any> => {
  switch (q.op) {
    case 'ix': {
      const c = contextOf(q);
      const client = { asset: A, bridge: B, proxy: X }[q.client as 'asset'];
      const input: any = argsOf(q.args);
      Object.entries(q.accounts).forEach(([k, v]) => {
        const a = account(v);
        if (a !== undefined || q.explicit) input[k] = a;
      });
      const r = client[q.fn](c, input);
      return { txs: show(c, r), parallel: r instanceof TransactionBuilderGroup ? r.isParallel() : false };
    }
    case 'decode':
      return whole(A.deserializeAsset(raw(q)));
    case 'properties': {
      // every property is found by name and type
      const a = A.deserializeAsset(raw(q));
      return q.ask.map(([n, t]: any) => {
        const p = A.getProperty(a, n, [A.Type.Text, A.Type.Number, A.Type.Boolean][t]);
        return p === undefined ? null : [p.name, String(p.value)];
      });
    }
    case 'fetch': {
      const c = contextOf(q, rpcOf(q.accounts));
      const out: any = {};
      const t = async (f: () => Promise<any>) => {
        try {
          return await f();
        } catch (e: any) {
          return 'error';
        }
      };
      const id = (a: any) => (a === null ? null : a === 'error' ? a : [a.publicKey, a.name]);
      // addresses come alone or with their bump
      const at = (k: any, i: number) => (i % 2 ? [k, 254] : k);
      out.one = await Promise.all(q.keys.map(async (k: any, i: number) => id(await t(() => A.fetchAsset(c, at(k, i))))));
      out.safe = await Promise.all(q.keys.map(async (k: any, i: number) => id(await t(() => A.safeFetchAsset(c, at(k, i + 1))))));
      const l = (x: any) => (x === 'error' ? x : x.map(id));
      out.all = l(await t(() => A.fetchAllAsset(c, q.keys.map(at))));
      out.safeAll = l(await t(() => A.safeFetchAllAsset(c, q.keys.map(at))));
      return out;
    }
    case 'fetchVaults': {
      const c = contextOf(q, rpcOf(q.accounts));
      const t = async (f: () => Promise<any>) => {
        try {
          return await f();
        } catch (e: any) {
          return 'error';
        }
      };
      const id = (a: any) => (a === null ? null : a === 'error' ? a : [a.publicKey, a.mint]);
      const each = async (f: (k: any, i: number) => Promise<any>) => Promise.all(q.mints.map(async (m: any, i: number) => id(await t(() => f(m, i)))));
      const l = (x: any) => (x === 'error' ? x : x.map(id));
      // addresses are given with or without their bump
      const at = (m: any, i: number) => {
        const p = B.findVaultPda(c, { mint: m });
        return i % 2 ? p[0] : p;
      };
      return {
        one: await each((m, i) => B.fetchVault(c, at(m, i))),
        safe: await each((m, i) => B.safeFetchVault(c, at(m, i))),
        seeds: await each((m) => B.fetchVaultFromSeeds(c, { mint: m })),
        safeSeeds: await each((m) => B.safeFetchVaultFromSeeds(c, { mint: m })),
        all: l(await t(() => B.fetchAllVault(c, q.mints.map(at)))),
        safeAll: l(await t(() => B.safeFetchAllVault(c, q.mints.map(at)))),
      };
    }
    case 'gpa': {
      const c = contextOf(q);
      let b = q.vault ? B.getVaultGpaBuilder(c) : A.getAssetGpaBuilder(c);
      q.fields.forEach(([k, v]: any) => {
        let x = v;
        if (!q.vault) {
          if (k === 'discriminator') x = v ? A.Discriminator.Asset : A.Discriminator.Uninitialized;
          if (k === 'state') x = v ? A.State.Locked : A.State.Unlocked;
          if (k === 'standard') x = [A.Standard.NonFungible, A.Standard.Managed, A.Standard.Soulbound, A.Standard.Proxied][v];
          if (k === 'roles') x = roleList(v);
        } else if (k === 'state') x = v ? B.State.Active : B.State.Idle;
        b = b.whereField(k, x);
      });
      const back = b.options.deserialize(raw(q.sample));
      return {
        program: b.programId,
        filters: (b.options.filters ?? []).map((f: any) => (f.memcmp ? [f.memcmp.offset, hex(f.memcmp.bytes)] : [-1, String(f.dataSize)])),
        key: back.publicKey,
      };
    }
    case 'vault': {
      const v = B.deserializeVault(raw(q));
      return { discriminator: v.discriminator === B.Discriminator.Vault ? 1 : 9, state: [B.State.Idle, B.State.Active].indexOf(v.state), bump: v.bump, mint: v.mint, assetBump: v.assetBump };
    }
    case 'pda': {
      const c = contextOf(q);
      return { vault: B.findVaultPda(c, { mint: q.key }), bridged: B.findBridgeAssetPda(c, { mint: q.key }), proxied: X.findProxiedAssetPda(c, { stub: q.key }) };
    }
    case 'errors': {
      const p = (f: any, g: any, prog: any) =>
        Array.from({ length: 64 }, (_, i) => {
          const e = f(i, prog);
          const same = prog.getErrorFromCode(i);
          if (!e) return same ? [same.name, -1, -1] : null;
          const byName = g(e.name, prog);
          const named = prog.getErrorFromName(e.name);
          if (!same || same.code !== e.code || same.name !== e.name || !named || named.code !== e.code) return [e.name, -1, -1];
          return [e.name, e.code, byName ? byName.code : -1, e.message];
        });
      return {
        asset: p(A.getAssetErrorFromCode, A.getAssetErrorFromName, A.createAssetProgram()),
        bridge: p(B.getBridgeErrorFromCode, B.getBridgeErrorFromName, B.createBridgeProgram()),
        proxy: p(X.getProxyErrorFromCode, X.getProxyErrorFromName, X.createProxyProgram()),
        ids: [A.ASSET_PROGRAM_ID, B.BRIDGE_PROGRAM_ID, X.PROXY_PROGRAM_ID, A.SYSTEM_PROGRAM_ID],
        programs: [A.createAssetProgram(), B.createBridgeProgram(), X.createProxyProgram()].map((x: any) => x.publicKey),
        resolved: (() => {
          const c = contextOf({ plugins: true });
          return [A.getAssetProgramId(c), B.getBridgeProgramId(c), X.getProxyProgramId(c)];
        })(),
        found: (() => {
          const c = contextOf({ plugins: true });
          return [A.getAssetProgram(c), B.getBridgeProgram(c), X.getProxyProgram(c)].map((x: any) => x.publicKey);
        })(),
      };
    }
    default:
      throw new Error(`request ${q.op}`);
  }
};

const lines = createInterface({ input: process.stdin });
(async () => {
  for await (const line of lines) {
    let out: any;
    try {
      out = { ok: await handle(JSON.parse(line)) };
    } catch (e: any) {
      out = { error: String(e?.message ?? e) };
    }
    process.stdout.write(`${JSON.stringify(out, (_k, v) => (typeof v === 'bigint' ? v.toString() : v === undefined ? null : v))}\n`);
  }
})();
void TransactionBuilder;
