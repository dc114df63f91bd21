//! The mint helper and its relatives: what they return is executed on the real program and the
//! resulting asset is compared with the description asked for.
use crate::client::*;
use crate::forms;
use monitor::check::{hexs, viol};
use monitor::gen::*;
use monitor::model::*;
use monitor::rng::Rng;
use monitor::svm::*;
use monitor::view::*;
use monitor::wf::{self, Wf};
use monitor::{ids, Ctx};
use nifty_asset::{mint, AssetArgs, AssetFile, ExtensionArgs, MintAccounts, MintIxArgs};
use serde_json::{json, Value};
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

const P: &str = "P23";
const TYPES: [&str; 12] = ["None", "Attributes", "Blob", "Creators", "Links", "Metadata", "Grouping", "Royalties", "Manager", "Proxy", "Properties", "Bucket"];
const STANDARDS: [&str; 4] = ["NonFungible", "Managed", "Soulbound", "Proxied"];

fn shortvec(n: usize) -> usize {
    match n {
        0..=0x7f => 1,
        0x80..=0x3fff => 2,
        _ => 3,
    }
}

/// Size of a transaction carrying just this instruction, paid for by one of its signers.
fn packet(ix: &Instruction) -> usize {
    let keys: BTreeSet<Pubkey> = ix.accounts.iter().map(|a| a.pubkey).chain([ix.program_id]).collect();
    let sig: BTreeSet<Pubkey> = ix.accounts.iter().filter(|a| a.is_signer).map(|a| a.pubkey).collect();
    shortvec(sig.len())
        + 64 * sig.len()
        + 3
        + shortvec(keys.len())
        + 32 * keys.len()
        + 32
        + 1
        + 1
        + shortvec(ix.accounts.len())
        + ix.accounts.len()
        + shortvec(ix.data.len())
        + ix.data.len()
}

pub fn size(r: &mut Rng) -> usize {
    // around the limits of the first and of the following chunks, for the helper and for the macro
    let base = *r.pick(&[920usize, 1163, 920, 1163, 0]);
    let step = if base == 1163 { 1172 } else { 925 };
    match r.below(10) {
        0..=5 => {
            let k = r.below(4);
            (base + step * k + r.below(7)).saturating_sub(3)
        }
        6 => r.below(12_000),
        7 => r.range(9_000, 24_000),
        _ => r.below(300),
    }
}

pub fn word(r: &mut Rng, max: usize) -> String {
    let n = match r.below(8) {
        0 => 0,
        1 => max,
        2 => max - 1,
        _ => r.below(max.min(24)),
    };
    let mut s = String::new();
    while s.len() < n {
        let c = *r.pick(&['a', 'Z', '0', ' ', '"', '\\', '\n', 'é', '字', '🦀', '\0', '/']);
        if s.len() + c.len_utf8() > n {
            s.push('x');
        } else {
            s.push(c);
        }
    }
    s
}

/// Well-formed data of a given type and roughly a given size.
pub fn data(w: &mut World, r: &mut Rng, ty: u32, key: &Key) -> Vec<u8> {
    let n = size(r);
    let mut o = vec![];
    match ty {
        ATTRIBUTES | LINKS | PROPERTIES if r.pct(50) => {
            while o.len() < n {
                let left = n - o.len();
                let step = |r: &mut Rng, m: usize| if m > 255 { r.range(1, 255) } else { m };
                if ty == PROPERTIES {
                    let a = step(r, left.saturating_sub(3)).min(255);
                    pstr_put(&mut o, &vec![b'k'; a]);
                    o.extend([2, r.below(2) as u8]);
                } else {
                    let a = step(r, left.saturating_sub(2));
                    let b = if a < left.saturating_sub(2) { step(r, left - 2 - a) } else { 0 };
                    pstr_put(&mut o, &vec![b'n'; a]);
                    pstr_put(&mut o, &vec![b'v'; b]);
                }
            }
        }
        BLOB => {
            let t = word(r, 255);
            pstr_put(&mut o, t.as_bytes());
            let l = n.saturating_sub(o.len());
            o.extend(r.bytes(l));
        }
        BUCKET => o = r.bytes(n),
        CREATORS if r.pct(30) => {
            // 100 creators with a share of one percent each is the longest useful list
            let c = *r.pick(&[20usize, 27, 28, 50, 54, 55, 100]);
            for i in 0..c {
                o.extend(r.key());
                o.push(r.below(2) as u8);
                o.push(if i + 1 == c { (100 - (c - 1)) as u8 } else { 1 });
            }
        }
        _ => o = w.good_ext(ty, key),
    }
    o
}

pub struct Want {
    pub name: String,
    pub standard: u8,
    pub mutable: bool,
    pub owner: Key,
    pub exts: Vec<(u32, Vec<u8>)>,
}

/// The account must be exactly the asset asked for.
pub fn is_asset(cx: &mut Ctx, svm: &Svm, key: &Key, want: &Want, how: &str, prop: &str, rust: bool) {
    let a = svm.get(key);
    let mut bad = |t: String| cx.report(viol(prop, format!("{how}: {t}")));
    if a.owner != ids::asset() {
        return bad("no asset at the address".into());
    }
    let m = match parse(&a.data) {
        Ok(m) => m,
        Err(e) => return bad(format!("resulting account is damaged: {e}")),
    };
    let mut e = AssetM::blank();
    e.disc = 1;
    e.standard = want.standard;
    e.mutable = want.mutable;
    e.owner = want.owner;
    e.authority = want.owner;
    e.name = name35(&want.name);
    let head = AssetM { exts: vec![], ..m.clone() };
    if head != e {
        bad(format!("asset header {head:?} expected {e:?}"));
    }
    let ta: BTreeSet<u32> = m.exts.iter().map(|x| x.ty).collect();
    let te: BTreeSet<u32> = want.exts.iter().map(|x| x.0).collect();
    if ta != te || m.exts.len() != want.exts.len() {
        bad(format!("extensions {ta:?} expected {te:?}"));
    }
    for (t, d) in &want.exts {
        let (_, d) = wf::at_creation(*t, d, Some(&want.owner));
        if let Some(x) = m.ext(*t) {
            if x.data != d {
                let at = x.data.iter().zip(&d).position(|(a, b)| a != b);
                bad(format!("extension {t} has {} bytes expected {}, first difference at {at:?}: {} expected {}", x.data.len(), d.len(), hexs(&x.data), hexs(&d)));
            }
        }
    }
    if rust {
        decodes(cx, key, &a, P);
    }
}

#[allow(clippy::too_many_arguments)]
fn helper<'a>(asset: &AccountInfo<'a>, payer: &AccountInfo<'a>, system: &AccountInfo<'a>, program: &AccountInfo<'a>, ty: u8, data: &[u8], seeds: Option<&[&[&[u8]]]>) -> ProgramResult {
    let t = forms::client::type_of(ty);
    match seeds {
        None => {
            nifty_asset::allocate_and_write!(program, asset, payer, system, t, data, &[]);
        }
        Some(s) => {
            nifty_asset::allocate_and_write!(program, asset, payer, system, t, data, s);
        }
    }
    Ok(())
}

/// The instructions a program makes with the allocate-and-write helper.
fn piecewise(cx: &mut Ctx, r: &mut Rng, key: &Key, payer: &Key, exts: &[(u32, Vec<u8>)]) -> Vec<Instruction> {
    let keys = [Pubkey::new_from_array(*key), Pubkey::new_from_array(*payer), SYS, ASSET];
    let owner = JUNK;
    let mut out = vec![];
    for (t, d) in exts {
        let mut lam = [0u64; 4];
        let mut bufs: [Vec<u8>; 4] = Default::default();
        let infos: Vec<AccountInfo> = keys.iter().zip(lam.iter_mut()).zip(bufs.iter_mut()).map(|((k, l), b)| AccountInfo::new(k, true, true, l, b, &owner, false, 0)).collect();
        let seed = r.bytes(4);
        let sig: &[&[&[u8]]] = &[&[&seed]];
        let signed = r.pct(50);
        captured();
        let res = catch_unwind(AssertUnwindSafe(|| helper(&infos[0], &infos[1], &infos[2], &infos[3], *t as u8, d, signed.then_some(sig))));
        if !matches!(res, Ok(Ok(()))) {
            cx.report(viol(P, format!("allocate_and_write! fails for {} bytes", d.len())));
        }
        for c in captured() {
            // limit of the runtime for instructions made by programs
            let n = c.ix.accounts.len() * 34 + c.ix.data.len();
            if n > 1280 {
                cx.report(viol(P, format!("allocate_and_write! makes an instruction of {n} bytes, more than 1280, for {} bytes of data", d.len())));
            }
            if signed && c.seeds != vec![vec![seed.clone()]] {
                cx.report(viol(P, "allocate_and_write! passes other signer seeds than given".to_string()));
            }
            out.push(c.ix);
        }
    }
    out
}

// ---------- descriptions in JSON
struct Scratch(std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

/// A JSON value of an extension with the data it stands for.
fn json_ext(r: &mut Rng, ty: u32, files: &mut Vec<Scratch>) -> Option<(Value, Vec<u8>)> {
    let b58 = |k: Key| Pubkey::new_from_array(k).to_string();
    let put = |o: &mut Vec<u8>, s: &str| pstr_put(o, s.as_bytes());
    let mut o = vec![];
    let v = match ty {
        ATTRIBUTES | LINKS => {
            let f = if ty == ATTRIBUTES { "value" } else { "uri" };
            let n = if r.pct(20) { r.range(5, 30) } else { r.below(4) };
            let mut l = vec![];
            for _ in 0..n {
                let (a, b) = (word(r, 255), word(r, 255));
                put(&mut o, &a);
                put(&mut o, &b);
                l.push(json!({"name": a, f: b}));
            }
            Value::Array(l)
        }
        CREATORS => {
            let n = *r.pick(&[1usize, 1, 2, 3, 5, 30]);
            let mut l = vec![];
            let mut left = 100u8;
            for i in 0..n {
                let k = r.key();
                let sh = if i + 1 == n { left } else { r.below((left as usize).min(60) + 1) as u8 };
                left -= sh;
                let ver = r.pct(50);
                o.extend(k);
                o.extend([ver as u8, sh]);
                l.push(json!({"address": b58(k), "verified": ver, "share": sh}));
            }
            Value::Array(l)
        }
        BLOB => {
            let t = word(r, 255);
            let n = size(r);
            let c = r.bytes(n);
            let dir = std::env::temp_dir();
            let p = dir.join(format!("clientmon-{}-{:x}.bin", std::process::id(), r.u64()));
            std::fs::write(&p, &c).ok()?;
            files.push(Scratch(p.clone()));
            put(&mut o, &t);
            o.extend(c);
            json!({"content_type": t, "path": p.to_str()?})
        }
        METADATA => {
            let (a, b, c) = (word(r, 255), word(r, 255), word(r, 255));
            put(&mut o, &a);
            put(&mut o, &b);
            put(&mut o, &c);
            json!({"symbol": a, "description": b, "uri": c})
        }
        ROYALTIES => {
            let bps = *r.pick(&[0u64, 1, 500, 10_000]);
            let n = *r.pick(&[0usize, 1, 2, 7, 40]);
            let items: Vec<Key> = (0..n).map(|_| r.key()).collect();
            let allow = r.pct(50);
            o.extend(bps.to_le_bytes());
            use wf::Rule::*;
            let rule = if allow { KeyMatch(0, items.clone()) } else { Not(Box::new(OwnedBy(0, items.clone()))) };
            o.extend(rule.encode());
            json!({"kind": if allow { "Allowlist" } else { "Denylist" }, "basis_points": bps, "items": items.iter().map(|k| b58(*k)).collect::<Vec<_>>()})
        }
        _ => return None,
    };
    Some((v, o))
}

pub fn episode(seed: u64, cx: &mut Ctx) {
    let b = bias_for("P23");
    let mut w = World::new(seed, &b);
    let mut r = Rng::new(seed ^ 0x317);
    for _ in 0..6 {
        let key = r.key();
        let owner = r.key();
        let payer = if r.pct(50) { Some(r.key()) } else { None };
        let p = payer.unwrap_or(owner);
        w.svm.db.insert(p, Acct::sys(1_000_000_000_000));
        let standard = *r.pick(&[0u8, 0, 1, 2]);
        let from_json = standard != 1 && r.pct(35);
        let mut files = vec![];
        let mut tys: Vec<u32> = vec![];
        let n = if r.pct(10) { 8 } else { r.below(5) };
        for _ in 0..n {
            let t = if r.pct(40) { *r.pick(&[BLOB, BUCKET]) } else { r.range(1, 11) as u32 };
            if t != MANAGER && t != PROXY && !tys.contains(&t) {
                tys.push(t);
            }
        }
        if standard == 1 {
            let i = r.below(tys.len() + 1);
            tys.insert(i, MANAGER);
        }
        let mut exts = vec![];
        let mut js = vec![];
        for t in tys {
            let d = if from_json {
                match json_ext(&mut r, t, &mut files) {
                    Some((v, d)) => {
                        js.push(json!({"extension_type": TYPES[t as usize], "value": v}));
                        d
                    }
                    None => continue,
                }
            } else {
                data(&mut w, &mut r, t, &key)
            };
            if wf::at_creation(t, &d, Some(&owner)).0 != Wf::Good {
                if from_json {
                    js.pop();
                }
                continue;
            }
            exts.push((t, d));
        }
        if standard == 1 && !exts.iter().any(|e| e.0 == MANAGER) {
            continue;
        }
        let cap = if r.pct(33) { 64 } else { 35 };
        let want = Want { name: word(&mut r, cap), standard, mutable: r.pct(50), owner, exts };
        let lens: Vec<usize> = want.exts.iter().map(|e| e.1.len()).collect();
        let mut args: Vec<ExtensionArgs> =
            want.exts.iter().map(|(t, d)| ExtensionArgs { extension_type: forms::client::type_of(*t as u8), data: d.clone() }).collect();
        let (mut name, mut std, mut mutable, mut own) = (want.name.clone(), forms::client::standard_of(standard), want.mutable, Pubkey::new_from_array(owner));
        if from_json {
            let text = json!({"name": want.name, "standard": STANDARDS[standard as usize], "mutable": want.mutable, "extensions": js,
                "owner": Pubkey::new_from_array(owner).to_string(), "asset_keypair_path": if r.pct(50) { json!("k.json") } else { Value::Null }});
            let text = text.to_string();
            cx.log(format!("description {}", text.chars().take(600).collect::<String>()));
            cx.stats.steps += 1;
            let f: AssetFile = match serde_json::from_str(&text) {
                Ok(f) => f,
                Err(e) => {
                    cx.report(viol(P, format!("description is not understood: {e}: {}", text.chars().take(300).collect::<String>())));
                    continue;
                }
            };
            match serde_json::to_string(&f).ok().and_then(|s| serde_json::from_str::<AssetFile>(&s).ok()) {
                Some(g) if g == f => (),
                _ => cx.report(viol(P, "a description changes when written and read".to_string())),
            }
            if f.extensions.len() != want.exts.len() {
                cx.report(viol(P, format!("description with {} extensions read as {}", want.exts.len(), f.extensions.len())));
                continue;
            }
            args = vec![];
            let mut ok = true;
            for (e, (t, d)) in f.extensions.into_iter().zip(&want.exts) {
                cx.begin("reading a JSON description", P);
                let et = e.extension_type;
                match catch_unwind(AssertUnwindSafe(|| e.value.into_data())) {
                    Ok(x) => {
                        if et != forms::client::type_of(*t as u8) || x != *d {
                            ok = false;
                            cx.report(viol(P, format!("{} described in JSON gives {} expected {}", TYPES[*t as usize], hexs(&x), hexs(d))));
                        }
                        if *t == CREATORS {
                            for c in x.chunks_exact(34) {
                                let jc = nifty_asset::JsonCreator::from_data(c);
                                if jc.address.to_bytes() != c[..32] || jc.verified != (c[32] != 0) || jc.share != c[33] {
                                    cx.report(viol(P, format!("creator {} reads as {jc:?}", hexs(c))));
                                }
                            }
                        }
                        args.push(ExtensionArgs { extension_type: et, data: x });
                    }
                    Err(_) => {
                        ok = false;
                        cx.report(viol(P, format!("{} described in JSON panics", TYPES[*t as usize])));
                    }
                }
                cx.stats.label(format!("json {}", TYPES[*t as usize]), true);
            }
            if !ok {
                continue;
            }
            name = f.name;
            std = f.standard;
            mutable = f.mutable;
            own = f.owner;
        }
        let (how, ixs) = if !from_json && r.pct(35) {
            let mut v = piecewise(cx, &mut r, &key, &p, &want.exts);
            let op = Op::Create { name: want.name.clone(), standard, mutable: want.mutable, exts: None };
            let mut m = vec![sw(key), r_(owner), r_(owner), none(), none(), sw(p), r_(SYSTEM)];
            m.iter_mut().for_each(|m| m.signer &= m.key != owner || p == owner);
            v.push(Instruction {
                program_id: ASSET,
                accounts: m.iter().map(|m| solana_program::instruction::AccountMeta { pubkey: Pubkey::new_from_array(m.key), is_signer: m.signer, is_writable: m.writable }).collect(),
                data: op.encode(),
            });
            ("allocate_and_write!", v)
        } else {
            let a = MintIxArgs {
                accounts: MintAccounts { asset: Pubkey::new_from_array(key), owner: own, payer: payer.map(Pubkey::new_from_array) },
                asset_args: AssetArgs { name, standard: std, mutable },
                extension_args: args,
            };
            cx.begin("mint helper", P);
            match catch_unwind(AssertUnwindSafe(|| mint(a))) {
                Ok(Ok(v)) => {
                    for ix in &v {
                        let n = packet(ix);
                        if n > 1232 {
                            cx.report(viol(P, format!("mint: instruction {} needs a transaction of {n} bytes, more than 1232, for data {lens:?}", ix.data[0])));
                        }
                    }
                    (if from_json { "mint of a JSON description" } else { "mint" }, v)
                }
                Ok(Err(e)) => {
                    cx.report(viol(P, format!("mint fails: {e} for data {lens:?}")));
                    continue;
                }
                Err(_) => {
                    cx.report(viol(P, format!("mint panics for data {lens:?}")));
                    continue;
                }
            }
        };
        cx.log(format!("{how}: standard {standard} owner {} payer {payer:?} data {lens:?}: {} instructions", monitor::check::short(&owner), ixs.len()));
        let together = r.pct(25);
        let ok = if together {
            let l: Vec<Ix> = ixs
                .iter()
                .map(|i| Ix {
                    program: i.program_id.to_bytes(),
                    metas: i.accounts.iter().map(|a| Meta { key: a.pubkey.to_bytes(), signer: a.is_signer, writable: a.is_writable }).collect(),
                    data: i.data.clone(),
                })
                .collect();
            cx.begin(how, P);
            let res = w.svm.exec(&l);
            cx.stats.steps += l.len() as u64;
            if let Err(e) = &res {
                cx.report(viol(P, format!("{how}: refused: {e:?} for types {:?} data {lens:?}", want.exts.iter().map(|e| e.0).collect::<Vec<_>>())));
            }
            res.is_ok()
        } else {
            ixs.iter().all(|i| execute(&mut w.svm, i, cx, P, true))
        };
        if ok {
            is_asset(cx, &w.svm, &key, &want, how, P, true);
        }
        let mut chunks: Vec<usize> = lens.iter().map(|l| l.saturating_sub(920).div_ceil(925) + 1).collect();
        chunks.sort();
        cx.stats.label(format!("{how} std{standard} chunks {chunks:?}{}", if together { " in one transaction" } else { "" }), true);
        if ok && cx.stats.samples.len() < 2 {
            cx.stats.samples.push(format!("{how}: standard {standard}, extension data {lens:?}: {} instructions, account as described", ixs.len()));
        }
        if cx.found.len() > 8 {
            return;
        }
    }
}
