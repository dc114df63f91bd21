//! Histories of the bridge program (with the asset program and a token-metadata stand-in).
use crate::assetmode::show;
use crate::check::*;
use crate::gen::*;
use crate::model::*;
use crate::svm::*;
use crate::tokenmeta::*;
use crate::view::*;
use crate::{ids, Ctx};
use std::collections::BTreeMap;

type Db = BTreeMap<Key, Acct>;

pub fn vault_of(mint: &Key) -> (Key, u8) {
    ids::pda(&[b"vault", mint], &ids::bridge())
}
pub fn asset_of(mint: &Key) -> (Key, u8) {
    ids::pda(&[b"asset", mint], &ids::bridge())
}

fn merged(ix: &Ix) -> Vec<Meta> {
    let mut metas = ix.metas.clone();
    for i in 0..metas.len() {
        for j in 0..metas.len() {
            if ix.metas[i].key == ix.metas[j].key {
                metas[i].signer |= ix.metas[j].signer;
                metas[i].writable |= ix.metas[j].writable;
            }
        }
    }
    metas
}

fn lower(a: &MAcct) -> Acct {
    let data = match &a.body {
        Body::Raw(d) => d.clone(),
        Body::Asset(m) => {
            let mut d = encode(m, a.len);
            d.truncate(a.len);
            d
        }
        Body::Corrupt(_) => vec![],
    };
    Acct { lamports: a.lamports, data, owner: a.owner, executable: a.executable }
}

/// Predicted outcome of a bridge-program instruction.
pub struct BPred {
    pub p: Pred,
    pub prop: &'static str,
    pub mint: Option<Key>,
    pub kind: &'static str,
}

fn token_prog(k: &Key) -> bool {
    *k == ids::token() || *k == ids::token22()
}

pub fn predict_bridge(db: &Db, ix: &Ix) -> BPred {
    let metas = merged(ix);
    let mut p = Pred::default();
    for m in &metas {
        p.post.insert(m.key, lift(&db.get(&m.key).cloned().unwrap_or_default()));
    }
    let get = |k: &Key| db.get(k).cloned().unwrap_or_default();
    match ix.data.as_slice() {
        [0] => {
            const P: &str = "P25";
            p.op = Some(Op::Transfer);
            p.liveness = P.into();
            p.tag = "bridge".into();
            let mut out = BPred { p, prop: P, mint: None, kind: "bridge" };
            let p = &mut out.p;
            macro_rules! need {
                ($c:expr, $t:expr) => {
                    if !$c {
                        p.fail.push(($t.to_string(), P));
                    }
                };
            }
            if metas.len() < 20 {
                need!(false, "missing accounts");
                return out;
            }
            let m = &metas;
            let (asset, vault, owner, token, mint, md, ed, vtoken, payer) = (m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[8], m[10]);
            out.mint = Some(mint.key);
            let none = ids::bridge();
            need!(owner.signer, "owner did not sign");
            need!(token_prog(&get(&mint.key).owner), "mint does not belong to a token program");
            let (vk, _) = vault_of(&mint.key);
            let (ak, _) = asset_of(&mint.key);
            need!(vault.key == vk, "vault of another mint");
            need!(asset.key == ak, "asset of another mint");
            for (i, k) in [(11, ids::asset()), (12, ids::token_metadata())] {
                need!(metas.iter().any(|m| m.key == k), "wrong programs");
                // the genuine program is invoked whatever stands in its place in the list
                p.either |= m[i].key != k;
            }
            let va = get(&vault.key);
            let genuine = va.owner == ids::bridge() && va.data.len() == 36 && va.data[0] == 1 && va.data[3..35] == mint.key;
            need!(genuine, "no vault for this mint");
            need!(get(&asset.key).owner == ids::asset(), "asset not owned by the asset program");
            let meta = Md::decode(&get(&md.key).data);
            need!(
                md.key == metadata_of(&mint.key) && get(&md.key).owner == ids::token_metadata() && meta.as_ref().map_or(false, |x| x.mint == mint.key),
                "metadata of another mint"
            );
            need!(meta.as_ref().map_or(false, |x| matches!(x.standard, Some(0 | 4))), "not a non-fungible token");
            need!(asset.writable && vault.writable, "read-only accounts");
            if !p.fail.is_empty() {
                return out;
            }
            let out_bound = va.data[1] == 0;
            p.tag.push_str(if out_bound { " token-to-asset" } else { " asset-to-token" });
            let o = |i: usize| if m[i].key == none { r_(ids::token_metadata()) } else { m[i] };
            let (rec, vrec) = (o(7), o(9));
            for x in [rec, vrec] {
                need!(x.key == ids::token_metadata() || x.writable, "read-only token record");
            }
            let vs = Meta { signer: true, ..vault };
            let t = |a: Meta, ao: Meta, b: Meta, bo: Meta, r1: Meta, r2: Meta, auth: Meta| {
                vec![a, ao, b, bo, mint, md, ed, r1, r2, auth, payer, m[13], m[14], m[15], m[16], o(17), o(18)]
            };
            let tm = if out_bound { t(token, owner, vtoken, vault, rec, vrec, owner) } else { t(vtoken, vault, token, owner, vrec, rec, vs) };
            let mut tm = tm;
            if payer.key == vault.key && !out_bound {
                // the vault signs; whether it may also stand in as the payer is not specified
                tm[10].signer = true;
                p.either = true;
            }
            let mut data = vec![49, 0];
            data.extend(1u64.to_le_bytes());
            data.push(0);
            let mut db2 = db.clone();
            if let Err(e) = transfer(&mut db2, &tm, &data) {
                p.fail.push((format!("token transfer refused: {e}"), P));
                return out;
            }
            let rules = meta.as_ref().map_or(false, |x| x.rules.is_some());
            if meta.map_or(false, |x| x.standard == Some(4)) {
                p.tag.push_str(" programmable");
                if rules {
                    p.tag.push_str(" rule-set");
                }
            }
            let g = if m[19].key == none { none_asset() } else { Meta { signer: false, writable: false, key: m[19].key } };
            let (signer, to) = if out_bound { (vs, owner) } else { (owner, vault) };
            let inner = Ix {
                program: ids::asset(),
                metas: vec![
                    Meta { signer: false, ..asset },
                    Meta { writable: false, ..signer },
                    Meta { signer: false, writable: false, key: to.key },
                    g,
                ],
                data: Op::Transfer.encode(),
            };
            let q = predict(&db2, &inner, 2);
            p.tag.push_str(&q.tag);
            for f in q.fail {
                p.fail.push((f.0, P));
            }
            p.either |= q.either;
            p.unknown |= q.unknown;
            for k in p.post.clone().keys() {
                p.post.insert(*k, lift(&db2.get(k).cloned().unwrap_or_default()));
            }
            if let Some(x) = q.post.get(&asset.key) {
                p.post.insert(asset.key, x.clone());
            }
            let mut v = va;
            v.data[1] ^= 1;
            p.post.insert(vault.key, lift(&v));
            runtime_rules(db, &metas, p);
            out
        }
        [1, c] if *c < 2 => {
            const P: &str = "P26";
            p.op = Some(Op::Create { name: String::new(), standard: 0, mutable: true, exts: None });
            p.liveness = P.into();
            p.tag = "bridge-create".into();
            let mut out = BPred { p, prop: P, mint: None, kind: "create" };
            let p = &mut out.p;
            macro_rules! need {
                ($c:expr, $t:expr) => {
                    if !$c {
                        p.fail.push(($t.to_string(), P));
                    }
                };
            }
            if metas.len() < 9 {
                need!(false, "missing accounts");
                return out;
            }
            let m = &metas;
            let (asset, vault, mint, md, ua, coll, payer, sys, prog) = (m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]);
            out.mint = Some(mint.key);
            need!(token_prog(&get(&mint.key).owner), "mint does not belong to a token program");
            need!(get(&md.key).owner == ids::token_metadata(), "metadata not owned by token metadata");
            let meta = match Md::decode(&get(&md.key).data) {
                Some(x) if x.mint == mint.key => x,
                _ => {
                    need!(false, "metadata of another mint");
                    return out;
                }
            };
            need!(matches!(meta.standard, Some(0 | 4)), "not a non-fungible token");
            need!(meta.authority == ua.key, "not the update authority");
            match &meta.collection {
                Some((true, ck)) => {
                    let (k, _) = asset_of(ck);
                    let a = get(&coll.key);
                    p.tag.push_str(" in-collection");
                    need!(coll.key == k, "not the bridged collection");
                    need!(a.owner == ids::asset() && a.data.first() == Some(&1), "collection not bridged");
                    if !ua.signer {
                        p.tag.push_str(" permissionless");
                    }
                }
                c => {
                    if c.is_some() {
                        p.tag.push_str(" unverified-collection");
                    }
                    need!(ua.signer, "update authority did not sign");
                }
            }
            let (vk, vb) = vault_of(&mint.key);
            let (ak, ab) = asset_of(&mint.key);
            need!(vault.key == vk, "vault of another mint");
            need!(asset.key == ak, "asset of another mint");
            need!(get(&vault.key).data.is_empty(), "already bridged");
            need!(prog.key == ids::asset() || metas.iter().any(|m| m.key == ids::asset()), "asset program missing");
            need!(metas.iter().any(|m| m.key == SYSTEM), "system program missing");
            need!(payer.signer && payer.writable && asset.writable && vault.writable, "privileges");
            if prog.key != ids::asset() || sys.key != SYSTEM {
                p.either = true;
            }
            if !p.fail.is_empty() {
                return out;
            }
            if get(&vault.key).lamports > 0 {
                p.either = true;
                p.unknown = true;
                return out;
            }
            let mut d2 = db.clone();
            let mut v = vec![1u8, 0, vb];
            v.extend(mint.key);
            v.push(ab);
            let rent = rent_min(36);
            let mut pa = get(&payer.key);
            if pa.owner != SYSTEM || !pa.data.is_empty() || pa.lamports < rent {
                need!(false, "payer without funds");
                return out;
            }
            pa.lamports -= rent;
            d2.insert(payer.key, pa);
            d2.insert(vault.key, Acct { lamports: rent, data: v, owner: ids::bridge(), executable: false });
            let mut exts: Vec<(u32, Vec<u8>)> = vec![];
            let mut e = vec![];
            pstr_put(&mut e, meta.symbol.as_bytes());
            pstr_put(&mut e, b"");
            pstr_put(&mut e, meta.uri.as_bytes());
            pstr_put(&mut e, b"");
            exts.push((METADATA, e));
            if let Some(c) = &meta.creators {
                let mut e = vec![];
                for (k, v, s) in c {
                    e.extend(k);
                    e.push(*v as u8);
                    e.push(*s);
                }
                exts.push((CREATORS, e));
                p.tag.push_str(" creators");
            }
            if *c == 1 || meta.details.is_some() {
                exts.push((GROUPING, vec![0; 48]));
                p.tag.push_str(" collection");
                if meta.standard == Some(4) {
                    let mut e = (meta.fee as u64).to_le_bytes().to_vec();
                    e.extend(crate::wf::Rule::Empty.encode());
                    exts.push((ROYALTIES, e));
                    p.tag.push_str(" royalties");
                }
            }
            let a = Meta { signer: true, ..asset };
            let mut run = |ix: Ix, p: &mut Pred| -> bool {
                let q = predict(&d2, &ix, 2);
                for f in q.fail {
                    p.fail.push((f.0, P));
                }
                p.either |= q.either;
                p.unknown |= q.unknown;
                if !p.fail.is_empty() || p.unknown {
                    return false;
                }
                for (k, v) in q.post {
                    if v.lamports > 0 {
                        d2.insert(k, lower(&v));
                    }
                }
                true
            };
            for (t, e) in exts {
                let ix = Ix { program: ids::asset(), metas: vec![a, payer, r_(SYSTEM)], data: Op::Allocate(World::ext_in(t, e)).encode() };
                if !run(ix, p) {
                    return out;
                }
            }
            let op = Op::Create { name: meta.name.clone(), standard: 0, mutable: true, exts: None };
            let ix = Ix {
                program: ids::asset(),
                metas: vec![a, Meta { key: ua.key, signer: false, writable: false }, r_(vault.key), none_asset(), none_asset(), payer, r_(SYSTEM)],
                data: op.encode(),
            };
            if !run(ix, p) {
                return out;
            }
            for k in p.post.clone().keys() {
                p.post.insert(*k, lift(&d2.get(k).cloned().unwrap_or_default()));
            }
            runtime_rules(db, &metas, p);
            out
        }
        _ => {
            p.fail.push(("undecodable instruction".into(), "P25"));
            p.liveness = "P25".into();
            p.tag = "bridge-raw".into();
            BPred { p, prop: "P25 P26", mint: None, kind: "raw" }
        }
    }
}
fn none_asset() -> Meta {
    r_(ids::asset())
}

struct Tok {
    mint: Key,
    prog: Key,
    md: Md,
    /// account of another program posing as the mint
    false_mint: bool,
}

struct BWorld {
    w: World,
    toks: Vec<Tok>,
    fakes: Vec<Key>,
    keys: Vec<Key>,
}

fn pad(s: &str, n: usize) -> String {
    let mut s = s.to_string();
    while s.len() < n {
        s.push('\0');
    }
    s
}

impl BWorld {
    fn new(seed: u64) -> BWorld {
        let mut b = bias_for("P25");
        b.grouped = 10;
        b.royalty = 5;
        let mut w = World::new(seed, &b);
        for k in [ids::token(), ids::token22(), ids::ata(), ids::auth_rules(), ids::sysvar_ix()] {
            w.svm.db.insert(k, Acct { lamports: 1, data: vec![], owner: [2; 32], executable: true });
        }
        let mut toks: Vec<Tok> = vec![];
        for i in 0..5 {
            let mint = match toks.last() {
                Some(t) if w.r.pct(20) => {
                    let mut k = t.mint;
                    k[*w.r.pick(&[0usize, 31])] ^= 1;
                    k
                }
                _ => w.r.key(),
            };
            if toks.iter().any(|t| t.mint == mint) {
                continue;
            }
            let prog = if w.r.pct(80) { ids::token() } else { ids::token22() };
            let standard = match w.r.below(20) {
                0..=11 => Some(0),
                12..=16 => Some(4),
                17 => None,
                _ => Some(*w.r.pick(&[1u8, 2, 3, 5])),
            };
            let collection = if i == 0 || w.r.pct(35) {
                None
            } else {
                let k = toks[w.r.below(toks.len())].mint;
                Some((w.r.pct(70), k))
            };
            let authority = w.wallet();
            let creators = if w.r.pct(30) {
                None
            } else {
                let n = w.r.range(1, 5);
                let mut left = 100u32;
                let mut v = vec![];
                for j in 0..n {
                    let s = if j + 1 == n { left } else { w.r.below(left as usize + 1) as u32 };
                    left -= s;
                    let k = if w.r.pct(30) { authority } else { w.wallet() };
                    v.push((k, w.r.pct(50), s as u8));
                }
                Some(v)
            };
            let text = |w: &mut World, n: usize| -> String { (0..w.r.below(n + 1)).map(|_| (b'a' + w.r.below(26) as u8) as char).collect() };
            let (mut name, mut symbol, mut uri) = (text(&mut w, 32), text(&mut w, 10), text(&mut w, 200));
            if w.r.pct(75) {
                name = pad(&name, 32);
                symbol = pad(&symbol, 10);
                uri = pad(&uri, 200);
            }
            let md = Md {
                key: 4,
                authority,
                mint,
                name,
                symbol,
                uri,
                fee: *w.r.pick(&[0u16, 1, 500, 10_000]),
                creators,
                standard,
                collection,
                details: if w.r.pct(25) { Some(w.r.below(5) as u64) } else { None },
                rules: if standard == Some(4) && w.r.pct(50) { Some(w.r.key()) } else { None },
            };
            if let Some(k) = md.rules {
                w.svm.db.insert(k, Acct { lamports: rent_min(64), data: vec![1; 64], owner: ids::auth_rules(), executable: false });
            }
            let false_mint = w.r.pct(6);
            let mo = if false_mint { *w.r.pick(&w.progs) } else { prog };
            w.svm.db.insert(mint, Acct { lamports: rent_min(82), data: vec![1; 82], owner: mo, executable: false });
            let mut d = md.encode();
            d.resize(679.max(d.len()), 0);
            w.svm.db.insert(metadata_of(&mint), Acct { lamports: rent_min(679), data: d, owner: ids::token_metadata(), executable: false });
            w.svm.db.insert(edition_of(&mint), Acct { lamports: rent_min(40), data: vec![6; 40], owner: ids::token_metadata(), executable: false });
            let holder = w.rich();
            let ta = ata_of(&holder, &mint, &prog);
            let p = standard == Some(4);
            w.svm.db.insert(ta, token_acct(&mint, &holder, 1, &prog, p || w.r.pct(4)));
            if p {
                let mut r = record_acct();
                if w.r.pct(6) {
                    r.data[2] = 1;
                }
                w.svm.db.insert(record_of(&mint, &ta), r);
            }
            w.slots.push(asset_of(&mint).0);
            w.derived.push(asset_of(&mint).0);
            toks.push(Tok { mint, prog, md, false_mint });
        }
        let mut keys = vec![];
        for t in &toks {
            keys.extend([asset_of(&t.mint).0, vault_of(&t.mint).0, t.mint, metadata_of(&t.mint), edition_of(&t.mint)]);
        }
        BWorld { w, toks, fakes: vec![], keys }
    }
    /// token accounts of a mint: (account, holder, amount)
    fn holdings(&self, mint: &Key) -> Vec<(Key, Key, u64)> {
        self.w.svm.db.iter().filter_map(|(k, a)| token_of(a).filter(|t| t.0 == *mint).map(|t| (*k, t.1, t.2))).collect()
    }
    fn holder(&self, mint: &Key) -> Option<(Key, Key)> {
        self.holdings(mint).into_iter().find(|h| h.2 > 0).map(|h| (h.0, h.1))
    }
    fn bridge_ix(&mut self, i: usize) -> Ix {
        let (mint, prog, std) = (self.toks[i].mint, self.toks[i].prog, self.toks[i].md.standard);
        let (vault, asset) = (vault_of(&mint).0, asset_of(&mint).0);
        let active = self.w.svm.get(&vault).data.get(1) == Some(&1);
        let am = self.w.asset(&asset);
        let mut vtoken = ata_of(&vault, &mint, &prog);
        let (owner, token) = if !active {
            match self.holder(&mint) {
                Some((t, o)) => (o, t),
                None => (self.w.wallet(), self.w.r.key()),
            }
        } else {
            if let Some((t, o)) = self.holder(&mint) {
                if o == vault {
                    vtoken = t;
                }
            }
            let o = match &am {
                Some(m) if m.delegate != ZERO && self.w.r.pct(20) => m.delegate,
                Some(m) => m.owner,
                None => self.w.wallet(),
            };
            (o, ata_of(&o, &mint, &prog))
        };
        if !active && self.w.r.pct(8) {
            // a token account of the vault that is not the associated one
            let k = self.w.r.key();
            self.w.svm.db.insert(k, token_acct(&mint, &vault, 0, &prog, std == Some(4)));
            vtoken = k;
        }
        let none = r_(ids::bridge());
        let (rec, vrec) = if std == Some(4) { (w_(record_of(&mint, &token)), w_(record_of(&mint, &vtoken))) } else { (none, none) };
        let (rp, rs) = match self.toks[i].md.rules {
            Some(k) => (r_(ids::auth_rules()), r_(k)),
            None => (none, none),
        };
        let payer = self.w.rich();
        let g = match &am {
            Some(m) if m.group != ZERO => r_(m.group),
            _ => none,
        };
        Ix {
            program: ids::bridge(),
            metas: vec![
                w_(asset),
                w_(vault),
                s_(owner),
                w_(token),
                r_(mint),
                w_(metadata_of(&mint)),
                r_(edition_of(&mint)),
                rec,
                w_(vtoken),
                vrec,
                sw(payer),
                r_(ids::asset()),
                r_(ids::token_metadata()),
                r_(SYSTEM),
                r_(ids::sysvar_ix()),
                r_(prog),
                r_(ids::ata()),
                rp,
                rs,
                g,
            ],
            data: vec![0],
        }
    }
    fn create_ix(&mut self, i: usize) -> Ix {
        let t = &self.toks[i];
        let (mint, md) = (t.mint, t.md.clone());
        let coll = match md.collection {
            Some((_, k)) => r_(asset_of(&k).0),
            None => r_(ids::bridge()),
        };
        let payer = self.w.rich();
        let verified = matches!(md.collection, Some((true, _)));
        let ua = if !verified || self.w.r.pct(40) { s_(md.authority) } else { r_(md.authority) };
        Ix {
            program: ids::bridge(),
            metas: vec![
                w_(asset_of(&mint).0),
                w_(vault_of(&mint).0),
                r_(mint),
                r_(metadata_of(&mint)),
                ua,
                coll,
                sw(payer),
                r_(SYSTEM),
                r_(ids::asset()),
            ],
            data: vec![1, self.w.r.pct(40) as u8],
        }
    }
    fn fake(&mut self) -> Key {
        // a copy of a genuine account, owned by another program, possibly altered
        let src = *self.w.r.pick(&self.keys.clone());
        let mut a = self.w.svm.get(&src);
        if a.data.is_empty() {
            return src;
        }
        a.owner = *self.w.r.pick(&self.w.progs);
        if let Some(mut m) = Md::decode(&a.data).filter(|m| m.key == 4) {
            match self.w.r.below(4) {
                0 => m.authority = self.w.wallet(),
                1 => m.standard = Some(0),
                2 => m.collection = None,
                _ => m.mint = self.w.r.pick(&self.toks).mint,
            }
            a.data = m.encode();
        } else if a.data.len() == 36 && self.w.r.pct(60) {
            a.data[1] ^= 1;
        }
        let k = self.w.r.key();
        self.w.svm.db.insert(k, a);
        self.fakes.push(k);
        k
    }
    fn plan(&mut self) -> Vec<Step> {
        let i = self.w.r.below(self.toks.len());
        let kind = self.w.r.below(100);
        let mut steps = vec![];
        let born: Vec<usize> = (0..self.toks.len()).filter(|i| self.w.svm.db.contains_key(&vault_of(&self.toks[*i].mint).0)).collect();
        if kind < 25 || born.is_empty() {
            steps.push(self.create_ix(i));
        } else if kind < 68 {
            let i = if self.w.r.pct(90) { *self.w.r.pick(&born) } else { i };
            steps.push(self.bridge_ix(i));
        } else if kind < 72 {
            // tokens change hands outside of the bridge
            let t = &self.toks[i];
            let (mint, prog) = (t.mint, t.prog);
            if let Some((k, o)) = self.holder(&mint) {
                if self.w.wallets.contains(&o) {
                    let to = self.w.wallet();
                    let ta = ata_of(&to, &mint, &prog);
                    if ta != k {
                        let old = self.w.svm.get(&k);
                        let mut n = old.clone();
                        n.data[32..64].copy_from_slice(&to);
                        self.w.svm.db.insert(ta, n);
                        let mut z = old;
                        z.data[64..72].fill(0);
                        self.w.svm.db.insert(k, z);
                        if self.toks[i].md.standard == Some(4) {
                            self.w.svm.db.insert(record_of(&mint, &ta), record_acct());
                        }
                    }
                }
            }
            steps.push(self.bridge_ix(i));
        } else {
            if self.w.r.pct(75) {
                let k = asset_of(&self.toks[*self.w.r.pick(&born)].mint).0;
                if self.w.asset(&k).map_or(false, |m| m.created()) {
                    self.w.focus = Some(k);
                }
            }
            let l = self.w.plan();
            self.w.focus = None;
            steps.extend(l.into_iter().map(|s| s.ix));
        }
        let n = steps.len();
        let mut out = vec![];
        for (j, mut ix) in steps.into_iter().enumerate() {
            if j + 1 == n && self.w.r.pct(40) {
                for _ in 0..if self.w.r.pct(75) { 1 } else { 2 } {
                    self.mutate(&mut ix);
                }
            }
            // nobody can sign for derived addresses; and nobody gives the assets or tokens away to a vault
            for m in ix.metas.iter_mut() {
                if self.keys.contains(&m.key) {
                    m.signer = false;
                }
            }
            if ix.program == ids::asset() && ix.data == [7] {
                if let Some(m) = ix.metas.get(2) {
                    if self.toks.iter().any(|t| vault_of(&t.mint).0 == m.key) {
                        continue;
                    }
                }
            }
            let height = if self.w.r.pct(8) { 2 } else { 1 };
            out.push(Step { ix, height, topup: None, revive: None });
        }
        out
    }
    fn mutate(&mut self, ix: &mut Ix) {
        if ix.program != ids::bridge() {
            if self.w.r.pct(50) {
                self.w.mutate(ix);
            }
            return;
        }
        let n = ix.metas.len();
        if n == 0 {
            return;
        }
        // favour the accounts that matter
        let i = if self.w.r.pct(70) { self.w.r.below(n.min(11)) } else { self.w.r.below(n) };
        match self.w.r.below(14) {
            0 => ix.metas[i].signer = false,
            1 => {
                let k = self.w.wallet();
                ix.metas[i].key = k;
            }
            2 => {
                // the same role for another mint
                let j = self.w.r.below(self.toks.len());
                let other = if ix.data[0] == 0 { self.bridge_ix(j) } else { self.create_ix(j) };
                if let Some(m) = other.metas.get(i) {
                    ix.metas[i].key = m.key;
                }
            }
            3 => {
                // several roles for another mint
                let j = self.w.r.below(self.toks.len());
                let other = if ix.data[0] == 0 { self.bridge_ix(j) } else { self.create_ix(j) };
                for (a, b) in ix.metas.iter_mut().zip(other.metas) {
                    if self.w.r.pct(50) {
                        *a = b;
                    }
                }
            }
            4 => ix.metas[i].writable = !ix.metas[i].writable,
            5 => {
                ix.metas.pop();
            }
            6 | 7 => {
                let k = self.fake();
                ix.metas[i].key = k;
            }
            8 => {
                let k = *self.w.r.pick(&self.keys);
                ix.metas[i].key = k;
            }
            9 => {
                let k = self.w.anykey();
                ix.metas[i].key = k;
            }
            10 => {
                // someone else asks for it
                let who = if ix.data[0] == 0 { 2 } else { 4 };
                let k = self.w.wallet();
                if who < n {
                    ix.metas[who].key = k;
                    if ix.data[0] == 0 && self.w.r.pct(50) {
                        let (mint, prog) = (ix.metas[4].key, ids::token());
                        ix.metas[3].key = ata_of(&k, &mint, &prog);
                    }
                }
            }
            11 => ix.metas[i].key = ids::bridge(),
            12 => {
                let who = if ix.data[0] == 0 { 2 } else { 4 };
                if who < n {
                    ix.metas[who].signer = false;
                }
            }
            _ => {
                if self.w.r.pct(50) {
                    ix.data.push(0);
                } else {
                    ix.data = self.w.r.bytes(2);
                }
            }
        }
    }
    /// where the token and the asset of every mint really are
    fn custody(&self) -> Vec<Viol> {
        let mut out = vec![];
        for t in &self.toks {
            let (vault, asset) = (vault_of(&t.mint).0, asset_of(&t.mint).0);
            let va = self.w.svm.get(&vault);
            let n: u64 = self.holdings(&t.mint).iter().filter(|h| h.1 == vault).map(|h| h.2).sum();
            let total: u64 = self.holdings(&t.mint).iter().map(|h| h.2).sum();
            if total != 1 {
                out.push(viol("P25", format!("{total} original tokens exist")));
            }
            if va.data.is_empty() {
                if self.w.asset(&asset).is_some() {
                    out.push(viol("P25 P26", "a bridge asset without a vault"));
                }
                continue;
            }
            if va.owner != ids::bridge() || va.data.len() != 36 || va.data[0] != 1 || va.data[1] > 1 || va.data[3..35] != t.mint {
                out.push(viol("P25 P26", "damaged vault"));
                continue;
            }
            let inside = self.w.asset(&asset).map_or(false, |m| m.owner == vault);
            match va.data[1] {
                0 => {
                    if !inside {
                        out.push(viol("P25", "vault is idle but the asset is not in its custody"));
                    }
                    if n != 0 {
                        out.push(viol("P25", "vault is idle but it holds the original token"));
                    }
                }
                _ => {
                    if inside {
                        out.push(viol("P25", "vault is active but the asset is in its custody"));
                    }
                    if n != 1 {
                        out.push(viol("P25", "vault is active but it does not hold the original token"));
                    }
                }
            }
        }
        out
    }
}

pub fn episode(seed: u64, cx: &mut Ctx) {
    let mut bw = BWorld::new(seed);
    let mut n = 0;
    while n < 70 {
        n += 1;
        for st in bw.plan() {
            n += 1;
            if step(&mut bw, &st, cx).is_none() {
                return;
            }
        }
        if cx.found.len() > 8 {
            return;
        }
    }
}

fn show_bridge(ix: &Ix) -> String {
    let m: Vec<String> = ix.metas.iter().map(|m| format!("{}{}{}", short(&m.key), if m.signer { "+s" } else { "" }, if m.writable { "+w" } else { "" })).collect();
    format!("bridge program {:?} [{}]", ix.data, m.join(" "))
}

fn step(bw: &mut BWorld, st: &Step, cx: &mut Ctx) -> Option<()> {
    let svm = &mut bw.w.svm;
    let mine = st.ix.program == ids::bridge();
    let (p, prop, kind) = if mine {
        let b = predict_bridge(&svm.db, &st.ix);
        (b.p, b.prop, b.kind)
    } else {
        (predict(&svm.db, &st.ix, st.height), "P25 P26", "asset")
    };
    let ix = if st.height == 2 {
        let mut metas = vec![r_(st.ix.program)];
        metas.extend(st.ix.metas.iter().copied());
        Ix { program: RELAY, metas, data: st.ix.data.clone() }
    } else {
        st.ix.clone()
    };
    let what = if mine { show_bridge(&st.ix) } else { show(&st.ix) };
    cx.begin(&what, if mine && p.fail.is_empty() && !p.either { prop } else { "" });
    let before: Db = p.post.keys().filter_map(|k| svm.db.get(k).map(|a| (*k, a.clone()))).collect();
    let res = svm.exec(&[ix]);
    cx.stats.steps += 1;
    cx.stats.cpis += svm.cpi_count as u64;
    cx.log(format!("{what} ({}) -> {res:?}", p.tag));
    let mut vs = judge(&before, &svm.db, &p, &res);
    for u in svm.ub.drain(..) {
        vs.push(viol("P21", u));
    }
    let rel = mine && prop.contains(cx.prop.as_str());
    if res.is_ok() {
        cx.stats.accepted += 1;
        let touched: Vec<Key> = p.post.keys().copied().collect();
        vs.extend(invariants(&bw.w.svm.db, &touched, &bw.w.phantom));
        vs.extend(bw.custody());
        cx.stats.label(format!("ok {}{}", p.tag, if st.height == 2 { " cpi" } else { "" }), rel);
        if rel && cx.stats.samples.len() < 2 && cx.stats.steps % 23 == 0 {
            cx.stats.samples.push(format!("{what} ({}) -> accepted, as predicted", p.tag));
        }
    } else {
        cx.stats.refused += 1;
        if matches!(res, Err(Fail::Panic(_))) {
            cx.stats.panics += 1;
        }
        let why: Vec<&str> = p.fail.iter().map(|f| f.0.as_str()).collect();
        if why.is_empty() {
            cx.stats.label(format!("open {}", p.tag), false);
        } else {
            cx.stats.label(format!("refused {kind}: {}", why.join("; ")), rel);
            if rel && cx.stats.samples.len() < 4 && cx.stats.steps % 23 == 0 {
                cx.stats.samples.push(format!("{what} -> refused, as required: {}", why.join("; ")));
            }
        }
    }
    for mut v in vs {
        if mine {
            for x in prop.split_whitespace() {
                if !v.props.iter().any(|y| y == x) {
                    v.props.push(x.into());
                }
            }
        }
        cx.report(v);
    }
    if bw.w.svm.db.values().any(|a| matches!(lift(a).body, Body::Corrupt(_))) {
        return None;
    }
    Some(())
}
