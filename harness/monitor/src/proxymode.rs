//! Histories of the proxy program (together with the asset program), judged step by step.
use crate::assetmode::show;
use crate::check::*;
use crate::gen::*;
use crate::model::*;
use crate::svm::*;
use crate::view::*;
use crate::{ids, Ctx};
use std::collections::BTreeMap;
use std::sync::OnceLock;

const P: &str = "P24";

/// Content of the image extension of a new asset, as observed once on a plain creation.
fn template() -> &'static Vec<u8> {
    static T: OnceLock<Vec<u8>> = OnceLock::new();
    T.get_or_init(|| {
        let mut s = Svm::new();
        let (w, stub) = ([5u8; 32], [6u8; 32]);
        s.db.insert(w, Acct::sys(10_000_000_000));
        let a = ids::pda(&[&stub], &ids::proxy()).0;
        let ix = create_ix(a, stub, w, w, Some(w), "t");
        let r = s.exec(&[ix]);
        let seen = match (r, lift(&s.get(&a)).body) {
            (Ok(()), Body::Asset(m)) => m.ext(BLOB).map(|e| e.data.clone()).filter(|d| crate::wf::shape(BLOB, d) == crate::wf::Wf::Good),
            _ => None,
        };
        // a stand-in keeps creations legitimate when the plain one fails, so that this is noticed
        seen.unwrap_or_else(|| b"\x0dimage/svg+xml000,000,000".to_vec())
    })
}
fn window() -> Option<usize> {
    let t = template();
    t.windows(11).position(|w| w == b"000,000,000")
}

fn create_data(name: &str) -> Vec<u8> {
    let mut d = vec![0u8];
    d.extend((name.len() as u32).to_le_bytes());
    d.extend(name.as_bytes());
    d
}
fn create_ix(asset: Key, stub: Key, owner: Key, authority: Key, payer: Option<Key>, name: &str) -> Ix {
    let (p, s) = match payer {
        Some(k) => (sw(k), r_(SYSTEM)),
        None => (r_(ids::proxy()), r_(ids::proxy())),
    };
    Ix { program: ids::proxy(), metas: vec![w_(asset), s_(stub), r_(owner), s_(authority), p, s, r_(ids::asset())], data: create_data(name) }
}

fn counter(n: i64) -> Vec<u8> {
    let mut o = vec![];
    pstr_put(&mut o, b"transfers");
    pstr_put(&mut o, format!("{n:>12}").as_bytes());
    o
}
fn stamp(ts: i64) -> Vec<u8> {
    let mut o = vec![];
    pstr_put(&mut o, b"last_transferred");
    o.push(1);
    o.extend((ts as u64).to_le_bytes());
    o
}
fn read_counter(m: &AssetM) -> Option<i64> {
    let d = &m.ext(ATTRIBUTES)?.data;
    if d.len() != 23 || &d[..10] != b"\x09transfers" || d[10] != 12 {
        return None;
    }
    std::str::from_utf8(&d[11..]).ok()?.trim().parse().ok()
}

fn proxy_of(key: &Key, a: &Acct) -> Option<AssetM> {
    if a.owner != ids::asset() {
        return None;
    }
    let m = parse(&a.data).ok()?;
    let d = &m.ext(PROXY)?.data;
    if d.len() != 97 {
        return None;
    }
    let r = solana_program::pubkey::Pubkey::create_program_address(&[&d[32..64], &[d[64]]], &solana_program::pubkey::Pubkey::from(ids::proxy())).ok()?;
    (r.to_bytes() == *key).then_some(m)
}
/// Any account whose bytes can be read as carrying proxy data.
fn lookalike(a: &Acct) -> bool {
    a.data.len() > BASE
}

fn base(db: &BTreeMap<Key, Acct>, metas: &[Meta]) -> Pred {
    let mut p = Pred::default();
    for m in metas {
        p.post.insert(m.key, lift(&db.get(&m.key).cloned().unwrap_or_default()));
    }
    p.liveness = P.into();
    p
}
fn absorb(p: &mut Pred, q: Pred) {
    for f in q.fail {
        p.fail.push((f.0, P));
    }
    p.either |= q.either;
    p.unknown |= q.unknown;
    p.unordered |= q.unordered;
    p.tag.push_str(&format!(" {}", q.tag));
    for (k, v) in q.post {
        p.post.insert(k, v);
    }
    p.loose.extend(q.loose);
    p.subject = q.subject;
}

pub fn predict_proxy(db: &BTreeMap<Key, Acct>, ix: &Ix, ts: i64) -> Pred {
    let mut metas = ix.metas.clone();
    for i in 0..metas.len() {
        for j in 0..metas.len() {
            if ix.metas[i].key == ix.metas[j].key {
                metas[i].signer |= ix.metas[j].signer;
                metas[i].writable |= ix.metas[j].writable;
            }
        }
    }
    let mut p = base(db, &metas);
    let none_p = ids::proxy();
    // creation
    if ix.data.first() == Some(&0) && ix.data.len() >= 5 {
        let n = u32::from_le_bytes(ix.data[1..5].try_into().unwrap()) as usize;
        let name = String::from_utf8(ix.data[5..].to_vec());
        if let (true, Ok(name)) = (ix.data.len() == 5 + n, name) {
            p.tag = "proxy-create".into();
            p.op = Some(Op::Create { name: name.clone(), standard: 3, mutable: true, exts: None });
            if metas.len() < 7 {
                p.fail.push(("missing accounts".into(), P));
                return p;
            }
            let (a, stub, owner, auth) = (metas[0], metas[1], metas[2], metas[3]);
            if !auth.signer {
                p.fail.push(("authority did not sign".into(), P));
            }
            if !stub.signer {
                p.fail.push(("stub did not sign".into(), P));
            }
            let (key, bump) = ids::pda(&[&stub.key], &ids::proxy());
            if key != a.key {
                p.fail.push(("asset is not derived from the stub".into(), P));
                return p;
            }
            if !metas.iter().any(|m| m.key == ids::asset()) {
                p.fail.push(("asset program missing".into(), P));
            } else if metas[6].key != ids::asset() {
                p.either = true;
            }
            let opt = |m: Meta| if m.key == none_p { none() } else { m };
            let mut proxy = none_p.to_vec();
            proxy.extend(stub.key);
            proxy.push(bump);
            proxy.extend(auth.key);
            let exts = [(ATTRIBUTES, counter(0)), (BLOB, template().clone()), (PROXY, proxy), (PROPERTIES, stamp(ts))];
            let op = Op::Create {
                name,
                standard: 3,
                mutable: true,
                exts: Some(exts.into_iter().map(|(t, d)| World::ext_in(t, d)).collect()),
            };
            let inner = Ix {
                program: ids::asset(),
                metas: vec![
                    Meta { key: a.key, signer: true, writable: a.writable },
                    s_(a.key),
                    Meta { signer: false, ..owner },
                    none(),
                    none(),
                    opt(metas[4]),
                    opt(metas[5]),
                ],
                data: op.encode(),
            };
            let q = predict(db, &inner, 2);
            absorb(&mut p, q);
            // an address in use as the wallet paying, or a pre-funded one, stays out of scope
            return p;
        }
    }
    let op = decode(&ix.data);
    p.op = op.clone();
    p.tag = format!("proxy-{}", op.as_ref().map_or("raw", |o| o.name()));
    if metas.is_empty() {
        p.fail.push(("missing accounts".into(), P));
        return p;
    }
    let a = metas[0];
    let acct = db.get(&a.key).cloned().unwrap_or_default();
    let m = match proxy_of(&a.key, &acct) {
        Some(m) => m,
        None => {
            // the proxy program has no signature to add for this account
            if a.signer && lookalike(&acct) {
                p.either = true;
                p.unknown = true;
            } else {
                p.fail.push(("not an asset of this proxy program".into(), P));
            }
            return p;
        }
    };
    let has_prog = |from: usize| metas.iter().skip(from).any(|m| m.key == ids::asset());
    match &op {
        Some(Op::Transfer) => {
            if metas.len() < 4 {
                p.fail.push(("missing accounts".into(), P));
                return p;
            }
            if !has_prog(4) {
                p.fail.push(("asset program missing".into(), P));
            }
            if !a.writable {
                p.fail.push(("asset is read-only".into(), P));
            }
            if !m.mutable {
                p.fail.push(("immutable asset: the transfer cannot be counted".into(), P));
            }
            if m.authority != a.key {
                p.fail.push(("the asset is not its own authority".into(), P));
            }
            let mut s = metas[1];
            if s.key == a.key {
                s.signer = true;
                p.either = true;
            }
            if metas[3].key != ids::asset() {
                p.tag.push_str(" group-passed");
            }
            let inner = Ix {
                program: ids::asset(),
                metas: vec![Meta { signer: true, ..a }, s, Meta { signer: metas[2].key == s.key && s.signer, writable: false, key: metas[2].key }, none()],
                data: Op::Transfer.encode(),
            };
            let q = predict(db, &inner, 2);
            // the group is not handed on; presenting the right one is not a reason to refuse or accept
            absorb(&mut p, q);
            let Some(n) = read_counter(&m) else {
                p.unknown = true;
                p.either = true;
                return p;
            };
            if p.fail.is_empty() && !p.unknown {
                if let Body::Asset(x) = &mut p.post.get_mut(&a.key).unwrap().body {
                    if let Some(e) = x.ext_mut(ATTRIBUTES) {
                        e.data = counter(n + 1);
                    }
                    if let Some(e) = x.ext_mut(PROPERTIES) {
                        e.data = stamp(ts);
                    }
                }
            }
        }
        Some(Op::Update { name, mutable, ext }) => {
            if metas.len() < 6 {
                p.fail.push(("missing accounts".into(), P));
                return p;
            }
            if !has_prog(6) {
                p.fail.push(("asset program missing".into(), P));
            }
            if !a.writable {
                p.fail.push(("asset is read-only".into(), P));
            }
            let auth = k32(&m.ext(PROXY).unwrap().data[65..]);
            if !metas[1].signer {
                p.fail.push(("proxy authority did not sign".into(), P));
            }
            if auth == ZERO || auth != metas[1].key {
                p.fail.push(("not the proxy authority".into(), P));
            }
            if ext.is_some() {
                p.tag.push_str(" ext-ignored");
            }
            let inner = Ix {
                program: ids::asset(),
                metas: vec![Meta { signer: true, ..a }, s_(a.key), none(), none(), none(), none()],
                data: Op::Update { name: name.clone(), mutable: *mutable, ext: None }.encode(),
            };
            let q = predict(db, &inner, 2);
            absorb(&mut p, q);
        }
        _ => {
            if metas[1..].iter().any(|m| m.key == a.key) {
                p.fail.push(("the asset's signature would be lent to another role".into(), P));
            }
            if !has_prog(0) {
                p.fail.push(("asset program missing".into(), P));
            }
            let mut im = metas.clone();
            im[0].signer = true;
            let inner = Ix { program: ids::asset(), metas: im, data: ix.data.clone() };
            let q = predict(db, &inner, 2);
            absorb(&mut p, q);
        }
    }
    p
}

struct PWorld {
    w: World,
    stubs: Vec<(Key, Key)>,
    fakes: Vec<Key>,
}

impl PWorld {
    fn new(seed: u64) -> PWorld {
        let mut b = bias_for("P24");
        b.grouped = 15;
        let mut w = World::new(seed, &b);
        let mut stubs = vec![];
        for _ in 0..4 {
            // stubs may be twins of one another
            let s = match stubs.last() {
                Some((k, _)) if w.r.pct(40) => {
                    let mut k: Key = *k;
                    k[w.r.below(32)] ^= 1;
                    k
                }
                _ => w.r.key(),
            };
            if stubs.iter().any(|x: &(Key, Key)| x.0 == s) {
                continue;
            }
            let a = ids::pda(&[&s], &ids::proxy()).0;
            stubs.push((s, a));
            w.slots.push(a);
            w.derived.push(a);
        }
        PWorld { w, stubs, fakes: vec![] }
    }
    fn is_pda(&self, k: &Key) -> bool {
        self.stubs.iter().any(|s| s.1 == *k)
    }
    fn live(&self) -> Vec<Key> {
        self.stubs.iter().map(|s| s.1).filter(|k| self.w.asset(k).map_or(false, |m| m.created())).collect()
    }
    /// an account of another program holding a copy of a proxied asset
    fn fake(&mut self) {
        let l = self.live();
        if l.is_empty() || self.fakes.len() > 3 {
            return;
        }
        let src = *self.w.r.pick(&l);
        let mut a = self.w.svm.get(&src);
        a.owner = *self.w.r.pick(&self.w.progs);
        if self.w.r.pct(50) {
            let k = self.w.wallet();
            a.data[4..36].copy_from_slice(&k);
        }
        if self.w.r.pct(40) {
            // with a different proxy authority
            let k = self.w.wallet();
            if let Some(i) = parse(&a.data).ok().and_then(|m| m.idx(PROXY).map(|i| m.offset(i) + HDR + 65)) {
                a.data[i..i + 32].copy_from_slice(&k);
            }
        }
        let k = self.w.r.key();
        self.w.svm.db.insert(k, a);
        self.fakes.push(k);
        self.w.foreign.push(k);
    }
    fn plan(&mut self) -> Vec<Step> {
        let live = self.live();
        let kind = self.w.r.below(100);
        let mut steps = vec![];
        if kind < 15 || live.is_empty() {
            let (mut stub, mut a) = *self.w.r.pick(&self.stubs);
            match self.w.r.below(12) {
                0 => a = self.w.r.pick(&self.stubs).1,
                1 => stub = self.w.r.pick(&self.stubs).0,
                2 => stub = self.w.anykey(),
                _ => (),
            }
            let (owner, auth) = (if self.w.r.pct(85) { self.w.wallet() } else { self.w.anykey() }, self.w.wallet());
            let payer = if self.w.r.pct(93) { Some(self.w.rich()) } else { None };
            let name: String = (0..self.w.r.below(38)).map(|_| (b'a' + self.w.r.below(26) as u8) as char).collect();
            steps.push(create_ix(a, stub, owner, auth, payer, &name));
        } else if kind < 45 {
            let k = *self.w.r.pick(&live);
            let m = self.w.asset(&k).unwrap();
            let s = if m.delegate != ZERO && self.w.r.pct(35) {
                m.delegate
            } else if self.w.r.pct(75) {
                m.owner
            } else {
                self.w.wallet()
            };
            let to = match self.w.r.below(12) {
                0 => m.owner,
                1 => self.w.anykey(),
                2 => *self.w.r.pick(&self.w.slots),
                _ => self.w.wallet(),
            };
            let g = if m.group != ZERO && self.w.r.pct(50) { r_(m.group) } else { none() };
            steps.push(Ix { program: ids::proxy(), metas: vec![w_(k), s_(s), r_(to), g, r_(ids::asset())], data: vec![7] });
        } else if kind < 58 {
            let k = *self.w.r.pick(&live);
            let m = self.w.asset(&k).unwrap();
            let auth = if self.w.r.pct(70) { m.ext(PROXY).map(|e| k32(&e.data[65..])).unwrap_or(m.owner) } else { *self.w.r.pick(&[m.owner, self.w.wallets[0], k, m.authority]) };
            let ext = if self.w.r.pct(20) {
                let t = *self.w.r.pick(&[ATTRIBUTES, LINKS, PROPERTIES, PROXY, BLOB]);
                let d = self.w.ext_data(t, &k);
                Some(World::ext_in(t, d))
            } else {
                None
            };
            let op = Op::Update {
                name: if self.w.r.pct(70) { Some(format!("n{}", self.w.r.below(1000))) } else { None },
                mutable: if self.w.r.pct(6) { Some(false) } else if self.w.r.pct(20) { Some(true) } else { None },
                ext,
            };
            steps.push(Ix { program: ids::proxy(), metas: vec![w_(k), s_(auth), none(), none(), none(), none(), r_(ids::asset())], data: op.encode() });
        } else {
            let focus = self.w.r.pct(80);
            let saved = self.w.slots.clone();
            if focus {
                // operations of the asset program aimed at a proxied asset
                let k = *self.w.r.pick(&live);
                self.w.focus = Some(k);
            }
            let l = self.w.plan();
            self.w.focus = None;
            let _ = saved;
            for st in l {
                let mut ix = st.ix;
                let mine = ix.metas.first().map_or(false, |m| self.is_pda(&m.key));
                if self.w.r.pct(if mine { 85 } else { 12 }) {
                    ix.program = ids::proxy();
                    ix.metas.push(r_(ids::asset()));
                }
                steps.push(ix);
            }
        }
        let n = steps.len();
        let mut out = vec![];
        for (i, mut ix) in steps.into_iter().enumerate() {
            if i + 1 == n && self.w.r.pct(40) {
                for _ in 0..self.w.r.range(1, 2) {
                    self.mutate(&mut ix);
                }
            }
            for m in ix.metas.iter_mut() {
                if self.is_pda(&m.key) {
                    m.signer = false;
                }
            }
            let height = if self.w.r.pct(10) { 2 } else { 1 };
            out.push(Step { ix, height, topup: None, revive: None });
        }
        out
    }
    fn mutate(&mut self, ix: &mut Ix) {
        let n = ix.metas.len().max(1);
        let i = self.w.r.below(n);
        if ix.metas.is_empty() {
            return;
        }
        match self.w.r.below(11) {
            0 => ix.metas[i].signer = false,
            1 => {
                let k = self.w.wallet();
                ix.metas[i].key = k;
            }
            2 => {
                // the asset in another role
                let k = ix.metas[0].key;
                ix.metas[i].key = k;
            }
            3 => {
                let k = self.w.anykey();
                ix.metas[i].key = k;
            }
            4 => ix.metas[i].writable = !ix.metas[i].writable,
            5 => {
                ix.metas.pop();
            }
            6 => {
                let l = self.stubs.clone();
                let k = self.w.r.pick(&l).1;
                ix.metas[i].key = k;
            }
            7 => {
                self.fake();
                if !self.fakes.is_empty() {
                    let k = *self.w.r.pick(&self.fakes);
                    ix.metas[if self.w.r.pct(70) { 0 } else { i }].key = k;
                }
            }
            8 => ix.metas.push(r_(ids::asset())),
            9 => {
                let j = self.w.r.below(n);
                let (a, b) = (ix.metas[i].key, ix.metas[j].key);
                ix.metas[i].key = b;
                ix.metas[j].key = a;
            }
            _ => self.w.mutate(ix),
        }
    }
}

pub fn episode(seed: u64, cx: &mut Ctx) {
    let mut pw = PWorld::new(seed);
    // shadow: completed transfers per asset since its creation, its name, its proxy data
    let mut shadow: BTreeMap<Key, (i64, Vec<u8>)> = BTreeMap::new();
    let mut n = 0;
    while n < 70 {
        for st in pw.plan() {
            n += 1;
            if pw.w.r.pct(30) {
                pw.w.svm.ts = match pw.w.r.below(6) {
                    0 => 0,
                    1 => i64::MAX,
                    2 => -1,
                    _ => pw.w.svm.ts.wrapping_add(pw.w.r.below(1000) as i64),
                };
            }
            if step(&mut pw, &st, &mut shadow, cx).is_none() {
                return;
            }
        }
        if cx.found.len() > 8 {
            return;
        }
    }
}

fn step(pw: &mut PWorld, st: &Step, shadow: &mut BTreeMap<Key, (i64, Vec<u8>)>, cx: &mut Ctx) -> Option<()> {
    let svm = &mut pw.w.svm;
    let via = st.ix.program == ids::proxy();
    let mut p = if via { predict_proxy(&svm.db, &st.ix, svm.ts) } else { predict(&svm.db, &st.ix, st.height) };
    let ix = if st.height == 2 {
        let mut metas = vec![r_(st.ix.program)];
        metas.extend(st.ix.metas.iter().copied());
        Ix { program: RELAY, metas, data: st.ix.data.clone() }
    } else {
        st.ix.clone()
    };
    let what = format!("{}{}", if via { "proxy program: " } else { "" }, show(&st.ix));
    cx.begin(&what, if p.fail.is_empty() && !p.either { P } else { "" });
    let before: BTreeMap<Key, Acct> = p.post.keys().filter_map(|k| svm.db.get(k).map(|a| (*k, a.clone()))).collect();
    let res = svm.exec(&[ix]);
    cx.stats.steps += 1;
    cx.stats.cpis += svm.cpi_count as u64;
    cx.log(format!("{what} -> {res:?}"));
    // the colour of the image is free, the rest of it is not
    if res.is_ok() && via && matches!(p.op, Some(Op::Transfer)) && p.fail.is_empty() && !p.unknown {
        let k = st.ix.metas[0].key;
        let act = lift(&svm.get(&k));
        if let (Body::Asset(x), Some(Body::Asset(y)), Some(wn)) = (&act.body, p.post.get_mut(&k).map(|a| &mut a.body), window()) {
            if let (Some(a), Some(e)) = (x.ext(BLOB), y.ext_mut(BLOB)) {
                if a.data.len() == e.data.len() && e.data.len() >= wn + 11 {
                    e.data[wn..wn + 11].copy_from_slice(&a.data[wn..wn + 11]);
                }
            }
        }
    }
    let mut vs = judge(&before, &svm.db, &p, &res);
    for u in svm.ub.drain(..) {
        vs.push(viol("P21", u));
    }
    let first = st.ix.metas.first().map(|m| m.key).unwrap_or(ZERO);
    let touched: Vec<Key> = p.post.keys().copied().collect();
    let stake = via || touched.iter().any(|k| pw.stubs.iter().any(|s| s.1 == *k));
    let svm = &mut pw.w.svm;
    if res.is_ok() {
        cx.stats.accepted += 1;
        vs.extend(invariants(&svm.db, &touched, &pw.w.phantom));
        // shadow state of the proxied assets, independent of the predicted effect
        for (_, k) in &pw.stubs {
            let live = proxy_of(k, &svm.get(k)).filter(|m| m.created());
            match (live, shadow.get(k).cloned()) {
                (None, Some(_)) => {
                    shadow.remove(k);
                    if !(via && *k == first && matches!(decode(&st.ix.data), Some(Op::Burn))) {
                        vs.push(viol(P, "a proxied asset disappeared without being burned through its proxy"));
                    }
                }
                (None, None) => (),
                (Some(m), old) => {
                    let proxy = m.ext(PROXY).unwrap().data.clone();
                    let c = read_counter(&m);
                    let t = (old.is_some() && via && *k == first && matches!(decode(&st.ix.data), Some(Op::Transfer))) as i64;
                    let (want, pd) = old.unwrap_or((0, proxy.clone()));
                    if c != Some(want + t) {
                        vs.push(viol(P, format!("transfer counter {c:?} after {} completed transfers", want + t)));
                    }
                    if pd != proxy {
                        vs.push(viol("P24 P07", "the proxy data changed"));
                    }
                    if m.authority != *k {
                        vs.push(viol(P, "a proxied asset left the control of its proxy"));
                    }
                    shadow.insert(*k, (c.unwrap_or(want + t), proxy));
                }
            }
        }
        cx.stats.label(format!("ok {}{}", p.tag, if st.height == 2 { " cpi" } else { "" }), stake);
        if stake && cx.stats.samples.len() < 2 && cx.stats.steps % 23 == 0 {
            cx.stats.samples.push(format!("{what} -> accepted, as predicted"));
        }
    } else {
        cx.stats.refused += 1;
        if matches!(res, Err(Fail::Panic(_))) {
            cx.stats.panics += 1;
        }
        let why: Vec<&str> = p.fail.iter().map(|f| f.0.as_str()).collect();
        if why.is_empty() {
            cx.stats.label(format!("open {}", p.tag), false);
        } else {
            if stake && cx.stats.samples.len() < 4 && cx.stats.steps % 23 == 0 {
                cx.stats.samples.push(format!("{what} -> refused, as required: {}", why.join("; ")));
            }
            let name = p.op.as_ref().map_or("raw", |o| o.name());
            cx.stats.label(format!("refused {}{name}: {}", if via { "proxy " } else { "" }, why.join("; ")), stake);
        }
    }
    p.tag.clear();
    for mut v in vs {
        if stake && !v.props.iter().any(|x| x == P) {
            v.props.push(P.into());
        }
        cx.report(v);
    }
    if pw.w.svm.db.values().any(|a| matches!(lift(a).body, Body::Corrupt(_))) {
        return None;
    }
    Some(())
}
