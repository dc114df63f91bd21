//! Reference semantics of the asset program: from the state before an instruction it predicts
//! whether the instruction must be refused, and the state afterwards.
use crate::ids;
use crate::svm::{rent_min, Acct, Ix, Key, Meta, SYSTEM};
use crate::view::*;
use crate::wf::{self, Wf, Who};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct ExtIn {
    pub ty: u8,
    pub len: u32,
    pub data: Option<Vec<u8>>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum DelIn {
    All,
    Some(Vec<u8>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Close,
    Burn,
    Create { name: String, standard: u8, mutable: bool, exts: Option<Vec<ExtIn>> },
    Approve(DelIn),
    Allocate(ExtIn),
    Lock,
    Revoke(DelIn),
    Transfer,
    Unlock,
    Unverify,
    Update { name: Option<String>, mutable: Option<bool>, ext: Option<ExtIn> },
    Verify,
    Write { overwrite: bool, bytes: Vec<u8> },
    Group,
    Ungroup,
    Handover,
    Remove(u8),
    Trim,
    Extend(u16),
}

impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::Close => "Close",
            Op::Burn => "Burn",
            Op::Create { .. } => "Create",
            Op::Approve(_) => "Approve",
            Op::Allocate(_) => "Allocate",
            Op::Lock => "Lock",
            Op::Revoke(_) => "Revoke",
            Op::Transfer => "Transfer",
            Op::Unlock => "Unlock",
            Op::Unverify => "Unverify",
            Op::Update { .. } => "Update",
            Op::Verify => "Verify",
            Op::Write { .. } => "Write",
            Op::Group => "Group",
            Op::Ungroup => "Ungroup",
            Op::Handover => "Handover",
            Op::Remove(_) => "Remove",
            Op::Trim | Op::Extend(_) => "Resize",
        }
    }
    /// number of declared accounts
    pub fn arity(&self) -> usize {
        match self {
            Op::Close | Op::Lock | Op::Revoke(_) | Op::Unlock | Op::Unverify | Op::Verify => 2,
            Op::Approve(_) | Op::Allocate(_) | Op::Write { .. } | Op::Group | Op::Ungroup | Op::Handover => 3,
            Op::Burn | Op::Transfer | Op::Remove(_) | Op::Trim | Op::Extend(_) => 4,
            Op::Update { .. } => 6,
            Op::Create { .. } => 7,
        }
    }
    /// properties violated when a legitimate request is refused
    pub fn liveness(&self) -> &'static str {
        match self {
            Op::Close => "P02",
            Op::Burn => "P02",
            Op::Create { .. } => "P18 P07 P15 P13",
            Op::Approve(_) => "P04",
            Op::Allocate(_) => "P13",
            Op::Lock | Op::Unlock => "P03",
            Op::Revoke(_) => "P04",
            Op::Transfer => "P01",
            Op::Verify | Op::Unverify => "P14",
            Op::Update { .. } => "P10 P12",
            Op::Write { .. } => "P13 P15",
            Op::Group => "P09 P08",
            Op::Ungroup => "P09 P08",
            Op::Handover => "P10",
            Op::Remove(_) => "P10 P12",
            Op::Trim | Op::Extend(_) => "P10 P12 P16",
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut o = vec![];
        let ext = |o: &mut Vec<u8>, e: &ExtIn| {
            o.push(e.ty);
            o.extend(e.len.to_le_bytes());
            match &e.data {
                None => o.push(0),
                Some(d) => {
                    o.push(1);
                    o.extend((d.len() as u32).to_le_bytes());
                    o.extend(d);
                }
            }
        };
        let del = |o: &mut Vec<u8>, d: &DelIn| match d {
            DelIn::All => o.push(0),
            DelIn::Some(r) => {
                o.push(1);
                o.extend((r.len() as u32).to_le_bytes());
                o.extend(r);
            }
        };
        let st = |o: &mut Vec<u8>, s: &str| {
            o.extend((s.len() as u32).to_le_bytes());
            o.extend(s.as_bytes());
        };
        match self {
            Op::Close => o.push(0),
            Op::Burn => o.push(1),
            Op::Create { name, standard, mutable, exts } => {
                o.push(2);
                st(&mut o, name);
                o.push(*standard);
                o.push(*mutable as u8);
                match exts {
                    None => o.push(0),
                    Some(v) => {
                        o.push(1);
                        o.extend((v.len() as u32).to_le_bytes());
                        v.iter().for_each(|e| ext(&mut o, e));
                    }
                }
            }
            Op::Approve(d) => {
                o.push(3);
                del(&mut o, d)
            }
            Op::Allocate(e) => {
                o.push(4);
                ext(&mut o, e)
            }
            Op::Lock => o.push(5),
            Op::Revoke(d) => {
                o.push(6);
                del(&mut o, d)
            }
            Op::Transfer => o.push(7),
            Op::Unlock => o.push(8),
            Op::Unverify => o.push(9),
            Op::Update { name, mutable, ext: e } => {
                o.push(10);
                match name {
                    None => o.push(0),
                    Some(n) => {
                        o.push(1);
                        st(&mut o, n)
                    }
                }
                match mutable {
                    None => o.push(0),
                    Some(m) => o.extend([1, *m as u8]),
                }
                match e {
                    None => o.push(0),
                    Some(e) => {
                        o.push(1);
                        ext(&mut o, e)
                    }
                }
            }
            Op::Verify => o.push(11),
            Op::Write { overwrite, bytes } => {
                o.push(12);
                o.push(*overwrite as u8);
                o.extend((bytes.len() as u32).to_le_bytes());
                o.extend(bytes);
            }
            Op::Group => o.push(13),
            Op::Ungroup => o.push(14),
            Op::Handover => o.push(15),
            Op::Remove(t) => o.extend([16, *t]),
            Op::Trim => o.extend([17, 0]),
            Op::Extend(v) => {
                o.extend([17, 1]);
                o.extend(v.to_le_bytes());
            }
        }
        o
    }
}

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn u8(&mut self) -> Option<u8> {
        self.take(1).map(|b| b[0])
    }
    fn u32(&mut self) -> Option<u32> {
        self.take(4).map(|b| u32::from_le_bytes(b.try_into().unwrap()))
    }
    fn bool(&mut self) -> Option<bool> {
        match self.u8()? {
            0 => Some(false),
            1 => Some(true),
            _ => None,
        }
    }
    fn bytes(&mut self) -> Option<Vec<u8>> {
        let n = self.u32()? as usize;
        self.take(n).map(|b| b.to_vec())
    }
    fn string(&mut self) -> Option<String> {
        String::from_utf8(self.bytes()?).ok()
    }
    fn opt<T>(&mut self, f: impl Fn(&mut Self) -> Option<T>) -> Option<Option<T>> {
        match self.u8()? {
            0 => Some(None),
            1 => f(self).map(Some),
            _ => None,
        }
    }
    fn ext(&mut self) -> Option<ExtIn> {
        let ty = self.u8()?;
        if ty > 11 {
            return None;
        }
        Some(ExtIn { ty, len: self.u32()?, data: self.opt(|s| s.bytes())? })
    }
    fn del(&mut self) -> Option<DelIn> {
        match self.u8()? {
            0 => Some(DelIn::All),
            1 => {
                let v = self.bytes()?;
                if v.iter().any(|r| *r > 3) {
                    return None;
                }
                Some(DelIn::Some(v))
            }
            _ => None,
        }
    }
}

pub fn decode(d: &[u8]) -> Option<Op> {
    let mut r = Rd(d);
    let op = match r.u8()? {
        0 => Op::Close,
        1 => Op::Burn,
        2 => {
            let name = r.string()?;
            let standard = r.u8()?;
            if standard > 3 {
                return None;
            }
            let mutable = r.bool()?;
            let exts = r.opt(|r| {
                let n = r.u32()?;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(r.ext()?);
                }
                Some(v)
            })?;
            Op::Create { name, standard, mutable, exts }
        }
        3 => Op::Approve(r.del()?),
        4 => Op::Allocate(r.ext()?),
        5 => Op::Lock,
        6 => Op::Revoke(r.del()?),
        7 => Op::Transfer,
        8 => Op::Unlock,
        9 => Op::Unverify,
        10 => Op::Update { name: r.opt(|r| r.string())?, mutable: r.opt(|r| r.bool())?, ext: r.opt(|r| r.ext())? },
        11 => Op::Verify,
        12 => Op::Write { overwrite: r.bool()?, bytes: r.bytes()? },
        13 => Op::Group,
        14 => Op::Ungroup,
        15 => Op::Handover,
        16 => {
            let t = r.u8()?;
            if t > 11 {
                return None;
            }
            Op::Remove(t)
        }
        17 => match r.u8()? {
            0 => Op::Trim,
            1 => Op::Extend(u16::from_le_bytes(r.take(2)?.try_into().ok()?)),
            _ => return None,
        },
        _ => return None,
    };
    r.0.is_empty().then_some(op)
}

/// Why an instruction has to be refused, with the properties at stake.
pub type Reason = (String, &'static str);

#[derive(Default)]
pub struct Pred {
    pub op: Option<Op>,
    pub fail: Vec<Reason>,
    /// both outcomes are acceptable
    pub either: bool,
    /// the resulting state is not predicted (only invariants are checked)
    pub unknown: bool,
    pub post: BTreeMap<Key, MAcct>,
    /// extension data of these accounts is not predicted
    pub loose: Vec<Key>,
    pub unordered: bool,
    pub liveness: String,
    pub subject: Option<Key>,
    /// situation label for coverage accounting
    pub tag: String,
}

pub fn name35(n: &str) -> Vec<u8> {
    let mut v = n.as_bytes().to_vec();
    v.resize(35, 0);
    v
}

pub fn role_mask(r: u8) -> u8 {
    match r {
        1 => 1,
        2 => 2,
        3 => 4,
        _ => 0,
    }
}
pub const R_TRANSFER: u8 = 1;
pub const R_LOCK: u8 = 2;
pub const R_BURN: u8 = 4;

struct Cx<'a> {
    db: &'a BTreeMap<Key, Acct>,
    metas: Vec<Meta>,
    p: Pred,
    orig_len: BTreeMap<Key, usize>,
}

struct Stop;
type R<T> = Result<T, Stop>;

fn has(d: Option<(Key, u8)>, k: &Key, role: u8) -> bool {
    matches!(d, Some((a, r)) if a == *k && r & role != 0)
}
pub fn may(a: &AssetM, k: &Key, role: u8) -> bool {
    a.owner == *k || has(a.delegate_opt(), k, role) || has(a.manager(), k, role)
}
pub fn may_lock(a: &AssetM, k: &Key) -> bool {
    has(a.manager(), k, R_LOCK)
        || match a.delegate_opt() {
            Some(d) => has(Some(d), k, R_LOCK),
            None => a.owner == *k,
        }
}

impl<'a> Cx<'a> {
    fn bad(&mut self, t: impl Into<String>, p: &'static str) {
        self.p.fail.push((t.into(), p));
    }
    fn stop<T>(&mut self, t: impl Into<String>, p: &'static str) -> R<T> {
        self.bad(t, p);
        Err(Stop)
    }
    fn need(&mut self, c: bool, t: &str, p: &'static str) {
        if !c {
            self.bad(t, p);
        }
    }
    fn tag(&mut self, t: &str) {
        self.p.tag.push(' ');
        self.p.tag.push_str(t);
    }
    fn acct(&mut self, k: &Key) -> MAcct {
        if let Some(a) = self.p.post.get(k) {
            return a.clone();
        }
        let a = self.db.get(k).cloned().unwrap_or_default();
        let m = lift(&a);
        self.orig_len.insert(*k, m.len);
        self.p.post.insert(*k, m.clone());
        m
    }
    fn put(&mut self, k: &Key, a: MAcct) {
        self.p.post.insert(*k, a);
    }
    fn m(&self, i: usize) -> Meta {
        self.metas[i]
    }
    fn opt(&self, i: usize) -> Option<Meta> {
        let m = self.metas[i];
        (m.key != ids::asset()).then_some(m)
    }
    /// The account as a created asset, or stop.
    fn created(&mut self, k: &Key, what: &str) -> R<AssetM> {
        let a = self.acct(k);
        if a.owner != ids::asset() {
            return self.stop(format!("{what} not owned by the program"), "P18");
        }
        match a.body {
            Body::Asset(m) if m.created() => Ok(m),
            Body::Corrupt(_) => {
                self.p.unknown = true;
                self.p.either = true;
                Err(Stop)
            }
            _ => self.stop(format!("{what} is not a created asset"), "P18"),
        }
    }
    fn set_asset(&mut self, k: &Key, m: AssetM) {
        let mut a = self.acct(k);
        a.body = Body::Asset(m);
        self.put(k, a);
    }
    fn move_lamports(&mut self, from: &Key, to: &Key, n: u64) {
        let mut f = self.acct(from);
        f.lamports -= n;
        self.put(from, f);
        let mut t = self.acct(to);
        t.lamports = t.lamports.saturating_add(n);
        self.put(to, t);
    }
    fn system_pay(&mut self, payer: Option<Meta>, sys: Option<Meta>, to: &Key, n: u64) -> R<()> {
        let p = match payer {
            Some(p) => p,
            None => return self.stop("no payer", "P16"),
        };
        match sys {
            None => return self.stop("no system program", "P18"),
            Some(s) if s.key != SYSTEM => return self.stop("wrong system program", "P18"),
            _ => (),
        }
        if !p.signer {
            return self.stop("payer did not sign", "P16");
        }
        let a = self.acct(&p.key);
        if a.owner != SYSTEM || a.len != 0 || p.key == *to {
            return self.stop("payer is not a wallet", "P16");
        }
        if a.lamports < n {
            return self.stop("payer without funds", "P16");
        }
        self.move_lamports(&p.key, to, n);
        Ok(())
    }
    fn resize(&mut self, k: &Key, size: usize, payer: Option<Meta>, sys: Option<Meta>) -> R<()> {
        let a = self.acct(k);
        if size < a.len {
            let excess = a.lamports.saturating_sub(rent_min(size));
            match payer {
                None => return self.stop("no account to refund", "P16"),
                Some(p) => self.move_lamports(k, &p.key, excess),
            }
            self.tag("shrink");
        } else {
            if size - a.len > 10_240 {
                return self.stop("growth limit", "P10 P12 P13 P16 P18");
            }
            let need = rent_min(size).saturating_sub(a.lamports);
            if need > 0 {
                self.system_pay(payer, sys, k, need)?;
                self.tag("grow");
            }
        }
        let mut a = self.acct(k);
        a.len = size;
        let o = self.orig_len[k];
        if size > o + 10_240 {
            return self.stop("growth limit", "P10 P12 P13 P16 P18");
        }
        self.put(k, a);
        Ok(())
    }
    fn signer(&mut self, m: Meta, what: &str, p: &'static str) {
        self.need(m.signer, &format!("{what} did not sign"), p);
    }
    fn who(&mut self, k: &Key) -> Who {
        let a = self.acct(k);
        Who { key: *k, owner: a.owner, empty: a.len == 0 }
    }
    /// Applies the royalty rule stored in `rules`, if any. Returns whether there is one.
    fn royalties(&mut self, rules: &AssetM, asset: &Key, signer: &Key, recipient: &Key, height: u64) -> bool {
        let d = match rules.ext(ROYALTIES) {
            Some(e) => e.data.clone(),
            None => return false,
        };
        let (s, r) = (self.who(signer), self.who(recipient));
        if height == 1 && s.owner == SYSTEM && r.owner == SYSTEM {
            self.tag("exempt");
            return true;
        }
        match wf::royalty_rule(&d) {
            Ok(rule) => {
                let w = [self.who(asset), s, r];
                if rule.eval(&w) {
                    self.tag("rule-pass");
                } else {
                    self.tag("rule-fail");
                    self.bad("royalty rule does not hold", "P05 P01");
                }
            }
            Err(_) => self.p.either = true,
        }
        true
    }

    fn join_group(&mut self, asset: Key, group: Key, auth: Meta) -> R<()> {
        self.signer(auth, "group authority", "P09");
        if asset == group {
            return self.stop("asset cannot be its own group", "P08 P09 P17");
        }
        let a = self.created(&asset, "asset");
        let g = self.created(&group, "group")?;
        let mut a = a?;
        self.need(a.group == ZERO, "asset already in a group", "P09 P08");
        self.need(a.authority == g.authority, "authority of asset and group differ", "P09");
        let (size, max, del) = match g.grouping() {
            Some(x) => x,
            None => return self.stop("not a group", "P09"),
        };
        let by_delegate = del != ZERO && del == auth.key;
        self.need(auth.key == g.authority || by_delegate, "not the group's authority or delegate", "P09");
        if by_delegate && auth.key != g.authority {
            self.tag("by-group-delegate");
        }
        self.need(max == 0 || size < max, "group is full", "P08");
        if max != 0 {
            self.tag(if size + 1 == max { "fills" } else { "bounded" });
        }
        a.group = group;
        self.set_asset(&asset, a);
        let mut g = g;
        g.set_group_size(size.wrapping_add(1));
        self.set_asset(&group, g);
        Ok(())
    }

    /// Attaches a new extension to an account under assembly.
    fn attach(&mut self, key: &Key, e: &ExtIn, payer: Option<Meta>, sys: Option<Meta>) -> R<()> {
        if e.ty == 0 {
            return self.stop("no extension type", "P11 P13 P15");
        }
        let data = e.data.clone().unwrap_or_default();
        if data.len() > e.len as usize {
            return self.stop("more data than announced", "P13");
        }
        let a = self.acct(key);
        let fresh = a.len == 0;
        let mut m = if fresh {
            AssetM::blank()
        } else {
            if a.owner != ids::asset() {
                return self.stop("account not owned by the program", "P18");
            }
            match a.body {
                Body::Asset(m) => m,
                Body::Corrupt(_) => {
                    self.p.unknown = true;
                    self.p.either = true;
                    return Err(Stop);
                }
                Body::Raw(_) => return self.stop("account too short", "P18"),
            }
        };
        if m.disc != 0 {
            return self.stop("already created", "P18 P13");
        }
        if m.ext(e.ty as u32).is_some() {
            return self.stop("extension type present", "P11 P13");
        }
        if !m.complete() {
            return self.stop("previous extension is incomplete", "P13 P11");
        }
        let off = m.end();
        let bound = align8(off + HDR + e.len as usize);
        if bound > u32::MAX as usize {
            return self.stop("length out of range", "P11 P21");
        }
        let full = data.len() == e.len as usize;
        let want = if full { bound } else { off + HDR + data.len() };
        m.exts.push(Ext { ty: e.ty as u32, len: e.len as usize, data });
        if fresh {
            self.new_account(key, want, payer, sys)?;
        } else if want > a.len || (!full && want < a.len) {
            self.resize(key, want, payer, sys)?;
        }
        self.set_asset(key, m);
        Ok(())
    }
    fn new_account(&mut self, key: &Key, space: usize, payer: Option<Meta>, sys: Option<Meta>) -> R<()> {
        let a = self.acct(key);
        if a.lamports > 0 || a.owner != SYSTEM {
            // pre-funded or foreign empty account
            self.p.either = true;
            self.p.unknown = true;
            if a.owner != SYSTEM {
                self.bad("account not available", "P18");
            }
            return Err(Stop);
        }
        if space > 10_240 {
            return self.stop("growth limit", "P10 P12 P13 P16 P18");
        }
        self.system_pay(payer, sys, key, rent_min(space))?;
        let mut a = self.acct(key);
        a.owner = ids::asset();
        a.len = space;
        a.body = Body::Asset(AssetM::blank());
        self.put(key, a);
        Ok(())
    }

    fn run(&mut self, op: &Op, height: u64) -> R<()> {
        let subj = self.m(0);
        self.p.subject = Some(subj.key);
        // proxied assets take part only with their own signature
        {
            let a = self.db.get(&subj.key).cloned().unwrap_or_default();
            if a.owner == ids::asset() && a.data.len() >= 3 && a.data[2] == 3 {
                self.tag("proxied");
                self.need(subj.signer, "proxied asset did not sign", "P07 P24");
            }
        }
        let frozen = matches!(op, Op::Approve(_) | Op::Burn | Op::Lock | Op::Revoke(_) | Op::Transfer);
        if frozen {
            for (i, m) in self.metas.clone().iter().enumerate() {
                if let Body::Asset(a) = self.acct(&m.key).body {
                    if a.created() && a.state == 1 {
                        if m.key == subj.key {
                            self.bad("asset is locked", "P03");
                        } else if i > 0 {
                            self.p.either = true;
                        }
                    }
                }
            }
        }
        match op {
            Op::Close => {
                let to = self.m(1);
                self.signer(subj, "buffer", "P02 P18");
                let a = self.acct(&subj.key);
                if a.owner != ids::asset() {
                    return self.stop("buffer not owned by the program", "P18 P02");
                }
                match &a.body {
                    Body::Asset(m) if m.disc != 0 => return self.stop("created asset cannot be closed", "P02 P18"),
                    Body::Raw(d) if !d.is_empty() && d[0] != 0 => self.p.either = true,
                    _ => (),
                }
                if to.key == subj.key {
                    return self.stop("recipient is the closed account", "P02 P16 P17");
                }
                self.move_lamports(&subj.key, &to.key, a.lamports);
                self.put(&subj.key, MAcct { lamports: 0, owner: SYSTEM, len: 0, executable: false, body: Body::Raw(vec![]) });
            }
            Op::Burn => {
                let s = self.m(1);
                self.signer(s, "signer", "P02");
                let m = self.created(&subj.key, "asset")?;
                self.need(may(&m, &s.key, R_BURN), "no burn right", "P02 P04");
                self.role_tag(&m, &s.key, R_BURN);
                if m.group != ZERO {
                    self.tag("grouped");
                    match self.opt(3) {
                        None => return self.stop("group account missing", "P02 P08"),
                        Some(g) if g.key != m.group => return self.stop("not the asset's group", "P02 P08"),
                        Some(g) => {
                            if g.key == subj.key {
                                return self.stop("own group", "P08");
                            }
                            match self.acct(&g.key).body {
                                Body::Asset(mut gm) if gm.grouping().is_some() => {
                                    let n = gm.grouping().unwrap().0;
                                    if n == 0 {
                                        self.p.either = true;
                                        self.p.unknown = true;
                                        return Err(Stop);
                                    }
                                    gm.set_group_size(n - 1);
                                    self.set_asset(&g.key, gm);
                                }
                                _ => {
                                    self.p.either = true;
                                    self.p.unknown = true;
                                    return Err(Stop);
                                }
                            }
                        }
                    }
                }
                if let Some((n, _, _)) = m.grouping() {
                    self.tag("is-group");
                    self.need(n == 0, "group has members", "P08 P02");
                }
                let to = self.opt(2).unwrap_or(s);
                if to.key == subj.key {
                    return self.stop("recipient is the burned account", "P02 P16 P17");
                }
                let l = self.acct(&subj.key).lamports;
                self.move_lamports(&subj.key, &to.key, l);
                self.put(&subj.key, MAcct { lamports: 0, owner: SYSTEM, len: 0, executable: false, body: Body::Raw(vec![]) });
            }
            Op::Create { name, standard, mutable, exts } => {
                let (auth, owner, group, gauth, payer, sys) = (self.m(1), self.m(2), self.opt(3), self.opt(4), self.opt(5), self.opt(6));
                self.signer(subj, "asset", "P18");
                let a = self.acct(&subj.key);
                let list = exts.clone().unwrap_or_default();
                if a.len == 0 {
                    let space = BASE + list.iter().map(|e| align8(HDR + e.len as usize)).sum::<usize>();
                    self.new_account(&subj.key, space, payer, sys)?;
                } else {
                    self.tag("assembled");
                    if a.owner != ids::asset() {
                        return self.stop("asset account not owned by the program", "P18");
                    }
                    match &a.body {
                        Body::Raw(_) => return self.stop("asset account too short", "P18"),
                        Body::Corrupt(_) => {
                            self.p.unknown = true;
                            self.p.either = true;
                            return Err(Stop);
                        }
                        Body::Asset(m) if m.disc != 0 => return self.stop("already created", "P18"),
                        _ => (),
                    }
                }
                for (i, e) in list.iter().enumerate() {
                    let d = e.data.as_ref().map_or(0, |d| d.len());
                    if d < e.len as usize {
                        return self.stop("extension without all its data", "P13 P15");
                    }
                    if list[..i].iter().any(|x| x.ty == e.ty) {
                        return self.stop("extension type twice", "P11 P13");
                    }
                    self.attach(&subj.key, e, payer, sys)?;
                }
                self.p.unordered = true;
                let mut m = match self.acct(&subj.key).body {
                    Body::Asset(m) => m,
                    _ => return self.stop("no asset", "P18"),
                };
                if !m.complete() {
                    return self.stop("incomplete extension", "P13 P15");
                }
                for e in m.exts.iter_mut() {
                    let (w, d) = wf::at_creation(e.ty, &e.data, Some(&auth.key));
                    match w {
                        Wf::Bad => self.p.fail.push((format!("malformed extension {}", e.ty), ext_bad(e.ty))),
                        Wf::Odd => self.p.either = true,
                        Wf::Good => (),
                    }
                    e.data = d;
                    e.len = e.data.len();
                }
                m.disc = 1;
                m.state = 0;
                m.standard = *standard;
                m.mutable = *mutable;
                m.owner = owner.key;
                m.authority = auth.key;
                m.name = name35(name);
                let has_mgr = m.ext(MANAGER).is_some();
                let has_proxy = m.ext(PROXY).is_some();
                self.need((*standard == 1) == has_mgr, "managed standard and manager must go together", "P07");
                self.need((*standard == 3) == has_proxy, "proxied standard and proxy data must go together", "P07");
                if *standard == 3 && has_proxy {
                    let d = &m.ext(PROXY).unwrap().data;
                    if d.len() >= 65 {
                        let r = solana_program::pubkey::Pubkey::create_program_address(
                            &[&d[32..64], &[d[64]]],
                            &solana_program::pubkey::Pubkey::from(k32(d)),
                        );
                        let ok = matches!(r, Ok(k) if k.to_bytes() == subj.key);
                        self.need(ok, "proxy data does not derive the asset address", "P07");
                    }
                }
                self.tag(&format!("std{standard} exts{}", m.exts.len()));
                self.set_asset(&subj.key, m);
                if let Some(g) = group {
                    self.tag("into-group");
                    self.join_group(subj.key, g.key, gauth.unwrap_or(auth))?;
                }
            }
            Op::Approve(d) => {
                let (o, del) = (self.m(1), self.m(2));
                self.signer(o, "owner", "P04");
                let mut m = self.created(&subj.key, "asset")?;
                self.need(m.owner == o.key, "not the owner", "P04");
                let roles = match d {
                    DelIn::All => 7,
                    DelIn::Some(r) => r.iter().fold(0, |a, r| a | role_mask(*r)),
                };
                if m.delegate != ZERO && m.delegate == del.key {
                    self.tag("same-delegate");
                    m.roles |= roles;
                } else {
                    self.tag(if m.delegate == ZERO { "new" } else { "replace" });
                    m.delegate = del.key;
                    m.roles = roles;
                }
                self.set_asset(&subj.key, m);
            }
            Op::Revoke(d) => {
                let s = self.m(1);
                self.signer(s, "signer", "P04");
                let mut m = self.created(&subj.key, "asset")?;
                let is_del = matches!(m.delegate_opt(), Some((k, _)) if k == s.key);
                self.need(m.owner == s.key || is_del, "neither owner nor delegate", "P04");
                if is_del {
                    self.tag("by-delegate");
                }
                match d {
                    DelIn::All => {
                        m.delegate = ZERO;
                        m.roles = 0;
                    }
                    DelIn::Some(r) => {
                        if m.delegate != ZERO {
                            for x in r {
                                m.roles &= !role_mask(*x);
                            }
                            if m.roles == 0 {
                                self.tag("last-role");
                                m.delegate = ZERO;
                            }
                        }
                    }
                }
                self.set_asset(&subj.key, m);
            }
            Op::Allocate(e) => {
                let (payer, sys) = (self.opt(1), self.opt(2));
                self.signer(subj, "account", "P13 P18");
                self.attach(&subj.key, e, payer, sys)?;
                self.tag(&format!("ext{}", e.ty));
            }
            Op::Write { overwrite, bytes } => {
                let (payer, sys) = (self.m(1), self.m(2));
                self.need(sys.key == SYSTEM, "wrong system program", "P18");
                self.signer(payer, "payer", "P16");
                self.signer(subj, "account", "P13 P18");
                let a = self.acct(&subj.key);
                if a.owner != ids::asset() {
                    return self.stop("account not owned by the program", "P18");
                }
                let mut m = match a.body {
                    Body::Asset(m) => m,
                    Body::Corrupt(_) => {
                        self.p.unknown = true;
                        self.p.either = true;
                        return Err(Stop);
                    }
                    Body::Raw(_) => return self.stop("account too short", "P18"),
                };
                if m.disc != 0 {
                    return self.stop("already created", "P18 P13");
                }
                let n = m.exts.len();
                if n == 0 {
                    return self.stop("no extension to write to", "P13");
                }
                let start = m.offset(n - 1) + HDR;
                let end = m.end();
                let e = m.exts.last_mut().unwrap();
                if start + e.len < a.len {
                    // complete and padded
                    return self.stop("extension is complete", "P13");
                }
                if e.data.len() == e.len {
                    self.p.either = true;
                    self.tag("rewrite");
                }
                let mut d = if *overwrite { vec![] } else { e.data.clone() };
                d.extend(bytes);
                if d.len() > e.len {
                    return self.stop("more data than announced", "P13 P11");
                }
                let done = d.len() == e.len;
                let size = if done { end } else { start + d.len() };
                self.tag(if *overwrite { "overwrite" } else { "append" });
                if done {
                    self.tag("done");
                    let (w, nd) = wf::at_creation(e.ty, &d, None);
                    match w {
                        Wf::Bad => self.p.fail.push((format!("malformed extension {}", e.ty), ext_bad(e.ty))),
                        Wf::Odd => self.p.either = true,
                        Wf::Good => (),
                    }
                    d = nd;
                }
                e.data = d;
                self.resize(&subj.key, size, Some(payer), Some(sys))?;
                self.set_asset(&subj.key, m);
            }
            Op::Lock | Op::Unlock => {
                let s = self.m(1);
                self.signer(s, "signer", "P03");
                let mut m = self.created(&subj.key, "asset")?;
                self.need(may_lock(&m, &s.key), "no lock right", "P03 P04");
                if m.delegate != ZERO {
                    self.tag("delegated");
                }
                if has(m.manager(), &s.key, R_LOCK) {
                    self.tag("manager");
                }
                m.state = matches!(op, Op::Lock) as u8;
                self.set_asset(&subj.key, m);
            }
            Op::Transfer => {
                let (s, to, group) = (self.m(1), self.m(2), self.opt(3));
                self.signer(s, "signer", "P01");
                let mut m = self.created(&subj.key, "asset")?;
                self.need(m.standard != 2, "soulbound", "P07 P01");
                self.need(may(&m, &s.key, R_TRANSFER), "no transfer right", "P01 P04");
                self.role_tag(&m, &s.key, R_TRANSFER);
                let own = self.royalties(&m.clone(), &subj.key, &s.key, &to.key, height);
                if to.key == m.owner {
                    self.tag("self");
                    return Ok(());
                }
                if m.group != ZERO && !own {
                    self.tag("grouped");
                    match group {
                        None => return self.stop("group account missing", "P05"),
                        Some(g) if g.key != m.group => return self.stop("not the asset's group", "P05"),
                        Some(g) => match self.acct(&g.key) {
                            MAcct { body: Body::Asset(gm), .. } if gm.created() => {
                                if self.royalties(&gm, &subj.key, &s.key, &to.key, height) {
                                    self.tag("group-rule");
                                }
                            }
                            _ => return self.stop("group is not an asset", "P05"),
                        },
                    }
                }
                if own {
                    self.tag("own-rule");
                }
                m.owner = to.key;
                m.delegate = ZERO;
                m.roles = 0;
                self.set_asset(&subj.key, m);
            }
            Op::Verify | Op::Unverify => {
                let c = self.m(1);
                self.signer(c, "creator", "P14");
                let mut m = self.created(&subj.key, "asset")?;
                let v = matches!(op, Op::Verify);
                let e = match m.ext_mut(CREATORS) {
                    Some(e) => e,
                    None => return self.stop("no creators", "P14"),
                };
                let mut found = false;
                for x in e.data.chunks_exact_mut(34) {
                    if k32(x) == c.key {
                        x[32] = v as u8;
                        found = true;
                    }
                }
                self.need(found, "not a creator", "P14");
                self.set_asset(&subj.key, m);
            }
            Op::Update { name, mutable, ext } => {
                let (auth, buffer, payer, sys) = (self.m(1), self.opt(2), self.opt(4), self.opt(5));
                self.signer(auth, "authority", "P10");
                let mut m = self.created(&subj.key, "asset")?;
                self.need(m.authority == auth.key, "not the authority", "P10");
                self.need(m.mutable, "immutable", "P10");
                if let Some(n) = name {
                    m.name = name35(n);
                    self.tag("name");
                }
                if let Some(v) = mutable {
                    m.mutable = *v;
                    self.tag("mutable");
                }
                let (ty, data, from_buffer) = match (ext, buffer) {
                    (None, None) => {
                        self.set_asset(&subj.key, m);
                        return Ok(());
                    }
                    (Some(_), Some(_)) => return self.stop("both inline data and buffer", "P12"),
                    (Some(e), None) => {
                        let d = e.data.clone().unwrap_or_default();
                        if d.len() != e.len as usize {
                            return self.stop("length mismatch", "P12 P15");
                        }
                        (e.ty as u32, d, None)
                    }
                    (None, Some(b)) => {
                        self.tag("buffered");
                        if b.key == subj.key {
                            return self.stop("asset as its own buffer", "P18 P12 P17");
                        }
                        let ba = self.acct(&b.key);
                        if ba.owner != ids::asset() {
                            return self.stop("buffer not owned by the program", "P18 P12");
                        }
                        match ba.body {
                            Body::Asset(bm) => {
                                if bm.disc != 0 {
                                    return self.stop("buffer is a created asset", "P18");
                                }
                                match bm.exts.first() {
                                    None => return self.stop("buffer without extension", "P18"),
                                    Some(e) if e.data.len() < e.len => return self.stop("buffer incomplete", "P12 P15 P13"),
                                    Some(e) => (e.ty, e.data.clone(), Some(b)),
                                }
                            }
                            Body::Corrupt(_) => {
                                self.p.unknown = true;
                                self.p.either = true;
                                return Err(Stop);
                            }
                            Body::Raw(_) => return self.stop("buffer too short", "P18"),
                        }
                    }
                };
                if ty == 0 {
                    return self.stop("no extension type", "P11 P15 P12");
                }
                let pos = m.idx(ty);
                let (w, nd) = match pos {
                    Some(i) => wf::at_update(ty, &m.exts[i].data, &data, &auth.key),
                    None => {
                        if ty == MANAGER || ty == PROXY {
                            return self.stop("manager/proxy cannot be added", "P07");
                        }
                        wf::at_creation(ty, &data, Some(&auth.key))
                    }
                };
                self.tag(&format!("ext{ty}"));
                match w {
                    Wf::Bad => return self.stop(format!("malformed or forbidden data for extension {ty}"), upd_bad(ty)),
                    Wf::Odd => self.p.either = true,
                    Wf::Good => (),
                }
                if let Some(b) = from_buffer {
                    self.p.loose.push(b.key);
                    if nd != data && !b.writable {
                        self.p.either = true;
                    }
                }
                let nl = nd.len();
                match pos {
                    None => {
                        self.tag("add");
                        m.exts.push(Ext { ty, len: nl, data: nd });
                        let size = m.end();
                        self.set_asset(&subj.key, m);
                        self.resize(&subj.key, size, payer, sys)?;
                    }
                    Some(i) => {
                        let old_end = m.end();
                        let ol = m.exts[i].len;
                        self.tag(match nl.cmp(&ol) {
                            std::cmp::Ordering::Less => "shorter",
                            std::cmp::Ordering::Equal => "same",
                            _ => "longer",
                        });
                        self.tag(if i + 1 == m.exts.len() { "last" } else { "middle" });
                        m.exts[i] = Ext { ty, len: nl, data: nd };
                        let new_end = m.end();
                        self.set_asset(&subj.key, m);
                        if new_end != old_end {
                            self.resize(&subj.key, new_end, payer, sys)?;
                        }
                    }
                }
            }
            Op::Group => {
                self.join_group(subj.key, self.m(1).key, self.m(2))?;
            }
            Op::Ungroup => {
                let (g, auth) = (self.m(1), self.m(2));
                self.signer(auth, "group authority", "P09");
                if g.key == subj.key {
                    return self.stop("own group", "P08 P09 P17");
                }
                let m = self.created(&subj.key, "asset");
                let mut gm = self.created(&g.key, "group")?;
                let mut m = m?;
                self.need(m.group == g.key, "asset is not in this group", "P09 P08");
                let (size, _, del) = match gm.grouping() {
                    Some(x) => x,
                    None => return self.stop("not a group", "P09"),
                };
                let by_delegate = del != ZERO && del == auth.key;
                self.need(auth.key == gm.authority || by_delegate, "not the group's authority or delegate", "P09");
                if by_delegate && auth.key != gm.authority {
                    self.tag("by-group-delegate");
                }
                m.group = ZERO;
                self.set_asset(&subj.key, m);
                gm.set_group_size(size.wrapping_sub(1));
                self.set_asset(&g.key, gm);
            }
            Op::Handover => {
                let (auth, new) = (self.m(1), self.m(2));
                self.signer(auth, "authority", "P10");
                self.signer(new, "new authority", "P10");
                let mut m = self.created(&subj.key, "asset")?;
                self.need(m.authority == auth.key, "not the authority", "P10");
                self.need(m.mutable, "immutable", "P10");
                m.authority = new.key;
                self.set_asset(&subj.key, m);
            }
            Op::Remove(t) => {
                let (auth, to) = (self.m(1), self.m(3));
                self.signer(auth, "authority", "P10");
                let mut m = self.created(&subj.key, "asset")?;
                self.need(m.authority == auth.key, "not the authority", "P10");
                self.need(m.mutable, "immutable", "P10");
                let i = match m.idx(*t as u32) {
                    Some(i) => i,
                    None => return self.stop("extension not present", "P12 P11"),
                };
                if *t as u32 == MANAGER || *t as u32 == PROXY {
                    self.bad("manager/proxy cannot be removed", "P07");
                }
                if *t as u32 == GROUPING && m.grouping().map_or(false, |g| g.0 > 0) {
                    self.bad("group has members", "P08");
                }
                self.tag(&format!("ext{t}"));
                self.tag(if i + 1 == m.exts.len() { "last" } else { "middle" });
                let cut = m.offset(i + 1) - m.offset(i);
                m.exts.remove(i);
                self.set_asset(&subj.key, m);
                let l = self.acct(&subj.key).len;
                self.resize(&subj.key, l - cut, Some(to), None)?;
            }
            Op::Trim | Op::Extend(_) => {
                let (auth, payer, sys) = (self.m(1), self.m(2), self.opt(3));
                self.signer(auth, "authority", "P10");
                let m = self.created(&subj.key, "asset")?;
                self.need(m.authority == auth.key, "not the authority", "P10");
                self.need(m.mutable, "immutable", "P10");
                let l = self.acct(&subj.key).len;
                let size = match op {
                    Op::Extend(v) => l + *v as usize,
                    _ => m.end(),
                };
                self.tag(if matches!(op, Op::Trim) { "trim" } else { "extend" });
                self.resize(&subj.key, size, Some(payer), sys)?;
            }
        }
        Ok(())
    }
    fn role_tag(&mut self, m: &AssetM, k: &Key, role: u8) {
        let t = format!(
            "by{}{}{}",
            if m.owner == *k { "-owner" } else { "" },
            if has(m.delegate_opt(), k, role) { "-delegate" } else { "" },
            if has(m.manager(), k, role) { "-manager" } else { "" }
        );
        self.tag(&t);
    }
}

fn ext_bad(ty: u32) -> &'static str {
    match ty {
        CREATORS => "P15 P14",
        GROUPING => "P15 P08",
        ROYALTIES => "P15 P05",
        MANAGER | PROXY => "P15 P07",
        _ => "P15",
    }
}
fn upd_bad(ty: u32) -> &'static str {
    match ty {
        CREATORS => "P15 P14",
        GROUPING => "P15 P08",
        ROYALTIES => "P15 P05",
        PROXY => "P15 P07",
        MANAGER => "P15 P07",
        _ => "P15",
    }
}

pub fn predict(db: &BTreeMap<Key, Acct>, ix: &Ix, height: u64) -> Pred {
    let mut metas = ix.metas.clone();
    for i in 0..metas.len() {
        for j in 0..metas.len() {
            if ix.metas[i].key == ix.metas[j].key {
                metas[i].signer |= ix.metas[j].signer;
                metas[i].writable |= ix.metas[j].writable;
            }
        }
    }
    let mut cx = Cx { db, metas, p: Pred::default(), orig_len: BTreeMap::new() };
    for m in cx.metas.clone() {
        cx.acct(&m.key);
    }
    let op = match decode(&ix.data) {
        Some(o) => o,
        None => {
            cx.bad("undecodable instruction", "P18");
            cx.p.liveness = "P18".into();
            return cx.p;
        }
    };
    cx.p.op = Some(op.clone());
    cx.p.liveness = op.liveness().into();
    cx.p.tag = op.name().into();
    if cx.metas.len() < op.arity() {
        cx.bad("missing accounts", "P18");
        return cx.p;
    }
    // accounts of interest for the liveness attribution
    let _ = cx.run(&op, height);
    refine_liveness(&mut cx.p, db, &op);
    if cx.p.unknown {
        return cx.p;
    }
    let metas = cx.metas.clone();
    runtime_rules(db, &metas, &mut cx.p);
    cx.p
}

/// Rules of the runtime on the predicted outcome.
pub fn runtime_rules(db: &BTreeMap<Key, Acct>, metas: &[Meta], p: &mut Pred) {
    for (k, post) in p.post.clone() {
        let pre = lift(&db.get(&k).cloned().unwrap_or_default());
        if pre == post {
            continue;
        }
        let m = metas.iter().find(|m| m.key == k);
        if !m.map_or(false, |m| m.writable) {
            p.fail.push(("a changed account is read-only".into(), "P17"));
        }
        if pre.executable {
            p.fail.push(("a program account would change".into(), "P17"));
        }
        if post.lamports > 0 && post.lamports < rent_min(post.len) {
            let was = pre.lamports > 0 && pre.lamports < rent_min(pre.len);
            if !(was && pre.len == post.len && post.lamports <= pre.lamports) {
                p.fail.push(("an account would fall below the rent minimum".into(), "P16"));
            }
        }
    }
}

fn refine_liveness(p: &mut Pred, _db: &BTreeMap<Key, Acct>, op: &Op) {
    let t = p.tag.clone();
    let mut add = |s: &str| {
        if !p.liveness.contains(s) {
            p.liveness.push(' ');
            p.liveness.push_str(s);
        }
    };
    match op {
        Op::Transfer => {
            if t.contains("rule") || t.contains("exempt") || t.contains("grouped") {
                add("P05");
            }
            if t.contains("-delegate") || t.contains("-manager") {
                add("P04");
            }
        }
        Op::Burn => {
            if t.contains("grouped") || t.contains("is-group") {
                add("P08");
            }
            if t.contains("-delegate") || t.contains("-manager") {
                add("P04");
            }
        }
        Op::Create { .. } => {
            if t.contains("into-group") {
                add("P09");
                add("P08");
            }
        }
        Op::Lock | Op::Unlock => {
            if t.contains("delegated") || t.contains("manager") {
                add("P04");
            }
        }
        Op::Update { .. } => {
            if t.contains("ext") {
                add("P15");
            }
            if t.contains("ext3") {
                add("P14");
            }
            if t.contains("ext6") {
                add("P08");
            }
        }
        _ => (),
    }
    if t.contains("shrink") || t.contains("grow") {
        add("P16");
    }
    if t.contains("proxied") {
        add("P07");
    }
}
