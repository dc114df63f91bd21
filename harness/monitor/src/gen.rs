//! Worlds and hostile/realistic instruction streams for the asset program.
use crate::ids;
use crate::model::*;
use crate::rng::Rng;
use crate::svm::*;
use crate::view::*;
use crate::wf::Rule;
use std::collections::BTreeMap;

/// What a workload concentrates on.
#[derive(Clone)]
pub struct Bias {
    /// weights of the plans, see `PLANS`
    pub w: Vec<u32>,
    /// favoured extension types (besides uniform choice)
    pub exts: Vec<u32>,
    /// probability of running an instruction through another program
    pub relay: u32,
    /// probability (percent) of mutating a legitimate instruction
    pub mutate: u32,
    pub royalty: u32,
    pub grouped: u32,
    pub managed: u32,
    pub bad_ext: u32,
}

pub const PLANS: &[&str] = &[
    "transfer", "burn", "lock", "approve", "revoke", "create", "assemble", "update", "buffered", "remove", "resize", "group", "ungroup", "handover",
    "verify", "close", "raw", "topup", "allocate", "write", "foreign",
];

pub fn bias_for(prop: &str) -> Bias {
    let mut b = Bias {
        w: vec![10, 5, 10, 10, 6, 10, 8, 12, 6, 6, 6, 8, 6, 3, 6, 3, 3, 2, 5, 5, 2],
        exts: vec![],
        relay: 15,
        mutate: 45,
        royalty: 15,
        grouped: 30,
        managed: 25,
        bad_ext: 12,
    };
    let mut up = |l: &[(&str, u32)]| {
        for (n, x) in l {
            let i = PLANS.iter().position(|p| p == n).unwrap();
            b.w[i] = *x;
        }
    };
    match prop {
        "P01" => up(&[("transfer", 60), ("approve", 20), ("lock", 10)]),
        "P02" => up(&[("burn", 40), ("close", 15), ("approve", 15), ("create", 30), ("allocate", 10), ("lock", 12)]),
        "P03" => up(&[("lock", 50), ("approve", 20), ("transfer", 15), ("burn", 6), ("revoke", 12)]),
        "P04" => up(&[("approve", 40), ("revoke", 30), ("transfer", 20), ("lock", 20), ("burn", 8)]),
        "P05" => up(&[("transfer", 80), ("update", 15), ("group", 10)]),
        "P07" => up(&[("create", 40), ("update", 25), ("remove", 20), ("buffered", 20), ("transfer", 15)]),
        "P08" => up(&[("group", 40), ("ungroup", 30), ("burn", 15), ("create", 30), ("update", 25), ("remove", 15), ("buffered", 10)]),
        "P09" => up(&[("group", 50), ("ungroup", 40), ("create", 25)]),
        "P10" => up(&[("update", 40), ("remove", 20), ("handover", 25), ("resize", 20), ("buffered", 10)]),
        "P11" => up(&[("update", 40), ("remove", 30), ("buffered", 20), ("assemble", 25), ("resize", 15), ("allocate", 15), ("write", 15)]),
        "P12" => up(&[("update", 50), ("remove", 40), ("buffered", 25), ("resize", 25)]),
        "P13" => up(&[("assemble", 60), ("allocate", 30), ("write", 40), ("create", 20), ("foreign", 8)]),
        "P14" => up(&[("verify", 30), ("update", 50), ("buffered", 30), ("create", 25), ("assemble", 20)]),
        "P15" => up(&[("update", 40), ("buffered", 25), ("create", 30), ("assemble", 30), ("write", 15)]),
        "P16" => up(&[("update", 30), ("remove", 30), ("resize", 30), ("assemble", 20), ("burn", 15), ("close", 10), ("topup", 10), ("buffered", 15)]),
        "P17" => (),
        "P18" => up(&[("raw", 15), ("close", 15), ("create", 25), ("foreign", 15), ("allocate", 15), ("write", 12), ("buffered", 12)]),
        _ => (),
    }
    match prop {
        "P01" | "P04" => b.managed = 45,
        "P05" => {
            b.royalty = 75;
            b.relay = 60;
            b.grouped = 45;
            b.mutate = 30;
            b.exts = vec![ROYALTIES, GROUPING];
        }
        "P07" => {
            b.managed = 50;
            b.exts = vec![MANAGER, PROXY, MANAGER];
        }
        "P08" | "P09" => {
            b.grouped = 70;
            b.exts = vec![GROUPING];
        }
        "P12" | "P11" | "P16" => b.mutate = 25,
        "P13" => b.mutate = 30,
        "P14" => {
            b.exts = vec![CREATORS, CREATORS];
            b.mutate = 30;
        }
        "P15" => {
            b.bad_ext = 50;
            b.mutate = 10;
        }
        "P17" | "P18" => b.mutate = 65,
        "P21" => {
            b.mutate = 60;
            b.bad_ext = 45;
        }
        _ => (),
    }
    b
}

pub struct World {
    pub svm: Svm,
    pub r: Rng,
    pub b: Bias,
    pub wallets: Vec<Key>,
    pub foreign: Vec<Key>,
    pub progs: Vec<Key>,
    pub slots: Vec<Key>,
    /// address -> (program, seeds, bump)
    pub pdas: BTreeMap<Key, (Key, Key, u8)>,
    pub phantom: BTreeMap<Key, u64>,
    pub hostile: Vec<Key>,
    /// asset the next plan is aimed at
    pub focus: Option<Key>,
    /// addresses that only a program can bring into existence
    pub derived: Vec<Key>,
}

pub struct Step {
    pub ix: Ix,
    pub height: u64,
    /// wallet top-ups applied before the instruction
    pub topup: Option<(Key, u64)>,
    /// after a burn/close, lamports sent to the closed address within the same transaction
    pub revive: Option<(Key, u64)>,
}

pub fn s_(k: Key) -> Meta {
    Meta { key: k, signer: true, writable: false }
}
pub fn w_(k: Key) -> Meta {
    Meta { key: k, signer: false, writable: true }
}
pub fn sw(k: Key) -> Meta {
    Meta { key: k, signer: true, writable: true }
}
pub fn r_(k: Key) -> Meta {
    Meta { key: k, signer: false, writable: false }
}
pub fn none() -> Meta {
    r_(ids::asset())
}

pub fn pstr_put(o: &mut Vec<u8>, s: &[u8]) {
    o.push(s.len() as u8);
    o.extend(s);
}

fn can_be_big(ty: u32) -> bool {
    matches!(ty, ATTRIBUTES | LINKS | BLOB | BUCKET)
}

impl World {
    pub fn new(seed: u64, b: &Bias) -> World {
        let mut r = Rng::new(seed);
        let mut svm = Svm::new();
        let mut wallets = vec![];
        for i in 0..6 {
            let k = if i > 0 && r.pct(50) {
                // near twins: differ in a single byte
                let mut k: Key = *r.pick(&wallets);
                let p = *r.pick(&[0usize, 31, 31, 0, 16, 8]);
                k[p] ^= 1 << r.below(8);
                k
            } else {
                r.key()
            };
            if wallets.contains(&k) {
                continue;
            }
            wallets.push(k);
        }
        for k in &wallets {
            let l = match r.below(12) {
                0 => 1_000_000,
                1 => 890_880 + r.below(4_000_000) as u64,
                2 => 0,
                _ => 10_000_000_000,
            };
            if l > 0 {
                svm.db.insert(*k, Acct::sys(l));
            }
        }
        let progs: Vec<Key> = vec![r.key(), r.key()];
        let mut foreign = vec![];
        for i in 0..4 {
            let k = r.key();
            let n = [0, 1, 80, 200][i];
            svm.db.insert(k, Acct { lamports: rent_min(n) + 10_000, data: r.bytes(n), owner: progs[i % 2], executable: false });
            foreign.push(k);
        }
        let mut hostile = vec![];
        for _ in 0..2 {
            let mut k = [0u8; 32];
            for (i, b) in k.iter_mut().enumerate() {
                *b = if r.pct(70) { 0 } else { (r.below(4) + i % 2) as u8 };
            }
            k[31] = 1 + r.below(3) as u8;
            hostile.push(k);
        }
        let mut slots = vec![];
        for i in 0..9 {
            let mut k = r.key();
            if i > 0 && r.pct(25) {
                // near twins here too
                let mut t: Key = *r.pick(&slots);
                t[*r.pick(&[0usize, 31, 31, 16, 8])] ^= 1 << r.below(8);
                if !slots.contains(&t) {
                    k = t;
                }
            }
            slots.push(k);
        }
        let mut pdas = BTreeMap::new();
        for _ in 0..2 {
            let prog = *r.pick(&progs);
            let seeds = r.key();
            let (k, bump) = ids::pda(&[&seeds], &prog);
            pdas.insert(k, (prog, seeds, bump));
            slots.push(k);
        }
        let mut w = World { svm, r, b: b.clone(), wallets, foreign, progs, slots, pdas, phantom: BTreeMap::new(), hostile, focus: None, derived: vec![] };
        if w.r.pct(75) {
            let big = seed % 12 == 5;
            w.populate(big);
            if big && w.r.pct(60) {
                w.big_buffer();
            }
        }
        w
    }
    /// An unfinished account holding a lot of data, complete or not.
    fn big_buffer(&mut self) {
        let free: Vec<Key> = self.slots.iter().copied().filter(|k| !self.svm.db.contains_key(k) && !self.pdas.contains_key(k)).collect();
        if free.is_empty() {
            return;
        }
        let k = *self.r.pick(&free);
        let t = *self.r.pick(&[ATTRIBUTES, LINKS, BLOB, BUCKET]);
        let mut m = AssetM::blank();
        let d = self.big_data(t);
        let whole = self.r.pct(70);
        let have = if whole { d.len() } else { self.r.below(d.len()) };
        m.exts.push(Ext { ty: t, len: d.len(), data: d });
        let end = m.end();
        let mut d = encode(&m, end);
        if !whole {
            d.truncate(BASE + 16 + have);
        }
        self.svm.db.insert(k, Acct { lamports: rent_min(d.len()), data: d, owner: ids::asset(), executable: false });
    }

    // ---------- looking at the state
    pub fn asset(&self, k: &Key) -> Option<AssetM> {
        let a = self.svm.db.get(k)?;
        if a.owner != ids::asset() {
            return None;
        }
        parse(&a.data).ok()
    }
    pub fn created(&self) -> Vec<Key> {
        self.slots.iter().copied().filter(|k| self.asset(k).map_or(false, |m| m.created())).collect()
    }
    pub fn unfinished(&self) -> Vec<Key> {
        self.slots.iter().copied().filter(|k| self.asset(k).map_or(false, |m| !m.created())).collect()
    }
    pub fn fresh(&mut self) -> Key {
        let v: Vec<Key> = self.slots.iter().copied().filter(|k| !self.svm.db.contains_key(k)).collect();
        if v.is_empty() || self.r.pct(5) {
            let k = self.r.key();
            if self.slots.len() < 24 {
                self.slots.push(k);
            }
            k
        } else {
            *self.r.pick(&v)
        }
    }
    pub fn wallet(&mut self) -> Key {
        *self.r.pick(&self.wallets)
    }
    pub fn rich(&mut self) -> Key {
        let v: Vec<Key> = self.wallets.iter().copied().filter(|k| self.svm.get(k).lamports > 100_000_000).collect();
        if v.is_empty() {
            let k = self.wallets[0];
            self.svm.db.insert(k, Acct::sys(10_000_000_000));
            k
        } else {
            *self.r.pick(&v)
        }
    }
    pub fn anykey(&mut self) -> Key {
        match self.r.below(14) {
            0..=4 => self.wallet(),
            5 | 6 => *self.r.pick(&self.slots),
            7 => *self.r.pick(&self.foreign),
            8 => ids::asset(),
            9 => SYSTEM,
            10 => *self.r.pick(&self.hostile),
            11 => self.r.key(),
            12 => {
                let mut k = self.wallet();
                let p = self.r.below(32);
                k[p] ^= 1;
                k
            }
            _ => *self.r.pick(&self.progs),
        }
    }
    fn actor(&mut self) -> Key {
        // holders, authorities, delegates: mostly wallets
        match self.r.below(20) {
            0 => *self.r.pick(&self.slots),
            1 => *self.r.pick(&self.foreign),
            2 => *self.r.pick(&self.hostile),
            _ => self.wallet(),
        }
    }

    // ---------- extension data
    fn text(&mut self) -> Vec<u8> {
        let n = match self.r.below(20) {
            0 => 0,
            1 => 255,
            2 => self.r.range(100, 254),
            _ => self.r.range(1, 12),
        };
        let mixed = self.r.pct(25);
        let mut o = vec![];
        while o.len() < n {
            let mut c = (b'a' + self.r.below(26) as u8) as char;
            if mixed && self.r.pct(40) {
                c = *self.r.pick(&['é', '本', '🦀', 'A', 'Z', '0', ' ', '"', '\\', '\n', '\u{7f}', '/', '\0']);
            }
            if o.len() + c.len_utf8() > n {
                c = 'x';
            }
            let mut b = [0; 4];
            o.extend(c.encode_utf8(&mut b).as_bytes());
        }
        o
    }
    pub fn rule(&mut self, depth: usize) -> Rule {
        let leaf = depth == 0 || self.r.pct(35);
        if leaf {
            let acc = self.r.below(3) as u64;
            let n = self.r.below(4);
            match self.r.below(7) {
                0 => Rule::Empty,
                1 | 2 | 3 => {
                    let keys = (0..n)
                        .map(|_| match self.r.below(4) {
                            0 => SYSTEM,
                            1 => ids::asset(),
                            2 => *self.r.pick(&self.progs),
                            _ => self.anykey(),
                        })
                        .collect();
                    Rule::OwnedBy(acc, keys)
                }
                _ => Rule::KeyMatch(
                    acc,
                    (0..n)
                        .map(|_| match self.r.below(3) {
                            0 => self.wallet(),
                            1 => *self.r.pick(&self.foreign),
                            _ => self.anykey(),
                        })
                        .collect(),
                ),
            }
        } else {
            let n = self.r.below(4);
            match self.r.below(3) {
                0 => Rule::And((0..n).map(|_| self.rule(depth - 1)).collect()),
                1 => Rule::Or((0..n).map(|_| self.rule(depth - 1)).collect()),
                _ => Rule::Not(Box::new(self.rule(depth - 1))),
            }
        }
    }
    fn creators(&mut self, total: usize) -> Vec<u8> {
        let n = match self.r.below(10) {
            0 => self.r.range(8, 20),
            _ => self.r.range(1, 5),
        };
        let mut shares = vec![0usize; n];
        let mut left = total;
        for s in shares.iter_mut() {
            *s = self.r.below(left.min(255) + 1);
            left -= *s;
        }
        // place the rest
        for s in shares.iter_mut() {
            let x = (255 - *s).min(left);
            *s += x;
            left -= x;
        }
        let mut o = vec![];
        let mut used: Vec<Key> = vec![];
        for s in shares {
            let k = if !used.is_empty() && self.r.pct(8) { *self.r.pick(&used) } else { self.actor() };
            used.push(k);
            o.extend(k);
            o.push(if self.r.pct(50) { 1 } else { 0 });
            o.push(s as u8);
        }
        o
    }
    fn blob_len(&mut self) -> usize {
        match self.r.below(16) {
            0 => 0,
            1 => self.r.range(900, 1200),
            2 => self.r.range(2000, 6000),
            3..=6 => 8 * self.r.below(12),
            _ => self.r.range(1, 120),
        }
    }
    /// Well-formed data for an extension of the given type.
    pub fn good_ext(&mut self, ty: u32, key: &Key) -> Vec<u8> {
        let mut o = vec![];
        match ty {
            ATTRIBUTES | LINKS => {
                for _ in 0..self.r.below(5) {
                    let (a, b) = (self.text(), self.text());
                    pstr_put(&mut o, &a);
                    pstr_put(&mut o, &b);
                }
            }
            BLOB => {
                let t = self.text();
                pstr_put(&mut o, &t);
                let n = self.blob_len();
                o.extend(self.r.bytes(n));
            }
            CREATORS => o = self.creators(100),
            METADATA => {
                let n = if self.r.pct(30) { 3 } else { 4 };
                for _ in 0..n {
                    let t = self.text();
                    pstr_put(&mut o, &t);
                }
            }
            GROUPING => {
                let max = *self.r.pick(&[0u64, 0, 0, 1, 2, 3, 5, 256, 1 << 33, u64::MAX]);
                o.extend(0u64.to_le_bytes());
                o.extend(max.to_le_bytes());
                if self.r.pct(70) {
                    let k = if self.r.pct(60) { self.actor() } else { SYSTEM };
                    o.extend(k);
                }
            }
            ROYALTIES => {
                let bps = *self.r.pick(&[0u64, 1, 500, 9_999, 10_000]);
                o.extend(bps.to_le_bytes());
                let d = self.r.below(4);
                o.extend(self.rule(d).encode());
            }
            MANAGER => {
                o.extend(self.actor());
                o.push(if self.r.pct(90) { self.r.below(8) as u8 } else { self.r.u64() as u8 });
            }
            PROXY => {
                let (p, s, b) = self.pdas.get(key).copied().unwrap_or_else(|| *self.pdas.values().next().unwrap());
                o.extend(p);
                o.extend(s);
                o.push(b);
                let k = if self.r.pct(70) { self.actor() } else { SYSTEM };
                o.extend(k);
            }
            PROPERTIES => {
                for _ in 0..self.r.below(5) {
                    let t = self.text();
                    pstr_put(&mut o, &t);
                    match self.r.below(3) {
                        0 => {
                            o.push(0);
                            let t = self.text();
                            pstr_put(&mut o, &t);
                        }
                        1 => {
                            o.push(1);
                            let x = if self.r.pct(40) { self.r.u64() >> self.r.below(64) } else { *self.r.pick(&[0u64, 1, 255, (1 << 53) + 1, 1 << 63, u64::MAX]) };
                            o.extend(x.to_le_bytes());
                        }
                        _ => {
                            o.push(2);
                            o.push(self.r.below(2) as u8);
                        }
                    }
                }
            }
            _ => {
                let n = self.blob_len();
                o = self.r.bytes(n);
            }
        }
        o
    }
    /// Data that may be malformed in an interesting way.
    pub fn ext_data(&mut self, ty: u32, key: &Key) -> Vec<u8> {
        let mut d = self.good_ext(ty, key);
        if !self.r.pct(self.b.bad_ext) {
            return d;
        }
        match ty {
            CREATORS if self.r.pct(60) => {
                let t = *self.r.pick(&[356usize, 99, 101, 0, 612, 200, 44, 255, 256]);
                d = self.creators(t);
                let n = d.len() / 34;
                let s: usize = d.chunks(34).map(|c| c[33] as usize).sum();
                if n > 0 && s != t && t > s {
                    // add entries until the total is reached
                    let mut left = t - s;
                    while left > 0 {
                        let x = left.min(255);
                        d.extend(self.actor());
                        d.push(0);
                        d.push(x as u8);
                        left -= x;
                    }
                }
                return d;
            }
            GROUPING if self.r.pct(50) => {
                if d.len() >= 8 {
                    d[..8].copy_from_slice(&(1 + self.r.below(3) as u64).to_le_bytes());
                }
                return d;
            }
            ROYALTIES if self.r.pct(60) => {
                match self.r.below(5) {
                    0 => {
                        let v = *self.r.pick(&[10_001u64, 10_256, 65_536, u64::MAX, 1 << 32]);
                        d[..8].copy_from_slice(&v.to_le_bytes());
                    }
                    1 => d[8] = *self.r.pick(&[6u8, 7, 255]),
                    2 => {
                        let x = d[12] as usize;
                        d[12] = (x + 1 + self.r.below(16)) as u8;
                    }
                    3 => {
                        let acc = *self.r.pick(&[3u64, 4, 1 << 32, u64::MAX]);
                        let k = self.r.key();
                        d.truncate(8);
                        d.extend((3 + self.r.below(2) as u32).to_le_bytes());
                        d.extend(40u32.to_le_bytes());
                        d.extend(acc.to_le_bytes());
                        d.extend(k);
                    }
                    _ => {
                        d.truncate(8);
                    }
                }
                return d;
            }
            PROXY if self.r.pct(50) => {
                let i = self.r.below(65);
                d[i] ^= 1;
                return d;
            }
            _ => (),
        }
        match self.r.below(6) {
            0 => {
                let n = 1 + self.r.below(8);
                d.truncate(d.len().saturating_sub(n));
            }
            1 => {
                let n = 1 + self.r.below(8);
                let x = self.r.bytes(n);
                d.extend(x);
            }
            2 => {
                if !d.is_empty() {
                    let i = self.r.below(d.len());
                    d[i] = *self.r.pick(&[0u8, 1, 255, 128, 3]);
                }
            }
            3 => {
                let n = self.r.below(60);
                d = self.r.bytes(n);
            }
            4 => d.clear(),
            _ => {
                let n = self.r.below(d.len() + 1);
                d.truncate(n);
            }
        }
        d
    }
    fn ext_ty(&mut self) -> u32 {
        if !self.b.exts.is_empty() && self.r.pct(50) {
            *self.r.pick(&self.b.exts)
        } else {
            self.r.range(1, 11) as u32
        }
    }
    fn plain_ty(&mut self) -> u32 {
        loop {
            let t = self.ext_ty();
            if t != MANAGER && t != PROXY {
                return t;
            }
        }
    }
    /// A set of extensions consistent with the standard.
    fn ext_set(&mut self, standard: u8, key: &Key) -> Vec<(u32, Vec<u8>)> {
        let n = match self.r.below(8) {
            0 => 0,
            1 => self.r.range(5, 9),
            _ => self.r.range(1, 4),
        };
        let mut tys: Vec<u32> = vec![];
        for _ in 0..n {
            let t = self.plain_ty();
            if !tys.contains(&t) {
                tys.push(t);
            }
        }
        if self.r.pct(self.b.royalty) && !tys.contains(&ROYALTIES) {
            tys.push(ROYALTIES);
        }
        if self.r.pct(self.b.grouped / 2) && !tys.contains(&GROUPING) {
            tys.push(GROUPING);
        }
        if standard == 1 {
            let i = self.r.below(tys.len() + 1);
            tys.insert(i, MANAGER);
        }
        if standard == 3 {
            let i = self.r.below(tys.len() + 1);
            tys.insert(i, PROXY);
        }
        let mut total = 0;
        let mut out = vec![];
        for t in tys {
            let d = self.ext_data(t, key);
            total += 24 + d.len();
            if total > 9_500 {
                break;
            }
            out.push((t, d));
        }
        // nothing in the last one, which then ends with its header
        if self.r.pct(15) {
            if let Some(l) = out.last_mut().filter(|l| matches!(l.0, ATTRIBUTES | LINKS | PROPERTIES | BUCKET)) {
                l.1.clear();
            }
        }
        out
    }
    fn standard(&mut self, key: &Key) -> u8 {
        if self.pdas.contains_key(key) {
            return if self.r.pct(80) { 3 } else { 0 };
        }
        if self.r.pct(self.b.managed) {
            return 1;
        }
        if self.r.pct(12) {
            2
        } else {
            0
        }
    }

    /// Places a population of finished assets (as previous history would have left them).
    /// Data of sizes beyond what fits in 15 or 16 bits.
    fn big_data(&mut self, ty: u32) -> Vec<u8> {
        let n = match self.r.below(6) {
            0 => self.r.range(9_000, 12_000),
            1 => self.r.range(32_500, 33_100),
            2 => self.r.range(65_200, 65_900),
            3 => self.r.range(20_000, 60_000),
            _ => self.r.range(66_000, 150_000),
        };
        let mut o = vec![];
        match ty {
            ATTRIBUTES | LINKS => {
                while o.len() < n {
                    let (a, b) = (self.r.range(0, 255), self.r.range(0, 255));
                    pstr_put(&mut o, &vec![b'a'; a]);
                    pstr_put(&mut o, &vec![b'v'; b]);
                }
            }
            BLOB => {
                let t = self.text();
                pstr_put(&mut o, &t);
                o.extend(self.r.bytes(n));
            }
            _ => o = self.r.bytes(n),
        }
        o
    }

    fn populate(&mut self, big: bool) {
        let slots = self.slots.clone();
        let save = self.b.bad_ext;
        self.b.bad_ext = 0;
        let auth_pool: Vec<Key> = (0..2).map(|_| self.actor()).collect();
        let mut groups: Vec<Key> = vec![];
        for k in slots.iter() {
            if self.r.pct(25) {
                continue;
            }
            let std = self.standard(k);
            let list = self.ext_set(std, k);
            if (std == 1) != list.iter().any(|e| e.0 == MANAGER) || (std == 3) != list.iter().any(|e| e.0 == PROXY) {
                continue;
            }
            let mut m = AssetM::blank();
            m.disc = 1;
            m.standard = std;
            m.mutable = self.r.pct(85);
            m.owner = self.actor();
            m.authority = if self.r.pct(80) { *self.r.pick(&auth_pool) } else { self.actor() };
            m.name = name35("asset");
            if self.r.pct(40) {
                m.delegate = self.actor();
                m.roles = self.r.range(1, 7) as u8;
            }
            m.state = self.r.pct(15) as u8;
            let mut list = list;
            if big && self.r.pct(60) {
                if !list.iter().any(|e| can_be_big(e.0)) {
                    let i = self.r.below(list.len() + 1);
                    list.insert(i, (BUCKET, vec![]));
                }
                let l: Vec<usize> = (0..list.len()).filter(|i| can_be_big(list[*i].0)).collect();
                let i = *self.r.pick(&l);
                let t = list[i].0;
                list[i].1 = self.big_data(t);
                // something after it, more often than not
                if i + 1 == list.len() && self.r.pct(60) && i > 0 {
                    list.swap(0, i);
                }
            }
            for (t, mut d) in list {
                if t == CREATORS {
                    let mut seen: BTreeMap<Key, u8> = BTreeMap::new();
                    for c in d.chunks_exact_mut(34) {
                        let kk = k32(c);
                        let v = *seen.entry(kk).or_insert(c[32]);
                        c[32] = v;
                    }
                }
                m.exts.push(Ext { ty: t, len: d.len(), data: d });
            }
            // membership
            if !groups.is_empty() && self.r.pct(self.b.grouped) {
                let g = *self.r.pick(&groups);
                let mut gm = self.asset(&g).unwrap();
                let (s, max, _) = gm.grouping().unwrap();
                if max == 0 || s < max {
                    m.authority = gm.authority;
                    m.group = g;
                    gm.set_group_size(s + 1);
                    let a = self.svm.db.get_mut(&g).unwrap();
                    a.data = encode(&gm, a.data.len());
                }
            }
            if let Some((_, max, _)) = m.grouping() {
                groups.push(*k);
                let ph = match self.r.below(6) {
                    0 => *self.r.pick(&[1u64, 254, 255, 256, 65_535, (1 << 32) - 1, 1 << 32]),
                    1 if max != 0 && max < 1 << 20 => max,
                    2 if max > 1 && max < 1 << 20 => max - 1,
                    _ => 0,
                };
                if ph > 0 && (max == 0 || ph <= max) {
                    m.set_group_size(ph);
                    self.phantom.insert(*k, ph);
                }
            }
            let end = m.end();
            let slack = if self.r.pct(15) { *self.r.pick(&[1usize, 7, 8, 15, 16, 17, 24, 40, 300]) } else { 0 };
            let d = encode(&m, end + slack);
            let extra = if self.r.pct(15) { self.r.below(5_000_000) as u64 } else { 0 };
            self.svm.db.insert(*k, Acct { lamports: rent_min(d.len()) + extra, data: d, owner: ids::asset(), executable: false });
        }
        self.b.bad_ext = save;
    }

    // ---------- building instructions
    fn ix(&self, op: Op, metas: Vec<Meta>) -> Ix {
        Ix { program: ids::asset(), metas, data: op.encode() }
    }
    fn group_meta(&mut self, m: &AssetM) -> Meta {
        if m.group != ZERO {
            if self.r.pct(94) {
                w_(m.group)
            } else {
                none()
            }
        } else if self.r.pct(85) {
            none()
        } else {
            let k = self.anykey();
            w_(k)
        }
    }
    /// someone entitled (usually) to act on the asset
    fn entitled(&mut self, m: &AssetM) -> Key {
        let mut c = vec![m.owner, m.owner];
        if m.delegate != ZERO {
            c.push(m.delegate);
            c.push(m.delegate);
        }
        if let Some((k, _)) = m.manager() {
            c.push(k);
            c.push(k);
        }
        c.push(m.authority);
        if m.owner == ZERO {
            if let Some((k, _)) = m.manager() {
                c = vec![k];
            }
        }
        let i = self.r.below(c.len());
        if self.r.pct(8) || c[i] == ZERO {
            self.wallet()
        } else {
            c[i]
        }
    }
    fn pick_created(&mut self) -> Option<(Key, AssetM)> {
        if self.r.pct(4) {
            // an unfinished account in place of an asset, with someone named in it to act on it
            let u: Vec<Key> = self.unfinished().into_iter().filter(|k| self.asset(k).map_or(false, |m| m.manager().is_some() || m.ext(CREATORS).is_some())).collect();
            if !u.is_empty() {
                let k = *self.r.pick(&u);
                let m = self.asset(&k)?;
                return Some((k, m));
            }
        }
        let v = self.created();
        if v.is_empty() {
            return None;
        }
        let k = match self.focus {
            Some(f) if self.r.pct(85) => f,
            _ => *self.r.pick(&v),
        };
        let m = self.asset(&k)?;
        Some((k, m))
    }
    /// subject meta, signing when it has to
    fn subj(&mut self, k: Key, m: &AssetM) -> Meta {
        if m.standard == 3 && self.r.pct(90) {
            sw(k)
        } else {
            w_(k)
        }
    }
    fn roles(&mut self) -> DelIn {
        if self.r.pct(20) {
            DelIn::All
        } else {
            let n = *self.r.pick(&[0usize, 1, 1, 1, 2, 2, 3]);
            DelIn::Some((0..n).map(|_| self.r.below(4) as u8).collect())
        }
    }
    fn payer_pair(&mut self) -> (Meta, Meta) {
        let p = self.rich();
        (sw(p), r_(SYSTEM))
    }
    fn opt_payer(&mut self) -> (Meta, Meta) {
        match self.r.below(12) {
            0 => (none(), none()),
            1 => (w_(self.wallet()), none()),
            2 => {
                let k = self.wallet();
                (sw(k), r_(SYSTEM))
            }
            3 => {
                let (p, _) = self.payer_pair();
                (p, none())
            }
            _ => self.payer_pair(),
        }
    }
    pub fn ext_in(ty: u32, d: Vec<u8>) -> ExtIn {
        if d.is_empty() {
            ExtIn { ty: ty as u8, len: 0, data: None }
        } else {
            ExtIn { ty: ty as u8, len: d.len() as u32, data: Some(d) }
        }
    }
    fn name(&mut self) -> String {
        match self.r.below(8) {
            0 => String::new(),
            1 => "n".repeat(35),
            2 => "x".repeat(self.r.range(36, 80)),
            3 => "é".repeat(self.r.range(1, 20)),
            _ => {
                let n = self.r.range(1, 20);
                (0..n).map(|_| (b'a' + self.r.below(26) as u8) as char).collect()
            }
        }
    }
    /// new data for an existing extension
    fn changed(&mut self, m: &AssetM, ty: u32, key: &Key) -> Vec<u8> {
        if !m.created() {
            return self.ext_data(ty, key);
        }
        let old = m.ext(ty).map(|e| e.data.clone()).unwrap_or_default();
        let mut d = old.clone();
        if self.r.pct(30) {
            return self.ext_data(ty, key);
        }
        match ty {
            CREATORS => {
                let mut v: Vec<Vec<u8>> = d.chunks(34).map(|c| c.to_vec()).collect();
                for _ in 0..self.r.range(1, 2) {
                    match self.r.below(6) {
                        0 if v.len() > 1 => {
                            let i = self.r.below(v.len());
                            let x = v.remove(i);
                            let j = self.r.below(v.len());
                            v[j][33] = v[j][33].wrapping_add(x[33]);
                        }
                        1 => {
                            let k = if self.r.pct(25) { m.authority } else { self.actor() };
                            let mut c = k.to_vec();
                            c.extend([self.r.below(2) as u8, 0]);
                            v.push(c);
                        }
                        2 => {
                            for c in v.iter_mut() {
                                c[32] ^= 1;
                            }
                        }
                        3 if v.len() > 1 => {
                            let i = self.r.below(v.len());
                            let j = self.r.below(v.len());
                            v.swap(i, j);
                        }
                        4 => {
                            let i = self.r.below(v.len().max(1));
                            if let Some(c) = v.get_mut(i) {
                                let k = self.wallet();
                                c[..32].copy_from_slice(&k);
                            }
                        }
                        _ => {
                            if v.len() > 1 {
                                let i = self.r.below(v.len());
                                let j = self.r.below(v.len());
                                if v[i][33] > 0 && i != j {
                                    v[i][33] -= 1;
                                    v[j][33] += 1;
                                }
                            }
                        }
                    }
                }
                v.concat()
            }
            GROUPING => {
                let (s, max, _) = m.grouping().unwrap_or((0, 0, ZERO));
                let nm = *self.r.pick(&[0, 1, s, s.wrapping_sub(1), s.wrapping_add(1), max, 2, 3, u64::MAX]);
                let ns = *self.r.pick(&[0, s, s, s.wrapping_add(1), 7]);
                let mut o = ns.to_le_bytes().to_vec();
                o.extend(nm.to_le_bytes());
                if self.r.pct(70) {
                    let k = if self.r.pct(50) { self.actor() } else { SYSTEM };
                    o.extend(k);
                }
                o
            }
            PROXY => {
                match self.r.below(4) {
                    0 => {
                        let i = self.r.below(d.len().max(1));
                        if let Some(b) = d.get_mut(i) {
                            *b ^= 1 << self.r.below(8);
                        }
                    }
                    _ => {
                        let k = self.actor();
                        if d.len() == 97 {
                            d[65..].copy_from_slice(&k);
                        }
                    }
                }
                d
            }
            BUCKET | BLOB => {
                // sizes around the current one
                let n = d.len() as isize + *self.r.pick(&[-17isize, -9, -8, -7, -1, 0, 1, 7, 8, 9, 17, 64]);
                let n = n.max(if ty == BLOB { 1 } else { 0 }) as usize;
                let mut x = self.r.bytes(n);
                if ty == BLOB {
                    x[0] = (x[0] as usize % n) as u8;
                }
                x
            }
            _ => self.ext_data(ty, key),
        }
    }
    fn authority_of(&mut self, m: &AssetM) -> Key {
        if self.r.pct(92) && m.authority != ZERO {
            m.authority
        } else {
            self.anykey()
        }
    }

    /// Next steps of the workload.
    pub fn plan(&mut self) -> Vec<Step> {
        let w = self.b.w.clone();
        let p = PLANS[self.r.weighted(&w)];
        let mut ixs = self.build(p);
        if ixs.is_empty() {
            ixs = self.build("create");
        }
        let last = ixs.len() - 1;
        let mut out = vec![];
        for (i, mut ix) in ixs.into_iter().enumerate() {
            let mut_p = if i == last { self.b.mutate } else { self.b.mutate / 4 };
            if self.r.pct(mut_p) {
                let n = if self.r.pct(75) { 1 } else { 2 };
                for _ in 0..n {
                    self.mutate(&mut ix);
                }
            }
            let height = if self.r.pct(self.b.relay) { 2 } else { 1 };
            let revive = if ix.data.len() == 1 && ix.data[0] < 2 && self.r.pct(60) {
                let n = ix.metas.first().map_or(0, |m| self.svm.get(&m.key).data.len());
                Some((self.rich(), rent_min(n) + self.r.below(1000) as u64))
            } else {
                None
            };
            out.push(Step { ix, height, topup: None, revive });
        }
        if p == "topup" || self.r.pct(1) {
            let mut v = self.created();
            v.extend(self.unfinished());
            v.extend(self.wallets.clone());
            let k = *self.r.pick(&v);
            let n = if self.svm.db.contains_key(&k) { self.r.range(1, 3_000_000) as u64 } else { 2_000_000 };
            out[0].topup = Some((k, n));
        }
        out
    }

    fn build(&mut self, p: &str) -> Vec<Ix> {
        match p {
            "transfer" => {
                let Some((k, m)) = self.pick_created() else { return vec![] };
                let s = self.entitled(&m);
                let to = match self.r.below(10) {
                    0 => m.owner,
                    1 | 2 => *self.r.pick(&self.foreign),
                    3 => *self.r.pick(&self.slots),
                    4 => self.anykey(),
                    _ => self.wallet(),
                };
                let g = self.group_meta(&m);
                let g = if g.key == m.group { r_(g.key) } else { g };
                let a = self.subj(k, &m);
                vec![self.ix(Op::Transfer, vec![a, s_(s), r_(to), g])]
            }
            "burn" => {
                let Some((k, m)) = self.pick_created() else { return vec![] };
                let s = self.entitled(&m);
                let rec = if self.r.pct(50) { none() } else { w_(self.wallet()) };
                let g = self.group_meta(&m);
                let a = self.subj(k, &m);
                vec![self.ix(Op::Burn, vec![a, sw(s), rec, g])]
            }
            "lock" => {
                let Some((k, m)) = self.pick_created() else { return vec![] };
                let s = self.entitled(&m);
                let a = self.subj(k, &m);
                let lock = if self.r.pct(80) { m.state == 0 } else { m.state == 1 };
                vec![self.ix(if lock { Op::Lock } else { Op::Unlock }, vec![a, s_(s)])]
            }
            "approve" => {
                let Some((k, m)) = self.pick_created() else { return vec![] };
                let o = if self.r.pct(90) { m.owner } else { self.entitled(&m) };
                let d = match self.r.below(6) {
                    0 if m.delegate != ZERO => m.delegate,
                    1 => self.anykey(),
                    2 if m.delegate != ZERO => {
                        // a near twin of the current delegate
                        let mut k = m.delegate;
                        k[*self.r.pick(&[0usize, 31])] ^= 1;
                        k
                    }
                    _ => self.actor(),
                };
                let a = self.subj(k, &m);
                let roles = self.roles();
                let first = self.ix(Op::Approve(roles), vec![a, s_(o), r_(d)]);
                if self.r.pct(40) {
                    // and let the new delegate act
                    let op = *self.r.pick(&[0, 1, 2]);
                    let second = match op {
                        0 => {
                            let to = self.wallet();
                            let g = if m.group != ZERO { r_(m.group) } else { none() };
                            self.ix(Op::Transfer, vec![a, s_(d), r_(to), g])
                        }
                        1 => self.ix(Op::Lock, vec![a, s_(d)]),
                        _ => {
                            let g = if m.group != ZERO { w_(m.group) } else { none() };
                            self.ix(Op::Burn, vec![a, sw(d), none(), g])
                        }
                    };
                    return vec![first, second];
                }
                vec![first]
            }
            "revoke" => {
                let Some((k, m)) = self.pick_created() else { return vec![] };
                let s = if m.delegate != ZERO && self.r.pct(40) { m.delegate } else { self.entitled(&m) };
                let a = self.subj(k, &m);
                let r = self.roles();
                vec![self.ix(Op::Revoke(r), vec![a, s_(s)])]
            }
            "create" => {
                let key = if self.r.pct(85) { self.fresh() } else { *self.r.pick(&self.slots.clone()) };
                self.create_ix(key, true).into_iter().collect()
            }
            "assemble" => {
                let key = self.fresh();
                let std = self.standard(&key);
                let list = self.ext_set(std, &key);
                let mut out = vec![];
                let pre = self.r.pct(20) && !self.derived.contains(&key);
                if pre {
                    // a pre-allocated account
                    let n = *self.r.pick(&[0usize, 100, 168, 169, 184, 200, 300, 600]);
                    let l = rent_min(n) + if self.r.pct(30) { self.r.below(3_000_000) as u64 } else { 0 };
                    self.svm.db.insert(key, Acct { lamports: l, data: vec![0; n], owner: ids::asset(), executable: false });
                }
                for (t, d) in &list {
                    out.extend(self.assemble_ext(key, *t, d.clone()));
                }
                if let Some(c) = self.create_ix2(key, std, None) {
                    out.push(c);
                }
                out
            }
            "allocate" => {
                let u = self.unfinished();
                let key = if !u.is_empty() && self.r.pct(60) { *self.r.pick(&u) } else { self.fresh() };
                let t = self.ext_ty();
                let d = self.ext_data(t, &key);
                self.assemble_ext(key, t, d)
            }
            "write" => {
                let mut u = self.unfinished();
                u.extend(self.created().into_iter().take(1));
                if u.is_empty() {
                    return self.build("allocate");
                }
                let key = *self.r.pick(&u);
                let missing = self
                    .asset(&key)
                    .and_then(|m| m.exts.last().map(|e| (e.ty, e.len, e.data.len())))
                    .unwrap_or((11, 4, 0));
                let left = missing.1.saturating_sub(missing.2).min(2_000);
                let over = self.r.pct(30);
                let full = if over { missing.1.min(2_000) } else { left };
                let n = match self.r.below(8) {
                    0 => full + 1 + self.r.below(9),
                    1 => full.saturating_sub(1),
                    2 | 3 => self.r.below(full + 1),
                    4 => 0,
                    _ => full,
                };
                let b = if over && n == full && self.r.pct(70) {
                    let mut d = self.good_ext(missing.0, &key);
                    d.resize(n, 0);
                    d
                } else {
                    self.r.bytes(n)
                };
                let (p, s) = self.payer_pair();
                vec![self.ix(Op::Write { overwrite: over, bytes: b }, vec![sw(key), p, s])]
            }
            "update" => {
                let Some((k, m)) = self.pick_created() else { return vec![] };
                let auth = self.authority_of(&m);
                let name = if self.r.pct(20) { Some(self.name()) } else { None };
                let mutable = if self.r.pct(6) { Some(self.r.pct(50)) } else { None };
                let ext = if self.r.pct(88) {
                    let ty = if !m.exts.is_empty() && self.r.pct(65) { m.exts[self.r.below(m.exts.len())].ty } else { self.ext_ty() };
                    let d = self.changed(&m, ty, &k);
                    let mut e = Self::ext_in(ty, d);
                    match self.r.below(30) {
                        0 => e.len = e.len.wrapping_add(1),
                        1 => e.len = e.len.wrapping_sub(1),
                        2 => e = ExtIn { ty: e.ty, len: 0, data: None },
                        3 if e.data.is_none() => e.data = Some(vec![]),
                        4 => e.ty = 0,
                        _ => (),
                    }
                    Some(e)
                } else {
                    None
                };
                let (p, s) = self.opt_payer();
                let a = self.subj(k, &m);
                vec![self.ix(Op::Update { name, mutable, ext }, vec![a, s_(auth), none(), none(), p, s])]
            }
            "buffered" => {
                let Some((k, m)) = self.pick_created() else { return vec![] };
                let auth = self.authority_of(&m);
                let u: Vec<Key> = self.unfinished();
                let mut out = vec![];
                let buf = if !u.is_empty() && self.r.pct(30) {
                    *self.r.pick(&u)
                } else {
                    let b = self.fresh();
                    let ty = if !m.exts.is_empty() && self.r.pct(65) { m.exts[self.r.below(m.exts.len())].ty } else { self.ext_ty() };
                    let d = self.changed(&m, ty, &k);
                    out.extend(self.assemble_ext(b, ty, d));
                    if self.r.pct(20) {
                        let t = self.ext_ty();
                        let d = self.ext_data(t, &b);
                        out.extend(self.assemble_ext(b, t, d));
                    }
                    b
                };
                let (p, s) = self.opt_payer();
                let a = self.subj(k, &m);
                let bm = if self.r.pct(90) { w_(buf) } else { r_(buf) };
                out.push(self.ix(Op::Update { name: None, mutable: None, ext: None }, vec![a, s_(auth), bm, none(), p, s]));
                if self.r.pct(40) {
                    let to = self.wallet();
                    out.push(self.ix(Op::Close, vec![sw(buf), w_(to)]));
                }
                out
            }
            "remove" => {
                let Some((k, m)) = self.pick_created() else { return vec![] };
                let auth = self.authority_of(&m);
                let ty = if !m.exts.is_empty() && self.r.pct(90) { m.exts[self.r.below(m.exts.len())].ty } else { self.r.below(12) as u32 };
                let to = if self.r.pct(90) { self.wallet() } else { self.anykey() };
                let a = self.subj(k, &m);
                vec![self.ix(Op::Remove(ty as u8), vec![a, s_(auth), none(), w_(to)])]
            }
            "resize" => {
                let Some((k, m)) = self.pick_created() else { return vec![] };
                let auth = self.authority_of(&m);
                let op = if self.r.pct(50) {
                    Op::Trim
                } else {
                    let v = *self.r.pick(&[0u16, 1, 7, 8, 15, 16, 17, 24, 100, 1000, 10_240, 10_241, 65_535]);
                    Op::Extend(v)
                };
                let (p, s) = self.opt_payer();
                let p = if p.key == ids::asset() { w_(self.wallet()) } else { p };
                let a = self.subj(k, &m);
                vec![self.ix(op, vec![a, s_(auth), p, s])]
            }
            "group" => {
                let c = self.created();
                if c.len() < 2 {
                    return vec![];
                }
                let groups: Vec<Key> = c.iter().copied().filter(|k| self.asset(k).unwrap().grouping().is_some()).collect();
                let g = if groups.is_empty() || self.r.pct(5) { *self.r.pick(&c) } else { *self.r.pick(&groups) };
                let gm = self.asset(&g).unwrap();
                let cand: Vec<Key> = c
                    .iter()
                    .copied()
                    .filter(|k| {
                        let m = self.asset(k).unwrap();
                        *k != g && m.group == ZERO && m.authority == gm.authority
                    })
                    .collect();
                let k = if cand.is_empty() || self.r.pct(10) { *self.r.pick(&c) } else { *self.r.pick(&cand) };
                let m = self.asset(&k).unwrap();
                let auth = self.group_auth(&gm);
                let a = self.subj(k, &m);
                vec![self.ix(Op::Group, vec![a, w_(g), s_(auth)])]
            }
            "ungroup" => {
                let c: Vec<Key> = self.created().into_iter().filter(|k| self.asset(k).unwrap().group != ZERO).collect();
                let k = if c.is_empty() {
                    match self.pick_created() {
                        Some((k, _)) => k,
                        None => return vec![],
                    }
                } else {
                    *self.r.pick(&c)
                };
                let m = self.asset(&k).unwrap();
                let g = if m.group != ZERO && self.r.pct(92) {
                    m.group
                } else {
                    match self.pick_created() {
                        Some((g, _)) => g,
                        None => return vec![],
                    }
                };
                let auth = match self.asset(&g) {
                    Some(gm) => self.group_auth(&gm),
                    None => self.wallet(),
                };
                let a = self.subj(k, &m);
                vec![self.ix(Op::Ungroup, vec![a, w_(g), s_(auth)])]
            }
            "handover" => {
                let Some((k, m)) = self.pick_created() else { return vec![] };
                let auth = self.authority_of(&m);
                let new = self.actor();
                let a = self.subj(k, &m);
                vec![self.ix(Op::Handover, vec![a, s_(auth), s_(new)])]
            }
            "verify" => {
                let mut c: Vec<Key> = self.created().into_iter().filter(|k| self.asset(k).unwrap().ext(CREATORS).is_some()).collect();
                if self.r.pct(15) {
                    c.extend(self.unfinished().into_iter().filter(|k| self.asset(k).map_or(false, |m| m.ext(CREATORS).is_some())));
                }
                let k = if c.is_empty() {
                    match self.pick_created() {
                        Some((k, _)) => k,
                        None => return vec![],
                    }
                } else {
                    *self.r.pick(&c)
                };
                let m = self.asset(&k).unwrap();
                let cr = m.creators().unwrap_or_default();
                let who = if cr.is_empty() || self.r.pct(10) { self.anykey() } else { cr[self.r.below(cr.len())].0 };
                let a = self.subj(k, &m);
                let op = if self.r.pct(60) { Op::Verify } else { Op::Unverify };
                vec![self.ix(op, vec![a, s_(who)])]
            }
            "close" => {
                let u = self.unfinished();
                let key = if u.is_empty() || self.r.pct(15) {
                    let c = self.created();
                    if !c.is_empty() && self.r.pct(60) {
                        *self.r.pick(&c)
                    } else {
                        self.anykey()
                    }
                } else {
                    *self.r.pick(&u)
                };
                let to = self.wallet();
                vec![self.ix(Op::Close, vec![sw(key), w_(to)])]
            }
            "foreign" => {
                // look-alikes: bytes of a real asset in an account of another program, or a raw
                // account of the asset program
                let key = self.r.key();
                let c = self.created();
                if !c.is_empty() && self.r.pct(60) {
                    let mut a = self.svm.get(self.r.clone().pick(&c));
                    a.owner = *self.r.pick(&self.progs);
                    self.svm.db.insert(key, a);
                    if self.foreign.len() < 8 {
                        self.foreign.push(key);
                    } else {
                        let i = self.r.below(self.foreign.len());
                        self.foreign[i] = key;
                    }
                } else {
                    let n = *self.r.pick(&[0usize, 100, 167, 168, 176, 184, 300]);
                    self.svm.db.insert(key, Acct { lamports: rent_min(n), data: vec![0; n], owner: ids::asset(), executable: false });
                    if self.slots.len() < 26 {
                        self.slots.push(key);
                    }
                }
                // use it as the subject (or another account) of some instruction
                let p = *self.r.pick(&["transfer", "update", "group", "ungroup", "lock", "remove", "burn", "create", "verify"]);
                let mut v = self.build(p);
                if let Some(ix) = v.last_mut() {
                    let n = ix.metas.len().min(4);
                    let i = if self.r.pct(60) { 0 } else { self.r.below(n) };
                    ix.metas[i].key = key;
                }
                v
            }
            "raw" => {
                let n = self.r.below(40);
                let mut data = self.r.bytes(n);
                if !data.is_empty() {
                    data[0] = self.r.below(20) as u8;
                }
                let nm = self.r.below(9);
                let metas = (0..nm)
                    .map(|_| {
                        let k = self.anykey();
                        Meta { key: k, signer: self.r.pct(50), writable: self.r.pct(60) }
                    })
                    .collect();
                vec![Ix { program: ids::asset(), metas, data }]
            }
            _ => {
                let p = *self.r.pick(&["update", "remove", "resize", "transfer"]);
                self.build(p)
            }
        }
    }

    fn group_auth(&mut self, gm: &AssetM) -> Key {
        let del = gm.grouping().map_or(ZERO, |g| g.2);
        match self.r.below(12) {
            0 => self.anykey(),
            1..=4 if del != ZERO => del,
            _ => gm.authority,
        }
    }

    /// Allocate (+ Write) instructions bringing one extension into an account under assembly.
    pub fn assemble_ext(&mut self, key: Key, ty: u32, d: Vec<u8>) -> Vec<Ix> {
        let (p, s) = if self.r.pct(85) { self.payer_pair() } else { self.opt_payer() };
        let mut out = vec![];
        let mode = self.r.below(10);
        if mode < 4 {
            let mut e = Self::ext_in(ty, d);
            match self.r.below(25) {
                0 => e.ty = 0,
                1 => e.len = e.len.wrapping_sub(1),
                2 => e.len = *self.r.pick(&[u32::MAX, u32::MAX - 7, u32::MAX - 15, u32::MAX - 191, 1 << 31, 20_000, 11_000]),
                _ => (),
            }
            out.push(self.ix(Op::Allocate(e), vec![sw(key), p, s]));
            return out;
        }
        // partially announced, then written in chunks
        let first = if self.r.pct(50) { 0 } else { self.r.below(d.len() + 1) };
        let e = ExtIn { ty: ty as u8, len: d.len() as u32, data: if first == 0 && self.r.pct(60) { None } else { Some(d[..first].to_vec()) } };
        out.push(self.ix(Op::Allocate(e), vec![sw(key), p, s]));
        let mut at = first;
        let mut guard = 0;
        while at < d.len() && guard < 6 {
            guard += 1;
            let left = d.len() - at;
            if self.r.pct(10) {
                // start over with overwrite
                let n = if self.r.pct(50) { d.len() } else { self.r.below(d.len() + 1) };
                let (p, s) = self.payer_pair();
                out.push(self.ix(Op::Write { overwrite: true, bytes: d[..n].to_vec() }, vec![sw(key), p, s]));
                at = n;
                continue;
            }
            let n = if guard == 6 || self.r.pct(50) {
                left
            } else if self.r.pct(15) {
                left - 1
            } else {
                self.r.below(left + 1)
            };
            let extra = if self.r.pct(4) { 1 + self.r.below(10) } else { 0 };
            let mut b = d[at..at + n].to_vec();
            b.resize(n + extra, 7);
            let (p, s) = self.payer_pair();
            out.push(self.ix(Op::Write { overwrite: false, bytes: b }, vec![sw(key), p, s]));
            if extra == 0 {
                at += n;
            }
        }
        if self.r.pct(6) {
            out.pop();
        }
        out
    }

    fn create_ix(&mut self, key: Key, _inline: bool) -> Option<Ix> {
        let std = if self.r.pct(92) { self.standard(&key) } else { self.r.below(4) as u8 };
        let list = if self.r.pct(85) {
            let mut l = self.ext_set(std, &key);
            if self.r.pct(8) {
                let t = self.ext_ty();
                let d = self.ext_data(t, &key);
                l.push((t, d));
            }
            if self.r.pct(4) && !l.is_empty() {
                l.remove(self.r.below(l.len()));
            }
            Some(l)
        } else {
            None
        };
        let mut e: Option<Vec<ExtIn>> = list.map(|l| l.into_iter().map(|(t, d)| Self::ext_in(t, d)).collect());
        if let Some(v) = &mut e {
            if !v.is_empty() && self.r.pct(6) {
                let i = self.r.below(v.len());
                match self.r.below(4) {
                    0 => v[i].len = v[i].len.wrapping_add(1 + self.r.below(8) as u32),
                    1 => v[i].len = v[i].len.wrapping_sub(1),
                    2 => v[i].data = None,
                    _ => v[i].ty = 0,
                }
            }
        }
        self.create_ix2(key, std, e)
    }
    fn create_ix2(&mut self, key: Key, std: u8, exts: Option<Vec<ExtIn>>) -> Option<Ix> {
        let mut auth = self.actor();
        let owner = self.actor();
        let groups: Vec<Key> = self.created().into_iter().filter(|k| self.asset(k).unwrap().grouping().is_some()).collect();
        let (g, ga) = if !groups.is_empty() && self.r.pct(self.b.grouped) {
            let g = *self.r.pick(&groups);
            let gm = self.asset(&g).unwrap();
            if self.r.pct(92) {
                auth = gm.authority;
            }
            let ga = self.group_auth(&gm);
            let gam = if ga == auth && self.r.pct(50) { none() } else { s_(ga) };
            (w_(g), gam)
        } else {
            (none(), none())
        };
        let (p, s) = if self.r.pct(93) { self.payer_pair() } else { self.opt_payer() };
        let am = if self.r.pct(70) { s_(auth) } else { r_(auth) };
        let name = self.name();
        let mutable = self.r.pct(85);
        Some(self.ix(Op::Create { name, standard: std, mutable, exts }, vec![sw(key), am, r_(owner), g, ga, p, s]))
    }

    /// One hostile change to an instruction.
    pub fn mutate(&mut self, ix: &mut Ix) {
        let n = ix.metas.len();
        if n == 0 {
            return;
        }
        let i = self.r.below(n);
        match self.r.below(18) {
            0 | 1 => {
                // an account that should sign does not
                let s: Vec<usize> = (0..n).filter(|i| ix.metas[*i].signer).collect();
                if !s.is_empty() {
                    let j = *self.r.pick(&s);
                    ix.metas[j].signer = false;
                }
            }
            2 => {
                let s: Vec<usize> = (0..n).filter(|i| ix.metas[*i].writable).collect();
                if !s.is_empty() {
                    let j = *self.r.pick(&s);
                    ix.metas[j].writable = false;
                }
            }
            3 | 4 => {
                // somebody else signs
                let s: Vec<usize> = (1..n).filter(|i| ix.metas[*i].signer).collect();
                if !s.is_empty() {
                    let j = *self.r.pick(&s);
                    ix.metas[j].key = match self.r.below(4) {
                        0 => {
                            let mut k = ix.metas[j].key;
                            k[*self.r.pick(&[0usize, 31, 15])] ^= 1 << self.r.below(8);
                            k
                        }
                        1 => self.anykey(),
                        _ => self.wallet(),
                    };
                }
            }
            5 => ix.metas[i].key = self.anykey(),
            6 => {
                let j = self.r.below(n);
                ix.metas[i].key = ix.metas[j].key;
            }
            7 => {
                let j = self.r.below(n);
                let (a, b) = (ix.metas[i].key, ix.metas[j].key);
                ix.metas[i].key = b;
                ix.metas[j].key = a;
            }
            8 => ix.metas[i] = none(),
            9 => {
                ix.metas.truncate(i);
            }
            10 => {
                let k = self.anykey();
                ix.metas.push(Meta { key: k, signer: self.r.pct(50), writable: self.r.pct(60) });
            }
            11 => {
                if !ix.data.is_empty() {
                    let p = self.r.below(ix.data.len().min(40));
                    ix.data[p] = *self.r.pick(&[0u8, 1, 2, 3, 255, 17, 128]);
                }
            }
            12 => {
                if self.r.pct(50) {
                    ix.data.push(self.r.u64() as u8);
                } else {
                    let l = ix.data.len();
                    ix.data.truncate(l - 1);
                }
            }
            13 => {
                // the same request on another asset
                let c = self.created();
                if !c.is_empty() {
                    ix.metas[0].key = *self.r.pick(&c);
                }
            }
            14 => {
                // another asset in a secondary position
                let c = self.created();
                if !c.is_empty() && n > 1 {
                    let j = self.r.range(1, n - 1);
                    ix.metas[j] = w_(*self.r.pick(&c));
                }
            }
            15 => {
                let u = self.unfinished();
                if !u.is_empty() {
                    ix.metas[i].key = *self.r.pick(&u);
                }
            }
            16 => {
                let k = *self.r.pick(&self.foreign);
                ix.metas[i].key = k;
            }
            _ => {
                for m in ix.metas.iter_mut() {
                    m.writable = true;
                }
            }
        }
    }
}
