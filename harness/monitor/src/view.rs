//! The monitor's own reading of account bytes (independent of the code under test).
use crate::svm::{Acct, Key};

pub const BASE: usize = 168;
pub const HDR: usize = 16;
pub const ZERO: Key = [0; 32];

pub const ATTRIBUTES: u32 = 1;
pub const BLOB: u32 = 2;
pub const CREATORS: u32 = 3;
pub const LINKS: u32 = 4;
pub const METADATA: u32 = 5;
pub const GROUPING: u32 = 6;
pub const ROYALTIES: u32 = 7;
pub const MANAGER: u32 = 8;
pub const PROXY: u32 = 9;
pub const PROPERTIES: u32 = 10;
pub const BUCKET: u32 = 11;

pub fn align8(n: usize) -> usize {
    (n + 7) / 8 * 8
}

pub fn k32(b: &[u8]) -> Key {
    b[..32].try_into().unwrap()
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Ext {
    pub ty: u32,
    /// announced length
    pub len: usize,
    /// data present (shorter than `len` while being assembled)
    pub data: Vec<u8>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct AssetM {
    pub disc: u8,
    pub state: u8,
    pub standard: u8,
    pub mutable: bool,
    pub owner: Key,
    pub group: Key,
    pub authority: Key,
    pub delegate: Key,
    pub roles: u8,
    pub name: Vec<u8>,
    pub exts: Vec<Ext>,
}

impl AssetM {
    pub fn blank() -> AssetM {
        AssetM {
            disc: 0,
            state: 0,
            standard: 0,
            mutable: false,
            owner: ZERO,
            group: ZERO,
            authority: ZERO,
            delegate: ZERO,
            roles: 0,
            name: vec![0; 35],
            exts: vec![],
        }
    }
    pub fn created(&self) -> bool {
        self.disc == 1
    }
    pub fn ext(&self, ty: u32) -> Option<&Ext> {
        self.exts.iter().find(|e| e.ty == ty)
    }
    pub fn ext_mut(&mut self, ty: u32) -> Option<&mut Ext> {
        self.exts.iter_mut().find(|e| e.ty == ty)
    }
    pub fn idx(&self, ty: u32) -> Option<usize> {
        self.exts.iter().position(|e| e.ty == ty)
    }
    /// start offset of the i-th extension (i == len gives the end of the chain)
    pub fn offset(&self, i: usize) -> usize {
        let mut o = BASE;
        for e in &self.exts[..i] {
            o = align8(o + HDR + e.len);
        }
        o
    }
    pub fn end(&self) -> usize {
        self.offset(self.exts.len())
    }
    pub fn complete(&self) -> bool {
        self.exts.last().map_or(true, |e| e.data.len() == e.len)
    }
    pub fn delegate_opt(&self) -> Option<(Key, u8)> {
        (self.delegate != ZERO).then_some((self.delegate, self.roles))
    }
    pub fn manager(&self) -> Option<(Key, u8)> {
        self.ext(MANAGER).filter(|e| e.data.len() >= 33).map(|e| (k32(&e.data), e.data[32]))
    }
    pub fn grouping(&self) -> Option<(u64, u64, Key)> {
        self.ext(GROUPING).filter(|e| e.data.len() >= 16).map(|e| {
            (
                u64::from_le_bytes(e.data[..8].try_into().unwrap()),
                u64::from_le_bytes(e.data[8..16].try_into().unwrap()),
                if e.data.len() >= 48 { k32(&e.data[16..48]) } else { ZERO },
            )
        })
    }
    pub fn set_group_size(&mut self, s: u64) {
        if let Some(e) = self.ext_mut(GROUPING) {
            e.data[..8].copy_from_slice(&s.to_le_bytes());
        }
    }
    pub fn creators(&self) -> Option<Vec<(Key, bool, u8)>> {
        self.ext(CREATORS).map(|e| creators_of(&e.data))
    }
}

pub fn creators_of(d: &[u8]) -> Vec<(Key, bool, u8)> {
    d.chunks_exact(34).map(|c| (k32(c), c[32] != 0, c[33])).collect()
}

/// Strict reading of a program-owned account of at least `BASE` bytes.
pub fn parse(d: &[u8]) -> Result<AssetM, String> {
    if d.len() < BASE {
        return Err("too short".into());
    }
    let mut a = AssetM {
        disc: d[0],
        state: d[1],
        standard: d[2],
        mutable: d[3] != 0,
        owner: k32(&d[4..]),
        group: k32(&d[36..]),
        authority: k32(&d[68..]),
        delegate: k32(&d[100..]),
        roles: d[132],
        name: d[133..168].to_vec(),
        exts: vec![],
    };
    if a.disc > 1 || a.state > 1 || a.standard > 3 {
        return Err(format!("invalid header bytes {:?}", &d[..4]));
    }
    let u = |o: usize| u32::from_le_bytes(d[o..o + 4].try_into().unwrap());
    let mut c = BASE;
    while c + HDR <= d.len() {
        let (ty, len, bound) = (u(c), u(c + 4) as usize, u(c + 8) as usize);
        if ty == 0 {
            break;
        }
        if ty > 11 {
            return Err(format!("unknown extension type {ty} at {c}"));
        }
        if a.idx(ty).is_some() {
            return Err(format!("extension type {ty} appears twice"));
        }
        if bound != align8(c + HDR + len) {
            return Err(format!("extension {ty} at {c}: length {len} but recorded end {bound}"));
        }
        let end = c + HDR + len;
        let avail = end.min(d.len());
        a.exts.push(Ext { ty, len, data: d[c + HDR..avail].to_vec() });
        if end > d.len() {
            if a.disc == 1 {
                return Err(format!("created asset with incomplete extension {ty}"));
            }
            return Ok(a);
        }
        if bound > d.len() {
            return Err(format!("extension {ty} ends at {bound} beyond the account ({})", d.len()));
        }
        c = bound;
    }
    Ok(a)
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Body {
    Raw(Vec<u8>),
    Asset(AssetM),
    Corrupt(String),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct MAcct {
    pub lamports: u64,
    pub owner: Key,
    pub len: usize,
    pub executable: bool,
    pub body: Body,
}

pub fn lift(a: &Acct) -> MAcct {
    let body = if a.owner == crate::ids::asset() && a.data.len() >= BASE {
        match parse(&a.data) {
            Ok(m) => Body::Asset(m),
            Err(e) => Body::Corrupt(e),
        }
    } else {
        Body::Raw(a.data.clone())
    };
    MAcct { lamports: a.lamports, owner: a.owner, len: a.data.len(), executable: a.executable, body }
}

/// Bytes of an asset (used to place prepared accounts into a world).
pub fn encode(a: &AssetM, total: usize) -> Vec<u8> {
    let mut d = vec![a.disc, a.state, a.standard, a.mutable as u8];
    d.extend(a.owner);
    d.extend(a.group);
    d.extend(a.authority);
    d.extend(a.delegate);
    d.push(a.roles);
    d.extend(&a.name);
    for e in &a.exts {
        let o = d.len();
        d.extend(e.ty.to_le_bytes());
        d.extend((e.len as u32).to_le_bytes());
        d.extend((align8(o + HDR + e.len) as u32).to_le_bytes());
        d.extend([0u8; 4]);
        d.extend(&e.data);
        while d.len() % 8 != 0 {
            d.push(0);
        }
    }
    d.resize(total.max(d.len()), 0);
    d
}
