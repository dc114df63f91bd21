//! Helpers of the demonstrations: a world of accounts and one-line instructions.
#![allow(dead_code)]
pub(crate) use crate::ids;
pub use crate::op::*;
pub use crate::svm::*;
pub use crate::view::*;

pub fn s_(k: Key) -> Meta { Meta { key: k, signer: true, writable: false } }
pub fn w_(k: Key) -> Meta { Meta { key: k, signer: false, writable: true } }
pub fn sw(k: Key) -> Meta { Meta { key: k, signer: true, writable: true } }
pub fn r_(k: Key) -> Meta { Meta { key: k, signer: false, writable: false } }
pub fn none() -> Meta { r_(ids::asset()) }
pub fn sys() -> Meta { r_(SYSTEM) }
/// the n-th address
pub fn key(n: u8) -> Key { let mut k = [n; 32]; k[31] = 0x42; k }
pub fn ext(ty: u32, d: Vec<u8>) -> ExtIn { ExtIn { ty: ty as u8, len: d.len() as u32, data: Some(d) } }
pub fn pstr(o: &mut Vec<u8>, s: &str) { o.push(s.len() as u8); o.extend(s.as_bytes()); }
pub fn attrs(l: &[(&str, &str)]) -> Vec<u8> { let mut o = vec![]; for (a, b) in l { pstr(&mut o, a); pstr(&mut o, b); } o }
pub fn creators(l: &[(Key, u8)]) -> Vec<u8> { let mut o = vec![]; for (k, s) in l { o.extend(k); o.push(0); o.push(*s); } o }
pub fn grouping(max: u64, delegate: Key) -> Vec<u8> { let mut o = vec![0; 8]; o.extend(max.to_le_bytes()); o.extend(delegate); o }
pub fn blob(ct: &str, d: &[u8]) -> Vec<u8> { let mut o = vec![]; pstr(&mut o, ct); o.extend(d); o }
pub fn rule(op: u32, body: Vec<u8>) -> Vec<u8> { let mut o = op.to_le_bytes().to_vec(); o.extend((body.len() as u32).to_le_bytes()); o.extend(body); o }
/// list rule: 3 = owned by, 4 = key match; account 0 asset, 1 authority, 2 recipient
pub fn list(op: u32, account: u64, keys: &[Key]) -> Vec<u8> { let mut b = account.to_le_bytes().to_vec(); for k in keys { b.extend(k); } rule(op, b) }
pub fn royalties(bp: u64, r: Vec<u8>) -> Vec<u8> { let mut o = bp.to_le_bytes().to_vec(); o.extend(r); o }

pub struct W { pub svm: Svm }
impl W {
    pub fn new() -> W {
        let mut svm = Svm::new();
        for n in 1..=20 { svm.db.insert(key(n), Acct::sys(10_000_000_000)); }
        W { svm }
    }
    pub fn tx(&mut self, op: Op, metas: Vec<Meta>) -> Result<(), Fail> {
        let ix = Ix { program: ids::asset(), metas, data: op.encode() };
        let r = self.svm.exec(&[ix]);
        println!("{:?} -> {:?}", op, r);
        r
    }
    /// the same, issued by another program
    pub fn via(&mut self, op: Op, metas: Vec<Meta>) -> Result<(), Fail> {
        let mut m = vec![r_(ids::asset())];
        m.extend(metas);
        let ix = Ix { program: RELAY, metas: m, data: op.encode() };
        let r = self.svm.exec(&[ix]);
        println!("via program {:?} -> {:?}", op, r);
        r
    }
    pub fn create(&mut self, a: Key, authority: Key, owner: Key, group: Option<Key>, standard: u8, exts: Vec<ExtIn>) -> Result<(), Fail> {
        let g = group.map_or(none(), w_);
        self.tx(Op::Create { name: "demo".into(), standard, mutable: true, exts: Some(exts) },
            vec![sw(a), s_(authority), r_(owner), g, s_(authority), sw(key(20)), sys()])
    }
    pub fn asset(&self, a: Key) -> AssetM { parse(&self.svm.get(&a).data).expect("well-formed asset") }
}
