//! Stand-in for the token-metadata program (only what the bridge calls: moving one token), with
//! the validations the real program makes on the accounts it is given.
use crate::ids;
use crate::svm::{rent_min, Acct, Fail, Key, Meta, Svm, SYSTEM};
use std::collections::BTreeMap;

pub fn ata_of(owner: &Key, mint: &Key, prog: &Key) -> Key {
    ids::pda(&[owner, prog, mint], &ids::ata()).0
}
pub fn metadata_of(mint: &Key) -> Key {
    ids::pda(&[b"metadata", &ids::token_metadata(), mint], &ids::token_metadata()).0
}
pub fn edition_of(mint: &Key) -> Key {
    ids::pda(&[b"metadata", &ids::token_metadata(), mint, b"edition"], &ids::token_metadata()).0
}
pub fn record_of(mint: &Key, token: &Key) -> Key {
    ids::pda(&[b"metadata", &ids::token_metadata(), mint, b"token_record", token], &ids::token_metadata()).0
}

pub fn token_acct(mint: &Key, owner: &Key, amount: u64, prog: &Key, frozen: bool) -> Acct {
    let mut d = vec![0u8; 165];
    d[..32].copy_from_slice(mint);
    d[32..64].copy_from_slice(owner);
    d[64..72].copy_from_slice(&amount.to_le_bytes());
    d[108] = if frozen { 2 } else { 1 };
    Acct { lamports: rent_min(165), data: d, owner: *prog, executable: false }
}
pub fn record_acct() -> Acct {
    let mut d = vec![0u8; 80];
    d[0] = 11;
    Acct { lamports: rent_min(80), data: d, owner: ids::token_metadata(), executable: false }
}
/// (mint, owner, amount) of a token account
pub fn token_of(a: &Acct) -> Option<(Key, Key, u64)> {
    if (a.owner != ids::token() && a.owner != ids::token22()) || a.data.len() != 165 {
        return None;
    }
    Some((a.data[..32].try_into().unwrap(), a.data[32..64].try_into().unwrap(), u64::from_le_bytes(a.data[64..72].try_into().unwrap())))
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Md {
    pub key: u8,
    pub authority: Key,
    pub mint: Key,
    pub name: String,
    pub symbol: String,
    pub uri: String,
    pub fee: u16,
    pub creators: Option<Vec<(Key, bool, u8)>>,
    pub standard: Option<u8>,
    pub collection: Option<(bool, Key)>,
    pub details: Option<u64>,
    /// rule set of a programmable token
    pub rules: Option<Key>,
}
impl Md {
    pub fn encode(&self) -> Vec<u8> {
        let mut o = vec![self.key];
        o.extend(self.authority);
        o.extend(self.mint);
        for s in [&self.name, &self.symbol, &self.uri] {
            o.extend((s.len() as u32).to_le_bytes());
            o.extend(s.as_bytes());
        }
        o.extend(self.fee.to_le_bytes());
        match &self.creators {
            None => o.push(0),
            Some(c) => {
                o.push(1);
                o.extend((c.len() as u32).to_le_bytes());
                for (k, v, s) in c {
                    o.extend(k);
                    o.push(*v as u8);
                    o.push(*s);
                }
            }
        }
        o.extend([1, 1]); // primary sale, mutable
        o.extend([1, 254]); // edition nonce
        match self.standard {
            None => o.push(0),
            Some(s) => o.extend([1, s]),
        }
        match &self.collection {
            None => o.push(0),
            Some((v, k)) => {
                o.extend([1, *v as u8]);
                o.extend(k);
            }
        }
        o.push(0); // uses
        match self.details {
            None => o.push(0),
            Some(n) => {
                o.extend([1, 0]);
                o.extend(n.to_le_bytes());
            }
        }
        // programmable config
        match &self.rules {
            None => o.push(0),
            Some(k) => {
                o.extend([1, 0, 1]);
                o.extend(k);
            }
        }
        o
    }
    pub fn decode(d: &[u8]) -> Option<Md> {
        let mut i = 0usize;
        let mut take = |n: usize| -> Option<&[u8]> {
            let r = d.get(i..i.checked_add(n)?)?;
            i += n;
            Some(r)
        };
        let mut m = Md { key: take(1)?[0], ..Default::default() };
        m.authority = take(32)?.try_into().ok()?;
        m.mint = take(32)?.try_into().ok()?;
        let mut ss = vec![];
        for _ in 0..3 {
            let n = u32::from_le_bytes(take(4)?.try_into().ok()?) as usize;
            ss.push(String::from_utf8(take(n)?.to_vec()).ok()?);
        }
        m.uri = ss.pop()?;
        m.symbol = ss.pop()?;
        m.name = ss.pop()?;
        m.fee = u16::from_le_bytes(take(2)?.try_into().ok()?);
        if take(1)?[0] == 1 {
            let n = u32::from_le_bytes(take(4)?.try_into().ok()?);
            let mut v = vec![];
            for _ in 0..n {
                let k: Key = take(32)?.try_into().ok()?;
                let x = take(2)?;
                v.push((k, x[0] == 1, x[1]));
            }
            m.creators = Some(v);
        }
        take(2)?;
        if take(1)?[0] == 1 {
            take(1)?;
        }
        if take(1)?[0] == 1 {
            m.standard = Some(take(1)?[0]);
        }
        if take(1)?[0] == 1 {
            let v = take(1)?[0] == 1;
            m.collection = Some((v, take(32)?.try_into().ok()?));
        }
        if take(1)?[0] == 1 {
            return None;
        }
        if take(1)?[0] == 1 {
            take(1)?;
            m.details = Some(u64::from_le_bytes(take(8)?.try_into().ok()?));
        }
        if take(1)?[0] == 1 && take(2)?[1] == 1 {
            m.rules = Some(take(32)?.try_into().ok()?);
        }
        Some(m)
    }
}

fn pay(db: &mut BTreeMap<Key, Acct>, payer: &Meta, to: Key, new: Acct) -> Result<(), String> {
    if !payer.signer || !payer.writable {
        return Err("payer must sign".into());
    }
    let mut p = db.get(&payer.key).cloned().unwrap_or_default();
    if p.owner != SYSTEM || !p.data.is_empty() || p.lamports < new.lamports {
        return Err("payer without funds".into());
    }
    let old = db.get(&to).cloned().unwrap_or_default();
    if old.lamports > 0 || !old.data.is_empty() {
        return Err("account in use".into());
    }
    p.lamports -= new.lamports;
    db.insert(payer.key, p);
    db.insert(to, new);
    Ok(())
}

/// The effect of moving tokens with the token-metadata program.
pub fn transfer(db: &mut BTreeMap<Key, Acct>, m: &[Meta], data: &[u8]) -> Result<(), String> {
    let e = |s: &str| Err(s.to_string());
    if data.len() < 11 || data[0] != 49 || data[1] != 0 {
        return e("unsupported instruction");
    }
    let amount = u64::from_le_bytes(data[2..10].try_into().unwrap());
    if m.len() < 17 {
        return e("missing accounts");
    }
    let none = ids::token_metadata();
    let (token, owner, dest, downer, mint, md, ed, rec, drec, auth, payer) = (m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8], m[9], m[10]);
    let prog = m[13].key;
    if m[11].key != SYSTEM || m[12].key != ids::sysvar_ix() || m[14].key != ids::ata() {
        return e("wrong program accounts");
    }
    let get = |db: &BTreeMap<Key, Acct>, k: &Key| db.get(k).cloned().unwrap_or_default();
    if (prog != ids::token() && prog != ids::token22()) || get(db, &mint.key).owner != prog {
        return e("wrong token program");
    }
    if !auth.signer || auth.key != owner.key {
        return e("authority must be the token owner and sign");
    }
    if !payer.signer || !payer.writable || !token.writable || !dest.writable || !md.writable {
        return e("privileges");
    }
    let ma = get(db, &md.key);
    if md.key != metadata_of(&mint.key) || ma.owner != ids::token_metadata() {
        return e("metadata not derived from the mint");
    }
    let meta = match Md::decode(&ma.data) {
        Some(x) if x.mint == mint.key => x,
        _ => return e("metadata"),
    };
    let nft = matches!(meta.standard, Some(0 | 3 | 4 | 5));
    if nft && ed.key != edition_of(&mint.key) {
        return e("edition not derived from the mint");
    }
    if nft && amount != 1 {
        return e("amount");
    }
    let ta = get(db, &token.key);
    match token_of(&ta) {
        Some((mk, ok, n)) if ta.owner == prog && mk == mint.key && ok == owner.key => {
            if n < amount {
                return e("insufficient tokens");
            }
        }
        _ => return e("source token account"),
    }
    let pnft = matches!(meta.standard, Some(4 | 5));
    if !pnft && ta.data[108] == 2 {
        return e("frozen");
    }
    let da = get(db, &dest.key);
    if da.data.is_empty() {
        if dest.key != ata_of(&downer.key, &mint.key, &prog) {
            return e("destination is not the associated account");
        }
        pay(db, &payer, dest.key, token_acct(&mint.key, &downer.key, 0, &prog, pnft))?;
    } else {
        match token_of(&da) {
            Some((mk, ok, _)) if da.owner == prog && mk == mint.key && ok == downer.key => (),
            _ => return e("destination token account"),
        }
    }
    if pnft {
        if rec.key == none || drec.key == none {
            return e("token record missing");
        }
        if rec.key != record_of(&mint.key, &token.key) || drec.key != record_of(&mint.key, &dest.key) || !rec.writable || !drec.writable {
            return e("token record");
        }
        if let Some(k) = meta.rules {
            // the rule set of the token decides on the transfer
            if m[15].key != ids::auth_rules() || m[16].key != k {
                return e("rule set missing");
            }
        }
        let r = get(db, &rec.key);
        if r.owner != ids::token_metadata() || r.data.len() != 80 || r.data[2] != 0 {
            return e("token record state");
        }
        if get(db, &drec.key).data.is_empty() {
            pay(db, &payer, drec.key, record_acct())?;
        }
    }
    if token.key != dest.key {
        let mut a = get(db, &token.key);
        let n = token_of(&a).unwrap().2 - amount;
        a.data[64..72].copy_from_slice(&n.to_le_bytes());
        db.insert(token.key, a);
        let mut a = get(db, &dest.key);
        let n = token_of(&a).unwrap().2 + amount;
        a.data[64..72].copy_from_slice(&n.to_le_bytes());
        db.insert(dest.key, a);
    }
    Ok(())
}

pub fn process(svm: &mut Svm, metas: &[Meta], data: &[u8]) -> Result<(), Fail> {
    transfer(&mut svm.db, metas, data).map_err(|t| Fail::Runtime(format!("token metadata: {t}")))
}
