//! Every form in which the clients express an instruction, compared with the documented encoding and
//! executed on the real program; accounts written by the program, read back through the clients.
use crate::forms;
use borsh::{BorshDeserialize, BorshSerialize};
use monitor::check::{hexs, judge, viol};
use monitor::gen::*;
use monitor::model::*;
use monitor::rng::Rng;
use monitor::svm::*;
use monitor::view::*;
use monitor::wf::{self, Wf};
use monitor::{ids, Ctx};
use nifty_asset::types as ct;
use num_traits::FromPrimitive;
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};

pub const JUNK: Pubkey = Pubkey::new_from_array([0xEE; 32]);
pub const SYS: Pubkey = Pubkey::new_from_array([0; 32]);
pub const ASSET: Pubkey = solana_program::pubkey!("AssetGtQBTSgm5s91d1RAQod5JmaZiJDxqsgtqrZud73");
pub const BRIDGE: Pubkey = solana_program::pubkey!("BridgezKrNugsZwTcyAMYba643Z93RzC2yN1Y24LwAkm");
pub const TM: Pubkey = solana_program::pubkey!("metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s");
pub const SYSVAR: Pubkey = solana_program::pubkey!("Sysvar1nstructions1111111111111111111111111");
pub const TOKEN: Pubkey = solana_program::pubkey!("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
pub const ATA: Pubkey = solana_program::pubkey!("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");

/// Accounts handed to a client: one entry per declared account.
pub struct In<'x, 'a> {
    pub k: Vec<Option<Pubkey>>,
    /// whether the account signs, where that is up to the caller
    pub s: Vec<bool>,
    pub info: Vec<Option<&'x AccountInfo<'a>>>,
    /// additional accounts: key, writable, signer
    pub rem: Vec<(Pubkey, bool, bool)>,
    pub rem_info: Vec<(&'x AccountInfo<'a>, bool, bool)>,
    pub program: &'x AccountInfo<'a>,
    pub seeds: &'x [&'x [&'x [u8]]],
}

#[derive(Clone, Debug)]
pub enum BOp {
    Bridge,
    Create(bool),
}

// ---------- capturing invocations made by client code
pub struct Captured {
    pub ix: Instruction,
    pub infos: Vec<Pubkey>,
    pub seeds: Vec<Vec<Vec<u8>>>,
}
thread_local! {
    static CAP: RefCell<Vec<Captured>> = const { RefCell::new(vec![]) };
}
struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        CAP.with(|c| {
            c.borrow_mut().push(Captured {
                ix: ix.clone(),
                infos: infos.iter().map(|i| *i.key).collect(),
                seeds: seeds.iter().map(|s| s.iter().map(|b| b.to_vec()).collect()).collect(),
            })
        });
        Ok(())
    }
}
static KNOWN_FLAGS: AtomicBool = AtomicBool::new(false);
static SAID: AtomicBool = AtomicBool::new(false);

pub fn install() {
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
    let a: Vec<String> = std::env::args().collect();
    if let Some(i) = a.iter().position(|x| x == "--known") {
        let t = std::fs::read_to_string(&a[i + 1]).unwrap_or_default();
        KNOWN_FLAGS.store(t.lines().any(|l| l.starts_with("finding: property=P22 cpi-remaining-account-flags")), Ordering::Relaxed);
    }
}
pub fn captured() -> Vec<Captured> {
    CAP.with(|c| std::mem::take(&mut *c.borrow_mut()))
}

/// Account flags documented for the program: s signer, w writable, S signer if the caller says so, ? may be absent.
pub fn spec(op: &Op) -> &'static [&'static str] {
    match op {
        Op::Close => &["sw", "w"],
        Op::Burn => &["w", "sw", "w?", "w?"],
        Op::Create { .. } => &["sw", "S", "", "w?", "s?", "sw?", "?"],
        Op::Approve(_) => &["w", "s", ""],
        Op::Allocate(_) => &["sw", "sw?", "?"],
        Op::Lock | Op::Unlock | Op::Revoke(_) | Op::Verify | Op::Unverify => &["w", "s"],
        Op::Transfer => &["w", "s", "", "?"],
        Op::Update { .. } => &["w", "s", "w?", "?", "sw?", "?"],
        Op::Write { .. } => &["sw", "sw", ""],
        Op::Group | Op::Ungroup => &["w", "w", "s"],
        Op::Handover => &["w", "s", "s"],
        Op::Remove(_) => &["w", "s", "?", "w"],
        Op::Trim | Op::Extend(_) => &["w", "s", "Sw", "?"],
    }
}
pub fn bspec(op: &BOp) -> &'static [&'static str] {
    match op {
        BOp::Bridge => &["w", "w", "s", "w", "", "w", "", "w?", "w", "w?", "sw", "", "", "", "", "", "", "?", "?", "?"],
        BOp::Create(_) => &["w", "w", "", "", "S", "?", "sw", "", ""],
    }
}

pub fn expected(sp: &[&str], k: &[Option<Pubkey>], s: &[bool], rem: &[(Pubkey, bool, bool)], id: Pubkey, data: &[u8], subject_signs: bool) -> Instruction {
    let mut accounts = vec![];
    for (i, f) in sp.iter().enumerate() {
        accounts.push(match k[i] {
            None => solana_program::instruction::AccountMeta { pubkey: id, is_signer: false, is_writable: false },
            Some(p) => solana_program::instruction::AccountMeta {
                pubkey: p,
                is_signer: f.contains('s') || (f.contains('S') && s[i]) || (i == 0 && subject_signs),
                is_writable: f.contains('w'),
            },
        });
    }
    for r in rem {
        accounts.push(solana_program::instruction::AccountMeta { pubkey: r.0, is_signer: r.2, is_writable: r.1 });
    }
    Instruction { program_id: id, accounts, data: data.to_vec() }
}

pub fn show_ix(i: &Instruction) -> String {
    let m: Vec<String> = i
        .accounts
        .iter()
        .map(|a| format!("{}{}{}", monitor::check::short(&a.pubkey.to_bytes()), if a.is_signer { "+s" } else { "" }, if a.is_writable { "+w" } else { "" }))
        .collect();
    format!("program {} [{}] data {}", monitor::check::short(&i.program_id.to_bytes()), m.join(" "), hexs(&i.data))
}

/// Compares one produced instruction with the documented one.
#[allow(clippy::too_many_arguments)]
fn same(cx: &mut Ctx, what: &str, got: &Instruction, exp: &Instruction, declared: usize, cpi: bool) -> bool {
    if got == exp {
        return true;
    }
    if cpi {
        // the known exchange of the two flags of additional accounts
        let mut sw = exp.clone();
        for a in sw.accounts.iter_mut().skip(declared) {
            std::mem::swap(&mut a.is_signer, &mut a.is_writable);
        }
        if *got == sw && KNOWN_FLAGS.load(Ordering::Relaxed) {
            if !SAID.swap(true, Ordering::Relaxed) {
                println!("KNOWN-FINDING: property=P22 cpi-remaining-account-flags: additional accounts of a CPI builder get their signer and writable flags exchanged (first seen: {what})");
            }
            return true;
        }
    }
    cx.report(viol("P22", format!("{what} produces {} expected {}", show_ix(got), show_ix(exp))));
    false
}

fn message(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}

/// All forms of one instruction; returns the one of the client.
type BuildFn<O> = for<'r, 's, 't, 'a> fn(&'r O, &'s In<'t, 'a>, u8, u8) -> Result<Option<Instruction>, solana_program::program_error::ProgramError>;

#[allow(clippy::too_many_arguments)]
fn all_forms<O>(cx: &mut Ctx, r: &mut Rng, who: &str, name: &str, op: &O, build: BuildFn<O>, sp: &[&str], k: &[Option<Pubkey>], s: &[bool], rem: &[(Pubkey, bool, bool)], id: Pubkey, data: &[u8], subject_signs: bool) -> Option<Instruction> {
    let exp = expected(sp, k, s, rem, id, data, subject_signs);
    let mut lam: Vec<u64> = vec![0; k.len() + rem.len() + 1];
    let owner = Pubkey::new_from_array([7; 32]);
    let mut bufs: Vec<Vec<u8>> = vec![vec![]; k.len() + rem.len() + 1];
    let keys: Vec<Pubkey> = k.iter().map(|x| x.unwrap_or(JUNK)).chain(rem.iter().map(|x| x.0)).chain([id]).collect();
    let infos: Vec<AccountInfo> =
        keys.iter().zip(lam.iter_mut()).zip(bufs.iter_mut()).map(|((k, l), b)| AccountInfo::new(k, false, false, l, b, &owner, false, 0)).collect();
    let seed_store: Vec<Vec<Vec<u8>>> = if r.pct(40) { (0..r.range(1, 2)).map(|_| (0..r.range(1, 3)).map(|_| r.bytes(5)).collect()).collect() } else { vec![] };
    let s1: Vec<Vec<&[u8]>> = seed_store.iter().map(|v| v.iter().map(|b| b.as_slice()).collect()).collect();
    let s2: Vec<&[&[u8]]> = s1.iter().map(|v| v.as_slice()).collect();
    let input = In {
        k: k.to_vec(),
        s: s.to_vec(),
        info: k.iter().enumerate().map(|(i, x)| x.map(|_| &infos[i])).collect(),
        rem: rem.to_vec(),
        rem_info: rem.iter().enumerate().map(|(i, x)| (&infos[k.len() + i], x.1, x.2)).collect(),
        program: infos.last().unwrap(),
        seeds: &s2,
    };
    let mut out = None;
    for form in 0..4u8 {
        let style = r.below(8) as u8;
        captured();
        let fname = ["struct", "builder", "cpi", "cpi builder"][form as usize];
        let what = format!("{who} {name} ({fname})");
        cx.begin(&what, "P22");
        cx.stats.steps += 1;
        match catch_unwind(AssertUnwindSafe(|| build(op, &input, form, style))) {
            Err(e) => cx.report(viol("P22", format!("{what} panics: {}", message(e)))),
            Ok(Err(e)) => cx.report(viol("P22", format!("{what} fails: {e:?}"))),
            Ok(Ok(Some(ix))) => {
                if same(cx, &what, &ix, &exp, sp.len(), false) {
                    out = Some(ix);
                }
            }
            Ok(Ok(None)) => {
                let c = captured();
                if c.len() != 1 {
                    cx.report(viol("P22", format!("{what} makes {} invocations", c.len())));
                    continue;
                }
                let c = &c[0];
                same(cx, &what, &c.ix, &exp, sp.len(), true);
                // the runtime needs the account of every key, and the program
                for a in exp.accounts.iter().map(|a| a.pubkey).chain([id]) {
                    if !c.infos.contains(&a) {
                        cx.report(viol("P22", format!("{what} does not pass account {}", monitor::check::short(&a.to_bytes()))));
                    }
                }
                if c.seeds != seed_store {
                    cx.report(viol("P22", format!("{what} passes other signer seeds than given")));
                }
            }
        }
        let pat: String = k.iter().map(|x| if x.is_some() { '1' } else { '0' }).collect();
        cx.stats.label(format!("{what} accounts {pat}{}", if rem.is_empty() { "" } else { " +more" }), true);
    }
    out
}

fn remaining(r: &mut Rng) -> Vec<(Pubkey, bool, bool)> {
    if r.pct(70) {
        return vec![];
    }
    (0..r.range(1, 3)).map(|_| (Pubkey::new_from_array(r.key()), r.pct(50), r.pct(50))).collect()
}

pub fn to_ix(i: &Instruction) -> Ix {
    Ix {
        program: i.program_id.to_bytes(),
        metas: i.accounts.iter().map(|a| Meta { key: a.pubkey.to_bytes(), signer: a.is_signer, writable: a.is_writable }).collect(),
        data: i.data.clone(),
    }
}

/// Runs an instruction built by a client; the program must treat it as documented.
pub fn execute(svm: &mut Svm, ixn: &Instruction, cx: &mut Ctx, props: &str, must: bool) -> bool {
    let ix = to_ix(ixn);
    let p = predict(&svm.db, &ix, 1);
    let before: BTreeMap<Key, Acct> = p.post.keys().filter_map(|k| svm.db.get(k).map(|a| (*k, a.clone()))).collect();
    let what = monitor::assetmode::show(&ix);
    cx.begin(&what, props);
    let res = svm.exec(&[ix]);
    cx.stats.steps += 1;
    cx.log(format!("{what} -> {res:?}"));
    match &res {
        Ok(()) => cx.stats.accepted += 1,
        Err(_) => cx.stats.refused += 1,
    }
    let vs = judge(&before, &svm.db, &p, &res);
    let mut ok = true;
    for v in vs {
        ok = false;
        cx.report(viol(props, format!("as built by the client: {}", v.text)));
    }
    if must && res.is_err() {
        ok = false;
        cx.report(viol(props, format!("refused: {what}: {res:?}")));
    }
    let outcome = if res.is_ok() { "accepted" } else { "refused" };
    cx.stats.label(format!("executed {} {outcome}", p.tag), true);
    if cx.stats.samples.len() < 3 && cx.stats.steps % 41 == 0 {
        cx.stats.samples.push(format!("built by the client: {what} -> {outcome}, as predicted"));
    }
    ok && res.is_ok()
}

fn ext_roundtrip<T: BorshDeserialize + BorshSerialize>(d: &[u8]) -> Result<T, String> {
    let mut r = d;
    let v = T::deserialize(&mut r).map_err(|e| format!("does not decode: {e}"))?;
    if !r.is_empty() {
        return Err(format!("leaves {} bytes", r.len()));
    }
    let b = v.try_to_vec().map_err(|e| format!("does not encode: {e}"))?;
    if b != d {
        return Err(format!("encodes back to {}", hexs(&b)));
    }
    Ok(v)
}

fn strings(d: &[u8]) -> Vec<String> {
    let mut r = d;
    let mut v = vec![];
    while let Some((s, rest)) = wf::pstr(r) {
        v.push(String::from_utf8_lossy(s).into_owned());
        r = rest;
    }
    v
}

pub fn client_ext(e: &Ext) -> Result<(), String> {
    let d = &e.data[..];
    let want = |ok: bool, t: String| if ok { Ok(()) } else { Err(t) };
    let nul = |k: &[u8]| (k32(k) != ZERO).then(|| Pubkey::new_from_array(k32(k)));
    match e.ty {
        ATTRIBUTES => {
            let v: ct::Attributes = ext_roundtrip(d)?;
            let l: Vec<String> = v.values.iter().flat_map(|t| [t.name.to_string(), t.value.to_string()]).collect();
            want(l == strings(d), format!("{l:?}"))
        }
        LINKS => {
            let v: ct::Links = ext_roundtrip(d)?;
            let l: Vec<String> = v.values.iter().flat_map(|t| [t.name.to_string(), t.uri.to_string()]).collect();
            want(l == strings(d), format!("{l:?}"))
        }
        BLOB => {
            let v: ct::Blob = ext_roundtrip(d)?;
            let (t, rest) = wf::pstr(d).unwrap();
            want(v.content_type.as_bytes() == t && v.data[..] == *rest, "other contents".into())
        }
        BUCKET => {
            let v: ct::Bucket = ext_roundtrip(d)?;
            want(v.data[..] == *d, "other contents".into())
        }
        CREATORS => {
            if d.chunks_exact(34).any(|c| c[32] > 1) {
                return Ok(());
            }
            let v: ct::Creators = ext_roundtrip(d)?;
            let l: Vec<_> = v.values.iter().map(|c| (c.address.to_bytes(), c.verified, c.share)).collect();
            want(l == creators_of(d), format!("{l:?}"))
        }
        METADATA => {
            let s = strings(d);
            if s.len() != 4 {
                return Ok(());
            }
            let v: ct::Metadata = ext_roundtrip(d)?;
            want(*v.symbol == s[0] && *v.description == s[1] && *v.uri == s[2] && *v.image_uri == s[3], format!("{v:?}"))
        }
        GROUPING => {
            if d.len() != 48 {
                return Ok(());
            }
            let v: ct::Grouping = ext_roundtrip(d)?;
            want(v.size.to_le_bytes() == d[..8] && v.max_size.to_le_bytes() == d[8..16] && v.delegate.to_option() == nul(&d[16..]), format!("{v:?}"))
        }
        MANAGER => {
            let v: ct::Manager = ext_roundtrip(d)?;
            want(v.delegate.address.to_option() == nul(d) && roles_of(&v.delegate.roles) == d[32] & 7, format!("{v:?}"))
        }
        PROXY => {
            let v: ct::Proxy = ext_roundtrip(d)?;
            want(v.program.to_bytes() == d[..32] && v.seeds == d[32..64] && v.bump == d[64] && v.authority.to_option() == nul(&d[65..]), format!("{v:?}"))
        }
        _ => Ok(()),
    }
}

fn roles_of(r: &nifty_asset::DelegateRoles) -> u8 {
    use nifty_asset::state::DelegateRole as R;
    r.to_vec().iter().fold(0, |m, x| {
        m | match x {
            R::None => 0,
            R::Transfer => 1,
            R::Lock => 2,
            R::Burn => 4,
        }
    })
}

/// The client's reading of an account must be what the account holds.
pub fn decodes(cx: &mut Ctx, k: &Key, a: &Acct, props: &str) {
    let m = match parse(&a.data) {
        Ok(m) => m,
        Err(_) => return,
    };
    if m.disc > 1 || m.state > 1 || m.standard > 3 {
        return;
    }
    let mut bad = |t: String| cx.report(viol(props, format!("client reading account {}: {t}", monitor::check::short(k))));
    let r = catch_unwind(AssertUnwindSafe(|| nifty_asset::Asset::from_bytes(&a.data)));
    let c = match r {
        Ok(Ok(c)) => c,
        Ok(Err(e)) => return bad(format!("does not decode: {e}")),
        Err(e) => return bad(format!("panics: {}", message(e))),
    };
    {
        let key = Pubkey::new_from_array(*k);
        let owner = ASSET;
        let (mut l, mut d) = (a.lamports, a.data.clone());
        let info = AccountInfo::new(&key, false, false, &mut l, &mut d, &owner, false, 0);
        match nifty_asset::Asset::try_from(&info) {
            Ok(x) if x == c => (),
            _ => bad("account info and bytes decode differently".into()),
        }
    }
    let b = c.try_to_vec().unwrap_or_default();
    if a.data.len() < 168 || b != a.data[..168] {
        bad(format!("header encodes back to {}", hexs(&b)));
    }
    let opt = |k: Key| (k != ZERO).then(|| Pubkey::new_from_array(k));
    let disc = match c.discriminator {
        ct::Discriminator::Uninitialized => 0,
        ct::Discriminator::Asset => 1,
    };
    let state = match c.state {
        ct::State::Unlocked => 0,
        ct::State::Locked => 1,
    };
    let standard = match c.standard {
        ct::Standard::NonFungible => 0,
        ct::Standard::Managed => 1,
        ct::Standard::Soulbound => 2,
        ct::Standard::Proxied => 3,
    };
    let mut f = |same: bool, n: &str| {
        if !same {
            bad(format!("{n} read as in {c:?}"));
        }
    };
    f(disc == m.disc, "created mark");
    f(state == m.state, "lock state");
    f(standard == m.standard, "standard");
    f(c.mutable == m.mutable, "mutable");
    f(c.owner.to_bytes() == m.owner, "owner");
    f(c.group.to_option() == opt(m.group), "group");
    f(c.authority.to_bytes() == m.authority, "authority");
    f(c.delegate.address.to_option() == opt(m.delegate), "delegate");
    if m.delegate != ZERO {
        f(roles_of(&c.delegate.roles) == m.roles & 7, "delegate roles");
    }
    f(c.name[..] == m.name[..], "name");
    let mut exts = vec![];
    for e in &m.exts {
        if e.data.len() != e.len || wf::shape(e.ty, &e.data) != Wf::Good {
            continue;
        }
        exts.push(e.ty);
        match catch_unwind(AssertUnwindSafe(|| client_ext(e))) {
            Ok(Ok(())) => (),
            Ok(Err(t)) => bad(format!("extension {} holding {}: {t}", e.ty, hexs(&e.data))),
            Err(x) => bad(format!("extension {} holding {}: panics: {}", e.ty, hexs(&e.data), message(x))),
        }
    }
    cx.stats.steps += 1;
    for t in exts {
        cx.stats.label(format!("decoded extension {t}"), true);
    }
    cx.stats.label(format!("decoded header {}{}{}{} group {} delegate {}", m.disc, m.state, m.standard, m.mutable as u8, m.group != ZERO, m.roles & 7), true);
}

/// The dispatcher forwards exactly the instructions there are, unchanged and signed by the asset.
fn dispatcher(cx: &mut Ctx, r: &mut Rng, w: &World) {
    use nifty_asset_interface::Interface;
    let proxied: Vec<Key> = w.created().into_iter().filter(|k| w.asset(k).map_or(false, |m| m.ext(PROXY).map_or(false, |e| e.data.len() == 97))).collect();
    let mut m = AssetM::blank();
    m.disc = 1;
    m.standard = 3;
    let sd: [u8; 32] = r.key();
    let bump = r.u64() as u8;
    let mut pd = r.key().to_vec();
    pd.extend(sd);
    pd.push(bump);
    pd.extend(if r.pct(50) { ZERO } else { r.key() });
    let has = r.pct(85);
    for ty in [LINKS, PROXY, BUCKET] {
        if ty == PROXY {
            if has {
                m.exts.push(Ext { ty, len: 97, data: pd.clone() });
            }
        } else if r.pct(50) {
            m.exts.push(Ext { ty, len: 0, data: vec![] });
        }
    }
    let len = m.end();
    let mut data = encode(&m, len);
    let (mut sd, mut bump) = (sd, bump);
    let mut has = has;
    if !proxied.is_empty() && r.pct(50) {
        let k = *r.pick(&proxied);
        data = w.svm.get(&k).data;
        let e = w.asset(&k).unwrap().ext(PROXY).unwrap().data.clone();
        sd = k32(&e[32..]);
        bump = e[64];
        has = true;
    }
    let n = r.range(1, 7);
    let keys: Vec<Pubkey> = (0..n).map(|_| Pubkey::new_from_array(r.key())).collect();
    let flags: Vec<(bool, bool)> = (0..n).map(|_| (r.pct(50), r.pct(50))).collect();
    let owner = ASSET;
    let mut lam = vec![5u64; n];
    let mut bufs: Vec<Vec<u8>> = (0..n).map(|i| if i == 0 { data.clone() } else { vec![] }).collect();
    let infos: Vec<AccountInfo> =
        (0..n).zip(lam.iter_mut()).zip(bufs.iter_mut()).map(|((i, l), b)| AccountInfo::new(&keys[i], flags[i].0, flags[i].1, l, b, &owner, false, 0)).collect();
    let tag = if r.pct(80) { r.below(20) as u8 } else { r.u64() as u8 };
    let mut d = vec![tag];
    let extra = r.below(12);
    d.extend(r.bytes(extra));
    if r.pct(3) {
        d.clear();
    }
    captured();
    cx.begin("interface dispatcher", "P22");
    let prog = JUNK;
    let res = catch_unwind(AssertUnwindSafe(|| {
        // the lifetimes of the dispatcher's arguments are tied together
        let infos: &[AccountInfo] = unsafe { std::mem::transmute(&infos[..]) };
        let p: &Pubkey = unsafe { std::mem::transmute(&prog) };
        Interface::process_instruction(p, infos, &d)
    }));
    let c = captured();
    cx.stats.steps += 1;
    let known = !d.is_empty() && d[0] < 18;
    let mut bad = |t: String| cx.report(viol("P22", format!("interface dispatcher, instruction {:?}: {t}", d.first())));
    match res {
        Err(e) => bad(format!("panics: {}", message(e))),
        Ok(Err(e)) => {
            if known && has {
                bad(format!("refused: {e:?}"));
            }
            if !c.is_empty() {
                bad("refused after forwarding".into());
            }
        }
        Ok(Ok(())) => {
            if !known || !has {
                bad("accepted".into());
            } else if c.len() != 1 {
                bad(format!("{} invocations", c.len()));
            } else {
                let c = &c[0];
                let exp = Instruction {
                    program_id: ASSET,
                    accounts: (0..n)
                        .map(|i| solana_program::instruction::AccountMeta { pubkey: keys[i], is_signer: flags[i].0 || i == 0, is_writable: flags[i].1 })
                        .collect(),
                    data: d.clone(),
                };
                if c.ix != exp {
                    bad(format!("forwards {} expected {}", show_ix(&c.ix), show_ix(&exp)));
                }
                if c.seeds != vec![vec![sd.to_vec(), vec![bump]]] {
                    bad("signs with other seeds than the asset's".into());
                }
            }
        }
    }
    cx.stats.label(format!("dispatcher tag {:?} proxied {has}", d.first().map(|t| (*t).min(19))), true);
}

/// Decoding by the interface crate: same verdict as the documented encoding, same bytes back.
fn interface_decode(cx: &mut Ctx, d: &[u8]) {
    use nifty_asset_interface::Interface;
    let r = catch_unwind(AssertUnwindSafe(|| Interface::try_from_slice(d).map(|i| i.try_to_vec().unwrap_or_default())));
    let mine = decode(d);
    cx.stats.steps += 1;
    match r {
        Err(e) => cx.report(viol("P22", format!("interface decoder panics on {}: {}", hexs(d), message(e)))),
        Ok(Ok(b)) if mine.is_some() => {
            if b != d {
                cx.report(viol("P22", format!("interface decodes {} and encodes it as {}", hexs(d), hexs(&b))));
            }
        }
        Ok(Ok(_)) => cx.report(viol("P22", format!("interface decodes {}, which is no instruction", hexs(d)))),
        Ok(Err(e)) => {
            if mine.is_some() {
                cx.report(viol("P22", format!("interface does not decode {}: {e}", hexs(d))));
            }
        }
    }
    cx.stats.label(format!("interface decoder {}", mine.as_ref().map_or("refuses", |o| o.name())), true);
}

fn macros(cx: &mut Ctx, r: &mut Rng) {
    let ty = r.range(1, 11) as u8;
    let n = *r.pick(&[0usize, 1, 7, 255, 256, 1000]);
    let data = r.bytes(n);
    let t = forms::client::type_of(ty);
    let want = |len: usize, d: &[u8]| Op::Allocate(ExtIn { ty, len: len as u32, data: Some(d.to_vec()) }).encode();
    #[allow(unused_mut)]
    let a = {
        let t = t;
        nifty_asset::allocate_instruction_data!(t, n, &data)
    };
    if a != want(n, &data) {
        cx.report(viol("P22", format!("allocate_instruction_data! gives {} expected {}", hexs(&a), hexs(&want(n, &data)))));
    }
    #[allow(unused_mut)]
    let mut b = nifty_asset::allocate_instruction_data!(t, n + 9);
    b.extend(&data);
    nifty_asset::allocate_update_data_length!(n, b);
    if b != want(n, &data) {
        cx.report(viol("P22", format!("allocate_update_data_length! gives {} expected {}", hexs(&b), hexs(&want(n, &data)))));
    }
    // invocation with prepared data
    let keys: Vec<Pubkey> = (0..4).map(|_| Pubkey::new_from_array(r.key())).collect();
    let owner = JUNK;
    let mut lam = [0u64; 4];
    let mut bufs: [Vec<u8>; 4] = Default::default();
    let infos: Vec<AccountInfo> = keys.iter().zip(lam.iter_mut()).zip(bufs.iter_mut()).map(|((k, l), b)| AccountInfo::new(k, true, true, l, b, &owner, false, 0)).collect();
    let (p, s) = (r.pct(60), r.pct(60));
    captured();
    let acc = nifty_asset::instructions::AllocateCpiAccounts { asset: &infos[0], payer: p.then_some(&infos[1]), system_program: s.then_some(&infos[2]) };
    let seed = r.bytes(3);
    let sig: &[&[&[u8]]] = &[&[&seed]];
    let signed = r.pct(50);
    let res = if signed { acc.invoke_signed(&infos[3], a.clone(), sig) } else { acc.invoke(&infos[3], a.clone()) };
    let c = captured();
    let exp = expected(&["sw", "sw?", "?"], &[Some(keys[0]), p.then_some(keys[1]), s.then_some(keys[2])], &[false; 3], &[], ASSET, &a, false);
    if res.is_err() || c.len() != 1 || c[0].ix != exp || c[0].seeds.len() != signed as usize {
        cx.report(viol("P22", format!("AllocateCpiAccounts invokes {} expected {}", c.first().map_or(String::new(), |c| show_ix(&c.ix)), show_ix(&exp))));
    }
    cx.stats.steps += 3;
    cx.stats.label(format!("allocate macros {ty} {n} payer {p} system {s}"), true);
}

fn bridge(cx: &mut Ctx, r: &mut Rng) {
    let op = if r.pct(50) { BOp::Bridge } else { BOp::Create(r.pct(50)) };
    let data = match op {
        BOp::Bridge => vec![0],
        BOp::Create(c) => vec![1, c as u8],
    };
    let sp = bspec(&op);
    let dflt = |i: usize| match (&op, i) {
        (BOp::Bridge, 11) | (BOp::Create(_), 8) => Some(ASSET),
        (BOp::Bridge, 12) => Some(TM),
        (BOp::Bridge, 13) | (BOp::Create(_), 7) => Some(SYS),
        (BOp::Bridge, 14) => Some(SYSVAR),
        (BOp::Bridge, 15) => Some(TOKEN),
        (BOp::Bridge, 16) => Some(ATA),
        _ => None,
    };
    let k: Vec<Option<Pubkey>> = sp
        .iter()
        .enumerate()
        .map(|(i, f)| {
            if f.contains('?') && r.pct(45) {
                None
            } else if let (Some(d), true) = (dflt(i), r.pct(85)) {
                Some(d)
            } else {
                Some(Pubkey::new_from_array(r.key()))
            }
        })
        .collect();
    let s: Vec<bool> = sp.iter().map(|_| r.pct(50)).collect();
    let rem = remaining(r);
    let name = if matches!(op, BOp::Bridge) { "Bridge" } else { "Create" };
    all_forms(cx, r, "bridge client", name, &op, forms::bridge::build, sp, &k, &s, &rem, BRIDGE, &data, false);
    // the vault account, as laid out by the bridge program
    let mint = r.key();
    let (pda, bump) = ids::pda(&[b"vault", &mint], &ids::bridge());
    let mk = Pubkey::new_from_array(mint);
    let st = r.below(2) as u8;
    let mut d = vec![1, st, bump];
    d.extend(mint);
    d.push(r.u64() as u8);
    let mut bad = |t: String| cx.report(viol("P22", format!("bridge client vault: {t}")));
    match nifty_bridge::accounts::Vault::from_bytes(&d) {
        Ok(v) => {
            let ok = matches!(v.discriminator, nifty_bridge::types::Discriminator::Vault)
                && matches!((st, v.state), (0, nifty_bridge::types::State::Idle) | (1, nifty_bridge::types::State::Active))
                && v.bump == bump
                && v.mint == mk
                && v.asset_bump == *d.last().unwrap();
            if !ok {
                bad(format!("{} reads as {v:?}", hexs(&d)));
            }
        }
        Err(e) => bad(format!("{} does not decode: {e}", hexs(&d))),
    }
    let (p2, b2) = nifty_bridge::accounts::Vault::find_pda(&mk);
    if p2.to_bytes() != pda || b2 != bump || nifty_bridge::accounts::Vault::create_pda(mk, bump).map(|p| p.to_bytes()).ok() != Some(pda) {
        bad("other address than the program's".into());
    }
    cx.stats.steps += 2;
    cx.stats.label(format!("vault state {st}"), true);
}

fn errors(cx: &mut Ctx) {
    for n in 0..64u32 {
        let c = nifty_asset::errors::AssetError::from_u32(n).map(|c| (format!("{c:?}"), c.to_string()));
        let p = asset_program::error::AssetError::from_u32(n).map(|p| (format!("{p:?}"), p.to_string()));
        if c != p {
            cx.report(viol("P22", format!("error {n} is {p:?} in the program and {c:?} in the client")));
        }
        let c2 = nifty_bridge::errors::BridgeError::from_u32(n).map(|c| format!("{c:?}"));
        let p2 = ["InvalidMint", "InvalidAuthority"].get(n as usize).map(|s| s.to_string());
        if c2 != p2 {
            cx.report(viol("P22", format!("error {n} is {p2:?} in the bridge program and {c2:?} in the client")));
        }
        if p.is_some() {
            cx.stats.label(format!("error code {n}"), true);
        }
    }
    cx.stats.steps += 1;
}

pub fn episode(seed: u64, cx: &mut Ctx) {
    let b = bias_for("P22");
    let mut w = World::new(seed, &b);
    let mut r = Rng::new(seed ^ 0xC11E);
    if seed % 64 == 0 {
        errors(cx);
    }
    for k in [nifty_asset::ID, nifty_asset::programs::ASSET_ID, nifty_asset_interface::INTERFACE_ID, nifty_asset_interface::ID] {
        if k != ASSET {
            cx.report(viol("P22", format!("program address {k}")));
        }
    }
    if nifty_bridge::ID != BRIDGE {
        cx.report(viol("P22", format!("bridge program address {}", nifty_bridge::ID)));
    }
    for (k, a) in w.svm.db.clone() {
        if a.owner == ids::asset() {
            decodes(cx, &k, &a, "P22");
        }
    }
    let mut n = 0;
    while n < 30 {
        for st in w.plan() {
            n += 1;
            interface_decode(cx, &st.ix.data);
            if r.pct(30) {
                let mut d = st.ix.data.clone();
                match r.below(4) {
                    0 => {
                        let n = r.below(d.len() + 1);
                        d.truncate(n)
                    }
                    1 => d.push(r.below(3) as u8),
                    2 if !d.is_empty() => {
                        let i = r.below(d.len().min(12));
                        d[i] = r.u64() as u8
                    }
                    _ if !d.is_empty() => d[0] = r.below(24) as u8,
                    _ => (),
                }
                interface_decode(cx, &d);
            }
            let op = match decode(&st.ix.data) {
                Some(o) if st.ix.metas.len() >= o.arity() => o,
                _ => continue,
            };
            let sp = spec(&op);
            let k: Vec<Option<Pubkey>> = sp
                .iter()
                .enumerate()
                .map(|(i, f)| {
                    let key = st.ix.metas[i].key;
                    (!(f.contains('?') && key == ids::asset())).then(|| Pubkey::new_from_array(key))
                })
                .collect();
            let s: Vec<bool> = sp.iter().enumerate().map(|(i, _)| st.ix.metas[i].signer).collect();
            let mut rem: Vec<(Pubkey, bool, bool)> =
                st.ix.metas[sp.len()..].iter().map(|m| (Pubkey::new_from_array(m.key), m.writable, m.signer)).collect();
            rem.extend(remaining(&mut r));
            let data = op.encode();
            let mut built = vec![];
            built.extend(all_forms(cx, &mut r, "client", op.name(), &op, forms::client::build, sp, &k, &s, &rem, ASSET, &data, false));
            built.extend(all_forms(cx, &mut r, "interface", op.name(), &op, forms::interface::build, sp, &k, &s, &rem, ASSET, &data, true));
            if built.is_empty() {
                continue;
            }
            let i = r.below(built.len());
            execute(&mut w.svm, &built[i], cx, "P22", false);
            for m in &built[i].accounts {
                let key = m.pubkey.to_bytes();
                if let Some(a) = w.svm.db.get(&key).cloned() {
                    if a.owner == ids::asset() {
                        decodes(cx, &key, &a, "P22");
                    }
                }
            }
            if w.svm.db.values().any(|a| matches!(lift(a).body, Body::Corrupt(_))) {
                return;
            }
        }
        dispatcher(cx, &mut r, &w);
        bridge(cx, &mut r);
        macros(cx, &mut r);
        if cx.found.len() > 8 {
            return;
        }
    }
}
