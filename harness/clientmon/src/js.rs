//! The JavaScript clients, driven through a co-process: every instruction they build is compared with the
//! documented one and executed on the real program; accounts are read back through them.
use crate::client::{execute, expected, show_ix, spec, to_ix, ASSET, ATA, BRIDGE, SYS, SYSVAR, TM, TOKEN};
use crate::mint::{data, is_asset, word, Want};
use monitor::check::{hexs, short, viol};
use monitor::gen::*;
use monitor::model::*;
use monitor::rng::Rng;
use monitor::svm::*;
use monitor::view::*;
use monitor::wf::{self, Rule, Wf};
use monitor::{ids, tokenmeta, Ctx};
use num_traits::FromPrimitive;
use serde_json::{json, Value};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::str::FromStr;
use std::sync::mpsc::{channel, Receiver};
use std::time::Duration;

const BUILD: &str = "P28";
const READ: &str = "P29";
const RULES: Pubkey = solana_program::pubkey!("auth9SigNpDKz4sJJ1DfCTuZrZNSAgh9sFD3rboVmgg");

// ---------- the co-process
struct Node {
    child: Child,
    to: ChildStdin,
    from: Receiver<String>,
}
impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}
fn start() -> Node {
    let a: Vec<String> = std::env::args().collect();
    let f = a.iter().position(|x| x == "--js").map(|i| a[i + 1].clone()).unwrap_or_default();
    let spawned = Command::new("node").arg("--stack-size=4000").arg(&f).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn();
    let mut child = match spawned {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot run node: {e}");
            std::process::exit(4);
        }
    };
    let to = child.stdin.take().unwrap();
    let out = child.stdout.take().unwrap();
    let (tx, from) = channel();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            let Ok(l) = l else { return };
            if tx.send(l).is_err() {
                return;
            }
        }
    });
    Node { child, to, from }
}

enum No {
    /// the client refused (threw)
    Threw(String),
    /// no answer within the time
    Silent,
}

fn ask(q: &Value) -> Result<Value, No> {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        let node = n.get_or_insert_with(start);
        let sent = writeln!(node.to, "{q}").and_then(|_| node.to.flush());
        let line = match sent {
            Ok(()) => node.from.recv_timeout(Duration::from_secs(60)).ok(),
            Err(_) => None,
        };
        let Some(line) = line else {
            *n = None;
            return Err(No::Silent);
        };
        let mut v: Value = serde_json::from_str(&line).map_err(|e| No::Threw(format!("unreadable answer: {e}")))?;
        match v.get_mut("ok") {
            Some(o) => Ok(o.take()),
            None => Err(No::Threw(v["error"].as_str().unwrap_or("?").to_string())),
        }
    })
}
fn why(e: &No) -> String {
    match e {
        No::Threw(t) => format!("throws: {t}"),
        No::Silent => "does not answer".into(),
    }
}

fn b58(k: &Key) -> String {
    Pubkey::new_from_array(*k).to_string()
}
fn hex(d: &[u8]) -> String {
    let mut s = String::with_capacity(d.len() * 2);
    for b in d {
        s.push(char::from_digit((b >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((b & 15) as u32, 16).unwrap());
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

// ---------- values of extensions
/// What the client shows of a text: control zeros removed, undecodable bytes replaced.
fn shown(s: &[u8]) -> String {
    let s = s.strip_prefix(b"\xef\xbb\xbf").unwrap_or(s);
    String::from_utf8_lossy(s).replace('\0', "")
}
fn rule_value(r: &Rule) -> Value {
    let keys = |k: &[Key]| -> Vec<String> { k.iter().map(b58).collect() };
    match r {
        Rule::And(v) => json!({ "And": v.iter().map(rule_value).collect::<Vec<_>>() }),
        Rule::Or(v) => json!({ "Or": v.iter().map(rule_value).collect::<Vec<_>>() }),
        Rule::Not(x) => json!({ "Not": rule_value(x) }),
        Rule::OwnedBy(a, k) => json!({"OwnedBy": [a, keys(k)]}),
        Rule::KeyMatch(a, k) => json!({"PubkeyMatch": [a, keys(k)]}),
        Rule::Empty => json!("Empty"),
    }
}
fn nullable(k: &[u8]) -> Value {
    if k32(k) == ZERO {
        Value::Null
    } else {
        json!(b58(&k32(k)))
    }
}

/// The value some data stands for; `reading`: as shown by a reader, else as handed to a writer (then only
/// data the writer can express).
fn value_of(ty: u32, d: &[u8], reading: bool) -> Option<Value> {
    let text = |s: &[u8]| -> Option<String> {
        if reading {
            Some(shown(s))
        } else {
            String::from_utf8(s.to_vec()).ok().filter(|s| !s.starts_with('\u{feff}'))
        }
    };
    Some(match ty {
        ATTRIBUTES | LINKS => {
            let mut r = d;
            let mut v = vec![];
            while !r.is_empty() {
                let (a, r1) = wf::pstr(r)?;
                let (b, r2) = wf::pstr(r1)?;
                v.push(json!([text(a)?, text(b)?]));
                r = r2;
            }
            json!({ "values": v })
        }
        BLOB => {
            let (t, rest) = wf::pstr(d)?;
            json!({"contentType": text(t)?, "data": hex(rest)})
        }
        BUCKET => json!({ "data": hex(d) }),
        CREATORS => {
            if d.len() % 34 != 0 || d.chunks_exact(34).any(|c| c[32] > 1) {
                return None;
            }
            json!({"values": creators_of(d).iter().map(|c| json!([b58(&c.0), c.1, c.2])).collect::<Vec<_>>()})
        }
        METADATA => {
            let mut r = d;
            let mut v = vec![];
            for i in 0..4 {
                if i == 3 && r.is_empty() && reading {
                    v.push(String::new());
                    break;
                }
                let (s, rest) = wf::pstr(r)?;
                v.push(text(s)?);
                r = rest;
            }
            if !r.is_empty() {
                return None;
            }
            json!({ "s": v })
        }
        GROUPING => {
            if d.len() != 48 && !(reading && d.len() == 16) {
                return None;
            }
            let n = |o: usize| u64::from_le_bytes(d[o..o + 8].try_into().unwrap()).to_string();
            json!({"size": n(0), "maxSize": n(8), "delegate": if d.len() == 48 { nullable(&d[16..]) } else { Value::Null }})
        }
        ROYALTIES => {
            if d.len() < 16 {
                return None;
            }
            let rule = wf::royalty_rule(d).ok()?;
            if rule.encode() != d[8..] {
                return None;
            }
            json!({"basisPoints": u64::from_le_bytes(d[..8].try_into().unwrap()).to_string(), "constraint": rule_value(&rule)})
        }
        MANAGER => {
            if d.len() != 33 || (d[32] > 7 && !reading) {
                return None;
            }
            json!({"address": nullable(d), "roles": d[32] & 7})
        }
        PROXY => {
            if d.len() != 97 {
                return None;
            }
            json!({"program": b58(&k32(d)), "seeds": hex(&d[32..64]), "bump": d[64], "authority": nullable(&d[65..])})
        }
        PROPERTIES => {
            let mut r = d;
            let mut v = vec![];
            while !r.is_empty() {
                let (n, rest) = wf::pstr(r)?;
                let n = text(n)?;
                let (t, rest) = rest.split_first()?;
                match t {
                    0 => {
                        let (s, rest) = wf::pstr(rest)?;
                        v.push(json!([n, 0, text(s)?]));
                        r = rest;
                    }
                    1 if rest.len() >= 8 => {
                        v.push(json!([n, 1, u64::from_le_bytes(rest[..8].try_into().unwrap()).to_string()]));
                        r = &rest[8..];
                    }
                    2 if !rest.is_empty() && rest[0] < 2 => {
                        v.push(json!([n, 2, (rest[0] == 1).to_string()]));
                        r = &rest[1..];
                    }
                    _ => return None,
                }
            }
            json!({ "values": v })
        }
        _ => return None,
    })
}
/// An extension as input of the client, if it can be expressed.
fn ext_input(r: &mut Rng, ty: u32, d: &[u8]) -> Option<Value> {
    let v = value_of(ty, d, false)?;
    let helper = r.pct(50)
        && match ty {
            CREATORS => d.chunks_exact(34).all(|c| c[32] == 0),
            GROUPING => d[..8] == [0; 8],
            PROXY => false,
            // no address means nothing to name a manager by
            MANAGER => d[..32] != ZERO && d[32] != 0,
            _ => true,
        };
    Some(json!({"type": ty, "value": v, "helper": helper}))
}

// ---------- building
fn names(op: &Op) -> (&'static str, &'static [&'static str]) {
    match op {
        Op::Close => ("close", &["buffer", "recipient"]),
        Op::Burn => ("burn", &["asset", "signer", "recipient", "group"]),
        Op::Create { .. } => ("create", &["asset", "authority", "owner", "group", "groupAuthority", "payer", "systemProgram"]),
        Op::Approve(_) => ("approve", &["asset", "owner", "delegate"]),
        Op::Allocate(_) => ("allocate", &["asset", "payer", "systemProgram"]),
        Op::Lock => ("lock", &["asset", "signer"]),
        Op::Unlock => ("unlock", &["asset", "signer"]),
        Op::Revoke(_) => ("revoke", &["asset", "signer"]),
        Op::Verify => ("verify", &["asset", "creator"]),
        Op::Unverify => ("unverify", &["asset", "creator"]),
        Op::Transfer => ("transfer", &["asset", "signer", "recipient", "group"]),
        Op::Update { .. } => ("update", &["asset", "authority", "buffer", "group", "payer", "systemProgram"]),
        Op::Write { .. } => ("write", &["asset", "payer", "systemProgram"]),
        Op::Group => ("group", &["asset", "group", "authority"]),
        Op::Ungroup => ("ungroup", &["asset", "group", "authority"]),
        Op::Handover => ("handover", &["asset", "authority", "newAuthority"]),
        Op::Remove(_) => ("remove", &["asset", "authority", "group", "recipient"]),
        Op::Trim | Op::Extend(_) => ("resize", &["asset", "authority", "payer", "systemProgram"]),
    }
}
/// Who stands in for an account left out: 'i' the identity signing, 'k' the identity's address, 'p' the payer.
fn default_of(op: &Op, i: usize) -> Option<char> {
    match (op, i) {
        (Op::Create { .. }, 1) | (Op::Approve(_), 1) | (Op::Lock | Op::Unlock | Op::Revoke(_) | Op::Transfer | Op::Update { .. } | Op::Handover | Op::Remove(_) | Op::Trim | Op::Extend(_), 1) => Some('i'),
        (Op::Group | Op::Ungroup, 2) => Some('i'),
        (Op::Create { .. }, 2) | (Op::Remove(_), 3) => Some('k'),
        (Op::Trim | Op::Extend(_), 2) => Some('p'),
        _ => None,
    }
}
fn system_at(op: &Op) -> Option<(usize, usize)> {
    match op {
        Op::Create { .. } => Some((6, 5)),
        Op::Allocate(_) => Some((2, 1)),
        Op::Update { .. } => Some((5, 4)),
        Op::Trim | Op::Extend(_) => Some((3, 2)),
        _ => None,
    }
}

/// Arguments of an instruction; `None` when the client cannot express them. Also returns the instruction as
/// it will be built (arguments left to their defaults).
fn args_of(r: &mut Rng, op: &Op) -> Option<(Value, Op)> {
    let ext = |r: &mut Rng, e: &ExtIn| -> Option<Value> {
        let d = e.data.as_ref()?;
        if d.len() != e.len as usize {
            return None;
        }
        ext_input(r, e.ty as u32, d)
    };
    const ROLES: [&str; 4] = ["None", "Transfer", "Lock", "Burn"];
    let del = |d: &DelIn| -> Option<Value> {
        Some(match d {
            DelIn::All => json!("All"),
            DelIn::Some(v) => json!(v.iter().map(|x| ROLES.get(*x as usize).copied()).collect::<Option<Vec<_>>>()?),
        })
    };
    let mut o = op.clone();
    let v = match &mut o {
        Op::Create { name, standard, mutable, exts } => {
            if *standard > 3 || name.starts_with('\u{feff}') {
                return None;
            }
            let mut a = json!({ "name": name });
            if r.pct(85) {
                a["standard"] = json!(standard);
            } else {
                *standard = 0;
            }
            if r.pct(85) {
                a["mutable"] = json!(mutable);
            } else {
                *mutable = true;
            }
            if let Some(l) = exts {
                a["extensions"] = json!(l.iter().map(|e| ext(r, e)).collect::<Option<Vec<_>>>()?);
            }
            a
        }
        Op::Approve(d) | Op::Revoke(d) => json!({ "delegateInput": del(d)? }),
        Op::Allocate(e) => json!({ "extension": ext(r, e)? }),
        Op::Update { name, mutable, ext: e } => {
            let mut a = json!({ "name": name, "mutable": mutable });
            if let Some(e) = e {
                a["extension"] = ext(r, e)?;
            }
            a
        }
        Op::Remove(t) => {
            if *t > 11 {
                return None;
            }
            json!({ "extensionType": t })
        }
        Op::Trim => json!({"strategy": "Trim"}),
        Op::Extend(n) => json!({ "strategy": n }),
        Op::Write { .. } => return None,
        _ => json!({}),
    };
    Some((v, o))
}

struct Tx {
    size: usize,
    signers: BTreeSet<Pubkey>,
    ixs: Vec<Instruction>,
}
fn txs_of(v: &Value) -> Option<(Vec<Tx>, bool)> {
    let key = |v: &Value| Pubkey::from_str(v.as_str()?).ok();
    let mut out = vec![];
    for t in v["txs"].as_array()? {
        let mut ixs = vec![];
        for i in t["ixs"].as_array()? {
            let accounts = i["keys"]
                .as_array()?
                .iter()
                .map(|k| Some(AccountMeta { pubkey: key(&k[0])?, is_signer: k[1].as_bool()?, is_writable: k[2].as_bool()? }))
                .collect::<Option<Vec<_>>>()?;
            ixs.push(Instruction { program_id: key(&i["program"])?, accounts, data: unhex(i["data"].as_str()?) });
        }
        out.push(Tx { size: t["size"].as_u64()? as usize, signers: t["signers"].as_array()?.iter().map(key).collect::<Option<_>>()?, ixs });
    }
    Some((out, v["parallel"].as_bool()?))
}
/// The signer of every account that has to sign is among the signers of the transaction.
fn signed(cx: &mut Ctx, what: &str, t: &Tx, payer: &Key) {
    for i in &t.ixs {
        for a in &i.accounts {
            if a.is_signer && a.pubkey.to_bytes() != *payer && !t.signers.contains(&a.pubkey) {
                cx.report(viol(BUILD, format!("{what} does not collect the signature of {}", short(&a.pubkey.to_bytes()))));
            }
        }
    }
}

/// Builds one instruction and compares it with the expected one.
fn build(cx: &mut Ctx, what: &str, q: &Value, exp: &Instruction, payer: &Key) -> bool {
    cx.begin(what, BUILD);
    cx.stats.steps += 1;
    let v = match ask(q) {
        Ok(v) => v,
        Err(e) => {
            cx.report(viol(BUILD, format!("{what} {}: {}", why(&e), q.to_string().chars().take(700).collect::<String>())));
            return false;
        }
    };
    let Some((txs, _)) = txs_of(&v) else {
        cx.report(viol(BUILD, format!("{what} gives an unreadable transaction {v}")));
        return false;
    };
    if txs.len() != 1 || txs[0].ixs.len() != 1 {
        cx.report(viol(BUILD, format!("{what} gives {} transactions", txs.len())));
        return false;
    }
    if txs[0].ixs[0] != *exp {
        cx.report(viol(BUILD, format!("{what} produces {} expected {}", show_ix(&txs[0].ixs[0]), show_ix(exp))));
        return false;
    }
    signed(cx, what, &txs[0], payer);
    true
}

fn acct(r: &mut Rng, k: &Pubkey, signer: bool) -> Value {
    json!({"key": k.to_string(), "signer": signer, "pda": !signer && r.pct(15)})
}

/// One planned instruction through the client; returns it if it was built as documented.
fn planned(cx: &mut Ctx, r: &mut Rng, st: &Ix) -> Option<Instruction> {
    let op = decode(&st.data).filter(|o| st.metas.len() >= o.arity())?;
    let (args, op) = args_of(r, &op)?;
    let (fun, nm) = names(&op);
    let sp = spec(&op);
    let identity = Pubkey::new_from_array(if r.pct(60) && st.metas.len() > 1 { st.metas[1].key } else { r.key() });
    let payer = Pubkey::new_from_array(r.key());
    let proxy = matches!(op, Op::Close | Op::Create { .. } | Op::Allocate(_)) || r.pct(80);
    let proxy: Option<Pubkey> = if proxy { None } else { Some(Pubkey::new_from_array(if r.pct(50) { ids::proxy() } else { r.key() })) };
    let deployed = if proxy.is_none() && r.pct(5) { Some(Pubkey::new_from_array(r.key())) } else { None };
    let program = proxy.or(deployed).unwrap_or(ASSET);
    let mut k: Vec<Option<Pubkey>> = vec![];
    let mut s: Vec<bool> = vec![];
    let mut accounts = json!({});
    let mut pat = String::new();
    for (i, f) in sp.iter().enumerate() {
        let key = Pubkey::new_from_array(st.metas[i].key);
        let absent = (f.contains('?') && key == ASSET) || key == program;
        let dflt = default_of(&op, i);
        let mut signer = f.contains('s') || (f.contains('S') && st.metas[i].signer);
        // left out by the plan, or because the default is meant
        let leave = absent || (dflt.is_some() && r.pct(if key == identity { 60 } else { 10 }));
        if leave {
            let d = match dflt {
                Some('i') => Some((identity, true)),
                Some('k') => Some((identity, false)),
                Some(_) => Some((payer, true)),
                None => {
                    if !f.contains('?') {
                        return None;
                    }
                    match system_at(&op) {
                        Some((si, pi)) if si == i && k[pi].is_some() => Some((SYS, false)),
                        _ => None,
                    }
                }
            };
            if let Some((_, sg)) = d {
                signer = sg;
            }
            k.push(d.map(|d| d.0));
            s.push(signer);
            pat.push(if d.is_some() { 'd' } else { '0' });
        } else {
            accounts[nm[i]] = acct(r, &key, signer);
            k.push(Some(key));
            s.push(signer);
            pat.push(if signer { 's' } else { '1' });
        }
    }
    let data = op.encode();
    let rem: Vec<(Pubkey, bool, bool)> = if proxy.is_some() { vec![(ASSET, false, false)] } else { vec![] };
    let exp = expected(sp, &k, &s, &rem, program, &data, false);
    let mut args = args;
    if let Some(p) = proxy {
        args["proxy"] = json!(p.to_string());
    }
    let q = json!({"op": "ix", "client": "asset", "fn": if fun == "allocate" { "initialize" } else { fun }, "accounts": accounts, "args": args,
        "identity": identity.to_string(), "payer": payer.to_string(), "plugins": r.pct(50), "explicit": r.pct(30)});
    let mut q = q;
    if let Some(d) = deployed {
        q["deployed"] = json!({ "asset": d.to_string() });
    }
    let big = data.len() > 850;
    if fun == "allocate" && big {
        return None; // several instructions, see `assemble`
    }
    let what = format!("JS asset client {fun}{}", if proxy.is_some() { " through a proxy" } else { "" });
    let ok = build(cx, &what, &q, &exp, &payer.to_bytes());
    let ext = match &op {
        Op::Update { ext: Some(e), .. } | Op::Allocate(e) => format!(" ext{}", e.ty),
        Op::Create { exts: Some(l), .. } => format!(" exts{}", l.len()),
        _ => String::new(),
    };
    cx.stats.label(format!("{what} accounts {pat}{ext}"), true);
    // through a proxy, the instruction is not meant for the asset program
    (ok && program == ASSET).then_some(exp)
}

/// Sends the transactions of a group in order; every one must go through. Within the size limit only when the payer
/// of the instruction is the fee payer: three signatures and the default chunk do not fit.
fn send(cx: &mut Ctx, svm: &mut Svm, what: &str, txs: &[Tx], payer: &Key, limit: bool) -> bool {
    for (n, t) in txs.iter().enumerate() {
        signed(cx, what, t, payer);
        if limit && t.size > 1232 {
            cx.report(viol(BUILD, format!("{what}: transaction {n} has {} bytes, more than 1232", t.size)));
            return false;
        }
        let l: Vec<Ix> = t.ixs.iter().map(to_ix).collect();
        cx.begin(what, BUILD);
        let res = svm.exec(&l);
        cx.stats.steps += l.len() as u64;
        for i in &l {
            cx.log(format!("{what} transaction {n}: {} -> {res:?}", monitor::assetmode::show(i)));
        }
        if let Err(e) = res {
            cx.stats.refused += 1;
            cx.report(viol(BUILD, format!("{what}: transaction {n} of {} refused: {e:?}", txs.len())));
            return false;
        }
        cx.stats.accepted += 1;
    }
    true
}
fn group_of(cx: &mut Ctx, what: &str, q: &Value) -> Option<Vec<Tx>> {
    cx.begin(what, BUILD);
    match ask(q) {
        Err(e) => {
            cx.report(viol(BUILD, format!("{what} {}: {}", why(&e), q.to_string().chars().take(600).collect::<String>())));
            None
        }
        Ok(v) => match txs_of(&v) {
            Some((_, true)) => {
                cx.report(viol(BUILD, format!("{what}: the transactions are to be sent in any order")));
                None
            }
            Some((t, false)) => Some(t),
            None => {
                cx.report(viol(BUILD, format!("{what} gives unreadable transactions")));
                None
            }
        },
    }
}

/// A new asset made by the helpers: mint, or initialize and write for each extension and create.
fn assemble(cx: &mut Ctx, r: &mut Rng, w: &mut World) {
    let (key, owner, payer) = (r.key(), r.key(), r.key());
    w.svm.db.insert(payer, Acct::sys(1_000_000_000_000));
    let standard = *r.pick(&[0u8, 0, 1, 2]);
    let mut tys: Vec<u32> = vec![];
    for _ in 0..r.below(4) {
        let t = if r.pct(40) { *r.pick(&[BLOB, BUCKET]) } else { r.range(1, 11) as u32 };
        if t != MANAGER && t != PROXY && !tys.contains(&t) {
            tys.push(t);
        }
    }
    if standard == 1 {
        let i = r.below(tys.len() + 1);
        tys.insert(i, MANAGER);
    }
    let mut exts = vec![];
    let mut inputs = vec![];
    for t in tys {
        let d = data(w, r, t, &key);
        if wf::at_creation(t, &d, Some(&owner)).0 != Wf::Good {
            continue;
        }
        if let Some(v) = ext_input(r, t, &d) {
            inputs.push(v);
            exts.push((t, d));
        }
    }
    if standard == 1 && !exts.iter().any(|e| e.0 == MANAGER) {
        return;
    }
    let name = word(r, 35);
    let want = Want { name, standard, mutable: r.pct(50), owner, exts };
    let lens: Vec<usize> = want.exts.iter().map(|e| e.1.len()).collect();
    let mut args = json!({"name": want.name, "standard": standard, "mutable": want.mutable});
    let mut accounts = json!({"asset": {"key": b58(&key), "signer": true}, "payer": {"key": b58(&payer), "signer": true}});
    let identity = if r.pct(50) {
        accounts["owner"] = json!({ "key": b58(&owner) });
        accounts["authority"] = json!({"key": b58(&owner), "signer": r.pct(50)});
        r.key()
    } else {
        owner
    };
    let ctxpayer = if r.pct(50) { payer } else { r.key() };
    let base = |fun: &str, accounts: &Value, args: &Value| json!({"op": "ix", "client": "asset", "fn": fun, "accounts": accounts, "args": args, "identity": b58(&identity), "payer": b58(&ctxpayer), "plugins": false});
    let how;
    let mut ok = true;
    if r.pct(60) {
        how = "JS mint";
        if !inputs.is_empty() || r.pct(50) {
            args["extensions"] = json!(inputs);
        }
        let Some(t) = group_of(cx, how, &base("mint", &accounts, &args)) else { return };
        ok = send(cx, &mut w.svm, how, &t, &ctxpayer, ctxpayer == payer);
    } else {
        how = "JS initialize and create";
        let small = json!({"asset": accounts["asset"], "payer": accounts["payer"]});
        for i in &inputs {
            let Some(t) = group_of(cx, how, &base("initialize", &small, &json!({ "extension": i }))) else { return };
            if !send(cx, &mut w.svm, how, &t, &ctxpayer, ctxpayer == payer) {
                return;
            }
        }
        let Some(t) = group_of(cx, how, &base("create", &accounts, &args)) else { return };
        ok = ok && send(cx, &mut w.svm, how, &t, &ctxpayer, ctxpayer == payer);
    }
    let mut chunks: Vec<usize> = lens.iter().map(|l| if *l > 850 { l.div_ceil(850) } else { 0 }).collect();
    chunks.sort();
    cx.stats.label(format!("{how} std{standard} chunks {chunks:?}"), true);
    if ok {
        is_asset(cx, &w.svm, &key, &want, how, BUILD, false);
        let (order, given): (Vec<u32>, Vec<u32>) = (parse(&w.svm.get(&key).data).map_or(vec![], |m| m.exts.iter().map(|e| e.ty).collect()), want.exts.iter().map(|e| e.0).collect());
        if order != given {
            cx.report(viol(BUILD, format!("{how}: extensions come as {order:?}, given as {given:?}")));
        }
        reads(cx, &key, &w.svm.get(&key));
        if cx.stats.samples.len() < 3 {
            cx.stats.samples.push(format!("{how}: standard {standard}, extension data {lens:?}: account as described"));
        }
    }
}

/// Raw data written in chunks to an allocated extension.
fn writes(cx: &mut Ctx, r: &mut Rng, w: &mut World) {
    let (key, payer) = (r.key(), r.key());
    w.svm.db.insert(payer, Acct::sys(1_000_000_000_000));
    let n = match r.below(4) {
        0 => r.range(1, 40),
        1 => *r.pick(&[849usize, 850, 851, 1700, 1701]),
        _ => r.below(6000) + 1,
    };
    let d = r.bytes(n);
    // the buffer might hold something already, in part or in full
    // (a complete extension with padding counts as closed)
    let k = if r.pct(50) && n % 8 == 0 { n } else { r.below(n) };
    let old = if r.pct(40) { Some(r.bytes(k)) } else { None };
    let before = old.as_ref().map_or(0, |o| o.len());
    let op = Op::Allocate(ExtIn { ty: BUCKET as u8, len: n as u32, data: old });
    let pre = Ix { program: ids::asset(), metas: vec![sw(key), sw(payer), r_(SYSTEM)], data: op.encode() };
    if w.svm.exec(&[pre]).is_err() {
        return;
    }
    let mut args = json!({ "data": hex(&d) });
    let chunk = if r.pct(60) { Some(*r.pick(&[1usize, 7, 100, 849, 850, 900])).filter(|c| n / c < 60) } else { None };
    if let Some(c) = chunk {
        args["chunkSize"] = json!(c);
    }
    let mut accounts = json!({"asset": {"key": b58(&key), "signer": true}});
    let ctxpayer = if r.pct(50) {
        payer
    } else {
        accounts["payer"] = json!({"key": b58(&payer), "signer": true});
        r.key()
    };
    let what = "JS write";
    let q = json!({"op": "ix", "client": "asset", "fn": "write", "accounts": accounts, "args": args, "identity": b58(&r.key()), "payer": b58(&ctxpayer), "plugins": false});
    let Some(t) = group_of(cx, what, &q) else { return };
    if !send(cx, &mut w.svm, what, &t, &ctxpayer, chunk.map_or(true, |c| c <= 850) && ctxpayer == payer) {
        return;
    }
    let a = w.svm.get(&key);
    let got = parse(&a.data).ok().and_then(|m| m.ext(BUCKET).cloned());
    match got {
        Some(e) if e.data == d && e.len == n => (),
        g => cx.report(viol(BUILD, format!("{what} of {n} bytes in chunks of {chunk:?} over {before} leaves {:?}", g.map(|e| hexs(&e.data))))),
    }
    reads(cx, &key, &a);
    cx.stats.label(format!("{what} {} chunks of {chunk:?}{}", n.div_ceil(chunk.unwrap_or(850)).min(9), if before > 0 { " over earlier data" } else { "" }), true);
}

/// An extension replaced through a buffer must end up as if replaced directly.
fn buffered(cx: &mut Ctx, r: &mut Rng, w: &mut World) {
    let l: Vec<Key> = w.created().into_iter().filter(|k| w.asset(k).map_or(false, |m| m.mutable && m.authority != ZERO)).collect();
    if l.is_empty() {
        return;
    }
    let key = *r.pick(&l);
    let m = w.asset(&key).unwrap();
    let ty = if !m.exts.is_empty() && r.pct(60) { r.pick(&m.exts).ty } else { r.range(1, 11) as u32 };
    let d = data(w, r, ty, &key);
    let Some(input) = ext_input(r, ty, &d) else { return };
    let payer = r.key();
    w.svm.db.insert(payer, Acct::sys(1_000_000_000_000));
    let name = if r.pct(25) { Some(word(r, 35)) } else { None };
    let mutable = if r.pct(15) { Some(true) } else { None };
    let direct = Op::Update { name: name.clone(), mutable, ext: Some(World::ext_in(ty, d.clone())) };
    let mt = vec![w_(key), s_(m.authority), none(), none(), sw(payer), r_(SYSTEM)];
    let p = predict(&w.svm.db, &Ix { program: ids::asset(), metas: mt, data: direct.encode() }, 1);
    if !p.fail.is_empty() || p.either || p.unknown || !p.loose.is_empty() || m.authority == payer {
        return;
    }
    let mut args = json!({ "extension": input, "name": name, "mutable": mutable });
    let chunk = if r.pct(35) { Some(*r.pick(&[16usize, 100, 500, 850])).filter(|c| d.len() / c < 60) } else { None };
    if let Some(c) = chunk {
        args["chunkSize"] = json!(c);
    }
    let mut accounts = json!({"asset": {"key": b58(&key)}, "payer": {"key": b58(&payer), "signer": true}});
    let identity = if r.pct(50) {
        m.authority
    } else {
        accounts["authority"] = json!({"key": b58(&m.authority), "signer": true});
        r.key()
    };
    let ctxpayer = if r.pct(50) { payer } else { r.key() };
    let buffer = r.key();
    let what = "JS updateWithBuffer";
    let through = r.pct(15).then(|| if r.pct(50) { ids::proxy() } else { r.key() });
    let mut q = json!({"op": "ix", "client": "asset", "fn": "updateWithBuffer", "accounts": accounts, "args": args, "identity": b58(&identity), "payer": b58(&ctxpayer), "plugins": r.pct(50), "fresh": [b58(&buffer)]});
    if let Some(p) = &through {
        q["args"]["proxy"] = json!(b58(p));
    }
    let Some(t) = group_of(cx, what, &q) else { return };
    let n = chunk.unwrap_or(850);
    let chunked = d.len() > n;
    let what = format!("{what}{}{}", if chunked { " in chunks" } else { "" }, if through.is_some() { " through a proxy" } else { "" });
    cx.stats.label(format!("{what} ext{ty} {}{}", if m.ext(ty).is_some() { "replaced" } else { "added" }, if d.len() > n { format!(" {} chunks", d.len().div_ceil(n).min(9)) } else { String::new() }), true);
    let mut t = t;
    if let Some(proxy) = through {
        // only the update itself is for the proxy; the rest is sent as usual, then the update it stands for
        let mut n = 0;
        for i in t.iter_mut().flat_map(|t| t.ixs.iter_mut()) {
            let update = matches!(decode(&i.data), Some(Op::Update { .. }));
            let want = if update { proxy } else { ids::asset() };
            if i.program_id.to_bytes() != want {
                return cx.report(viol(BUILD, format!("{what}: {} is addressed to {}", decode(&i.data).map_or("?", |o| o.name()), short(&i.program_id.to_bytes()))));
            }
            if update {
                n += 1;
                let ok = i.accounts.last().map_or(false, |a| a.pubkey == ASSET && !a.is_signer && !a.is_writable) && i.accounts.len() == 7;
                if !ok {
                    return cx.report(viol(BUILD, format!("{what}: the update is {}", show_ix(i))));
                }
                i.accounts.pop();
                i.program_id = ASSET;
                for a in i.accounts.iter_mut().filter(|a| a.pubkey.to_bytes() == proxy) {
                    a.pubkey = ASSET;
                }
            }
        }
        if n != 1 {
            return cx.report(viol(BUILD, format!("{what}: {n} updates")));
        }
    }
    let limit = name.is_none() && chunk.is_none() && ctxpayer == payer;
    if !send(cx, &mut w.svm, &what, &t, &ctxpayer, limit && through.is_none()) {
        return;
    }
    let (want, got) = (&p.post[&key], lift(&w.svm.get(&key)));
    if *want != got {
        cx.report(viol(BUILD, format!("{what}: the asset becomes {got:?} expected {want:?}").chars().take(1500).collect::<String>()));
    }
    let b = w.svm.get(&buffer);
    if b.lamports != 0 || !b.data.is_empty() {
        cx.report(viol(BUILD, format!("{what}: the buffer is left behind")));
    }
    if w.svm.get(&payer).lamports != p.post[&payer].lamports {
        cx.report(viol(BUILD, format!("{what}: the payer has {} expected {}", w.svm.get(&payer).lamports, p.post[&payer].lamports)));
    }
    reads(cx, &key, &w.svm.get(&key));
}

/// Instructions of the bridge client: addresses left out are derived as the program expects them.
fn bridge(cx: &mut Ctx, r: &mut Rng) {
    let pk = |r: &mut Rng| Pubkey::new_from_array(r.key());
    let p = |k: Key| Pubkey::new_from_array(k);
    let mint = r.key();
    let (identity, payer) = (pk(r), pk(r));
    let at_program = if r.pct(10) { r.key() } else { ids::bridge() };
    let (vault, asset) = (ids::pda(&[b"vault", &mint], &at_program).0, ids::pda(&[b"asset", &mint], &at_program).0);
    let owner = r.key();
    let mut k: Vec<Option<Pubkey>> = vec![];
    let mut s: Vec<bool> = vec![];
    let mut accounts = json!({});
    let create = r.pct(50);
    let coll = r.pct(50);
    let std = *r.pick(&[None, Some(0u8), Some(4)]);
    let nm: &[&str] = if create {
        &["asset", "vault", "mint", "metadata", "updateAuthority", "collection", "payer", "systemProgram", "niftyAssetProgram"]
    } else {
        &["asset", "vault", "owner", "token", "mint", "metadata", "masterEdition", "tokenRecord", "vaultToken", "vaultTokenRecord", "payer", "niftyAssetProgram", "tokenMetadataProgram", "systemProgram", "sysvarInstructions", "splTokenProgram", "splAtaProgram", "authorizationRulesProgram", "authorizationRules", "groupAsset"]
    };
    let op = if create { crate::client::BOp::Create(coll) } else { crate::client::BOp::Bridge };
    let sp = crate::client::bspec(&op);
    let mut pat = String::new();
    for (i, n) in nm.iter().enumerate() {
        let at = |name: &str| nm.iter().position(|x| *x == name).filter(|j| *j < i).and_then(|j| k[j]).map(|x| x.to_bytes()).unwrap_or(ZERO);
        let dflt: Option<(Pubkey, bool)> = match *n {
            "asset" => Some((p(asset), false)),
            "vault" => Some((p(vault), false)),
            "metadata" => Some((p(tokenmeta::metadata_of(&mint)), false)),
            "masterEdition" => Some((p(tokenmeta::edition_of(&mint)), false)),
            "token" => Some((p(tokenmeta::ata_of(&owner, &mint, &ids::token())), false)),
            "vaultToken" => Some((p(tokenmeta::ata_of(&at("vault"), &mint, &ids::token())), false)),
            "tokenRecord" if std == Some(4) => Some((p(tokenmeta::record_of(&mint, &at("token"))), false)),
            "vaultTokenRecord" if std == Some(4) => Some((p(tokenmeta::record_of(&mint, &at("vaultToken"))), false)),
            "updateAuthority" => Some((identity, true)),
            "payer" => Some((payer, true)),
            "systemProgram" => Some((SYS, false)),
            "niftyAssetProgram" => Some((ASSET, false)),
            "tokenMetadataProgram" => Some((TM, false)),
            "sysvarInstructions" => Some((SYSVAR, false)),
            "splTokenProgram" => Some((TOKEN, false)),
            "splAtaProgram" => Some((ATA, false)),
            "authorizationRulesProgram" if std == Some(4) => Some((RULES, false)),
            _ => None,
        };
        let must = matches!(*n, "mint" | "owner");
        if !must && r.pct(65) {
            k.push(dflt.map(|d| d.0));
            s.push(dflt.map_or(false, |d| d.1));
            pat.push(if dflt.is_some() { 'd' } else { '0' });
        } else {
            let key = match *n {
                "mint" => p(mint),
                "owner" => p(owner),
                _ => pk(r),
            };
            let signer = sp[i].contains('s') || (sp[i].contains('S') && r.pct(50));
            accounts[*n] = acct(r, &key, signer);
            k.push(Some(key));
            s.push(signer);
            pat.push('1');
        }
    }
    let data = if create { vec![1, coll as u8] } else { vec![0] };
    let exp = expected(sp, &k, &s, &[], p(at_program), &data, false);
    let mut args = json!({});
    if create {
        args["isCollection"] = json!(coll);
    } else if let Some(t) = std {
        args["tokenStandard"] = json!(t);
    }
    let fun = if create { "create" } else { "bridge" };
    let what = format!("JS bridge client {fun}");
    let q = json!({"op": "ix", "client": "bridge", "fn": fun, "accounts": accounts, "args": args, "identity": identity.to_string(), "payer": payer.to_string(), "plugins": r.pct(50)});
    let mut q = q;
    if at_program != ids::bridge() {
        q["deployed"] = json!({ "bridge": b58(&at_program) });
    }
    build(cx, &what, &q, &exp, &payer.to_bytes());
    cx.stats.label(format!("{what} {std:?} accounts {pat}"), r.pct(20));
    // the vault account and the addresses
    let st = r.below(2) as u8;
    let mut d = vec![1, st, r.u64() as u8];
    d.extend(mint);
    d.push(r.u64() as u8);
    cx.stats.steps += 2;
    let q = json!({"op": "vault", "key": b58(&vault), "data": hex(&d), "owner": b58(&ids::bridge())});
    let want = json!({"discriminator": 1, "state": st, "bump": d[2], "mint": b58(&mint), "assetBump": d[35]});
    match ask(&q) {
        Ok(v) if v == want => (),
        Ok(v) => cx.report(viol(READ, format!("vault {} reads as {v} expected {want}", hexs(&d)))),
        Err(e) => cx.report(viol(READ, format!("vault {} {}", hexs(&d), why(&e)))),
    }
    let pair = |x: (Key, u8)| json!([b58(&x.0), x.1]);
    let want = json!({"vault": pair(ids::pda(&[b"vault", &mint], &ids::bridge())), "bridged": pair(ids::pda(&[b"asset", &mint], &ids::bridge())), "proxied": pair(ids::pda(&[&mint], &ids::proxy()))});
    match ask(&json!({"op": "pda", "key": b58(&mint), "plugins": r.pct(50)})) {
        Ok(v) if v == want => (),
        Ok(v) => cx.report(viol(READ, format!("addresses derived from {} are {v} expected {want}", b58(&mint)))),
        Err(e) => cx.report(viol(READ, format!("deriving addresses {}", why(&e)))),
    }
    cx.stats.label("addresses and vault".into(), true);
    // filters on vaults
    let fields = [("state", json!(st)), ("bump", json!(d[2])), ("mint", json!(b58(&mint))), ("assetBump", json!(d[35]))];
    for (f, v) in fields {
        let q = json!({"op": "gpa", "vault": true, "fields": [[f, v]], "sample": {"key": b58(&vault), "data": hex(&d), "owner": b58(&ids::bridge())}});
        filter(cx, &q, &d, true, &format!("vaults with {f} {v}"), &BRIDGE, &vault);
        let mut other = d.clone();
        let at = match f {
            "state" => 1,
            "bump" => 2,
            "mint" => 3 + r.below(32),
            _ => 35,
        };
        other[at] ^= if at == 1 { 1 } else { 1 << r.below(8) };
        let q = json!({"op": "gpa", "vault": true, "fields": [[f, v]], "sample": {"key": b58(&vault), "data": hex(&other), "owner": b58(&ids::bridge())}});
        filter(cx, &q, &other, false, &format!("vaults with {f} {v}"), &BRIDGE, &vault);
    }
    // fetching vaults, some of which do not exist
    let mut db = json!({});
    let mut l: Vec<(Key, Value)> = vec![];
    for i in 0..r.below(4) {
        let m = if i == 0 { mint } else { r.key() };
        let at = ids::pda(&[b"vault", &m], &ids::bridge()).0;
        let mut e = d.clone();
        e[3..35].copy_from_slice(&m);
        if r.pct(75) {
            db[b58(&at)] = json!(hex(&e));
            l.push((m, json!([b58(&at), b58(&m)])));
        } else {
            l.push((m, Value::Null));
        }
    }
    let or = |v: &Value| if v.is_null() { json!("error") } else { v.clone() };
    let one: Vec<Value> = l.iter().map(|x| or(&x.1)).collect();
    let safe: Vec<Value> = l.iter().map(|x| x.1.clone()).collect();
    let all = if safe.iter().any(|x| x.is_null()) { json!("error") } else { json!(safe) };
    let safe_all: Vec<Value> = safe.iter().filter(|x| !x.is_null()).cloned().collect();
    let want = json!({"one": one, "safe": safe, "seeds": one, "safeSeeds": safe, "all": all, "safeAll": safe_all});
    cx.stats.steps += 1;
    match ask(&json!({"op": "fetchVaults", "accounts": db, "mints": l.iter().map(|x| b58(&x.0)).collect::<Vec<_>>(), "plugins": r.pct(50)})) {
        Ok(v) if v == want => (),
        Ok(v) => cx.report(viol(READ, format!("fetching vaults gives {v} expected {want}"))),
        Err(e) => cx.report(viol(READ, format!("fetching vaults {}", why(&e)))),
    }
    cx.stats.label(format!("fetch vaults {:?}", safe.iter().map(|x| !x.is_null()).collect::<Vec<_>>()), true);
}

/// Every instruction once, with accounts and arguments of any kind, without executing it.
fn sweep(cx: &mut Ctx, r: &mut Rng, w: &mut World) {
    let roles = |r: &mut Rng| if r.pct(40) { DelIn::All } else { DelIn::Some((0..r.below(4)).map(|_| r.below(4) as u8).collect()) };
    let key = r.key();
    let mut ext = |r: &mut Rng| {
        let t = r.range(1, 11) as u32;
        let d = loop {
            let d = data(w, r, t, &key);
            if d.len() < 800 {
                break d;
            }
        };
        World::ext_in(t, d)
    };
    let name = |r: &mut Rng| word(r, 40);
    let exts = match r.below(3) {
        0 => None,
        n => Some((0..n).map(|_| ext(r)).collect()),
    };
    let mut l = vec![Op::Close, Op::Burn, Op::Lock, Op::Unlock, Op::Transfer, Op::Verify, Op::Unverify, Op::Group, Op::Ungroup, Op::Handover, Op::Trim, Op::Extend(r.u64() as u16), Op::Remove(r.range(1, 11) as u8)];
    l.push(Op::Approve(roles(r)));
    l.push(Op::Revoke(roles(r)));
    l.push(Op::Allocate(ext(r)));
    l.push(Op::Create { name: name(r), standard: r.below(4) as u8, mutable: r.pct(50), exts });
    let e = if r.pct(60) { Some(ext(r)) } else { None };
    l.push(Op::Update { name: r.pct(50).then(|| name(r)), mutable: r.pct(50).then(|| r.pct(50)), ext: e });
    for op in l {
        for _ in 0..3 {
            let metas = spec(&op).iter().map(|f| if f.contains('?') && r.pct(40) { none() } else { Meta { key: r.key(), signer: f.contains('s') || (f.contains('S') && r.pct(50)), writable: f.contains('w') } }).collect();
            let _ = planned(cx, r, &Ix { program: ids::asset(), metas, data: op.encode() });
        }
    }
}

/// The proxied asset of the proxy client, executed on the real program.
fn proxied(cx: &mut Ctx, r: &mut Rng) {
    let mut svm = Svm::new();
    let (stub, owner, payer) = (r.key(), r.key(), r.key());
    svm.db.insert(payer, Acct::sys(1_000_000_000_000));
    let identity = Pubkey::new_from_array(r.key());
    let asset = ids::pda(&[&stub], &ids::proxy()).0;
    let name = word(r, 34);
    let p = |k: &Key| Pubkey::new_from_array(*k);
    let mut accounts = json!({"stub": {"key": b58(&stub), "signer": true}, "owner": acct(r, &p(&owner), false)});
    let mut k = vec![Some(p(&asset)), Some(p(&stub)), Some(p(&owner)), Some(identity), None, None, Some(ASSET)];
    if r.pct(20) {
        accounts["asset"] = acct(r, &p(&asset), false);
    }
    if r.pct(50) {
        let a = r.key();
        accounts["authority"] = json!({"key": b58(&a), "signer": true});
        k[3] = Some(p(&a));
    }
    let paid = r.pct(85);
    if paid {
        accounts["payer"] = json!({"key": b58(&payer), "signer": true});
        k[4] = Some(p(&payer));
        k[5] = Some(SYS);
    }
    if r.pct(20) {
        accounts["niftyAssetProgram"] = json!({ "key": b58(&ids::asset()) });
    }
    let ctxpayer = r.key();
    let mut d = vec![0u8];
    d.extend((name.len() as u32).to_le_bytes());
    d.extend(name.as_bytes());
    let exp = expected(&["w", "s", "", "s", "sw?", "?", ""], &k, &[false; 7], &[], p(&ids::proxy()), &d, false);
    let q = json!({"op": "ix", "client": "proxy", "fn": "create", "accounts": accounts, "args": {"name": name}, "identity": identity.to_string(), "payer": b58(&ctxpayer), "plugins": r.pct(50)});
    let what = "JS proxy client create";
    cx.stats.label(format!("{what} payer {paid}"), true);
    if !build(cx, what, &q, &exp, &ctxpayer) || !paid {
        return;
    }
    let ix = to_ix(&exp);
    let pr = monitor::proxymode::predict_proxy(&svm.db, &ix, svm.ts);
    cx.begin(what, BUILD);
    let res = svm.exec(&[ix]);
    cx.stats.steps += 1;
    if pr.fail.is_empty() && !pr.either && !pr.unknown && res.is_err() {
        return cx.report(viol(BUILD, format!("{what}: refused by the program: {res:?}")));
    }
    reads(cx, &asset, &svm.get(&asset));
}

// ---------- reading
/// What a reader must show of an account, if that is determined.
fn reading(k: &Key, a: &Acct) -> Option<Value> {
    let m = parse(&a.data).ok()?;
    let opt = |k: &Key| if *k == ZERO { Value::Null } else { json!(b58(k)) };
    let mut exts = vec![];
    for e in &m.exts {
        if e.data.len() != e.len || !matches!(wf::shape(e.ty, &e.data), Wf::Good) {
            return None;
        }
        exts.push(json!({"type": e.ty, "value": value_of(e.ty, &e.data, true)?, "found": true}));
    }
    let delegate = if m.delegate == ZERO { Value::Null } else { json!({"address": b58(&m.delegate), "roles": m.roles & 7}) };
    Some(json!({"key": b58(k), "header": {"discriminator": m.disc, "state": m.state, "standard": m.standard, "mutable": m.mutable,
        "owner": b58(&m.owner), "group": opt(&m.group), "authority": b58(&m.authority), "delegate": delegate, "name": shown(&m.name)}, "extensions": exts}))
}

fn reads(cx: &mut Ctx, k: &Key, a: &Acct) {
    if a.owner != ids::asset() {
        return;
    }
    let Ok(m) = parse(&a.data) else { return };
    let q = json!({"op": "decode", "key": b58(k), "data": hex(&a.data), "owner": b58(&a.owner)});
    cx.begin("JS client reading an account", READ);
    cx.stats.steps += 1;
    let res = ask(&q);
    if m.disc == 0 {
        // not an asset yet
        if let Ok(v) = res {
            cx.report(viol(READ, format!("an account that is no asset reads as {v}")));
        }
        cx.stats.label("buffer not taken for an asset".into(), true);
        return;
    }
    let Some(want) = reading(k, a) else {
        if matches!(res, Err(No::Silent)) {
            cx.report(viol(READ, "reading an account never ends"));
        }
        return;
    };
    let spare = a.data.len() - m.end();
    let at = |t: &str| format!("account {} with extensions {:?}, {spare} bytes to spare: {t}", short(k), m.exts.iter().map(|e| (e.ty, e.len)).collect::<Vec<_>>());
    match res {
        Err(e) => cx.report(viol(READ, at(&why(&e)))),
        Ok(v) if v == want => (),
        Ok(v) => {
            let mut diff = String::new();
            for f in ["key", "header"] {
                if v[f] != want[f] {
                    diff = format!("{f} {} expected {}", v[f], want[f]);
                }
            }
            let (ge, we) = (v["extensions"].as_array().cloned().unwrap_or_default(), want["extensions"].as_array().cloned().unwrap_or_default());
            if ge.len() != we.len() {
                diff = format!("{} extensions expected {}", ge.len(), we.len());
            }
            if let Some((g, w)) = ge.iter().zip(&we).find(|x| x.0 != x.1) {
                diff = format!("extension {g} expected {w}").chars().take(900).collect();
            }
            cx.report(viol(READ, at(&diff)));
        }
    }
    for e in &m.exts {
        cx.stats.label(format!("read extension {}{}", e.ty, if e.len % 8 == 0 { " unpadded" } else { "" }), true);
    }
    cx.stats.label(format!("read header {}{}{} group {} delegate {} spare {}", m.state, m.standard, m.mutable as u8, m.group != ZERO, if m.delegate != ZERO { (m.roles & 7) as i32 } else { -1 }, spare.min(17)), true);
}

/// Applies the filters of an account query to an account.
fn filter(cx: &mut Ctx, q: &Value, d: &[u8], matches: bool, what: &str, program: &Pubkey, key: &Key) {
    cx.stats.steps += 1;
    let v = match ask(q) {
        Ok(v) => v,
        Err(e) => return cx.report(viol(READ, format!("query for {what} {}", why(&e)))),
    };
    let mut hit = true;
    for f in v["filters"].as_array().map(|x| &x[..]).unwrap_or(&[]) {
        let b = f[1].as_str().unwrap_or("");
        match f[0].as_i64() {
            Some(o) if o >= 0 => {
                let b = unhex(b);
                hit &= d.get(o as usize..o as usize + b.len()) == Some(&b[..]);
            }
            _ => hit &= b.parse() == Ok(d.len()),
        }
    }
    if v["program"] != json!(program.to_string()) {
        return cx.report(viol(READ, format!("query for {what} asks for accounts of {}", v["program"])));
    }
    if hit != matches {
        cx.report(viol(READ, format!("query for {what}: {} {} an account for which it {}", v["filters"], if hit { "selects" } else { "misses" }, if matches { "holds" } else { "does not hold" })));
    }
    if v["key"] != json!(b58(key)) {
        cx.report(viol(READ, format!("query for {what} returns the account as {}", v["key"])));
    }
    cx.stats.label(format!("query {} {hit}", what.split(' ').nth(2).unwrap_or("")), true);
}

fn queries(cx: &mut Ctx, r: &mut Rng, w: &World) {
    let l: Vec<Key> = w.created().into_iter().filter(|k| reading(k, &w.svm.get(k)).is_some()).collect();
    if l.is_empty() {
        return;
    }
    let k = *r.pick(&l);
    let a = w.svm.get(&k);
    let m = parse(&a.data).unwrap();
    let other = *r.pick(&w.created());
    let o = if r.pct(50) { m.clone() } else { w.asset(&other).unwrap_or(m.clone()) };
    let opt = |k: &Key| if *k == ZERO { Value::Null } else { json!(b58(k)) };
    let name = shown(&o.name);
    let mut fields = vec![
        ("discriminator", json!(1), true),
        ("state", json!(o.state), o.state == m.state),
        ("standard", json!(o.standard), o.standard == m.standard),
        ("mutable", json!(o.mutable), o.mutable == m.mutable),
        ("owner", json!(b58(&o.owner)), o.owner == m.owner),
        ("group", opt(&o.group), o.group == m.group),
        ("authority", json!(b58(&o.authority)), o.authority == m.authority),
        ("delegate", opt(&o.delegate), o.delegate == m.delegate),
    ];
    if o.roles <= 7 {
        fields.push(("roles", json!(o.roles), o.roles == m.roles));
    }
    // only names that survive being shown
    let mut nb = name.as_bytes().to_vec();
    nb.resize(35, 0);
    if nb == o.name {
        fields.push(("name", json!(name), o.name == m.name));
    }
    let sample = json!({"key": b58(&k), "data": hex(&a.data), "owner": b58(&a.owner)});
    for (field, v, same) in &fields {
        let q = json!({"op": "gpa", "fields": [[field, v]], "sample": sample});
        filter(cx, &q, &a.data, *same, &format!("assets with {field} {v}"), &ASSET, &k);
    }
    // two at a time
    let (x, y) = (r.pick(&fields).clone(), r.pick(&fields).clone());
    let q = json!({"op": "gpa", "fields": [[x.0, x.1], [y.0, y.1]], "sample": sample});
    filter(cx, &q, &a.data, x.2 && y.2, &format!("assets with {}+{} {} {}", x.0, y.0, x.1, y.1), &ASSET, &k);
    // properties by name and type
    if let Some(e) = m.ext(PROPERTIES) {
        let v = value_of(PROPERTIES, &e.data, true).unwrap();
        let vals = v["values"].as_array().unwrap().clone();
        let mut askl = vec![json!(["no such name", r.below(3)])];
        for p in &vals {
            askl.push(json!([p[0], p[1]]));
            askl.push(json!([p[0], r.below(3)]));
        }
        let want: Vec<Value> = askl.iter().map(|q| vals.iter().find(|p| p[0] == q[0] && p[1] == q[1]).map_or(Value::Null, |p| json!([p[0], p[2]]))).collect();
        cx.stats.steps += 1;
        match ask(&json!({"op": "properties", "key": b58(&k), "data": hex(&a.data), "owner": b58(&a.owner), "ask": askl})) {
            Ok(v) if v == json!(want) => (),
            Ok(v) => cx.report(viol(READ, format!("properties {} looked up by {} give {v} expected {}", json!(vals), json!(askl), json!(want)).chars().take(900).collect::<String>())),
            Err(e) => cx.report(viol(READ, format!("looking up properties {}", why(&e)))),
        }
        cx.stats.label(format!("properties looked up {}", vals.len()), true);
    }
    // fetching
    let mut keys: Vec<(Key, u8)> = vec![];
    for _ in 0..r.below(4) {
        match r.below(8) {
            0 => keys.push((r.key(), 0)),
            1 => {
                if let Some(u) = w.unfinished().first() {
                    keys.push((*u, 2));
                }
            }
            _ => keys.push((*r.pick(&l), 1)),
        }
    }
    let mut db = json!({});
    for (k, kind) in &keys {
        if *kind > 0 {
            db[b58(k)] = json!(hex(&w.svm.get(k).data));
        }
    }
    let shownk = |k: &Key| json!([b58(k), shown(&parse(&w.svm.get(k).data).unwrap().name)]);
    let one: Vec<Value> = keys.iter().map(|(k, t)| if *t == 1 { shownk(k) } else { json!("error") }).collect();
    let safe: Vec<Value> = keys.iter().map(|(k, t)| [Value::Null, shownk_or(*t, || shownk(k)), json!("error")][*t as usize].clone()).collect();
    let all = if keys.iter().all(|x| x.1 == 1) { json!(one) } else { json!("error") };
    let safe_all = if keys.iter().any(|x| x.1 == 2) { json!("error") } else { json!(keys.iter().filter(|x| x.1 == 1).map(|x| shownk(&x.0)).collect::<Vec<_>>()) };
    let want = json!({"one": one, "safe": safe, "all": all, "safeAll": safe_all});
    cx.stats.steps += 1;
    match ask(&json!({"op": "fetch", "accounts": db, "keys": keys.iter().map(|k| b58(&k.0)).collect::<Vec<_>>()})) {
        Ok(v) if v == want => (),
        Ok(v) => cx.report(viol(READ, format!("fetching {:?} gives {v} expected {want}", keys.iter().map(|k| k.1).collect::<Vec<_>>()))),
        Err(e) => cx.report(viol(READ, format!("fetching {}", why(&e)))),
    }
    cx.stats.label(format!("fetch {:?}", keys.iter().map(|k| k.1).collect::<Vec<_>>()), true);
}
fn shownk_or(t: u8, f: impl Fn() -> Value) -> Value {
    if t == 1 {
        f()
    } else {
        Value::Null
    }
}

fn constants(cx: &mut Ctx) {
    cx.stats.steps += 1;
    let v = match ask(&json!({"op": "errors"})) {
        Ok(v) => v,
        Err(e) => return cx.report(viol(READ, format!("error tables: {}", why(&e)))),
    };
    for n in 0..64usize {
        for (who, p) in [
            ("asset", asset_program::error::AssetError::from_usize(n).map(|e| format!("{e:?}"))),
            ("bridge", ["InvalidMint", "InvalidAuthority"].get(n).map(|s| s.to_string())),
            ("proxy", ["InvalidMint", "InvalidAuthority"].get(n).map(|s| s.to_string())),
        ] {
            let e = &v[who][n];
            if e.is_null() && p.is_none() {
                continue;
            }
            if e[0].as_str().map(|s| s.to_string()) != p || e[1] != json!(n) || e[2] != json!(n) {
                cx.report(viol(READ, format!("{who} error {n} is {p:?} in the program and {e} in the client")));
            }
            if let ("asset", Some(x)) = (who, asset_program::error::AssetError::from_usize(n)) {
                if e[3] != json!(x.to_string()) {
                    cx.report(viol(READ, format!("{who} error {n} says {:?} in the program and {} in the client", x.to_string(), e[3])));
                }
            }
            cx.stats.label(format!("{who} error {n}"), true);
        }
    }
    let ids3 = json!([ASSET.to_string(), BRIDGE.to_string(), b58(&ids::proxy()), SYS.to_string()]);
    if v["ids"] != ids3 {
        cx.report(viol(READ, format!("program addresses {}", v["ids"])));
    }
    let three = json!([ASSET.to_string(), BRIDGE.to_string(), b58(&ids::proxy())]);
    for f in ["programs", "resolved", "found"] {
        if v[f] != three {
            cx.report(viol(READ, format!("addresses of the {f} {}", v[f])));
        }
    }
}

pub fn episode(seed: u64, cx: &mut Ctx) {
    let b = bias_for(if seed % 3 == 0 { "P15" } else { "P22" });
    let mut w = World::new(seed, &b);
    let mut r = Rng::new(seed ^ 0x15C1);
    if seed % 16 == 0 {
        constants(cx);
    }
    for (k, a) in w.svm.db.clone() {
        reads(cx, &k, &a);
    }
    let mut n = 0;
    while n < 24 {
        for st in w.plan() {
            n += 1;
            let built = planned(cx, &mut r, &st.ix);
            let ixn = match built {
                Some(i) => {
                    execute(&mut w.svm, &i, cx, BUILD, false);
                    i
                }
                None => {
                    // keeps the history going
                    let i = Instruction {
                        program_id: Pubkey::new_from_array(st.ix.program),
                        accounts: st.ix.metas.iter().map(|m| AccountMeta { pubkey: Pubkey::new_from_array(m.key), is_signer: m.signer, is_writable: m.writable }).collect(),
                        data: st.ix.data.clone(),
                    };
                    let _ = w.svm.exec(&[st.ix.clone()]);
                    i
                }
            };
            let touched: BTreeMap<Key, Acct> = ixn.accounts.iter().filter_map(|m| w.svm.db.get(&m.pubkey.to_bytes()).map(|a| (m.pubkey.to_bytes(), a.clone()))).collect();
            if w.svm.db.values().any(|a| matches!(lift(a).body, Body::Corrupt(_))) {
                return;
            }
            for (k, a) in &touched {
                reads(cx, k, a);
            }
        }
        match r.below(6) {
            0 | 1 => assemble(cx, &mut r, &mut w),
            2 => writes(cx, &mut r, &mut w),
            3 | 4 => buffered(cx, &mut r, &mut w),
            _ => proxied(cx, &mut r),
        }
        bridge(cx, &mut r);
        if cx.stats.steps % 2 == 0 || n >= 24 {
            sweep(cx, &mut r, &mut w);
        }
        queries(cx, &mut r, &w);
        if cx.found.len() > 8 {
            return;
        }
    }
}
