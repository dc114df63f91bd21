//! Random histories of the asset program, judged step by step.
use crate::check::*;
use crate::gen::*;
use crate::model::*;
use crate::svm::*;
use crate::view::*;
use crate::{ids, Ctx};
use std::collections::BTreeMap;

/// Properties for which every accepted state change counts as an observation.
fn global(p: &str) -> bool {
    matches!(p, "P08" | "P11" | "P12" | "P16" | "P17" | "P21" | "ALL")
}

pub fn show(ix: &Ix) -> String {
    let op = decode(&ix.data).map(|o| format!("{o:?}")).unwrap_or_else(|| format!("raw {}", hexs(&ix.data)));
    let op: String = op.chars().take(400).collect();
    let m: Vec<String> = ix
        .metas
        .iter()
        .map(|m| {
            let n = if m.key == ids::asset() { "program".into() } else if m.key == SYSTEM { "system".into() } else { short(&m.key) };
            format!("{n}{}{}", if m.signer { "+s" } else { "" }, if m.writable { "+w" } else { "" })
        })
        .collect();
    format!("{op} [{}]", m.join(" "))
}

pub fn sys_transfer(from: Key, to: Key, n: u64) -> Ix {
    let mut data = 2u32.to_le_bytes().to_vec();
    data.extend(n.to_le_bytes());
    Ix { program: SYSTEM, metas: vec![sw(from), w_(to)], data }
}

fn prop_of(cx: &Ctx) -> &str {
    &cx.prop
}

/// Creates, on the state before `ix` created an assembled account, another asset with the same
/// contents in a single instruction; the two have to agree.
fn in_one_go(svm: &mut Svm, before: BTreeMap<Key, Acct>, ix: &Ix, cx: &mut Ctx) -> Vec<Viol> {
    let a = ix.metas[0].key;
    let Some(Op::Create { name, standard, mutable, exts }) = decode(&ix.data) else { return vec![] };
    let (Ok(old), Ok(new)) = (parse(&before[&a].data), parse(&svm.get(&a).data)) else { return vec![] };
    if standard == 3 || ix.metas.len() != 7 || ix.metas[1..].iter().any(|m| m.key == a) || new.end() > 10_000 {
        return vec![];
    }
    let mut all: Vec<ExtIn> =
        old.exts.iter().map(|e| ExtIn { ty: e.ty as u8, len: e.data.len() as u32, data: Some(e.data.clone()) }).collect();
    all.extend(exts.unwrap_or_default());
    let n = all.len();
    all.rotate_left(cx.stats.steps as usize % n);
    let (b, payer) = ([0xb7; 32], [0xb8; 32]);
    let mut metas = ix.metas.clone();
    for m in &mut metas {
        // an account given twice signs for both positions
        m.signer = ix.metas.iter().any(|o| o.key == m.key && o.signer);
        m.writable = ix.metas.iter().any(|o| o.key == m.key && o.writable);
    }
    metas[0] = sw(b);
    metas[5] = sw(payer);
    metas[6] = r_(SYSTEM);
    let one = Ix { program: ix.program, metas, data: Op::Create { name, standard, mutable, exts: Some(all) }.encode() };
    let after = std::mem::replace(&mut svm.db, before);
    svm.db.insert(payer, Acct::sys(1 << 40));
    let res = svm.exec(&[one.clone()]);
    let other = svm.get(&b);
    svm.db = after;
    cx.stats.label(format!("assembled and created in one go: {n} extensions {}", if old.complete() { "" } else { "incomplete" }), true);
    if let Err(e) = res {
        return vec![viol("P13 P15", format!("an asset assembled piecewise cannot be created in one go: {e:?} for {}", show(&one)))];
    }
    let Ok(other) = parse(&other.data) else { return vec![viol("P13 P11", "an asset created in one go is unreadable")] };
    let sorted = |m: &AssetM| {
        let mut l: Vec<(u32, Vec<u8>)> = m.exts.iter().map(|e| (e.ty, e.data.clone())).collect();
        l.sort();
        l
    };
    let mut x = other.clone();
    x.exts = new.exts.clone();
    if sorted(&other) != sorted(&new) || encode(&x, new.end()) != encode(&new, new.end()) {
        return vec![viol("P13", format!("the assembled asset differs from the one created in one go: {new:?} and {other:?}"))];
    }
    vec![]
}

/// Runs one instruction under the monitors. Returns false when the episode cannot go on.
pub fn step(svm: &mut Svm, st: &Step, phantom: &BTreeMap<Key, u64>, cx: &mut Ctx) -> Option<bool> {
    if let Some((k, n)) = st.topup {
        let mut a = svm.get(&k);
        a.lamports += n;
        svm.db.insert(k, a);
        cx.log(format!("  top-up {} by {n}", short(&k)));
    }
    let mut p = predict(&svm.db, &st.ix, st.height);
    let mut revived = None;
    if let (Some((from, n)), Some(subj)) = (st.revive, p.subject) {
        // the closed address receives lamports again within the same transaction
        let funded = svm.get(&from).lamports >= n;
        if funded && p.fail.is_empty() && !p.unknown && !st.ix.metas.iter().any(|m| m.key == from) && matches!(p.op, Some(Op::Burn | Op::Close)) {
            let mut f = lift(&svm.get(&from));
            f.lamports -= n;
            p.post.insert(from, f);
            p.post.get_mut(&subj).unwrap().lamports += n;
            revived = Some((from, subj, n));
        }
    }
    let ix = if st.height == 2 {
        let mut metas = vec![r_(st.ix.program)];
        metas.extend(st.ix.metas.iter().copied());
        Ix { program: RELAY, metas, data: st.ix.data.clone() }
    } else {
        st.ix.clone()
    };
    let what = format!("{}{}", if st.height == 2 { "via program: " } else { "" }, show(&st.ix));
    let must = p.fail.is_empty() && !p.either && !p.unknown;
    cx.begin(&what, if must { &p.liveness } else { "" });
    let before: BTreeMap<Key, Acct> = p.post.keys().filter_map(|k| svm.db.get(k).map(|a| (*k, a.clone()))).collect();
    let mut ixs = vec![ix];
    if let Some((f, s, n)) = revived {
        ixs.push(sys_transfer(f, s, n));
    }
    let pre = crate::record::before(svm, &ixs);
    let fork = match (&p.op, p.subject) {
        (Some(Op::Create { .. }), Some(a)) if must && revived.is_none() && matches!(prop_of(cx), "P13" | "ALL") => {
            parse(&svm.get(&a).data).ok().filter(|m| !m.exts.is_empty()).map(|_| svm.db.clone())
        }
        _ => None,
    };
    let res = svm.exec(&ixs);
    cx.stats.steps += 1;
    cx.stats.cpis += svm.cpi_count as u64;
    cx.log(format!("{what}{} -> {res:?}", if revived.is_some() { " +revive" } else { "" }));
    let mut vs = judge(&before, &svm.db, &p, &res);
    for u in svm.ub.drain(..) {
        vs.push(viol("P21", u));
    }
    if let Err(Fail::Panic(m)) = &res {
        cx.stats.panics += 1;
        if m.contains("unsafe precondition") || m.contains("misaligned") || m.contains("outside of the account memory") {
            vs.push(viol("P21", m.clone()));
        }
    }
    let name = p.op.as_ref().map_or("undecodable", |o| o.name());
    let prop = cx.prop.clone();
    if res.is_ok() {
        cx.stats.accepted += 1;
        let keys: Vec<Key> = p.post.keys().copied().collect();
        vs.extend(invariants(&svm.db, &keys, phantom));
        let changed = before.iter().any(|(k, a)| svm.db.get(k) != Some(a));
        let rel = p.liveness.contains(&prop) || (changed && global(&prop));
        let l = format!("ok {}{}{}", p.tag, if st.height == 2 { " cpi" } else { "" }, if revived.is_some() { " revived" } else { "" });
        if rel && cx.stats.samples.len() < 2 && cx.stats.steps % 37 == 0 {
            let s = what.clone();
            cx.stats.samples.push(format!("{s} -> accepted, as predicted"));
        }
        crate::record::put(&l, pre, &ixs, svm.ts);
        cx.stats.label(l, rel);
    } else {
        cx.stats.refused += 1;
        if pre.is_some() {
            let why: Vec<&str> = p.fail.iter().map(|f| f.0.as_str()).collect();
            let panic = matches!(res, Err(Fail::Panic(_)));
            let l = format!("refused{} {name} {}: {}", if panic { " by panic" } else { "" }, if panic { p.tag.as_str() } else { "" }, why.join("; "));
            crate::record::put(&l, pre, &ixs, svm.ts);
        }
        if p.fail.is_empty() {
            cx.stats.label(format!("open {}", p.tag), false);
        } else {
            let why: Vec<&str> = p.fail.iter().map(|f| f.0.as_str()).collect();
            let rel = p.fail.iter().any(|f| f.1.contains(prop.as_str()));
            if rel && cx.stats.samples.len() < 4 && cx.stats.steps % 37 == 0 {
                let s = what.clone();
                cx.stats.samples.push(format!("{s} -> refused, as required: {}", why.join("; ")));
            }
            cx.stats.label(format!("refused {name}: {}", why.join("; ")), rel || prop == "P17");
        }
    }
    if let (Some(db), true, true) = (fork, res.is_ok(), vs.is_empty()) {
        vs.extend(in_one_go(svm, db, &st.ix, cx));
    }
    let bad = !vs.is_empty();
    for v in vs {
        cx.report(v);
    }
    // an account whose chain is broken makes later verdicts meaningless
    let corrupt = svm.db.values().any(|a| matches!(lift(a).body, Body::Corrupt(_)));
    if corrupt {
        return None;
    }
    Some(res.is_ok() || bad)
}

pub fn episode(seed: u64, cx: &mut Ctx) {
    let b = bias_for(&cx.prop);
    let mut w = World::new(seed, &b);
    let mut n = 0;
    while n < 80 {
        for st in w.plan() {
            n += 1;
            let ph = w.phantom.clone();
            if step(&mut w.svm, &st, &ph, cx).is_none() {
                return;
            }
        }
        if cx.found.len() > 8 {
            return;
        }
    }
}
