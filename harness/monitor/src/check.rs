//! Compares what a transaction did with what the reference semantics allow.
use crate::ids;
use crate::model::{Op, Pred};
use crate::svm::{rent_min, Acct, Fail, Key};
use crate::view::*;
use crate::wf::{self, Wf};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Viol {
    pub props: Vec<String>,
    pub text: String,
}

pub fn viol(props: &str, text: impl Into<String>) -> Viol {
    let mut p: Vec<String> = props.split_whitespace().map(|s| s.to_string()).collect();
    p.sort();
    p.dedup();
    Viol { props: p, text: text.into() }
}

pub fn short(k: &Key) -> String {
    k[..4].iter().map(|b| format!("{b:02x}")).collect()
}

fn content(op: &Op) -> &'static str {
    match op {
        Op::Update { .. } | Op::Remove(_) | Op::Trim | Op::Extend(_) => "P12",
        Op::Create { .. } | Op::Allocate(_) | Op::Write { .. } => "P13",
        _ => "P17 P12",
    }
}

pub fn compare(db: &BTreeMap<Key, Acct>, after: &BTreeMap<Key, Acct>, p: &Pred) -> Vec<Viol> {
    let mut out = vec![];
    let op = match &p.op {
        Some(o) => o,
        None => return out,
    };
    for (k, exp) in &p.post {
        let pre = lift(&db.get(k).cloned().unwrap_or_default());
        let act = lift(&after.get(k).cloned().unwrap_or_default());
        if *exp == act {
            continue;
        }
        let who = format!("{} account {}", op.name(), short(k));
        let live = p.liveness.as_str();
        let mut v = |props: String, text: String| out.push(viol(&props, format!("{who}: {text}")));
        if exp.lamports != act.lamports {
            let x = if matches!(op, Op::Burn | Op::Close) { "P16 P02" } else { "P16" };
            let y = if exp.lamports == pre.lamports { " P17" } else { "" };
            v(format!("{x}{y}"), format!("lamports {} expected {} (before {})", act.lamports, exp.lamports, pre.lamports));
        }
        if exp.owner != act.owner {
            let x = if matches!(op, Op::Burn | Op::Close) { "P02" } else { "P18" };
            v(x.into(), format!("owned by {} expected {}", short(&act.owner), short(&exp.owner)));
        }
        if exp.len != act.len {
            let x = match op {
                Op::Burn | Op::Close => "P02",
                Op::Trim | Op::Extend(_) => "P12 P16",
                Op::Remove(_) | Op::Update { .. } => "P16 P11 P12",
                _ => "P16 P11 P13",
            };
            v(x.into(), format!("length {} expected {} (before {})", act.len, exp.len, pre.len));
        }
        let pm = match &pre.body {
            Body::Asset(m) => Some(m),
            _ => None,
        };
        match (&exp.body, &act.body) {
            (Body::Asset(e), Body::Asset(a)) => {
                let mut f = |same: bool, unchanged: bool, props: &str, text: String| {
                    if !same {
                        let mut pr = props.to_string();
                        if unchanged {
                            pr.push_str(" P17");
                            if matches!(op, Op::Update { .. } | Op::Remove(_) | Op::Trim | Op::Extend(_)) {
                                pr.push_str(" P12");
                            }
                        } else {
                            pr.push(' ');
                            pr.push_str(live);
                        }
                        v(pr, text);
                    }
                };
                let un = |g: &dyn Fn(&AssetM) -> bool| pm.map_or(false, |m| g(m));
                f(e.disc == a.disc, un(&|m| m.disc == e.disc), "P18", format!("created mark {} expected {}", a.disc, e.disc));
                f(e.state == a.state, un(&|m| m.state == e.state), "P03", format!("lock state {} expected {}", a.state, e.state));
                f(e.standard == a.standard, un(&|m| m.standard == e.standard), "P07", format!("standard {} expected {}", a.standard, e.standard));
                f(e.mutable == a.mutable, un(&|m| m.mutable == e.mutable), "P10", format!("mutable {} expected {}", a.mutable, e.mutable));
                f(e.owner == a.owner, un(&|m| m.owner == e.owner), "P01", format!("asset owner {} expected {}", short(&a.owner), short(&e.owner)));
                f(e.group == a.group, un(&|m| m.group == e.group), "P09 P08", format!("group {} expected {}", short(&a.group), short(&e.group)));
                f(e.authority == a.authority, un(&|m| m.authority == e.authority), "P10", format!("authority {} expected {}", short(&a.authority), short(&e.authority)));
                f(
                    e.delegate == a.delegate,
                    un(&|m| m.delegate == e.delegate),
                    if matches!(op, Op::Transfer) { "P04 P01" } else { "P04" },
                    format!("delegate {} expected {}", short(&a.delegate), short(&e.delegate)),
                );
                if e.delegate != ZERO && e.delegate == a.delegate {
                    f(e.roles == a.roles, un(&|m| m.roles == e.roles), "P04", format!("delegate roles {:03b} expected {:03b}", a.roles, e.roles));
                }
                f(e.name == a.name, un(&|m| m.name == e.name), "P10", format!("name {:?} expected {:?}", a.name, e.name));
                // extensions
                let c = content(op);
                let te: Vec<u32> = e.exts.iter().map(|x| x.ty).collect();
                let ta: Vec<u32> = a.exts.iter().map(|x| x.ty).collect();
                let (mut se, mut sa) = (te.clone(), ta.clone());
                se.sort();
                sa.sort();
                if se != sa {
                    let mut pr = format!("P11 {c} P10 {live}");
                    if sa.contains(&MANAGER) != se.contains(&MANAGER) || sa.contains(&PROXY) != se.contains(&PROXY) {
                        pr.push_str(" P07");
                    }
                    if un(&|m| m.exts == e.exts) {
                        pr.push_str(" P17");
                    }
                    v(pr, format!("extensions {ta:?} expected {te:?}"));
                } else if te != ta && !p.unordered {
                    v(format!("P12 P11 {c}"), format!("extension order {ta:?} expected {te:?}"));
                }
                if !p.loose.contains(k) {
                    for x in &e.exts {
                        let y = match a.ext(x.ty) {
                            Some(y) => y,
                            None => continue,
                        };
                        if x == y {
                            continue;
                        }
                        let unchanged = un(&|m| m.ext(x.ty) == Some(x));
                        let mut pr = String::from(c);
                        if unchanged {
                            pr.push_str(" P17 P12");
                        } else {
                            pr.push(' ');
                            pr.push_str(live);
                        }
                        if x.len != y.len {
                            pr.push_str(" P11");
                        }
                        match x.ty {
                            CREATORS => {
                                let (cx, cy) = (creators_of(&x.data), creators_of(&y.data));
                                let vx: Vec<_> = cx.iter().map(|c| (c.0, c.1)).collect();
                                let vy: Vec<_> = cy.iter().map(|c| (c.0, c.1)).collect();
                                pr.push_str(" P14");
                                if vx != vy {
                                    pr.push_str(" P14");
                                }
                            }
                            GROUPING => {
                                if x.data.len() >= 8 && y.data.len() >= 8 && x.data[..8] != y.data[..8] {
                                    pr.push_str(" P08");
                                }
                            }
                            PROXY | MANAGER => pr.push_str(" P07"),
                            ROYALTIES => pr.push_str(" P05"),
                            _ => (),
                        }
                        v(pr, format!("extension {} holds {} expected {}", x.ty, hexs(&y.data), hexs(&x.data)));
                    }
                }
            }
            (Body::Asset(_), Body::Corrupt(t)) => {
                v(format!("P11 {}", content(op)), format!("extension chain broken: {t}"));
            }
            (Body::Raw(x), Body::Raw(y)) if x == y => (),
            (a, b) => {
                if exp.owner == act.owner && exp.len == act.len {
                    v("P17 P18".into(), format!("account contents {} expected {}", kind(b), kind(a)));
                }
            }
        }
    }
    out
}

fn kind(b: &Body) -> String {
    match b {
        Body::Raw(d) => format!("raw {}", hexs(d)),
        Body::Asset(_) => "asset".into(),
        Body::Corrupt(t) => format!("corrupt ({t})"),
    }
}

pub fn hexs(d: &[u8]) -> String {
    let s: String = d.iter().take(80).map(|b| format!("{b:02x}")).collect();
    if d.len() > 80 {
        format!("{s}..({})", d.len())
    } else {
        format!("{s}({})", d.len())
    }
}

pub fn judge(before: &BTreeMap<Key, Acct>, after: &BTreeMap<Key, Acct>, p: &Pred, res: &Result<(), Fail>) -> Vec<Viol> {
    let name = p.op.as_ref().map_or("undecodable", |o| o.name());
    match res {
        Ok(()) => {
            if !p.fail.is_empty() {
                let props: Vec<&str> = p.fail.iter().map(|f| f.1).collect();
                let why: Vec<&str> = p.fail.iter().map(|f| f.0.as_str()).collect();
                return vec![viol(&props.join(" "), format!("{name} accepted although: {}", why.join("; ")))];
            }
            if p.unknown {
                return vec![];
            }
            compare(before, after, p)
        }
        Err(e) => {
            if p.fail.is_empty() && !p.either && !p.unknown {
                let t = match e {
                    Fail::Panic(_) => format!("{} ", p.liveness),
                    _ => p.liveness.clone(),
                };
                return vec![viol(&t, format!("legitimate {name} refused: {e:?} [{}]", p.tag))];
            }
            vec![]
        }
    }
}

/// Invariants of every reachable state, independent of the predicted effect.
pub fn invariants(db: &BTreeMap<Key, Acct>, touched: &[Key], phantom: &BTreeMap<Key, u64>) -> Vec<Viol> {
    let mut out = vec![];
    for k in touched {
        let a = match db.get(k) {
            Some(a) => a,
            None => continue,
        };
        if a.owner != ids::asset() || a.data.len() < BASE {
            continue;
        }
        if a.lamports < rent_min(a.data.len()) {
            out.push(viol("P16", format!("asset {} below the rent minimum", short(k))));
        }
        let m = match parse(&a.data) {
            Ok(m) => m,
            Err(e) => {
                out.push(viol("P11", format!("account {}: {e}", short(k))));
                continue;
            }
        };
        if !m.created() {
            continue;
        }
        if (m.standard == 1) != m.ext(MANAGER).is_some() || (m.standard == 3) != m.ext(PROXY).is_some() {
            out.push(viol("P07", format!("asset {}: standard {} with extensions {:?}", short(k), m.standard, m.exts.iter().map(|e| e.ty).collect::<Vec<_>>())));
        }
        if let (3, Some(e)) = (m.standard, m.ext(PROXY)) {
            if e.data.len() == 97 {
                let d = &e.data;
                let r = solana_program::pubkey::Pubkey::create_program_address(&[&d[32..64], &[d[64]]], &solana_program::pubkey::Pubkey::from(k32(d)));
                if !matches!(r, Ok(x) if x.to_bytes() == *k) {
                    out.push(viol("P07", format!("asset {}: proxy data does not derive its address", short(k))));
                }
            }
        }
        for e in &m.exts {
            if wf::shape(e.ty, &e.data) == Wf::Bad {
                let p = match e.ty {
                    CREATORS => "P15 P14",
                    ROYALTIES => "P15 P05",
                    GROUPING => "P15 P08",
                    _ => "P15",
                };
                out.push(viol(p, format!("asset {}: malformed extension {} stored: {}", short(k), e.ty, hexs(&e.data))));
            }
        }
    }
    // group sizes
    let mut members: BTreeMap<Key, u64> = BTreeMap::new();
    let mut groups: Vec<(Key, u64, u64)> = vec![];
    for (k, a) in db {
        if a.owner != ids::asset() || a.data.len() < BASE || a.data[0] != 1 {
            continue;
        }
        let g = k32(&a.data[36..]);
        if g != ZERO {
            *members.entry(g).or_default() += 1;
        }
        if let Ok(m) = parse(&a.data) {
            if let Some((s, max, _)) = m.grouping() {
                groups.push((*k, s, max));
            }
        }
    }
    for (k, s, max) in &groups {
        let n = members.remove(k).unwrap_or(0) + phantom.get(k).copied().unwrap_or(0);
        if n != *s {
            out.push(viol("P08", format!("group {} records size {s} but has {n} members", short(k))));
        }
        if *max != 0 && s > max {
            out.push(viol("P08", format!("group {} has size {s} above its maximum {max}", short(k))));
        }
    }
    for (k, n) in members {
        out.push(viol("P08", format!("{n} assets name {} as group, which is not a group", short(&k))));
    }
    out
}
