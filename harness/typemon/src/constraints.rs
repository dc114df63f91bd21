use crate::{bucket, Aligned};
use nifty_asset_types::constraints::*;
use nifty_asset_types::extensions::{ExtensionBuilder, ExtensionData, ExtensionDataMut, Royalties, RoyaltiesBuilder, RoyaltiesMut};
use runner::rng::Rng;
use runner::Case;
use solana_program::pubkey::Pubkey;

#[derive(Clone, Debug)]
pub enum Rule {
    And(Vec<Rule>),
    Not(Box<Rule>),
    Or(Vec<Rule>),
    Owned(u64, Vec<Pubkey>),
    Keys(u64, Vec<Pubkey>),
    Empty,
}

pub fn encode(r: &Rule) -> Vec<u8> {
    let (t, d): (u32, Vec<u8>) = match r {
        Rule::And(v) => (0, v.iter().flat_map(encode).collect()),
        Rule::Not(x) => (1, encode(x)),
        Rule::Or(v) => (2, v.iter().flat_map(encode).collect()),
        Rule::Owned(a, k) => (3, a.to_le_bytes().into_iter().chain(k.iter().flat_map(|k| k.to_bytes())).collect()),
        Rule::Keys(a, k) => (4, a.to_le_bytes().into_iter().chain(k.iter().flat_map(|k| k.to_bytes())).collect()),
        Rule::Empty => (5, vec![]),
    };
    let mut o = t.to_le_bytes().to_vec();
    o.extend((d.len() as u32).to_le_bytes());
    o.extend(d);
    o
}

/// the encoding with some lists cut short, by less than a key
fn ragged(r: &Rule, g: &mut Rng) -> Vec<u8> {
    let all = |v: &Vec<Rule>, g: &mut Rng| -> Vec<u8> { v.iter().flat_map(|x| ragged(x, g)).collect() };
    let (t, d): (u32, Vec<u8>) = match r {
        Rule::And(v) => (0, all(v, g)),
        Rule::Not(x) => (1, ragged(x, g)),
        Rule::Or(v) => (2, all(v, g)),
        Rule::Owned(..) | Rule::Keys(..) => {
            let e = encode(r);
            let cut = if g.pct(70) { (if g.pct(50) { 8 * g.below(4) } else { g.below(32) }).min(e.len() - 8) } else { 0 };
            (e[0] as u32, e[8..e.len() - cut].to_vec())
        }
        Rule::Empty => (5, if g.pct(20) { vec![1; 8] } else { vec![] }),
    };
    let mut o = t.to_le_bytes().to_vec();
    o.extend((d.len() as u32).to_le_bytes());
    o.extend(d);
    o
}

pub fn gen(r: &mut Rng, pool: &[Pubkey], depth: usize) -> Rule {
    let keys = |r: &mut Rng| -> Vec<Pubkey> {
        let n = match r.below(10) {
            0 => 0,
            1..=6 => r.range(1, 3),
            7 | 8 => r.range(4, 12),
            _ => r.range(13, 60),
        };
        (0..n).map(|_| if r.pct(60) { *r.pick(pool) } else { Pubkey::from(r.key()) }).collect()
    };
    if depth == 0 || r.pct(25) {
        match r.below(7) {
            0..=2 => Rule::Owned(r.below(3) as u64, keys(r)),
            3..=5 => Rule::Keys(r.below(3) as u64, keys(r)),
            _ => Rule::Empty,
        }
    } else {
        let list = |r: &mut Rng| {
            let n = match r.below(8) {
                0 => 0,
                1..=5 => r.range(1, 3),
                _ => r.range(4, 7),
            };
            (0..n).map(|_| gen(r, pool, depth - 1)).collect::<Vec<_>>()
        };
        match r.below(5) {
            0 | 1 => Rule::And(list(r)),
            2 => Rule::Not(Box::new(gen(r, pool, depth - 1))),
            _ => Rule::Or(list(r)),
        }
    }
}

struct T {
    key: Pubkey,
    owner: Pubkey,
    empty: bool,
}
impl Target for T {
    fn key(&self) -> &Pubkey {
        &self.key
    }
    fn owner(&self) -> &Pubkey {
        &self.owner
    }
    fn is_empty(&self) -> bool {
        self.empty
    }
}

const PASS: u8 = 1;
const FAIL: u8 = 2;
const ERR: u8 = 4;

/// Outcomes the definition allows. An account the action does not have makes the rule undecidable:
/// an error, unless another part settles the result.
fn eval(r: &Rule, a: &[Option<&T>; 3]) -> u8 {
    match r {
        Rule::Empty => PASS,
        Rule::Owned(i, k) => match a[*i as usize] {
            None => ERR,
            Some(t) => if !t.empty && k.iter().any(|x| *x == t.owner) { PASS } else { FAIL },
        },
        Rule::Keys(i, k) => match a[*i as usize] {
            None => ERR,
            Some(t) => if k.iter().any(|x| *x == t.key) { PASS } else { FAIL },
        },
        Rule::Not(x) => {
            let e = eval(x, a);
            (e & ERR) | if e & PASS != 0 { FAIL } else { 0 } | if e & FAIL != 0 { PASS } else { 0 }
        }
        Rule::And(v) | Rule::Or(v) => {
            let and = matches!(r, Rule::And(_));
            let (stop, go) = if and { (FAIL, PASS) } else { (PASS, FAIL) };
            let es: Vec<u8> = v.iter().map(|x| eval(x, a)).collect();
            let mut o = 0;
            if es.iter().any(|e| e & stop != 0) {
                o |= stop;
            }
            if es.iter().any(|e| e & ERR != 0) {
                o |= ERR;
            }
            if es.iter().all(|e| e & go != 0) {
                o |= go;
            }
            o
        }
    }
}

fn shape(r: &Rule) -> (usize, usize, usize) {
    // depth, nodes, keys
    match r {
        Rule::And(v) | Rule::Or(v) => v.iter().map(shape).fold((1, 1, 0), |a, b| (a.0.max(b.0 + 1), a.1 + b.1, a.2 + b.2)),
        Rule::Not(x) => {
            let s = shape(x);
            (s.0 + 1, s.1 + 1, s.2)
        }
        Rule::Owned(_, k) | Rule::Keys(_, k) => (1, 1, k.len()),
        Rule::Empty => (1, 1, 0),
    }
}
fn kind(r: &Rule) -> &'static str {
    match r {
        Rule::And(v) if v.is_empty() => "and0",
        Rule::And(_) => "and",
        Rule::Or(v) if v.is_empty() => "or0",
        Rule::Or(_) => "or",
        Rule::Not(_) => "not",
        Rule::Owned(..) => "owned",
        Rule::Keys(..) => "keys",
        Rule::Empty => "empty",
    }
}

fn acct(i: u64) -> Account {
    match i {
        0 => Account::Asset,
        1 => Account::Authority,
        _ => Account::Recipient,
    }
}

/// assembles the rule with the real builders (sometimes reusing or resetting one)
pub fn build(r: &Rule, g: &mut Rng) -> Box<dyn ConstraintBuilder> {
    match r {
        Rule::And(v) => {
            let mut b = AndBuilder::default();
            if g.pct(10) {
                // a builder can be used again once its bytes have been taken
                b.add(&mut EmptyBuilder::default());
                b.build();
            }
            for x in v {
                b.add(build(x, g).as_mut());
            }
            Box::new(b)
        }
        Rule::Or(v) => {
            let mut b = OrBuilder::default();
            if g.pct(10) {
                b.add(&mut EmptyBuilder::default());
                b.build();
            }
            for x in v {
                b.add(build(x, g).as_mut());
            }
            Box::new(b)
        }
        Rule::Not(x) => {
            let mut b = NotBuilder::default();
            if g.pct(10) {
                b.set(&mut EmptyBuilder::default());
                if g.pct(50) {
                    b.build();
                }
            }
            b.set(build(x, g).as_mut());
            Box::new(b)
        }
        Rule::Owned(a, k) => {
            let mut b = OwnedByBuilder::default();
            if g.pct(10) {
                b.set(acct((a + 1) % 3), &[Pubkey::new_from_array([9; 32]), Pubkey::default()]);
                if g.pct(50) {
                    b.build();
                }
            }
            b.set(acct(*a), k);
            Box::new(b)
        }
        Rule::Keys(a, k) => {
            let mut b = PubkeyMatchBuilder::default();
            if g.pct(10) {
                b.set(acct((a + 1) % 3), &[Pubkey::new_from_array([9; 32]), Pubkey::default()]);
                if g.pct(50) {
                    b.build();
                }
            }
            b.set(acct(*a), k);
            Box::new(b)
        }
        Rule::Empty => Box::<EmptyBuilder>::default(),
    }
}

/// offsets of operator tags and account fields in the encoding
fn tags(r: &Rule, at: usize, ops: &mut Vec<usize>, accts: &mut Vec<usize>) -> usize {
    ops.push(at);
    match r {
        Rule::And(v) | Rule::Or(v) => v.iter().fold(at + 8, |p, x| tags(x, p, ops, accts)),
        Rule::Not(x) => tags(x, at + 8, ops, accts),
        Rule::Owned(_, k) | Rule::Keys(_, k) => {
            accts.push(at + 8);
            at + 16 + 32 * k.len()
        }
        Rule::Empty => at + 8,
    }
}

fn result(r: AssertionResult) -> u8 {
    match r {
        Ok(Assertion::Pass) => PASS,
        Ok(Assertion::Failure) => FAIL,
        Err(_) => ERR,
    }
}

pub fn case(c: &mut Case) {
    let mut pool: Vec<Pubkey> = (0..5).map(|_| Pubkey::from(c.rng.key())).chain([Pubkey::default()]).collect();
    if c.rng.pct(40) {
        // an address which differs from another in one byte
        let mut k = c.rng.pick(&pool).to_bytes();
        k[c.rng.below(32)] ^= 1 << c.rng.below(8);
        pool.push(Pubkey::from(k));
    }
    let d = c.rng.below(if cfg!(miri) { 3 } else { 5 });
    let rule = gen(&mut c.rng, &pool, d);
    c.log(|| format!("rule {rule:?}").chars().take(3000).collect::<String>());
    let want = encode(&rule);
    let s = shape(&rule);
    let tag = format!("{} depth {} nodes {} keys {}", kind(&rule), s.0, bucket(s.1), bucket(s.2));

    let mut g = c.rng.clone();
    match c.run("build", "P06 P21", || build(&rule, &mut g).build()) {
        Ok(b) => {
            c.check(b == want, "P06", || format!("builders give other bytes for the rule: {} expected {}", hx(&b), hx(&want)));
        }
        Err(e) => {
            c.check(false, "P06", || format!("builders panicked: {e}"));
        }
    }
    let bp = c.rng.below(10001) as u64;
    let mut rb = RoyaltiesBuilder::default();
    let (mut g, w) = (c.rng.clone(), c.rng.pct(30));
    let mut built = vec![];
    let ok = c.run("build royalties", "P06 P20 P21", || {
        if w {
            rb = RoyaltiesBuilder::with_buffer(vec![7; 33]);
        }
        rb.set(bp, build(&rule, &mut g).as_mut());
        built = rb.to_vec();
    });
    let mut roy = bp.to_le_bytes().to_vec();
    roy.extend(&want);
    c.check(ok.is_ok() && built == roy, "P06 P20", || format!("royalties builder gives other bytes: {} expected {}", hx(&built), hx(&roy)));
    let data = c.run("royalties data", "P06 P20 P21", || rb.data());
    c.check(data.as_ref() == Ok(&roy), "P06 P20", || "royalties data() differs from what was built".into());

    // the parsed rule, at some 8-aligned position, followed by unrelated bytes
    let lead = 8 * c.rng.below(3);
    let tail = if c.rng.pct(50) { 8 * c.rng.range(1, 4) } else { 0 };
    let mut bytes = want.clone();
    bytes.extend(c.rng.bytes(tail));
    let buf = Aligned::at(&bytes, lead);
    let rbuf = Aligned::at(&roy, lead);
    let mut rmut = Aligned::at(&roy, lead);
    for round in 0..if cfg!(miri) { 1 } else { 4 } {
        let recipient = !c.rng.pct(15);
        let mut t: Vec<T> = (0..3)
            .map(|_| T { key: *c.rng.pick(&pool), owner: *c.rng.pick(&pool), empty: c.rng.pct(25) })
            .collect();
        if c.rng.pct(20) {
            let r = c.rng.key();
            t[2].key = Pubkey::from(r);
        }
        let accts = [Some(&t[0]), Some(&t[1]), if recipient { Some(&t[2]) } else { None }];
        let allowed = eval(&rule, &accts);
        let cx = || Context { asset: &t[0], authority: &t[1], recipient: if recipient { Some(&t[2] as &dyn Target) } else { None } };
        let got = c.run("evaluate", "P06 P21", || {
            let p = Constraint::from_bytes(buf.get());
            let again = p.as_bytes();
            let size = p.size();
            (result(p.assert(&cx())), again, size, p.operator.operator_type(), p.operator.size())
        });
        match got {
            Ok((r, again, size, op, len)) => {
                c.check(r & allowed != 0, "P06", || format!("the rule evaluates to {} instead of {} (1 pass, 2 failure, 4 error)\n  accounts {:?}", r, allowed, accts.map(|a| a.map(|t| (t.key, t.owner, t.empty)))));
                c.label("P06", || format!("{tag} -> {r}{}", if recipient { "" } else { " no recipient" }));
                if round == 0 {
                    c.check(again == want, "P06", || "the parsed rule re-encodes to other bytes".into());
                    c.check(size == want.len() && len as usize + 8 == want.len(), "P06", || format!("the parsed rule reports size {size}/{len}, has {}", want.len()));
                    c.check(u32::from(op) == want[0] as u32, "P06", || "the parsed rule reports another operator".into());
                }
            }
            Err(e) => {
                c.check(false, "P06", || format!("evaluating a well-formed rule panicked: {e}"));
            }
        }
        let got = c.run("evaluate royalties", "P06 P20 P21", || {
            let p = Royalties::from_bytes(rbuf.get());
            (result(p.constraint.assert(&cx())), *p.basis_points, p.length(), p.constraint.as_bytes())
        });
        match got {
            Ok((r, b, l, again)) => {
                c.check(r & allowed != 0, "P06", || format!("the rule nested in royalties evaluates to {r} instead of {allowed}"));
                c.check(b == bp && l == roy.len() && again == want, "P06 P20", || format!("royalties read back as {b} bp / {l} bytes instead of {bp} / {}", roy.len()));
            }
            Err(e) => {
                c.check(false, "P06 P20", || format!("reading well-formed royalties panicked: {e}"));
            }
        }
        let got = c.run("mutable royalties", "P06 P20 P21", || {
            let p = RoyaltiesMut::from_bytes_mut(rmut.get_mut());
            let r = result(p.constraint.assert(&cx()));
            *p.basis_points += 1;
            r
        });
        c.check(got.as_ref().map_or(false, |r| r & allowed != 0), "P06 P20", || format!("the mutable view evaluates to {got:?} instead of {allowed}"));
        let mut e = roy.clone();
        e[..8].copy_from_slice(&(bp + round + 1).to_le_bytes());
        c.check(rmut.get() == e.as_slice(), "P20", || "changing the basis points in place changed something else".into());
    }
    c.label("P20", || format!("royalties {tag}"));

    // truncations: refused, never a rule that passes
    let cuts: Vec<usize> = if want.len() <= 64 && !cfg!(miri) { (0..want.len()).collect() } else { (0..if cfg!(miri) { 3 } else { 12 }).map(|_| c.rng.below(want.len())).collect() };
    for k in cuts {
        let b = Aligned::new(&want[..k]);
        let got = c.run("parse truncated", "P06 P21", || {
            let t = T { key: Pubkey::default(), owner: Pubkey::default(), empty: false };
            result(Constraint::from_bytes(b.get()).assert(&Context { asset: &t, authority: &t, recipient: Some(&t) }))
        });
        c.check(!matches!(got, Ok(PASS | FAIL)), "P06", || format!("a rule cut to {k} of {} bytes is evaluated ({got:?}) instead of refused", want.len()));
        c.label("P06", || format!("truncated {}", kind(&rule)));
    }
    // unknown operators and accounts
    let (mut ops, mut acs) = (vec![], vec![]);
    tags(&rule, 0, &mut ops, &mut acs);
    for _ in 0..3 {
        let mut b = want.clone();
        let what = if acs.is_empty() || c.rng.pct(50) {
            let o = *c.rng.pick(&ops);
            let v = if c.rng.pct(50) { c.rng.range(6, 12) as u32 } else { c.rng.u64() as u32 | 1 << c.rng.range(8, 31) };
            b[o..o + 4].copy_from_slice(&v.to_le_bytes());
            "operator"
        } else {
            let o = *c.rng.pick(&acs);
            let v = if c.rng.pct(50) { c.rng.range(3, 12) as u64 } else { c.rng.u64() | 1 << c.rng.range(8, 63) };
            b[o..o + 8].copy_from_slice(&v.to_le_bytes());
            "account"
        };
        let b = Aligned::new(&b);
        let got = c.run("parse corrupt", "P06 P21", || {
            let t = T { key: Pubkey::default(), owner: Pubkey::default(), empty: false };
            result(Constraint::from_bytes(b.get()).assert(&Context { asset: &t, authority: &t, recipient: Some(&t) }))
        });
        c.check(!matches!(got, Ok(PASS | FAIL)), "P06", || format!("a rule with an unknown {what} is evaluated ({got:?}) instead of refused"));
        c.label("P06", || format!("unknown {what} in {}", kind(&rule)));
    }
    // lists that end in the middle of a key, with sizes that agree otherwise
    if s.2 > 0 {
        let mut g = c.rng.clone();
        c.rng.u64();
        let b = Aligned::new(&ragged(&rule, &mut g));
        for recipient in [true, false] {
            let got = c.run("parse ragged", "P06 P21", || {
                let t = T { key: Pubkey::default(), owner: Pubkey::default(), empty: false };
                let p = Constraint::from_bytes(b.get());
                let _ = p.as_bytes();
                result(p.assert(&Context { asset: &t, authority: &t, recipient: if recipient { Some(&t) } else { None } }))
            });
            c.evals += 1;
            c.label("P21", || format!("ragged rule {} -> {}", kind(&rule), if got.is_ok() { "read" } else { "refused" }));
        }
    }
    // arbitrary damage must not do more than be refused or misjudged
    for _ in 0..2 {
        let mut b = want.clone();
        for _ in 0..c.rng.range(1, 4) {
            let n = b.len();
            let i = c.rng.below(n);
            b[i] = if c.rng.pct(50) { c.rng.below(9) as u8 } else { c.rng.u64() as u8 };
        }
        let b = Aligned::new(&b);
        let got = c.run("parse damaged", "P06 P21", || {
            let t = T { key: Pubkey::default(), owner: Pubkey::default(), empty: false };
            let p = Constraint::from_bytes(b.get());
            let _ = p.as_bytes();
            result(p.assert(&Context { asset: &t, authority: &t, recipient: None }))
        });
        c.evals += 1;
        c.label("P21", || format!("damaged rule {} -> {}", kind(&rule), if got.is_ok() { "read" } else { "refused" }));
    }
}

/// At most the first 96 bytes, in hex.
fn hx(b: &[u8]) -> String {
    let mut s: String = b.iter().take(96).map(|x| format!("{x:02x}")).collect();
    if b.len() > 96 {
        s.push_str("..");
    }
    s
}
