//! Specification of extension contents: well-formedness, the protected fields and the meaning of
//! royalty rules. Written from the documentation of the types, not from their code.
use crate::svm::Key;
use crate::view::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Wf {
    Good,
    Bad,
    /// neither required to be accepted nor to be refused
    Odd,
}

impl Wf {
    fn worst(self, o: Wf) -> Wf {
        match (self, o) {
            (Wf::Odd, _) | (_, Wf::Odd) => Wf::Odd,
            (Wf::Bad, _) | (_, Wf::Bad) => Wf::Bad,
            _ => Wf::Good,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Rule {
    And(Vec<Rule>),
    Or(Vec<Rule>),
    Not(Box<Rule>),
    OwnedBy(u64, Vec<Key>),
    KeyMatch(u64, Vec<Key>),
    Empty,
}

pub struct Who {
    pub key: Key,
    pub owner: Key,
    pub empty: bool,
}

impl Rule {
    pub fn eval(&self, who: &[Who; 3]) -> bool {
        match self {
            Rule::And(v) => v.iter().all(|r| r.eval(who)),
            Rule::Or(v) => v.iter().any(|r| r.eval(who)),
            Rule::Not(r) => !r.eval(who),
            Rule::OwnedBy(a, k) => !who[*a as usize].empty && k.contains(&who[*a as usize].owner),
            Rule::KeyMatch(a, k) => k.contains(&who[*a as usize].key),
            Rule::Empty => true,
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        let (t, body): (u32, Vec<u8>) = match self {
            Rule::And(v) => (0, v.iter().flat_map(|r| r.encode()).collect()),
            Rule::Not(r) => (1, r.encode()),
            Rule::Or(v) => (2, v.iter().flat_map(|r| r.encode()).collect()),
            Rule::OwnedBy(a, k) => (3, a.to_le_bytes().iter().copied().chain(k.iter().flatten().copied()).collect()),
            Rule::KeyMatch(a, k) => (4, a.to_le_bytes().iter().copied().chain(k.iter().flatten().copied()).collect()),
            Rule::Empty => (5, vec![]),
        };
        let mut out = t.to_le_bytes().to_vec();
        out.extend((body.len() as u32).to_le_bytes());
        out.extend(body);
        out
    }
    pub fn depth(&self) -> usize {
        1 + match self {
            Rule::And(v) | Rule::Or(v) => v.iter().map(|r| r.depth()).max().unwrap_or(0),
            Rule::Not(r) => r.depth(),
            _ => 0,
        }
    }
}

/// Parses one rule from the front of `b`; returns the rule and the bytes consumed.
pub fn parse_rule(b: &[u8]) -> Result<(Rule, usize), Wf> {
    if b.len() < 8 {
        return Err(Wf::Bad);
    }
    let t = u32::from_le_bytes(b[..4].try_into().unwrap());
    let n = u32::from_le_bytes(b[4..8].try_into().unwrap()) as usize;
    if t > 5 {
        return Err(Wf::Bad);
    }
    if n > b.len() - 8 {
        return Err(Wf::Bad);
    }
    if n % 8 != 0 {
        return Err(Wf::Odd);
    }
    let body = &b[8..8 + n];
    let r = match t {
        0 | 2 => {
            let mut v = vec![];
            let mut o = 0;
            let mut err = None;
            while o < body.len() {
                match parse_rule(&body[o..]) {
                    Ok((r, s)) => {
                        v.push(r);
                        o += s;
                    }
                    Err(e) => {
                        err = Some(e);
                        break;
                    }
                }
            }
            if let Some(e) = err {
                return Err(e);
            }
            if t == 0 {
                Rule::And(v)
            } else {
                Rule::Or(v)
            }
        }
        1 => {
            let (r, s) = parse_rule(body)?;
            if s != n {
                return Err(Wf::Odd);
            }
            Rule::Not(Box::new(r))
        }
        3 | 4 => {
            if n < 8 {
                return Err(Wf::Bad);
            }
            let acc = u64::from_le_bytes(body[..8].try_into().unwrap());
            if acc > 2 || (n - 8) % 32 != 0 {
                return Err(Wf::Bad);
            }
            let keys = body[8..].chunks_exact(32).map(k32).collect();
            if t == 3 {
                Rule::OwnedBy(acc, keys)
            } else {
                Rule::KeyMatch(acc, keys)
            }
        }
        _ => {
            if n != 0 {
                return Err(Wf::Odd);
            }
            Rule::Empty
        }
    };
    Ok((r, 8 + n))
}

/// Rule of a royalties extension. `Err(Odd)`: not specified.
pub fn royalty_rule(d: &[u8]) -> Result<Rule, Wf> {
    if d.len() < 16 {
        return Err(Wf::Bad);
    }
    let (r, n) = parse_rule(&d[8..])?;
    if n != d.len() - 8 {
        return Err(Wf::Odd);
    }
    if r.depth() > 40 {
        return Err(Wf::Odd);
    }
    Ok(r)
}

/// Reads one length-prefixed string; None if truncated.
pub fn pstr(b: &[u8]) -> Option<(&[u8], &[u8])> {
    let n = *b.first()? as usize;
    if b.len() < 1 + n {
        return None;
    }
    Some((&b[1..1 + n], &b[1 + n..]))
}

fn utf(b: &[u8]) -> Wf {
    if std::str::from_utf8(b).is_ok() {
        Wf::Good
    } else {
        Wf::Odd
    }
}

/// Shape of the data of an extension (independent of any previous data).
pub fn shape(ty: u32, d: &[u8]) -> Wf {
    match ty {
        ATTRIBUTES | LINKS => {
            let mut r = d;
            let mut w = Wf::Good;
            while !r.is_empty() {
                for _ in 0..2 {
                    match pstr(r) {
                        Some((s, rest)) => {
                            w = w.worst(utf(s));
                            r = rest;
                        }
                        None => return Wf::Bad,
                    }
                }
            }
            w
        }
        BLOB => match pstr(d) {
            Some((s, _)) => utf(s),
            None => Wf::Bad,
        },
        CREATORS => {
            if d.len() % 34 != 0 {
                return Wf::Bad;
            }
            let sum: u64 = d.chunks_exact(34).map(|c| c[33] as u64).sum();
            if sum != 100 {
                return Wf::Bad;
            }
            if d.chunks_exact(34).any(|c| c[32] > 1) {
                return Wf::Good;
            }
            Wf::Good
        }
        METADATA => {
            let mut r = d;
            let mut w = Wf::Good;
            for _ in 0..3 {
                match pstr(r) {
                    Some((s, rest)) => {
                        w = w.worst(utf(s));
                        r = rest;
                    }
                    None => return Wf::Bad,
                }
            }
            if r.is_empty() {
                return w;
            }
            match pstr(r) {
                None => Wf::Bad,
                Some((s, rest)) => {
                    if rest.is_empty() {
                        w.worst(utf(s))
                    } else {
                        Wf::Odd
                    }
                }
            }
        }
        GROUPING => match d.len() {
            16 | 48 => Wf::Good,
            0..=15 => Wf::Bad,
            17..=47 => Wf::Odd,
            _ => Wf::Bad,
        },
        ROYALTIES => {
            if d.len() < 16 {
                return Wf::Bad;
            }
            let bps = u64::from_le_bytes(d[..8].try_into().unwrap());
            match royalty_rule(d) {
                Ok(_) if bps <= 10_000 => Wf::Good,
                Ok(_) => Wf::Bad,
                Err(Wf::Bad) => Wf::Bad,
                Err(w) => {
                    if bps > 10_000 {
                        Wf::Bad
                    } else {
                        w
                    }
                }
            }
        }
        MANAGER => match d.len() {
            0..=32 => Wf::Bad,
            33 => Wf::Good,
            _ => Wf::Odd,
        },
        PROXY => {
            if d.len() == 97 {
                Wf::Good
            } else {
                Wf::Bad
            }
        }
        PROPERTIES => {
            let mut r = d;
            let mut w = Wf::Good;
            while !r.is_empty() {
                let (s, rest) = match pstr(r) {
                    Some(x) => x,
                    None => return Wf::Bad,
                };
                w = w.worst(utf(s));
                if rest.is_empty() {
                    return Wf::Bad;
                }
                match rest[0] {
                    0 => match pstr(&rest[1..]) {
                        Some((s, rr)) => {
                            w = w.worst(utf(s));
                            r = rr;
                        }
                        None => return Wf::Bad,
                    },
                    1 => {
                        if rest.len() < 9 {
                            return Wf::Bad;
                        }
                        r = &rest[9..];
                    }
                    2 => {
                        if rest.len() < 2 {
                            return Wf::Bad;
                        }
                        if rest[1] > 1 {
                            w = Wf::Odd;
                        }
                        r = &rest[2..];
                    }
                    _ => return Wf::Bad,
                }
            }
            w
        }
        BUCKET => Wf::Good,
        _ => Wf::Bad,
    }
}

/// Data as stored when it is first attached (`authority`: whose consent is implied, if any).
pub fn at_creation(ty: u32, d: &[u8], authority: Option<&Key>) -> (Wf, Vec<u8>) {
    let mut out = d.to_vec();
    let mut w = shape(ty, d);
    match ty {
        CREATORS => {
            for c in out.chunks_exact_mut(34) {
                c[32] = (Some(&k32(c)) == authority) as u8;
            }
        }
        GROUPING => {
            if d.len() >= 8 && d[..8] != [0u8; 8] {
                w = Wf::Bad;
            }
        }
        _ => (),
    }
    (w, out)
}

/// Data as stored when existing data is replaced.
pub fn at_update(ty: u32, old: &[u8], new: &[u8], authority: &Key) -> (Wf, Vec<u8>) {
    let mut out = new.to_vec();
    let mut w = shape(ty, new);
    if w == Wf::Bad {
        return (w, out);
    }
    match ty {
        CREATORS => {
            let olds = creators_of(old);
            for c in out.chunks_exact_mut(34) {
                let key = k32(c);
                c[32] = match olds.iter().find(|o| o.0 == key) {
                    Some(o) => o.1 as u8,
                    None => (key == *authority) as u8,
                };
            }
            let news = creators_of(&out);
            for o in olds.iter().filter(|o| o.1) {
                if !news.iter().any(|n| n.0 == o.0) {
                    w = Wf::Bad;
                } else if news.iter().any(|n| n.0 == o.0 && !n.1) {
                    // duplicated creator with mixed marks in the old list
                    w = Wf::Odd;
                }
            }
        }
        GROUPING if old.len() < 8 => w = Wf::Odd,
        GROUPING => {
            out[..8].copy_from_slice(&old[..8]);
            let size = u64::from_le_bytes(old[..8].try_into().unwrap());
            let max = u64::from_le_bytes(new[8..16].try_into().unwrap());
            if max != 0 && max < size {
                w = Wf::Bad;
            }
        }
        PROXY => {
            if old.len() < 65 || old[..65] != new[..65] {
                w = Wf::Bad;
            }
        }
        _ => (),
    }
    (w, out)
}
