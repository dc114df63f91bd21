use crate::{bucket, Aligned};
use nifty_asset_types::extensions::*;
use nifty_asset_types::podded::pod::{Nullable, PodOption};
use nifty_asset_types::state::{Delegate, DelegateRole, NullablePubkey};
use runner::rng::Rng;
use runner::Case;
use solana_program::pubkey::Pubkey;

const P: &str = "P20";
const PR: &str = "P20 P21";

fn string(r: &mut Rng) -> String {
    let n = match r.below(12) {
        0 => 0,
        1 => 1,
        2 => 255,
        3 => r.range(127, 129),
        4 => r.range(200, 255),
        _ => r.range(1, 24),
    };
    let mut s = String::new();
    while s.len() < n {
        let ch = if r.pct(10) { *r.pick(&['é', '本', '🦀', '\0', '"', '\u{7f}']) } else { (b'a' + r.below(26) as u8) as char };
        if s.len() + ch.len_utf8() > n {
            s.push('x');
        } else {
            s.push(ch);
        }
    }
    s
}
/// names from a small set, so that duplicates happen
fn name(r: &mut Rng) -> String {
    match r.below(4) {
        0 => r.pick(&["a", "b", "", "name"]).to_string(),
        1 => format!("n{}", r.below(4)),
        _ => string(r),
    }
}
/// a name that is almost `s`
fn near(r: &mut Rng, s: &str) -> String {
    match r.below(7) {
        0 => s.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        1 => { let i = r.below(s.len().max(1)); s.char_indices().map(|(j, c)| if i == j { c.to_ascii_uppercase() } else { c }).collect() }
        2 => s.chars().skip(1).collect(),
        3 => { let mut t = s.to_string(); t.pop(); t }
        4 if s.len() < 255 => format!("{s}{}", r.pick(&['a', ' ', '\0'])),
        5 if s.len() < 255 => format!("{}{s}", r.pick(&['a', ' ', '\0'])),
        _ => s.chars().rev().collect(),
    }
}
/// makes the names of some entries similar to those of others
fn blur<V>(r: &mut Rng, v: &mut [(String, V)]) {
    for i in 1..v.len() {
        if r.pct(12) {
            let j = r.below(i);
            v[i].0 = near(r, &v[j].0.clone());
        }
    }
}
/// names to look up: of entries, similar ones, and others
fn probes(r: &mut Rng, names: Vec<String>) -> Vec<String> {
    let mut p: Vec<String> = names.iter().take(6).cloned().collect();
    if !names.is_empty() {
        for _ in 0..3 {
            let s = r.pick(&names).clone();
            p.push(s.clone());
            p.push(near(r, &s));
        }
    }
    p.extend(["zz-absent".to_string(), "a".into(), "".into()]);
    p
}
fn count(r: &mut Rng, big: usize) -> usize {
    match r.below(10) {
        0 => 0,
        1..=4 => r.range(1, 3),
        5..=8 => r.range(4, 10),
        _ => r.range(11, big),
    }
}
pub fn pstr(o: &mut Vec<u8>, s: &str) {
    o.push(s.len() as u8);
    o.extend(s.as_bytes());
}
fn key(r: &mut Rng) -> Pubkey {
    if r.pct(8) {
        Pubkey::default()
    } else {
        Pubkey::from(r.key())
    }
}
fn num(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => 0,
        1 => u64::MAX,
        2 => 1 << r.below(64),
        3 => r.below(300) as u64,
        _ => r.u64(),
    }
}
fn opt(k: &PodOption<NullablePubkey>) -> Option<Pubkey> {
    k.value().map(|x| **x)
}
fn some(k: Pubkey) -> Option<Pubkey> {
    (k != Pubkey::default()).then_some(k)
}

/// garbage a builder might be handed as its buffer
fn dirty(r: &mut Rng) -> Vec<u8> {
    let n = r.below(40);
    r.bytes(n)
}

macro_rules! ok {
    ($c:expr, $r:expr, $what:expr) => {
        match $r {
            Ok(x) => x,
            Err(e) => {
                $c.check(false, P, || format!("{} panicked on valid input: {e}", $what));
                return;
            }
        }
    };
}

pub fn case(c: &mut Case) {
    match c.rng.below(10) {
        0 => pairs(c, true),
        1 => pairs(c, false),
        2 => blob(c),
        3 => creators(c),
        4 => grouping(c),
        5 => manager(c),
        6 => metadata(c),
        7 => proxy(c),
        _ => properties(c),
    }
}

/// builder variants that must make no difference
fn start<B: Default>(r: &mut Rng, cap: fn(usize) -> B, buf: fn(Vec<u8>) -> B) -> (B, &'static str) {
    match r.below(3) {
        0 => (B::default(), "default"),
        1 => (cap(r.below(300)), "capacity"),
        _ => (buf(dirty(r)), "buffer"),
    }
}

fn pairs(c: &mut Case, attrs: bool) {
    let n = count(&mut c.rng, 60);
    let mut v: Vec<(String, String)> = (0..n).map(|_| (name(&mut c.rng), string(&mut c.rng))).collect();
    blur(&mut c.rng, &mut v);
    let what = if attrs { "attributes" } else { "links" };
    c.log(|| format!("{what} {v:?}").chars().take(2000).collect::<String>());
    let mut want = vec![];
    for (a, b) in &v {
        pstr(&mut want, a);
        pstr(&mut want, b);
    }
    let mut g = c.rng.clone();
    c.rng.u64();
    type L = Vec<(String, String)>;
    let got: Result<(Vec<u8>, L, usize, Vec<u8>), String> = c.run(what, PR, || {
        if attrs {
            let (mut b, _) = start(&mut g, AttributesBuilder::with_capacity, AttributesBuilder::with_buffer);
            for (k, x) in &v {
                b.add(k, x);
            }
            let bytes = b.to_vec();
            let w = b.build();
            let l: L = w.iter().map(|t| (t.name.to_string(), t.value.to_string())).collect();
            let n = w.length();
            (bytes, l, n, b.data())
        } else {
            let (mut b, _) = start(&mut g, LinksBuilder::with_capacity, LinksBuilder::with_buffer);
            for (k, x) in &v {
                b.add(k, x);
            }
            let bytes = b.to_vec();
            let w = b.build();
            let l: L = w.iter().map(|t| (t.name.to_string(), t.uri.to_string())).collect();
            let n = w.length();
            (bytes, l, n, b.data())
        }
    });
    let (bytes, l, n, data) = ok!(c, got, what);
    c.check(l == v, P, || format!("{what} read back as {l:?}"));
    c.check(bytes == want && data == want, P, || format!("{what} are laid out as {bytes:02x?}"));
    c.check(n == want.len(), P, || format!("{what} report length {n} of {}", want.len()));
    c.label(P, || format!("{what} {} longest {}", bucket(v.len()), bucket(v.iter().map(|x| x.0.len().max(x.1.len())).max().unwrap_or(0))));

    let read = |b: &[u8]| -> L {
        if attrs {
            Attributes::from_bytes(b).iter().map(|t| (t.name.to_string(), t.value.to_string())).collect()
        } else {
            Links::from_bytes(b).iter().map(|t| (t.name.to_string(), t.uri.to_string())).collect()
        }
    };
    if attrs {
        let probes = probes(&mut c.rng, v.iter().map(|x| x.0.clone()).collect());
        for p in probes {
            let e = v.iter().find(|x| x.0 == p).map(|x| x.1.clone());
            let got = c.run("get", PR, || Attributes::from_bytes(&want).get(&p).map(|s| s.to_string()));
            c.check(got.as_ref() == Ok(&e), P, || format!("attribute {p:?} is looked up as {got:?} instead of {e:?}"));
            c.label(P, || format!("attribute look-up {}", if e.is_some() { "present" } else { "absent" }));
        }
    }
    // mutable view: same values, in-place change of one
    let mut buf = want.clone();
    if !attrs && !v.is_empty() {
        let i = c.rng.below(v.len());
        let (nn, nv) = (string(&mut c.rng), string(&mut c.rng));
        let got = c.run("modify", PR, || {
            let mut m = LinksMut::from_bytes_mut(&mut buf);
            m.values[i].name.copy_from_str(&nn);
            m.values[i].uri.copy_from_str(&nv);
        });
        ok!(c, got, "modifying a link");
        let fit = |old: &str, new: &str| {
            let mut b = new.as_bytes()[..new.len().min(old.len())].to_vec();
            b.resize(old.len(), 0);
            b
        };
        let mut e = vec![];
        for (j, (a, b)) in v.iter().enumerate() {
            let (x, y) = if i == j { (fit(a, &nn), fit(b, &nv)) } else { (a.clone().into_bytes(), b.clone().into_bytes()) };
            e.push(x.len() as u8);
            e.extend(x);
            e.push(y.len() as u8);
            e.extend(y);
        }
        c.check(buf == e, P, || format!("changing link {i} in place gives {buf:02x?}"));
        c.label(P, || "link changed in place".into());
    } else if attrs {
        let got = c.run("mutable attributes", PR, || {
            AttributesMut::from_bytes_mut(&mut buf).iter().map(|t| (t.name.to_string(), t.value.to_string(), t.length())).collect::<Vec<_>>()
        });
        let e: Vec<_> = v.iter().map(|x| (x.0.clone(), x.1.clone(), x.0.len() + x.1.len() + 2)).collect();
        c.check(got.as_ref() == Ok(&e), P, || format!("the mutable view reads {got:?}"));
        c.check(buf == want, P, || "reading through the mutable view changed the data".into());
    }
    truncate(c, what, &want, |b| read(b), |x| v.starts_with(x));
}

/// a view over truncated data is refused, or its entries are the intact ones
fn truncate<T: std::fmt::Debug>(c: &mut Case, what: &str, want: &[u8], read: impl Fn(&[u8]) -> T, fine: impl Fn(&T) -> bool) {
    if want.is_empty() {
        return;
    }
    for _ in 0..4 {
        let k = c.rng.below(want.len());
        let b = Aligned::new(&want[..k]);
        let got = c.run("read truncated", PR, || read(b.get()));
        if let Ok(x) = &got {
            c.check(fine(x), P, || format!("{what} cut to {k} of {} bytes read as {x:?}", want.len()));
        }
        c.evals += 1;
        c.label(P, || format!("truncated {what} {}", if got.is_ok() { "read as the intact part" } else { "refused" }));
    }
    // arbitrary bytes: only memory safety and termination are at stake
    let mut b = want.to_vec();
    for _ in 0..c.rng.range(1, 4) {
        let i = c.rng.below(want.len());
        b[i] = c.rng.u64() as u8;
    }
    let b = Aligned::new(&b);
    let got = c.run("read damaged", PR, || drop(read(b.get())));
    c.evals += 1;
    c.label("P21", || format!("damaged {what} {}", if got.is_ok() { "read" } else { "refused" }));
}

fn blob(c: &mut Case) {
    let s = string(&mut c.rng);
    let n = match c.rng.below(5) {
        0 => 0,
        1 => c.rng.range(1000, 6000),
        _ => c.rng.range(1, 80),
    };
    let d = c.rng.bytes(n);
    c.log(|| format!("blob {s:?} {n} bytes"));
    let mut want = vec![];
    pstr(&mut want, &s);
    want.extend(&d);
    let mut g = c.rng.clone();
    let twice = c.rng.pct(30);
    let got = c.run("blob", PR, || {
        let (mut b, _) = start(&mut g, BlobBuilder::with_capacity, BlobBuilder::with_buffer);
        if twice {
            b.set_data("image/gif", &[1, 2, 3]);
        }
        b.set_data(&s, &d);
        let bytes = b.to_vec();
        let (t, x, l) = {
            let w = b.build();
            (w.content_type.to_string(), w.data.to_vec(), w.length())
        };
        (bytes, t, x, l, b.data())
    });
    let (bytes, t, x, l, data) = ok!(c, got, "blob");
    c.check(t == s && x == d, P, || format!("blob reads back as {t:?}, {} bytes", x.len()));
    c.check(bytes == want && data == want && l == want.len(), P, || format!("blob laid out in {} bytes ({l}), expected {}", bytes.len(), want.len()));
    c.label(P, || format!("blob type {} data {}", bucket(s.len()), bucket(n)));
    let mut buf = want.clone();
    let ns = string(&mut c.rng);
    let i = c.rng.below(n.max(1));
    let got = c.run("modify blob", PR, || {
        let mut m = BlobMut::from_bytes_mut(&mut buf);
        m.content_type.copy_from_str(&ns);
        if n > 0 {
            m.data[i] ^= 0x5a;
        }
    });
    ok!(c, got, "modifying a blob");
    let mut e = vec![s.len() as u8];
    let mut f = ns.as_bytes()[..ns.len().min(s.len())].to_vec();
    f.resize(s.len(), 0);
    e.extend(f);
    e.extend(&d);
    if n > 0 {
        e[1 + s.len() + i] ^= 0x5a;
    }
    c.check(buf == e, P, || "changing a blob in place changed something else".into());
    truncate(c, "blob", &want, |b| { let w = Blob::from_bytes(b); (w.content_type.to_string(), w.data.to_vec()) }, |x| x.0 == s && d.starts_with(&x.1));

    // bucket
    let got = c.run("bucket", PR, || {
        let (mut b, _) = start(&mut g, BucketBuilder::with_capacity, BucketBuilder::with_buffer);
        if twice {
            b.set_data(&[4; 50]);
        }
        b.set_data(&d);
        let bytes = b.to_vec();
        let (x, l) = {
            let w = b.build();
            (w.data.to_vec(), w.length())
        };
        (bytes, x, l, b.data())
    });
    let (bytes, x, l, data) = ok!(c, got, "bucket");
    c.check(x == d && bytes == d && data == d && l == n, P, || format!("bucket of {n} bytes reads back as {} / {} / {} / {l}", bytes.len(), x.len(), data.len()));
    c.label(P, || format!("bucket {}", bucket(n)));
    let mut buf = d.clone();
    let got = c.run("modify bucket", PR, || {
        let m = BucketMut::from_bytes_mut(&mut buf);
        if n > 0 {
            m.data[i] ^= 0x5a;
        }
        m.data.len()
    });
    let mut e = d;
    if n > 0 {
        e[i] ^= 0x5a;
    }
    c.check(got == Ok(n) && buf == e, P, || "changing a bucket in place changed something else".into());
}

fn creators(c: &mut Case) {
    let n = count(&mut c.rng, 400);
    let pool: Vec<Pubkey> = (0..4).map(|_| key(&mut c.rng)).collect();
    let v: Vec<(Pubkey, bool, u8)> = (0..n)
        .map(|_| (if c.rng.pct(30) { *c.rng.pick(&pool) } else { key(&mut c.rng) }, c.rng.pct(50), c.rng.u64() as u8))
        .collect();
    c.log(|| format!("{n} creators {:?}", v.iter().take(4).collect::<Vec<_>>()));
    let mut want = vec![];
    for (k, f, s) in &v {
        want.extend(k.to_bytes());
        want.push(*f as u8);
        want.push(*s);
    }
    let mut g = c.rng.clone();
    let view = |w: &Creators| w.values.iter().map(|x| (x.address, bool::from(x.verified), x.share)).collect::<Vec<_>>();
    let got = c.run("creators", PR, || {
        let (mut b, _) = start(&mut g, CreatorsBuilder::with_capacity, CreatorsBuilder::with_buffer);
        for (k, f, s) in &v {
            b.add(k, *f, *s);
        }
        let bytes = b.to_vec();
        let (l, n) = {
            let w = b.build();
            (view(&w), w.length())
        };
        (bytes, l, n, b.data())
    });
    let (bytes, l, len, data) = ok!(c, got, "creators");
    c.check(l == v, P, || format!("{n} creators read back as {} ({:?})", l.len(), l.iter().zip(&v).find(|(a, b)| a != b)));
    c.check(bytes == want && data == want && len == want.len(), P, || format!("creators laid out in {} bytes ({len}) instead of {}", bytes.len(), want.len()));
    c.label(P, || format!("creators {}", bucket(n)));
    let probes: Vec<Pubkey> = v.iter().map(|x| x.0).take(4).chain(pool.iter().copied()).chain([Pubkey::from(c.rng.key())]).collect();
    for p in probes {
        let e = v.iter().find(|x| x.0 == p).copied();
        let got = c.run("find creator", PR, || Creators::from_bytes(&want).get(&p).map(|x| (x.address, bool::from(x.verified), x.share)));
        c.check(got == Ok(e), P, || format!("creator {p} found as {got:?} instead of {e:?}"));
        let mut buf = want.clone();
        let (f, s) = (c.rng.pct(50), c.rng.u64() as u8);
        let got = c.run("modify creator", PR, || {
            CreatorsMut::from_bytes_mut(&mut buf).get(&p).map(|x| {
                x.verified = f.into();
                x.share = s;
            })
        });
        let mut ex = want.clone();
        if let Some(i) = v.iter().position(|x| x.0 == p) {
            ex[i * 34 + 32] = f as u8;
            ex[i * 34 + 33] = s;
        }
        c.check(got.as_ref().ok() == Some(&e.map(|_| ())) && buf == ex, P, || format!("changing creator {p} in place changed something else ({got:?})"));
        c.label(P, || format!("creator {}", if e.is_some() { "found and changed" } else { "absent" }));
    }
    truncate(c, "creators", &want, |b| view(&Creators::from_bytes(b)), |x| v.starts_with(x));
}

fn grouping(c: &mut Case) {
    let max = if c.rng.pct(40) { None } else { Some(num(&mut c.rng)) };
    let del = if c.rng.pct(40) { None } else { Some(key(&mut c.rng)) };
    c.log(|| format!("grouping {max:?} {del:?}"));
    let mut want = vec![0; 8];
    want.extend(max.unwrap_or(0).to_le_bytes());
    want.extend(del.unwrap_or_default().to_bytes());
    let (d, w2, twice) = (dirty(&mut c.rng), c.rng.pct(50), c.rng.pct(30));
    let e = (0u64, max.filter(|x| *x > 0), del.and_then(some));
    let view = |g: &Grouping| (*g.size, g.max_size.value().map(|x| **x), opt(g.delegate));
    let got = c.run("grouping", PR, || {
        let mut b = if w2 { GroupingBuilder::with_buffer(d) } else { GroupingBuilder::default() };
        if twice {
            b.set(Some(77), Some(&Pubkey::new_from_array([3; 32])));
        }
        b.set(max, del.as_ref());
        let bytes = b.to_vec();
        let (v, l) = {
            let w = b.build();
            (view(&w), w.length())
        };
        (bytes, v, l, b.data())
    });
    let (bytes, v, l, data) = ok!(c, got, "grouping");
    c.check(v == e, P, || format!("grouping reads back as {v:?} instead of {e:?}"));
    c.check(bytes == want && data == want && l == 48, P, || "grouping is laid out differently".into());
    c.label(P, || format!("grouping max {} delegate {}", max.map_or("none", |x| if x == 0 { "zero" } else { "set" }), e.2.is_some()));
    let got = c.run("default grouping", PR, || {
        let b = GroupingBuilder::default();
        let w = b.build();
        view(&w)
    });
    c.check(got == Ok((0, None, None)), P, || format!("a default grouping reads as {got:?}"));
    // in place
    let mut buf = Aligned::new(&want);
    let (s, m, k) = (num(&mut c.rng), num(&mut c.rng), key(&mut c.rng));
    let which = c.rng.below(4);
    let got = c.run("modify grouping", PR, || {
        let g = GroupingMut::from_bytes_mut(buf.get_mut());
        match which {
            0 => *g.size = s,
            1 => *g.max_size = PodOption::new(NullableU64::new(m)),
            2 => *g.delegate = PodOption::new(NullablePubkey::new(k)),
            _ => (),
        }
        (*g.size, g.max_size.value().map(|x| **x), opt(g.delegate))
    });
    let mut ex = want.clone();
    let mut ev = e;
    match which {
        0 => {
            ex[..8].copy_from_slice(&s.to_le_bytes());
            ev.0 = s;
        }
        1 => {
            ex[8..16].copy_from_slice(&m.to_le_bytes());
            ev.1 = (m != 0).then_some(m);
        }
        2 => {
            ex[16..].copy_from_slice(&k.to_bytes());
            ev.2 = some(k);
        }
        _ => (),
    }
    c.check(got == Ok(ev) && buf.get() == ex, P, || format!("changing a grouping in place gives {got:?} instead of {ev:?}"));
    // data of the previous version has no delegate
    let old = Aligned::new(&want[..16]);
    let got = c.run("old grouping", PR, || view(&Grouping::from_bytes(old.get())));
    c.check(got == Ok((e.0, e.1, None)), P, || format!("a grouping without delegate field reads as {got:?}"));
    let mut old = Aligned::new(&want[..16]);
    let got = c.run("old grouping", PR, || {
        let g = GroupingMut::from_bytes_mut(old.get_mut());
        *g.size = s;
        *g.delegate = PodOption::new(NullablePubkey::new(k));
    });
    let mut ex = want[..16].to_vec();
    ex[..8].copy_from_slice(&s.to_le_bytes());
    c.check(got.is_ok() && old.get() == ex, P, || "changing a grouping without delegate field changed something else".into());
    // ... and one made later still has none
    let old = Aligned::new(&want[..16]);
    let got = c.run("old grouping", PR, || view(&Grouping::from_bytes(old.get())));
    c.check(got == Ok((e.0, e.1, None)), P, || format!("a grouping without delegate field reads as {got:?} after another was changed"));
    c.label(P, || format!("grouping changed in place {which}"));
    truncate(c, "grouping", &want, |b| view(&Grouping::from_bytes(b)), |x| x.0 == e.0 && x.1 == e.1 && (x.2.is_none() || x.2 == e.2));
}

fn roles(m: u8) -> Vec<DelegateRole> {
    let mut v = vec![];
    for (i, r) in [DelegateRole::Transfer, DelegateRole::Lock, DelegateRole::Burn].into_iter().enumerate() {
        if m >> i & 1 == 1 {
            v.push(r);
        }
    }
    v
}

fn manager(c: &mut Case) {
    let k = key(&mut c.rng);
    let m = c.rng.below(8) as u8;
    let mut want = k.to_bytes().to_vec();
    want.push(m);
    c.log(|| format!("manager {k} roles {m:03b}"));
    let mut g = c.rng.clone();
    let twice = c.rng.pct(30);
    let got = c.run("manager", PR, || {
        let mut d = Delegate::default();
        d.address = NullablePubkey::new(k);
        for r in roles(m) {
            d.enable(r);
        }
        let (mut b, _) = start(&mut g, ManagerBuilder::with_capacity, ManagerBuilder::with_buffer);
        if twice {
            b.set(&Delegate::default());
        }
        b.set(&d);
        let bytes = b.to_vec();
        let v = {
            let w = b.build();
            let on: Vec<bool> = [DelegateRole::Transfer, DelegateRole::Lock, DelegateRole::Burn, DelegateRole::None].iter().map(|r| w.delegate.is_active(*r)).collect();
            (*w.delegate.address, w.delegate.roles, on, w.delegate.has_active_roles(), w.delegate.is_some(), w.length())
        };
        (bytes, v, b.data())
    });
    let (bytes, v, data) = ok!(c, got, "manager");
    let e = (k, m, vec![m & 1 > 0, m & 2 > 0, m & 4 > 0, false], m > 0, k != Pubkey::default(), 33);
    c.check(v == e, P, || format!("manager reads back as {v:?} instead of {e:?}"));
    c.check(bytes == want && data == want, P, || "manager is laid out differently".into());
    let mut buf = want.clone();
    let (en, r) = (c.rng.pct(50), c.rng.below(3));
    let role = [DelegateRole::Transfer, DelegateRole::Lock, DelegateRole::Burn][r];
    let nk = c.rng.pct(30).then(|| key(&mut c.rng));
    let got = c.run("modify manager", PR, || {
        let w = ManagerMut::from_bytes_mut(&mut buf);
        if en {
            w.delegate.enable(role)
        } else {
            w.delegate.disable(role)
        }
        if let Some(k) = nk {
            w.delegate.address = k.into();
        }
    });
    let mut ex = want.clone();
    ex[32] = if en { m | 1 << r } else { m & !(1 << r) };
    if let Some(k) = nk {
        ex[..32].copy_from_slice(&k.to_bytes());
    }
    c.check(got.is_ok() && buf == ex, P, || format!("{} role {r} of {m:03b} gives {:03b}", if en { "enabling" } else { "disabling" }, buf[32]));
    c.label(P, || format!("manager {m:03b} {} {r}", if en { "+" } else { "-" }));
    truncate(c, "manager", &want, |b| { let w = Manager::from_bytes(b); (*w.delegate.address, w.delegate.roles) }, |x| *x == (k, m));
}

fn metadata(c: &mut Case) {
    let v: Vec<Option<String>> = (0..4).map(|_| if c.rng.pct(25) { None } else { Some(string(&mut c.rng)) }).collect();
    c.log(|| format!("metadata {v:?}"));
    let s: Vec<String> = v.iter().map(|x| x.clone().unwrap_or_default()).collect();
    let mut want = vec![];
    for x in &s {
        pstr(&mut want, x);
    }
    let mut g = c.rng.clone();
    let twice = c.rng.pct(30);
    let view = |m: &Metadata| vec![m.symbol.to_string(), m.description.to_string(), m.uri.to_string(), m.image_uri.to_string()];
    let got = c.run("metadata", PR, || {
        let (mut b, _) = start(&mut g, MetadataBuilder::with_capacity, MetadataBuilder::with_buffer);
        if twice {
            b.set(Some("X"), None, Some("ipfs://"), Some("y"));
        }
        b.set(v[0].as_deref(), v[1].as_deref(), v[2].as_deref(), v[3].as_deref());
        let bytes = b.to_vec();
        let (x, l) = {
            let w = b.build();
            (view(&w), w.length())
        };
        (bytes, x, l, b.data())
    });
    let (bytes, x, l, data) = ok!(c, got, "metadata");
    c.check(x == s, P, || format!("metadata reads back as {x:?}"));
    c.check(bytes == want && data == want && l == want.len(), P, || "metadata is laid out differently".into());
    c.label(P, || format!("metadata {:?}", v.iter().map(|x| x.as_ref().map(|s| bucket(s.len()))).collect::<Vec<_>>()));
    let fit = |old: &str, new: &str| {
        let mut b = new.as_bytes()[..new.len().min(old.len())].to_vec();
        b.resize(old.len(), 0);
        b
    };
    let i = c.rng.below(4);
    let new = string(&mut c.rng);
    let old_layout = c.rng.pct(25);
    let cut = want.len() - 1 - s[3].len();
    let mut buf = want.clone();
    if old_layout {
        buf.truncate(cut);
    }
    let got = c.run("modify metadata", PR, || {
        let mut m = MetadataMut::from_bytes_mut(&mut buf);
        match i {
            0 => m.symbol.copy_from_str(&new),
            1 => m.description.copy_from_str(&new),
            2 => m.uri.copy_from_str(&new),
            _ => m.image_uri.copy_from_str(&new),
        }
    });
    let mut ex = vec![];
    for (j, x) in s.iter().enumerate() {
        let d = if i == j { fit(x, &new) } else { x.clone().into_bytes() };
        ex.push(x.len() as u8);
        ex.extend(d);
    }
    if old_layout {
        ex.truncate(cut);
    }
    c.check(got.is_ok() && buf == ex, P, || format!("changing field {i} of metadata in place changed something else"));
    let got = c.run("old metadata", PR, || view(&Metadata::from_bytes(&want[..cut])));
    let mut e = s.clone();
    e[3].clear();
    c.check(got.as_ref() == Ok(&e), P, || format!("metadata without image link reads as {got:?}"));
    c.label(P, || format!("metadata field {i} changed in place{}", if old_layout { ", previous layout" } else { "" }));
    truncate(c, "metadata", &want, |b| view(&Metadata::from_bytes(b)), |x| *x == e);
}

fn proxy(c: &mut Case) {
    let (p, s, b0) = (key(&mut c.rng), c.rng.key(), c.rng.u64() as u8);
    let a = if c.rng.pct(40) { None } else { Some(key(&mut c.rng)) };
    c.log(|| format!("proxy {p} {s:02x?} {b0} {a:?}"));
    let mut want = p.to_bytes().to_vec();
    want.extend(s);
    want.push(b0);
    want.extend(a.unwrap_or_default().to_bytes());
    let mut g = c.rng.clone();
    let twice = c.rng.pct(30);
    let view = |w: &Proxy| (*w.program, *w.seeds, *w.bump, opt(w.authority));
    let e = (p, s, b0, a.and_then(some));
    let got = c.run("proxy", PR, || {
        let (mut b, _) = start(&mut g, ProxyBuilder::with_capacity, ProxyBuilder::with_buffer);
        if twice {
            b.set(&Pubkey::new_from_array([5; 32]), &[4; 32], 9, None);
        }
        b.set(&p, &s, b0, a.as_ref());
        let bytes = b.to_vec();
        let (x, l) = {
            let w = b.build();
            (view(&w), w.length())
        };
        (bytes, x, l, b.data())
    });
    let (bytes, x, l, data) = ok!(c, got, "proxy");
    c.check(x == e, P, || format!("proxy reads back as {x:?} instead of {e:?}"));
    c.check(bytes == want && data == want && l == 97, P, || "proxy is laid out differently".into());
    let which = c.rng.below(4);
    let (nk, nb) = (key(&mut c.rng), c.rng.u64() as u8);
    let mut buf = want.clone();
    let got = c.run("modify proxy", PR, || {
        let m = ProxyMut::from_bytes_mut(&mut buf);
        match which {
            0 => *m.program = nk,
            1 => *m.seeds = nk.to_bytes(),
            2 => *m.bump = nb,
            _ => *m.authority = nk,
        }
    });
    let mut ex = want.clone();
    match which {
        0 => ex[..32].copy_from_slice(&nk.to_bytes()),
        1 => ex[32..64].copy_from_slice(&nk.to_bytes()),
        2 => ex[64] = nb,
        _ => ex[65..].copy_from_slice(&nk.to_bytes()),
    }
    c.check(got.is_ok() && buf == ex, P, || format!("changing field {which} of proxy data in place changed something else"));
    let got = c.run("mutable type", PR, || <ProxyMut as ExtensionDataMut>::TYPE);
    c.check(got == Ok(ExtensionType::Proxy), P, || "the mutable proxy view has another type".into());
    c.label(P, || format!("proxy authority {} change {which}", a.is_some()));
    truncate(c, "proxy", &want, |b| view(&Proxy::from_bytes(b)), |x| *x == e);
}

#[derive(Clone, Debug, PartialEq)]
enum V {
    T(String),
    N(u64),
    B(bool),
}

fn properties(c: &mut Case) {
    let n = count(&mut c.rng, 60);
    let mut v: Vec<(String, V)> = (0..n)
        .map(|_| {
            let x = match c.rng.below(3) {
                0 => V::T(string(&mut c.rng)),
                1 => V::N(num(&mut c.rng)),
                _ => V::B(c.rng.pct(50)),
            };
            (name(&mut c.rng), x)
        })
        .collect();
    blur(&mut c.rng, &mut v);
    c.log(|| format!("properties {v:?}").chars().take(2000).collect::<String>());
    let mut want = vec![];
    for (k, x) in &v {
        pstr(&mut want, k);
        match x {
            V::T(s) => {
                want.push(0);
                pstr(&mut want, s);
            }
            V::N(x) => {
                want.push(1);
                want.extend(x.to_le_bytes());
            }
            V::B(b) => want.extend([2, *b as u8]),
        }
    }
    let mut g = c.rng.clone();
    c.rng.u64();
    let got = c.run("properties", PR, || {
        let (mut b, _) = start(&mut g, PropertiesBuilder::with_capacity, PropertiesBuilder::with_buffer);
        for (k, x) in &v {
            #[allow(deprecated)]
            match (x, g.below(3)) {
                (V::T(s), 0) => b.add_text(k, s),
                (V::T(s), 1) => b.add(k, s.clone()),
                (V::T(s), _) => b.add(k, s.as_str()),
                (V::N(x), 0) => b.add_number(k, *x),
                (V::N(x), _) => b.add(k, *x),
                (V::B(x), 0) => b.add_boolean(k, *x),
                (V::B(x), _) => b.add(k, *x),
            };
        }
        let bytes = b.to_vec();
        let (names, l) = {
            let w = b.build();
            let n: Vec<(String, Type, usize)> = w.iter().map(|p| (p.name.to_string(), p.value.value_type(), p.size())).collect();
            let l = w.length();
            (n, l)
        };
        (bytes, names, l, b.data())
    });
    let (bytes, names, l, data) = ok!(c, got, "properties");
    c.check(bytes == want && data == want && l == want.len(), P, || format!("properties are laid out differently ({l} / {} / {} bytes)", bytes.len(), want.len()));
    let e: Vec<(String, Type, usize)> = v
        .iter()
        .map(|(k, x)| match x {
            V::T(s) => (k.clone(), Type::Text, k.len() + 3 + s.len()),
            V::N(_) => (k.clone(), Type::Number, k.len() + 10),
            V::B(_) => (k.clone(), Type::Boolean, k.len() + 3),
        })
        .collect();
    c.check(names == e, P, || format!("properties read back as {names:?}"));
    c.label(P, || format!("properties {}", bucket(n)));
    // any position in memory
    let lead = c.rng.below(9);
    let buf = Aligned::at(&want, lead);
    let mut mbuf = Aligned::at(&want, lead);
    let probes = probes(&mut c.rng, v.iter().map(|x| x.0.clone()).collect());
    for p in probes {
        let same: Vec<&V> = v.iter().filter(|x| x.0 == p).map(|x| &x.1).collect();
        let kind = |x: &V| match x {
            V::T(_) => 0,
            V::N(_) => 1,
            V::B(_) => 2,
        };
        let got = c.run("look up property", PR, || {
            let w = Properties::from_bytes(buf.get());
            (w.get::<Text>(&p).map(|x| x.to_string()), w.get::<Number>(&p).map(|x| (**x, *x.value)), w.get::<Boolean>(&p).map(|x| (**x, *x.value)))
        });
        let gotm = c.run("look up property", PR, || {
            let w = PropertiesMut::from_bytes_mut(mbuf.get_mut());
            (w.get::<Text>(&p).map(|x| x.to_string()), w.get::<Number>(&p).map(|x| (**x, *x.value)), w.get::<Boolean>(&p).map(|x| (**x, *x.value)))
        });
        for (got, view) in [(got, "view"), (gotm, "mutable view")] {
            let (t, n, b) = ok!(c, got, "look-up");
            let res = [t.map(V::T), n.map(|x| { assert_eq!(x.0.to_le_bytes(), x.1); V::N(x.0) }), b.map(|x| V::B(x.0))];
            for (k, r) in res.iter().enumerate() {
                // the first property of that name, when it has the type asked for
                let first = same.iter().find(|x| kind(x) == k).map(|x| (*x).clone());
                let ok = if same.first().map_or(true, |x| kind(x) == k) || first.is_none() { *r == first } else { r.is_none() || *r == first };
                c.check(ok, P, || format!("property {p:?} of type {k} is found through the {view} as {r:?}, stored: {same:?}"));
                c.label(P, || format!("property look-up type {k} among {:?}", same.iter().take(3).map(|x| kind(x)).collect::<Vec<_>>()));
            }
        }
    }
    let p = if v.is_empty() { "a".to_string() } else { c.rng.pick(&v).0.clone() };
    let p = if c.rng.pct(20) { near(&mut c.rng, &p) } else { p };
    let got = c.run("remove property", PR, || {
        let mut w = PropertiesMut::from_bytes_mut(mbuf.get_mut());
        w.remove(&p);
        w.iter().map(|p| p.name.to_string()).collect::<Vec<_>>()
    });
    let e: Vec<String> = v.iter().map(|x| x.0.clone()).filter(|x| *x != p).collect();
    c.check(got.as_ref() == Ok(&e), P, || format!("removing property {p:?} leaves {got:?}"));
    let read = |b: &[u8]| -> Vec<(String, Type)> { Properties::from_bytes(b).iter().map(|p| (p.name.to_string(), p.value.value_type())).collect() };
    let all: Vec<(String, Type)> = names.iter().map(|x| (x.0.clone(), x.1)).collect();
    truncate(c, "properties", &want, read, |x| all.starts_with(x));
}
