use crate::exts::pstr;
use crate::{bucket, Aligned};
use nifty_asset_types::extensions::*;
use nifty_asset_types::podded::ZeroCopy;
use nifty_asset_types::state::*;
use runner::rng::Rng;
use runner::Case;

const P: &str = "P11";
const PR: &str = "P11 P21";

fn short(r: &mut Rng) -> String {
    (0..r.below(14)).map(|_| (b'a' + r.below(26) as u8) as char).collect()
}

/// well-formed data of a type
fn sample(t: u32, r: &mut Rng) -> Vec<u8> {
    let mut o = vec![];
    match t {
        1 | 4 => {
            for _ in 0..2 * r.below(5) {
                pstr(&mut o, &short(r));
            }
        }
        2 => {
            pstr(&mut o, &short(r));
            let n = r.below(90);
            o.extend(r.bytes(n));
        }
        3 => {
            for _ in 0..r.below(6) {
                o.extend(r.key());
                o.extend([r.below(2) as u8, r.u64() as u8]);
            }
        }
        5 => {
            for _ in 0..r.range(3, 4) {
                pstr(&mut o, &short(r));
            }
        }
        6 => {
            let n = if r.pct(80) { 48 } else { 16 };
            o = r.bytes(n);
        }
        7 => {
            o = r.bytes(8);
            o.extend(crate::constraints::encode(&crate::constraints::gen(r, &[Default::default()], 2)));
        }
        8 => {
            o = r.bytes(32);
            o.push(r.below(8) as u8);
        }
        9 => o = r.bytes(97),
        10 => {
            for _ in 0..r.below(5) {
                pstr(&mut o, &short(r));
                match r.below(3) {
                    0 => {
                        o.push(0);
                        pstr(&mut o, &short(r));
                    }
                    1 => {
                        o.push(1);
                        o.extend(r.bytes(8));
                    }
                    _ => o.extend([2, r.below(2) as u8]),
                }
            }
        }
        _ => {
            let n = r.below(60);
            o = r.bytes(n);
        }
    }
    o
}

trait Digest {
    fn digest(&self) -> String;
}
macro_rules! digest {
    ($t:ident, $s:ident => $e:expr) => {
        impl Digest for $t<'_> {
            fn digest(&self) -> String {
                let $s = self;
                format!("{:?}", $e)
            }
        }
    };
}
digest!(Attributes, s => s.iter().map(|t| (t.name.as_bytes().to_vec(), t.value.as_bytes().to_vec())).collect::<Vec<_>>());
digest!(Links, s => s.iter().map(|t| (t.name.as_bytes().to_vec(), t.uri.as_bytes().to_vec())).collect::<Vec<_>>());
digest!(Blob, s => (s.content_type.as_bytes(), s.data));
digest!(Bucket, s => s.data);
digest!(Creators, s => s.values);
digest!(Metadata, s => (s.symbol.as_bytes(), s.description.as_bytes(), s.uri.as_bytes(), s.image_uri.as_bytes()));
digest!(Grouping, s => (s.size, s.max_size.value().map(|x| **x), s.delegate.value().map(|x| **x)));
digest!(Royalties, s => (s.basis_points, s.constraint.as_bytes()));
digest!(Manager, s => (*s.delegate.address, s.delegate.roles));
digest!(Proxy, s => (s.program, s.seeds, s.bump, s.authority.value().map(|x| **x)));
digest!(Properties, s => s.iter().map(|t| (t.name.as_bytes().to_vec(), t.value.value_type(), t.size())).collect::<Vec<_>>());

trait Poke {
    /// changes something through the mutable view
    fn poke(&mut self, x: u8);
}
impl Poke for AttributesMut<'_> {
    fn poke(&mut self, _: u8) {}
}
impl Poke for LinksMut<'_> {
    fn poke(&mut self, x: u8) {
        if let Some(l) = self.values.last_mut() {
            l.uri.copy_from_slice(&[b'a' + x % 26; 3]);
        }
    }
}
impl Poke for BlobMut<'_> {
    fn poke(&mut self, x: u8) {
        self.data.iter_mut().for_each(|b| *b ^= x);
    }
}
impl Poke for BucketMut<'_> {
    fn poke(&mut self, x: u8) {
        self.data.iter_mut().for_each(|b| *b ^= x);
    }
}
impl Poke for CreatorsMut<'_> {
    fn poke(&mut self, x: u8) {
        self.creators.iter_mut().for_each(|b| b.share ^= x);
    }
}
impl Poke for MetadataMut<'_> {
    fn poke(&mut self, x: u8) {
        self.uri.copy_from_slice(&[b'a' + x % 26; 3]);
    }
}
impl Poke for GroupingMut<'_> {
    fn poke(&mut self, x: u8) {
        *self.size ^= x as u64;
        self.delegate.value_mut().map(|v| **v = [x; 32].into());
    }
}
impl Poke for RoyaltiesMut<'_> {
    fn poke(&mut self, x: u8) {
        *self.basis_points ^= (x as u64) << 17;
    }
}
impl Poke for ManagerMut<'_> {
    fn poke(&mut self, x: u8) {
        self.delegate.roles ^= x;
    }
}
impl Poke for ProxyMut<'_> {
    fn poke(&mut self, x: u8) {
        *self.bump ^= x;
        *self.authority = [x; 32].into();
    }
}
impl Poke for PropertiesMut<'_> {
    fn poke(&mut self, _: u8) {}
}

macro_rules! each {
    ($t:expr, $m:ident) => {
        match $t {
            1 => $m!(Attributes, AttributesMut),
            2 => $m!(Blob, BlobMut),
            3 => $m!(Creators, CreatorsMut),
            4 => $m!(Links, LinksMut),
            5 => $m!(Metadata, MetadataMut),
            6 => $m!(Grouping, GroupingMut),
            7 => $m!(Royalties, RoyaltiesMut),
            8 => $m!(Manager, ManagerMut),
            9 => $m!(Proxy, ProxyMut),
            10 => $m!(Properties, PropertiesMut),
            _ => $m!(Bucket, BucketMut),
        }
    };
}

pub fn case(c: &mut Case) {
    let mut types: Vec<u32> = (1..=11).collect();
    for i in (1..types.len()).rev() {
        let j = c.rng.below(i + 1);
        types.swap(i, j);
    }
    let n = match c.rng.below(6) {
        0 => 0,
        1 if !cfg!(miri) => 11,
        _ => c.rng.range(1, 5),
    };
    types.truncate(n);
    let foreign = c.rng.pct(20);
    if foreign {
        for _ in 0..c.rng.range(1, 2) {
            let i = c.rng.below(types.len() + 1);
            let v = if c.rng.pct(50) { 12 } else { 12 + (c.rng.u64() as u32 >> c.rng.below(20)).min(u32::MAX - 12) };
            types.insert(i, v);
        }
    }
    let mut acc = c.rng.bytes(Asset::LEN);
    acc[0] = 1;
    acc[1] = 0;
    acc[2] = c.rng.below(4) as u8;
    acc[3] = 1;
    // now and then more data than 15 or 16 bits can count
    let big = !cfg!(miri) && c.rng.pct(3);
    // type, start of data, end of data
    let mut exts: Vec<(u32, usize, usize)> = vec![];
    for (i, t) in types.iter().enumerate() {
        let mut d = sample(*t, &mut c.rng);
        if big {
            let n = *c.rng.pick(&[8_000usize, 30_000, 40_000, 66_000, 140_000]);
            match t {
                1 | 4 => (0..n / 500).for_each(|_| {
                    pstr(&mut d, &"n".repeat(c.rng.range(200, 255)));
                    pstr(&mut d, &"v".repeat(c.rng.range(200, 255)));
                }),
                2 | 11 => {
                    let n = n + c.rng.below(64);
                    d.extend(c.rng.bytes(n))
                }
                3 => (0..n / 34).for_each(|_| {
                    d.extend(c.rng.key());
                    d.extend([0, 1]);
                }),
                10 => (0..n / 264).for_each(|_| {
                    pstr(&mut d, &"p".repeat(255));
                    d.push(1);
                    d.extend(c.rng.bytes(8));
                }),
                _ => {}
            }
        }
        let start = acc.len() + 16;
        let end = start + d.len();
        let bound = (end + 7) / 8 * 8;
        for x in [*t, d.len() as u32, bound as u32, 0] {
            acc.extend(x.to_le_bytes());
        }
        acc.extend(d);
        if i + 1 < types.len() || c.rng.pct(80) {
            acc.resize(bound, 0);
        }
        exts.push((*t, start, end));
    }
    let slack = if acc.len() % 8 == 0 && c.rng.pct(40) { 8 * c.rng.range(1, 8) } else { 0 };
    acc.resize(acc.len() + slack, 0);
    c.log(|| format!("account of {} bytes, extensions {:?}, {slack} unused bytes", acc.len(), exts));
    let buf = Aligned::new(&acc);
    let a = buf.get();
    let base = a.as_ptr() as usize;

    let known: Vec<ExtensionType> = types.iter().filter_map(|t| ExtensionType::try_from(*t).ok()).collect();
    let got = c.run("list extensions", PR, || Asset::get_extensions(a));
    c.check(got.as_ref() == Ok(&known), P, || format!("the extensions are listed as {got:?}"));
    if big {
        c.label(P, || format!("account of more than {} bytes", 1usize << (acc.len() | 1).ilog2()));
    }
    c.label(P, || format!("list {}{}{}", bucket(types.len()), if foreign { " with unknown types" } else { "" }, if slack > 0 { " and unused space" } else { "" }));

    let at = |e: &Extension, off: usize| (e.try_extension_type().ok().map(u32::from), e as *const _ as usize - base + 16, off, e.length() as usize, e.boundary() as usize);
    let exp = |x: &(u32, usize, usize)| (Some(x.0), x.1, x.1, x.2 - x.1, (x.2 + 7) / 8 * 8);
    let got = c.run("first extension", PR, || Asset::first_extension(a).map(|(e, o)| at(e, o)));
    let e = exts.first().filter(|x| x.0 < 12).map(exp);
    if !foreign {
        c.check(got == Ok(e), P, || format!("the first extension is found as {got:?} instead of {e:?}"));
        let got = c.run("last extension", PR, || Asset::last_extension(a).map(|(e, o)| at(e, o)));
        let e = exts.last().map(exp);
        c.check(got == Ok(e), P, || format!("the last extension is found as {got:?} instead of {e:?}"));
        c.label(P, || format!("first and last of {}", bucket(types.len())));
    }
    let header = c.run("load", PR, || { let h = Asset::load(a); (u8::from(h.standard), h.owner.to_bytes(), h.authority.to_bytes(), bool::from(h.mutable)) });
    c.check(header == Ok((acc[2], acc[4..36].try_into().unwrap(), acc[68..100].try_into().unwrap(), true)), "P11 P20", || format!("the base data is read as {header:?}"));

    let few = c.rng.u64();
    for t in 1..=11u32 {
        if cfg!(miri) && few >> t & 3 != 0 {
            continue;
        }
        let ty = ExtensionType::try_from(t).unwrap();
        let e = exts.iter().find(|x| x.0 == t).copied();
        let got = c.run("contains", PR, || Asset::contains(ty, a));
        c.check(got == Ok(e.is_some()), P, || format!("presence of {ty:?} is reported as {got:?}"));
        let got = c.run("get extension", PR, || Asset::get_extension(ty, a).map(|(e, o)| at(e, o)));
        let ex = e.as_ref().map(exp);
        c.check(got == Ok(ex), P, || format!("{ty:?} is found as {got:?} instead of {ex:?}"));
        let pos = exts.iter().position(|x| x.0 == t);
        c.label(P, || format!("look up {ty:?} at {:?} of {}", pos.map(|p| bucket(p)), bucket(types.len())));
        let x = c.rng.u64() as u8 | 1;
        macro_rules! typed {
            ($v:ident, $m:ident) => {{
                let alone = e.map(|e| Aligned::new(&acc[e.1..e.2]));
                let want = match alone.as_ref().map(|b| c.run("view", PR, || $v::from_bytes(b.get()).digest())).transpose() {
                    Ok(x) => x,
                    Err(m) => {
                        c.check(false, "P11 P20", || format!("the view of {ty:?} panicked on valid data: {m}"));
                        None
                    }
                };
                let got = c.run("get", PR, || Asset::get::<$v>(a).map(|v| v.digest()));
                c.check(got.as_ref() == Ok(&want), P, || format!("{ty:?} is read from the account as {got:?} instead of {want:?}"));
                let got = c.run("get", PR, || Extension::get::<$v>(&a[Asset::LEN..]).map(|v| v.digest()));
                c.check(got.as_ref() == Ok(&want), P, || format!("{ty:?} is read from the extension area as {got:?} instead of {want:?}"));
                // in place
                let mut ex = acc.clone();
                if let Some(e) = e {
                    let mut one = Aligned::new(&acc[e.1..e.2]);
                    let r = c.run("modify", PR, || $m::from_bytes_mut(one.get_mut()).poke(x));
                    c.check(r.is_ok(), "P11 P20", || format!("the mutable view of {ty:?} panicked on valid data"));
                    ex[e.1..e.2].copy_from_slice(one.get());
                }
                let mut whole = Aligned::new(&acc);
                let r = c.run("get for modification", PR, || Asset::get_mut::<$m>(whole.get_mut()).map(|mut v| v.poke(x)).is_some());
                c.check(r == Ok(e.is_some()) && whole.get() == ex, P, || format!("changing {ty:?} in place in the account changed something else or was not found ({r:?})"));
                let mut whole = Aligned::new(&acc);
                let r = c.run("get for modification", PR, || Extension::get_mut::<$m>(&mut whole.get_mut()[Asset::LEN..]).map(|mut v| v.poke(x)).is_some());
                c.check(r == Ok(e.is_some()) && whole.get() == ex, P, || format!("changing {ty:?} in place in the extension area changed something else or was not found ({r:?})"));
            }};
        }
        each!(t, typed);
    }
    // hostile account data: anything but undefined behaviour
    let mut bad = acc.clone();
    for _ in 0..c.rng.range(1, 4) {
        if bad.len() > Asset::LEN + 16 {
            let i = if c.rng.pct(50) && !exts.is_empty() { c.rng.pick(&exts).1 - 16 + c.rng.below(12) } else { c.rng.range(Asset::LEN, bad.len() - 1) };
            if i < bad.len() {
                bad[i] = if c.rng.pct(50) { c.rng.below(16) as u8 } else { c.rng.u64() as u8 };
            }
        }
    }
    let k = c.rng.below(bad.len() + 1);
    if c.rng.pct(40) {
        bad.truncate(k);
    }
    // (a chain that leads back to itself cannot be stored by the program; it is not fed to the look-ups)
    let mut cur = Asset::LEN;
    while cur + 16 <= bad.len() {
        let b = u32::from_le_bytes(bad[cur + 8..cur + 12].try_into().unwrap()) as usize;
        if b <= cur {
            return;
        }
        cur = b;
    }
    let b = Aligned::new(&bad);
    let t = c.rng.range(1, 11) as u32;
    macro_rules! hostile {
        ($v:ident, $m:ident) => {{
            let _ = c.run("hostile look-up", "P21", || Asset::get::<$v>(b.get()).map(|v| v.digest()));
            let mut w = Aligned::new(&bad);
            let _ = c.run("hostile look-up", "P21", || Asset::get_mut::<$m>(w.get_mut()).map(|mut v| v.poke(3)));
        }};
    }
    each!(t, hostile);
    let r = c.run("hostile list", "P21", || (Asset::get_extensions(b.get()).len(), Asset::first_extension(b.get()).is_some(), Asset::last_extension(b.get()).is_some()));
    c.evals += 1;
    c.label("P21", || format!("hostile account {}", if r.is_ok() { "read" } else { "refused" }));
}
