//! Monitor for embedded interface descriptions (P27): descriptions are compressed by the real
//! code, placed in synthesised program binaries and extracted by the real code; binaries are
//! damaged, and what comes back is compared with an independent reader.
use runner::rng::Rng;
use runner::Case;
use serde_json::{json, Map, Value};
use solana_include_idl::parse::{parse_idl_from_program_binary, IdlType};
use std::io::Write;
use std::path::PathBuf;
use std::str::FromStr;
use std::sync::OnceLock;

const P: &str = "P27";
const TYPES: [&str; 2] = ["anchor", "codama"];

fn scratch() -> &'static PathBuf {
    static S: OnceLock<PathBuf> = OnceLock::new();
    S.get_or_init(|| {
        let base = PathBuf::from(runner::arg("--scratch").unwrap_or_else(|| "/tmp".into()));
        let d = base.join("idlmon");
        std::fs::create_dir_all(&d).expect("scratch directory");
        d
    })
}

/// The asset program's published description.
fn published() -> &'static (String, Value) {
    static S: OnceLock<(String, Value)> = OnceLock::new();
    S.get_or_init(|| {
        let p = concat!(env!("CARGO_MANIFEST_DIR"), "/../../../repo/idls/asset-program.codama.json");
        let t = std::fs::read_to_string(p).expect("published description");
        let v = serde_json::from_str(&t).expect("published description is JSON");
        (t, v)
    })
}

fn text(r: &mut Rng) -> String {
    let n = [0, 1, 5, 12, 40, 300][r.weighted(&[2, 4, 10, 10, 4, 1])];
    (0..n)
        .map(|_| match r.below(40) {
            0 => '"',
            1 => '\\',
            2 => '\n',
            3 => '\u{0}',
            4 => 'é',
            5 => '語',
            6 => '🦀',
            7 => '/',
            8 => '\u{7f}',
            n => (b'a' + (n % 26) as u8) as char,
        })
        .collect()
}

fn value(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 6 } else { 10 }) {
        0 => Value::Null,
        1 => Value::Bool(r.pct(50)),
        2 => json!(r.u64()),
        3 => json!(-(r.below(1 << 40) as i64)),
        4 => json!(r.below(1000) as f64 / 8.0 + 0.125),
        5 => Value::String(text(r)),
        6 | 7 => Value::Array((0..r.below(6)).map(|_| value(r, depth - 1)).collect()),
        _ => {
            let mut m = Map::new();
            for _ in 0..r.below(6) {
                m.insert(text(r), value(r, depth - 1));
            }
            Value::Object(m)
        }
    }
}

/// A description, as its file contents and its value.
fn description(r: &mut Rng) -> (String, Value, &'static str) {
    match r.weighted(&[1, 10, 4, 4, 2]) {
        0 => (published().0.clone(), published().1.clone(), "published"),
        1 => {
            let v = value(r, 5);
            let v = json!({"name": text(r), "instructions": v, "version": "0.1.0"});
            (v.to_string(), v, "generated")
        }
        2 => {
            let v = value(r, 7);
            (serde_json::to_string_pretty(&v).unwrap(), v, "pretty")
        }
        3 => {
            // incompressible and long
            let n = 1 << r.range(4, 15);
            let s: String = r.bytes(n).iter().map(|b| format!("{b:02x}")).collect();
            let v = json!({ "blob": s, "n": n });
            (format!(" \n\t{v}\r\n "), v, "long")
        }
        _ => {
            let mut v = value(r, 2);
            for _ in 0..r.range(1, 90) {
                v = if r.pct(50) { json!([v]) } else { json!({ "k": v }) };
            }
            (v.to_string(), v, "deep")
        }
    }
}

struct Binary {
    bytes: Vec<u8>,
    /// places worth damaging: records, contents, section headers, file header
    spots: Vec<(usize, usize, &'static str)>,
}

/// A program binary holding `parts` = (section name, contents the section points to).
fn binary(r: &mut Rng, parts: &[(&str, &[u8])]) -> Binary {
    let mut b = vec![0u8; 64];
    let mut spots = vec![(0, 64, "file header")];
    let mut secs: Vec<(String, u32, usize, usize)> = vec![];
    let pad = |b: &mut Vec<u8>, r: &mut Rng| {
        let n = r.below(40);
        let mut x = r.bytes(n);
        b.append(&mut x);
        if r.pct(70) {
            while b.len() % 8 != 0 {
                b.push(0);
            }
        }
    };
    let mut left: Vec<usize> = (0..parts.len()).collect();
    let mut placed: Vec<Option<usize>> = vec![None; parts.len()];
    let mut pending: Vec<(usize, usize)> = vec![]; // record offset, part
    // contents and records in any order, other sections in between
    let mut todo: Vec<(u8, usize)> = left.drain(..).flat_map(|i| [(0u8, i), (1u8, i)]).collect();
    for i in 0..r.below(4) {
        todo.push((2, i));
    }
    while !todo.is_empty() {
        let (k, i) = todo.remove(r.below(todo.len()));
        pad(&mut b, r);
        match k {
            0 => {
                placed[i] = Some(b.len());
                spots.push((b.len(), parts[i].1.len(), "contents"));
                b.extend_from_slice(parts[i].1);
            }
            1 => {
                pending.push((b.len(), i));
                spots.push((b.len(), 16, "record"));
                secs.push((parts[i].0.to_string(), 1, b.len(), 16));
                b.extend_from_slice(&[0; 16]);
            }
            _ => {
                let names = [".text", ".rodata", ".data.rel.ro", ".idl", ".idl.types", ".idl.data2", "idl.data", ".comment", ""];
                let n = r.below(200);
                secs.push((names[r.below(names.len())].to_string(), 1, b.len(), n));
                let mut x = r.bytes(n);
                b.append(&mut x);
            }
        }
    }
    for (at, i) in pending {
        b[at + 4..at + 8].copy_from_slice(&(placed[i].unwrap() as u32).to_le_bytes());
        b[at + 8..at + 16].copy_from_slice(&(parts[i].1.len() as u64).to_le_bytes());
    }
    // names
    pad(&mut b, r);
    let stroff = b.len();
    let mut strs = vec![0u8];
    let shstr = secs.len();
    secs.push((".shstrtab".into(), 3, stroff, 0));
    // section order is free
    let mut order: Vec<usize> = (0..secs.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i + 1));
    }
    let mut names = vec![0u32; secs.len()];
    for &i in &order {
        names[i] = strs.len() as u32;
        strs.extend_from_slice(secs[i].0.as_bytes());
        strs.push(0);
    }
    secs[shstr].3 = strs.len();
    spots.push((b.len(), strs.len(), "names"));
    b.append(&mut strs);
    while b.len() % 8 != 0 {
        b.push(0);
    }
    let shoff = b.len();
    b.extend_from_slice(&[0; 64]);
    let mut idx = 0;
    for (n, &i) in order.iter().enumerate() {
        if i == shstr {
            idx = n + 1;
        }
        let s = &secs[i];
        let mut h = [0u8; 64];
        h[0..4].copy_from_slice(&names[i].to_le_bytes());
        h[4..8].copy_from_slice(&s.1.to_le_bytes());
        h[24..32].copy_from_slice(&(s.2 as u64).to_le_bytes());
        h[32..40].copy_from_slice(&(s.3 as u64).to_le_bytes());
        h[48] = 1;
        spots.push((b.len(), 64, "section header"));
        b.extend_from_slice(&h);
    }
    if r.pct(50) {
        let n = r.below(64);
        let mut x = r.bytes(n);
        b.append(&mut x);
    }
    b[0..4].copy_from_slice(b"\x7fELF");
    b[4] = 2;
    b[5] = 1;
    b[6] = 1;
    b[16..18].copy_from_slice(&3u16.to_le_bytes());
    b[18..20].copy_from_slice(&(*r.pick(&[247u16, 263, 62])).to_le_bytes());
    b[20..24].copy_from_slice(&1u32.to_le_bytes());
    b[40..48].copy_from_slice(&(shoff as u64).to_le_bytes());
    b[52..54].copy_from_slice(&64u16.to_le_bytes());
    b[54..56].copy_from_slice(&56u16.to_le_bytes());
    b[58..60].copy_from_slice(&64u16.to_le_bytes());
    b[60..62].copy_from_slice(&((secs.len() + 1) as u16).to_le_bytes());
    b[62..64].copy_from_slice(&(idx as u16).to_le_bytes());
    Binary { bytes: b, spots }
}

fn inflate(z: &[u8]) -> Option<Vec<u8>> {
    // the stream may be followed by other bytes; it must be complete
    let mut d = flate2::Decompress::new(true);
    let mut out = Vec::with_capacity(z.len() * 4 + 64);
    loop {
        let at = d.total_in() as usize;
        let before = (d.total_in(), d.total_out());
        let st = d.decompress_vec(z.get(at..)?, &mut out, flate2::FlushDecompress::None).ok()?;
        if st == flate2::Status::StreamEnd {
            return Some(out);
        }
        if out.len() == out.capacity() {
            out.reserve(out.len().max(1024));
        } else if (d.total_in(), d.total_out()) == before {
            return None;
        }
    }
}

/// Independent reader of 64-bit little-endian binaries: every description the sections could mean.
fn reference(b: &[u8]) -> Vec<(String, Value)> {
    let get = |o: u64, n: u64| -> Option<&[u8]> { b.get(usize::try_from(o).ok()?..)?.get(..usize::try_from(n).ok()?) };
    let u = |o: u64, n: u64| -> Option<u64> {
        let mut x = [0u8; 8];
        x[..n as usize].copy_from_slice(get(o, n)?);
        Some(u64::from_le_bytes(x))
    };
    let mut types = vec![];
    let mut datas = vec![];
    let mut walk = || -> Option<()> {
        let (shoff, n, strx) = (u(40, 8)?, u(60, 2)?, u(62, 2)?);
        // extended numbering: counts kept in the first section header
        let n = if n == 0 { u(shoff.checked_add(32)?, 8)?.min(10_000) } else { n };
        let strx = if strx == 0xffff { u(shoff.checked_add(40)?, 4)? } else { strx };
        let sh = |i: u64| shoff.checked_add(i.checked_mul(64)?);
        let stroff = u(sh(strx)?.checked_add(24)?, 8)?;
        for i in 0..n {
            let Some(h) = sh(i) else { break };
            let Some(name) = u(h, 4) else { break };
            let Some(rest) = stroff.checked_add(name).and_then(|o| b.get(usize::try_from(o).ok()?..)) else { continue };
            let name = rest.split(|c| *c == 0).next().unwrap_or(&[]);
            let rec = || {
                let o = u(h.checked_add(24)?, 8)?;
                get(u(o.checked_add(4)?, 4)?, u(o.checked_add(8)?, 8)?)
            };
            match name {
                b".idl.type" => {
                    if let Some(t) = rec().and_then(|t| std::str::from_utf8(t).ok()) {
                        types.push(t.to_lowercase());
                    }
                }
                b".idl.data" => {
                    if let Some(v) = rec().and_then(inflate).and_then(|j| serde_json::from_slice(&j).ok()) {
                        datas.push(v);
                    }
                }
                _ => {}
            }
        }
        Some(())
    };
    walk();
    types.retain(|t| TYPES.contains(&t.as_str()));
    let mut out = vec![];
    for t in &types {
        for d in &datas {
            out.push((t.clone(), Value::clone(d)));
        }
    }
    out
}

fn parse(c: &mut Case, b: &[u8], what: &str) -> Option<Result<(IdlType, Value), String>> {
    match c.run(what, P, || parse_idl_from_program_binary(b).map_err(|e| e.to_string())) {
        Ok(r) => Some(r),
        Err(p) => {
            c.check(false, P, || format!("{what}: extraction panics: {p}"));
            None
        }
    }
}

fn damage(c: &mut Case, bin: &Binary) -> (Vec<u8>, String) {
    let mut b = bin.bytes.clone();
    let r = &mut c.rng;
    let (at, len, kind) = *r.pick(&bin.spots);
    let kind = kind.to_string();
    match r.below(6) {
        0 => {
            let n = if r.pct(50) { at + r.below(len + 1) } else { r.below(b.len()) };
            b.truncate(n);
            return (b, format!("truncated in {kind}"));
        }
        1 if len > 0 => {
            for _ in 0..r.range(1, 4) {
                let i = at + r.below(len);
                if let Some(x) = b.get_mut(i) {
                    *x ^= 1 << r.below(8);
                }
            }
            (b, format!("bits flipped in {kind}"))
        }
        2 if len > 0 => {
            let i = at + r.below(len);
            let n = r.range(1, 8).min(b.len() - i);
            let v = *r.pick(&[0u8, 0xff, 0x7f, 0x80]);
            b[i..i + n].fill(v);
            (b, format!("bytes set in {kind}"))
        }
        3 => {
            // a field of a record or section header given an extreme or nearby value
            let fields: Vec<(usize, usize, &str)> = bin
                .spots
                .iter()
                .flat_map(|(a, _, k)| match *k {
                    "record" => vec![(a + 4, 4, "location"), (a + 8, 8, "size")],
                    "section header" => vec![(a + 24, 8, "offset"), (*a, 4, "name"), (a + 32, 8, "length")],
                    _ => vec![],
                })
                .collect();
            if fields.is_empty() {
                return (b, "untouched".into());
            }
            let (f, w, name) = *r.pick(&fields);
            let mut x = [0u8; 8];
            x[..w].copy_from_slice(&b[f..f + w]);
            let cur = u64::from_le_bytes(x);
            let v = match r.below(8) {
                0 => u64::MAX,
                1 => 1 << 63,
                2 => cur.wrapping_add(1),
                3 => cur.wrapping_sub(1),
                4 => b.len() as u64,
                5 => (b.len() as u64).wrapping_sub(r.below(20) as u64),
                6 => 0,
                _ => cur ^ (1 << r.below(64)),
            };
            b[f..f + w].copy_from_slice(&v.to_le_bytes()[..w]);
            (b, format!("field {name} changed"))
        }
        4 => {
            let i = r.below(b.len());
            let n = r.below(20).min(b.len() - i);
            b.drain(i..i + n);
            (b, "bytes removed".into())
        }
        _ => {
            let i = r.below(b.len());
            let n = r.below(20);
            let x = r.bytes(n);
            b.splice(i..i, x);
            (b, "bytes inserted".into())
        }
    }
}

fn same(got: &(IdlType, Value), t: &str, v: &Value) -> bool {
    got.0.as_str() == t && got.1 == *v
}

fn compress(c: &mut Case, src: &str, how: &str) -> Option<Vec<u8>> {
    let id = format!("{:?}-{}", std::thread::current().id(), c.seed);
    let (a, b) = (scratch().join(format!("{id}.json")), scratch().join(format!("{id}.zip")));
    std::fs::write(&a, src).unwrap();
    if c.rng.pct(30) {
        // left over from an earlier build
        let n = c.rng.below(4000);
        std::fs::write(&b, c.rng.bytes(n)).unwrap();
    }
    let (pa, pb) = (a.clone(), b.clone());
    let r = c.run("compress", P, move || solana_include_idl::compress_idl(&pa, &pb));
    let z = std::fs::read(&b);
    let _ = std::fs::remove_file(&a);
    let _ = std::fs::remove_file(&b);
    if !c.check(r.is_ok(), P, || format!("compressing a {how} description of {} bytes panics", src.len())) {
        return None;
    }
    let Ok(z) = z else {
        c.check(false, P, || format!("compressing a {how} description leaves no file"));
        return None;
    };
    let back = inflate(&z);
    let ok = back.as_deref() == Some(src.as_bytes());
    c.check(ok, P, || format!("compressing a {how} description of {} bytes loses contents ({:?} bytes come back)", src.len(), back.map(|x| x.len())));
    Some(z)
}

fn zlib(b: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(level));
    e.write_all(b).unwrap();
    e.finish().unwrap()
}

/// Round trip and damage.
fn embedded(c: &mut Case) {
    let (src, v, how) = description(&mut c.rng);
    let z = if c.rng.pct(70) {
        match compress(c, &src, how) {
            Some(z) => z,
            None => return,
        }
    } else {
        let l = c.rng.below(10) as u32;
        zlib(src.as_bytes(), l)
    };
    let t = TYPES[c.rng.below(2)];
    let bin = binary(&mut c.rng, &[(".idl.type", t.as_bytes()), (".idl.data", &z)]);
    c.log(|| format!("{how} description of {} bytes ({} compressed), type {t}, binary of {} bytes", src.len(), z.len(), bin.bytes.len()));
    if let Some(r) = parse(c, &bin.bytes, "intact binary") {
        match r {
            Ok(g) => {
                c.check(same(&g, t, &v), P, || format!("a {how} description of type {t} comes back changed (type {})", g.0));
            }
            Err(e) => {
                c.check(false, P, || format!("a {how} description of {} bytes is not found in its binary: {e}", src.len()));
            }
        }
        let n = bin.spots.len();
        c.label(P, || format!("intact {how} {t} size 2^{} spots {n}", 64 - (src.len() as u64).leading_zeros()));
    }
    for _ in 0..if how == "published" { 2 } else { 12 } {
        let (mut b, mut what) = damage(c, &bin);
        if c.rng.pct(20) {
            let (b2, w2) = damage(c, &Binary { bytes: b.clone(), spots: bin.spots.iter().filter(|s| s.0 + s.1.max(24) + 40 <= b.len()).copied().chain([(0, 0, "")]).collect() });
            b = b2;
            what = format!("{what}, {w2}");
        }
        c.log(|| format!("then {what}"));
        if b.len() >= 6 && (b[4] != 2 || b[5] != 1) {
            // another word size or byte order: only crashes are of interest
            parse(c, &b, &what);
            continue;
        }
        let want = reference(&b);
        if let Some(r) = parse(c, &b, &what) {
            if let Ok(g) = &r {
                c.check(want.iter().any(|(t, v)| same(g, t, v)), P, || {
                    format!("a binary with {what} gives a description ({}) that its sections do not hold ({} could be meant)", g.0, want.len())
                });
            } else {
                c.check(true, P, String::new);
            }
            let o = match r {
                Ok(_) => "found",
                Err(_) => "error",
            };
            c.label(P, || format!("{what}: {o}"));
        }
    }
}

/// Binaries whose sections do not hold a description.
fn hollow(c: &mut Case) {
    let (src, v, _) = description(&mut c.rng);
    let z = zlib(src.as_bytes(), 6);
    let t = TYPES[c.rng.below(2)];
    let (what, parts, ok): (&str, Vec<(&str, Vec<u8>)>, bool) = match c.rng.below(13) {
        0 => ("no sections", vec![], false),
        1 => ("only the type", vec![(".idl.type", t.into())], false),
        2 => ("only the data", vec![(".idl.data", z)], false),
        3 => ("empty data", vec![(".idl.type", t.into()), (".idl.data", vec![])], false),
        4 => ("empty type", vec![(".idl.type", vec![]), (".idl.data", z)], false),
        5 => {
            let bad = ["shank", "codam", "codama2", "anchor\0", " anchor", "anchor codama", "kinobi"];
            ("unknown type", vec![(".idl.type", bad[c.rng.below(bad.len())].into()), (".idl.data", z)], false)
        }
        6 => ("type not text", vec![(".idl.type", vec![0xff, 0xfe, b'a']), (".idl.data", z)], false),
        7 => {
            // JSON cut short or followed by more text
            let s = if c.rng.pct(50) { format!("{src} x") } else { format!("[{src}") };
            ("data not JSON", vec![(".idl.type", t.into()), (".idl.data", zlib(s.as_bytes(), 6))], false)
        }
        8 => ("data not compressed", vec![(".idl.type", t.into()), (".idl.data", src.clone().into_bytes())], false),
        9 => {
            let n = c.rng.below(z.len());
            ("compressed data cut short", vec![(".idl.type", t.into()), (".idl.data", z[..n].to_vec())], false)
        }
        10 => {
            let mut y = z.clone();
            let n = y.len();
            y[n - 1 - c.rng.below(4)] ^= 1 << c.rng.below(8);
            ("checksum wrong", vec![(".idl.type", t.into()), (".idl.data", y)], false)
        }
        11 => ("other names", vec![(".idl.Type", t.into()), (".idl.dat", z)], false),
        _ => {
            let mut y = z.clone();
            let n = c.rng.below(20);
            y.extend(c.rng.bytes(n));
            ("compressed data followed by other bytes", vec![(".idl.type", t.into()), (".idl.data", y)], true)
        }
    };
    let refs: Vec<(&str, &[u8])> = parts.iter().map(|(n, b)| (*n, b.as_slice())).collect();
    let bin = binary(&mut c.rng, &refs);
    c.log(|| format!("binary with {what}"));
    if let Some(r) = parse(c, &bin.bytes, what) {
        match &r {
            Ok(g) => c.check(ok && same(g, t, &v), P, || format!("a binary with {what} gives a description ({})", g.0)),
            Err(_) => c.check(true, P, String::new),
        };
        c.label(P, || format!("{what}: {}", if r.is_ok() { "found" } else { "error" }));
    }
    let n = c.rng.below(400);
    let mut junk = c.rng.bytes(n);
    if c.rng.pct(70) && n > 8 {
        junk[..7].copy_from_slice(b"\x7fELF\x02\x01\x01");
        if c.rng.pct(50) {
            junk[8..].iter_mut().for_each(|b| *b &= 0x43);
        }
    }
    if let Some(r) = parse(c, &junk, "random bytes") {
        let w = reference(&junk);
        c.check(r.is_err() || !w.is_empty(), P, || "random bytes give a description".into());
    }
}

/// Names of the types, and the description the asset program carries.
fn names(c: &mut Case) {
    for (t, n) in [(IdlType::Anchor, "anchor"), (IdlType::Codama, "codama")] {
        c.check(t.as_str() == n && t.to_string() == n, P, || format!("type {n} is written as {t}"));
        c.check(IdlType::from_str(n).map(|x| x.as_str()) == Ok(n), P, || format!("type {n} is not recognised"));
    }
    let mut s = TYPES[c.rng.below(2)].to_string();
    let i = c.rng.below(s.len());
    match c.rng.below(3) {
        0 => s.insert(i, 'x'),
        1 => {
            s.remove(i);
        }
        _ => s.push(' '),
    }
    c.check(IdlType::from_str(&s).is_err(), P, || format!("{s:?} is taken for a description type"));
    c.check(asset_program::IDL_TYPE == b"codama".as_slice(), P, || "the asset program names another type for its description".into());
    let want = published();
    let got = inflate(asset_program::IDL_BYTES);
    c.check(got.as_deref() == Some(want.0.as_bytes()), P, || "the asset program does not carry its published description".into());
    let bin = binary(&mut c.rng, &[(".idl.type", asset_program::IDL_TYPE), (".idl.data", asset_program::IDL_BYTES)]);
    if let Some(r) = parse(c, &bin.bytes, "the asset program's description") {
        c.check(r.map_or(false, |g| same(&g, "codama", &want.1)), P, || "the asset program's description does not come back".into());
    }
    c.label(P, || "the asset program's own description".into());
}

fn words(v: &Value, out: &mut Vec<String>) {
    match v {
        Value::String(s) => out.push(s.clone()),
        Value::Array(a) => a.iter().for_each(|v| words(v, out)),
        Value::Object(m) => m.iter().for_each(|(k, v)| {
            out.push(k.clone());
            words(v, out)
        }),
        _ => {}
    }
}

/// The command-line tool.
fn tool(c: &mut Case, exe: &str) {
    let (src, v, how) = description(&mut c.rng);
    let t = TYPES[c.rng.below(2)];
    let z = zlib(src.as_bytes(), 6);
    let bin = binary(&mut c.rng, &[(".idl.type", t.as_bytes()), (".idl.data", &z)]);
    let (b, what) = if c.rng.pct(50) { (bin.bytes.clone(), "intact".to_string()) } else { damage(c, &bin) };
    let f = scratch().join(format!("{:?}-{}.so", std::thread::current().id(), c.seed));
    std::fs::write(&f, &b).unwrap();
    let out = std::process::Command::new(exe).arg("parse").arg(&f).output().expect("tool");
    let _ = std::fs::remove_file(&f);
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    c.log(|| format!("tool on a {how} description, {what}"));
    use std::os::unix::process::ExitStatusExt;
    c.check(out.status.signal().is_none() && out.status.code() != Some(101), P, || format!("the tool crashes on a binary that is {what}"));
    let mut w = vec![];
    words(&v, &mut w);
    w.retain(|s| !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric()));
    let shown = text.contains(t) && w.iter().all(|s| text.contains(s.as_str()));
    if what == "intact" {
        c.check(shown, P, || format!("the tool does not print the {how} description of type {t}"));
    } else if b.get(4..6) == Some(&[2, 1]) && reference(&b).is_empty() {
        c.check(w.len() < 4 || !shown, P, || format!("the tool prints a description of a binary that is {what} and has none"));
    }
    c.label(P, || format!("tool {what} shown {shown}"));
}

fn case(c: &mut Case) {
    if let Some(exe) = runner::arg("--tool") {
        return tool(c, &exe);
    }
    match c.rng.below(20) {
        0 if c.rng.pct(20) => names(c),
        0..=13 => embedded(c),
        _ => hollow(c),
    }
}

fn main() {
    runner::main(
        "idlmon",
        "Each evaluation is one description compressed by the real code and inflated independently, or one (intact or damaged) synthesised program binary given to the real extractor and compared with an independent reader. Distinct cases are counted by kind and size of the description, layout, kind of damage and outcome.",
        &["binaries are synthesised 64-bit little-endian ELF files, because no SBF linker is installed"],
        case,
    );
}
