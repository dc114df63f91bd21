//! Recorded transactions: one per distinct situation seen natively, with the accounts as they were
//! before, to be replayed one by one under an undefined-behaviour interpreter.
use crate::svm::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::sync::{Mutex, OnceLock};

struct Out {
    seen: BTreeSet<String>,
    file: std::io::BufWriter<std::fs::File>,
    n: usize,
}
static OUT: OnceLock<Mutex<Out>> = OnceLock::new();

pub fn open(path: &str) {
    let file = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    let _ = OUT.set(Mutex::new(Out { seen: BTreeSet::new(), file, n: 0 }));
}

/// The accounts of a transaction before it runs (only when recording).
pub fn before(svm: &Svm, ixs: &[Ix]) -> Option<BTreeMap<Key, Acct>> {
    OUT.get()?;
    Some(ixs.iter().flat_map(|i| i.metas.iter()).filter_map(|m| svm.db.get(&m.key).map(|a| (m.key, a.clone()))).collect())
}

fn num(o: &mut Vec<u8>, n: u64) {
    o.extend(n.to_le_bytes());
}

pub fn put(label: &str, pre: Option<BTreeMap<Key, Acct>>, ixs: &[Ix], ts: i64) {
    let (out, pre) = match (OUT.get(), pre) {
        (Some(o), Some(p)) => (o, p),
        _ => return,
    };
    if pre.values().map(|a| a.data.len()).sum::<usize>() + ixs.iter().map(|i| i.data.len()).sum::<usize>() > 12_000 {
        return;
    }
    let mut out = out.lock().unwrap();
    if out.seen.contains(label) {
        return;
    }
    out.seen.insert(label.to_string());
    let mut o = vec![];
    num(&mut o, ts as u64);
    num(&mut o, label.len() as u64);
    o.extend(label.as_bytes());
    num(&mut o, pre.len() as u64);
    for (k, a) in &pre {
        o.extend(k);
        o.extend(a.owner);
        num(&mut o, a.lamports);
        num(&mut o, a.executable as u64);
        num(&mut o, a.data.len() as u64);
        o.extend(&a.data);
    }
    num(&mut o, ixs.len() as u64);
    for i in ixs {
        o.extend(i.program);
        num(&mut o, i.metas.len() as u64);
        for m in &i.metas {
            o.extend(m.key);
            o.push(m.signer as u8);
            o.push(m.writable as u8);
        }
        num(&mut o, i.data.len() as u64);
        o.extend(&i.data);
    }
    let _ = out.file.write_all(&(o.len() as u64).to_le_bytes());
    let _ = out.file.write_all(&o);
    out.n += 1;
}

pub fn close() -> usize {
    match OUT.get() {
        Some(o) => {
            let mut o = o.lock().unwrap();
            let _ = o.file.flush();
            o.n
        }
        None => 0,
    }
}

struct In<'a>(&'a [u8]);
impl<'a> In<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn num(&mut self) -> u64 {
        u64::from_le_bytes(self.take(8).try_into().unwrap())
    }
    fn key(&mut self) -> Key {
        self.take(32).try_into().unwrap()
    }
}

/// Replays every n-th recorded transaction, starting with the i-th, until the time is up.
pub fn replay(path: &str, i: usize, n: usize, secs: f64) {
    let start = std::time::Instant::now();
    let bytes = std::fs::read(path).unwrap();
    let mut f = In(&bytes);
    let (mut at, mut done, mut ok, mut panics) = (0usize, 0, 0, 0);
    while !f.0.is_empty() {
        let len = f.num() as usize;
        let mut r = In(f.take(len));
        at += 1;
        if at % n != i {
            continue;
        }
        if start.elapsed().as_secs_f64() > secs {
            break;
        }
        let mut svm = Svm::new();
        svm.ts = r.num() as i64;
        let l = r.num() as usize;
        let label = String::from_utf8_lossy(r.take(l)).to_string();
        for _ in 0..r.num() {
            let k = r.key();
            let owner = r.key();
            let lamports = r.num();
            let executable = r.num() != 0;
            let l = r.num() as usize;
            svm.db.insert(k, Acct { lamports, owner, executable, data: r.take(l).to_vec() });
        }
        let mut ixs = vec![];
        for _ in 0..r.num() {
            let program = r.key();
            let mut metas = vec![];
            for _ in 0..r.num() {
                let key = r.key();
                let x = r.take(2);
                metas.push(Meta { key, signer: x[0] != 0, writable: x[1] != 0 });
            }
            let l = r.num() as usize;
            ixs.push(Ix { program, metas, data: r.take(l).to_vec() });
        }
        eprintln!("replaying: {label}");
        match svm.exec(&ixs) {
            Ok(()) => ok += 1,
            Err(Fail::Panic(_)) => panics += 1,
            Err(_) => {}
        }
        for u in svm.ub.drain(..) {
            println!("MEMORY {u} in: {label}");
        }
        done += 1;
    }
    println!("REPLAYED {done} accepted {ok} aborted {panics} of {at} read");
}
