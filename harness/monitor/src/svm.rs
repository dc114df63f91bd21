//! A small in-process runtime that executes the real program entrypoints natively under the
//! account rules of the Solana runtime (privileges, ownership, rent, conservation, atomicity,
//! cross-program calls).

use shim_common::{CpiReq, HostTable, MetaC, RunResult};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

pub type Key = [u8; 32];
pub const SYSTEM: Key = [0; 32];
pub const SPARE: usize = 10_240;
static ZEROS: [u8; SPARE] = [0; SPARE];

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Acct {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Key,
    pub executable: bool,
}

impl Acct {
    pub fn sys(lamports: u64) -> Acct {
        Acct { lamports, ..Default::default() }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Meta {
    pub key: Key,
    pub signer: bool,
    pub writable: bool,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Ix {
    pub program: Key,
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
}

pub fn rent_min(len: usize) -> u64 {
    (len as u64 + 128) * 3480 * 2
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fail {
    /// the program returned an error
    Program(u64),
    /// the program panicked / aborted
    Panic(String),
    /// the runtime refused what the program did or was asked to do
    Runtime(String),
    /// failing inner call
    Inner(String),
}

pub type RunFn = unsafe extern "C" fn(*mut u8, *mut RunResult);
#[cfg(not(feature = "static"))]
type InitFn = unsafe extern "C" fn(*const HostTable);

#[derive(Clone, Copy)]
pub enum Kind {
    Bpf(RunFn),
    System,
    Relay,
    TokenMetadata,
}

static PROGRAMS: OnceLock<BTreeMap<Key, Kind>> = OnceLock::new();

pub const RELAY: Key = [
    9, 0xEE, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 7,
];

pub fn load_programs(dir: &str, which: &[(&str, Key)]) {
    let mut m = BTreeMap::new();
    m.insert(SYSTEM, Kind::System);
    m.insert(RELAY, Kind::Relay);
    m.insert(crate::ids::token_metadata(), Kind::TokenMetadata);
    let table = |id: &Key| HostTable { program_id: *id, log: cb_log, cpi: cb_cpi, stack_height: cb_height, unix_ts: cb_ts, mem_check: cb_mem };
    #[cfg(feature = "static")]
    {
        let _ = dir;
        assert!(which.len() == 1 && which[0].0 == "asset", "this build holds the asset program only");
        unsafe { shim_asset::verif_init(&table(&which[0].1)) };
        m.insert(which[0].1, Kind::Bpf(shim_asset::verif_run));
    }
    #[cfg(not(feature = "static"))]
    for (name, id) in which {
        let path = format!("{dir}/libshim_{name}.so\0");
        unsafe {
            let h = libc::dlopen(path.as_ptr() as *const _, libc::RTLD_NOW | libc::RTLD_LOCAL);
            if h.is_null() {
                let e = std::ffi::CStr::from_ptr(libc::dlerror());
                eprintln!("cannot load {path}: {e:?}");
                std::process::exit(3);
            }
            let init: InitFn = std::mem::transmute(libc::dlsym(h, b"verif_init\0".as_ptr() as *const _));
            let run: RunFn = std::mem::transmute(libc::dlsym(h, b"verif_run\0".as_ptr() as *const _));
            init(&table(id));
            m.insert(*id, Kind::Bpf(run));
        }
    }
    let _ = PROGRAMS.set(m);
}

fn kind_of(k: &Key) -> Option<Kind> {
    PROGRAMS.get().and_then(|m| m.get(k)).copied()
}

struct FrameAcct {
    key: Key,
    signer: bool,
    writable: bool,
    off: usize,
    orig_len: usize,
    pre: Acct,
}

struct Frame {
    program: Key,
    height: u64,
    uniq: Vec<FrameAcct>,
    buf: Vec<u64>,
}

impl Frame {
    fn base(&self) -> *mut u8 {
        self.buf.as_ptr() as *mut u8
    }
    fn read(&self, fa: &FrameAcct) -> Acct {
        unsafe {
            let p = self.base().add(fa.off);
            let mut owner = [0u8; 32];
            std::ptr::copy_nonoverlapping(p.add(40), owner.as_mut_ptr(), 32);
            let lamports = *(p.add(72) as *const u64);
            let len = (*(p.add(80) as *const u64) as usize).min(fa.orig_len + SPARE + 1);
            let n = len.min(fa.orig_len + SPARE);
            let mut data = std::slice::from_raw_parts(p.add(88), n).to_vec();
            data.resize(len, 0);
            Acct { lamports, data, owner, executable: fa.pre.executable }
        }
    }
}

pub struct Svm {
    pub db: BTreeMap<Key, Acct>,
    pub ts: i64,
    frames: Vec<Frame>,
    /// memory-safety observations (out-of-bounds memory operations, corrupted headers)
    pub ub: Vec<String>,
    /// make the n-th inner call of the transaction fail (fault injection)
    pub fail_cpi_at: Option<u32>,
    pub cpi_count: u32,
    pub cpi_total: u64,
    pub cpi_log: Vec<(Key, Key, Vec<Meta>, Vec<u8>)>,
    pub log_cpis: bool,
}

thread_local! {
    static CUR: Cell<*mut Svm> = Cell::new(std::ptr::null_mut());
    pub static HEART: Cell<*const Heart> = Cell::new(std::ptr::null());
}

/// Progress marker read by the watchdog.
#[derive(Default)]
pub struct Heart {
    pub started: AtomicU64, // thread cpu time in ms when the current program call started + 1; 0 = idle
    pub tid: AtomicU64,
}

extern "C" fn cb_log(p: *const u8, n: usize) {
    if std::env::var_os("VERIF_LOG").is_some() {
        let s = unsafe { std::slice::from_raw_parts(p, n) };
        eprintln!("    log: {}", String::from_utf8_lossy(s));
    }
}
extern "C" fn cb_height() -> u64 {
    unsafe { (*CUR.with(|c| c.get())).frames.last().map(|f| f.height).unwrap_or(0) }
}
extern "C" fn cb_ts() -> i64 {
    unsafe { (*CUR.with(|c| c.get())).ts }
}
extern "C" fn cb_mem(p: *const u8, n: usize) -> u32 {
    let svm = unsafe { &mut *CUR.with(|c| c.get()) };
    let f = match svm.frames.last() {
        Some(f) => f,
        None => return 0,
    };
    let b = f.base() as usize;
    let e = b + f.buf.len() * 8;
    let s = p as usize;
    let bad = if n > (1 << 26) || s.checked_add(n).is_none() {
        true
    } else if n == 0 || s + n <= b || s >= e {
        false
    } else {
        !f.uniq.iter().any(|a| {
            // the account's data as it is now (reallocation keeps the length in front of it)
            let d = b + a.off + 88;
            let len = unsafe { *(f.base().add(a.off + 80) as *const u64) } as usize;
            s >= d && s + n <= d + len.min(a.orig_len + SPARE)
        })
    };
    if bad {
        svm.ub.push(format!("memory operation of {n} bytes outside of an account's data region"));
        return 1;
    }
    0
}
extern "C" fn cb_cpi(req: *const CpiReq) -> u64 {
    let svm = CUR.with(|c| c.get());
    let r = unsafe { Svm::cpi(svm, &*req) };
    match r {
        Ok(()) => 0,
        Err(e) => {
            LAST_INNER.with(|l| *l.borrow_mut() = format!("{e:?}"));
            1
        }
    }
}

thread_local! {
    static LAST_INNER: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

impl Svm {
    pub fn new() -> Svm {
        let mut s = Svm {
            db: BTreeMap::new(),
            ts: 1_700_000_000,
            frames: vec![],
            ub: vec![],
            fail_cpi_at: None,
            cpi_count: 0,
            cpi_total: 0,
            cpi_log: vec![],
            log_cpis: false,
        };
        if let Some(p) = PROGRAMS.get() {
            for k in p.keys() {
                s.db.insert(*k, Acct { lamports: 1, data: vec![], owner: [2; 32], executable: true });
            }
        }
        s
    }

    pub fn get(&self, k: &Key) -> Acct {
        self.db.get(k).cloned().unwrap_or_default()
    }

    /// Executes a transaction atomically.
    pub fn exec(&mut self, ixs: &[Ix]) -> Result<(), Fail> {
        let snapshot: BTreeMap<Key, Acct> = ixs
            .iter()
            .flat_map(|i| i.metas.iter().map(|m| m.key))
            .map(|k| (k, self.get(&k)))
            .collect();
        self.ub.clear();
        self.cpi_count = 0;
        self.cpi_log.clear();
        let me = self as *mut Svm;
        CUR.with(|c| c.set(me));
        let mut res = Ok(());
        for ix in ixs {
            res = unsafe { Svm::exec_ix(me, ix, 1) };
            if res.is_err() {
                break;
            }
        }
        unsafe { (*me).frames.clear() };
        CUR.with(|c| c.set(std::ptr::null_mut()));
        if res.is_ok() {
            for (k, pre) in &snapshot {
                let post = self.get(k);
                if post.executable || post.lamports == 0 || post == *pre {
                    continue;
                }
                let min = rent_min(post.data.len());
                if post.lamports < min {
                    let was_paying = pre.lamports > 0 && pre.lamports < rent_min(pre.data.len());
                    if !(was_paying && pre.data.len() == post.data.len() && post.lamports <= pre.lamports) {
                        res = Err(Fail::Runtime("insufficient funds for rent".into()));
                        break;
                    }
                }
            }
        }
        match &res {
            Ok(()) => {
                for k in snapshot.keys() {
                    if self.get(k).lamports == 0 {
                        self.db.remove(k);
                    }
                }
            }
            Err(_) => {
                for (k, a) in snapshot {
                    if a == Acct::default() {
                        self.db.remove(&k);
                    } else {
                        self.db.insert(k, a);
                    }
                }
            }
        }
        res
    }

    unsafe fn exec_ix(me: *mut Svm, ix: &Ix, height: u64) -> Result<(), Fail> {
        let svm = &mut *me;
        if height > 5 {
            return Err(Fail::Runtime("call depth".into()));
        }
        // merge the privileges of duplicated accounts
        let mut metas = ix.metas.clone();
        for i in 0..metas.len() {
            for j in 0..metas.len() {
                if ix.metas[i].key == ix.metas[j].key {
                    metas[i].signer |= ix.metas[j].signer;
                    metas[i].writable |= ix.metas[j].writable;
                }
            }
        }
        let mut seen = std::collections::BTreeSet::new();
        let mut sum0: u128 = 0;
        for m in &metas {
            if seen.insert(m.key) {
                sum0 += svm.get(&m.key).lamports as u128;
            }
        }
        match kind_of(&ix.program) {
            None => return Err(Fail::Runtime("unknown program".into())),
            Some(Kind::System) => svm.system(&metas, &ix.data)?,
            Some(Kind::TokenMetadata) => crate::tokenmeta::process(svm, &metas, &ix.data)?,
            Some(Kind::Relay) => {
                // first account: target program; the rest is passed on as is
                if metas.is_empty() {
                    return Err(Fail::Runtime("relay".into()));
                }
                let inner = Ix { program: metas[0].key, metas: metas[1..].to_vec(), data: ix.data.clone() };
                Svm::exec_ix(me, &inner, height + 1)?;
            }
            Some(Kind::Bpf(run)) => Svm::run_bpf(me, run, ix.program, &metas, &ix.data, height)?,
        }
        let svm = &mut *me;
        let sum1: u128 = seen.iter().map(|k| svm.get(k).lamports as u128).sum();
        if sum0 != sum1 {
            return Err(Fail::Runtime("sum of account balances changed".into()));
        }
        Ok(())
    }

    unsafe fn run_bpf(me: *mut Svm, run: RunFn, program: Key, metas: &[Meta], data: &[u8], height: u64) -> Result<(), Fail> {
        let svm = &mut *me;
        // serialise
        let mut out: Vec<u8> = Vec::new();
        out.extend((metas.len() as u64).to_le_bytes());
        let mut uniq: Vec<FrameAcct> = vec![];
        let mut idx: Vec<(Key, u8)> = vec![];
        for (i, m) in metas.iter().enumerate() {
            if let Some((_, j)) = idx.iter().find(|(k, _)| *k == m.key) {
                out.push(*j);
                out.extend([0u8; 7]);
                continue;
            }
            idx.push((m.key, i as u8));
            let a = svm.get(&m.key);
            let off = out.len();
            out.extend([0xff, m.signer as u8, m.writable as u8, a.executable as u8, 0, 0, 0, 0]);
            out.extend(m.key);
            out.extend(a.owner);
            out.extend(a.lamports.to_le_bytes());
            out.extend((a.data.len() as u64).to_le_bytes());
            out.extend(&a.data);
            out.extend_from_slice(&ZEROS);
            while out.len() % 8 != 0 {
                out.push(0);
            }
            out.extend(0u64.to_le_bytes());
            uniq.push(FrameAcct { key: m.key, signer: m.signer, writable: m.writable, off, orig_len: a.data.len(), pre: a });
        }
        out.extend((data.len() as u64).to_le_bytes());
        out.extend(data);
        out.extend(program);
        let mut buf = vec![0u64; (out.len() + 7) / 8];
        std::ptr::copy_nonoverlapping(out.as_ptr(), buf.as_mut_ptr() as *mut u8, out.len());
        let ptr = buf.as_mut_ptr() as *mut u8;
        svm.frames.push(Frame { program, height, uniq, buf });
        let mut res: RunResult = std::mem::zeroed();
        let heart = HEART.with(|h| h.get());
        if svm.frames.len() == 1 && !heart.is_null() {
            (*heart).started.store(thread_ms() + 1, Ordering::Relaxed);
        }
        run(ptr, &mut res);
        let svm = &mut *me;
        if svm.frames.len() == 1 && !heart.is_null() {
            (*heart).started.store(0, Ordering::Relaxed);
        }
        let status = match res.status {
            0 => Ok(()),
            1 => Err(Fail::Program(res.code)),
            2 => Err(Fail::Panic(String::from_utf8_lossy(&res.msg[..res.msg_len]).to_string())),
            _ => Err(Fail::Inner(LAST_INNER.with(|l| l.borrow().clone()))),
        };
        // header integrity: what the program must never write
        {
            let f = svm.frames.last().unwrap();
            let p = f.base();
            let mut bad = vec![];
            for a in &f.uniq {
                let h = std::slice::from_raw_parts(p.add(a.off), 88);
                if h[8..40] != a.key || h[1] != a.signer as u8 || h[2] != a.writable as u8 || h[3] != a.pre.executable as u8 {
                    bad.push("account header corrupted".to_string());
                }
                let len = *(p.add(a.off + 80) as *const u64) as usize;
                if len > a.orig_len + SPARE {
                    bad.push("account length beyond its memory region".to_string());
                } else {
                    // the spare space behind the data was handed over zeroed
                    let (from, to) = (len.max(a.orig_len), a.orig_len + SPARE);
                    let spare = std::slice::from_raw_parts(p.add(a.off + 88 + from), to - from);
                    if !cfg!(miri) && spare.iter().any(|x| *x != 0) {
                        bad.push("bytes written behind the end of an account's data".to_string());
                    }
                }
            }
            svm.ub.extend(bad);
        }
        if status.is_ok() {
            svm.sync_out()?;
        }
        svm.frames.pop();
        status
    }

    /// Caller buffer -> database, enforcing the runtime's account rules.
    fn sync_out(&mut self) -> Result<(), Fail> {
        let f = self.frames.last_mut().unwrap();
        let mut updates = vec![];
        for i in 0..f.uniq.len() {
            let new = f.read(&f.uniq[i]);
            let a = &f.uniq[i];
            let pre = &a.pre;
            if new == *pre {
                continue;
            }
            let e = |s: &str| Err(Fail::Runtime(s.to_string()));
            if new.lamports != pre.lamports {
                if !a.writable {
                    return e("read-only lamports changed");
                }
                if pre.executable {
                    return e("executable lamports changed");
                }
                if new.lamports < pre.lamports && pre.owner != f.program {
                    return e("external account lamports spent");
                }
            }
            if new.data != pre.data {
                if !a.writable {
                    return e("read-only data modified");
                }
                if pre.owner != f.program {
                    return e("external account data modified");
                }
                if new.data.len() > a.orig_len + SPARE {
                    return e("invalid realloc");
                }
            }
            if new.owner != pre.owner {
                if !a.writable || pre.owner != f.program || new.data.iter().any(|b| *b != 0) {
                    return e("modified program id");
                }
            }
            updates.push((i, new));
        }
        for (i, new) in updates {
            f.uniq[i].pre = new.clone();
            self.db.insert(f.uniq[i].key, new);
        }
        Ok(())
    }

    unsafe fn cpi(me: *mut Svm, req: &CpiReq) -> Result<(), Fail> {
        let svm = &mut *me;
        svm.cpi_count += 1;
        svm.cpi_total += 1;
        if svm.fail_cpi_at == Some(svm.cpi_count) {
            return Err(Fail::Runtime("injected fault".into()));
        }
        svm.sync_out()?;
        let metas: Vec<MetaC> = std::slice::from_raw_parts(req.metas, req.n_metas).to_vec();
        let data = if req.data_len == 0 { vec![] } else { std::slice::from_raw_parts(req.data, req.data_len).to_vec() };
        let infos: &[Key] = if req.n_infos == 0 { &[] } else { std::slice::from_raw_parts(req.infos, req.n_infos) };
        let pdas: &[Key] = if req.n_pdas == 0 { &[] } else { std::slice::from_raw_parts(req.pdas, req.n_pdas) };
        let f = svm.frames.last().unwrap();
        let e = |s: &str| Err(Fail::Runtime(s.to_string()));
        let mut out = vec![];
        for m in &metas {
            let a = match f.uniq.iter().find(|a| a.key == m.key) {
                Some(a) => a,
                None => return e("missing account"),
            };
            if !infos.contains(&m.key) {
                return e("missing account info");
            }
            if m.writable != 0 && !a.writable {
                return e("writable privilege escalated");
            }
            if m.signer != 0 && !(a.signer || pdas.contains(&m.key)) {
                return e("signer privilege escalated");
            }
            out.push(Meta { key: m.key, signer: m.signer != 0, writable: m.writable != 0 });
        }
        match f.uniq.iter().find(|a| a.key == req.program) {
            Some(a) if a.pre.executable => (),
            _ => return e("program not available"),
        }
        if svm.frames.iter().any(|x| x.program == req.program) && f.program != req.program {
            return e("reentrancy");
        }
        let height = f.height + 1;
        if svm.log_cpis {
            let caller = f.program;
            svm.cpi_log.push((caller, req.program, out.clone(), data.clone()));
        }
        let ix = Ix { program: req.program, metas: out, data };
        Svm::exec_ix(me, &ix, height)?;
        // database -> caller buffer
        let svm = &mut *me;
        let n = svm.frames.len() - 1;
        for i in 0..svm.frames[n].uniq.len() {
            let key = svm.frames[n].uniq[i].key;
            if !ix.metas.iter().any(|m| m.key == key) {
                continue;
            }
            let new = svm.get(&key);
            let f = &mut svm.frames[n];
            if new == f.uniq[i].pre {
                continue;
            }
            let (off, orig) = (f.uniq[i].off, f.uniq[i].orig_len);
            if new.data.len() > orig + SPARE {
                return e("invalid realloc");
            }
            let p = f.base().add(off);
            std::ptr::copy_nonoverlapping(new.owner.as_ptr(), p.add(40), 32);
            *(p.add(72) as *mut u64) = new.lamports;
            let old_len = *(p.add(80) as *const u64) as usize;
            *(p.add(80) as *mut u64) = new.data.len() as u64;
            std::ptr::copy_nonoverlapping(new.data.as_ptr(), p.add(88), new.data.len());
            if old_len > new.data.len() {
                std::ptr::write_bytes(p.add(88 + new.data.len()), 0, old_len - new.data.len());
            }
            f.uniq[i].pre = new;
        }
        Ok(())
    }

    fn system(&mut self, metas: &[Meta], data: &[u8]) -> Result<(), Fail> {
        let e = |s: &str| Err(Fail::Runtime(format!("system: {s}")));
        if data.len() < 4 {
            return e("data");
        }
        let u64_at = |o: usize| -> Option<u64> { data.get(o..o + 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())) };
        let key_at = |o: usize| -> Option<Key> { data.get(o..o + 32).map(|b| b.try_into().unwrap()) };
        let tag = u32::from_le_bytes(data[..4].try_into().unwrap());
        match tag {
            0 => {
                let (l, space, owner) = match (u64_at(4), u64_at(12), key_at(20)) {
                    (Some(a), Some(b), Some(c)) => (a, b, c),
                    _ => return e("data"),
                };
                if metas.len() < 2 {
                    return e("accounts");
                }
                let (from, to) = (metas[0], metas[1]);
                let t = self.get(&to.key);
                if t.lamports > 0 {
                    return e("account already in use");
                }
                if !to.signer || !to.writable {
                    return e("new account must sign");
                }
                if !t.data.is_empty() || t.owner != SYSTEM {
                    return e("account already in use");
                }
                if space > 10 * 1024 * 1024 {
                    return e("space");
                }
                self.db.insert(to.key, Acct { lamports: 0, data: vec![0; space as usize], owner, executable: false });
                self.sys_transfer(&from, &to, l)
            }
            1 => {
                let owner = match key_at(4) {
                    Some(o) => o,
                    None => return e("data"),
                };
                let m = metas[0];
                let mut a = self.get(&m.key);
                if a.owner == owner {
                    return Ok(());
                }
                if !m.signer || !m.writable || a.owner != SYSTEM {
                    return e("assign");
                }
                a.owner = owner;
                self.db.insert(m.key, a);
                Ok(())
            }
            2 => {
                let l = match u64_at(4) {
                    Some(l) => l,
                    None => return e("data"),
                };
                if metas.len() < 2 {
                    return e("accounts");
                }
                let (from, to) = (metas[0], metas[1]);
                self.sys_transfer(&from, &to, l)
            }
            8 => {
                let space = match u64_at(4) {
                    Some(l) => l,
                    None => return e("data"),
                };
                let m = metas[0];
                let mut a = self.get(&m.key);
                if !m.signer || !m.writable || a.owner != SYSTEM || !a.data.is_empty() || space > 10 * 1024 * 1024 {
                    return e("allocate");
                }
                a.data = vec![0; space as usize];
                self.db.insert(m.key, a);
                Ok(())
            }
            _ => e("unsupported"),
        }
    }

    fn sys_transfer(&mut self, from: &Meta, to: &Meta, l: u64) -> Result<(), Fail> {
        let e = |s: &str| Err(Fail::Runtime(format!("system transfer: {s}")));
        if !from.signer {
            return e("from must sign");
        }
        let mut f = self.get(&from.key);
        if !f.data.is_empty() || f.owner != SYSTEM {
            return e("from must not carry data");
        }
        if f.lamports < l {
            return e("insufficient lamports");
        }
        if l == 0 || from.key == to.key {
            return Ok(());
        }
        if !from.writable || !to.writable {
            return e("read-only");
        }
        f.lamports -= l;
        self.db.insert(from.key, f);
        let mut t = self.get(&to.key);
        t.lamports += l;
        self.db.insert(to.key, t);
        Ok(())
    }
}

pub fn thread_ms() -> u64 {
    #[cfg(miri)]
    return 0;
    #[cfg(not(miri))]
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts);
        ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
    }
}
