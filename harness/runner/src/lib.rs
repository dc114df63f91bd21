//! Drives a monitor made of independent cases: every case gets its own seed, exercises the real
//! code and reports what it observed (labels) and what was wrong (violations).
pub mod rng;
use rng::Rng;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Case {
    pub rng: Rng,
    pub seed: u64,
    pub prop: String,
    pub mode: String,
    pub verbose: bool,
    pub trace: Vec<String>,
    pub evals: u64,
    relevant: u64,
    cover: BTreeMap<String, u64>,
    samples: Vec<String>,
    found: Vec<(String, Vec<String>)>,
    foreign: u64,
    cur: Arc<Mutex<(u64, String, String)>>,
    clock: Option<&'static Heart>,
}

#[derive(Default)]
struct Heart {
    started: AtomicU64,
    clk: AtomicU64,
}

fn cpu_ms(clk: u64) -> u64 {
    #[cfg(miri)]
    {
        let _ = clk;
        0
    }
    #[cfg(not(miri))]
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(clk as u32 as i32, &mut ts);
        ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
    }
}

impl Case {
    pub fn wants(&self, props: &str) -> bool {
        self.prop == "ALL" || props.split(' ').any(|p| p == self.prop)
    }
    /// one evaluation of the oracle; `props` are the properties it decides
    pub fn check(&mut self, ok: bool, props: &str, text: impl FnOnce() -> String) -> bool {
        self.evals += 1;
        if !ok {
            let t = text();
            if self.verbose {
                println!("  !! [{props}] {t}");
            }
            if self.wants(props) {
                self.found.push((format!("[{props}] {t}"), self.trace.clone()));
            } else {
                self.foreign += 1;
            }
        }
        ok
    }
    pub fn label(&mut self, props: &str, l: impl FnOnce() -> String) {
        if self.wants(props) {
            self.relevant += 1;
            let l = l();
            if !self.cover.contains_key(&l) && self.samples.len() < 6 {
                let t = self.trace.last().cloned().unwrap_or_default();
                self.samples.push(format!("{l}: {}", t.chars().take(400).collect::<String>()));
            }
            *self.cover.entry(l).or_default() += 1;
        }
    }
    pub fn log(&mut self, s: impl FnOnce() -> String) {
        if cfg!(miri) && !self.verbose {
            return;
        }
        let s = s();
        if self.verbose {
            println!("{s}");
        }
        self.trace.push(s);
    }
    /// runs code under test; a panic is returned as its message, endless work is reported for `props`
    pub fn run<T>(&mut self, what: &str, props: &str, f: impl FnOnce() -> T) -> Result<T, String> {
        {
            let mut c = self.cur.lock().unwrap();
            c.0 = self.seed;
            c.1 = what.to_string();
            c.2 = props.to_string();
        }
        if let Some(h) = self.clock {
            h.started.store(cpu_ms(h.clk.load(Ordering::Relaxed)) + 1, Ordering::Relaxed);
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        if let Some(h) = self.clock {
            h.started.store(0, Ordering::Relaxed);
        }
        r.map_err(|e| {
            e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
        })
    }
}

pub fn arg(n: &str) -> Option<String> {
    let v: Vec<String> = std::env::args().collect();
    v.iter().position(|a| a == n).and_then(|i| v.get(i + 1).cloned())
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn main(name: &'static str, rule: &str, assumptions: &[&str], case: fn(&mut Case)) {
    let prop = arg("--prop").unwrap_or_else(|| "ALL".into());
    let mode = arg("--mode").unwrap_or_default();
    let secs: f64 = arg("--secs").map_or(10.0, |s| s.parse().unwrap());
    let seed: u64 = arg("--seed").map_or(1, |s| s.parse().unwrap());
    let threads: usize = if cfg!(miri) { 1 } else { arg("--threads").map_or(8, |s| s.parse().unwrap()) };
    let max: u64 = arg("--cases").map_or(u64::MAX, |s| s.parse().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    let new = |prop: &str, verbose: bool, cur: Arc<Mutex<(u64, String, String)>>, clock| Case {
        rng: Rng::new(0),
        seed: 0,
        prop: prop.to_string(),
        mode: mode.clone(),
        verbose,
        trace: vec![],
        evals: 0,
        relevant: 0,
        cover: BTreeMap::new(),
        samples: vec![],
        found: vec![],
        foreign: 0,
        cur,
        clock,
    };
    let start = Instant::now();
    let ph = prop.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    // a panic outside `run` is the code under test misbehaving where it never should
    fn one(c: &mut Case, s: u64, case: fn(&mut Case)) {
        c.seed = s;
        c.rng = Rng::new(s);
        c.trace.clear();
        if let Err(e) = catch_unwind(AssertUnwindSafe(|| case(c))) {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let p = c.cur.lock().unwrap().2.clone();
            c.check(false, if p.is_empty() { "?" } else { &p }, || format!("unexpected panic: {m}"));
        }
    }
    if let Some(e) = arg("--episode") {
        let mut c = new(&prop, true, Default::default(), None);
        one(&mut c, e.parse().unwrap(), case);
        println!("{} violations", c.found.len());
        return;
    }
    let survey = prop == "ALL";
    let stop = Arc::new(AtomicBool::new(false));
    let next = Arc::new(AtomicU64::new(0));
    type Tot = (u64, u64, u64, BTreeMap<String, u64>, Vec<String>);
    let total: Arc<Mutex<Tot>> = Default::default();
    let found: Arc<Mutex<Vec<(u64, String, Vec<String>)>>> = Default::default();
    let work = |mut c: Case, stop: Arc<AtomicBool>, next: Arc<AtomicU64>, total: Arc<Mutex<Tot>>, found: Arc<Mutex<Vec<(u64, String, Vec<String>)>>>| {
        let mut n_cases = 0;
        while !stop.load(Ordering::Relaxed) && start.elapsed().as_secs_f64() < secs {
            let n = next.fetch_add(1, Ordering::Relaxed);
            if n >= max {
                break;
            }
            let s = rng::mix(rng::mix(seed, ph), n);
            one(&mut c, s, case);
            n_cases += 1;
            if !c.found.is_empty() {
                let mut f = found.lock().unwrap();
                for (t, tr) in c.found.drain(..) {
                    f.push((s, t, tr));
                }
                if !survey {
                    stop.store(true, Ordering::Relaxed);
                }
            }
        }
        let mut t = total.lock().unwrap();
        t.0 += n_cases;
        t.1 += c.evals;
        t.2 += c.relevant;
        for (k, v) in c.cover {
            *t.3.entry(k).or_default() += v;
        }
        for s in c.samples {
            if t.4.len() < 6 {
                t.4.push(s);
            }
        }
    };
    if threads == 1 && cfg!(miri) {
        work(new(&prop, false, Default::default(), None), stop, next, total.clone(), found.clone());
    } else {
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for _ in 0..threads {
                let heart: &'static Heart = Box::leak(Box::default());
                let cur: Arc<Mutex<(u64, String, String)>> = Default::default();
                let c = new(&prop, false, cur.clone(), Some(heart));
                let (stop, next, total, found) = (stop.clone(), next.clone(), total.clone(), found.clone());
                let work = &work;
                let h = std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || {
                        #[cfg(not(miri))]
                        {
                            let mut clk: libc::clockid_t = 0;
                            unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk) };
                            heart.clk.store(clk as u32 as u64 | 1 << 40, Ordering::Relaxed);
                        }
                        work(c, stop, next, total, found);
                        heart.clk.store(0, Ordering::Relaxed);
                    })
                    .unwrap();
                hs.push((h, heart, cur));
            }
            loop {
                std::thread::sleep(Duration::from_millis(50));
                if hs.iter().all(|h| h.0.is_finished()) {
                    break;
                }
                for (h, heart, cur) in &hs {
                    let s = heart.started.load(Ordering::Relaxed);
                    let c = heart.clk.load(Ordering::Relaxed);
                    if s == 0 || c == 0 || h.is_finished() {
                        continue;
                    }
                    let now = cpu_ms(c);
                    if heart.started.load(Ordering::Relaxed) == s && now > s - 1 + 10_000 {
                        let (seed, what, props) = cur.lock().unwrap().clone();
                        let mine = survey || props.split(' ').any(|p| p == prop);
                        println!("does not terminate: {what} (case {seed}, properties {props})");
                        if mine {
                            let path = replay(&prop, name, &mode, seed, &format!("does not terminate: {what}"), &[]);
                            println!("VIOLATION property={prop} replay={path}");
                            std::process::exit(1);
                        }
                        // another property's business: this thread cannot be stopped, so end here
                        println!("inconclusive: a call never returned");
                        std::process::exit(0);
                    }
                }
            }
        });
    }
    let (cases, evals, relevant, cover, samples) = total.lock().unwrap().clone();
    let found = found.lock().unwrap();
    if survey {
        let mut by: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
        for (s, t, _) in found.iter() {
            let k: String = t.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(90).collect();
            by.entry(k).or_insert((0, *s, t.clone())).0 += 1;
        }
        for (n, s, t) in by.values().take(60) {
            println!("{n:6} seed={s} {}", t.chars().take(400).collect::<String>());
        }
        if std::env::var_os("COVER").is_some() {
            for (k, n) in &cover {
                println!("{n:8} {k}");
            }
        }
        println!("{name}: cases {cases} evaluations {evals} labels {} violations {}", cover.len(), found.len());
        std::process::exit(if found.is_empty() { 0 } else { 1 });
    }
    let mut code = 0;
    if let Some((s, t, tr)) = found.first() {
        code = 1;
        let path = replay(&prop, name, &mode, *s, t, tr);
        println!("{t}");
        println!("VIOLATION property={prop} replay={path}");
    }
    if let Some(ev) = arg("--evidence") {
        let labels: Vec<String> = cover.iter().take(3000).map(|(k, v)| format!("{}:{v}", esc(k))).collect();
        let list = |v: &mut dyn Iterator<Item = String>| v.map(|s| esc(&s)).collect::<Vec<_>>().join(",");
        let j = format!(
            "{{\"coverage\":{{\"evaluations\":{evals},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"cases\":{cases},\"judged_relevant\":{relevant},\"labels\":{{{}}}}},\"wall_s\":{:.2},\"violations\":{},\"assumptions\":[{}]}}",
            cover.len(),
            esc(rule),
            list(&mut samples.iter().cloned()),
            labels.join(","),
            start.elapsed().as_secs_f64(),
            found.len(),
            list(&mut assumptions.iter().map(|s| s.to_string())),
        );
        std::fs::write(&ev, j).unwrap();
    }
    println!("{prop} [{name}]: {cases} cases, {evals} oracle evaluations, {relevant} situations judged for {prop}, {} distinct, {:.1}s", cover.len(), start.elapsed().as_secs_f64());
    if code == 0 && relevant == 0 {
        println!("inconclusive: the monitor observed nothing relevant");
        code = 3;
    }
    std::process::exit(code);
}

fn replay(prop: &str, name: &str, mode: &str, seed: u64, text: &str, trace: &[String]) -> String {
    let dir = arg("--replay-dir").unwrap_or_else(|| "/tmp".into());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{name}-{seed}.txt");
    let mut o = format!("property {prop}\nmonitor {name}\ncase {seed}\nviolation {text}\nreplay: {name} --prop {prop} --mode '{mode}' --episode {seed}\n\ntrace:\n");
    for l in trace {
        o.push_str(l);
        o.push('\n');
    }
    let _ = std::fs::write(&path, o);
    path
}
