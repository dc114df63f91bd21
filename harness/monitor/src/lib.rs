#![allow(dead_code)]
pub mod assetmode;
pub mod bridgemode;
pub mod check;
pub mod gen;
pub mod ids;
pub mod model;
pub mod proxymode;
pub mod record;
pub mod rng;
pub mod svm;
pub mod tokenmeta;
pub mod view;
pub mod wf;

use check::Viol;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// What the monitors observed.
#[derive(Default, Clone)]
pub struct Stats {
    pub episodes: u64,
    pub steps: u64,
    pub accepted: u64,
    pub refused: u64,
    pub panics: u64,
    pub relevant: u64,
    pub cpis: u64,
    pub states: u64,
    pub cover: BTreeMap<String, u64>,
    pub all: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

impl Stats {
    pub fn label(&mut self, l: String, relevant: bool) {
        if relevant {
            self.relevant += 1;
            *self.cover.entry(l.clone()).or_default() += 1;
        }
        *self.all.entry(l).or_default() += 1;
    }
    fn merge(&mut self, o: Stats) {
        self.episodes += o.episodes;
        self.steps += o.steps;
        self.accepted += o.accepted;
        self.refused += o.refused;
        self.panics += o.panics;
        self.relevant += o.relevant;
        self.cpis += o.cpis;
        self.states += o.states;
        for (k, v) in o.cover {
            *self.cover.entry(k).or_default() += v;
        }
        for (k, v) in o.all {
            *self.all.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 4 {
                self.samples.push(s);
            }
        }
    }
}

/// Everything an episode reports to.
pub struct Ctx {
    pub prop: String,
    pub stats: Stats,
    pub found: Vec<(Viol, Vec<String>)>,
    pub trace: Vec<String>,
    pub verbose: bool,
    pub cur: Arc<Mutex<Current>>,
}

#[derive(Default, Clone)]
pub struct Current {
    pub seed: u64,
    pub what: String,
    /// properties at stake if the step does not terminate
    pub props: String,
}

impl Ctx {
    pub fn report(&mut self, v: Viol) {
        if self.verbose {
            println!("      !! {:?} {}", v.props, v.text);
        }
        if self.prop == "ALL" || v.props.contains(&self.prop) {
            self.found.push((v, self.trace.clone()));
        }
    }
    pub fn log(&mut self, s: String) {
        if self.verbose {
            println!("{s}");
        }
        self.trace.push(s);
    }
    /// announces the step about to run (for the watchdog)
    pub fn begin(&self, what: &str, props: &str) {
        let mut c = self.cur.lock().unwrap();
        c.what.clear();
        c.what.push_str(what);
        c.props.clear();
        c.props.push_str(props);
    }
}

/// A kind of workload: its name and one episode of it.
pub type Mode = (&'static str, fn(u64, &mut Ctx));

fn episode(modes: &[Mode], mode: &str, seed: u64, cx: &mut Ctx) {
    cx.stats.episodes += 1;
    cx.cur.lock().unwrap().seed = seed;
    if let Some(m) = modes.iter().find(|m| m.0 == mode) {
        return m.1(seed, cx);
    }
    match mode {
        "asset" => assetmode::episode(seed, cx),
        "bridge" => bridgemode::episode(seed, cx),
        "proxy" => proxymode::episode(seed, cx),
        _ => panic!("unknown mode {mode}"),
    }
}

fn arg(n: &str) -> Option<String> {
    let v: Vec<String> = std::env::args().collect();
    v.iter().position(|a| a == n).and_then(|i| v.get(i + 1).cloned())
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn run(modes: &'static [Mode]) {
    let prop = arg("--prop").unwrap_or_else(|| "ALL".into());
    let mode = arg("--mode").unwrap_or_else(|| "asset".into());
    let lib = arg("--lib").unwrap_or_default();
    let secs: f64 = arg("--secs").map_or(10.0, |s| s.parse().unwrap());
    let seed: u64 = arg("--seed").map_or(1, |s| s.parse().unwrap());
    let threads: usize = arg("--threads").map_or(8, |s| s.parse().unwrap());
    let max_eps: u64 = arg("--episodes").map_or(u64::MAX, |s| s.parse().unwrap());
    let mut progs = vec![("asset", ids::asset())];
    if mode == "proxy" || mode == "js" {
        progs.push(("proxy", ids::proxy()));
    }
    if mode == "bridge" {
        progs.push(("bridge", ids::bridge()));
    }
    svm::load_programs(&lib, &progs);
    // (the linked program shares this hook and needs its own)
    #[cfg(not(feature = "static"))]
    std::panic::set_hook(Box::new(|i| eprintln!("monitor panic: {i}")));
    if let Some(f) = arg("--replay") {
        let n = arg("--of").map_or(1, |s| s.parse().unwrap());
        let i = arg("--part").map_or(0, |s| s.parse().unwrap());
        record::replay(&f, i, n, secs);
        return;
    }
    if let Some(f) = arg("--record") {
        record::open(&f);
    }
    if let Some(e) = arg("--episode") {
        let mut cx = Ctx { prop, stats: Stats::default(), found: vec![], trace: vec![], verbose: true, cur: Default::default() };
        episode(modes, &mode, e.parse().unwrap(), &mut cx);
        println!("{} violations", cx.found.len());
        return;
    }
    let survey = prop == "ALL";
    let start = Instant::now();
    let stop = Arc::new(AtomicBool::new(false));
    let total = Arc::new(Mutex::new(Stats::default()));
    let found: Arc<Mutex<Vec<(u64, Viol, Vec<String>)>>> = Default::default();
    let next = Arc::new(AtomicU64::new(0));
    let mut hearts: Vec<(&'static svm::Heart, Arc<Mutex<Current>>)> = vec![];
    let mut hs = vec![];
    let ph = prop.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    for _ in 0..threads {
        let heart: &'static svm::Heart = Box::leak(Box::default());
        let cur: Arc<Mutex<Current>> = Default::default();
        hearts.push((heart, cur.clone()));
        let (stop, total, found, next, prop, mode) = (stop.clone(), total.clone(), found.clone(), next.clone(), prop.clone(), mode.clone());
        let h = std::thread::Builder::new()
            .stack_size(if cfg!(miri) { 8 << 20 } else { 512 << 20 })
            .spawn(move || {
                svm::HEART.with(|h| h.set(heart));
                #[cfg(not(miri))]
                {
                    let mut clk: libc::clockid_t = 0;
                    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk) };
                    heart.tid.store(clk as u32 as u64 | 1 << 40, Ordering::Relaxed);
                }
                let mut cx = Ctx { prop, stats: Stats::default(), found: vec![], trace: vec![], verbose: false, cur };
                while !stop.load(Ordering::Relaxed) && start.elapsed().as_secs_f64() < secs {
                    let n = next.fetch_add(1, Ordering::Relaxed);
                    if n >= max_eps {
                        break;
                    }
                    let es = rng::mix(rng::mix(seed, ph), n);
                    cx.trace.clear();
                    // a state the monitor cannot interpret ends the episode, not the run
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| episode(modes, &mode, es, &mut cx)));
                    if !cx.found.is_empty() {
                        let mut f = found.lock().unwrap();
                        for (v, t) in cx.found.drain(..) {
                            f.push((es, v, t));
                        }
                        if !survey {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
                total.lock().unwrap().merge(std::mem::take(&mut cx.stats));
                heart.tid.store(0, Ordering::Relaxed);
            })
            .unwrap();
        hs.push(h);
    }
    // watchdog: a call that keeps computing without end
    let mut hung: Vec<bool> = vec![false; threads];
    loop {
        std::thread::sleep(Duration::from_millis(50));
        let mut live = 0;
        for (i, h) in hs.iter().enumerate() {
            #[cfg(miri)]
            if !h.is_finished() {
                live += 1;
                continue;
            }
            if hung[i] {
                continue;
            }
            if !h.is_finished() {
                live += 1;
            }
            let (heart, cur) = &hearts[i];
            let s = heart.started.load(Ordering::Relaxed);
            let c = heart.tid.load(Ordering::Relaxed);
            if s == 0 || c == 0 || h.is_finished() {
                continue;
            }
            let now = unsafe {
                let mut ts: libc::timespec = std::mem::zeroed();
                libc::clock_gettime(c as u32 as i32, &mut ts);
                ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
            };
            if heart.started.load(Ordering::Relaxed) == s && now > s - 1 + 8_000 {
                hung[i] = true;
                let cu = cur.lock().unwrap().clone();
                let v = check::viol(&format!("P21 {}", cu.props), format!("does not terminate: {}", cu.what));
                if survey || v.props.contains(&prop) {
                    found.lock().unwrap().push((cu.seed, v, vec![cu.what.clone()]));
                    if !survey {
                        stop.store(true, Ordering::Relaxed);
                    }
                }
            }
        }
        if live == 0 {
            break;
        }
    }
    let st = total.lock().unwrap().clone();
    record::close();
    let found = found.lock().unwrap();
    if survey {
        let mut by: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
        for (s, v, _) in found.iter() {
            let key: String = v.text.chars().map(|c| if c.is_ascii_hexdigit() && !c.is_ascii_lowercase() { '#' } else { c }).take(110).collect();
            let e = by.entry(format!("{:?} {key}", v.props)).or_insert((0, *s, v.text.clone()));
            e.0 += 1;
        }
        let mut l: Vec<_> = by.into_iter().collect();
        l.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
        for (k, (n, s, t)) in l.iter().take(60) {
            println!("{n:6} seed={s} {k}\n        {}", t.chars().take(300).collect::<String>());
        }
        if std::env::var_os("COVER").is_some() {
            for (k, n) in &st.all {
                println!("{n:8} {k}");
            }
        }
        println!(
            "episodes {} steps {} accepted {} refused {} panics {} labels {} cpis {} violations {}",
            st.episodes, st.steps, st.accepted, st.refused, st.panics, st.all.len(), st.cpis, found.len()
        );
        std::process::exit(if found.is_empty() { 0 } else { 1 });
    }
    let mut code = 0;
    let mut nviol = 0;
    if let Some((s, v, t)) = found.first() {
        nviol = found.len();
        code = 1;
        let dir = arg("--replay-dir").unwrap_or_else(|| "/tmp".into());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{s}.txt");
        let mut o = format!(
            "property {prop}\nmode {mode}\nepisode {s}\nviolation {}\nreplay: monitor --mode {mode} --prop {prop} --lib <dir> --episode {s}\n\nhistory:\n",
            v.text
        );
        for l in t {
            o.push_str(l);
            o.push('\n');
        }
        let _ = std::fs::write(&path, o);
        println!("{}", v.text);
        println!("VIOLATION property={prop} replay={path}");
    }
    if let Some(ev) = arg("--evidence") {
        let top: Vec<String> = st.cover.iter().take(4000).map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let j = format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"episodes\":{},\"accepted\":{},\"refused\":{},\"aborted\":{},\"inner_calls\":{},\"judged_relevant\":{},\"labels\":{{{}}}}},\"wall_s\":{:.2},\"violations\":{},\"assumptions\":[\"the mini-SVM reproduces the runtime's account rules\",\"programs are compiled natively instead of to SBF\"]}}",
            esc(&prop),
            esc(&arg("--tier").unwrap_or_else(|| "quick".into())),
            seed,
            st.steps,
            st.cover.len(),
            esc(match mode.as_str() {
                "client" => "Each evaluation is one instruction built in one form by the real client or interface crate and compared with the documented layout, one such instruction executed by the real program and judged against the reference semantics, or one decoding of an account, extension, instruction, vault or error code. Distinct cases are counted by instruction, form, presence pattern of the optional accounts, outcome, and decoded contents.",
                "js" => "Each evaluation is one request to the real JavaScript client: an instruction built and compared with the documented layout, a group of transactions built by a helper and executed by the real program, or an account, vault, query, address or error code read and compared with an independent decoder. Distinct cases are counted by function, presence pattern of the optional accounts, kind and size of the contents, and number of chunks.",
                "mint" => "Each evaluation is one instruction returned by the real mint helper (or made by the helper for programs, from values or a JSON description) executed by the real program, or one JSON extension decoded. Distinct cases are counted by helper, standard, number of extensions and of chunks each needs, and whether all ran in one transaction.",
                _ => "Each evaluation is one instruction executed by the real program entrypoint and judged against the reference semantics on the real pre-state. A case is non-trivial when this property was at stake (the instruction had to be accepted with an effect the property governs, or had to be refused because of it); distinct cases are counted by their situation label (instruction, roles, positions, sizes, outcome, refusal reasons).",
            }),
            st.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
            st.episodes,
            st.accepted,
            st.refused,
            st.panics,
            st.cpis,
            st.relevant,
            top.join(","),
            start.elapsed().as_secs_f64(),
            nviol
        );
        std::fs::write(&ev, j).unwrap();
    }
    println!(
        "{prop} [{mode}]: {} episodes, {} instructions ({} accepted, {} refused, {} aborted), {} judged for {prop}, {} distinct situations, {:.1}s",
        st.episodes, st.steps, st.accepted, st.refused, st.panics, st.relevant, st.cover.len(), start.elapsed().as_secs_f64()
    );
    if code == 0 && st.relevant == 0 {
        println!("inconclusive: the monitor observed nothing relevant");
        code = 3;
    }
    std::process::exit(code);
}
