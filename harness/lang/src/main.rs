//! Drives the language front end (sm_ast, sm_parser, sm_playground) and judges what it does.
//! lang check PROP --seed S --cases N [--first I] [--threads T] [--trace PREFIX] --out FILE
//! lang one PROP --seed S INDEX          judge a single case (replay)
mod gen;
mod more;
mod place;
mod props;
mod rng;
mod session;
mod tree;
#[path = "../../shared/words.rs"]
mod words;

use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::{Seek, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// what a case observed
#[derive(Default)]
pub struct Obs {
    pub input: String,
    pub nontrivial: bool,
    pub tags: Vec<String>,
    pub heads: BTreeMap<String, u64>,
    pub outcome: String,
    pub events: u64,
    case: u64,
    hook: Option<std::fs::File>,
    now: Option<Arc<Mutex<String>>>,
}
impl Obs {
    /// to be called with the input before the code under test sees it
    pub fn about(&mut self, s: &str) {
        self.input = s.to_string();
        if let Some(n) = &self.now {
            *n.lock().unwrap() = self.input.clone();
        }
        if let Some(f) = &mut self.hook {
            let _ = f.set_len(0);
            let _ = f.rewind();
            let _ = f.write_all(format!("{}\n{}", self.case, s).as_bytes());
        }
    }
    pub fn tag(&mut self, s: impl Into<String>) {
        self.tags.push(s.into())
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = Default::default();
}
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn flag(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}
fn num(args: &[String], name: &str, d: u64) -> u64 {
    flag(args, name).and_then(|s| s.parse().ok()).unwrap_or(d)
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn clip(s: &str, n: usize) -> String {
    if s.chars().count() > n { s.chars().take(n - 20).collect::<String>() + " ..." } else { s.to_string() }
}
fn cpu(tid: usize) -> Duration {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    Duration::from_millis((g(11) + g(12)) * 10)
}
fn my_tid() -> usize {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().map(|f| f.to_string_lossy().parse().unwrap_or(0))).unwrap_or(0)
}

#[derive(Default)]
struct Tally {
    n: u64,
    events: u64,
    distinct: HashSet<u64>,
    tags: BTreeMap<String, u64>,
    heads: BTreeMap<String, u64>,
    samples: Vec<(String, String)>,
    bad: Vec<(u64, String, String)>,
}

struct Slot {
    tid: AtomicUsize,
    case: AtomicU64,
    since: Mutex<Duration>,
    now: Arc<Mutex<String>>,
}

fn judge(prop: &str, seed: u64, i: u64, o: &mut Obs) -> Result<(), String> {
    match caught(|| props::case(prop, seed, i, o)) {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {}", p)),
    }
}

fn check(args: &[String]) {
    let prop = args[0].clone();
    let (seed, cases, first) = (num(args, "--seed", 1), num(args, "--cases", 1000), num(args, "--first", 0));
    let threads = num(args, "--threads", 8) as usize;
    let out = flag(args, "--out").expect("--out");
    let trace = flag(args, "--trace");
    let limit = Duration::from_secs(num(args, "--cpu-limit", 60));
    let next = Arc::new(AtomicU64::new(first));
    let stop = Arc::new(AtomicBool::new(false));
    let total = Arc::new(Mutex::new(Tally::default()));
    let slots: Arc<Vec<Slot>> = Arc::new((0..threads).map(|_| Slot { tid: AtomicUsize::new(0), case: AtomicU64::new(u64::MAX), since: Mutex::new(Duration::ZERO), now: Default::default() }).collect());
    let hs: Vec<_> = (0..threads)
        .map(|k| {
            let (prop, next, stop, total, slots, trace) = (prop.clone(), next.clone(), stop.clone(), total.clone(), slots.clone(), trace.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let tid = my_tid();
                    slots[k].tid.store(tid, Ordering::SeqCst);
                    let mut t = Tally::default();
                    let tf = trace.map(|p| std::fs::File::create(format!("{}.{}", p, k)).unwrap());
                    'all: loop {
                        let lo = next.fetch_add(16, Ordering::SeqCst);
                        if lo >= first + cases || stop.load(Ordering::SeqCst) {
                            break;
                        }
                        *slots[k].since.lock().unwrap() = cpu(tid);
                        for i in lo..(lo + 16).min(first + cases) {
                            slots[k].case.store(i, Ordering::SeqCst);
                            let mut o = Obs { case: i, hook: tf.as_ref().map(|f| f.try_clone().unwrap()), now: Some(slots[k].now.clone()), ..Default::default() };
                            let v = judge(&prop, seed, i, &mut o);
                            t.n += 1;
                            t.events += o.events.max(1);
                            if o.nontrivial {
                                let mut h = std::collections::hash_map::DefaultHasher::new();
                                o.input.hash(&mut h);
                                t.distinct.insert(h.finish());
                                if i % 977 == 5 || cases < 3000 && i % 41 == 5 {
                                    t.samples.push((o.input.clone(), o.outcome.clone()));
                                }
                            }
                            for g in o.tags {
                                *t.tags.entry(g).or_default() += 1;
                            }
                            for (g, c) in o.heads {
                                *t.heads.entry(g).or_default() += c;
                            }
                            if let Err(m) = v {
                                t.bad.push((i, o.input, m));
                                if t.bad.len() >= 3 {
                                    stop.store(true, Ordering::SeqCst);
                                    break 'all;
                                }
                            }
                        }
                    }
                    slots[k].case.store(u64::MAX, Ordering::SeqCst);
                    let mut g = total.lock().unwrap();
                    g.n += t.n;
                    g.events += t.events;
                    g.distinct.extend(t.distinct);
                    for (k, v) in t.tags {
                        *g.tags.entry(k).or_default() += v;
                    }
                    for (k, v) in t.heads {
                        *g.heads.entry(k).or_default() += v;
                    }
                    g.samples.extend(t.samples);
                    g.bad.extend(t.bad);
                })
                .unwrap()
        })
        .collect();
    let mut hung = None;
    while hung.is_none() && hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        for s in slots.iter() {
            let c = s.case.load(Ordering::SeqCst);
            if c != u64::MAX {
                let used = cpu(s.tid.load(Ordering::SeqCst)).saturating_sub(*s.since.lock().unwrap());
                if used > limit && s.case.load(Ordering::SeqCst) == c {
                    hung = Some((c, used, s.now.lock().unwrap().clone()));
                }
            }
        }
    }
    let mut t = match hung {
        Some((c, used, input)) => {
            let mut t = Tally::default();
            t.bad.push((c, input, format!("no answer after {} s of CPU time", used.as_secs())));
            t
        }
        None => {
            for h in hs {
                h.join().unwrap();
            }
            std::mem::take(&mut *total.lock().unwrap())
        }
    };
    t.bad.sort_by_key(|b| b.1.len());
    t.samples.sort_by_key(|s| s.0.len());
    let map = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
    let step = (t.samples.len() / 10).max(1);
    let sa: Vec<String> = t.samples.iter().step_by(step).take(12).map(|s| format!("{{\"input\":{},\"observed\":{}}}", esc(&clip(&s.0, 400)), esc(&clip(&s.1, 400)))).collect();
    let bad: Vec<String> = t.bad.iter().take(6).map(|(i, c, m)| format!("{{\"index\":{},\"input\":{},\"message\":{}}}", i, esc(&clip(c, 3000)), esc(&clip(m, 2000)))).collect();
    let s = format!(
        "{{\"cases\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"outcomes\":{{{}}},\"constructs\":{{{}}},\"samples\":[{}],\"violations\":[{}]}}",
        t.n,
        t.events,
        t.distinct.len(),
        map(&t.tags),
        map(&t.heads),
        sa.join(","),
        bad.join(",")
    );
    std::fs::write(out, s).unwrap();
    std::process::exit(0);
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("check") => check(&args[1..]),
        Some("one") => {
            let (prop, i) = (args[1].clone(), args.last().unwrap().parse().unwrap());
            let seed = num(&args, "--seed", 1);
            let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                let mut o = Obs::default();
                let v = judge(&prop, seed, i, &mut o);
                println!("input: {:?}\nobserved: {}", o.input, o.outcome);
                match v {
                    Ok(()) => println!("ok"),
                    Err(m) => println!("BAD: {}", m),
                };
            });
            h.unwrap().join().unwrap();
        }
        Some("known") => std::process::exit(props::known(&args[1])),
        Some("threads") => std::process::exit(session::threads(num(&args, "--seed", 1), num(&args, "--threads", 8) as usize, num(&args, "--steps", 200) as usize)),
        Some("parallel") => std::process::exit(more::parallel(num(&args, "--seed", 1), num(&args, "--threads", 8) as usize, num(&args, "--steps", 200) as usize)),
        Some("steps-of") => {
            // one text per line (with \\n for line breaks) on standard input
            let mut t = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut t).unwrap();
            for l in t.lines() {
                println!("{} {}", more::steps_of(&l.replace("\\n", "\n")), l.chars().take(120).collect::<String>());
            }
        }
        Some("sweep") => {
            let mut t = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut t).unwrap();
            more::sweep(t.lines().map(|l| l.replace("\\n", "\n")).collect(), num(&args, "--units", 2) as usize, num(&args, "--length", 300) as usize, num(&args, "--limit", 400_000) as usize)
        }
        Some("steps") => {
            let (s, n) = (num(&args, "--seed", 1), num(&args, "--cases", 1000));
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || more::steps(s, n)).unwrap().join().unwrap()
        }
        _ => {
            eprintln!("usage: lang check|one|known|threads|parallel|steps ...");
            std::process::exit(64);
        }
    }
}
