mod case;
#[cfg(feature = "count")]
mod count;
mod gen;
mod refs;
mod rng;
#[path = "../../shared/words.rs"]
mod words;

use case::{Case, Out};
use gen::Tier;
use num::BigInt;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

#[cfg(feature = "count")]
#[global_allocator]
static A: count::Counting = count::Counting;

#[cfg(feature = "count")]
fn measured(c: &Case) -> (Out, u64, u64) {
    count::measure(|| c.run_caught())
}
#[cfg(not(feature = "count"))]
fn measured(c: &Case) -> (Out, u64, u64) {
    (c.run_caught(), 0, 0)
}

/// peak live bytes a call may use: generous multiples of its operands and result
fn byte_budget(c: &Case, o: &Out) -> u64 {
    let s = ((c.in_bits() + o.bits()) / 8) as u64;
    let root = match c {
        Case::PsumU(n) => (*n as f64).sqrt() as u64,
        Case::PsumI(n) | Case::Pcount(n) => match num::ToPrimitive::to_u64(n) {
            Some(n) => (n as f64).sqrt() as u64,
            None => 0,
        },
        _ => 0,
    };
    (1 << 20) + 64 * s + 1000 * root
}

fn flag(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}
fn tier(args: &[String]) -> Tier {
    match flag(args, "--tier").as_deref() {
        Some("thorough") => Tier::Thorough,
        Some("tiny") => Tier::Tiny,
        _ => Tier::Quick,
    }
}
fn seed(args: &[String]) -> u64 {
    flag(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1)
}
fn threads(args: &[String]) -> usize {
    flag(args, "--threads").and_then(|s| s.parse().ok()).unwrap_or(8)
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn clip(s: &str) -> String {
    if s.len() > 300 { format!("{}... ({} characters)", &s[..240], s.len()) } else { s.to_string() }
}

/// CPU time of the whole process so far
fn cpu(tid: usize) -> Duration {
    // field 14 and 15 of /proc/self/task/<tid>/stat, in clock ticks
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t: u64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse().ok()).unwrap_or(0);
    Duration::from_millis(t * 10)
}
fn my_tid() -> usize {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().map(|f| f.to_string_lossy().parse().unwrap_or(0))).unwrap_or(0)
}

#[derive(Default)]
struct Tally {
    evaluations: u64,
    distinct: HashSet<u64>,
    ops: BTreeMap<String, u64>,
    kinds: BTreeMap<String, u64>,
    samples: Vec<(String, String)>,
    violations: Vec<(String, String)>,
    max_bytes: u64,
    max_bits: usize,
}

struct Slot {
    tid: AtomicUsize,
    /// the case being run, and the thread's CPU time when it started
    cur: Mutex<Option<(String, Duration)>>,
}

fn check(args: &[String]) -> i32 {
    let prop = args[0].clone();
    let out_file = flag(args, "--out").expect("--out");
    let trace = flag(args, "--trace");
    let limit = Duration::from_secs(flag(args, "--cpu-limit").and_then(|s| s.parse().ok()).unwrap_or(120));
    let cases = Arc::new(gen::cases(&prop, tier(args), seed(args)));
    let n = threads(args);
    // prime sums take seconds each for large bounds: one at a time
    let step = if prop == "C08" { 1 } else { 8 };
    let next = Arc::new(AtomicUsize::new(0));
    let total = Arc::new(Mutex::new(Tally::default()));
    let stop = Arc::new(AtomicBool::new(false));
    let slots: Arc<Vec<Slot>> = Arc::new((0..n).map(|_| Slot { tid: AtomicUsize::new(0), cur: Mutex::new(None) }).collect());
    let mut hs = Vec::new();
    for k in 0..n {
        let (cases, next, total, slots, stop, trace, prop) = (cases.clone(), next.clone(), total.clone(), slots.clone(), stop.clone(), trace.clone(), prop.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let tid = my_tid();
                    slots[k].tid.store(tid, Ordering::SeqCst);
                    let mut t = Tally::default();
                    let mut tf = trace.map(|p| std::fs::File::create(format!("{}.{}", p, k)).unwrap());
                    'all: loop {
                        let lo = next.fetch_add(step, Ordering::SeqCst);
                        if lo >= cases.len() || stop.load(Ordering::SeqCst) {
                            break;
                        }
                        let mut start = cpu(tid);
                        let started = Instant::now();
                        for (off, c) in cases[lo..(lo + step).min(cases.len())].iter().enumerate() {
                            if started.elapsed() > Duration::from_millis(200) {
                                start = cpu(tid);
                            }
                            let text = c.to_string();
                            if let Some(f) = &mut tf {
                                let _ = writeln!(f, "{}", text);
                            }
                            *slots[k].cur.lock().unwrap() = Some((text.clone(), start));
                            let (o, bytes, _allocs) = measured(c);
                            *slots[k].cur.lock().unwrap() = None;
                            t.evaluations += 1;
                            if c.nontrivial() {
                                t.distinct.insert(hash(c));
                            }
                            *t.ops.entry(c.op().to_string()).or_default() += 1;
                            *t.kinds.entry(format!("{}:{}", c.op(), o.kind())).or_default() += 1;
                            t.max_bytes = t.max_bytes.max(bytes);
                            t.max_bits = t.max_bits.max(o.bits());
                            if (lo + off) % 1499 == 7 && t.samples.len() < 40 && c.nontrivial() {
                                t.samples.push((clip(&text), clip(&o.brief())));
                            }
                            let mut v = c.judge(&o);
                            if prop == "C10" {
                                // C10 is about coming back at all: values are judged by the other properties
                                v = match &o {
                                    Out::Panic(m) => Err(format!("panicked: {}", m)),
                                    _ if bytes > byte_budget(c, &o) => {
                                        Err(format!("{} bytes live during the call, budget {}", bytes, byte_budget(c, &o)))
                                    }
                                    _ => Ok(()),
                                };
                            }
                            if let Err(m) = v {
                                t.violations.push((text, m));
                                if t.violations.len() >= 5 {
                                    stop.store(true, Ordering::SeqCst);
                                    break 'all;
                                }
                            }
                        }
                    }
                    let mut g = total.lock().unwrap();
                    g.evaluations += t.evaluations;
                    g.distinct.extend(t.distinct);
                    for (k, v) in t.ops {
                        *g.ops.entry(k).or_default() += v;
                    }
                    for (k, v) in t.kinds {
                        *g.kinds.entry(k).or_default() += v;
                    }
                    g.samples.extend(t.samples);
                    g.violations.extend(t.violations);
                    g.max_bytes = g.max_bytes.max(t.max_bytes);
                    g.max_bits = g.max_bits.max(t.max_bits);
                })
                .unwrap(),
        );
    }
    // watchdog: CPU time of the thread inside one call, not wall-clock time
    while hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(100));
        for s in slots.iter() {
            let cur = s.cur.lock().unwrap().clone();
            if let Some((text, start)) = cur {
                let used = cpu(s.tid.load(Ordering::SeqCst)).saturating_sub(start);
                if used > limit {
                    let again = s.cur.lock().unwrap().clone();
                    if again.map(|a| a.0) == Some(text.clone()) {
                        let mut t = Tally::default();
                        t.violations.push((text, format!("no answer after {} s of CPU time", used.as_secs())));
                        write_report(&out_file, &mut t, cases.len());
                        return 0;
                    }
                }
            }
        }
    }
    for h in hs {
        h.join().unwrap();
    }
    let mut t = total.lock().unwrap();
    write_report(&out_file, &mut t, cases.len());
    0
}

fn write_report(path: &str, t: &mut Tally, generated: usize) {
    t.samples.sort();
    let step = (t.samples.len() / 8).max(1);
    let samples: Vec<String> =
        t.samples.iter().step_by(step).take(10).map(|(c, o)| format!("{{\"case\":{},\"observed\":{}}}", esc(c), esc(o))).collect();
    t.violations.sort_by_key(|v| v.0.len());
    let viol: Vec<String> = t.violations.iter().map(|(c, m)| format!("{{\"case\":{},\"message\":{}}}", esc(c), esc(&clip(m)))).collect();
    let map = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
    let s = format!(
        "{{\"generated\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"ops\":{{{}}},\"outcomes\":{{{}}},\"largest_result_bits\":{},\"largest_call_bytes\":{},\"samples\":[{}],\"violations\":[{}]}}",
        generated,
        t.evaluations,
        t.distinct.len(),
        map(&t.ops),
        map(&t.kinds),
        t.max_bits,
        t.max_bytes,
        samples.join(","),
        viol.join(",")
    );
    std::fs::write(path, s).unwrap();
}

/// judge the cases on stdin (replay)
fn one(prop: &str) -> i32 {
    let mut bad = 0;
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let c = match Case::parse(&l) {
            Some(c) => c,
            None => continue,
        };
        println!("running {}", clip(&l));
        std::io::stdout().flush().unwrap();
        let (o, bytes, _) = measured(&c);
        let mut v = c.judge(&o);
        if prop == "C10" {
            v = match &o {
                Out::Panic(m) => Err(format!("panicked: {}", m)),
                _ if bytes > byte_budget(&c, &o) => Err(format!("{} bytes live during the call, budget {}", bytes, byte_budget(&c, &o))),
                _ => Ok(()),
            };
        }
        match v {
            Ok(()) => println!("  ok: {}", clip(&o.brief())),
            Err(m) => {
                bad += 1;
                println!("  BAD: {}", m);
            }
        }
    }
    (bad > 0) as i32
}

/// run the cases on stdin one after the other and print what came back
fn exec(stop_on_panic: bool) -> i32 {
    let out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        if let Some(c) = Case::parse(&l) {
            let o = c.run_caught();
            let mut w = out.lock();
            writeln!(w, "= {}", o.brief()).unwrap();
            w.flush().unwrap();
            if stop_on_panic && matches!(o, Out::Panic(_)) {
                return 0;
            }
        }
    }
    0
}

/// C12: threads call everything at once, each in its own order, several rounds; every answer is compared with
/// the answer the same call gave in a fresh process ("<case>\t<expected>" on stdin)
fn conc(args: &[String]) -> i32 {
    let n = threads(args);
    let rounds: usize = flag(args, "--rounds").and_then(|s| s.parse().ok()).unwrap_or(3);
    let seed = seed(args);
    let mut list = Vec::new();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let mut p = l.splitn(2, '\t');
        if let (Some(Some(c)), Some(e)) = (p.next().map(Case::parse), p.next()) {
            list.push((c, e.to_string()));
        }
    }
    let list = Arc::new(list);
    let bar = Arc::new(Barrier::new(n));
    let inflight = Arc::new(AtomicUsize::new(0));
    let done = Arc::new(AtomicUsize::new(0));
    let mut hs = Vec::new();
    for k in 0..n {
        let (list, bar, inflight, done) = (list.clone(), bar.clone(), inflight.clone(), done.clone());
        hs.push(std::thread::spawn(move || {
            let mut bad = Vec::new();
            let mut overlap = 0u64;
            let mut orders = HashSet::new();
            for round in 0..rounds {
                let mut r = rng::Rng::new(seed, (k * 1000 + round) as u64);
                let mut order: Vec<usize> = (0..list.len()).collect();
                match round % 3 {
                    // everybody the same call at the same time
                    0 => {}
                    1 => {
                        for i in (1..order.len()).rev() {
                            order.swap(i, r.below(i as u64 + 1) as usize);
                        }
                    }
                    // half the threads backwards
                    _ => {
                        if k % 2 == 1 {
                            order.reverse();
                        }
                    }
                }
                orders.insert(hash(&order));
                bar.wait();
                for (j, i) in order.iter().enumerate() {
                    if round % 3 == 0 && j % 64 == 0 && !cfg!(miri) {
                        bar.wait();
                    }
                    let (c, e) = &list[*i];
                    let others = inflight.fetch_add(1, Ordering::Relaxed);
                    if others > 0 {
                        overlap += 1;
                    }
                    let o = c.run_caught().brief();
                    inflight.fetch_sub(1, Ordering::Relaxed);
                    done.fetch_add(1, Ordering::Relaxed);
                    if o != *e && bad.len() < 3 {
                        bad.push((c.to_string(), format!("round {}: expected {}, got {}", round, clip(e), clip(&o))));
                    }
                }
            }
            (bad, overlap, orders)
        }));
    }
    let start = Instant::now();
    let budget = Duration::from_secs(flag(args, "--stall").and_then(|s| s.parse().ok()).unwrap_or(600));
    // deadlock watchdog: no call finished for a whole interval while the process used no CPU
    let mut last = (0, Duration::from_secs(0), Instant::now());
    while !cfg!(miri) && hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(50));
        let d = done.load(Ordering::SeqCst);
        if d != last.0 {
            last = (d, proc_cpu(), Instant::now());
        } else if last.2.elapsed() > Duration::from_secs(30) && proc_cpu().saturating_sub(last.1) < Duration::from_millis(500) {
            println!("{{\"calls\":{},\"deadlock\":true,\"violations\":[{{\"case\":\"-\",\"message\":\"all threads stopped making progress and use no CPU\"}}]}}", d);
            return 0;
        }
        if start.elapsed() > budget {
            println!("{{\"calls\":{},\"timeout\":true,\"violations\":[]}}", d);
            return 3;
        }
    }
    let mut v = Vec::new();
    let mut overlap = 0;
    let mut orders = HashSet::new();
    for h in hs {
        let (b, o, os) = h.join().unwrap();
        v.extend(b);
        overlap += o;
        orders.extend(os);
    }
    let vs: Vec<String> = v.iter().map(|(c, m)| format!("{{\"case\":{},\"message\":{}}}", esc(c), esc(m))).collect();
    println!(
        "{{\"calls\":{},\"overlapping_calls\":{},\"distinct_orders\":{},\"threads\":{},\"rounds\":{},\"violations\":[{}]}}",
        done.load(Ordering::SeqCst),
        overlap,
        orders.len(),
        n,
        rounds,
        vs.join(",")
    );
    0
}
fn proc_cpu() -> Duration {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t: u64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse().ok()).unwrap_or(0);
    Duration::from_millis(t * 10)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => check(&args[1..]),
        Some("one") => one(&args[1]),
        Some("exec") => exec(args.iter().any(|a| a == "--stop-on-panic")),
        Some("conc") => conc(&args[1..]),
        Some("mixed") => {
            let n = flag(&args, "--per").and_then(|s| s.parse().ok()).unwrap_or(200);
            for c in gen::mixed(tier(&args), seed(&args), n) {
                println!("{}", c);
            }
            0
        }
        Some("selftest") => selftest(),
        _ => {
            eprintln!("usage: alg check|one|exec|conc|mixed|selftest");
            2
        }
    };
    if code != 0 {
        std::process::exit(code);
    }
}

/// the reference computations agree with each other and with the published values
fn selftest() -> i32 {
    let (s, c) = refs::Sieve::new(2_000_000).prefix();
    for n in (0..20_000u64).chain((20_000..2_000_000).step_by(4999)) {
        assert_eq!(refs::lucy(n), (s[n as usize], c[n as usize]), "lucy {}", n);
    }
    for k in 0..=11 {
        let n = 10u64.pow(k);
        let (a, b) = refs::lucy(n);
        assert_eq!(a.to_string(), refs::SUM10[k as usize]);
        assert_eq!(b.to_string(), refs::PI10[k as usize]);
    }
    let (mut a, mut b) = (num::BigUint::from(0u32), num::BigUint::from(1u32));
    for n in 0..2000 {
        assert_eq!(refs::fibonacci(n), a);
        let t = &a + &b;
        a = b;
        b = t;
    }
    let mut f = num::BigUint::from(1u32);
    for n in 1..600u64 {
        f = f * n;
        assert_eq!(refs::factorial(n), f);
    }
    for a in -20i64..20 {
        let mut p = BigInt::from(1);
        for e in 0..60 {
            assert_eq!(refs::pow(&BigInt::from(a), e), p);
            p = p * a;
        }
    }
    println!("ok");
    0
}
