//! C21: histories of one or several sessions, and the shared playground session.
use crate::gen::*;
use crate::props::{any_text, evaluable, heavier, parse};
use crate::rng::Rng;
use crate::tree::*;
use crate::{caught, Obs};
use sm_ast::{Runner, ToTex};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};

/// what an input does in a session of its own
#[derive(Clone, PartialEq, Debug)]
struct Fresh {
    answer: Result<String, String>,
    last: Result<N, String>,
    tex: String,
}
fn fresh(s: &str) -> Result<Fresh, String> {
    caught(|| {
        let mut r = Runner::default();
        let answer = r.evaluate(s).map_err(|e| format!("{:?}", e));
        let l = r.last();
        Fresh { answer, tex: l.as_ref().map(|a| a.to_tex()).unwrap_or_else(|e| format!("{:?}", e)), last: l.map(|a| from_ast(&a)).map_err(|e| format!("{:?}", e)) }
    })
}
fn input(r: &mut Rng) -> String {
    loop {
        let s = match r.below(8) {
            0..=4 => {
                let e = evaluable(r);
                let (toks, _, _) = render(&e, r, PLAIN);
                lay(&toks, r, Lay::Blanks, false).0
            }
            5 => r.pick(&["1+", "f(", "", ";", "x y z (", "1/0", "0^0", "2^-1", "first(\"\")", "last(\"ab\")", "1; 2", "{a: 1}", "let x = 3", "x", "#", "¶", "¶1", "⁋", "⁋1", "last", "add(1,2)(3)", "\"\"", "null"]).to_string(),
            6 => {
                let n = r.below(30);
                r.pick(&["N+N", "N!", "fibonacci(N)", "N*N", "N^2", "length(\"N\")", "N", "unknown(N)", "N+x"]).replace('N', &n.to_string())
            }
            _ => any_text(r, &mut Obs::default()),
        };
        // in the domain of heavy calculations nothing is learned about sessions
        if !matches!(parse(&s), Ok(a) if heavier(&from_ast(&a), 2000, 200)) {
            return s;
        }
    }
}

/// a text that differs from `s` in one place only
fn near(s: &str, r: &mut Rng) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut out = c.clone();
    let at = |r: &mut Rng, p: &dyn Fn(&char) -> bool| {
        let v: Vec<usize> = c.iter().enumerate().filter(|(_, x)| p(x)).map(|(i, _)| i).collect();
        if v.is_empty() { None } else { Some(*r.pick(&v)) }
    };
    match r.below(10) {
        // a digit
        0 | 1 => if let Some(i) = at(r, &|x| x.is_ascii_digit()) { out[i] = char::from(b'0' + r.below(10) as u8) },
        // blanks: one more, one less, another kind
        2 => if let Some(i) = at(r, &|x| x.is_whitespace()) { out.insert(i, c[i]) },
        3 => if let Some(i) = at(r, &|x| x.is_whitespace()) { out.remove(i); },
        4 => if let Some(i) = at(r, &|x| x.is_whitespace()) { out[i] = *r.pick(&[' ', '\t', '\n', '\u{a0}']) },
        5 => out.insert(r.below(c.len() + 1), ' '),
        // letter case
        6 => if let Some(i) = at(r, &|x| x.is_alphabetic()) { out[i] = if c[i].is_uppercase() { c[i].to_lowercase().next().unwrap() } else { c[i].to_uppercase().next().unwrap() } },
        // one character more or less
        7 => if !c.is_empty() { out.truncate(c.len() - 1) },
        8 => out.push(*r.pick(&[';', ' ', '1', 'x', '!', ')'])),
        _ => if c.len() > 1 { let i = r.below(c.len() - 1); out.swap(i, i + 1) },
    }
    let s2: String = out.into_iter().collect();
    if matches!(caught(|| parse(&s2)), Ok(Ok(a)) if heavier(&from_ast(&a), 2000, 200)) { s.to_string() } else { s2 }
}

/// calls of string functions, whose blanks matter
fn strings(r: &mut Rng) -> String {
    let w: String = (0..r.range(1, 5)).map(|_| *r.pick(&[" ", "  ", "a", "b ", "é", "\t", "x y", "0", "1", "\n"])).collect();
    r.pick(&["length(\"W\")", "\"W\"", "first(\"W\")", "last(\"W\")", "first( \"W\" )", "length( \"\"\"W\"\"\")"]).replace('W', &w)
}

static PLAYGROUND: Mutex<()> = Mutex::new(());

pub fn history(r: &mut Rng, o: &mut Obs) -> Result<(), String> {
    // model: per session, what the last input did in a fresh session
    let mut live: Vec<(Runner, Option<Fresh>)> = vec![(Runner::default(), None)];
    let mut log: Vec<String> = vec![];
    let mut pool: Vec<String> = (0..r.range(2, 8)).map(|_| if r.chance(1, 4) { strings(r) } else { input(r) }).collect();
    // some of them come with texts that are nearly the same
    for i in 0..pool.len() {
        if r.chance(1, 3) {
            for _ in 0..r.range(1, 3) {
                pool.push(near(&pool[i], r));
            }
        }
    }
    let steps = if r.chance(1, 40) { r.range(100, 300) } else { r.range(3, 40) };
    let play = cfg!(not(miri)) && r.chance(1, 3);
    // the playground session is shared by the whole process
    let guard = if play { Some(PLAYGROUND.lock().unwrap_or_else(|e| e.into_inner())) } else { None };
    let mut shown: Option<Fresh> = None;
    for _ in 0..steps {
        let k = r.below(live.len());
        match r.below(12) {
            0 if live.len() < 4 => {
                let c = (live[k].0.clone(), live[k].1.clone());
                live.push(c);
                log.push(format!("s{} = clone of s{}", live.len() - 1, k));
                o.tag("clone");
            }
            1 if live.len() < 4 => {
                live.push((Runner::default(), None));
                log.push(format!("s{} = new", live.len() - 1));
            }
            2 | 3 => {
                log.push(format!("s{}.last()", k));
                o.about(&log.join("\n"));
                let (run, model) = &live[k];
                let l = caught(|| run.last()).map_err(|p| format!("last panicked: {}", p))?;
                let got = l.map(|a| from_ast(&a)).map_err(|e| format!("{:?}", e));
                check_last(model.as_ref(), &got)?;
                o.tag(if got.is_ok() { "last: value" } else { "last: error" });
            }
            4 if play => {
                log.push("playground result_tex".into());
                o.about(&log.join("\n"));
                let t = caught(sm_playground::result_tex).map_err(|p| format!("result_tex panicked: {}", p))?;
                if let Some(f) = &shown {
                    o.tag("playground result_tex");
                    if t != f.tex {
                        return Err(format!("result_tex answers {:?}, the session's last result renders as {:?}", t, f.tex));
                    }
                }
            }
            5 if play => {
                let s = if r.chance(1, 2) { r.pick(&pool).clone() } else { input(r) };
                log.push(format!("playground result({:?})", s));
                o.about(&log.join("\n"));
                let f = fresh(&s)?;
                let got = caught(|| sm_playground::result(&s)).map_err(|p| format!("result panicked: {}", p))?;
                let want = f.answer.clone().unwrap_or_else(|e| e);
                if got != want {
                    return Err(format!("the playground answers {:?}, a fresh session {:?}", clip(&got), clip(&want)));
                }
                o.tag("playground result");
                shown = Some(f);
            }
            _ => {
                let s = if r.chance(1, 2) { r.pick(&pool).clone() } else { input(r) };
                log.push(format!("s{}.evaluate({:?})", k, s));
                o.about(&log.join("\n"));
                let f = fresh(&s)?;
                let (run, model) = &mut live[k];
                let got = caught(|| run.evaluate(&s)).map_err(|p| format!("evaluate panicked: {}", p))?.map_err(|e| format!("{:?}", e));
                if got != f.answer {
                    return Err(format!("{:?} answers {:?} here and {:?} in a fresh session", s, got, f.answer));
                }
                o.tag(if got.is_ok() { "input succeeds" } else { "input fails" });
                *model = Some(f);
                // at once, half of the time
                if r.chance(1, 2) {
                    let l = caught(|| run.last()).map_err(|p| format!("last panicked: {}", p))?.map(|a| from_ast(&a)).map_err(|e| format!("{:?}", e));
                    check_last(model.as_ref(), &l)?;
                }
            }
        }
        o.events += 1;
    }
    drop(guard);
    // every session still knows its own last result, and is still usable
    for (k, (run, model)) in live.iter_mut().enumerate() {
        let l = caught(|| run.last()).map_err(|p| format!("last panicked: {}", p))?.map(|a| from_ast(&a)).map_err(|e| format!("{:?}", e));
        check_last(model.as_ref(), &l).map_err(|m| format!("at the end, session {}: {}", k, m))?;
        let v = caught(|| run.evaluate("20+22")).map_err(|p| format!("evaluate panicked: {}", p))?;
        if v.as_ref().map(|s| s.as_str()).ok() != Some("42") {
            return Err(format!("at the end session {} answers {:?} to 20+22", k, v));
        }
    }
    o.nontrivial = log.len() > 3;
    o.outcome = format!("{} steps over {} sessions agree with fresh sessions", log.len(), live.len());
    Ok(())
}

fn check_last(model: Option<&Fresh>, got: &Result<N, String>) -> Result<(), String> {
    match (model, got) {
        (None, Ok(g)) => Err(format!("nothing was entered, but the last result is {}", clip(&g.show()))),
        (None, Err(_)) => Ok(()),
        (Some(f), g) => match (&f.answer, &f.last, g) {
            (Ok(_), Ok(w), Ok(g)) => w.diff(g).map_or(Ok(()), |d| Err(format!("last result: {}", d))),
            (Ok(_), _, Err(e)) => Err(format!("the last input succeeded, but asking for its result fails: {}", e)),
            (Err(_), _, Ok(g)) => Err(format!("the last input failed, but the last result is {}", clip(&g.show()))),
            (Err(_), _, Err(_)) => Ok(()),
            (Ok(_), Err(e), _) => Err(format!("a fresh session has no result after a successful input: {}", e)),
        },
    }
}

/// The playground from several threads: every answer must be the answer of a fresh session, and every rendering
/// that of an input that may have been the latest at that moment (checked offline over the recorded intervals).
pub fn threads(seed: u64, n: usize, steps: usize) -> i32 {
    let clock = Arc::new(AtomicU64::new(1));
    let bar = Arc::new(Barrier::new(n));
    let mut r0 = Rng::new(seed, 77);
    let mut pool = vec![];
    while pool.len() < 24 {
        let s = input(&mut r0);
        match fresh(&s) {
            Ok(f) => pool.push((s, f)),
            Err(e) => {
                println!("BAD {:?}: {}", s, e);
                return 1;
            }
        }
    }
    let pool = Arc::new(pool);
    // (thread, start, end, Some(input) for result, None for result_tex, observed)
    let events = Arc::new(Mutex::new(vec![]));
    let hs: Vec<_> = (0..n)
        .map(|k| {
            let (clock, bar, pool, events) = (clock.clone(), bar.clone(), pool.clone(), events.clone());
            std::thread::spawn(move || {
                let mut r = Rng::new(seed, 1000 + k as u64);
                let mut mine = vec![];
                bar.wait();
                for _ in 0..steps {
                    let which = if r.chance(2, 3) { Some(r.below(pool.len())) } else { None };
                    let a = clock.fetch_add(1, Ordering::SeqCst);
                    let got = caught(|| match which {
                        Some(i) => sm_playground::result(&pool[i].0),
                        None => sm_playground::result_tex(),
                    });
                    let b = clock.fetch_add(1, Ordering::SeqCst);
                    mine.push((a, b, which, got));
                    if r.chance(1, 6) {
                        std::thread::yield_now();
                    }
                }
                events.lock().unwrap().extend(mine);
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            println!("BAD a thread died");
            return 1;
        }
    }
    let ev = std::mem::take(&mut *events.lock().unwrap());
    let puts: Vec<(u64, u64, usize)> = ev.iter().filter_map(|e| e.2.map(|i| (e.0, e.1, i))).collect();
    // by end: the latest start of any input that ended so far
    let mut ended: Vec<(u64, u64)> = puts.iter().map(|p| (p.1, p.0)).collect();
    ended.sort();
    let mut m = 0;
    for e in ended.iter_mut() {
        m = m.max(e.1);
        e.1 = m;
    }
    let mut starts: Vec<u64> = ev.iter().map(|e| e.0).collect();
    let mut ends: Vec<u64> = ev.iter().map(|e| e.1).collect();
    starts.sort();
    ends.sort();
    let mut overlap = 0;
    let mut several = 0;
    for (a, b, which, got) in &ev {
        let got = match got {
            Ok(s) => s,
            Err(p) => {
                println!("BAD panicked: {}", p);
                return 1;
            }
        };
        if starts.partition_point(|s| s < b) - ends.partition_point(|e| e <= a) > 1 {
            overlap += 1;
        }
        match which {
            Some(i) => {
                let want = pool[*i].1.answer.clone().unwrap_or_else(|e| e);
                if *got != want {
                    println!("BAD {:?} answers {:?}, in a fresh session {:?}", pool[*i].0, got, want);
                    return 1;
                }
            }
            None => {
                // inputs that can have been the latest: begun before the end of this call and not surely overwritten
                let k = ended.partition_point(|e| e.0 < *a);
                let over = if k == 0 { 0 } else { ended[k - 1].1 };
                let mut ok: Vec<&str> = puts.iter().filter(|p| p.0 < *b && p.1 >= over).map(|p| pool[p.2].1.tex.as_str()).collect();
                ok.sort();
                ok.dedup();
                if ok.len() > 1 {
                    several += 1;
                }
                let early = k == 0;
                if !ok.contains(&got.as_str()) && !early {
                    println!("BAD result_tex answers {:?}, the latest result was one of {:?}", got, ok);
                    return 1;
                }
            }
        }
    }
    println!("{{\"threads\":{},\"calls\":{},\"overlapping_calls\":{},\"renderings_with_several_candidates\":{},\"inputs\":{}}}", n, ev.len(), overlap, several, pool.len());
    0
}
