//! C24: the shipped recogniser against one derived now from the published grammar file.
mod rng;
#[path = "../../shared/words.rs"]
mod words;
#[allow(non_camel_case_types, dead_code)]
mod derived {
    include!(concat!(env!("OUT_DIR"), "/derived.rs"));
}

use pest::Parser;
use pest_meta::ast::{Expr, Rule as GRule, RuleType};
use rng::Rng;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::num::NonZeroUsize;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

const GRAMMAR: &str = include_str!(concat!(env!("OUT_DIR"), "/grammar.pest"));
const LIMIT: usize = 60_000;

// ------------------------------------------------------------------ sentences of the grammar

struct Gen {
    rules: HashMap<String, GRule>,
    depth: HashMap<String, usize>,
    words: Vec<String>,
}

/// what the generator carries along
#[derive(Default)]
struct St {
    /// pushed texts
    stack: Vec<String>,
    /// one node in so many is written wrong: an alternative that is not there, one piece too many or too few
    twist: usize,
    twisted: usize,
    /// no text longer than this is continued
    room: usize,
}

const SPACE: &[&str] = &[" ", " ", " ", "  ", "\t", "\n", "\r\n", "\r", "\u{3000}", "\u{85}", "\u{a0}"];
const COMMENTS: &[&str] = &["/// c\n", "//? x + 1\n", "//!\n", "//* é\n", "%%% b %%%", "%%%%%%", "%%% a %%% n %%% b %%%", "///"];
const ODD: &[&str] = &[
    "é", "中", "𝒳", "\u{301}", "\u{200d}", "_", "\u{0}", "\u{feff}", "\"", "\"\"\"", "\\", "'", "(", ")", "[", "]", "{", "}", ",", "，", ";", "；", ";;", ":", "：", "::", "∷", "/", "//", "///", "%", "%%%", "<", ">", "=", "==", "!", "!!", "#", "##", "¶", "⁋", "0", "00", "0x", "0b1", "1.", ".5", "√", "@", "`", "~", "×", "÷", "⋅", "⊗", "⊙", "¬", "*", "+", "-", "^", ".", "?", "\n", " ", "null", "true", "falsey", "let", "def", "if",
];

fn min_depth(e: &Expr, d: &HashMap<String, usize>) -> usize {
    match e {
        Expr::Ident(n) => d.get(n).copied().unwrap_or(0),
        Expr::Seq(a, b) => min_depth(a, d).max(min_depth(b, d)),
        Expr::Choice(a, b) => min_depth(a, d).min(min_depth(b, d)),
        Expr::RepOnce(a) | Expr::RepExact(a, _) | Expr::RepMin(a, _) | Expr::RepMinMax(a, _, _) | Expr::Push(a) => min_depth(a, d),
        _ => 0,
    }
}

fn alternatives<'a>(e: &'a Expr, out: &mut Vec<&'a Expr>) {
    if let Expr::Choice(a, b) = e {
        alternatives(a, out);
        alternatives(b, out);
    }
    else {
        out.push(e)
    }
}

impl Gen {
    fn new() -> Gen {
        let pairs = pest_meta::parser::parse(pest_meta::parser::Rule::grammar_rules, GRAMMAR).unwrap();
        let list = pest_meta::parser::consume_rules(pairs).unwrap();
        let mut words = HashSet::new();
        for r in &list {
            for e in r.expr.iter_top_down() {
                if let Expr::Str(s) | Expr::Insens(s) = e {
                    words.insert(s);
                }
            }
        }
        // words that the recogniser's source has and the grammar may not have
        let own: HashSet<String> = words::words().strs.new.iter().chain(&words::words().names.new).cloned().collect();
        words.extend(own);
        let mut words: Vec<String> = words.into_iter().collect();
        words.sort();
        let rules: HashMap<String, GRule> = list.into_iter().map(|r| (r.name.clone(), r)).collect();
        let mut depth: HashMap<String, usize> = rules.keys().map(|k| (k.clone(), 1000)).collect();
        for _ in 0..200 {
            for (k, r) in &rules {
                let v = (1 + min_depth(&r.expr, &depth)).min(1000);
                depth.insert(k.clone(), v);
            }
        }
        Gen { rules, depth, words }
    }

    fn gap(&self, r: &mut Rng, o: &mut String) {
        for _ in 0..*r.pick(&[0, 0, 1, 1, 1, 2]) {
            o.push_str(if r.chance(1, 9) { r.pick(COMMENTS) } else { r.pick(SPACE) });
        }
    }

    fn rule(&self, n: &str, budget: usize, atomic: bool, r: &mut Rng, st: &mut St, o: &mut String) {
        let g = match self.rules.get(n) {
            None => return self.builtin(n, r, st, o),
            Some(g) => g,
        };
        let at = match g.ty {
            RuleType::Normal | RuleType::Silent => atomic,
            RuleType::Atomic | RuleType::CompoundAtomic => true,
            RuleType::NonAtomic => false,
        };
        self.expr(&g.expr, budget.saturating_sub(1), at, r, st, o)
    }

    fn builtin(&self, n: &str, r: &mut Rng, st: &mut St, o: &mut String) {
        let from = |r: &mut Rng, s: &str| r.pick(&s.chars().collect::<Vec<_>>()).to_string();
        let s = match n {
            "ANY" => match r.below(4) {
                0 => r.pick(ODD).chars().next().unwrap().to_string(),
                _ => from(r, "abcxyz 0189.+-*\"\\\n%"),
            },
            "NEWLINE" => r.pick(&["\n", "\r\n", "\r"]).to_string(),
            "WHITE_SPACE" => r.pick(SPACE).to_string(),
            "ASCII_DIGIT" => from(r, "0123456789"),
            "ASCII_NONZERO_DIGIT" => from(r, "123456789"),
            "ASCII_BIN_DIGIT" => from(r, "01"),
            "ASCII_OCT_DIGIT" => from(r, "01234567"),
            "ASCII_HEX_DIGIT" => from(r, "0123456789abcdefABCDEF"),
            "XID_START" => from(r, "abcfxyzABZ\u{e9}\u{4e2d}\u{1d4b3}"),
            "XID_CONTINUE" => from(r, "abcxyz09_\u{e9}\u{301}\u{b7}"),
            "PEEK" => st.stack.last().cloned().unwrap_or_default(),
            "POP" => st.stack.pop().unwrap_or_default(),
            _ => String::new(),
        };
        o.push_str(&s);
    }

    fn expr(&self, e: &Expr, budget: usize, atomic: bool, r: &mut Rng, st: &mut St, o: &mut String) {
        let rep = |g: &Self, a: &Expr, n: usize, r: &mut Rng, st: &mut St, o: &mut String| {
            for i in 0..n {
                if i > 0 && !atomic {
                    g.gap(r, o);
                }
                g.expr(a, budget, atomic, r, st, o);
            }
        };
        if o.len() > st.room {
            return;
        }
        let room = st.room;
        let many = |g: &Self, a: &Expr, r: &mut Rng| {
            if min_depth(a, &g.depth) > budget {
                0
            }
            else if room > 400 && r.chance(1, 12) {
                *r.pick(&[5, 8, 9, 16, 17, 32, 64, 65, 100, 128, 256, 257])
            }
            else {
                *r.pick(&[0, 0, 0, 1, 1, 1, 2, 3])
            }
        };
        if st.twist > 0 && st.twisted < 2 && r.chance(1, st.twist) {
            st.twisted += 1;
            return self.twisted(e, budget, atomic, r, st, o);
        }
        match e {
            Expr::Str(s) => o.push_str(s),
            Expr::Insens(s) => {
                for c in s.chars() {
                    o.push(if r.chance(1, 3) { c.to_ascii_uppercase() } else { c })
                }
            }
            Expr::Range(a, b) => {
                let (a, b) = (a.chars().next().unwrap() as u32, b.chars().next().unwrap() as u32);
                o.push(char::from_u32(r.range(a as usize, b as usize) as u32).unwrap_or('a'))
            }
            Expr::Ident(n) => self.rule(n, budget, atomic, r, st, o),
            Expr::Seq(a, b) => {
                self.expr(a, budget, atomic, r, st, o);
                if !atomic {
                    self.gap(r, o);
                }
                self.expr(b, budget, atomic, r, st, o);
            }
            Expr::Choice(..) => {
                let mut v = vec![];
                alternatives(e, &mut v);
                let fit: Vec<&Expr> = v.iter().copied().filter(|x| min_depth(x, &self.depth) <= budget).collect();
                let a = if fit.is_empty() { *v.iter().min_by_key(|x| min_depth(x, &self.depth)).unwrap() } else { *r.pick(&fit) };
                self.expr(a, budget, atomic, r, st, o)
            }
            Expr::Opt(a) => {
                if r.chance(1, 2) && min_depth(a, &self.depth) <= budget {
                    self.expr(a, budget, atomic, r, st, o)
                }
            }
            Expr::Rep(a) => {
                let n = many(self, a, r);
                rep(self, a, n, r, st, o)
            }
            Expr::RepOnce(a) => {
                let n = many(self, a, r).max(1);
                rep(self, a, n, r, st, o)
            }
            Expr::RepExact(a, n) => rep(self, a, *n as usize, r, st, o),
            Expr::RepMin(a, n) => {
                let k = *n as usize + many(self, a, r);
                rep(self, a, k, r, st, o)
            }
            Expr::RepMax(a, n) => {
                let k = r.below(*n as usize + 1);
                rep(self, a, k, r, st, o)
            }
            Expr::RepMinMax(a, m, n) => {
                let k = r.range(*m as usize, *n as usize);
                rep(self, a, k, r, st, o)
            }
            Expr::Push(a) => {
                let at = o.len();
                self.expr(a, budget, atomic, r, st, o);
                st.stack.push(o[at..].to_string());
            }
            _ => {}
        }
    }

    /// something like the expression that it does not describe
    fn twisted(&self, e: &Expr, budget: usize, atomic: bool, r: &mut Rng, st: &mut St, o: &mut String) {
        let any_rule = |g: &Self, r: &mut Rng| {
            let mut v: Vec<&String> = g.rules.keys().collect();
            v.sort();
            r.pick(&v).to_string()
        };
        match e {
            Expr::Str(s) | Expr::Insens(s) => {
                let c: Vec<char> = s.chars().collect();
                match r.below(7) {
                    0 => o.push_str(&s.to_uppercase()),
                    1 => {
                        o.push_str(s);
                        o.push_str(s)
                    }
                    2 => o.extend(&c[..c.len().saturating_sub(1)]),
                    3 => {
                        o.push_str(s);
                        o.push(*r.pick(&['x', 'é', '0', '_', ':', '=', '!', ' ']))
                    }
                    4 if c.len() > 1 => {
                        let at = r.range(1, c.len() - 1);
                        o.extend(&c[..at]);
                        o.push_str(r.pick(SPACE));
                        o.extend(&c[at..]);
                    }
                    _ => o.push_str(r.pick(&self.words)),
                }
            }
            Expr::Range(a, b) => {
                let (a, b) = (a.chars().next().unwrap() as u32, b.chars().next().unwrap() as u32);
                o.push(char::from_u32(if r.chance(1, 2) { b + 1 } else { a.saturating_sub(1) }).unwrap_or('a'))
            }
            Expr::Ident(n) => match r.below(6) {
                0 => {}
                1 => {
                    self.rule(n, budget, atomic, r, st, o);
                    if !atomic || r.chance(1, 3) {
                        self.gap(r, o);
                    }
                    self.rule(n, budget, atomic, r, st, o);
                }
                2 => {
                    // a blank where none belongs, or none at all
                    o.push_str(r.pick(SPACE));
                    self.rule(n, budget, !atomic, r, st, o);
                }
                3 => self.rule(n, budget, !atomic, r, st, o),
                _ => {
                    let k = any_rule(self, r);
                    self.rule(&k, budget.min(8), atomic, r, st, o)
                }
            },
            Expr::Seq(a, b) => match r.below(5) {
                0 => self.expr(a, budget, atomic, r, st, o),
                1 => self.expr(b, budget, atomic, r, st, o),
                2 => {
                    self.expr(b, budget, atomic, r, st, o);
                    self.expr(a, budget, atomic, r, st, o);
                }
                3 => {
                    self.expr(a, budget, atomic, r, st, o);
                    o.push_str(r.pick(SPACE));
                    self.expr(b, budget, atomic, r, st, o);
                }
                _ => {
                    self.expr(a, budget, atomic, r, st, o);
                    o.push_str(if r.chance(1, 2) { *r.pick(ODD) } else { r.pick(&self.words).as_str() });
                    self.expr(b, budget, atomic, r, st, o);
                }
            },
            Expr::Choice(..) => {
                let mut v = vec![];
                alternatives(e, &mut v);
                for _ in 0..r.range(0, 2) {
                    let a = *r.pick(&v);
                    if min_depth(a, &self.depth) <= budget {
                        self.expr(a, budget, atomic, r, st, o);
                        if !atomic {
                            self.gap(r, o);
                        }
                    }
                }
            }
            Expr::Opt(a) | Expr::Rep(a) | Expr::RepOnce(a) | Expr::RepExact(a, _) | Expr::RepMin(a, _) | Expr::RepMax(a, _) | Expr::RepMinMax(a, _, _) => {
                for _ in 0..*r.pick(&[0usize, 2, 2, 3, 4]) {
                    if min_depth(a, &self.depth) <= budget {
                        self.expr(a, budget, atomic, r, st, o);
                        if !atomic || r.chance(1, 6) {
                            self.gap(r, o);
                        }
                    }
                }
            }
            Expr::Push(a) => {
                self.expr(a, budget, atomic, r, st, o);
                st.stack.push(r.pick(ODD).to_string());
            }
            _ => o.push_str(r.pick(ODD)),
        }
    }

    fn mutate(&self, s: &str, r: &mut Rng) -> String {
        let mut c: Vec<char> = s.chars().collect();
        for _ in 0..r.range(1, 3) {
            let at = r.below(c.len() + 1);
            let piece: Vec<char> = match r.below(3) {
                0 => r.pick(ODD).chars().collect(),
                1 => r.pick(&self.words).chars().collect(),
                _ => r.pick(SPACE).chars().collect(),
            };
            match r.below(6) {
                0 | 1 => {
                    c.splice(at..at, piece);
                }
                2 if at < c.len() => {
                    c.remove(at);
                }
                3 if at < c.len() => {
                    c.splice(at..at + 1, piece);
                }
                4 => c.truncate(at),
                5 if !c.is_empty() => {
                    let a = r.below(c.len());
                    let b = (a + r.range(1, 6)).min(c.len());
                    let cut: Vec<char> = c[a..b].to_vec();
                    c.splice(at..at, cut);
                }
                _ => {}
            }
        }
        c.into_iter().collect()
    }
}

// ------------------------------------------------------------------ comparison

#[derive(PartialEq, Eq, Hash, Clone, Debug)]
enum Seen {
    Tree(Vec<(String, usize, usize, usize)>),
    Rejected,
    Limit,
    Panic(String),
}

fn walk<R: pest::RuleType>(p: pest::iterators::Pairs<R>, depth: usize, o: &mut Vec<(String, usize, usize, usize)>) {
    for q in p {
        let s = q.as_span();
        o.push((format!("{:?}", q.as_rule()), depth, s.start(), s.end()));
        walk(q.into_inner(), depth + 1, o);
    }
}

fn see<R: pest::RuleType, P: Parser<R>>(rule: R, text: &str) -> Seen {
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match P::parse(rule, text) {
        Ok(p) => {
            let mut o = vec![];
            walk(p, 0, &mut o);
            Seen::Tree(o)
        }
        Err(e) => match e.variant {
            pest::error::ErrorVariant::CustomError { .. } => Seen::Limit,
            _ => Seen::Rejected,
        },
    }));
    res.unwrap_or_else(|e| Seen::Panic(e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or_default()))
}

fn brief(s: &Seen) -> String {
    match s {
        Seen::Tree(t) => {
            let v: Vec<String> = t.iter().take(40).map(|(n, d, a, b)| format!("{}{}[{}..{}]", ">".repeat(*d), n, a, b)).collect();
            format!("accepted: {}", v.join(" "))
        }
        x => format!("{:?}", x),
    }
}

/// Ok(what was seen) or the difference
fn judge(rule: usize, text: &str) -> Result<Seen, String> {
    let es = derived::entries();
    let (name, d, s) = &es[rule];
    let s = match s {
        Some(s) => *s,
        None => return Err(format!("rule {} of the grammar does not exist in the recogniser", name)),
    };
    let pair = || (see::<_, derived::Derived>(*d, text), see::<_, sm_parser::SMParser>(s, text));
    let (a, b) = pair();
    if a == b {
        return Ok(a);
    }
    if a == Seen::Limit || b == Seen::Limit {
        return Ok(Seen::Limit);
    }
    // both must stay as they are with more room: a parse cut short by the call limit is not a difference
    let _g = DEEP.lock().unwrap();
    pest::set_call_limit(NonZeroUsize::new(LIMIT * 200));
    let again = pair();
    pest::set_call_limit(NonZeroUsize::new(LIMIT));
    if again.0 == again.1 || (again.0.clone(), again.1.clone()) != (a.clone(), b.clone()) {
        return Ok(Seen::Limit);
    }
    Err(format!("rule {} on {:?}\n   grammar file: {}\n   recogniser:   {}", name, text, brief(&a), brief(&b)))
}
static DEEP: Mutex<()> = Mutex::new(());

fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{:02x}", b)).collect()
}
fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn flag(a: &[String], n: &str) -> Option<String> {
    a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned())
}

const FIXED: &[&str] = &[
    "", "0", "1.05", "007", "0xFF", "0b1_0", "0X_1", "a", "a::b", "a∷b", "null", "nullable", "true", "\"\"", "\"a\\\"b\"", "\"\"\" \"\" \"\"\"", "\"\"\"\"a\"\"\"\"", "r\"x\"", "¶", "¶¶1", "⁋12", "#", "#1", "##", "##2", "#a", "[]", "[1,2,]", "{}", "{a:1}", "f(x)(y)", "f(a:1,b)", "2x", "2 x y", "f (x)", "f\n(x)", "a[1:2:3]", "a[::]", "a[,]", "a.b(1).2", "-+!x!!!", "1+2*3^4", "1 //* c\n+2", "%%% a %%% 1", "let x = 1", "letter", "def f(x) = x", "def f(x: A = 1): B { x; y }", "using a.b.{c, d as e}", "using \"x\" as y", "class A {a; def b(c) = d; @e f}", "trait T", "extends A with B {}", "if (a) {b, c, d}", "if a then {b} else {c} otherwise {d}", "for i in x {i}", "return 1", "break", "pass;", "@a(1) @[b] c", "a'(x)", "f''", "1;2;;3", "( 1 )", "(\n1 /// x\n)", "a = b", "a == b", "a >= b", "a % b", "a // b", "√4", "x?", "1 %%% %%% 2",
];

fn main() {
    if std::env::var_os("LOUD").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args: Vec<String> = std::env::args().skip(1).collect();
    let names: Vec<&str> = derived::entries().iter().map(|e| e.0).collect();
    match args.first().map(|s| s.as_str()) {
        Some("one") => {
            pest::set_call_limit(NonZeroUsize::new(LIMIT));
            let rule = names.iter().position(|n| *n == args[1]);
            let r = match rule {
                Some(r) => judge(r, &unhex(args.get(2).map(|s| s.as_str()).unwrap_or(""))),
                None => Ok(Seen::Rejected),
            };
            match r {
                Ok(s) => println!("same: {}", brief(&s)),
                Err(m) => {
                    println!("{}", m);
                    std::process::exit(1)
                }
            }
        }
        Some("check") => check(&args, &names),
        _ => {
            eprintln!("usage: grammar check|one");
            std::process::exit(2)
        }
    }
}

#[derive(Default)]
struct Tally {
    n: u64,
    distinct: HashSet<u64>,
    kinds: BTreeMap<&'static str, u64>,
    rules: BTreeMap<String, u64>,
    entries: BTreeMap<String, [u64; 2]>,
    samples: Vec<String>,
    bad: Vec<(String, String)>,
}

fn check(args: &[String], names: &[&'static str]) {
    let seed: u64 = flag(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let per: usize = flag(args, "--per").and_then(|s| s.parse().ok()).unwrap_or(2000);
    let out = flag(args, "--out").unwrap();
    // the grammar file itself is read without a limit
    let g = Arc::new(Gen::new());
    pest::set_call_limit(NonZeroUsize::new(LIMIT));
    let next = Arc::new(AtomicUsize::new(0));
    let total = Arc::new(Mutex::new(Tally::default()));
    let names: Arc<Vec<&'static str>> = Arc::new(names.to_vec());
    // the entry points a user's text goes through get more
    let weight = |n: &str| match n {
        "program" | "statement" => 12,
        "expression" | "expr" | "term" | "node" | "data" => 6,
        _ => 1,
    };
    let mut jobs = vec![];
    for (i, n) in names.iter().enumerate() {
        for k in 0..weight(n) {
            jobs.push((i, k));
        }
    }
    let jobs = Arc::new(jobs);
    let hs: Vec<_> = (0..8)
        .map(|_| {
            let (g, next, total, names, jobs) = (g.clone(), next.clone(), total.clone(), names.clone(), jobs.clone());
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || loop {
                    let j = next.fetch_add(1, Ordering::SeqCst);
                    if j >= jobs.len() {
                        break;
                    }
                    let (rule, k) = jobs[j];
                    let mut r = Rng::new(seed, (rule * 100 + k) as u64);
                    let mut t = Tally::default();
                    for i in 0..per + FIXED.len() {
                        let text = if k == 0 && i < FIXED.len() {
                            FIXED[i].to_string()
                        }
                        else {
                            // a sentence of this rule, sometimes of another one, whole or damaged
                            let n = if r.chance(1, 12) { *r.pick(&names) } else { names[rule] };
                            let mut s = String::new();
                            if r.chance(1, 4) {
                                g.gap(&mut r, &mut s);
                            }
                            let depth = g.depth.get(n).copied().unwrap_or(1).min(60) + r.range(0, 14);
                            let twist = *r.pick(&[0, 0, 0, 12, 40, 100]);
                            let room = if r.chance(1, 40) { 4000 } else { 400 };
                            g.rule(n, depth, false, &mut r, &mut St { twist, room, ..St::default() }, &mut s);
                            if r.chance(1, 5) {
                                g.gap(&mut r, &mut s);
                            }
                            let t = if r.chance(if twist > 0 { 1 } else { 3 }, 10) { g.mutate(&s, &mut r) } else { s };
                            // a word of the changed source somewhere
                            match words::words().strs.new.is_empty() {
                                false if r.chance(1, 8) => {
                                    let mut c: Vec<char> = t.chars().collect();
                                    let at = r.below(c.len() + 1);
                                    c.splice(at..at, r.pick(&words::words().strs.new).chars());
                                    c.into_iter().collect()
                                }
                                _ => t,
                            }
                        };
                        t.n += 1;
                        match judge(rule, &text) {
                            Ok(s) => {
                                let kind = match &s {
                                    Seen::Tree(v) => {
                                        for x in v {
                                            *t.rules.entry(x.0.clone()).or_default() += 1;
                                        }
                                        if v.len() > 1 {
                                            let mut h = std::collections::hash_map::DefaultHasher::new();
                                            (rule, &text).hash(&mut h);
                                            t.distinct.insert(h.finish());
                                        }
                                        t.entries.entry(names[rule].into()).or_default()[0] += 1;
                                        "accepted by both, same token tree"
                                    }
                                    Seen::Rejected => {
                                        t.entries.entry(names[rule].into()).or_default()[1] += 1;
                                        "rejected by both"
                                    }
                                    Seen::Limit => "given up: too many steps",
                                    Seen::Panic(_) => "same panic",
                                };
                                if i % 997 == 500 {
                                    t.samples.push(format!("{} on {:?}: {}", names[rule], text, brief(&s)));
                                }
                                *t.kinds.entry(kind).or_default() += 1;
                            }
                            Err(m) => {
                                t.bad.push((format!("{} {}", names[rule], hex(&text)), m));
                                if t.bad.len() > 3 {
                                    break;
                                }
                            }
                        }
                    }
                    let mut g = total.lock().unwrap();
                    g.n += t.n;
                    g.distinct.extend(t.distinct);
                    for (k, v) in t.kinds {
                        *g.kinds.entry(k).or_default() += v
                    }
                    for (k, v) in t.rules {
                        *g.rules.entry(k).or_default() += v
                    }
                    for (k, v) in t.entries {
                        let e = g.entries.entry(k).or_default();
                        e[0] += v[0];
                        e[1] += v[1];
                    }
                    g.samples.extend(t.samples);
                    g.bad.extend(t.bad);
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    let mut t = total.lock().unwrap();
    t.bad.sort_by_key(|b| b.0.len());
    t.samples.sort_by_key(|s| s.len());
    let m: Vec<String> = t.kinds.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let ru: Vec<String> = t.rules.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let never: Vec<String> = t.entries.iter().filter(|(_, v)| v[0] == 0 || v[1] == 0).map(|(k, v)| esc(&format!("{} {}", k, if v[0] == 0 { "never accepted" } else { "never rejected" }))).collect();
    let step = (t.samples.len() / 10).max(1);
    let sa: Vec<String> = t.samples.iter().step_by(step).take(10).map(|s| esc(&s.chars().take(400).collect::<String>())).collect();
    let bad: Vec<String> = t.bad.iter().take(6).map(|(c, m)| format!("{{\"case\":{},\"message\":{}}}", esc(c), esc(&m.chars().take(1500).collect::<String>()))).collect();
    let s = format!(
        "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"outcomes\":{{{}}},\"rules_seen\":{{{}}},\"entry_points\":{},\"one_sided\":[{}],\"samples\":[{}],\"violations\":[{}]}}",
        t.n,
        t.distinct.len(),
        m.join(","),
        ru.join(","),
        t.entries.len(),
        never.join(","),
        sa.join(","),
        bad.join(",")
    );
    std::fs::write(out, s).unwrap();
}
