//! C25-C30: effort, alternative spellings, error reports, slots, heads, determinism.
use crate::gen::*;
use crate::props::*;
use crate::rng::Rng;
use crate::tree::*;
use crate::{caught, Obs};
use num::{BigInt, One, Zero};
use sm_ast::parser::ParserSettings;
use sm_ast::{Context, Runner, SMError, ToTex, ToWolfram, AST};
use std::num::NonZeroUsize;
use std::sync::{Arc, Barrier, Mutex, Once};

type V = Result<(), String>;

// ------------------------------------------------------------------ C25 effort

/// parser steps that no text of the generated sizes may need
pub const STEPS: usize = 4_000_000;
static LIMIT: Once = Once::new();

const UNITS: &[&str] = &[
    "(", ")", "[", "]", "{", "}", "a", "b", "1", "1.5", ",", ":", ";", ";;", ".", "=", "+", "-", "*", "/", "//", "%", "^", "!", "!!", "'", "?", "f(", "f(x:", "a[", "f'(", "if ", " then ", " else ", " otherwise ", "for ", " in ", "let ", "def ", "class ",
    "trait ", "extends ", " with ", "using ", " as ", "@", "@f ", "@f(x) ", "@[1] ", "::", "∷", "return ", "break ", "pass ", "null ", "#", "##", "¶", "⁋", "\"", "\"\"\"", "%%%", "///", "0x1", ">", ">=", "==", "¬", "a:b", "{a}", "{a:", "def f()", "def f(x:", "class c{",
    "let x=", "def f()=", "if a{", "if(a)", "for i in x{", "trait t{", "using a.{", " ", "\n", "  ", "f(x)(", "a(b)(c)[", "2 f(", "x y ", "a.b(", "-(", "(a)!", "[a,", "a[b:", "a[:", "a[1:2:", "é", "𝒳(", "0", "0b1_0 ", "%%% c %%%", "/// c\n", "if\n", "for i in\n", "class c{for i in x{", "let x{", "def f(){", "extends c{", "if\nif a{", "return\n", "let x=\n", "let x:\n", "@f\n", "using\n", "class\n", "(a+", "a^(", "[[", "((", "f(f(", "a[a[", "!(", "f(k: ",
];

const BLOCKS: &[&str] = &[
    "class c{", "let x{", "def f(){", "if a{", "if a then {", "for i in x{", "if\n", "for i in\n", "if(a)", "pass ", "return ", "extends c ", "x{", "{", "(", "[", "f(", "x ", "x=", "a,", ",", ":", "{a:", "@a ", "else {", "otherwise {", "trait t{", "\n",
];

fn closers(s: &str) -> String {
    let mut st = vec![];
    for c in s.chars() {
        match c {
            '(' => st.push(')'),
            '[' => st.push(']'),
            '{' => st.push('}'),
            ')' | ']' | '}' => {
                if st.last() == Some(&c) {
                    st.pop();
                }
            }
            _ => (),
        }
    }
    st.into_iter().rev().collect()
}

/// wrappers around an expression, one inside the other: in stretches of the same kinds
fn nest(r: &mut Rng, e: E, depth: usize) -> E {
    let mut e = e;
    let mut left = depth;
    let parts = *r.pick(&[1usize, 1, 2, 2, 3]);
    for p in 0..parts {
        let d = if p + 1 == parts { left } else { (if r.chance(1, 2) { left * 4 / 5 } else { r.below(left + 1) }).max(1) };
        e = stretch(r, e, d);
        left = left.saturating_sub(d);
        if left == 0 {
            // at least one wrapper of another kind around the stretch
            left = r.below(3);
        }
    }
    e
}
fn stretch(r: &mut Rng, e: E, depth: usize) -> E {
    let k = *r.pick(&[1usize, 1, 1, 2, 3, 4]);
    let any = |r: &mut Rng| if r.chance(1, 3) { *r.pick(&["^", "/", "*", "-"]) } else { *r.pick(&["+", "-", "*", "/", "^", "%", "⊗", "⊙", "⋅", "×", "÷", ">", "="]) };
    // what, with which operator or name, next to what
    let kinds: Vec<(usize, &str, String, E)> = (0..k)
        .map(|_| {
            let what = if r.chance(1, 3) { r.range(13, 16) } else { r.below(26) };
            let f = if r.chance(1, 2) { r.pick(&["f", "g", "h"]).to_string() } else { known_name(r) };
            let x = match r.below(6) {
                0 => E::Atom("2".into(), N::Int(2.into())),
                1 => E::Bin("^", Box::new(E::Atom("x".into(), N::Sym("x".into()))), Box::new(E::Atom("3".into(), N::Int(3.into())))),
                2 => E::Bin("-", Box::new(E::Atom("x".into(), N::Sym("x".into()))), Box::new(E::Atom("y".into(), N::Sym("y".into())))),
                _ => E::Atom("x".into(), N::Sym("x".into())),
            };
            (what, any(r), f, x)
        })
        .collect();
    let two = || E::Atom("2".into(), N::Int(2.into()));
    let sym = || E::Atom("x".into(), N::Sym("x".into()));
    let mut e = e;
    for i in 0..depth {
        let (what, op, f, x) = &kinds[i % k];
        let x = || x.clone();
        let f = || f.clone();
        let paren = |e: E| Box::new(E::Paren(Box::new(e)));
        e = match what {
            0 => *paren(e),
            1 => E::Call(f(), vec![vec![Arg::Pos(e)]]),
            2 => E::Call(f(), vec![vec![Arg::Pos(x()), Arg::Kw("k".into(), e)]]),
            3 => E::List(vec![e]),
            4 => E::List(vec![x(), e, two()]),
            5 => E::Index(Box::new(sym()), vec![Ix::One(e)]),
            6 => E::Index(Box::new(sym()), vec![Ix::Span(Some(two()), Some(e), None)]),
            7 => E::Index(Box::new(sym()), vec![Ix::Span(Some(e), None, Some(Some(two())))]),
            8 => E::Index(paren(e), vec![Ix::One(two())]),
            9 => E::Call(f(), vec![vec![Arg::Pos(x())], vec![Arg::Pos(e)]]),
            10 => E::Pre("-", paren(e)),
            11 => E::Member(Box::new(sym()), Box::new(E::Call("m".into(), vec![vec![Arg::Pos(e)]]))),
            12 => E::Juxt(vec![two(), E::Call(f(), vec![vec![Arg::Pos(e)]])]),
            13 | 20 => E::Bin(op, Box::new(x()), paren(e)),
            14 | 21 => E::Bin(op, paren(e), Box::new(x())),
            15 => E::Bin(op, Box::new(x()), Box::new(e)),
            16 => E::Bin(op, Box::new(e), Box::new(x())),
            17 => E::Call(f(), vec![vec![Arg::Pos(E::Index(Box::new(sym()), vec![Ix::One(e)]))]]),
            18 => E::Suf("!", paren(e)),
            19 => E::Pre("+", paren(e)),
            22 => E::Call(f(), vec![vec![Arg::Pos(x()), Arg::Pos(e)]]),
            23 => E::List(vec![e, E::List(vec![x()])]),
            24 => E::Suf("!!", paren(e)),
            _ => E::Member(paren(e), Box::new(sym())),
        };
    }
    e
}

pub fn c25(r: &mut Rng, o: &mut Obs) -> V {
    LIMIT.call_once(|| pest::set_call_limit(NonZeroUsize::new(STEPS)));
    let mut want = None;
    let text = match r.below(5) {
        0 | 1 => {
            o.tag("well-formed nesting");
            let m = Mix { strings: false, ..ALL };
            let e = expr(r, &m, 3, 5);
            let d = *r.pick(&[5, 12, 20, 30, 40, 60, 90]);
            let e = nest(r, e, d);
            let (toks, n, _) = render(&e, r, PLAIN);
            let l = *r.pick(&[Lay::Tight, Lay::Tight, Lay::Blanks]);
            let t = lay(&toks, r, l, false).0;
            want = Some(n);
            if r.chance(1, 4) {
                // cut short, or one token too many
                want = None;
                o.tag("well-formed nesting, damaged");
                let mut c: Vec<char> = t.chars().collect();
                let at = r.below(c.len() + 1);
                if r.chance(1, 2) {
                    c.truncate(at)
                }
                else {
                    c.insert(at, *r.pick(&[')', '(', ']', '[', '}', '$', '"', ',', ':', '\'', '?', '.']));
                }
                c.into_iter().collect()
            }
            else {
                t
            }
        }
        k => {
            o.tag("repeated units");
            let n = r.range(1, 5);
            let glue = *r.pick(&["", "", "", " "]);
            // blocks within blocks, or anything
            let pool = if r.chance(1, 3) { BLOCKS } else { UNITS };
            let u: String = (0..n).map(|_| format!("{}{}", r.pick(pool), glue)).collect();
            let times = (*r.pick(&[18usize, 30, 60, 100])).min(500 / u.chars().count()).max(1);
            let mut t = u.repeat(times);
            if r.chance(1, 2) {
                t += r.pick(&["1", "x", "(1)", "+", "f(x)", " = 1", "{a}", "[1]"]);
            }
            if k == 4 || r.chance(1, 2) {
                o.tag("repeated units, closed");
                t += &closers(&t);
            }
            t
        }
    };
    // the guard against giant numbers in calculations, not against depth
    o.about(&text);
    let depth = text.chars().fold((0i32, 0i32), |(d, m), c| {
        let d = if "([{".contains(c) { d + 1 } else if ")]}".contains(c) { d - 1 } else { d };
        (d, m.max(d))
    });
    o.tag(format!("nesting up to {}", [10, 20, 40, 80, 1000].iter().find(|k| depth.1 <= **k).unwrap()));
    o.nontrivial = depth.1 > 8;
    if text.chars().count() > 1500 {
        o.tag("longer than 1500 characters: not judged");
        return Ok(());
    }
    let a = match caught(|| settings().parse(&text)) {
        Err(p) => return Err(format!("panicked: {}", p)),
        Ok(Err(e)) => {
            let m = format!("{:?}", e);
            if m.contains("call limit reached") {
                return Err(format!("more than {} parser steps for {} characters", STEPS, text.chars().count()));
            }
            o.tag("rejected");
            o.outcome = err(&e);
            return if want.is_some() { Err(format!("rejected: {}", err(&e))) } else { Ok(()) };
        }
        Ok(Ok(a)) => a,
    };
    o.tag("accepted");
    let n = from_ast(&a);
    if let Some(w) = &want {
        if let Some(d) = w.diff(&n) {
            return Err(d);
        }
    }
    n.count(&mut o.heads);
    let len = caught(|| a.to_string().len() + a.to_tex().len() + a.to_wolfram_string().len() + a.to_wolfram_bytes().len() + format!("{:?}", a).len()).map_err(|p| format!("panicked: {}", p))?;
    // a rendering larger than this is itself disproportionate
    if len > 4_000_000 {
        return Err(format!("renderings of {} bytes for {} characters", len, text.chars().count()));
    }
    if !heavy(&n) {
        caught(|| a.rewrite().forward(&mut Context::default()).is_ok()).map_err(|p| format!("evaluation panicked: {}", p))?;
    }
    o.outcome = format!("parsed within {} steps, {} bytes of renderings", STEPS, len);
    Ok(())
}

pub fn steps_of(text: &str) -> usize {
    let mut lo = 1000usize;
    while lo < 1 << 34 {
        pest::set_call_limit(NonZeroUsize::new(lo));
        match settings().parse(text) {
            Err(e) if format!("{:?}", e).contains("call limit reached") => lo = lo * 5 / 4,
            _ => break,
        }
    }
    lo
}
/// how many parser steps generated texts need (for choosing the bound)
pub fn steps(seed: u64, cases: u64) {
    let mut worst = vec![];
    for i in 0..cases {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(25), i);
        let mut o = Obs::default();
        let _ = c25(&mut r, &mut o);
        let lo = steps_of(&o.input);
        pest::set_call_limit(NonZeroUsize::new(STEPS));
        worst.push((lo, o.input.chars().count(), o.input));
    }
    worst.sort();
    for w in worst.iter().rev().take(12) {
        println!("{} steps {} chars {:?}", w.0, w.1, w.2.chars().take(200).collect::<String>());
    }
}

// ------------------------------------------------------------------ C26 spellings

fn respell(e: &E, r: &mut Rng) -> E {
    let b = |e: &E, r: &mut Rng| Box::new(respell(e, r));
    match e {
        E::Atom(t, N::Sym(n)) => E::Atom(respell_name(t, r), N::Sym(n.clone())),
        E::Atom(t, N::Int(i)) if t.len() > 2 && t.as_bytes()[0] == b'0' => {
            // 0xAb_c: letter case and separators
            let (p, d) = t.split_at(2);
            let mut o = String::from("0");
            let c = p.chars().nth(1).unwrap();
            o.push(if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() });
            for c in d.chars().filter(|c| *c != '_') {
                if r.chance(1, 4) {
                    o.push('_');
                }
                o.push(if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() });
            }
            E::Atom(o, N::Int(i.clone()))
        }
        E::Atom(t, N::Str(s)) => {
            let safe = !s.is_empty() && !s.contains('"') && !s.contains('\\');
            if safe && r.chance(1, 2) {
                let q = "\"".repeat(r.range(3, 6));
                let q = if t.starts_with("\"\"\"") { "\"".to_string() } else { q };
                E::Atom(format!("{}{}{}", q, s, q), N::Str(s.clone()))
            }
            else {
                e.clone()
            }
        }
        E::Atom(..) => e.clone(),
        E::Pre(op, x) => {
            let op = match *op {
                "!" | "¬" => {
                    // `!` before `!` or `!!` is still two prefixes
                    *r.pick(&["!", "¬"])
                }
                o => o,
            };
            E::Pre(op, b(x, r))
        }
        E::Suf(op, x) => E::Suf(op, b(x, r)),
        E::Bin(op, x, y) => {
            let op = match *op {
                "*" | "×" => *r.pick(&["*", "×"]),
                "/" | "÷" => *r.pick(&["/", "÷"]),
                o => o,
            };
            E::Bin(op, b(x, r), b(y, r))
        }
        E::Call(f, gs) => E::Call(
            respell_name(f, r),
            gs.iter()
                .map(|g| {
                    g.iter()
                        .map(|a| match a {
                            Arg::Pos(e) => Arg::Pos(respell(e, r)),
                            Arg::Kw(k, e) => Arg::Kw(k.clone(), respell(e, r)),
                        })
                        .collect()
                })
                .collect(),
        ),
        E::Juxt(v) => E::Juxt(v.iter().map(|e| respell(e, r)).collect()),
        E::Member(x, y) => {
            let (x, y) = (respell(x, r), respell(y, r));
            // x.f(a) is f(x, a), x.f is f(x)
            if r.chance(1, 3) && !matches!(x, E::Bin(..)) {
                match &y {
                    E::Atom(t, N::Sym(_)) => return E::Call(t.clone(), vec![vec![Arg::Pos(x)]]),
                    E::Call(f, gs) => {
                        let mut gs = gs.clone();
                        gs[0].insert(0, Arg::Pos(x));
                        return E::Call(f.clone(), gs);
                    }
                    _ => (),
                }
            }
            E::Member(Box::new(x), Box::new(y))
        }
        E::List(v) => E::List(v.iter().map(|e| respell(e, r)).collect()),
        E::Index(x, ix) => E::Index(
            b(x, r),
            ix.iter()
                .map(|i| {
                    let mut f = |e: &E| respell(e, r);
                    match i {
                        Ix::One(e) => Ix::One(f(e)),
                        Ix::Span(a, b, c) => Ix::Span(a.as_ref().map(&mut f), b.as_ref().map(&mut f), c.as_ref().map(|c| c.as_ref().map(&mut f))),
                    }
                })
                .collect(),
        ),
        E::Paren(x) => E::Paren(b(x, r)),
    }
}
fn respell_name(t: &str, r: &mut Rng) -> String {
    let v: Vec<&str> = t.split("::").collect();
    let mut o = v[0].to_string();
    for w in &v[1..] {
        o += r.pick(&["::", "∷"]);
        o += w;
    }
    o
}

/// what a session answers, by kind and value
fn answer(text: &str) -> Result<Result<N, String>, String> {
    caught(|| {
        let mut run = Runner::default();
        match run.evaluate(text) {
            Ok(_) => run.last().map(|a| from_ast(&a)).map_err(|e| kind(&e).to_string()),
            Err(e) => Err(kind(&e).to_string()),
        }
    })
    .map_err(|p| format!("evaluate panicked: {}", p))
}
fn kind(e: &SMError) -> &'static str {
    match e {
        SMError::Unknown => "Unknown",
        SMError::IOError(_) => "IOError",
        SMError::ParseError(_) => "ParseError",
        SMError::EmptyContainer(_) => "EmptyContainer",
        SMError::Overflow => "Overflow",
        SMError::Infinity => "Infinity",
        SMError::ComplexInfinity => "ComplexInfinity",
        SMError::Unimplemented(_) => "Unimplemented",
        SMError::Unreachable(_) => "Unreachable",
    }
}

pub fn c26(r: &mut Rng, o: &mut Obs) -> V {
    let e = if r.chance(1, 3) {
        evaluable(r)
    }
    else {
        let b = *r.pick(&[2, 3, 4, 6, 8, 12]);
        expr(r, &ALL, b, 0)
    };
    let e = if r.chance(1, 6) {
        // qualified names everywhere
        let k = if r.chance(1, 3) { r.range(2, 12) } else { r.range(1, 3) };
        let p = (0..k).map(|_| name(r, &ALL)).collect::<Vec<_>>().join("::");
        let q = name(r, &ALL);
        E::Call(format!("{}::{}", p, q), vec![vec![Arg::Pos(e), Arg::Pos(symbol(r, &ALL))]])
    }
    else {
        e
    };
    let (toks, _, _) = render(&e, r, PLAIN);
    let (base, _) = lay(&toks, r, Lay::Blanks, false);
    o.about(&base);
    let first = parse(&base)?;
    let want = from_ast(&first);
    want.count(&mut o.heads);
    let wl = caught(|| first.to_wolfram_string()).map_err(|p| format!("panicked: {}", p))?;
    let mut seen = 0;
    for _ in 0..3 {
        let f = respell(&e, r);
        let (toks, _, _) = render(&f, r, Style { parens: 0, commas: true, wide: true });
        let (t, _) = lay(&toks, r, Lay::Blanks, false);
        if t == base {
            continue;
        }
        seen += 1;
        o.about(&format!("{}  and  {}", base, t));
        let a = parse(&t).map_err(|m| format!("{:?} is accepted, {:?} is {}", base, t, m))?;
        if let Some(d) = want.diff(&from_ast(&a)) {
            return Err(format!("{:?} and {:?} differ: {}", base, t, d));
        }
        if caught(|| a.to_wolfram_string()).map_err(|p| format!("panicked: {}", p))? != wl {
            return Err(format!("{:?} and {:?} translate differently: {} and {}", base, t, clip(&wl), clip(&a.to_wolfram_string())));
        }
        if !heavy(&want) {
            let (x, y) = (answer(&base)?, answer(&t)?);
            if x != y {
                return Err(format!("{:?} answers {:?}, {:?} answers {:?}", base, x, t, y));
            }
            o.tag(if x.is_ok() { "same value" } else { "same error" });
        }
    }
    o.events = seen;
    o.nontrivial = seen > 0;
    o.outcome = format!("{} other spellings mean the same", seen);
    Ok(())
}

// ------------------------------------------------------------------ C27 errors

fn line_col(text: &str, at: usize) -> (usize, usize) {
    let before: Vec<char> = text.chars().take(at).collect();
    let line = before.iter().filter(|c| **c == '\n').count() + 1;
    let col = before.iter().rev().take_while(|c| **c != '\n').count() + 1;
    (line, col)
}

fn expect(text: &str, want: &str, o: &mut Obs) -> V {
    o.about(text);
    o.tag(want);
    o.nontrivial = true;
    let mut run = Runner::default();
    let got = caught(|| run.evaluate(text)).map_err(|p| format!("panicked: {}", p))?;
    o.outcome = clip(&format!("{:?}", got));
    match &got {
        Ok(v) => Err(format!("must be the error {}, but answers {}", want, clip(v))),
        Err(e) if kind(e) == want => {
            // the playground says the same
            if cfg!(not(miri)) {
                let p = caught(|| sm_playground::result(text)).map_err(|p| format!("playground panicked: {}", p))?;
                if !p.starts_with(want) {
                    return Err(format!("the session reports {}, the playground {:?}", want, clip(&p)));
                }
            }
            Ok(())
        }
        Err(e) => Err(format!("must be the error {}, but is {}", want, err(e))),
    }
}

/// the report names this line and column
fn names(report: &str, place: &str) -> bool {
    let digit = |c: Option<char>| c.map_or(false, |c| c.is_ascii_digit());
    report.match_indices(place).any(|(i, _)| !digit(report[..i].chars().last()) && !digit(report[i + place.len()..].chars().next()))
}

pub fn c27(r: &mut Rng, o: &mut Obs) -> V {
    let big = || BigInt::from(u64::MAX) + BigInt::one();
    let lit = |n: &BigInt| n.to_string();
    match r.below(12) {
        // one character that fits nowhere: the report names its place
        0..=2 => {
            let b = *r.pick(&[1, 2, 3, 4, 6, 8]);
            let es = exprs(r, &Mix { strings: false, ..ALL }, b);
            let (toks, _, _) = render_all(&es, r, PLAIN);
            let l = *r.pick(&[Lay::Tight, Lay::Blanks, Lay::Air]);
            let (text, at) = lay(&toks, r, l, false);
            let chars: Vec<char> = text.chars().collect();
            // at the start of a token, or at the end of the text
            let p = if r.chance(1, 6) { chars.len() } else { r.pick(&at).0 };
            let bad = *r.pick(&['$', '&', '\\', '~', '\u{0}', '€', '🎉', '<', '|']);
            let t: String = chars[..p].iter().chain([&bad]).chain(chars[p..].iter()).collect();
            o.about(&t);
            o.tag("a character that fits nowhere");
            o.nontrivial = true;
            let e = match caught(|| settings().parse(&t)).map_err(|p| format!("panicked: {}", p))? {
                Ok(a) => return Err(format!("accepted as {}", clip(&a.to_string()))),
                Err(e) => e,
            };
            let m = match &e {
                SMError::ParseError(m) => m.clone(),
                e => return Err(format!("must be a parse error, but is {}", err(e))),
            };
            let (line, col) = line_col(&t, p);
            o.outcome = clip(&m);
            let place = format!("{}:{}", line, col);
            if !names(&m, &place) {
                return Err(format!("{:?} cannot be read from line {} column {} on, reported: {}", t, line, col, m));
            }
            Ok(())
        }
        3 => {
            // grammar and parser agree on what is malformed
            let s = any_text(r, o);
            o.about(&s);
            let g = {
                use sm_parser::Parser;
                let place = |e: sm_parser::Error<sm_parser::Rule>| {
                    let m = e.to_string();
                    m.lines().next().unwrap_or("").trim_start_matches(|c: char| !c.is_ascii_digit()).trim().to_string()
                };
                caught(|| sm_parser::SMParser::parse(sm_parser::Rule::program, &s).map(|_| ()).map_err(place)).map_err(|p| format!("panicked: {}", p))?
            };
            let a = caught(|| settings().parse(&s)).map_err(|p| format!("panicked: {}", p))?;
            o.nontrivial = true;
            match (g, a) {
                (Err(m), Err(SMError::ParseError(n))) => {
                    o.tag("malformed");
                    if names(&n, &m) { Ok(()) } else { Err(format!("the recogniser stops at {}, reported: {}", m, n)) }
                }
                (Err(_), x) => Err(format!("does not fit the grammar, but: {}", x.map(|a| clip(&a.to_string())).unwrap_or_else(|e| err(&e)))),
                (Ok(()), Ok(_)) => {
                    o.tag("well-formed");
                    Ok(())
                }
                (Ok(()), Err(SMError::Unimplemented(_))) => {
                    o.tag("well-formed but unsupported");
                    Ok(())
                }
                (Ok(()), Err(e)) => Err(format!("fits the grammar, must be a tree or reported as unsupported, but: {}", err(&e))),
            }
        }
        4 => {
            // statements and constructs that are not supported
            let m = Mix { strings: false, slots: false, ..ALL };
            let e = expr(r, &m, 3, 2);
            let (toks, _, _) = render(&e, r, PLAIN);
            let x = lay(&toks, r, Lay::Blanks, false).0;
            let t = r.pick(&["let v = X", "def f(x) { X }", "def f(a, b) = X", "class c { a: X }", "if X then { X }", "for i in X { X }", "return X", "break", "pass", "{k: X}", "{}", "{1: X, \"s\": X}", "using m.n as k", "extends c { let a = X }", "trait c { let a = X }", "@f let a = X", "(X)'", "(X)?", "f'(X)", "(X) // 2", "(X) >= 2", "(X) == 2"]).replace('X', &x);
            // (a slice that would follow the statement keyword is not meant)
            let g = {
                use sm_parser::Parser;
                sm_parser::SMParser::parse(sm_parser::Rule::program, &t).is_ok()
            };
            if !g {
                o.about(&t);
                o.tag("not in the grammar");
                return Ok(());
            }
            match caught(|| settings().parse(&t)).map_err(|p| format!("panicked: {}", p))? {
                Err(SMError::Unimplemented(_)) => expect(&t, "Unimplemented", o),
                Err(e) => {
                    o.about(&t);
                    Err(format!("unsupported, but reported as {}", err(&e)))
                }
                Ok(a) => {
                    o.about(&t);
                    // ( //, >= and == reach the tree as operators)
                    if a.to_string().is_empty() { Err("an unsupported construct vanished".into()) } else { Ok(()) }
                }
            }
        }
        5 => {
            // factorial of a negative number
            let n = -BigInt::one() - nat(r);
            let a = AST::integer(n.clone());
            o.about(&format!("factorial({})", n));
            o.tag("ComplexInfinity");
            o.nontrivial = true;
            let v = caught(|| sm_ast::internal::factorial(&a)).map_err(|p| format!("panicked: {}", p))?;
            o.outcome = clip(&format!("{:?}", v));
            match v {
                Err(SMError::ComplexInfinity) => Ok(()),
                v => Err(format!("must be complex infinity, but is {}", clip(&format!("{:?}", v)))),
            }
        }
        6 if r.chance(1, 2) => {
            // the same, on trees built by hand: beyond the word on either side
            let n = big() + nat(r);
            let m = BigInt::from(r.range(2, 5000));
            let sign = |r: &mut Rng, n: BigInt| if r.chance(1, 2) { -n } else { n };
            // (powers of numbers to a negative exponent are not integers: small ones, equal ones and opposite ones)
            let small = |r: &mut Rng| { let k = *r.pick(&[3, 20, 300]); BigInt::from(r.range(1, k)) };
            let (key, args, want) = match r.below(9) {
                6 | 7 => {
                    let e = -small(r);
                    let b = match r.below(6) {
                        0 => e.clone(),
                        1 => -e.clone(),
                        2 => BigInt::from(r.below(5)) - 2,
                        _ => { let b = small(r); sign(r, b) }
                    };
                    (*r.pick(&["i^", "cpower"]), vec![b, e], "an error")
                }
                8 => (*r.pick(&["i^", "cpower"]), vec![sign(r, m), -n], "an error"),
                0 => ("cfactorial", vec![n], "Overflow"),
                1 => ("s!", vec![n], "Overflow"),
                2 => (*r.pick(&["cfactorial", "s!"]), vec![-n], "ComplexInfinity"),
                3 => ("cfibonacci", vec![sign(r, n)], "Overflow"),
                4 => ("i^", vec![sign(r, m), n], "Overflow"),
                _ => ("cpower", vec![sign(r, m), n], "Overflow"),
            };
            let a = built(|b| b.with(key, args.into_iter().map(AST::integer).collect()))?;
            o.about(&format!("built: {}", from_ast(&a).show()));
            o.tag(format!("{} of a built tree", want));
            o.nontrivial = true;
            let v = caught(|| a.forward(&mut Context::default())).map_err(|p| format!("panicked: {}", p))?;
            o.outcome = clip(&format!("{:?}", v));
            match v {
                Err(e) if want == "an error" || kind(&e) == want => Ok(()),
                v => Err(format!("must be {}, but is {}", want, clip(&format!("{:?}", v)))),
            }
        }
        6 => {
            let n = big() + nat(r);
            let t = match r.below(4) {
                0 => format!("factorial({})", lit(&n)),
                1 => format!("{}!", lit(&n)),
                2 => format!("fibonacci({})", lit(&n)),
                _ => format!("{} ^ {}", r.range(2, 5000), lit(&n)),
            };
            expect(&t, "Overflow", o)
        }
        7 => {
            let f = *r.pick(&["first", "last"]);
            let t = *r.pick(&["F(\"\")", "\"\".F", "\"\".F()", "F( \"\" )", "(F(\"\"))"]);
            expect(&t.replace('F', f), "EmptyContainer", o)
        }
        8 => {
            // unknown functions, wrong arguments
            let m = Mix { slots: false, options: false, ..ALL };
            let n = name(r, &m);
            let f = if r.chance(1, 2) { n.as_str() } else { *r.pick(&["sin", "cos", "log", "map", "Sum", "factorialx", "firsts", "adder", "plus_", "FIRST", "Add"]) };
            let known = ["first", "last", "length", "factorial", "fibonacci", "add", "plus", "times", "power"];
            if !known.contains(&f) && r.chance(1, 2) {
                let a = integer(r, false);
                let (toks, _, _) = render(&E::Call(f.into(), vec![vec![Arg::Pos(a)]]), r, PLAIN);
                return expect(&lay(&toks, r, Lay::Tight, false).0, "Unimplemented", o);
            }
            let t = *r.pick(&[
                "factorial(x)", "factorial(1.5)", "factorial(\"3\")", "factorial(true)", "factorial()", "fibonacci(x)", "fibonacci(2.0)", "fibonacci(null)", "fibonacci()", "first(12)", "first(x)", "first([1])", "first()", "last(1.5)", "last()", "length(12)", "length(x)", "length()", "add()", "add(1)",
                "add(x, 1)", "1 + x", "1.5 + 1", "\"a\" + \"b\"", "x * 2", "2 ^ x", "x ^ 2", "2 ^ 1.5", "power(2)", "power()", "times(1)", "1 + 2 + 3", "2 * (3 + 4)", "f(1)(2)", "add(1, 2)(3)", "1 - 1", "4 / 2", "-3", "+3", "!true", "5!!", "[1, 2]", "x[1]", "1; 2", "a = 1", "2 > 1", "#", "¶1", "2 % 2",
            ]);
            expect(t, "Unimplemented", o)
        }
        9 => {
            // nothing entered yet, or the last input failed
            let mut run = Runner::default();
            let mut log = vec![];
            if r.chance(2, 3) {
                for _ in 0..r.range(0, 3) {
                    let _ = run.evaluate("1 + 1");
                    log.push("1 + 1");
                }
                let t = *r.pick(&["1 +", "f(", "{a: 1}", "0^0", "first(\"\")", "unknown(1)", "$"]);
                let _ = run.evaluate(t);
                log.push(t);
            }
            o.about(&format!("last() after {:?}", log));
            o.tag("no result to report");
            o.nontrivial = true;
            match caught(|| run.last()).map_err(|p| format!("panicked: {}", p))? {
                Err(SMError::EmptyContainer(_)) => Ok(()),
                v => Err(format!("there is no last result, but: {}", clip(&format!("{:?}", v)))),
            }
        }
        10 => {
            // files
            let (src, dst, want): (&str, &str, &str) = *r.pick(&[
                ("/nonexistent/dir/x.sm", "/nonexistent/out", "IOError"),
                ("/", "/nonexistent/out", "IOError"),
                ("", "/nonexistent/out", "IOError"),
                ("/dev/null", "/nonexistent/out", "IOError"),
                ("/dev/null", "", "IOError"),
                ("/dev/null", "/dev/full", "IOError"),
            ]);
            o.about(&format!("translating {:?} to {:?}", src, dst));
            o.tag("IOError");
            o.nontrivial = true;
            match caught(|| settings().parse_file(src, dst)).map_err(|p| format!("panicked: {}", p))? {
                Err(e) if kind(&e) == want => Ok(()),
                v => Err(format!("must be {}, but: {}", want, clip(&format!("{:?}", v)))),
            }
        }
        _ => {
            // the reason does not depend on where the failing calculation is written
            let (t, want) = *r.pick(&[("0^0", ""), ("first(\"\")", "EmptyContainer"), ("2^18446744073709551616", "Overflow"), ("99999999999999999999!", "Overflow"), ("g(1)", "Unimplemented"), ("1 + $", "ParseError"), ("f(1", "ParseError"), ("", "")]);
            if want.is_empty() {
                return Ok(());
            }
            let w = match r.below(4) {
                0 => format!("  {}\n", t),
                1 if want != "ParseError" => format!("({})", t),
                2 if want != "ParseError" => format!("{};", t),
                3 => format!("/// note\n{}", t),
                _ => t.to_string(),
            };
            expect(&w, want, o)
        }
    }
}

// ------------------------------------------------------------------ C28 slots and history

pub fn c28(r: &mut Rng, o: &mut Obs) -> V {
    let index = |r: &mut Rng| -> BigInt {
        match r.below(5) {
            0 => r.range(1, 9).into(),
            1 => r.range(1, 2000).into(),
            2 => BigInt::from(r.next() | 1),
            3 => BigInt::from(u64::MAX) * BigInt::from(r.next() | 1),
            _ => r.pick(&["10", "100", "1000000", "2147483648", "4294967296", "9223372036854775808", "18446744073709551616", "99999999999999999999999999"]).parse().unwrap(),
        }
    };
    let m = Mix { slots: false, ..ALL };
    let (text, head, arg): (String, &str, Option<N>) = match r.below(9) {
        0 => ("#".into(), "slot", None),
        1 => ("##".into(), "slot_sequence", None),
        2 => ("#0".into(), "slot", Some(N::Int(BigInt::zero()))),
        3 => {
            let i = index(r);
            (format!("#{}", i), "slot", Some(N::Int(i)))
        }
        4 => {
            let i = index(r);
            (format!("##{}", i), "slot_sequence", Some(N::Int(i)))
        }
        5 => {
            let s = name(r, &m);
            (format!("#{}", s), "slot", Some(N::Str(s)))
        }
        k => {
            let (c, h) = if r.chance(1, 2) { ('¶', "input") } else { ('⁋', "output") };
            if k == 6 {
                let i = index(r);
                (format!("{}{}", c, i), h, Some(N::Int(i)))
            }
            else {
                let n = if r.chance(1, 20) { (1usize << r.range(5, 12)) + r.below(3) - 1 } else { *r.pick(&[1usize, 2, 3, 4, 5, 9, 30, 200]) };
                let n = huge(r, 150).unwrap_or(n);
                (c.to_string().repeat(n), h, Some(N::Int(-BigInt::from(n))))
            }
        }
    };
    let slot = E::Atom(text.clone(), fun('n', head, arg.into_iter().collect(), Pos::None));
    let other = expr(r, &m, 3, 3);
    let one = || E::Atom("1".into(), N::Int(1.into()));
    let e = match r.below(10) {
        0 => E::Call("f".into(), vec![vec![Arg::Pos(slot.clone()), Arg::Pos(other), Arg::Kw("k".into(), slot)]]),
        1 => E::Bin("+", Box::new(slot.clone()), Box::new(slot)),
        2 => E::Bin(*r.pick(&["*", "^", "/", "-"]), Box::new(other), Box::new(slot)),
        3 => E::List(vec![slot.clone(), other, slot]),
        4 => E::Index(Box::new(slot), vec![Ix::One(one())]),
        5 => E::Index(Box::new(E::Atom("x".into(), N::Sym("x".into()))), vec![Ix::One(slot.clone()), Ix::Span(Some(slot.clone()), Some(slot), None)]),
        6 => E::Pre("-", Box::new(slot)),
        7 => E::Suf("!", Box::new(slot)),
        _ => slot,
    };
    let (toks, want, _) = render(&e, r, PLAIN);
    let l = *r.pick(&[Lay::Tight, Lay::Blanks, Lay::Air]);
    let (t, _) = lay(&toks, r, l, false);
    o.about(&t);
    o.tag(format!("{} {}", head, if text.chars().nth(1).map_or(true, |c| !c.is_alphanumeric()) { "by sign" } else { "with index or name" }));
    o.nontrivial = t.chars().count() > 2;
    let a = parse(&t)?;
    let got = from_ast(&a);
    want.count(&mut o.heads);
    o.outcome = got.show();
    if let Some(d) = want.diff(&got) {
        return Err(d);
    }
    // and in Wolfram form
    let v = caught(|| a.to_wolfram()).map_err(|p| format!("panicked: {}", p))?;
    let (x, y) = (wl_ref(&want), wl_seen(&v));
    if x != y {
        return Err(format!("translated as {}, expected {}", clip(&y), clip(&x)));
    }
    Ok(())
}

// ------------------------------------------------------------------ C29 head

fn heads(a: &AST, o: &mut Obs) -> V {
    let h = caught(|| sm_ast::internal::head(a)).map_err(|p| format!("head panicked: {}", p))?;
    o.events += 1;
    let sym = |want: &str| match from_ast(&h) {
        N::Sym(s) if s == local(want) => Ok(()),
        g => Err(format!("the head of {} is {}, expected {}", clip(&from_ast(a).show()), g.show(), want)),
    };
    match a {
        AST::Integer(_) => sym("std::core::Integer")?,
        AST::Decimal(_) => sym("std::core::Decimal")?,
        AST::Boolean(_) => sym("std::core::Boolean")?,
        AST::Symbol(_) => sym("std::core::Symbol")?,
        AST::String(_) => sym("std::core::String")?,
        AST::Function(_, ps) if !ps.is_empty() => {
            // head, applied to the last argument group, is the expression again
            let again = match &h {
                AST::Symbol(s) => AST::Function(s.clone(), vec![ps[ps.len() - 1].clone()]),
                AST::Function(s, qs) => {
                    let mut v = qs.clone();
                    v.push(ps[ps.len() - 1].clone());
                    AST::Function(s.clone(), v)
                }
                o => return Err(format!("the head of {} is {}", clip(&from_ast(a).show()), clip(&from_ast(o).show()))),
            };
            if ps.len() == 1 && !matches!(h, AST::Symbol(_)) {
                return Err(format!("the head of {} is not its symbol but {}", clip(&from_ast(a).show()), clip(&format!("{:?}", h))));
            }
            if again != *a {
                return Err(format!("head {} and last arguments do not make up {}", clip(&from_ast(&h).show()), clip(&from_ast(a).show())));
            }
            if ps.len() > 1 {
                o.tag("head of a curried call");
                heads(&h, o)?;
            }
            else {
                o.tag("head of a call");
            }
            for p in ps {
                for x in &p.arguments {
                    heads(x, o)?;
                }
                for x in p.options.values() {
                    heads(x, o)?;
                }
            }
        }
        _ => (),
    }
    Ok(())
}

pub fn c29(r: &mut Rng, o: &mut Obs) -> V {
    let b = *r.pick(&[1, 2, 4, 6, 10]);
    let e = if r.chance(1, 2) { call(r, &Mix { curried: true, ..ALL }, b, 0) } else { expr(r, &ALL, b, 0) };
    let (toks, _, _) = render(&e, r, PLAIN);
    let (t, _) = lay(&toks, r, Lay::Blanks, false);
    o.about(&t);
    let a = parse(&t)?;
    let n = from_ast(&a);
    n.count(&mut o.heads);
    o.nontrivial = n.size() > 1;
    heads(&a, o)?;
    o.outcome = format!("{} heads rebuild their expressions", o.events);
    Ok(())
}

// ------------------------------------------------------------------ C30 determinism

/// everything that can be observed of a text
fn all_of(text: &str, file: &str) -> Result<String, String> {
    caught(|| {
        let st = ParserSettings { file: file.to_string(), refine: true };
        match st.parse(text) {
            Err(e) => format!("error {:?}", e),
            Ok(a) => {
                let mut s = format!("{:?}\n{}\n{}\n{}\n{:?}", a, a, a.to_tex(), a.to_wolfram_string(), a.to_wolfram_bytes());
                if !heavier(&from_ast(&a), 20_000, 500) {
                    s += &format!("\n{:?}", a.forward(&mut Context::default()));
                }
                s
            }
        }
    })
    .map_err(|p| format!("panicked on {:?}: {}", text, p))
}
/// a text and near misses of it: other layout, one digit or letter changed, same length
fn family(r: &mut Rng) -> Vec<String> {
    let mut v = vec![];
    let t = match r.below(4) {
        0 => any_text(r, &mut Obs::default()),
        1 => {
            let e = evaluable(r);
            let (toks, _, _) = render(&e, r, PLAIN);
            lay(&toks, r, Lay::Blanks, false).0
        }
        _ => {
            let b = r.range(2, 8);
            let es = exprs(r, &ALL, b);
            let (toks, _, _) = render_all(&es, r, PLAIN);
            lay(&toks, r, Lay::Wild, false).0
        }
    };
    for _ in 0..r.range(1, 5) {
        let mut c: Vec<char> = t.chars().collect();
        if !c.is_empty() {
            let p = r.below(c.len());
            c[p] = match c[p] {
                d if d.is_ascii_digit() && d != '0' => (b'1' + r.below(9) as u8) as char,
                d if d.is_ascii_lowercase() => (b'a' + r.below(26) as u8) as char,
                ' ' => '\n',
                '+' => '-',
                '*' => '/',
                ',' => ';',
                d => d,
            };
        }
        v.push(tame(&c.into_iter().collect::<String>()));
    }
    v.push(format!("\n{}", t));
    v.push(format!(" {}", t));
    v.push(t);
    v
}

/// file names, some of them alike in length, start, end or letter case
pub const NAMES: &[&str] = &["anonymous", "a.sm", "b.sm", "A.sm", "", "anonymouS", "dir/a.sm", "dir/b.sm", "dir\\a.sm", " a.sm", "é.sm", "è.sm", "a\nb", "a/", "/", "/a.sm", "./a.sm", "../a.sm", "a.sm ", "a//b.sm", "a", "a.sm.sm", "file:///a.sm", "\u{feff}a", "a\0b", "\"a\"", "a\\"];

pub fn c30(r: &mut Rng, o: &mut Obs) -> V {
    let mut pool = family(r);
    if r.chance(1, 2) {
        pool.extend(family(r));
    }
    let mut files = NAMES.to_vec();
    for k in (1..files.len()).rev() {
        files.swap(k, r.below(k + 1));
    }
    files.truncate(4);
    o.about(&pool[0]);
    let first: Vec<Vec<String>> = pool.iter().map(|t| files.iter().map(|f| all_of(t, f)).collect()).collect::<Result<_, _>>()?;
    // one settings value and its clones, in another order
    let base: Vec<ParserSettings> = files.iter().map(|f| ParserSettings { file: f.to_string(), refine: true }).collect();
    for _ in 0..pool.len() * 2 {
        let (k, f) = (r.below(pool.len()), r.below(files.len()));
        o.about(&pool[k]);
        o.events += 1;
        let st = if r.chance(1, 2) { base[f].clone() } else { ParserSettings { refine: r.chance(1, 2), ..base[f].clone() } };
        let again = all_of(&pool[k], &st.file)?;
        if again != first[k][f] {
            return Err(format!("{:?} first gives {} and then {}", pool[k], clip(&first[k][f]), clip(&again)));
        }
        if let Ok(a) = st.parse(&pool[k]) {
            // translations leave the tree as it was, and give the same again
            let b = a.clone();
            let x = caught(|| (a.to_string(), a.to_tex(), a.to_wolfram_string())).map_err(|p| format!("panicked: {}", p))?;
            let y = caught(|| (b.to_string(), b.to_tex(), b.to_wolfram_string())).map_err(|p| format!("panicked: {}", p))?;
            if x != y || a != b {
                return Err(format!("{:?}: a clone renders differently: {} and {}", pool[k], clip(&format!("{:?}", x)), clip(&format!("{:?}", y))));
            }
            o.tag("parsed again");
        }
        else {
            o.tag("rejected again");
        }
    }
    // the file names show in the positions, and make no other difference
    for (k, v) in first.iter().enumerate() {
        for (w, f) in v.iter().zip(&files) {
            if *w != v[0].replace(&format!("file: {:?}", files[0]), &format!("file: {:?}", f)) {
                return Err(format!("{:?}: with file name {:?} {}, with {:?} {}", pool[k], files[0], clip(&v[0]), f, clip(w)));
            }
        }
    }
    o.about(&pool.concat());
    o.nontrivial = true;
    o.outcome = format!("{} texts, each observed again, always the same", pool.len());
    Ok(())
}

/// the same from several threads at once
pub fn parallel(seed: u64, n: usize, steps: usize) -> i32 {
    let mut r0 = Rng::new(seed, 30);
    let mut pool = vec![];
    while pool.len() < 60 {
        for t in family(&mut r0) {
            let f = if r0.chance(2, 3) { "p.sm" } else { *r0.pick(NAMES) };
            match all_of(&t, f) {
                Ok(s) => pool.push((t, s, f)),
                Err(e) => {
                    println!("BAD {}", e);
                    return 1;
                }
            }
        }
    }
    let pool = Arc::new(pool);
    let bad: Arc<Mutex<Option<String>>> = Default::default();
    let bar = Arc::new(Barrier::new(n));
    let trees: Arc<Vec<Option<AST>>> = Arc::new(pool.iter().map(|p| ParserSettings { file: p.2.into(), refine: true }.parse(&p.0).ok()).collect());
    let hs: Vec<_> = (0..n)
        .map(|k| {
            let (pool, bad, bar, trees) = (pool.clone(), bad.clone(), bar.clone(), trees.clone());
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let mut r = Rng::new(seed, 5000 + k as u64);
                    bar.wait();
                    let mut calls = 0u64;
                    for _ in 0..steps {
                        if bad.lock().unwrap().is_some() {
                            break;
                        }
                        let i = r.below(pool.len());
                        calls += 1;
                        let m = if r.chance(1, 3) {
                            // one tree, read by many threads
                            trees[i].as_ref().and_then(|a| {
                                let s = caught(|| format!("{:?}\n{}\n{}\n{}\n{:?}", a, a, a.to_tex(), a.to_wolfram_string(), a.to_wolfram_bytes()));
                                match s {
                                    Ok(s) if pool[i].1.starts_with(&s) => None,
                                    Ok(s) => Some(s),
                                    Err(p) => Some(format!("panicked: {}", p)),
                                }
                            })
                        }
                        else {
                            match all_of(&pool[i].0, pool[i].2) {
                                Ok(s) if s == pool[i].1 => None,
                                Ok(s) => Some(s),
                                Err(p) => Some(p),
                            }
                        };
                        if let Some(m) = m {
                            *bad.lock().unwrap() = Some(format!("{:?} alone: {}; here: {}", pool[i].0, clip(&pool[i].1), clip(&m)));
                        }
                        if r.chance(1, 8) {
                            std::thread::yield_now();
                        }
                    }
                    calls
                })
                .unwrap()
        })
        .collect();
    let mut calls = 0;
    for h in hs {
        match h.join() {
            Ok(c) => calls += c,
            Err(_) => {
                println!("BAD a thread died");
                return 1;
            }
        }
    }
    if let Some(m) = bad.lock().unwrap().take() {
        println!("BAD {}", m);
        return 1;
    }
    println!("{{\"threads\":{},\"calls\":{},\"texts\":{}}}", n, calls, pool.len());
    0
}
/// every sequence of up to `k` of the given units, repeated: those that need more than `limit` steps
pub fn sweep(units: Vec<String>, k: usize, len: usize, limit: usize) {
    pest::set_call_limit(NonZeroUsize::new(limit));
    let n = units.len();
    let units = Arc::new(units);
    let next = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let hs: Vec<_> = (0..8)
        .map(|_| {
            let (units, next) = (units.clone(), next.clone());
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || loop {
                    let j = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if j >= (1..=k as u32).map(|i| n.pow(i)).sum() {
                        break;
                    }
                    let (mut j, mut l) = (j, 1);
                    while j >= n.pow(l) {
                        j -= n.pow(l);
                        l += 1;
                    }
                    let mut u = String::new();
                    for _ in 0..l {
                        u += &units[j % n];
                        j /= n;
                    }
                    let t = u.repeat((len / u.chars().count()).max(1));
                    for t in [t.clone(), t.clone() + &closers(&t)] {
                        let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match settings().parse(&t) {
                            Err(e) if format!("{:?}", e).contains("call limit reached") => true,
                            _ => false,
                        }));
                        if !matches!(x, Ok(false)) {
                            println!("{:?} {} {}", u, l, if x.is_err() { "panic" } else { "steps" });
                        }
                    }
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
}

// ------------------------------------------------------------------ C31 every tree

const PLAIN_NAMES: &[&str] = &["x", "f", "alpha", "sin", "arccot", "List", "power", "add", "times", "first", "length", "factorial", "factor", "Null", "θ"];
const PLAIN_PATHS: &[&[&str]] = &[&[], &[], &[], &["a"], &["std", "infix"], &["std", "containers"], &["a", "b", "c"], &["std"]];
const ODD_NAMES: &[&str] = &[
    "", " ", "x", "ß", "ǆ", "ŉa", "ﬁx", "İ", "🦀", "e\u{301}", "a b", "a::b", "::", "\"", "\\", "{", "}}", "\\left(", "\n", "\0", "1", "-5", "+", "List", "sin", "arcsech", "power", "times", "add", "plus", "minus", "factorial", "fibonacci", "first", "last", "length", "factor",
    "Factor", "Null", "true", "std::containers::List", "%", "#", "#1", "(", ")", "Rule", "CompoundExpression",
];

pub struct Wild {
    /// only what the grammar can spell
    pub plain: bool,
    pub next: u64,
    pub programs: usize,
}
impl Wild {
    fn name(&mut self, r: &mut Rng) -> String {
        if self.plain {
            return r.pick(PLAIN_NAMES).to_string();
        }
        match r.below(8) {
            0 => (0..r.below(6)).map(|_| random_char(r)).collect(),
            1 => name(r, &ALL),
            _ => r.pick(ODD_NAMES).to_string(),
        }
    }
    fn path(&mut self, r: &mut Rng) -> Vec<String> {
        if self.plain || r.chance(1, 2) {
            return r.pick(PLAIN_PATHS).iter().map(|s| s.to_string()).collect();
        }
        (0..r.below(4)).map(|_| self.name(r)).collect()
    }
    fn symbol(&mut self, r: &mut Rng) -> AST {
        // symbols are made from text, and their fields are public
        let mut a = AST::symbol("x");
        if let AST::Symbol(s) = &mut a {
            s.name = self.name(r);
            s.name_space = self.path(r);
            if !self.plain {
                s.attributes = *r.pick(&[0, 1, 42, u64::MAX]);
            }
        }
        a
    }
    fn atom(&mut self, r: &mut Rng) -> AST {
        self.next += 1;
        match r.below(if self.plain { 4 } else { 9 }) {
            0 | 1 => AST::integer(if self.plain || r.chance(1, 2) {
                BigInt::from(self.next) * if r.chance(1, 4) { -1 } else { 1 }
            }
            else {
                let i: BigInt = integer_text(r, true).parse().unwrap_or_default();
                if r.chance(1, 2) { -i } else { i }
            }),
            2 => self.symbol(r),
            3 => AST::Boolean(r.chance(1, 2)),
            4 => AST::EmptyStatement,
            5 => {
                let t = format!("{}{}.{}", r.pick(&["", "-"]), r.below(5000), *r.pick(&["0", "5", "00", "010", "0000000001", "99999999999999999999999"]));
                AST::decimal(t.parse::<bigdecimal::BigDecimal>().unwrap())
            }
            6 if self.programs < 3 => {
                self.programs += 1;
                AST::Program((0..r.below(4)).map(|_| self.tree(r, 3)).collect())
            }
            _ => AST::string((0..*r.pick(&[0, 1, 1, 2, 5, 40])).map(|_| random_char(r)).collect::<String>()),
        }
    }
    pub fn tree(&mut self, r: &mut Rng, budget: usize) -> AST {
        if budget <= 1 {
            return self.atom(r);
        }
        let at = |k: usize| move |b: &Builder| b.templates.iter().nth(k % b.templates.len()).map(|(k, a)| (k.clone(), a.clone())).unwrap();
        let Ok((key, mut a)) = built(at(r.below(1 << 20))) else { return AST::EmptyStatement };
        let AST::Function(s, ps) = &mut a else { return a };
        let ident = s.name.chars().all(|c| c.is_alphanumeric() || c == '_') && s.name.chars().next().is_some_and(|c| c.is_alphabetic());
        // a group as the library makes it, to be filled
        let model = ps[0].clone();
        // the usual shape of such a node, or any other
        let usual = (self.plain && !ident) || r.chance(1, 2);
        let kind = key.as_bytes()[0];
        let wide = usual && kind == b'i' && key == "i*" && r.chance(1, 3);
        if !usual || kind == b'c' {
            if !self.plain && r.chance(1, 2) || kind == b'c' && r.chance(1, 2) {
                s.name = self.name(r);
                s.name_space = self.path(r);
            }
            if !self.plain {
                s.attributes = *r.pick(&[0, 0, 1, u64::MAX]);
            }
        }
        let groups = if usual && kind != b'c' { 1 } else { *r.pick(&[0usize, 1, 1, 1, 2, 2, 3]) };
        let each = (budget - 1) / groups.max(1);
        *ps = (0..groups)
            .map(|_| {
                let n = match kind {
                    b'i' if wide => r.range(3, 5),
                    b'i' if usual => 2,
                    b'p' | b's' if usual => 1,
                    _ => *r.pick(&[0usize, 1, 1, 2, 2, 3, 4]),
                };
                let k = if usual && kind != b'c' && kind != b'l' || r.chance(2, 3) { 0 } else { r.range(1, 3) };
                // a chain of other operators than multiplication is a nest of pairs
                let n = if self.plain && kind == b'i' && groups == 1 && k == 0 && key != "i*" { n.min(2) } else { n };
                let mut p = model.clone();
                p.arguments = (0..n).map(|_| self.tree(r, each / (n + k))).collect();
                p.options.clear();
                for _ in 0..k {
                    // the grammar spells keys as plain names
                    let key = if self.plain {
                        AST::symbol(self.name(r))
                    }
                    else if r.chance(1, 2) {
                        self.symbol(r)
                    }
                    else {
                        self.tree(r, 2)
                    };
                    let v = self.tree(r, each / (n + k));
                    p.options.insert(key, v);
                }
                if r.chance(1, 2) {
                    p.position.file = self.name(r);
                    p.position.start = (r.below(9), *r.pick(&[0, 1, usize::MAX]));
                    p.position.end = (*r.pick(&[0, 7, usize::MAX]), r.below(9));
                }
                p
            })
            .collect();
        a
    }
}

/// integers in the order in which they are written out; those of options apart
fn integers(a: &AST, options: bool, v: &mut Vec<String>) {
    match a {
        AST::Integer(i) => v.push(i.to_string().trim_start_matches('-').to_string()),
        AST::Program(w) => w.iter().for_each(|a| integers(a, options, v)),
        AST::Function(_, ps) => {
            for p in ps {
                p.arguments.iter().for_each(|a| integers(a, options, v));
                if options {
                    p.options.values().for_each(|a| integers(a, options, v));
                }
            }
        }
        _ => (),
    }
}
fn runs(s: &str) -> Vec<String> {
    // the one name with a digit
    s.replace("factorial2", "").split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(String::from).collect()
}
/// the Wolfram form, from the tree
fn wl_of(a: &AST) -> String {
    match a {
        AST::Function(s, ps) => {
            let mut h = format!("sym {}", if s.name == "factor" { "FactorInteger".to_string() } else { upper(&s.name) });
            for p in ps {
                let mut v: Vec<String> = p.arguments.iter().map(wl_of).collect();
                v.extend(p.options.iter().map(|(k, e)| format!("sym Rule[{}, {}]", wl_of(k), wl_of(e))));
                h += &format!("[{}]", v.join(", "));
            }
            h
        }
        AST::Program(v) => format!("sym CompoundExpression[{}]", v.iter().map(wl_of).collect::<Vec<_>>().join(", ")),
        AST::Symbol(s) => format!("sym {}", s.name),
        a => wl_ref(&from_ast(a)),
    }
}
/// what a printed tree reads back as: a node that no operator notation fits is printed, and read, as a call
fn spelled(n: &N) -> N {
    let all = |v: &Vec<N>| v.iter().map(spelled).collect::<Vec<_>>();
    match n {
        N::Fun(_, f, gs) if gs.is_empty() => N::Sym(f.clone()),
        N::Fun(k, f, gs) => {
            let fits = gs.len() == 1 && gs[0].opts.is_empty() && match k {
                'i' => gs[0].args.len() > 1,
                'p' | 's' => gs[0].args.len() == 1,
                _ => true,
            };
            let gs: Vec<G> = gs.iter().map(|g| G { args: all(&g.args), opts: g.opts.iter().map(|(k, v)| (k.clone(), spelled(v))).collect(), pos: Pos::None }).collect();
            N::Fun(if fits { *k } else { 'n' }, f.clone(), gs).normal()
        }
        N::Prog(v) => N::Prog(all(v)),
        n => n.normal(),
    }
}

pub fn c31(r: &mut Rng, o: &mut Obs) -> V {
    let mut w = Wild { plain: r.chance(1, 2), next: 10, programs: 0 };
    built(|_| ())?;
    let budget = *r.pick(&[2, 2, 3, 4, 6, 10, 16, 30]);
    let mut a = w.tree(r, budget);
    if w.plain && r.chance(1, 6) {
        a = AST::Program((0..r.range(2, 4)).map(|_| w.tree(r, 6)).collect());
    }
    let n = from_ast(&a);
    o.about(&format!("built: {}", clip(&format!("{:?}", a))));
    o.tag(if w.plain { "tree of spellable names" } else { "tree of any names and atoms" });
    n.count(&mut o.heads);
    o.nontrivial = n.size() > 1;
    let before = a.clone();
    let debug = format!("{:?}", a);
    // printing
    let printed = caught(|| a.to_string()).map_err(|p| format!("printing panicked: {}", p))?;
    let again = caught(|| format!("{}", a)).map_err(|p| format!("printing panicked: {}", p))?;
    if printed != again {
        return Err(format!("printed as {:?}, then as {:?}", printed, again));
    }
    // TeX
    let tex = caught(|| a.to_tex()).map_err(|p| format!("rendering panicked: {}", p))?;
    if tex != a.to_tex() {
        return Err(format!("rendered as {:?}, then as {:?}", tex, a.to_tex()));
    }
    // Wolfram
    let v = caught(|| a.to_wolfram()).map_err(|p| format!("translating panicked: {}", p))?;
    let (x, y) = (wl_of(&a), wl_seen(&v));
    if x != y {
        let at = x.chars().zip(y.chars()).take_while(|(a, b)| a == b).count();
        let cut = |s: &str| s.chars().skip(at.saturating_sub(40)).take(160).collect::<String>();
        return Err(format!("translated differently: expected ...{}, got ...{}", cut(&x), cut(&y)));
    }
    let (t, b) = caught(|| (a.to_wolfram_string(), a.to_wolfram_bytes())).map_err(|p| format!("translating panicked: {}", p))?;
    if t != v.to_string() || b != v.to_bytes() {
        return Err("the text or byte form is not the form of the translated value".into());
    }
    // head
    caught(|| heads(&a, o)).map_err(|p| format!("head panicked: {}", p))??;
    // evaluation
    if !heavier(&n, 50_000, 1500) {
        let got = caught(|| a.forward(&mut Context::default())).map_err(|p| format!("evaluating panicked: {}", p))?;
        let twice = caught(|| a.forward(&mut Context::default())).map_err(|p| format!("evaluating panicked: {}", p))?;
        let text = |g: &sm_ast::SMResult<AST>| match g {
            Ok(a) => format!("{:?}", a),
            Err(e) => format!("error {:?}", e),
        };
        if text(&got) != text(&twice) {
            return Err(format!("evaluates to {}, then to {}", clip(&text(&got)), clip(&text(&twice))));
        }
        let known = !unspecified(&n) && !matches!(&a, AST::Function(s, ps) if ps.is_empty() || s.name.contains(':') || s.name_space.iter().any(|n| n.is_empty()));
        let got = got.map(|a| from_ast(&a)).map_err(|e| err(&e));
        if known && !matches!(a, AST::Program(_)) {
            eval_verdict(&n, &got, o)?;
        }
        let re = caught(|| a.rewrite()).map_err(|p| format!("rewriting panicked: {}", p))?;
        let later = caught(|| re.forward(&mut Context::default())).map_err(|p| format!("evaluating the rewritten tree panicked: {}", p))?;
        if known && !matches!(a, AST::Program(_)) {
            eval_verdict(&n, &later.map(|a| from_ast(&a)).map_err(|e| err(&e)), &mut Obs::default()).map_err(|m| format!("after rewriting: {}", m))?;
        }
    }
    if a != before || format!("{:?}", a) != debug {
        return Err(format!("the tree has become {:?}", a));
    }
    o.outcome = clip(&printed);
    if !w.plain {
        return Ok(());
    }
    // everything is shown, in its place
    balanced(&tex)?;
    let (mut all, mut some) = (vec![], vec![]);
    integers(&a, true, &mut all);
    integers(&a, false, &mut some);
    if runs(&printed) != all {
        return Err(format!("printed as {:?}, which does not show the numbers {:?} in order", printed, all));
    }
    let seen = runs(&tex);
    let mut it = seen.iter();
    if let Some(m) = some.iter().find(|n| !it.any(|s| s == *n)) {
        return Err(format!("rendered as {:?}, where {} is not shown in its place", tex, m));
    }
    let want = spelled(&n);
    let back = parse(&printed).map_err(|e| format!("printed as {:?}, which is {}", printed, e))?;
    o.tag("read back");
    want.diff(&spelled(&from_ast(&back))).map_or(Ok(()), |d| Err(format!("printed as {:?}, which reads back differently: {}", printed, d)))
}
