//! One oracle per property. Every case is a function of (property, seed, index).
use crate::gen::*;
use crate::rng::Rng;
use crate::tree::*;
use crate::{caught, more, place, session, Obs};
use num::{BigInt, Integer, One, Signed, ToPrimitive, Zero};
use sm_ast::parser::ParserSettings;
use sm_ast::{Context, Runner, SMError, ToTex, ToWolfram, AST};
use std::collections::BTreeMap;
use std::time::Duration;
use wolfram_wxf::WolframValue;

type V = Result<(), String>;

pub fn case(prop: &str, seed: u64, i: u64, o: &mut Obs) -> V {
    let p: u64 = prop[1..].parse().unwrap_or(0);
    let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(p), i);
    if prop != "C25" {
        // (the bound on parser steps is for texts of ordinary length)
        crate::gen::new_case();
    }
    let r = &mut r;
    match prop {
        "C13" => c13(r, i, o),
        "C14" => c14(r, i, o),
        "C15" => c15(r, o),
        "C16" => c16(r, o),
        "C17" => c17(r, o),
        "C18" => c18(r, o),
        "C19" => c19(r, o),
        "C20" => c20(r, o),
        "C21" => session::history(r, o),
        "C22" => c22(r, i, o),
        "C23" => c23(r, o),
        "C25" => more::c25(r, o),
        "C26" => more::c26(r, o),
        "C27" => more::c27(r, o),
        "C28" => more::c28(r, o),
        "C29" => more::c29(r, o),
        "C30" => more::c30(r, o),
        "C31" => more::c31(r, o),
        "C32" => place::c32(r, o),
        "C33" => place::c33(r, o),
        "C34" => place::c34(r, o),
        _ => panic!("no such property"),
    }
}

pub fn settings() -> ParserSettings {
    ParserSettings::default()
}
pub fn err(e: &SMError) -> String {
    clip(&format!("{:?}", e))
}
pub fn parse(s: &str) -> Result<AST, String> {
    match caught(|| settings().parse(s)) {
        Ok(Ok(a)) => Ok(a),
        Ok(Err(e)) => Err(format!("rejected: {}", err(&e))),
        Err(p) => Err(format!("panicked: {}", p)),
    }
}

// ------------------------------------------------------------------ C13 literals

fn c13(r: &mut Rng, i: u64, o: &mut Obs) -> V {
    let kind = i % 8;
    let lit = match kind {
        0 | 1 => integer(r, true),
        2 => byte(r, true),
        3 => decimal(r, true),
        4 => string(r, false),
        5 => block_string(r),
        6 => match r.below(4) {
            0 => {
                // every short integer, decimal and byte literal sooner or later
                let n = (i / 8) as usize;
                E::Atom(n.to_string(), N::Int(n.into()))
            }
            1 => {
                let t = format!("{}.{:0w$}", r.below(12), r.below(1000), w = r.range(1, 5));
                let d = dec(&t);
                E::Atom(t, N::Dec(d))
            }
            2 => {
                let n = r.below(70000);
                E::Atom(format!("0x{:X}", n), N::Int(n.into()))
            }
            _ => {
                let n = r.below(2000);
                E::Atom(format!("0b{:b}", n), N::Int(n.into()))
            }
        },
        _ => match r.below(3) {
            0 => boolean(r),
            1 => null(),
            _ => byte(r, false),
        },
    };
    o.tag(["integer", "integer", "byte literal", "decimal", "string", "block string", "short number", "special or byte"][kind as usize]);
    let x = E::Atom("x".into(), N::Sym("x".into()));
    let e = match r.below(9) {
        0 => E::Call("f".into(), vec![vec![Arg::Pos(lit.clone()), Arg::Kw("k".into(), lit.clone())]]),
        1 => E::List(vec![x, lit.clone(), lit.clone()]),
        2 => E::Bin("+", Box::new(x), Box::new(lit.clone())),
        3 => E::Bin("*", Box::new(lit.clone()), Box::new(x)),
        4 => E::Pre("-", Box::new(lit.clone())),
        5 => E::Suf("!", Box::new(lit.clone())),
        6 => E::Index(Box::new(lit.clone()), vec![Ix::One(lit.clone())]),
        _ => lit.clone(),
    };
    let (toks, want, _) = render(&e, r, PLAIN);
    let l = *r.pick(&[Lay::Tight, Lay::Blanks, Lay::Air]);
    let (text, _) = lay(&toks, r, l, true);
    o.about(&text);
    let got = from_ast(&parse(&text)?);
    o.outcome = got.show();
    o.nontrivial = text.len() > 1;
    want.count(&mut o.heads);
    want.diff(&got).map_or(Ok(()), Err)
}

// ------------------------------------------------------------------ C14 precedence, all operands

const INFIX: [&str; 13] = ["+", "-", "*", "/", "^", "×", "÷", "%", "⋅", "⊗", "⊙", ">", "="];

/// tree of a flat operator sequence by the documented table, independent of the printer
fn group(atoms: &[N], ops: &[&str]) -> N {
    if ops.is_empty() {
        return atoms[0].clone();
    }
    let low = ops.iter().map(|o| prec(o)).min().unwrap();
    let at: Vec<usize> = (0..ops.len()).filter(|k| prec(ops[*k]) == low).collect();
    let k = if right(ops[at[0]]) { at[0] } else { *at.last().unwrap() };
    fun('i', infix_name(ops[k]), vec![group(&atoms[..=k], &ops[..k]), group(&atoms[k + 1..], &ops[k + 1..])], Pos::None)
}

fn c14(r: &mut Rng, i: u64, o: &mut Obs) -> V {
    let n = INFIX.len() as u64;
    if i < n + n * n + n * n * n || r.chance(1, 8) {
        let ops: Vec<&str> = if i < n {
            vec![INFIX[i as usize]]
        }
        else if i < n + n * n {
            let j = (i - n) as usize;
            vec![INFIX[j / 13], INFIX[j % 13]]
        }
        else if i < n + n * n + n * n * n {
            let j = (i - n - n * n) as usize;
            vec![INFIX[j / 169], INFIX[j / 13 % 13], INFIX[j % 13]]
        }
        else {
            let k = r.range(4, 14);
            (0..k).map(|_| *r.pick(&INFIX)).collect()
        };
        let affixed = r.chance(1, 3);
        let mut text = String::new();
        let mut atoms = vec![];
        for k in 0..=ops.len() {
            let (t, mut n) = if r.chance(1, 2) { (format!("v{}", k), N::Sym(format!("v{}", k))) } else { ((k + 2).to_string(), N::Int((k + 2).into())) };
            let mut w = t;
            if affixed {
                if r.chance(1, 3) {
                    w += "!";
                    n = fun('s', "factorial", vec![n], Pos::None);
                }
                for _ in 0..r.below(3) {
                    let p = *r.pick(&["-", "+", "!", "*", "¬"]);
                    w = format!("{}{}", p, w);
                    n = fun('p', prefix_name(p), vec![n], Pos::None);
                }
            }
            text += &w;
            atoms.push(n);
            if k < ops.len() {
                text += &if r.chance(1, 2) { ops[k].to_string() } else { format!(" {} ", ops[k]) };
            }
        }
        o.about(&text);
        o.tag("operator sequence");
        let want = group(&atoms, &ops);
        let got = from_ast(&parse(&text)?);
        want.count(&mut o.heads);
        o.nontrivial = true;
        o.outcome = got.show();
        return want.diff(&got).map_or(Ok(()), Err);
    }
    let budget = *r.pick(&[2, 3, 3, 4, 4, 5, 6, 8, 12, 20]);
    if r.chance(1, 12) {
        return c14_pieces(r, o);
    }
    let es = exprs(r, &ALL, budget);
    let st = Style { parens: *r.pick(&[0, 0, 1, 3]), commas: true, wide: true };
    let (toks, want, _) = render_all(&es, r, st);
    let l = *r.pick(&[Lay::Tight, Lay::Tight, Lay::Blanks, Lay::Air]);
    let (text, _) = lay(&toks, r, l, true);
    o.about(&text);
    o.tag("random expression");
    let got = from_ast(&parse(&text)?);
    want.count(&mut o.heads);
    o.nontrivial = want.size() > 2;
    o.outcome = got.show();
    want.diff(&got).map_or(Ok(()), Err)
}

/// pieces next to each other, with or without a separator: whatever they group to, none may be lost
fn c14_pieces(r: &mut Rng, o: &mut Obs) -> V {
    let mut text = String::new();
    let mut marks = vec![];
    for k in 0..r.range(2, 6) {
        let m = format!("q{}q", k);
        if k > 0 {
            text += r.pick(&[" ", "\n", ";", "; ", " ;\n", "\n\n", " /// c\n", ";\n\n", "\t"]);
        }
        text += &r.pick(&["M", "M", "f(M)", "(M)", "[M]", "M[1]", "M!", "-M", "1 + M", "M.g()", "\"M\"", "(M + 2) * 3", "h(a)(M)", "7 M", "f(k: M)"]).replace('M', &m);
        marks.push(m);
    }
    o.about(&text);
    o.tag("pieces next to each other");
    o.nontrivial = true;
    match parse(&text) {
        Err(e) if e.starts_with("rejected") => {
            o.outcome = "rejected".into();
            Ok(())
        }
        Err(e) => Err(e),
        Ok(a) => {
            let t = from_ast(&a).show();
            o.outcome = t.clone();
            let mut at = 0;
            for m in &marks {
                match t[at..].find(m.as_str()) {
                    Some(i) => at += i + m.len(),
                    None => return Err(format!("{} is missing or out of order in {}", m, clip(&t))),
                }
            }
            Ok(())
        }
    }
}

// ------------------------------------------------------------------ C15 layout

fn c15(r: &mut Rng, o: &mut Obs) -> V {
    let budget = *r.pick(&[2, 3, 4, 5, 6, 8, 12]);
    let es = exprs(r, &ALL, budget);
    let (toks, _, _) = render_all(&es, r, PLAIN);
    let (base, _) = lay(&toks, r, Lay::Tight, false);
    o.about(&base);
    let first = parse(&base);
    let want = first.as_ref().map(from_ast).map_err(|e| e.clone());
    let mut variants = vec![];
    for l in [Lay::Blanks, Lay::Air, Lay::Wild, Lay::Wild] {
        let st = Style { parens: if r.chance(1, 2) { *r.pick(&[1, 3, 6]) } else { 0 }, commas: r.chance(1, 2), wide: r.chance(1, 2) };
        let par = st.parens > 0;
        let (toks, _, _) = render_all(&es, r, st);
        let (t, _) = lay(&toks, r, l, true);
        variants.push((t, l, par));
    }
    let mut seen = vec![];
    for (t, l, par) in variants {
        if t == base {
            continue;
        }
        o.about(&t);
        o.events += 1;
        o.tag(format!("{:?} layout{}", l, if par { " with redundant parentheses" } else { "" }));
        let got = parse(&t).map(|a| from_ast(&a));
        match (&want, &got) {
            (Ok(w), Ok(g)) => {
                if let Some(d) = w.diff(g) {
                    return Err(format!("layout changes the tree: {:?} and {:?}: {}", base, t, d));
                }
            }
            (Err(a), Err(b)) if a.starts_with("rejected") && b.starts_with("rejected") => o.tag("rejected in every layout"),
            (a, b) => {
                let s = |x: &Result<N, String>| match x {
                    Ok(n) => clip(&n.show()),
                    Err(e) => e.clone(),
                };
                return Err(format!("layout changes what is accepted: {:?}: {}; {:?}: {}", base, s(a), t, s(b)));
            }
        }
        seen.push(t);
    }
    if let Ok(w) = &want {
        w.count(&mut o.heads);
        o.nontrivial = w.size() > 1;
        o.outcome = format!("{} other layouts of it, all parsed to {}", seen.len(), w.show());
    }
    o.about(&seen.pop().unwrap_or(base));
    Ok(())
}

// ------------------------------------------------------------------ built trees

/// an AST assembled through the public constructors; operator nodes and argument groups are taken from parsed templates
pub struct Builder {
    pub templates: BTreeMap<String, AST>,
}
impl Builder {
    pub fn new() -> Result<Builder, String> {
        let mut templates = BTreeMap::new();
        for op in INFIX {
            templates.insert(format!("i{}", op), parse(&format!("1{}2", op))?);
        }
        for op in ["+", "-", "*", "!", "¬"] {
            templates.insert(format!("p{}", op), parse(&format!("{}1", op))?);
        }
        for op in ["!", "!!"] {
            templates.insert(format!("s{}", op), parse(&format!("1{}", op))?);
        }
        for f in ["f", "g", "h", "sin", "log", "factor", "a::b", "add", "power", "factorial", "fibonacci", "first", "length"] {
            templates.insert(format!("c{}", f), parse(&format!("{}(1, k: 2)(3)", f))?);
        }
        templates.insert("l".into(), parse("[1]")?);
        Ok(Builder { templates })
    }
    pub fn with(&self, key: &str, args: Vec<AST>) -> AST {
        let mut t = self.templates[key].clone();
        if let AST::Function(_, ps) = &mut t {
            ps.truncate(1);
            ps[0].options.clear();
            ps[0].arguments = args;
        }
        t
    }
    fn call(&self, f: &str, groups: Vec<(Vec<AST>, Vec<(String, AST)>)>) -> AST {
        let mut t = self.templates[&format!("c{}", f)].clone();
        if let AST::Function(_, ps) = &mut t {
            let p = ps[0].clone();
            ps.clear();
            for (a, k) in groups {
                let mut q = p.clone();
                q.arguments = a;
                q.options = k.into_iter().map(|(k, v)| (AST::symbol(k), v)).collect();
                ps.push(q);
            }
        }
        t
    }
    fn atom(&self, r: &mut Rng) -> AST {
        match r.below(10) {
            0..=3 => AST::integer(BigInt::from(r.below(200) as i64 - 60)),
            4 => {
                let s = integer_text(r, true);
                let i: BigInt = s.parse().unwrap();
                AST::integer(if r.chance(1, 2) { -i } else { i })
            }
            5 => {
                if let E::Atom(t, _) = decimal(r, false) {
                    let d: bigdecimal::BigDecimal = t.parse().unwrap();
                    AST::decimal(if r.chance(1, 2) { -d } else { d })
                }
                else {
                    unreachable!()
                }
            }
            6 => AST::Boolean(r.chance(1, 2)),
            _ => AST::symbol(name(r, &ALL)),
        }
    }
    pub fn tree(&self, r: &mut Rng, budget: usize, depth: usize) -> AST {
        if budget <= 1 || depth > 7 {
            return self.atom(r);
        }
        match r.below(16) {
            0..=6 => {
                let op = *r.pick(&INFIX);
                let l = r.range(1, budget - 1);
                let a = self.tree(r, l, depth + 1);
                let b = self.tree(r, budget - l, depth + 1);
                self.with(&format!("i{}", op), vec![a, b])
            }
            7 => {
                let k = r.range(3, 5);
                let v = (0..k).map(|_| self.tree(r, budget / k, depth + 1)).collect();
                self.with("i*", v)
            }
            8 | 9 => {
                let op = *r.pick(&["+", "-", "*", "!", "¬"]);
                let a = self.tree(r, budget - 1, depth + 1);
                self.with(&format!("p{}", op), vec![a])
            }
            10 | 11 => {
                let op = *r.pick(&["!", "!!"]);
                let a = self.tree(r, budget - 1, depth + 1);
                self.with(&format!("s{}", op), vec![a])
            }
            12 | 13 if depth < 4 => {
                let f = *r.pick(&["f", "g", "h", "sin", "log", "factor", "a::b"]);
                let groups = *r.pick(&[1usize, 1, 1, 2, 3]);
                let gs = (0..groups)
                    .map(|_| {
                        let k = r.below(4);
                        let a = (0..k).map(|_| self.tree(r, budget / (k + 1), depth + 1)).collect();
                        let k = if r.chance(1, 3) { r.range(1, 2) } else { 0 };
                        let n = (0..k).map(|_| (name(r, &ALL), self.tree(r, budget / 3, depth + 1))).collect();
                        (a, n)
                    })
                    .collect();
                self.call(f, gs)
            }
            14 if depth < 4 => {
                let k = r.below(4);
                let v = (0..k).map(|_| self.tree(r, budget / (k + 1), depth + 1)).collect();
                self.with("l", v)
            }
            _ => self.tree(r, budget - 1, depth + 1),
        }
    }
}

/// gives some operator nodes more operands
fn widen(a: &mut AST, r: &mut Rng) {
    if let AST::Function(s, ps) = a {
        let infix = s.name_space.len() == 2 && s.name_space[1] == "infix";
        for p in ps.iter_mut() {
            for x in p.arguments.iter_mut() {
                widen(x, r);
            }
            if infix && p.arguments.len() > 1 && r.chance(1, 2) {
                for _ in 0..r.range(1, 3) {
                    p.arguments.push(AST::integer(r.range(1, 99)));
                }
            }
        }
    }
}

thread_local! {
    static BUILDER: std::cell::OnceCell<Result<Builder, String>> = const { std::cell::OnceCell::new() };
}
pub fn built<T>(f: impl FnOnce(&Builder) -> T) -> Result<T, String> {
    BUILDER.with(|b| match b.get_or_init(Builder::new) {
        Ok(b) => Ok(f(b)),
        Err(e) => Err(format!("a template did not parse: {}", e)),
    })
}

// ------------------------------------------------------------------ C16 print and read back

fn c16(r: &mut Rng, o: &mut Obs) -> V {
    let budget = *r.pick(&[2, 3, 3, 4, 5, 6, 8, 12, 18]);
    let a = if r.chance(1, 2) {
        o.tag("built tree");
        let a = built(|b| b.tree(r, budget, 0))?;
        o.about(&format!("built: {}", clip(&from_ast(&a).show())));
        a
    }
    else {
        o.tag("parsed tree");
        let m = Mix { strings: false, slots: false, ..ALL };
        let es = exprs(r, &m, budget);
        let st = Style { parens: *r.pick(&[0, 2]), commas: false, wide: false };
        let (toks, _, _) = render_all(&es, r, st);
        let (text, _) = lay(&toks, r, Lay::Blanks, false);
        o.about(&text);
        parse(&text)?
    };
    let printed = caught(|| a.to_string()).map_err(|p| format!("printing panicked: {}", p))?;
    let want = from_ast(&a).normal();
    want.count(&mut o.heads);
    o.nontrivial = want.size() > 2;
    o.outcome = format!("printed {:?}, read back as the same", printed);
    // in the notation of the language
    if !o.input.contains("std") {
        if let Some(w) = ["std::infix::", "std::prefix::", "std::suffix::", "std::containers::List"].iter().find(|w| printed.contains(**w)) {
            return Err(format!("printed as {:?}: {} instead of its notation", printed, w));
        }
    }
    let again = parse(&printed).map_err(|e| format!("printed as {:?}, which is {}", printed, e))?;
    if let Some(d) = want.diff(&from_ast(&again).normal()) {
        return Err(format!("printed as {:?}, which reads back differently: {}", printed, d));
    }
    // printing what was read back changes nothing any more
    let p2 = caught(|| again.to_string()).map_err(|p| format!("printing panicked: {}", p))?;
    let third = parse(&p2).map_err(|e| format!("printed twice as {:?}, which is {}", p2, e))?;
    from_ast(&again).normal().diff(&from_ast(&third).normal()).map_or(Ok(()), |d| Err(format!("printed twice as {:?}: {}", p2, d)))
}

// ------------------------------------------------------------------ C17 evaluation

fn small(n: &BigInt, limit: u64) -> Option<u64> {
    n.to_u64().filter(|n| *n <= limit)
}
fn pow_ref(b: &BigInt, e: &BigInt) -> Option<BigInt> {
    // the documented domain: 0^0 and negative exponents are errors
    if e.is_negative() || (b.is_zero() && e.is_zero()) {
        return None;
    }
    if b.is_zero() || b.is_one() {
        return Some(b.clone());
    }
    if *b == -BigInt::one() {
        return Some(if e.is_even() { BigInt::one() } else { b.clone() });
    }
    let k = small(e, 250_000)?;
    let mut out = BigInt::one();
    for bit in (0..64 - k.leading_zeros()).rev() {
        out = &out * &out;
        if k >> bit & 1 == 1 {
            out *= b;
        }
    }
    Some(out)
}
fn fact_ref(n: &BigInt) -> Option<BigInt> {
    let n = small(n, 6000)?;
    let mut out = BigInt::one();
    for k in 2..=n {
        out *= k;
    }
    Some(out)
}
fn fib_ref(n: &BigInt) -> Option<BigInt> {
    let k = small(&n.abs(), 40_000)?;
    let (mut a, mut b) = (BigInt::zero(), BigInt::one());
    for _ in 0..k {
        let c = &a + &b;
        a = b;
        b = c;
    }
    Some(if n.is_negative() && k % 2 == 0 { -a } else { a })
}
/// the mathematical value, where this model knows it
fn value(n: &N) -> Option<N> {
    match n {
        N::Fun(_, f, gs) => {
            if gs.len() != 1 || !gs[0].opts.is_empty() {
                return None;
            }
            let a: Vec<N> = gs[0].args.iter().map(value).collect::<Option<_>>()?;
            let s: Vec<String> = a.iter().filter_map(|n| if let N::Str(s) = n { Some(s.clone()) } else { None }).collect();
            if a.len() == 1 && s.len() == 1 {
                return match f.as_str() {
                    "first" => s[0].chars().next().map(|c| N::Str(c.to_string())),
                    "last" => s[0].chars().last().map(|c| N::Str(c.to_string())),
                    "length" => Some(N::Int(s[0].chars().count().into())),
                    _ => None,
                };
            }
            let i: Vec<BigInt> = a.iter().map(|n| if let N::Int(i) = n { Some(i.clone()) } else { None }).collect::<Option<_>>()?;
            match (f.as_str(), i.as_slice()) {
                ("add" | "plus", v) if !v.is_empty() => Some(v.iter().sum()),
                ("times", v) if !v.is_empty() => Some(v.iter().product()),
                ("power", [a, b]) => pow_ref(a, b),
                ("subtract", [a, b]) => Some(a - b),
                ("minus", [a]) => Some(-a),
                ("divide", [a, b]) if !b.is_zero() && (a % b).is_zero() => Some(a / b),
                ("factorial", [a]) => fact_ref(a),
                ("fibonacci", [a]) => fib_ref(a),
                _ => None,
            }
            .map(N::Int)
        }
        n => Some(n.clone()),
    }
}
fn direct(n: &N) -> bool {
    // the forms that must evaluate
    match n {
        N::Fun(_, f, gs) if gs.len() == 1 && gs[0].opts.is_empty() => {
            let ints = gs[0].args.iter().all(|a| matches!(a, N::Int(_)));
            let strs = gs[0].args.iter().all(|a| matches!(a, N::Str(_)));
            match (f.as_str(), gs[0].args.len()) {
                // an oversized exponent may be refused even where the value is small
                ("power", 2) => ints && !matches!(&gs[0].args[1], N::Int(e) if *e > BigInt::from(u32::MAX)),
                ("add" | "times", 2) | ("factorial" | "fibonacci", 1) => ints,
                ("first" | "last" | "length", 1) => strs,
                _ => false,
            }
        }
        N::Fun(..) | N::Prog(_) => false,
        _ => true,
    }
}
/// arguments that the reference (or the library) would compute on for too long
pub fn heavy(n: &N) -> bool {
    heavier(n, 200_000, 3000)
}
/// about how many bits the value of an arithmetic tree has
fn width(n: &N) -> f64 {
    match n {
        N::Int(i) => i.bits() as f64,
        N::Fun(_, f, gs) if gs.len() == 1 => {
            let v: Vec<f64> = gs[0].args.iter().map(width).collect();
            match (last_part(f), &gs[0].args[..]) {
                ("power", [_, N::Int(e)]) if !e.is_negative() => v[0] * e.to_string().parse::<f64>().unwrap_or(1.0),
                _ => v.iter().sum(),
            }
        }
        _ => 0.0,
    }
}
pub fn heavier(n: &N, bits: u64, args: u64) -> bool {
    if let N::Fun(_, f, gs) = n {
        // powers of powers
        if last_part(f) == "power" && gs.len() == 1 && gs[0].args.len() == 2 && !matches!(gs[0].args[0], N::Int(_)) && matches!(gs[0].args[1], N::Int(_)) {
            if width(n) > 2_000_000.0 {
                return true;
            }
        }
        if gs.iter().any(|g| g.args.iter().any(|a| matches!(a, N::Fun(..)) && heavier(a, 2_000_000, 30_000))) {
            return true;
        }
    }
    match n {
        N::Fun(_, f, gs) if gs.len() == 1 => {
            let v: Vec<&BigInt> = gs[0].args.iter().filter_map(|a| if let N::Int(i) = a { Some(i) } else { None }).collect();
            let mid = |i: &BigInt, lo: u64| i.abs() > BigInt::from(lo) && i.abs() < BigInt::from(u64::MAX);
            // the evaluator goes by the last part of a qualified name
            match last_part(f) {
                "power" if v.len() == 2 => v[0].abs() > BigInt::one() && mid(v[1], bits / v[0].bits() as u64),
                "factorial" => v.iter().any(|i| mid(i, args) && !i.is_negative()),
                "fibonacci" => v.iter().any(|i| mid(i, 10 * args)),
                _ => false,
            }
        }
        _ => false,
    }
}
/// judge an outcome of evaluating tree n
pub fn eval_verdict(n: &N, got: &Result<N, String>, o: &mut Obs) -> V {
    let v = value(n);
    match (&v, got) {
        (Some(v), Ok(g)) => {
            o.tag(if direct(n) { "evaluated to the exact value" } else { "evaluated, though not required" });
            v.normal().diff(&g.normal()).map_or(Ok(()), |d| Err(format!("wrong value: {}", d)))
        }
        (Some(v), Err(e)) if direct(n) => Err(format!("must evaluate to {}, but: {}", clip(&v.show()), e)),
        (None, Ok(g)) => Err(format!("cannot be evaluated, but answers {}", clip(&g.show()))),
        (_, Err(e)) if e.starts_with("panicked") => Err(e.clone()),
        _ => {
            o.tag("reported as an error");
            Ok(())
        }
    }
}

fn int_literal(r: &mut Rng, n: &BigInt) -> E {
    let t = match r.below(6) {
        0 => format!("0x{:x}", n),
        1 => format!("0b{:b}", n),
        2 => format!("0O{:o}", n),
        _ => n.to_string(),
    };
    E::Atom(t, N::Int(n.clone()))
}
pub fn nat(r: &mut Rng) -> BigInt {
    match r.below(6) {
        0 => r.below(4).into(),
        1 => r.below(100).into(),
        2 => BigInt::from(r.next()),
        _ => integer_text(r, true).parse().unwrap(),
    }
}
fn exponent(r: &mut Rng) -> BigInt {
    match r.below(10) {
        0..=5 => r.below(8).into(),
        6 => r.below(300).into(),
        7 => r.below(2500).into(),
        8 => r.pick(&["18446744073709551616", "340282366920938463463374607431768211456", "100000000000000000000000000000000000001"]).parse().unwrap(),
        _ => r.below(40).into(),
    }
}
/// a source expression the evaluator has something to say about
pub fn evaluable(r: &mut Rng) -> E {
    let a = nat(r);
    let e = match r.below(14) {
        0 | 1 => {
            let b = nat(r);
            let op = *r.pick(&["+", "*", "×"]);
            E::Bin(op, Box::new(int_literal(r, &a)), Box::new(int_literal(r, &b)))
        }
        2 => {
            let (b, k) = if r.chance(1, 4) { (BigInt::from(r.below(3)), exponent(r)) } else { (if r.chance(1, 3) { a } else { r.below(1000).into() }, exponent(r)) };
            let (x, y) = (int_literal(r, &b), int_literal(r, &k));
            match r.below(3) {
                0 => E::Call("power".into(), vec![vec![Arg::Pos(x), Arg::Pos(y)]]),
                _ => E::Bin("^", Box::new(x), Box::new(y)),
            }
        }
        3 => {
            let b = nat(r);
            let f = *r.pick(&["add", "times"]);
            let (x, y) = (int_literal(r, &a), int_literal(r, &b));
            match r.below(3) {
                0 if ends_plain(&x) => E::Juxt(vec![x, y]),
                1 => E::Member(Box::new(x), Box::new(E::Call(f.into(), vec![vec![Arg::Pos(y)]]))),
                _ => E::Call(f.into(), vec![vec![Arg::Pos(x), Arg::Pos(y)]]),
            }
        }
        4 | 5 => {
            let n = BigInt::from(match r.below(4) {
                0 => r.below(25),
                1 => r.below(2000),
                _ => r.below(200),
            });
            let n = if r.chance(1, 15) { BigInt::from(u64::MAX) * 3 + 7 } else { n };
            let x = int_literal(r, &n);
            let f = *r.pick(&["factorial", "fibonacci"]);
            match r.below(4) {
                0 => E::Suf("!", Box::new(x)),
                1 => E::Member(Box::new(x), Box::new(E::Atom(f.into(), N::Sym(f.into())))),
                _ => E::Call(f.into(), vec![vec![Arg::Pos(x)]]),
            }
        }
        6 | 7 => {
            let s = if r.chance(1, 6) { E::Atom("\"\"".into(), N::Str("".into())) } else if r.chance(1, 3) { block_string(r) } else { string(r, false) };
            let f = *r.pick(&["first", "last", "length"]);
            match r.below(3) {
                0 => E::Member(Box::new(s), Box::new(E::Atom(f.into(), N::Sym(f.into())))),
                _ => E::Call(f.into(), vec![vec![Arg::Pos(s)]]),
            }
        }
        8 => atom(r, &ALL),
        9 => {
            // wrong arguments
            let f = *r.pick(&["factorial", "fibonacci", "first", "last", "length", "add", "times", "power", "plus"]);
            let k = r.below(4);
            let m = Mix { slots: false, ..ALL };
            let v: Vec<Arg> = (0..k).map(|_| if r.chance(1, 4) { Arg::Pos(E::Bin("+", Box::new(integer(r, false)), Box::new(integer(r, false)))) } else { Arg::Pos(atom(r, &m)) }).collect();
            // superfluous arguments of one-argument functions are not specified
            let v = if v.len() > 1 && !["add", "times", "power", "plus"].contains(&f) { vec![v[0].clone()] } else { v };
            E::Call(f.into(), if r.chance(1, 8) { vec![v, vec![]] } else { vec![v] })
        }
        _ => {
            let m = Mix { options: false, ..ALL };
            let k = r.range(2, 6);
            expr(r, &m, k, 0)
        }
    };
    if r.chance(1, 8) { E::Paren(Box::new(e)) } else { e }
}
fn ends_plain(e: &E) -> bool {
    matches!(e, E::Atom(..))
}
/// trees with arguments the evaluator's documentation says nothing about
pub fn unspecified(n: &N) -> bool {
    match n {
        N::Fun(_, f, gs) => {
            // user functions in name spaces of their own, superfluous arguments, options
            gs.iter().any(|g| !g.opts.is_empty()) || f.contains("::") || (gs.len() == 1 && gs[0].args.len() > 1 && ["factorial", "fibonacci", "first", "last", "length"].contains(&f.as_str()))
        }
        _ => false,
    }
}

fn c17(r: &mut Rng, o: &mut Obs) -> V {
    if r.chance(1, 5) {
        // built trees: negative numbers, and the functions the evaluator is made of
        let neg = |r: &mut Rng, b: BigInt| if r.chance(1, 2) { -b } else { b };
        let f = *r.pick(&["i+", "i*", "i×", "i^", "s!", "cfactorial", "cfibonacci", "cadd", "cpower", "i-", "i/", "s!!", "p-", "p+"]);
        let k = match f {
            "s!" | "s!!" | "p-" | "p+" | "cfactorial" | "cfibonacci" => 1,
            _ => 2,
        };
        let mut v: Vec<BigInt> = (0..k).map(|_| { let n = nat(r); neg(r, n) }).collect();
        if r.chance(1, 4) {
            // small numbers, so that they coincide now and then
            let m = *r.pick(&[3u64, 8, 20]);
            v = (0..k).map(|_| { let n = BigInt::from(r.below(m as usize)); neg(r, n) }).collect();
        }
        if (f == "i^" || f == "cpower") && r.chance(3, 4) {
            v[1] = { let e = exponent(r); if r.chance(1, 6) { -e } else { e } };
        }
        if k == 2 && r.chance(1, 10) {
            v[0] = if r.chance(1, 2) { v[1].clone() } else { -v[1].clone() };
        }
        if f == "s!" || f.starts_with("cf") {
            v[0] = { let n = BigInt::from(r.below(700)); neg(r, n) };
            if r.chance(1, 12) {
                v[0] = BigInt::from(i64::MIN) * 5 - r.below(9);
            }
        }
        let args: Vec<AST> = v.iter().map(|i| AST::integer(i.clone())).collect();
        let a = built(|b| b.with(f, args.clone()))?;
        let n = from_ast(&a);
        o.about(&format!("built: {}", clip(&n.show())));
        if heavy(&n) {
            return Ok(());
        }
        o.tag("built tree");
        n.count(&mut o.heads);
        o.nontrivial = true;
        let got = caught(|| a.forward(&mut Context::default())).map_err(|p| format!("panicked: {}", p))?;
        let got = got.map(|a| from_ast(&a)).map_err(|e| err(&e));
        o.outcome = format!("{:?}", got.as_ref().map(|n| clip(&n.show())));
        eval_verdict(&n, &got, o)?;
        let again = caught(|| a.rewrite().forward(&mut Context::default())).map_err(|p| format!("evaluating the rewritten tree panicked: {}", p))?;
        eval_verdict(&n, &again.map(|a| from_ast(&a)).map_err(|e| err(&e)), o).map_err(|m| format!("after rewriting: {}", m))?;
        // the functions behind it
        let call = |name: &str, f: &dyn Fn(&AST) -> sm_ast::SMResult<AST>, a: &AST| -> V {
            let got = caught(|| f(a)).map_err(|p| format!("internal::{} panicked: {}", name, p))?;
            let n = fun('n', name, vec![from_ast(a)], Pos::None);
            let mut dummy = Obs::default();
            if heavy(&n) {
                return Ok(());
            }
            eval_verdict(&n, &got.map(|a| from_ast(&a)).map_err(|e| err(&e)), &mut dummy).map_err(|m| format!("internal::{}: {}", name, m))
        };
        use sm_ast::internal::*;
        let s = if r.chance(1, 2) { string(r, false) } else { atom(r, &Mix { slots: false, ..ALL }) };
        let s = if let E::Atom(t, _) = s { parse(&t)? } else { unreachable!() };
        call("first", &first, &s)?;
        call("last", &last, &s)?;
        call("length", &length, &s)?;
        if !heavy(&fun('n', "factorial", vec![from_ast(&args[0])], Pos::None)) && f.starts_with('c') {
            call("factorial", &factorial, &args[0])?;
        }
        if !heavy(&fun('n', "fibonacci", vec![from_ast(&args[0])], Pos::None)) {
            call("fibonacci", &fibonacci, &args[0])?;
        }
        return Ok(());
    }
    let e = evaluable(r);
    let st = Style { parens: *r.pick(&[0, 0, 2]), commas: false, wide: false };
    let (toks, want, _) = render(&e, r, st);
    let l = *r.pick(&[Lay::Tight, Lay::Blanks]);
    let (text, _) = lay(&toks, r, l, false);
    o.about(&text);
    if heavy(&want) || unspecified(&want) {
        o.tag("skipped: too heavy or not specified");
        return Ok(());
    }
    want.count(&mut o.heads);
    o.nontrivial = want.size() > 1;
    let mut run = Runner::default();
    let got = caught(|| run.evaluate(&text)).map_err(|p| format!("panicked: {}", p))?;
    let ast = run.last();
    o.outcome = clip(&format!("{:?}", got));
    match (&got, &ast) {
        (Ok(s), Ok(a)) => {
            if *s != a.to_string() {
                return Err(format!("evaluate answers {:?}, the result is {:?}", s, a.to_string()));
            }
        }
        (Err(_), Err(_)) => (),
        _ => return Err(format!("evaluate answers {:?}, last answers {:?}", got.is_ok(), ast.is_ok())),
    }
    eval_verdict(&want, &got.map_err(|e| err(&e)).and_then(|_| ast.map(|a| from_ast(&a)).map_err(|e| err(&e))), o)?;
    // simplifying first must not change the value
    let a = match parse(&text) {
        Ok(a) => a,
        Err(_) => return Ok(()),
    };
    let again = caught(|| a.rewrite().forward(&mut Context::default())).map_err(|p| format!("evaluating the rewritten tree panicked: {}", p))?;
    eval_verdict(&want, &again.map(|a| from_ast(&a)).map_err(|e| err(&e)), &mut Obs::default()).map_err(|m| format!("after rewriting: {}", m))
}

// ------------------------------------------------------------------ C18 Wolfram form

pub fn last_part(s: &str) -> &str {
    s.rsplit("::").next().unwrap()
}
pub fn upper(s: &str) -> String {
    let mut c = s.chars();
    c.next().map_or(String::new(), |f| f.to_uppercase().collect::<String>() + c.as_str())
}
pub fn wl_ref(n: &N) -> String {
    match n {
        N::Empty => "<skip>".into(),
        N::Int(i) => format!("int {}", i),
        N::Dec(s) => format!("dec {}", s),
        N::Bool(b) => format!("sym {}", if *b { "True" } else { "False" }),
        N::Sym(s) => format!("sym {}", last_part(s)),
        N::Str(s) => format!("str {:?}", s),
        N::Prog(v) => format!("sym CompoundExpression[{}]", v.iter().map(wl_ref).collect::<Vec<_>>().join(", ")),
        N::Fun(_, f, gs) => {
            let h = last_part(f);
            let mut o = format!("sym {}", if h == "factor" { "FactorInteger".to_string() } else { upper(h) });
            for g in gs {
                let mut v: Vec<String> = g.args.iter().map(wl_ref).collect();
                v.extend(g.opts.iter().map(|(k, e)| format!("sym Rule[sym {}, {}]", last_part(k), wl_ref(e))));
                o += &format!("[{}]", v.join(", "));
            }
            o
        }
    }
}
pub fn wl_seen(v: &WolframValue) -> String {
    match v {
        WolframValue::Skip => "<skip>".into(),
        WolframValue::Function(h, a) => format!("{}[{}]", wl_seen(h), a.iter().map(wl_seen).collect::<Vec<_>>().join(", ")),
        WolframValue::String(s) => format!("str {:?}", s),
        WolframValue::Symbol(s) => format!("sym {}", s),
        WolframValue::Rule => "sym Rule".into(),
        WolframValue::Integer8(i) => format!("int {}", i),
        WolframValue::Integer16(i) => format!("int {}", i),
        WolframValue::Integer32(i) => format!("int {}", i),
        WolframValue::Integer64(i) => format!("int {}", i),
        WolframValue::BigInteger(i) => format!("int {}", i),
        WolframValue::BigDecimal(s) => format!("dec {}", dec(s)),
        v => format!("unexpected {:?}", v),
    }
}

fn c18(r: &mut Rng, o: &mut Obs) -> V {
    let budget = *r.pick(&[1, 2, 3, 4, 6, 8, 12]);
    let (a, want) = if r.chance(1, 4) {
        o.tag("built tree");
        let a = built(|b| b.tree(r, budget, 0))?;
        let n = from_ast(&a);
        o.about(&format!("built: {}", clip(&n.show())));
        (a, n)
    }
    else {
        o.tag("parsed tree");
        let es = if r.chance(1, 2) { vec![call(r, &ALL, budget, 0)] } else { exprs(r, &ALL, budget) };
        let (toks, n, _) = render_all(&es, r, Style { parens: 1, commas: true, wide: true });
        let (text, _) = lay(&toks, r, Lay::Blanks, false);
        o.about(&text);
        // the tree that was parsed, right or wrong, is what must be translated
        let a = parse(&text)?;
        let seen = from_ast(&a);
        if seen != n {
            o.tag("tree differs from the reference (judged elsewhere)");
        }
        (a, seen)
    };
    want.count(&mut o.heads);
    o.nontrivial = want.size() > 2;
    let v = caught(|| a.to_wolfram()).map_err(|p| format!("panicked: {}", p))?;
    let (x, y) = (wl_ref(&want), wl_seen(&v));
    o.outcome = clip(&v.to_string());
    if x != y {
        let at = x.chars().zip(y.chars()).take_while(|(a, b)| a == b).count();
        let cut = |s: &str| s.chars().skip(at.saturating_sub(40)).take(160).collect::<String>();
        return Err(format!("translated differently: expected ...{}, got ...{}", cut(&x), cut(&y)));
    }
    if a.to_wolfram_string() != v.to_string() {
        return Err(format!("text form {} is not the form of {}", clip(&a.to_wolfram_string()), clip(&v.to_string())));
    }
    if a.to_wolfram_bytes() != v.to_bytes() {
        return Err("the byte form is not the form of the translated value".into());
    }
    Ok(())
}

// ------------------------------------------------------------------ C19 TeX

/// words of a rendering: numbers, names; commands of the renderer itself are dropped
fn words(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let word = |c: char| c.is_alphanumeric() || c == '_' || ('\u{300}'..'\u{370}').contains(&c);
    let mut out = vec![];
    let mut i = 0;
    while i < c.len() {
        if c[i].is_ascii_digit() {
            let mut w = String::new();
            while i < c.len() && (c[i].is_ascii_digit() || (c[i] == '.' && i + 1 < c.len() && c[i + 1].is_ascii_digit() && !w.contains('.'))) {
                w.push(c[i]);
                i += 1;
            }
            out.push(if w.contains('.') { dec(&w) } else { w });
        }
        else if word(c[i]) {
            let cmd = i > 0 && c[i - 1] == '\\';
            let mut w = String::new();
            while i < c.len() && word(c[i]) {
                w.push(c[i]);
                i += 1;
            }
            if !(cmd && ["left", "right", "operatorname", "text", "mathtt"].contains(&w.as_str())) {
                out.push(w);
            }
        }
        else {
            i += 1;
        }
    }
    out
}
struct Shape {
    required: Vec<String>,
    allowed: std::collections::HashSet<String>,
    /// per class of operator characters: needed (positional), possible (with options)
    ops: BTreeMap<&'static str, (usize, usize)>,
}
/// list literals that are shown
fn lists(a: &AST) -> usize {
    match a {
        AST::Program(v) => v.iter().map(lists).sum(),
        AST::Function(s, ps) => {
            let here = s.to_string() == "std::containers::List" && ps.len() == 1 && ps[0].options.is_empty();
            here as usize + ps.iter().map(|p| p.arguments.iter().map(lists).sum::<usize>()).sum::<usize>()
        }
        _ => 0,
    }
}
fn op_class(kind: char, name: &str) -> Option<(&'static str, usize)> {
    Some(match (kind, name) {
        ('i', "add") | ('p', "plus") => ("+", 1),
        ('i', "subtract") | ('p', "minus") => ("-", 1),
        ('i', "divide") => ("/÷", 1),
        ('i', "power") => ("^", 1),
        ('i', "%") => ("%", 1),
        ('i', "⋅") => ("⋅", 1),
        ('i', "⊗") => ("⊗", 1),
        ('i', "⊙") => ("⊙", 1),
        ('i', ">") => (">", 1),
        ('i', "=") => ("=", 1),
        ('p', "not") | ('s', "factorial") => ("!¬", 1),
        ('s', "factorial2") => ("!¬", 2),
        ('i', "times") | ('p', "unpack") => ("*×", 1),
        _ => return None,
    })
}
const CLASSES: [&str; 12] = ["+", "-", "/÷", "^", "%", "⋅", "⊗", "⊙", ">", "=", "!¬", "*×"];

fn shape(n: &N, s: &mut Shape, optional: bool) {
    let put = |s: &mut Shape, w: String| if optional { s.allowed.insert(w); } else { s.required.push(w) };
    match n {
        N::Int(i) => {
            if i.is_negative() {
                let e = s.ops.entry("-").or_default();
                e.0 += !optional as usize;
                e.1 += 1;
            }
            put(s, i.abs().to_string())
        }
        N::Dec(d) => {
            if d.starts_with('-') {
                let e = s.ops.entry("-").or_default();
                e.0 += !optional as usize;
                e.1 += 1;
            }
            let w = d.trim_start_matches('-').to_string();
            put(s, if w.ends_with('.') { dec(&format!("{}0", w)) } else { w })
        }
        N::Bool(b) => put(s, b.to_string()),
        N::Sym(p) => {
            let mut v: Vec<String> = words(&p.replace("::", " "));
            let last = v.pop();
            s.allowed.extend(v);
            s.allowed.extend(["std".to_string(), "constant".to_string(), "core".to_string()]);
            if let Some(w) = last {
                put(s, w)
            }
        }
        N::Str(t) => {
            for w in words(t) {
                put(s, w)
            }
        }
        N::Fun(k, f, gs) => {
            if *k == 'n' {
                let mut v = words(&f.replace("::", " "));
                if last_part(f) != "List" {
                    if let Some(w) = v.pop() {
                        put(s, w)
                    }
                }
                s.allowed.extend(v);
                s.allowed.extend(["std", "containers", "core"].iter().map(|s| s.to_string()));
            }
            for g in gs {
                if let Some((c, m)) = op_class(*k, f) {
                    let times = m * if *k == 'i' { g.args.len().saturating_sub(1) } else { 1 };
                    let e = s.ops.entry(c).or_default();
                    // multiplication may be shown as juxtaposition
                    e.0 += if optional || (*k == 'i' && f == "times") { 0 } else { times };
                    e.1 += times;
                }
                for a in &g.args {
                    shape(a, s, optional)
                }
                for (key, v) in &g.opts {
                    s.allowed.insert(key.clone());
                    shape(v, s, true)
                }
            }
        }
        N::Prog(v) => v.iter().for_each(|a| shape(a, s, optional)),
        _ => (),
    }
}

/// braces and \\left … \\right of a rendering
pub fn balanced(tex: &str) -> V {
    let mut depth = 0i64;
    for c in tex.chars() {
        depth += (c == '{') as i64 - (c == '}') as i64;
        if depth < 0 {
            return Err(format!("unbalanced braces in {}", tex));
        }
    }
    let (l, rt) = (tex.matches("\\left").count(), tex.matches("\\right").count());
    if depth != 0 || l != rt {
        return Err(format!("unbalanced delimiters in {}", tex));
    }
    let mut at = 0i64;
    let mut i = 0;
    while let Some(j) = tex[i..].find('\\') {
        i += j + 1;
        at += tex[i..].starts_with("left") as i64 - tex[i..].starts_with("right") as i64;
        if at < 0 {
            return Err(format!("\\right before its \\left in {}", tex));
        }
    }
    Ok(())
}

fn c19(r: &mut Rng, o: &mut Obs) -> V {
    let budget = *r.pick(&[1, 2, 3, 4, 5, 6, 8, 12]);
    let a = if r.chance(1, 3) {
        o.tag("built tree");
        let mut a = built(|b| b.tree(r, budget, 0))?;
        if r.chance(1, 3) {
            widen(&mut a, r);
        }
        o.about(&format!("built: {}", clip(&from_ast(&a).show())));
        a
    }
    else {
        o.tag("parsed tree");
        let m = Mix { strings: false, slots: false, bytes: true, ..ALL };
        let mut e = expr(r, &m, budget, 0);
        match r.below(6) {
            0 => {
                let f = *r.pick(&["sin", "cos", "tan", "cot", "sec", "csc", "arcsin", "arctan", "arccot", "arcsinh", "arccsch", "log"]);
                e = E::Call(f.into(), vec![vec![Arg::Pos(e)]]);
            }
            1 => e = E::List(vec![e, tex_string(r), atom(r, &m)]),
            2 => e = E::Call("f".into(), vec![vec![Arg::Pos(tex_string(r)), Arg::Pos(e)]]),
            3 => e = E::Bin("+", Box::new(tex_string(r)), Box::new(e)),
            _ => (),
        }
        let mut es = vec![e];
        while r.chance(1, 8) {
            es.push(expr(r, &m, 4, 0));
        }
        let (toks, _, _) = render_all(&es, r, PLAIN);
        let (text, _) = lay(&toks, r, Lay::Blanks, false);
        o.about(&text);
        parse(&text)?
    };
    let n = from_ast(&a);
    n.count(&mut o.heads);
    o.nontrivial = n.size() > 2;
    let tex = caught(|| a.to_tex()).map_err(|p| format!("panicked: {}", p))?;
    o.outcome = tex.clone();
    balanced(&tex)?;
    // operands
    let mut s = Shape { required: vec![], allowed: Default::default(), ops: Default::default() };
    shape(&n, &mut s, false);
    let seen = words(&tex);
    let mut k = 0;
    let mut extra = vec![];
    for w in &seen {
        if k < s.required.len() && *w == s.required[k] {
            k += 1;
        }
        else {
            extra.push(w);
        }
    }
    if k < s.required.len() {
        return Err(format!("operand or function {:?} (number {}) is not shown in its place in {}", s.required[k], k + 1, tex));
    }
    if let Some(w) = extra.iter().find(|w| !s.allowed.contains(**w)) {
        return Err(format!("{:?} is shown but not in the expression (or once too often): {}", w, tex));
    }
    let braces = tex.matches("\\{").count() + tex.matches('[').count();
    if braces < lists(&a) {
        return Err(format!("{} lists, but {} of them in braces or brackets in {}", lists(&a), braces, tex));
    }
    for c in CLASSES {
        let (lo, hi) = s.ops.get(c).copied().unwrap_or_default();
        let got = tex.chars().filter(|x| c.contains(*x)).count();
        if got < lo || got > hi {
            return Err(format!("the expression has {} to {} operators of kind {:?}, {} shown in {}", lo, hi, c, got, tex));
        }
    }
    o.events = seen.len() as u64;
    Ok(())
}
fn tex_string(r: &mut Rng) -> E {
    let n = r.below(4);
    let s = (0..n).map(|_| *r.pick(&["ab", "Zed", "17", "é", "中", "x y", "ok"])).collect::<Vec<_>>().join(" ");
    E::Atom(format!("\"{}\"", s), N::Str(s))
}

// ------------------------------------------------------------------ C20 any text

const SOUP: &[&str] = &[
    "1", "0", "42", "1.5", "0x1F", "0b1_0", "x", "foo", "é", "中", "𝒳", "\"s\"", "\"", "\"\"\"", "\"\"\"a\"\"\"", "(", ")", "[", "]", "{", "}", ",", "，", ";", "；", ";;", ":", "：", "::", "∷", ".", "..", "...", "…", "+", "-", "*", "×", "/", "÷",
    "//", "^", "%", "%%%", "⋅", "⊗", "⊙", "⊕", "=", "==", "===", "=!=", ">", ">=", "<", "<=", ">>", "!", "!!", "!!!", "?", "'", "''", "#", "##", "#1", "##2", "#x", "¶", "¶1", "⁋", "⁋2", "¶¶", "@", "@@", "/@", "|", "||", "∧", "∨", "&&", "¬", "√", "~", "~~", "->", "<<<", "`", "´",
    "null", "true", "false", "if", "then", "else", "otherwise", "for", "in", "return", "break", "pass", "yield", "let", "def", "class", "trait", "extends", "with", "using", "as", "type", "f", "f(", "f(x)", "f(x)(y)", "a::b", "a[1]", "a.b", "a.1", "[1,2]", "{a: 1}", "{}", "x'", "f'(x)", "@f", "@[a]", "@f(x)",
    " ", " ", "  ", "\t", "\n", "\r\n", "\r", "\u{3000}", "\u{0}", "\u{feff}", "\u{200d}", "\u{301}", "\u{202e}", "/// c\n", "//? c", "//! c\n", "//* c\n", "%%% c %%%", "_", "__", "_1", "\\", "\\\"", "$", "&",
    "first(\"\")", "last(\"é\")", "length(1)", "first()", "fibonacci()", "factorial(-3)", "fibonacci(1.5)", "factorial(true)", "0^0", "2^-1", "power(2)", "add()", "1+1", "5!", "007",
];
const UNSUPPORTED: &[&str] = &[
    "{}", "{A: B}", "{1: 2, \"k\": [B], x: A}", "A'", "f'(A)", "x''(A)", "A?", "let x = A", "let x, y", "let (x, y) = A", "let x: A = B", "let x { A }", "def f(x) = A", "def f(x: A = B) { A }", "def f() { A; B }", "class C { x: A }", "class C {}", "trait T { let x = A; def g(y) = B }",
    "extends C with T { def f(x) = A }", "if A then { B }", "if (A) { B, A }", "if A then { B } else { A } otherwise { B }", "for x in A { B }", "return A", "break", "pass;", "using a.b.c", "using a::*", "using .a as b", "using \"u\" as b", "using a.{b, c as d}", "@f A", "@f(A) B", "@[A] let x = B",
    "A >= B", "A == B", "A // B", "A.(B)", "A.-x", "A.[B]", "A.\"s\"", "A.1.5", "A.0x1", "A.#", "A.true", "A @ B", "A -> B", "A; B", "A\nB", "f\"A\"", "r\"\"\"A\"\"\"", "A[]", "A()", "A[::]", "A[:::]", "A[B:]", "A[,]", "f(,)", "f(A,,B)", "[,]", "[A,,B]", "(A", "A)", "[A", "f(A", "\"A", "\"\"\"A", "%%% A", "# #", "##0", "¶0", "⁋⁋⁋", "A ## B", "f(k: A, k: B)", "f(1: A)", "f(a.b: A)",
    "2(A)", "(A)(B)", "(A) B", "A (B) C", "- A", "A !", "A\n[B]", "f\n(A)", "¬ A", "--A", "A!!!!", "A''!", "0A", "00", "1__0", "0x", "0b2", "1.", ".5", "1.2.3", "1e5", "null A", "true(A)", "null.x", "true!", "\"s\"!", "[A]!", "[A].x", "-[A]", "#!", "¶1!", "*A", "+A",
];

pub fn random_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(6) {
            0 => r.below(0x80) as u32,
            1 => r.below(0x3000) as u32,
            2 => 0x1F300 + r.below(0x300) as u32,
            3 => 0x2000 + r.below(0x300) as u32,
            4 => r.below(0x110000) as u32,
            _ => 0x20 + r.below(0x5f) as u32,
        };
        if let Some(c) = char::from_u32(c) {
            return c;
        }
    }
}

/// a token, or a fragment named in the source
fn soup(r: &mut Rng) -> String {
    if r.chance(1, 12) {
        if let Some(f) = known_fragment(r) {
            return f;
        }
        return known_name(r);
    }
    r.pick(SOUP).to_string()
}
/// a long flat piece of text, of about a length at which buffers and limits end
fn long_piece(r: &mut Rng) -> String {
    let n = *r.pick(&[60usize, 80, 120, 128, 200, 256, 500, 512, 1000, 1024, 2000, 2048, 4000, 4096]);
    let n = size(r, n, 6000) + r.below(4);
    let n = huge(r, 16).unwrap_or(n);
    let letters: &[char] = *r.pick(&[&['a'][..], &['é'], &['中'], &['𝒳'], &['a', 'é', '中', '𝒳'], &['x', '中']]);
    let fill = |r: &mut Rng, n: usize| (0..n / 2 + 1).map(|_| *r.pick(letters)).collect::<String>();
    match r.below(8) {
        0 | 1 => fill(r, n),
        2 | 3 => format!("\"{}\"", fill(r, n)),
        4 => format!("%%%{}%%%", fill(r, n)),
        5 => r.pick(&[" ", "\n", "\r\n"]).repeat(n),
        6 => format!("/// {}\n", fill(r, n)),
        _ => (0..n.min(240) / 2).map(|_| format!("{},", r.pick(letters))).collect(),
    }
}

/// any text, bounded in nesting depth and in the size of numbers where a calculation may follow
pub fn any_text(r: &mut Rng, o: &mut Obs) -> String {
    let m = ALL;
    let plain = |r: &mut Rng| {
        let b = r.range(1, 5);
        let e = expr(r, &m, b, 2);
        let (toks, _, _) = render(&e, r, PLAIN);
        let l = *r.pick(&[Lay::Tight, Lay::Blanks, Lay::Wild]);
        lay(&toks, r, l, true).0
    };
    let mut s = match r.below(10) {
        0 | 1 => {
            o.tag("unsupported or odd construct");
            let mut t = r.pick(UNSUPPORTED).to_string();
            if r.chance(1, 3) {
                t = t.replace('A', r.clone().pick(UNSUPPORTED));
            }
            for k in ["A", "B", "C"] {
                let e = plain(r);
                t = t.replace(k, &e);
            }
            if r.chance(1, 4) { format!("f({}, {})", t, plain(r)) } else { t }
        }
        2 => {
            o.tag("random characters");
            let n = r.range(0, 30);
            (0..n).map(|_| random_char(r)).collect()
        }
        3 | 4 => {
            o.tag("token soup");
            let n = r.range(1, 12);
            (0..n).map(|_| soup(r)).collect::<Vec<_>>().join(if r.chance(1, 2) { "" } else { " " })
        }
        5 | 6 => {
            o.tag("well-formed");
            if r.chance(1, 3) {
                let e = evaluable(r);
                let (toks, _, _) = render(&e, r, PLAIN);
                lay(&toks, r, Lay::Blanks, true).0
            }
            else {
                plain(r)
            }
        }
        7 => {
            o.tag("several statements");
            let k = r.range(2, 4);
            (0..k).map(|_| if r.chance(1, 3) { r.pick(UNSUPPORTED).replace(['A', 'B', 'C'], "x") } else { plain(r) }).collect::<Vec<_>>().join(r.clone().pick(&[";", "\n", " ; ", ";;", " "]))
        }
        _ => {
            o.tag("mutated");
            let mut c: Vec<char> = plain(r).chars().collect();
            for _ in 0..r.range(1, 4) {
                let at = r.below(c.len() + 1);
                match r.below(5) {
                    0 if at < c.len() => {
                        c.remove(at);
                    }
                    1 => {
                        let w: Vec<char> = soup(r).chars().collect();
                        for (k, x) in w.into_iter().enumerate() {
                            c.insert(at + k, x);
                        }
                    }
                    2 => c.insert(at, random_char(r)),
                    3 if c.len() > 2 => {
                        let b = r.below(c.len());
                        let (x, y) = (at.min(b), at.max(b));
                        let cut: Vec<char> = c[x..y].to_vec();
                        if r.chance(1, 2) {
                            c.drain(x..y);
                        }
                        else {
                            for (k, z) in cut.into_iter().enumerate() {
                                c.insert(y + k, z);
                            }
                        }
                    }
                    _ => {
                        if at < c.len() {
                            c[at] = random_char(r)
                        }
                    }
                }
            }
            c.into_iter().collect()
        }
    };
    if r.chance(1, 20) {
        s = format!("{}{}", s, soup(r));
    }
    if r.chance(1, 24) {
        o.tag("stretched");
        let l = long_piece(r);
        let at = r.below(s.chars().count() + 1);
        s = match r.below(4) {
            0 => format!("{}{}", l, s),
            1 => format!("{}{}", s, l),
            2 => format!("{}{}{}", l, s, long_piece(r)),
            _ => s.chars().take(at).chain(l.chars()).chain(s.chars().skip(at)).collect(),
        };
    }
    tame(&s)
}

/// keep brackets and numbers within what the property covers ("moderate nesting") and what can be computed
pub fn tame(s: &str) -> String {
    let mut open = 0;
    let mut out = String::new();
    let mut run = String::new();
    let calc = s.contains(['^', '!', '!']) || ["factorial", "fibonacci", "power"].iter().any(|w| s.contains(w));
    let flush = |run: &mut String, out: &mut String| {
        // between 4 and 19 digits: neither small nor beyond the machine word
        if calc && run.len() > 4 && run.len() < 24 {
            run.truncate(4);
        }
        out.push_str(run);
        run.clear();
    };
    for c in s.chars() {
        if c.is_ascii_hexdigit() || "xXoO_".contains(c) {
            run.push(c);
            continue;
        }
        flush(&mut run, &mut out);
        if "([{".contains(c) {
            open += 1;
            if open > 60 {
                continue;
            }
        }
        out.push(c);
    }
    flush(&mut run, &mut out);
    out
}

fn c20(r: &mut Rng, o: &mut Obs) -> V {
    // a short history on one session and on the playground: a failed call must not spoil the next one
    let mut run = Runner::default();
    let k = r.range(1, 3);
    let mut all = vec![];
    for _ in 0..k {
        let s = any_text(r, o);
        all.push(s.clone());
        o.about(&s);
        let t = |what: &str, p: String| format!("{} panicked on {:?}: {}", what, s, p);
        match caught(|| settings().parse(&s)) {
            Err(p) => return Err(t("parse", p)),
            Ok(Ok(a)) => {
                o.tag("accepted");
                let n = from_ast(&a);
                n.count(&mut o.heads);
                caught(|| a.to_string()).map_err(|p| t("printing the tree", p))?;
                caught(|| a.to_tex()).map_err(|p| t("rendering the tree", p))?;
                caught(|| a.to_wolfram_bytes().len() + a.to_wolfram_string().len()).map_err(|p| t("translating the tree", p))?;
                if heavy(&n) {
                    o.tag("not evaluated: too heavy");
                    continue;
                }
            }
            Ok(Err(e)) => {
                o.tag(match e {
                    SMError::ParseError(_) => "rejected by the grammar",
                    _ => "rejected as unsupported",
                });
            }
        }
        let v = caught(|| run.evaluate(&s)).map_err(|p| t("evaluate", p))?;
        o.tag(if v.is_ok() { "evaluated" } else { "evaluation error" });
        caught(|| run.last().map(|a| (a.to_string(), a.to_tex()))).map_err(|p| t("last", p)).map(|_| ())?;
        if cfg!(not(miri)) {
            caught(|| sm_playground::result(&s)).map_err(|p| t("playground result", p))?;
            caught(sm_playground::result_tex).map_err(|p| t("playground result_tex", p))?;
        }
        o.events += 1;
        o.outcome = clip(&format!("{:?}", v));
    }
    // later calls still work
    let v = caught(|| run.evaluate("1+1")).map_err(|p| format!("after {:?}: evaluate panicked: {}", all, p))?;
    if v.as_ref().map(|s| s.as_str()).ok() != Some("2") {
        return Err(format!("after {:?} the session answers {:?} to 1+1", all, v));
    }
    if cfg!(not(miri)) {
        let v = caught(|| sm_playground::result("1+1")).map_err(|p| format!("after {:?}: playground panicked: {}", all, p))?;
        if v != "2" {
            return Err(format!("after {:?} the playground answers {:?} to 1+1", all, v));
        }
    }
    o.nontrivial = o.input.chars().count() > 1;
    Ok(())
}

// ------------------------------------------------------------------ C22 files

fn snapshot(dir: &std::path::Path) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for e in std::fs::read_dir(dir).unwrap() {
        let e = e.unwrap();
        let p = e.path();
        let meta = std::fs::symlink_metadata(&p).unwrap();
        let v = if meta.is_dir() {
            format!("directory with {} entries", std::fs::read_dir(&p).unwrap().count())
        }
        else if meta.file_type().is_symlink() {
            format!("link to {:?}", std::fs::read_link(&p).unwrap())
        }
        else {
            let b = std::fs::read(&p).unwrap();
            let h = b.iter().fold(0xcbf2_9ce4_8422_2325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100_0000_01b3));
            format!("file of {} bytes {:?} ({:016x})", b.len(), &b[..b.len().min(2000)], h)
        };
        m.insert(e.file_name().to_string_lossy().to_string(), v);
    }
    m
}

fn c22(r: &mut Rng, i: u64, o: &mut Obs) -> V {
    let root = std::env::var("LANG_SCRATCH").expect("LANG_SCRATCH");
    let dir = std::path::PathBuf::from(root).join(format!("case {} é", i));
    std::fs::create_dir_all(&dir).unwrap();
    let v = c22_in(r, &dir, o);
    let _ = std::fs::remove_dir_all(&dir);
    v
}
fn c22_in(r: &mut Rng, dir: &std::path::Path, o: &mut Obs) -> V {
    use std::fs;
    let src = dir.join("source é.sm");
    let file = r.pick(&["anonymous", "other.sm"]).to_string();
    let st = ParserSettings { file, refine: true };
    // the source
    let mut text: Option<String> = None;
    let kind = r.below(14);
    let what = match kind {
        0..=5 => {
            let b = *r.pick(&[1, 3, 6, 10, 16]);
            let es = exprs(r, &ALL, b);
            let (toks, _, _) = render_all(&es, r, Style { parens: 1, commas: true, wide: true });
            text = Some(lay(&toks, r, Lay::Wild, true).0);
            if let Some(n) = huge(r, 40) {
                let air = r.pick(&[" ", "\n", "/// é\n", "%%% 中 %%%\n"]);
                text = text.map(|t| format!("{}\n{}", air.repeat(n * r.range(1, 4) / air.len()), t));
            }
            "expression"
        }
        6 => {
            let n = *r.pick(&[0usize, 1, 100, 3000]);
            text = Some(format!("[{}]", (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(",\n ")));
            "long list"
        }
        7 => {
            text = Some(r.pick(&["", " \n", "/// only a comment\n", ";", "%%% c %%%\n"]).to_string());
            "nothing to translate"
        }
        8 | 9 => {
            let mut d = Obs::default();
            text = Some(any_text(r, &mut d));
            "any text"
        }
        10 => {
            let mut b = b"f(1, ".to_vec();
            b.extend(r.pick(&[&[0xffu8][..], &[0xc3], &[0xed, 0xa0, 0x80], &[0xc0, 0x80], &[0xf5, 0x80, 0x80, 0x80]]).iter());
            b.extend(b")");
            fs::write(&src, b).unwrap();
            "not UTF-8"
        }
        11 => "missing",
        12 => {
            fs::create_dir(&src).unwrap();
            "a directory"
        }
        _ => {
            text = Some(r.pick(&["1 +", "f(", "\"open", "[1, 2", "let x = 1", "{a: 1}", "x'", "a.(b)", "1 2)"]).to_string());
            "does not parse"
        }
    };
    if let Some(t) = &text {
        fs::write(&src, t).unwrap();
    }
    // the destination
    let mut dst = dir.join("out.wxf");
    let dk = r.below(13);
    let mut openable = true;
    let mut sink = false;
    let dwhat = match dk {
        0..=2 => "fresh",
        3 => {
            let n = if r.chance(1, 6) { *r.pick(&[70_000usize, 140_000, 300_000, 1_100_000, 4_500_000]) } else { r.range(1, 20000) };
            fs::write(&dst, vec![b'z'; n]).unwrap();
            "existing, other contents"
        }
        4 => {
            fs::write(&dst, b"").unwrap();
            "existing, empty"
        }
        12 => {
            // as long as what is to be written, and almost the same; written before or after the source
            let bytes = text.as_ref().and_then(|t| caught(|| st.parse(t).map(|a| a.to_wolfram_bytes()).ok()).ok().flatten()).unwrap_or_else(|| b"12345".to_vec());
            let mut old = bytes.clone();
            old.resize(old.len().max(1), 0);
            match r.below(3) {
                0 => old.fill(b'z'),
                1 => {
                    let k = r.below(old.len());
                    old[k] ^= 1;
                }
                _ => {
                    let k = old.len() - 1;
                    old[k] ^= 4;
                }
            }
            fs::write(&dst, old).unwrap();
            let f = fs::File::options().write(true).open(&dst).unwrap();
            let now = std::time::SystemTime::now();
            let hour = Duration::from_secs(3600);
            f.set_modified(*r.pick(&[now - hour, now, now + hour])).unwrap();
            "existing, other contents of the same length"
        }
        5 => {
            fs::create_dir(&dst).unwrap();
            openable = false;
            "a directory"
        }
        6 => {
            dst = dir.join("missing").join("out.wxf");
            openable = false;
            "in a missing directory"
        }
        7 if text.is_some() => {
            dst = src.clone();
            "the source itself"
        }
        8 => {
            let n = if r.chance(1, 8) { r.range(1, 1_200_000) } else { r.range(1, 300) };
            fs::write(dir.join("target"), vec![b'y'; n]).unwrap();
            std::os::unix::fs::symlink(dir.join("target"), &dst).unwrap();
            "a link to a file"
        }
        9 => {
            std::os::unix::fs::symlink("/dev/full", &dst).unwrap();
            sink = true;
            "a full device"
        }
        10 => {
            dst = dir.join("n".repeat(300));
            openable = false;
            "a name that is too long"
        }
        _ => {
            dst = dir.join("sub");
            fs::create_dir(&dst).unwrap();
            fs::write(dst.join("a"), b"1").unwrap();
            dst = dst.join("a").join("b");
            openable = false;
            "below a file"
        }
    };
    o.about(&format!("source: {} {:?}; destination: {}", what, text.as_ref().map(|t| t.chars().take(300).collect::<String>()), dwhat));
    o.tag(format!("source {}", what));
    o.tag(format!("destination {}", dwhat));
    o.nontrivial = true;
    let before = snapshot(dir);
    let want = match &text {
        None => Err("the source cannot be read".to_string()),
        Some(t) => match caught(|| st.parse(t)) {
            Ok(Ok(a)) => Ok(a.to_wolfram_bytes()),
            Ok(Err(e)) => Err(err(&e)),
            Err(p) => return Err(format!("panicked: {}", p)),
        },
    };
    let got = caught(|| st.parse_file(&src.to_string_lossy(), &dst.to_string_lossy())).map_err(|p| format!("parse_file panicked: {}", p))?;
    let after = snapshot(dir);
    o.outcome = format!("{:?}", got).chars().take(200).collect();
    match (&want, openable) {
        (Ok(bytes), true) if !sink => {
            if let Err(e) = &got {
                return Err(format!("must succeed, but: {}", err(e)));
            }
            o.tag("translated");
            if fs::read(&dst).unwrap_or_default() != *bytes {
                return Err("the destination does not hold the byte form of the parsed text".into());
            }
            // nothing else changed
            let real = fs::canonicalize(&dst).unwrap();
            let name = real.file_name().unwrap().to_string_lossy().to_string();
            let (mut b, mut a) = (before, after);
            b.remove(&name);
            a.remove(&name);
            if a != b {
                return Err(format!("other files changed: before {:?}, after {:?}", b, a));
            }
        }
        _ => {
            if got.is_ok() {
                return Err(format!("must fail ({}), but reports success", want.err().unwrap_or("the destination cannot be opened or written".into())));
            }
            o.tag("refused");
            if before != after {
                return Err(format!("failed, but files changed: before {:?}, after {:?}", before, after).chars().take(600).collect());
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C23 positions

pub fn offset(lines: &[usize], total: usize, p: (usize, usize)) -> Option<usize> {
    // 1-based line and column, in characters
    if p.0 == 0 || p.1 == 0 || p.0 > lines.len() {
        return None;
    }
    let x = lines[p.0 - 1] + p.1 - 1;
    let end = if p.0 < lines.len() { lines[p.0] } else { total + 1 };
    if x < end { Some(x) } else { None }
}

struct Span<'a> {
    at: &'a [(usize, usize)],
    exprs: &'a [(usize, usize)],
    lines: Vec<usize>,
    text: Vec<char>,
    file: &'a str,
    n: u64,
}
impl Span<'_> {
    fn toks(&self, p: &Pos) -> Option<(usize, usize)> {
        match p {
            Pos::Toks(a, b) => Some((*a, *b)),
            Pos::Expr(e) => Some(self.exprs[*e]),
            _ => None,
        }
    }
    fn walk(&mut self, want: &N, got: &N, outer: Option<((usize, usize), (usize, usize))>) -> V {
        if let (N::Prog(v), N::Prog(w)) = (want, got) {
            for (x, y) in v.iter().zip(w) {
                self.walk(x, y, None)?;
            }
        }
        if let (N::Fun(_, f, gs), N::Fun(_, _, hs)) = (want, got) {
            for (g, h) in gs.iter().zip(hs) {
                let mut here = None;
                if let (Some((a, b)), Pos::Seen(file, s, e)) = (self.toks(&g.pos), &h.pos) {
                    self.n += 1;
                    if file != self.file {
                        return Err(format!("file {:?} recorded for {}, settings say {:?}", file, f, self.file));
                    }
                    let (ws, we) = (self.at[a].0, self.at[b].1);
                    let next = self.at.get(b + 1).map_or(self.text.len(), |t| t.0);
                    let show = |x: usize, y: usize| self.text[x.min(self.text.len())..y.min(self.text.len())].iter().collect::<String>();
                    let gone = || format!("{} is at {:?} in the text, but {:?} to {:?} is recorded", f, show(ws, we), s, e);
                    let (x, y) = match (offset(&self.lines, self.text.len(), *s), offset(&self.lines, self.text.len(), *e)) {
                        (Some(x), Some(y)) => (x, y),
                        _ => return Err(format!("{}: not a place in the text", gone())),
                    };
                    // trailing layout before the next token may be included
                    if x != ws || y < we || y > next {
                        return Err(format!("{}: that is {:?}", gone(), show(x, y)));
                    }
                    if let Some(((oa, ob), (ox, oy))) = outer {
                        if oa <= a && b <= ob && (x < ox || y > oy) {
                            return Err(format!("{}: outside its enclosing construct", gone()));
                        }
                    }
                    here = Some(((a, b), (x, y)));
                }
                for (w, k) in g.args.iter().zip(&h.args) {
                    self.walk(w, k, here)?;
                }
                for (w, k) in g.opts.iter().zip(&h.opts) {
                    self.walk(&w.1, &k.1, here)?;
                }
            }
        }
        Ok(())
    }
}

fn c23(r: &mut Rng, o: &mut Obs) -> V {
    let b = *r.pick(&[2, 3, 4, 6, 8, 12]);
    let es = exprs(r, &ALL, b);
    let st = Style { parens: *r.pick(&[0, 1, 2]), commas: true, wide: true };
    let (toks, want, exprs) = render_all(&es, r, st);
    let l = *r.pick(&[Lay::Tight, Lay::Blanks, Lay::Air, Lay::Wild, Lay::Wild]);
    let (mut text, mut at) = lay(&toks, r, l, false);
    if r.chance(1, 200) {
        // far down or far to the right, around the ends of small integers
        let n = *r.pick(&[120, 128, 250, 256, 512, 1000, 1024, 4096, 32768, 65536, 65536, 70_000]) + r.below(8);
        let gaps: Vec<usize> = (1..at.len()).filter(|k| at[*k - 1].1 < at[*k].0).collect();
        let (from, unit) = if gaps.is_empty() || r.chance(1, 2) { (0, *r.pick(&["\n", " ", "%%%\n%%%", " \n", "中文 %%%"])) } else { (*r.pick(&gaps), " ") };
        let fill = match unit {
            "中文 %%%" => format!("%%%{}%%%", "中".repeat(n)),
            u => u.repeat(n / u.len() + 1),
        };
        let place = if from == 0 { 0 } else { at[from - 1].1 };
        let byte = text.char_indices().nth(place).map_or(text.len(), |c| c.0);
        text.insert_str(byte, &fill);
        let len = fill.chars().count();
        for x in at.iter_mut().skip(from) {
            *x = (x.0 + len, x.1 + len);
        }
        o.tag("far away");
    }
    let file = if r.chance(1, 50) { "long/".repeat(r.range(1, 400)) + "é" } else { r.pick(more::NAMES).to_string() };
    o.about(&text);
    let st = ParserSettings { file: file.clone(), refine: r.chance(1, 2) };
    let a = match caught(|| st.parse(&text)) {
        Ok(Ok(a)) => a,
        Ok(Err(e)) => return Err(format!("rejected: {}", err(&e))),
        Err(p) => return Err(format!("panicked: {}", p)),
    };
    let got = from_ast(&a);
    if got != want {
        o.tag("tree differs from the reference (judged elsewhere)");
        return Ok(());
    }
    want.count(&mut o.heads);
    let chars: Vec<char> = text.chars().collect();
    let mut lines = vec![0];
    for (i, c) in chars.iter().enumerate() {
        if *c == '\n' {
            lines.push(i + 1);
        }
    }
    o.tag(if lines.len() > 1 { "several lines" } else { "one line" });
    let mut s = Span { at: &at, exprs: &exprs, lines, text: chars, file: &file, n: 0 };
    s.walk(&want, &got, None)?;
    o.nontrivial = s.n > 1;
    o.events = s.n;
    o.outcome = format!("{} recorded positions delimit their constructs", s.n);
    Ok(())
}

// ------------------------------------------------------------------ recorded findings

/// prints "<signature>\t<witness and what happens>" for every recorded finding of the property that is still there
pub fn known(prop: &str) -> i32 {
    let _ = prop;
    0
}
