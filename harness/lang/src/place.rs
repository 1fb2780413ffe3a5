//! C32-C34: options and their order, expressions and their surroundings, comparison of trees.
use crate::gen::*;
use crate::more::Wild;
use crate::props::*;
use crate::rng::Rng;
use crate::tree::*;
use crate::{caught, Obs};
use sm_ast::{Context, ToTex, ToWolfram, AST};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

type V = Result<(), String>;

/// the tree without the places it was written at
fn placeless(a: &AST) -> AST {
    match a {
        AST::Program(v) => AST::Program(v.iter().map(placeless).collect()),
        AST::Function(s, ps) => AST::Function(
            s.clone(),
            ps.iter()
                .map(|p| {
                    let mut q = p.clone();
                    q.position = Default::default();
                    q.arguments = p.arguments.iter().map(placeless).collect();
                    q.options = p.options.iter().map(|(k, v)| (placeless(k), placeless(v))).collect();
                    q
                })
                .collect(),
        ),
        a => a.clone(),
    }
}

// ------------------------------------------------------------------ C32 options

const KEYS: &[&str] = &["k", "k", "n", "x", "a", "b", "Method", "method", "k1", "k_", "é", "add", "f", "true_", "All", "Null1", "sin"];

/// gives the calls more options, some of them twice
fn dress(e: &mut E, r: &mut Rng, depth: usize) {
    match e {
        E::Atom(..) => (),
        E::Pre(_, x) | E::Suf(_, x) | E::Paren(x) => dress(x, r, depth),
        E::Bin(_, x, y) | E::Member(x, y) => {
            dress(x, r, depth);
            dress(y, r, depth)
        }
        E::Juxt(v) | E::List(v) => v.iter_mut().for_each(|x| dress(x, r, depth)),
        E::Index(x, ix) => {
            dress(x, r, depth);
            for i in ix {
                match i {
                    Ix::One(x) => dress(x, r, depth),
                    Ix::Span(a, b, c) => [a.as_mut(), b.as_mut(), c.as_mut().and_then(|c| c.as_mut())].into_iter().flatten().for_each(|x| dress(x, r, depth)),
                }
            }
        }
        E::Call(_, gs) => {
            for g in gs {
                let pool: Vec<String> = (0..r.range(1, 6)).map(|_| if r.chance(3, 4) { r.pick(KEYS).to_string() } else { name(r, &ALL) }).collect();
                let more = *r.pick(&[0usize, 1, 2, 2, 3, 5]);
                let more = size(r, more, 60);
                for _ in 0..more {
                    let b = r.range(1, 3);
                    let at = r.below(g.len() + 1);
                    let k = r.pick(&pool).clone();
                    g.insert(at, Arg::Kw(k, expr(r, &ALL, b, 7)));
                }
                for a in g {
                    match a {
                        Arg::Pos(x) | Arg::Kw(_, x) => dress(x, r, depth + 1),
                    }
                }
            }
        }
    }
}

/// the same calls with their options moved; overwritten ones may go
fn shuffle(e: &E, r: &mut Rng, moved: &mut u64) -> E {
    let b = |x: &E, r: &mut Rng, m: &mut u64| Box::new(shuffle(x, r, m));
    match e {
        E::Atom(..) => e.clone(),
        E::Pre(o, x) => E::Pre(o, b(x, r, moved)),
        E::Suf(o, x) => E::Suf(o, b(x, r, moved)),
        E::Paren(x) => E::Paren(b(x, r, moved)),
        E::Bin(o, x, y) => E::Bin(o, b(x, r, moved), b(y, r, moved)),
        E::Member(x, y) => E::Member(b(x, r, moved), b(y, r, moved)),
        E::Juxt(v) => E::Juxt(v.iter().map(|x| shuffle(x, r, moved)).collect()),
        E::List(v) => E::List(v.iter().map(|x| shuffle(x, r, moved)).collect()),
        E::Index(x, ix) => {
            let x = b(x, r, moved);
            E::Index(
                x,
                ix.iter()
                    .map(|i| match i {
                        Ix::One(x) => Ix::One(shuffle(x, r, moved)),
                        Ix::Span(a, b, c) => {
                            let mut f = |x: &Option<E>| x.as_ref().map(|x| shuffle(x, r, moved));
                            let (a, b) = (f(a), f(b));
                            let c = c.as_ref().map(f);
                            Ix::Span(a, b, c)
                        }
                    })
                    .collect(),
            )
        }
        E::Call(f, gs) => E::Call(
            f.clone(),
            gs.iter()
                .map(|g| {
                    let drop = r.chance(1, 2);
                    let keep: Vec<&Arg> = g
                        .iter()
                        .enumerate()
                        .filter(|(i, a)| match a {
                            Arg::Kw(k, _) => !(drop && g[i + 1..].iter().any(|b| matches!(b, Arg::Kw(l, _) if l == k))),
                            _ => true,
                        })
                        .map(|x| x.1)
                        .collect();
                    *moved += (keep.len() < g.len()) as u64;
                    // one queue for the positional arguments and one for each key: any merge of the queues will do
                    let mut queues: BTreeMap<Option<&str>, Vec<&Arg>> = BTreeMap::new();
                    for a in keep.iter().rev() {
                        let k = match a {
                            Arg::Pos(_) => None,
                            Arg::Kw(k, _) => Some(k.as_str()),
                        };
                        queues.entry(k).or_default().push(a);
                    }
                    let mut qs: Vec<Vec<&Arg>> = queues.into_values().collect();
                    let front = r.below(3);
                    let mut out = vec![];
                    while !qs.is_empty() {
                        // all options in front, all behind, or anywhere
                        let is_pos = |q: &Vec<&Arg>| matches!(q[0], Arg::Pos(_));
                        let c: Vec<usize> = (0..qs.len()).filter(|i| front == 0 || is_pos(&qs[*i]) == (front == 1)).collect();
                        let i = if c.is_empty() { r.below(qs.len()) } else { *r.pick(&c) };
                        out.push(qs[i].pop().unwrap());
                        if qs[i].is_empty() {
                            qs.remove(i);
                        }
                    }
                    *moved += (0..out.len().min(keep.len())).any(|i| !std::ptr::eq(out[i], keep[i])) as u64;
                    out.into_iter()
                        .map(|a| match a {
                            Arg::Pos(x) => Arg::Pos(shuffle(x, r, moved)),
                            Arg::Kw(k, x) => Arg::Kw(k.clone(), shuffle(x, r, moved)),
                        })
                        .collect()
                })
                .collect(),
        ),
    }
}

/// everything a user sees of a tree
fn shown(a: &AST) -> Result<(String, String, String, Vec<u8>), String> {
    caught(|| (a.to_string(), a.to_tex(), a.to_wolfram_string(), a.to_wolfram_bytes())).map_err(|p| format!("panicked: {}", p))
}
fn worth(a: &AST) -> Result<Option<Result<AST, ()>>, String> {
    if heavier(&from_ast(a), 20_000, 500) {
        return Ok(None);
    }
    let g = caught(|| a.forward(&mut Context::default())).map_err(|p| format!("evaluating panicked: {}", p))?;
    Ok(Some(g.map(|a| placeless(&a)).map_err(|_| ())))
}

pub fn c32(r: &mut Rng, o: &mut Obs) -> V {
    let m = Mix { curried: true, ..ALL };
    let budget = *r.pick(&[1, 2, 4, 6, 10]);
    let mut e = match r.below(6) {
        // member calls take the object as first argument
        0 => {
            let l = expr(r, &m, 2, 5);
            let l = E::Paren(Box::new(l));
            E::Member(Box::new(l), Box::new(call(r, &m, budget, 1)))
        }
        // functions the evaluator knows
        1 => {
            let f = known_name(r);
            match call(r, &m, budget, 1) {
                E::Call(_, gs) => E::Call(f, gs),
                e => e,
            }
        }
        2 => {
            let op = *r.pick(&["+", "*", "^", "-"]);
            E::Bin(op, Box::new(call(r, &m, budget, 1)), Box::new(expr(r, &m, budget, 1)))
        }
        _ => call(r, &m, budget, 0),
    };
    dress(&mut e, r, 0);
    let st = Style { parens: 0, commas: true, wide: true };
    let l = *r.pick(&[Lay::Tight, Lay::Blanks, Lay::Wild]);
    let (toks, want, _) = render(&e, r, st.clone());
    let (text, _) = lay(&toks, r, l, false);
    o.about(&text);
    let a = parse(&text)?;
    let p = placeless(&a);
    want.count(&mut o.heads);
    // every key once, in the order of the names, with the value written last
    let got = from_ast(&a);
    if let Some(d) = want.diff(&got) {
        return Err(format!("not the options that were written: {}", d));
    }
    let mut count = 0u64;
    options(&a, &mut count)?;
    let s = shown(&p)?;
    let w = worth(&p)?;
    let mut moved = 0;
    for _ in 0..3 {
        let f = shuffle(&e, r, &mut moved);
        let (toks, _, _) = render(&f, r, st.clone());
        let (other, _) = lay(&toks, r, l, false);
        let b = parse(&other).map_err(|m| format!("written as {:?}, it is {}", other, m))?;
        let q = placeless(&b);
        if p != q {
            let d = from_ast(&p).diff(&from_ast(&q)).unwrap_or_else(|| format!("{:?} and {:?}", p, q));
            return Err(format!("{:?} gives another tree: {}", other, clip(&d)));
        }
        if s != shown(&q)? {
            return Err(format!("{:?} is printed, rendered or translated in another way", other));
        }
        if w != worth(&q)? {
            return Err(format!("{:?} evaluates in another way", other));
        }
        o.events += 1;
    }
    o.tag(match count {
        0 => "no options",
        1 => "one option",
        2..=5 => "a few options",
        _ => "many options",
    });
    if moved > 0 {
        o.tag("written in another order");
    }
    o.nontrivial = count > 0 && moved > 0;
    o.outcome = format!("{} options, {} groups rewritten, one tree", count, moved);
    Ok(())
}

/// options are found under the symbols that name them
fn options(a: &AST, count: &mut u64) -> V {
    if let AST::Program(v) = a {
        return v.iter().try_for_each(|a| options(a, count));
    }
    if let AST::Function(_, ps) = a {
        for p in ps {
            for x in &p.arguments {
                options(x, count)?;
            }
            for (k, v) in &p.options {
                *count += 1;
                if let AST::Symbol(s) = k {
                    if s.name_space.is_empty() && p.options.get(&AST::symbol(&s.name)) != Some(v) {
                        return Err(format!("the option {} is not found under its name", s.name));
                    }
                }
                options(v, count)?;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C33 surroundings

/// an expression around `n` holes
fn around(r: &mut Rng, holes: &[E]) -> E {
    let small = |r: &mut Rng| { let b = r.range(1, 3); expr(r, &ALL, b, 7) };
    if holes.len() > 1 && r.chance(1, 2) {
        let k = r.range(1, holes.len() - 1);
        let (x, y) = holes.split_at(k);
        return match r.below(3) {
            0 => E::List(vec![around(r, x), small(r), around(r, y)]),
            1 => E::Bin("+", Box::new(E::Paren(Box::new(around(r, x)))), Box::new(E::Paren(Box::new(around(r, y))))),
            _ => E::Call("f".into(), vec![vec![Arg::Pos(around(r, x)), Arg::Kw("k".into(), around(r, y))]]),
        };
    }
    match r.below(9) {
        0 | 1 => {
            let mut v: Vec<Arg> = holes.iter().enumerate().map(|(i, h)| if r.chance(1, 3) { Arg::Kw(format!("k{}", i), h.clone()) } else { Arg::Pos(h.clone()) }).collect();
            for _ in 0..r.below(3) {
                let at = r.below(v.len() + 1);
                v.insert(at, Arg::Pos(small(r)));
            }
            let mut gs = vec![v];
            if r.chance(1, 4) {
                gs.insert(r.below(2), vec![Arg::Pos(small(r))]);
            }
            let f = if r.chance(1, 4) { known_name(r) } else { r.pick(&["f", "g", "a::b"]).to_string() };
            let c = E::Call(f, gs);
            if r.chance(1, 4) { E::Member(Box::new(E::Paren(Box::new(small(r)))), Box::new(c)) } else { c }
        }
        2 | 3 => {
            let mut v = holes.to_vec();
            for _ in 0..r.below(3) {
                let at = r.below(v.len() + 1);
                v.insert(at, small(r));
            }
            E::List(v)
        }
        4 => {
            let v = holes
                .iter()
                .map(|h| match r.below(4) {
                    0 => Ix::Span(Some(h.clone()), None, None),
                    1 => Ix::Span(Some(small(r)), Some(h.clone()), None),
                    2 => Ix::Span(None, Some(small(r)), Some(Some(h.clone()))),
                    _ => Ix::One(h.clone()),
                })
                .collect();
            E::Index(Box::new(E::Paren(Box::new(small(r)))), v)
        }
        5 => {
            let mut it = holes.iter().map(|h| E::Paren(Box::new(h.clone())));
            let mut e = it.next().unwrap();
            for x in it {
                e = E::Bin(*r.pick(&["+", "*", "^", "-", "/"]), Box::new(e), Box::new(x));
            }
            if r.chance(1, 2) {
                let s = small(r);
                let op = *r.pick(&["+", "*", "^", "-"]);
                e = if r.chance(1, 2) { E::Bin(op, Box::new(e), Box::new(s)) } else { E::Bin(op, Box::new(s), Box::new(e)) };
            }
            e
        }
        6 if holes.len() == 1 => {
            let e = E::Paren(Box::new(holes[0].clone()));
            match r.below(4) {
                0 => E::Suf("!", Box::new(e)),
                1 => E::Pre("-", Box::new(e)),
                2 => E::Index(Box::new(e), vec![Ix::One(small(r))]),
                _ => E::Member(Box::new(e), Box::new(E::Call("g".into(), vec![vec![]]))),
            }
        }
        _ => E::List(holes.iter().map(|h| if r.chance(1, 2) { E::Paren(Box::new(h.clone())) } else { h.clone() }).collect()),
    }
}

/// (line, column) to offset, over the text they were recorded for
struct Lines {
    starts: Vec<usize>,
    total: usize,
}
impl Lines {
    fn of(s: &[char]) -> Lines {
        let mut starts = vec![0];
        for (i, c) in s.iter().enumerate() {
            if *c == '\n' {
                starts.push(i + 1);
            }
        }
        Lines { starts, total: s.len() }
    }
    fn at(&self, p: (usize, usize)) -> Option<usize> {
        offset(&self.starts, self.total, p)
    }
}

struct Shift<'a> {
    /// holes in the order of the text: their first and one-past-last character in the frame, their length in the filled text
    holes: &'a [(usize, usize, usize)],
    parts: &'a [AST],
    part_lines: &'a [Lines],
    /// the tokens of the frame: first and one-past-last character
    at: &'a [(usize, usize)],
    frame: Lines,
    full: Lines,
    seen: u64,
}
impl Shift<'_> {
    fn moved(&self, x: usize) -> usize {
        let mut d = 0isize;
        for (s, e, len) in self.holes {
            if x >= *e {
                d += *len as isize - (e - s) as isize;
            }
        }
        (x as isize + d) as usize
    }
    fn place(&mut self, what: &AST, want: (usize, usize), got: ((usize, usize), (usize, usize))) -> V {
        self.seen += 1;
        // the layout between two tokens of the frame belongs to what stands before it or to nothing
        let end = |x: usize| {
            let k = self.at.partition_point(|t| self.moved(t.1) <= x);
            if k > 0 && x <= self.at.get(k).map_or(usize::MAX, |t| self.moved(t.0)) { self.moved(self.at[k - 1].1) } else { x }
        };
        let want = (want.0, end(want.1));
        let seen = (self.full.at(got.0), self.full.at(got.1).map(end));
        if seen != (Some(want.0), Some(want.1)) {
            return Err(format!("{} stands at characters {:?} by itself or by its surroundings, here {:?} is recorded", clip(&from_ast(what).show()), want, got));
        }
        Ok(())
    }
    /// the tree of a text that stands by itself, and the same text in place
    fn inside(&mut self, a: &AST, b: &AST, k: usize, from: usize) -> V {
        match (a, b) {
            (AST::Function(s, ps), AST::Function(t, qs)) if s == t && ps.len() == qs.len() => {
                for (p, q) in ps.iter().zip(qs) {
                    if p.arguments.len() != q.arguments.len() || !p.options.keys().eq(q.options.keys()) || p.position.file != q.position.file {
                        return Err(differ(a, b));
                    }
                    let (x, y) = (self.part_lines[k].at(p.position.start), self.part_lines[k].at(p.position.end));
                    let (Some(x), Some(y)) = (x, y) else { return Err(format!("{:?} is no place in the text", p.position)) };
                    self.place(a, (from + x, from + y), (q.position.start, q.position.end))?;
                    for (x, y) in p.arguments.iter().zip(&q.arguments).chain(p.options.values().zip(q.options.values())) {
                        self.inside(x, y, k, from)?;
                    }
                }
                Ok(())
            }
            (a, b) if a == b => Ok(()),
            _ => Err(differ(a, b)),
        }
    }
    /// the tree of the frame, and the tree of the filled text
    fn outside(&mut self, a: &AST, b: &AST) -> V {
        if let AST::Symbol(s) = a {
            if let Some(k) = s.name.strip_prefix(HOLE).and_then(|k| k.parse::<usize>().ok()) {
                if k < self.parts.len() && s.name_space.is_empty() {
                    let from = self.moved(self.holes[k].0);
                    let part = self.parts[k].clone();
                    return self.inside(&part, b, k, from);
                }
            }
        }
        match (a, b) {
            (AST::Program(v), AST::Program(w)) if v.len() == w.len() => v.iter().zip(w).try_for_each(|(x, y)| self.outside(x, y)),
            (AST::Function(s, ps), AST::Function(t, qs)) if s == t && ps.len() == qs.len() => {
                for (p, q) in ps.iter().zip(qs) {
                    if p.arguments.len() != q.arguments.len() || !p.options.keys().eq(q.options.keys()) || p.position.file != q.position.file {
                        return Err(differ(a, b));
                    }
                    let (x, y) = (self.frame.at(p.position.start), self.frame.at(p.position.end));
                    let (Some(x), Some(y)) = (x, y) else { return Err(format!("{:?} is no place in the text", p.position)) };
                    self.place(a, (self.moved(x), self.moved(y)), (q.position.start, q.position.end))?;
                    for (x, y) in p.arguments.iter().zip(&q.arguments).chain(p.options.values().zip(q.options.values())) {
                        self.outside(x, y)?;
                    }
                }
                Ok(())
            }
            (a, b) if a == b => Ok(()),
            _ => Err(differ(a, b)),
        }
    }
}
fn differ(a: &AST, b: &AST) -> String {
    from_ast(a).diff(&from_ast(b)).unwrap_or_else(|| clip(&format!("expected {:?}, got {:?}", a, b)))
}

const HOLE: &str = "qqhole";

pub fn c33(r: &mut Rng, o: &mut Obs) -> V {
    let n = *r.pick(&[1, 1, 1, 2, 2, 3]);
    let mut texts: Vec<String> = vec![];
    for k in 0..n {
        // the same text more than once, too
        if k > 0 && r.chance(1, 3) {
            texts.push(r.pick(&texts).clone());
            continue;
        }
        let b = *r.pick(&[1, 1, 2, 3, 5, 8]);
        let e = expr(r, &ALL, b, 0);
        let st = Style { parens: *r.pick(&[0, 1]), commas: true, wide: true };
        let (mut toks, _, _) = render(&e, r, st);
        if toks.last().is_some_and(|t| t.text == ";" || t.text == "；") {
            toks.pop();
        }
        let l = *r.pick(&[Lay::Tight, Lay::Blanks, Lay::Wild]);
        let (t, at) = lay(&toks, r, l, false);
        texts.push(t.chars().take(at[at.len() - 1].1).skip(at[0].0).collect());
    }
    let mut parts = vec![];
    for t in &texts {
        o.about(t);
        match parse(t) {
            Ok(AST::Program(_)) | Err(_) => {
                o.tag("not an expression by itself (judged elsewhere)");
                return Ok(());
            }
            Ok(a) => parts.push(a),
        }
    }
    let holes: Vec<E> = (0..n).map(|k| E::Atom(format!("{}{}", HOLE, k), N::Sym(format!("{}{}", HOLE, k)))).collect();
    let mut es = vec![];
    let depth = *r.pick(&[0, 1, 1, 1, 2, 3]);
    if depth == 0 {
        // statements of a sequence
        let b = r.range(1, 3);
        es = holes.clone();
        for _ in 0..r.range(1, 2) {
            let at = r.below(es.len() + 1);
            es.insert(at, expr(r, &ALL, b, 5));
        }
    }
    else {
        let mut e = around(r, &holes);
        for _ in 1..depth {
            e = around(r, &[e]);
        }
        es.push(e);
    }
    let st = Style { parens: *r.pick(&[0, 0, 1]), commas: true, wide: true };
    let (toks, _, _) = render_all(&es, r, st);
    let l = *r.pick(&[Lay::Tight, Lay::Blanks, Lay::Wild]);
    let (frame, at) = lay(&toks, r, l, false);
    // where the holes are, in the order of their numbers and of the text
    let mut where_ = vec![];
    for k in 0..n {
        let name = format!("{}{}", HOLE, k);
        let v: Vec<usize> = toks.iter().enumerate().filter(|(_, t)| t.text == name).map(|x| x.0).collect();
        let [t] = v[..] else { return Ok(()) };
        where_.push((at[t].0, at[t].1, texts[k].chars().count()));
    }
    let fc: Vec<char> = frame.chars().collect();
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|k| where_[*k].0);
    let mut full = String::new();
    let mut from = 0;
    for k in order {
        full.extend(&fc[from..where_[k].0]);
        full += &texts[k];
        from = where_[k].1;
    }
    full.extend(&fc[from..]);
    o.about(&full);
    let a = parse(&frame).map_err(|m| format!("{:?} around it is {}", frame, m))?;
    let b = parse(&full).map_err(|m| format!("{} although every part of it is an expression, and {:?} around it reads", m, frame))?;
    let uc: Vec<char> = full.chars().collect();
    let part_lines: Vec<Lines> = texts.iter().map(|t| Lines::of(&t.chars().collect::<Vec<_>>())).collect();
    let mut s = Shift { holes: &where_, parts: &parts, part_lines: &part_lines, at: &at, frame: Lines::of(&fc), full: Lines::of(&uc), seen: 0 };
    s.outside(&a, &b).map_err(|m| format!("in {:?}: {}", frame, m))?;
    let got = from_ast(&b);
    got.count(&mut o.heads);
    o.tag(match depth {
        0 => "a statement in a sequence",
        1 => "one level down",
        _ => "several levels down",
    });
    o.nontrivial = s.seen > 0;
    o.events = 1 + s.seen;
    o.outcome = format!("{} expressions mean in place what they mean alone, {} positions shifted", n, s.seen);
    Ok(())
}

// ------------------------------------------------------------------ C34 comparison

/// a tree a little different from this one
fn nudge(a: &AST, r: &mut Rng) -> AST {
    match a {
        AST::EmptyStatement => AST::Boolean(true),
        AST::Boolean(b) => AST::Boolean(!b),
        AST::Integer(i) => match r.below(5) {
            2 => AST::decimal(i.clone()),
            0 if *i != 0.into() => AST::integer(-i),
            1 if *i != 0.into() => AST::integer(i * 10),
            3 => AST::string(i.to_string()),
            _ => AST::integer(i + 1),
        },
        AST::Decimal(d) => match r.below(3) {
            0 => AST::string(d.to_string()),
            1 if d.clone() != -d.clone() => AST::decimal(-d.clone()),
            _ => AST::decimal(d.clone() + bigdecimal::BigDecimal::from(1)),
        },
        AST::Symbol(s) => {
            let mut s = s.clone();
            match r.below(7) {
                0 => s.name += "_",
                1 => s.name_space.push("n".into()),
                2 => return AST::string(s.name),
                3 if s.name != upper(&s.name) => s.name = upper(&s.name),
                4 if !s.name_space.is_empty() => s.name = format!("{}::{}", s.name_space.pop().unwrap(), s.name),
                5 => s.attributes ^= 1,
                _ => s.name = s.name.chars().rev().collect::<String>() + "x",
            }
            AST::Symbol(s)
        }
        AST::String(s) => match r.below(3) {
            0 => AST::string(format!("{} ", s)),
            1 => AST::symbol(s),
            _ => AST::string(format!("x{}", s)),
        },
        AST::Program(v) => {
            let mut v = v.clone();
            if v.is_empty() || r.chance(1, 4) {
                v.push(AST::Boolean(false));
            }
            else {
                let k = r.below(v.len());
                v[k] = nudge(&v[k], r);
            }
            AST::Program(v)
        }
        AST::Function(s, ps) => {
            let (mut s, mut ps) = (s.clone(), ps.clone());
            let g = if ps.is_empty() { 0 } else { r.below(ps.len()) };
            match r.below(8) {
                0 => s.name = if s.name != upper(&s.name) && r.chance(1, 2) { upper(&s.name) } else { s.name + "x" },
                1 => s.name_space.push("n".into()),
                2 if !ps.is_empty() && r.chance(1, 3) => match r.below(3) {
                    0 => ps[g].position.file += "x",
                    1 => ps[g].position.start.0 += 1,
                    _ => ps[g].position.end.1 += 1,
                },
                2 if !ps.is_empty() && !ps[g].options.is_empty() => {
                    // another name for the same value
                    let k = r.below(ps[g].options.len());
                    let k = ps[g].options.keys().nth(k).unwrap().clone();
                    let v = ps[g].options.remove(&k).unwrap();
                    let mut l = nudge(&k, r);
                    while ps[g].options.contains_key(&l) || l == k {
                        l = AST::symbol(format!("k{}", r.below(1000)));
                    }
                    ps[g].options.insert(l, v);
                }
                2 if !ps.is_empty() => {
                    let p = ps[g].clone();
                    ps.push(p);
                }
                3 if !ps.is_empty() => ps[g].arguments.push(AST::integer(7)),
                4 if !ps.is_empty() => {
                    let k = AST::symbol("another_option");
                    let v = ps[g].options.len() as u64 * 1000 + r.below(1000) as u64 * 1_000_000;
                    if ps[g].options.insert(k, AST::integer(v)) == Some(AST::integer(v)) {
                        s.name += "_";
                    }
                }
                5 if !ps.is_empty() && !ps[g].options.is_empty() => {
                    let k = r.below(ps[g].options.len());
                    let k = ps[g].options.keys().nth(k).unwrap().clone();
                    let v = nudge(&ps[g].options[&k], r);
                    ps[g].options.insert(k, v);
                }
                _ if !ps.is_empty() && !ps[g].arguments.is_empty() => {
                    let k = r.below(ps[g].arguments.len());
                    ps[g].arguments[k] = nudge(&ps[g].arguments[k], r);
                }
                _ => s.name += "_",
            }
            AST::Function(s, ps)
        }
    }
}

/// the same numbers, written with more zeros
fn restate(a: &AST) -> AST {
    match a {
        AST::Decimal(d) => AST::decimal(format!("{}{}", d, if d.to_string().contains('.') { "00" } else { ".0" }).parse::<bigdecimal::BigDecimal>().unwrap()),
        AST::Program(v) => AST::Program(v.iter().map(restate).collect()),
        AST::Function(s, ps) => {
            let mut ps = ps.clone();
            for p in &mut ps {
                p.arguments = p.arguments.iter().map(restate).collect();
                p.options = p.options.iter().map(|(k, v)| (k.clone(), restate(v))).collect();
            }
            AST::Function(s.clone(), ps)
        }
        a => a.clone(),
    }
}

pub fn c34(r: &mut Rng, o: &mut Obs) -> V {
    built(|_| ())?;
    let budget = *r.pick(&[1, 2, 3, 5, 8, 14]);
    let one = |r: &mut Rng| -> AST {
        match r.below(3) {
            0 => {
                let mut w = Wild { plain: r.chance(1, 2), next: r.below(20) as u64, programs: 0 };
                w.tree(r, budget)
            }
            1 => built(|b| b.tree(r, budget, 0)).unwrap(),
            _ => {
                let es = exprs(r, &ALL, budget);
                let (toks, _, _) = render_all(&es, r, PLAIN);
                parse(&lay(&toks, r, Lay::Blanks, false).0).unwrap_or(AST::EmptyStatement)
            }
        }
    };
    let mut v = vec![];
    for _ in 0..r.range(1, 4) {
        let a = one(r);
        for _ in 0..r.below(3) {
            v.push(nudge(&a, r));
        }
        if r.chance(1, 3) {
            v.push(placeless(&a));
        }
        if r.chance(1, 2) {
            v.push(a.clone());
        }
        if format!("{:?}", a).contains("Decimal") {
            let b = restate(&a);
            if a != b || a.cmp(&b) != Ordering::Equal {
                return Err(format!("with more zeros at the end of decimals, {} is not equal to itself", clip(&format!("{:?}", a))));
            }
            o.tag("decimals with more zeros");
            v.push(b);
        }
        v.push(a);
    }
    let first = v[0].clone();
    o.about(&format!("{} trees, the first: {}", v.len(), clip(&format!("{:?}", first))));
    let says = |a: &AST| clip(&format!("{:?}", a));
    for a in &v {
        from_ast(a).count(&mut o.heads);
        let c = a.clone();
        if c != *a || format!("{:?}", c) != format!("{:?}", a) || a.cmp(&c) != Ordering::Equal {
            return Err(format!("a copy of {} is not equal to it", says(a)));
        }
        if *a == AST::string("no tree has this") || AST::string("no tree has this") == *a {
            return Err(format!("{} is equal to a string", says(a)));
        }
    }
    // what differs is not equal
    for _ in 0..4 {
        let a = r.pick(&v).clone();
        let b = nudge(&a, r);
        o.events += 1;
        if a == b || b == a {
            return Err(format!("{} and {} are equal", says(&a), says(&b)));
        }
        v.push(b);
    }
    let mut equal = 0u64;
    for a in &v {
        for b in &v {
            let (e, f, c, d) = (a == b, b == a, a.cmp(b), b.cmp(a));
            o.events += 1;
            if e != f || c != d.reverse() || (c == Ordering::Equal) != e || a.partial_cmp(b) != Some(c) || (a < b) != (c == Ordering::Less) || (a >= b) == (a < b) || (a != b) == e {
                return Err(format!("{} and {}: equal {} and {}, compared {:?} and {:?}, partly {:?}", says(a), says(b), e, f, c, d, a.partial_cmp(b)));
            }
            equal += e as u64;
        }
    }
    // a chain in order is a chain throughout
    let mut s = v.clone();
    s.sort();
    for i in 0..s.len() {
        for j in i..s.len() {
            if s[i] > s[j] {
                return Err(format!("{} before {} before {} in order, but the last is less than the first", says(&s[i]), says(&s[(i + j) / 2]), says(&s[j])));
            }
        }
    }
    // as keys
    let set: BTreeSet<AST> = v.iter().cloned().collect();
    let mut map: BTreeMap<AST, usize> = BTreeMap::new();
    for (i, a) in v.iter().enumerate() {
        map.insert(a.clone(), i);
    }
    let distinct = (0..v.len()).filter(|i| !v[..*i].contains(&v[*i])).count();
    if set.len() != distinct || map.len() != distinct {
        return Err(format!("{} trees, {} distinct ones, {} in a set, {} as keys", v.len(), distinct, set.len(), map.len()));
    }
    for a in &v {
        let last = v.iter().rposition(|b| b == a).unwrap();
        if !set.contains(a) || map.get(a) != Some(&last) {
            return Err(format!("{} is not found among the keys", says(a)));
        }
    }
    // as option names
    let mut holder = built(|b| b.with("l", vec![]))?;
    if let AST::Function(_, ps) = &mut holder {
        for (i, a) in v.iter().enumerate() {
            ps[0].options.insert(a.clone(), AST::integer(i));
        }
        for a in &v {
            let last = v.iter().rposition(|b| b == a).unwrap();
            if ps[0].options.get(a) != Some(&AST::integer(last)) {
                return Err(format!("the option {} does not have the value it was given last", says(a)));
            }
        }
    }
    o.tag(if distinct == v.len() { "all different" } else { "some alike" });
    o.nontrivial = v.len() > 2;
    o.outcome = format!("{} trees, {} distinct, {} equal pairs, one order", v.len(), distinct, equal);
    Ok(())
}
