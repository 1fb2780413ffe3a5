//! Canonical trees: what a syntax tree says, without positions and spelling.
use num::BigInt;
use sm_ast::AST;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

/// where an argument group stands in the source; never part of comparisons
#[derive(Clone, Debug)]
pub enum Pos {
    None,
    /// first and last token
    Toks(usize, usize),
    /// the expression with this number
    Expr(usize),
    /// what the tree under test recorded: file, start, end
    Seen(String, (usize, usize), (usize, usize)),
}
impl PartialEq for Pos {
    fn eq(&self, _: &Pos) -> bool {
        true
    }
}
impl Eq for Pos {}
impl Hash for Pos {
    fn hash<H: Hasher>(&self, _: &mut H) {}
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct G {
    pub args: Vec<N>,
    pub opts: Vec<(String, N)>,
    pub pos: Pos,
}

/// kind: 'i' infix, 'p' prefix, 's' suffix, 'n' anything else
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum N {
    Empty,
    Int(BigInt),
    Dec(String),
    Bool(bool),
    Sym(String),
    Str(String),
    Fun(char, String, Vec<G>),
    Prog(Vec<N>),
}

pub fn dec(s: &str) -> String {
    // the digits of a decimal: zeros in front carry nothing, those at the end do
    let (sign, s) = match s.strip_prefix('-') {
        Some(r) => ("-", r),
        None => ("", s),
    };
    let (a, b) = s.split_once('.').unwrap_or((s, ""));
    let a = a.trim_start_matches('0');
    format!("{}{}.{}", if a.is_empty() && b.bytes().all(|c| c == b'0') { "" } else { sign }, if a.is_empty() { "0" } else { a }, b)
}

pub fn infix_name(op: &str) -> &str {
    match op {
        "+" => "add",
        "-" => "subtract",
        "*" | "×" => "times",
        "/" | "÷" => "divide",
        "^" => "power",
        o => o,
    }
}
pub fn prefix_name(op: &str) -> &str {
    match op {
        "+" => "plus",
        "-" => "minus",
        "*" => "unpack",
        "!" | "¬" => "not",
        o => o,
    }
}
pub fn suffix_name(op: &str) -> &str {
    match op {
        "!" => "factorial",
        "!!" => "factorial2",
        o => o,
    }
}

/// names of built-in things are compared by their last component
pub fn local(path: &str) -> String {
    match path.strip_prefix("std::") {
        Some(r) if r.contains("::") => r.rsplit("::").next().unwrap().to_string(),
        _ => path.to_string(),
    }
}

pub fn from_ast(a: &AST) -> N {
    match a {
        AST::EmptyStatement => N::Empty,
        AST::Program(v) => N::Prog(v.iter().map(from_ast).collect()),
        AST::Boolean(b) => N::Bool(*b),
        AST::Integer(i) => N::Int(i.clone()),
        AST::Decimal(d) => N::Dec(dec(&d.to_string())),
        AST::Symbol(s) => N::Sym(local(&path(&s.name_space, &s.name))),
        AST::String(s) => N::Str(s.clone()),
        AST::Function(s, ps) => {
            let k = format!("{:?}", s.kind);
            let k = if k.starts_with("Infix") {
                'i'
            }
            else if k.starts_with("Prefix") {
                'p'
            }
            else if k.starts_with("Suffix") {
                's'
            }
            else {
                'n'
            };
            let name = if k == 'n' { local(&path(&s.name_space, &s.name)) } else { s.name.clone() };
            let gs = ps
                .iter()
                .map(|p| G {
                    args: p.arguments.iter().map(from_ast).collect(),
                    opts: p
                        .options
                        .iter()
                        .map(|(k, v)| {
                            let key = match k {
                                AST::Symbol(s) => path(&s.name_space, &s.name),
                                o => format!("<{}>", o),
                            };
                            (key, from_ast(v))
                        })
                        .collect(),
                    pos: Pos::Seen(p.position.file.clone(), p.position.start, p.position.end),
                })
                .collect();
            N::Fun(k, name, gs)
        }
        #[allow(unreachable_patterns)]
        o => N::Sym(format!("<unknown node {:?}>", o)),
    }
}

fn path(ns: &[String], name: &str) -> String {
    let mut v: Vec<&str> = ns.iter().map(|s| s.as_str()).collect();
    v.push(name);
    v.join("::")
}

pub fn fun(kind: char, name: &str, args: Vec<N>, pos: Pos) -> N {
    N::Fun(kind, name.to_string(), vec![G { args, opts: vec![], pos }])
}

impl N {
    pub fn size(&self) -> usize {
        match self {
            N::Fun(_, _, gs) => 1 + gs.iter().map(|g| g.args.iter().map(N::size).sum::<usize>() + g.opts.iter().map(|o| o.1.size()).sum::<usize>()).sum::<usize>(),
            N::Prog(v) => v.iter().map(N::size).sum(),
            _ => 1,
        }
    }
    /// short text for reports
    pub fn show(&self) -> String {
        match self {
            N::Empty => "<nothing>".into(),
            N::Int(i) => i.to_string(),
            N::Dec(s) => s.clone(),
            N::Bool(b) => b.to_string(),
            N::Sym(s) => s.clone(),
            N::Str(s) => format!("{:?}", s),
            N::Fun(k, n, gs) => {
                let mut o = if *k == 'n' { n.clone() } else { format!("{}:{}", k, n) };
                for g in gs {
                    let mut v: Vec<String> = g.args.iter().map(N::show).collect();
                    v.extend(g.opts.iter().map(|(k, e)| format!("{}->{}", k, e.show())));
                    o += &format!("[{}]", v.join(","));
                }
                o
            }
            N::Prog(v) => v.iter().map(N::show).collect::<Vec<_>>().join(" ; "),
        }
    }
    /// first place where two trees differ
    pub fn diff(&self, o: &N) -> Option<String> {
        if self == o {
            return None;
        }
        if let (N::Fun(k, n, g), N::Fun(k2, n2, g2)) = (self, o) {
            if k == k2 && n == n2 && g.len() == g2.len() {
                for (a, b) in g.iter().zip(g2) {
                    if a.args.len() == b.args.len() && a.opts.len() == b.opts.len() {
                        for (x, y) in a.args.iter().zip(&b.args) {
                            if let Some(d) = x.diff(y) {
                                return Some(d);
                            }
                        }
                    }
                }
            }
        }
        if let (N::Prog(v), N::Prog(w)) = (self, o) {
            if v.len() == w.len() {
                return v.iter().zip(w).find_map(|(x, y)| x.diff(y));
            }
        }
        Some(format!("expected {}, got {}", clip(&self.show()), clip(&o.show())))
    }
    /// products of three or more factors as nested products, negative numbers as negated ones
    pub fn normal(&self) -> N {
        match self {
            N::Int(i) if i.sign() == num::bigint::Sign::Minus => fun('p', "minus", vec![N::Int(-i)], Pos::None),
            N::Dec(s) if s.starts_with('-') => fun('p', "minus", vec![N::Dec(s[1..].to_string())], Pos::None),
            N::Fun('i', n, gs) if n == "times" && gs.len() == 1 && gs[0].args.len() > 2 => {
                let mut it = gs[0].args.iter().map(N::normal);
                let mut base = it.next().unwrap();
                for e in it {
                    base = fun('i', "times", vec![base, e], Pos::None);
                }
                base
            }
            N::Fun(k, n, gs) => N::Fun(
                *k,
                n.clone(),
                gs.iter()
                    .map(|g| G { args: g.args.iter().map(N::normal).collect(), opts: g.opts.iter().map(|(k, v)| (k.clone(), v.normal())).collect(), pos: Pos::None })
                    .collect(),
            ),
            N::Prog(v) => N::Prog(v.iter().map(N::normal).collect()),
            x => x.clone(),
        }
    }
    /// heads and how often they occur
    pub fn count(&self, m: &mut BTreeMap<String, u64>) {
        let k = match self {
            N::Empty => "empty".to_string(),
            N::Int(_) => "integer".into(),
            N::Dec(_) => "decimal".into(),
            N::Bool(_) => "boolean".into(),
            N::Sym(_) => "symbol".into(),
            N::Str(_) => "string".into(),
            N::Fun('n', n, gs) => match n.as_str() {
                "List" | "Index" | "index" | "Span" | "slot" | "slot_sequence" | "input" | "output" => n.clone(),
                _ => format!("call with {} group{}", gs.len().min(3), if gs.len() == 1 { "" } else { "s" }),
            },
            N::Fun(k, n, _) => format!("{}:{}", k, n),
            N::Prog(_) => "program".into(),
        };
        *m.entry(k).or_default() += 1;
        if let N::Prog(v) = self {
            for a in v {
                a.count(m)
            }
        }
        if let N::Fun(_, _, gs) = self {
            for g in gs {
                for a in &g.args {
                    a.count(m)
                }
                for a in &g.opts {
                    a.1.count(m)
                }
            }
        }
    }
}

pub fn clip(s: &str) -> String {
    if s.chars().count() > 400 { s.chars().take(380).collect::<String>() + " ..." } else { s.to_string() }
}
