//! Source expressions: generation, their meaning by the documented grouping, and their rendering to text
//! with every freedom of layout the grammar leaves.
use crate::rng::Rng;
use crate::tree::*;
use crate::words::words;
use num::{BigInt, Num};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum E {
    Atom(String, N),
    Pre(&'static str, Box<E>),
    Suf(&'static str, Box<E>),
    Bin(&'static str, Box<E>, Box<E>),
    Call(String, Vec<Vec<Arg>>),
    Juxt(Vec<E>),
    Member(Box<E>, Box<E>),
    List(Vec<E>),
    Index(Box<E>, Vec<Ix>),
    Paren(Box<E>),
}
#[derive(Clone, Debug)]
pub enum Arg {
    Pos(E),
    Kw(String, E),
}
#[derive(Clone, Debug)]
pub enum Ix {
    One(E),
    Span(Option<E>, Option<E>, Option<Option<E>>),
}

/// which constructs to generate
#[derive(Clone, Copy)]
pub struct Mix {
    pub strings: bool,
    pub nulls: bool,
    pub slots: bool,
    pub members: bool,
    pub indexes: bool,
    pub lists: bool,
    pub calls: bool,
    pub options: bool,
    pub curried: bool,
    pub juxt: bool,
    pub affix: bool,
    pub rare_ops: bool,
    pub bytes: bool,
    pub unicode: bool,
    pub decimals: bool,
}
pub const ALL: Mix = Mix {
    strings: true,
    nulls: true,
    slots: true,
    members: true,
    indexes: true,
    lists: true,
    calls: true,
    options: true,
    curried: true,
    juxt: true,
    affix: true,
    rare_ops: true,
    bytes: true,
    unicode: true,
    decimals: true,
};

/// documented grouping: the larger, the tighter
pub fn prec(op: &str) -> u32 {
    match op {
        "=" => 40,
        ">" => 290,
        "+" | "-" => 310,
        "*" | "×" | "%" => 400,
        "⋅" => 410,
        "⊗" => 420,
        "/" | "÷" => 470,
        "⊙" => 520,
        "^" => 590,
        _ => unreachable!(),
    }
}
pub fn right(op: &str) -> bool {
    op == "=" || op == "^"
}
const MEMBER: u32 = 900;
const TERM: u32 = 1000;

const NAMES: &[&str] = &[
    "x", "y", "z", "a", "b", "n", "foo", "Bar", "x1", "a_b", "_t", "__", "e", "e5", "i", "letter", "lettuce", "defer", "classic", "traits", "using_", "usingx", "iff", "iffy", "form",
    "format", "inner", "passage", "breakfast", "returned", "extendsx", "nullable", "truely", "false_", "null1", "Null", "True", "asx", "thenx", "elsewhere", "typed", "withx", "yields",
    "sin", "cos", "f", "g", "add", "times", "length", "X", "bx", "xb", "o7", "b1", "x0f", "Abc123", "camelCase",
];
const UNAMES: &[&str] = &["é", "αβ", "中文", "ñ1", "Ω", "𝒳", "ʼn", "данные", "ℝ", "a\u{301}", "ｆ"];
/// everything the library knows by name, in the evaluator, the renderers or its documentation
const KNOWN: &[&str] = &[
    "sqrt", "sin", "cos", "tan", "cot", "sec", "csc", "arcsin", "arccos", "arctan", "arccot", "arcsec", "arccsc", "sinh", "cosh", "tanh", "coth", "sech", "csch", "arcsinh", "arccosh", "arctanh",
    "arccoth", "arcsech", "arccsch", "exp", "ln", "log", "log2", "log10", "lg", "abs", "sign", "floor", "ceil", "round", "min", "max", "mod", "gcd", "lcm", "factorial", "factorial2", "fibonacci",
    "prime_sum", "prime_count", "power", "power_mod", "plus", "minus", "add", "subtract", "times", "divide", "quotient", "not", "unpack", "head", "length", "first", "last", "most", "rest", "take",
    "join", "concat", "flatten", "expand", "factor", "factor_list", "factors", "apart", "together", "collect", "random_real", "random_integer", "random_prime", "List", "list", "Dict", "dict", "Null",
    "slot", "slot_sequence", "input", "output", "span", "index", "get_index", "rule", "Rule", "derivative", "Derivative", "integrate", "sum", "product", "limit", "map", "apply", "let_bind", "Integer",
    "Decimal", "String", "Boolean", "Symbol", "Function", "Parameter", "EmptyStatement", "Program", "CompoundExpression", "Plus", "Times", "Power", "Factorial", "FactorInteger", "Sequence", "Nothing", "Pi",
    "pi", "E", "I", "infinity", "sin2", "Sin", "text", "operatorname", "left", "right", "mathtt", "infix", "prefix", "suffix", "constant", "containers", "times2",
];
const FNAMES: &[&str] = &["f", "g", "h", "foo", "sin", "cos", "tan", "arcsin", "log", "factor", "length", "first", "add", "fibonacci", "Sum", "_g", "F2", "iff", "letter", "lib::f", "a::b::c", "std1::g", "map"];
const OPS: &[&str] = &["+", "-", "*", "/", "^"];
const RARE: &[&str] = &["×", "÷", "%", "⋅", "⊗", "⊙", ">", "="];
const PRES: &[&str] = &["+", "-", "*", "!", "¬"];

/// a plain name: known to the library, or drawn from its source
pub fn known_name(r: &mut Rng) -> String {
    let pool = &words().names;
    if r.chance(1, 2) || pool.all.is_empty() && pool.new.is_empty() {
        return r.pick(KNOWN).to_string();
    }
    let w = pool.draw(|n| r.below(n)).unwrap().clone();
    match r.below(10) {
        0 => format!("{}{}", w, r.below(12)),
        1 if w.len() > 1 => w[..w.len() - 1].to_string() + "_",
        2 => w.to_uppercase(),
        3 => format!("_{}", w),
        _ => w,
    }
}
/// a number from the constants of the source, or next to one
pub fn known_number(r: &mut Rng) -> Option<String> {
    let pool = &words().nums;
    if !r.chance(1, if pool.new.is_empty() { 40 } else { 6 }) {
        return None;
    }
    let n: BigInt = pool.draw(|n| r.below(n))?.parse().ok()?;
    let d = r.below(3);
    Some(if r.chance(1, 2) || n < BigInt::from(d) { n + d } else { n - d }.to_string())
}
/// how many of something: usually `usual`, sometimes a size named in the source and not in the tree this was written against
pub fn size(r: &mut Rng, usual: usize, limit: usize) -> usize {
    let pool = &words().nums;
    if r.chance(1, 500) {
        // counts that small integers, buffers and tables end at
        let n = *r.pick(&[5usize, 6, 8, 9, 10, 12, 15, 16, 20, 31, 32, 50, 63, 64, 99, 100, 127, 128, 200, 255, 256, 300, 511, 512, 1000, 1023, 1024, 2048, 4095]) + r.below(3);
        if n <= limit {
            return n;
        }
    }
    if pool.new.is_empty() || !r.chance(1, 10) {
        return usual;
    }
    match r.pick(&pool.new).parse::<usize>() {
        Ok(n) if n <= limit => (n + r.below(3)).saturating_sub(1).max(usual.min(1)),
        _ => usual,
    }
}
thread_local!(static HUGE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
/// one thing of a case may be huge
pub fn new_case() {
    HUGE.with(|h| h.set(!cfg!(miri)));
}
/// rarely, and once in a case: a size beyond 16-bit counts, pages and buffers
pub fn huge(r: &mut Rng, odds: usize) -> Option<usize> {
    if !HUGE.with(|h| h.get()) || !r.chance(1, odds) {
        return None;
    }
    HUGE.with(|h| h.set(false));
    Some(*r.pick(&[4096usize, 8192, 10_000, 16_384, 32_767, 32_768, 65_533, 65_535, 65_536, 70_000, 100_000, 131_071, 140_000]) + r.below(4))
}
/// a fragment of text from the source: no quotes or backslashes
pub fn known_fragment(r: &mut Rng) -> Option<String> {
    let pool = &words().strs;
    if !r.chance(1, if pool.new.is_empty() { 30 } else { 6 }) {
        return None;
    }
    pool.draw(|n| r.below(n)).filter(|s| !s.contains(['"', '\\'])).cloned()
}

pub fn name(r: &mut Rng, m: &Mix) -> String {
    let mut n = 0;
    if r.chance(1, if words().names.new.is_empty() { 16 } else { 6 }) {
        return known_name(r);
    }
    if m.unicode && r.chance(1, 12) {
        return r.pick(UNAMES).to_string();
    }
    if r.chance(1, 400) || huge(r, 30000).map(|k| { n = k; true }).unwrap_or(false) {
        let n = if n > 0 { n } else { size(r, 12, 300) + r.below(60) };
        let c = *r.pick(&["_", "q", "0", "Q9"]);
        return format!("{}_{}", r.pick(NAMES), c.repeat(n));
    }
    if r.chance(1, 2) { r.pick(&NAMES[..6]).to_string() } else { r.pick(NAMES).to_string() }
}
fn digits(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| char::from(b'0' + r.below(10) as u8)).collect()
}
fn runs(r: &mut Rng, n: usize) -> String {
    let mut s = r.range(1, 9).to_string();
    while s.len() < n {
        let k = r.below(n - s.len() + 1).max(1);
        s += &if r.chance(1, 2) { "0".repeat(k) } else { digits(r, k) };
    }
    s
}
pub fn integer_text(r: &mut Rng, long: bool) -> String {
    if let Some(n) = huge(r, 20000) {
        return runs(r, n.min(15000));
    }
    if let Some(s) = known_number(r) {
        return s;
    }
    match r.below(if long { 11 } else { 8 }) {
        7 => {
            // around the widths of machine words and floats
            let k = *r.pick(&[8u32, 15, 16, 24, 31, 32, 48, 52, 53, 54, 56, 62, 63, 64, 65, 96, 127, 128]);
            let d = r.below(6) + if r.chance(1, 3) { r.below(1 << 20) } else { 0 };
            ((BigInt::from(1) << k as usize) + BigInt::from(d) - BigInt::from(3)).to_string()
        }
        0 => "0".into(),
        1 | 2 => r.range(1, 9).to_string(),
        3 | 4 => r.range(1, 99).to_string(),
        5 => r.pick(&["10", "100", "255", "256", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456"]).to_string(),
        6 => format!("{}{}", r.range(1, 9), { let n = r.below(12); digits(r, n) }),
        8 if !cfg!(miri) && r.chance(1, 6) => {
            let n = r.range(300, 2500);
            runs(r, n)
        }
        _ => format!("{}{}", r.range(1, 9), { let n = r.below(300); digits(r, n) }),
    }
}
pub fn integer(r: &mut Rng, long: bool) -> E {
    let t = integer_text(r, long);
    let n = BigInt::from_str_radix(&t, 10).unwrap();
    E::Atom(t, N::Int(n))
}
pub fn decimal(r: &mut Rng, long: bool) -> E {
    let a = if r.chance(1, 4) { "0".into() } else { integer_text(r, long) };
    let k = if long && r.chance(1, 3) { r.range(1, 200) } else { r.range(1, 6) };
    let k = match r.below(20) {
        0 => r.range(5, 90),
        1..=3 => r.range(3, 24),
        _ => k,
    };
    let b = match r.below(6) {
        5 => format!("{}{}", "0".repeat(k), { let n = r.range(1, 20); digits(r, n) }),
        0 => "0".repeat(k),
        1 => format!("{}{}", "0".repeat(k), r.range(1, 9)),
        2 => format!("{}{}", r.range(1, 9), "0".repeat(k)),
        _ => digits(r, k),
    };
    let t = format!("{}.{}", a, b);
    let d = dec(&t);
    E::Atom(t, N::Dec(d))
}
pub fn byte(r: &mut Rng, long: bool) -> E {
    let (c, radix) = *r.pick(&[("b", 2u32), ("o", 8), ("x", 16), ("B", 2), ("O", 8), ("X", 16)]);
    let n = if long && r.chance(1, 3) { r.range(1, 150) } else { r.range(1, 8) };
    let n = if long && !cfg!(miri) && r.chance(1, 60) { r.range(150, 2500) } else { n };
    let set: &[u8] = match radix {
        2 => b"01",
        8 => b"01234567",
        _ => b"0123456789abcdefABCDEF",
    };
    let mut t = format!("0{}", c);
    let mut plain = String::new();
    let sep = r.below(3);
    for _ in 0..n {
        if sep > 0 && r.chance(sep, 4) {
            t.push('_');
        }
        let d = *r.pick(set) as char;
        t.push(d);
        plain.push(d);
    }
    // digit by digit, independently of the library's own radix conversion
    let mut v = BigInt::from(0);
    for ch in plain.chars() {
        v = v * radix + ch.to_digit(16).unwrap();
    }
    E::Atom(t, N::Int(v))
}
const STRCH: &[&str] = &["a", "b", "Z", " ", "  ", "0", "1", "é", "中", "𝒳", "\u{301}", "ß", "\n", "\t", ",", ";", ":", "(", ")", "[", "]", "{", "}", "//", "/// x", "%%%", "+", "-", "*", "'", "#", "_", "\u{200d}", "\u{feff}", "\u{0}", "null", "true", "→", "🎉", "👩‍👩‍👧", "\r\n"];
pub fn string(r: &mut Rng, plain: bool) -> E {
    let n = r.below(9);
    let n = size(r, n, 5000);
    let words: &[&str] = if plain { &["a", "b", "Z", " ", "0", "17", "é", "中", "𝒳", "ok", ",", ";", "→"] } else { STRCH };
    let mut s = String::new();
    if let Some(n) = huge(r, 1000) {
        s += r.pick(words);
        s += &r.pick(&["a", " ", "é", "中", "0", "\n", "ab ", "𝒳"]).repeat(n);
    }
    for _ in 0..n {
        if let Some(t) = known_fragment(r) {
            s += &t;
        }
        s += r.pick(words);
        if !plain && r.chance(1, 12) {
            s += r.pick(&["\\\"", "\\\\", "\\\\\\\""]);
        }
    }
    E::Atom(format!("\"{}\"", s), N::Str(s))
}
pub fn block_string(r: &mut Rng) -> E {
    let extra = *r.pick(&[0usize, 0, 0, 1, 1, 2, 3]);
    let n = r.range(1, 9);
    let n = size(r, n, 2100);
    let mut s = String::new();
    if r.chance(1, 10) {
        s += r.pick(&["\r\n", "\n", "\r", "\n\n", "\r\n\r\n", "\t\n", " \n", "\u{2028}", "\u{85}"]);
    }
    for k in 0..n {
        if let Some(t) = known_fragment(r) {
            s += &t;
        }
        s += r.pick(STRCH);
        if r.chance(1, 3) && k + 1 < n {
            // runs of quotes shorter than the delimiter
            s += &"\"".repeat(r.below(extra + 3));
            s += r.pick(&["q", " ", "\n", "é"]);
        }
        if r.chance(1, 10) {
            s.push('\\');
            s.push('n');
        }
    }
    let q = "\"".repeat(3 + extra);
    E::Atom(format!("{}{}{}", q, s, q), N::Str(s))
}
pub fn boolean(r: &mut Rng) -> E {
    if r.chance(1, 2) { E::Atom("true".into(), N::Bool(true)) } else { E::Atom("false".into(), N::Bool(false)) }
}
pub fn null() -> E {
    E::Atom("null".into(), N::Sym("Null".into()))
}
pub fn symbol(r: &mut Rng, m: &Mix) -> E {
    let n = if r.chance(1, 12) {
        let k = r.range(2, 4);
        let k = size(r, k, 70);
        (0..k).map(|_| name(r, m)).collect::<Vec<_>>().join("::")
    }
    else {
        name(r, m)
    };
    E::Atom(n.clone(), N::Sym(n))
}
fn slot(r: &mut Rng) -> E {
    let (k, n, text, arg): (char, &str, String, Option<N>) = match r.below(7) {
        0 => ('n', "slot", "#".into(), None),
        1 => {
            let i = r.below(12);
            ('n', "slot", format!("#{}", i), Some(N::Int(i.into())))
        }
        2 => {
            let s = if r.chance(1, 3) { known_name(r) } else { r.pick(NAMES).to_string() };
            ('n', "slot", format!("#{}", s), Some(N::Str(s)))
        }
        3 => ('n', "slot_sequence", "##".into(), None),
        4 => {
            let i = r.range(1, 30);
            ('n', "slot_sequence", format!("##{}", i), Some(N::Int(i.into())))
        }
        _ => {
            let out = r.chance(1, 2);
            let c = if out { "⁋" } else { "¶" };
            let n = if out { "output" } else { "input" };
            if r.chance(1, 2) {
                let i = r.range(1, 40);
                ('n', n, format!("{}{}", c, i), Some(N::Int(i.into())))
            }
            else {
                let k = r.range(1, 4);
                let k = huge(r, 300).unwrap_or_else(|| size(r, k, 400));
                ('n', n, c.repeat(k), Some(N::Int(-BigInt::from(k))))
            }
        }
    };
    E::Atom(text, fun(k, n, arg.into_iter().collect(), Pos::None))
}

fn is_int(e: &E) -> bool {
    matches!(e, E::Atom(t, N::Int(_)) if !t.starts_with("0x") && !t.starts_with("0X") && t.chars().all(|c| c.is_ascii_digit()))
}

pub fn atom(r: &mut Rng, m: &Mix) -> E {
    match r.below(20) {
        0..=5 => integer(r, r.clone().chance(1, 15)),
        6 if m.decimals => decimal(r, false),
        7 if m.bytes => byte(r, false),
        8 => boolean(r),
        9 if m.nulls => null(),
        10 if m.strings => string(r, true),
        11 if m.strings => if r.chance(1, 3) { block_string(r) } else { string(r, false) },
        12 if m.slots => slot(r),
        _ => symbol(r, m),
    }
}

/// a name space of one to eight names
pub fn path(r: &mut Rng, m: &Mix) -> String {
    let k = if r.chance(2, 3) { 1 } else { r.range(2, 8) };
    (0..k).map(|_| if m.unicode && r.chance(1, 8) { r.pick(UNAMES).to_string() } else { r.pick(NAMES).to_string() }).collect::<Vec<_>>().join("::")
}

pub fn call(r: &mut Rng, m: &Mix, budget: usize, depth: usize) -> E {
    let n = if m.unicode && r.chance(1, 15) { r.pick(UNAMES).to_string() } else if r.chance(1, 5) { known_name(r) } else { r.pick(FNAMES).to_string() };
    let n = if r.chance(1, 14) { format!("{}::{}", path(r, m), n) } else { n };
    let groups = if m.curried && r.chance(1, 5) { r.range(2, 4) } else { 1 };
    let groups = if m.curried { size(r, groups, 40) } else { groups };
    let mut gs = vec![];
    for _ in 0..groups {
        let k = *r.pick(&[0usize, 1, 1, 1, 2, 2, 3, 4]);
        let k = size(r, k, 300);
        let mut v = vec![];
        for _ in 0..k {
            let e = expr(r, m, budget / (k + 1), depth + 1);
            if m.options && r.chance(1, 5) {
                v.push(Arg::Kw(name(r, m), e))
            }
            else {
                v.push(Arg::Pos(e))
            }
        }
        gs.push(v);
    }
    E::Call(n, gs)
}

pub fn expr(r: &mut Rng, m: &Mix, budget: usize, depth: usize) -> E {
    if budget <= 1 || depth > 9 {
        return atom(r, m);
    }
    let deep = depth >= 4;
    match r.below(20) {
        0..=7 => {
            let op = if m.rare_ops && r.chance(1, 4) { *r.pick(RARE) } else { *r.pick(OPS) };
            let l = r.range(1, budget - 1);
            let a = expr(r, m, l, depth + 1);
            let b = expr(r, m, budget - l, depth + 1);
            E::Bin(op, Box::new(a), Box::new(b))
        }
        8 | 9 if m.affix => E::Pre(r.clone().pick(PRES), { r.next(); Box::new(expr(r, m, budget - 1, depth + 1)) }),
        10 | 11 if m.affix => E::Suf(if r.chance(1, 3) { "!!" } else { "!" }, Box::new(expr(r, m, budget - 1, depth + 1))),
        12 | 13 if m.calls && !deep => call(r, m, budget, depth),
        14 if m.juxt => {
            let k = r.range(2, 4);
            let k = size(r, k, 130);
            let v = (0..k)
                .map(|i| match r.below(6) {
                    0 | 1 => integer(r, false),
                    2 if m.decimals => decimal(r, false),
                    3 if m.bytes => byte(r, false),
                    4 if i > 0 && m.calls && !deep => call(r, m, budget / 3, depth + 1),
                    _ => symbol(r, m),
                })
                .collect();
            E::Juxt(v)
        }
        15 if m.members => {
            let l = expr(r, m, budget - 1, depth + 1);
            let b = match r.below(4) {
                0 => integer(r, false),
                1 | 2 if m.calls && !deep => call(r, m, budget / 3, depth + 1),
                _ => symbol(r, m),
            };
            let l = if is_int(&b) && ends_with_integer(&l) { E::Paren(Box::new(l)) } else { l };
            E::Member(Box::new(l), Box::new(b))
        }
        16 if m.lists && !deep => {
            let k = r.below(4);
            let k = size(r, k, 600);
            let k = huge(r, 6000).map(|_| r.range(600, 1500)).unwrap_or(k);
            E::List((0..k).map(|_| expr(r, m, budget / (k + 1), depth + 1)).collect())
        }
        17 if m.indexes && !deep => {
            let k = r.range(1, 3);
            let k = size(r, k, 70);
            let base = expr(r, m, budget / 2, depth + 1);
            let sub = |r: &mut Rng| expr(r, m, budget / (2 * k + 2), depth + 1);
            let ix = (0..k)
                .map(|_| {
                    if r.chance(1, 2) {
                        Ix::One(sub(r))
                    }
                    else {
                        let a = if r.chance(2, 3) { Some(sub(r)) } else { None };
                        let b = if r.chance(2, 3) { Some(sub(r)) } else { None };
                        let c = if r.chance(1, 2) { Some(if r.chance(2, 3) { Some(sub(r)) } else { None }) } else { None };
                        Ix::Span(a, b, c)
                    }
                })
                .collect();
            E::Index(Box::new(base), ix)
        }
        18 => E::Paren(Box::new(expr(r, m, budget - 1, depth + 1))),
        _ => {
            let op = *r.pick(OPS);
            let a = expr(r, m, budget / 2, depth + 1);
            let b = expr(r, m, budget / 2, depth + 1);
            E::Bin(op, Box::new(a), Box::new(b))
        }
    }
}

/// an integer literal last (a `.` and digits after it would make a decimal)
fn ends_with_integer(e: &E) -> bool {
    match e {
        E::Atom(..) => is_int(e),
        E::Juxt(v) => ends_with_integer(v.last().unwrap()),
        E::Pre(_, x) | E::Bin(_, _, x) | E::Member(_, x) => ends_with_integer(x),
        _ => false,
    }
}

// ------------------------------------------------------------------ meaning and rendering

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Gap {
    /// nothing may stand here
    None,
    /// blanks, no line break
    Inline,
    /// at least one blank, no line break
    InlineSep,
    /// any layout
    Free,
    /// any layout, but something
    FreeSep,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub text: String,
    pub gap: Gap,
}

/// what the printer may vary without changing the expression
#[derive(Clone)]
pub struct Style {
    pub parens: usize,
    pub commas: bool,
    pub wide: bool,
}
pub const PLAIN: Style = Style { parens: 0, commas: false, wide: false };

pub struct Out<'a> {
    pub toks: Vec<Tok>,
    pub exprs: Vec<(usize, usize)>,
    r: &'a mut Rng,
    st: Style,
    next: Gap,
}

/// the tokens and the tree of an expression
pub fn render(e: &E, r: &mut Rng, st: Style) -> (Vec<Tok>, N, Vec<(usize, usize)>) {
    let mut o = Out { toks: vec![], exprs: vec![], r, st, next: Gap::Free };
    let n = o.whole(e);
    if o.st.commas && o.r.chance(1, 4) {
        o.next = Gap::Free;
        let t = if o.st.wide && o.r.chance(1, 3) { "；" } else { ";" };
        o.tok(t);
    }
    (o.toks, n, o.exprs)
}

/// several expressions, one after the other
pub fn render_all(es: &[E], r: &mut Rng, st: Style) -> (Vec<Tok>, N, Vec<(usize, usize)>) {
    if es.len() == 1 {
        return render(&es[0], r, st);
    }
    let mut o = Out { toks: vec![], exprs: vec![], r, st, next: Gap::Free };
    let mut ns = vec![];
    for (k, e) in es.iter().enumerate() {
        if k > 0 {
            o.gap(Gap::Free);
            let t = if o.st.wide && o.r.chance(1, 3) { "；" } else { ";" };
            o.tok(t);
            o.gap(Gap::Free);
        }
        ns.push(o.whole(e));
    }
    if o.st.commas && o.r.chance(1, 4) {
        o.gap(Gap::Free);
        o.tok(";");
    }
    (o.toks, N::Prog(ns), o.exprs)
}
/// one expression most of the time, else several
pub fn exprs(r: &mut Rng, m: &Mix, budget: usize) -> Vec<E> {
    let k = if r.chance(1, 7) { r.range(2, 4) } else { 1 };
    let k = size(r, k, 260);
    (0..k).map(|_| expr(r, m, (budget / k).max(1), 0)).collect()
}

fn eff(e: &E) -> u32 {
    match e {
        E::Bin(op, ..) => prec(op),
        E::Member(..) => MEMBER,
        E::Suf(_, x) | E::Index(x, _) if eff(x) == MEMBER => MEMBER,
        _ => TERM,
    }
}

impl Out<'_> {
    fn tok(&mut self, s: &str) {
        let gap = std::mem::replace(&mut self.next, Gap::None);
        self.toks.push(Tok { text: s.to_string(), gap });
    }
    fn gap(&mut self, g: Gap) {
        self.next = g;
    }
    fn comma(&mut self) {
        self.gap(Gap::Free);
        let t = if self.st.wide && self.r.chance(1, 4) { "，" } else { "," };
        self.tok(t);
        self.gap(Gap::Free);
    }
    fn colon(&mut self) {
        let t = if self.st.wide && self.r.chance(1, 4) { "：" } else { ":" };
        self.tok(t);
    }
    /// an expression of its own (top level, argument, inside parentheses)
    fn whole(&mut self, e: &E) -> N {
        let id = self.exprs.len();
        self.exprs.push((0, 0));
        let s = self.toks.len();
        let n = self.operand(e, 0, id);
        self.exprs[id] = (s, self.toks.len() - 1);
        n
    }
    fn paren(&mut self, e: &E) -> N {
        self.tok("(");
        self.gap(Gap::Free);
        let n = self.whole(e);
        self.gap(Gap::Free);
        self.tok(")");
        n
    }
    /// an operand that must bind at least as tightly as `need`, inside expression `id`
    fn operand(&mut self, e: &E, need: u32, id: usize) -> N {
        if eff(e) < need || (self.st.parens > 0 && self.r.chance(self.st.parens, 10)) {
            return self.paren(e);
        }
        match e {
            E::Bin(op, a, b) => {
                let p = prec(op);
                let (l, r) = if right(op) { (p + 1, p) } else { (p, p + 1) };
                let x = self.operand(a, l, id);
                self.gap(Gap::Free);
                self.tok(op);
                self.gap(Gap::Free);
                let y = self.operand(b, r, id);
                fun('i', infix_name(op), vec![x, y], Pos::Expr(id))
            }
            E::Member(a, b) => {
                let x = self.operand(a, MEMBER, id);
                self.gap(Gap::Free);
                self.tok(".");
                self.gap(Gap::Free);
                match &**b {
                    E::Atom(t, N::Sym(s)) => {
                        self.tok(t);
                        fun('n', &local(s), vec![x], Pos::Expr(id))
                    }
                    E::Atom(t, i) => {
                        self.tok(t);
                        fun('n', "index", vec![x, i.clone()], Pos::Expr(id))
                    }
                    c => match self.term(c, id) {
                        N::Fun(k, n, mut gs) => {
                            gs[0].args.insert(0, x);
                            N::Fun(k, n, gs)
                        }
                        _ => unreachable!(),
                    },
                }
            }
            _ => self.term(e, id),
        }
    }
    fn base(&mut self, e: &E, id: usize, bad: bool) -> N {
        // what a suffix or an index is applied to
        let p = bad || matches!(e, E::Bin(..) | E::Pre(..)) || (eff(e) == MEMBER && !matches!(e, E::Member(..) | E::Suf(..) | E::Index(..)));
        if p { self.paren(e) } else { self.operand(e, MEMBER, id) }
    }
    fn term(&mut self, e: &E, id: usize) -> N {
        match e {
            E::Atom(t, n) => {
                let at = self.toks.len();
                self.tok(t);
                match n {
                    N::Fun(k, f, gs) => fun(*k, f, gs[0].args.clone(), Pos::Toks(at, at)),
                    n => n.clone(),
                }
            }
            E::Paren(x) => self.paren(x),
            E::Pre(op, x) => {
                let at = self.toks.len();
                self.tok(op);
                self.gap(Gap::None);
                let n = if eff(x) < TERM || self.st.parens > 0 && self.r.chance(self.st.parens, 10) { self.paren(x) } else { self.term(x, id) };
                fun('p', prefix_name(op), vec![n], Pos::Toks(at, at))
            }
            E::Suf(op, x) => {
                // `a!` followed by another suffix would read as `a!!`
                let merge = matches!(&**x, E::Suf("!", _));
                let n = self.base(x, id, merge);
                self.gap(Gap::None);
                let at = self.toks.len();
                self.tok(op);
                fun('s', suffix_name(op), vec![n], Pos::Toks(at, at))
            }
            E::Index(x, ix) => {
                let n = self.base(x, id, false);
                self.gap(Gap::Inline);
                let at = self.toks.len();
                self.tok("[");
                self.gap(Gap::Free);
                let mut args = vec![n];
                for (i, x) in ix.iter().enumerate() {
                    if i > 0 {
                        self.comma();
                    }
                    args.push(self.index(x));
                }
                self.close("]", true);
                let p = Pos::Toks(at, self.toks.len() - 1);
                fun('n', "Index", args, p)
            }
            E::List(v) => {
                let at = self.toks.len();
                self.tok("[");
                self.gap(Gap::Free);
                let mut args = vec![];
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        self.comma();
                    }
                    args.push(self.whole(x));
                }
                self.close("]", !v.is_empty());
                let p = Pos::Toks(at, self.toks.len() - 1);
                fun('n', "List", args, p)
            }
            E::Call(f, gs) => {
                self.tok(f);
                let mut out = vec![];
                for g in gs {
                    self.gap(Gap::Inline);
                    let at = self.toks.len();
                    self.tok("(");
                    self.gap(Gap::Free);
                    let mut args = vec![];
                    let mut opts: BTreeMap<String, N> = BTreeMap::new();
                    for (i, a) in g.iter().enumerate() {
                        if i > 0 {
                            self.comma();
                        }
                        match a {
                            Arg::Pos(e) => args.push(self.whole(e)),
                            Arg::Kw(k, e) => {
                                self.tok(k);
                                self.gap(Gap::Free);
                                self.colon();
                                self.gap(Gap::Free);
                                let v = self.whole(e);
                                opts.insert(k.clone(), v);
                            }
                        }
                    }
                    self.close(")", !g.is_empty());
                    out.push(G { args, opts: opts.into_iter().collect(), pos: Pos::Toks(at, self.toks.len() - 1) });
                }
                N::Fun('n', local(f), out)
            }
            E::Juxt(v) => {
                let at = self.toks.len();
                let mut args = vec![];
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        let sep = match (&v[i - 1], x) {
                            (E::Call(..), _) => false,
                            (E::Atom(t, N::Int(_)), E::Atom(_, N::Sym(_)) | E::Call(..)) => t == "0" || !t.chars().all(|c| c.is_ascii_digit()),
                            (E::Atom(_, N::Dec(_)), E::Atom(_, N::Sym(_)) | E::Call(..)) => false,
                            _ => true,
                        };
                        self.gap(if sep { Gap::InlineSep } else { Gap::Inline });
                    }
                    args.push(self.term(x, id));
                }
                let p = Pos::Toks(at, self.toks.len() - 1);
                fun('i', "times", args, p)
            }
            E::Bin(..) | E::Member(..) => self.paren(e),
        }
    }
    fn close(&mut self, t: &str, trailing: bool) {
        if trailing && self.st.commas && self.r.chance(1, 6) {
            self.comma();
        }
        self.gap(Gap::Free);
        self.tok(t);
    }
    fn index(&mut self, x: &Ix) -> N {
        match x {
            Ix::One(e) => self.whole(e),
            Ix::Span(a, b, c) => {
                let at = self.toks.len();
                let mut s = N::Int(1.into());
                let mut t = N::Sym("All".into());
                let mut u = N::Int(1.into());
                if let Some(e) = a {
                    s = self.whole(e);
                    self.gap(Gap::Free);
                }
                self.colon();
                self.gap(Gap::Free);
                if let Some(e) = b {
                    t = self.whole(e);
                    self.gap(Gap::Free);
                }
                if let Some(c) = c {
                    if b.is_none() {
                        self.gap(Gap::FreeSep);
                    }
                    self.colon();
                    self.gap(Gap::Free);
                    if let Some(e) = c {
                        u = self.whole(e);
                    }
                }
                let p = Pos::Toks(at, self.toks.len() - 1);
                fun('n', "Span", vec![s, t, u], p)
            }
        }
    }
}

// ------------------------------------------------------------------ layout

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lay {
    /// as little as possible
    Tight,
    /// single blanks
    Blanks,
    /// anything
    Wild,
    /// anything but comments
    Air,
}

/// text and, for every token, its first and one-past-last character
pub fn lay(toks: &[Tok], r: &mut Rng, l: Lay, cr: bool) -> (String, Vec<(usize, usize)>) {
    let mut s = String::new();
    let mut n = 0;
    let mut at = vec![];
    for t in toks {
        n += space(&mut s, r, t.gap, l, cr);
        let a = n;
        s += &t.text;
        n += t.text.chars().count();
        at.push((a, n));
    }
    space(&mut s, r, Gap::Free, l, cr);
    (s, at)
}

fn space(s: &mut String, r: &mut Rng, g: Gap, l: Lay, cr: bool) -> usize {
    const BLANKS: &[&str] = &[" ", " ", "  ", "\t", "\u{a0}", "\u{3000}", "\u{2003}", " \t "];
    const BREAKS: &[&str] = &["\n", "\r\n", "\n\n", " \n ", "\n\t", "\r"];
    const NOTES: &[&str] = &["/// note\n", "//? (x + 1\n", "//! \"quoted\n", "//* é 中\n", "///\n", "/// a /// b\r\n", "//* ; x\n", "//?]}\n"];
    const BLOCKS: &[&str] = &["%%% block %%%", "%%%%%%", "%%% a\nb %%%", "%%% a %%% %%% b %%%", "%%%%%% %%% /// %%%", "%%% /// %%%", "%%% ) ] \" é %%%", "%%%(%%%"];
    let mut o = String::new();
    match (g, l) {
        (Gap::None, _) => (),
        (Gap::Inline | Gap::Free, Lay::Tight) => (),
        (Gap::InlineSep | Gap::FreeSep, Lay::Tight | Lay::Blanks) => o.push(' '),
        (Gap::Inline, Lay::Blanks) => (),
        (Gap::Free, Lay::Blanks) => {
            if r.chance(3, 4) {
                o.push(' ')
            }
        }
        (Gap::Inline | Gap::InlineSep, _) => {
            if g == Gap::InlineSep || r.chance(1, 2) {
                for _ in 0..r.range(1, 3) {
                    o += r.pick(BLANKS);
                }
            }
        }
        (Gap::Free | Gap::FreeSep, _) => {
            let k = *r.pick(&[0, 0, 1, 1, 1, 2, 3]);
            let k = if g == Gap::FreeSep { k.max(1) } else { k };
            for _ in 0..k {
                match r.below(6) {
                    0 | 1 => {
                        let n = if cr { BREAKS.len() } else { BREAKS.len() - 1 };
                        o += BREAKS[r.below(n)]
                    }
                    2 if l == Lay::Wild => {
                        // a comment keeps its distance from operators it could merge with
                        o.push(' ');
                        if r.chance(1, 2) {
                            o += r.pick(BLOCKS);
                        }
                        else if r.chance(1, 8) {
                            o += "//! %%%\n";
                        }
                        else if cr && r.chance(1, 5) {
                            o += r.pick(NOTES).trim_end_matches(&['\r', '\n'][..]);
                            o.push('\r');
                        }
                        else {
                            o += r.pick(NOTES);
                        }
                        o.push(' ');
                    }
                    _ => o += r.pick(BLANKS),
                }
            }
            if let Some(n) = huge(r, 40000) {
                // a very long line, very many lines, or a long comment
                o += &match r.below(if l == Lay::Wild { 6 } else { 4 }) {
                    0 => " ".repeat(n),
                    1 => "\n".repeat(n),
                    2 => "\u{3000}".repeat(n),
                    3 => " \n".repeat(n / 2),
                    4 => format!(" ///{}\n ", "note é ".repeat(n / 7)),
                    _ => format!(" %%%{}%%% ", " 中\n".repeat(n / 3)),
                };
            }
        }
    }
    *s += &o;
    o.chars().count()
}
