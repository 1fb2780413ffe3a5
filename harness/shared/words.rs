//! The literals of the source under test (see vlib/words.py): steering for the generators, nothing else.
use std::sync::OnceLock;

#[derive(Default)]
pub struct Pool<T> {
    /// not in the baseline
    pub new: Vec<T>,
    pub all: Vec<T>,
}
#[derive(Default)]
pub struct Words {
    pub names: Pool<String>,
    /// decimal digits
    pub nums: Pool<String>,
    pub strs: Pool<String>,
}

fn unhex(s: &str) -> Option<String> {
    let b: Option<Vec<u8>> = (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect();
    String::from_utf8(b?).ok()
}

pub fn words() -> &'static Words {
    static W: OnceLock<Words> = OnceLock::new();
    W.get_or_init(|| {
        let mut w = Words::default();
        let text = std::env::var("VERIF_WORDS").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        for l in text.lines() {
            let (Some(k), Some(x)) = (l.chars().next(), l.get(2..).and_then(unhex)) else { continue };
            let p = match k.to_ascii_lowercase() {
                'w' => &mut w.names,
                'n' => &mut w.nums,
                _ => &mut w.strs,
            };
            if k.is_ascii_uppercase() {
                p.new.push(x.clone());
            }
            p.all.push(x);
        }
        w
    })
}

impl<T> Pool<T> {
    /// `below(n)` draws uniformly from 0..n
    pub fn draw(&self, mut below: impl FnMut(usize) -> usize) -> Option<&T> {
        if !self.new.is_empty() && below(3) > 0 {
            let i = below(self.new.len());
            return Some(&self.new[i]);
        }
        if self.all.is_empty() {
            return None;
        }
        let i = below(self.all.len());
        Some(&self.all[i])
    }
}
