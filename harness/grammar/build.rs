//! Derives a reference recogniser from the published grammar file, with pest's own generator.
use std::{env, fs, path::Path};

/// the grammar without its `//` comments: current generators only admit `//!` and `///` at fixed places
fn strip(src: &str) -> String {
    let mut out = String::new();
    let b: Vec<char> = src.chars().collect();
    let (mut i, mut quote) = (0, None);
    while i < b.len() {
        match quote {
            Some(q) => {
                out.push(b[i]);
                if b[i] == '\\' && i + 1 < b.len() {
                    i += 1;
                    out.push(b[i]);
                }
                else if b[i] == q {
                    quote = None;
                }
            }
            None if b[i] == '/' && b.get(i + 1) == Some(&'/') => {
                while i < b.len() && b[i] != '\n' {
                    i += 1;
                }
                continue;
            }
            None if b[i] == '/' && b.get(i + 1) == Some(&'*') => {
                while i + 1 < b.len() && !(b[i] == '*' && b[i + 1] == '/') {
                    i += 1;
                }
                i += 2;
                continue;
            }
            None => {
                if b[i] == '"' || b[i] == '\'' {
                    quote = Some(b[i]);
                }
                out.push(b[i]);
            }
        }
        i += 1;
    }
    out
}


/// variants of the shipped `enum Rule`, if it can be found
fn shipped_rules() -> Option<Vec<String>> {
    let dir = "/repo/projects/sm-parser/src";
    println!("cargo:rerun-if-changed={}", dir);
    for e in fs::read_dir(dir).ok()? {
        let s = fs::read_to_string(e.ok()?.path()).ok()?;
        if let Some(i) = s.find("pub enum Rule {") {
            let body = &s[i + 15..];
            let body = &body[..body.find('}')?];
            return Some(body.split(',').map(|x| x.trim().trim_start_matches("r#").to_string()).filter(|x| !x.is_empty()).collect());
        }
    }
    None
}

fn main() {
    let file = "/repo/projects/sm-parser/simple-math.pest";
    println!("cargo:rerun-if-changed={}", file);
    let g = strip(&fs::read_to_string(file).unwrap());
    let out = env::var("OUT_DIR").unwrap();
    fs::write(Path::new(&out).join("grammar.pest"), &g).unwrap();
    let t = quote::quote! {
        #[grammar_inline = #g]
        pub struct Derived;
    };
    let code = pest_generator::derive_parser(t, false).to_string();
    let rules: Vec<String> = {
        let pairs = pest_meta::parser::parse(pest_meta::parser::Rule::grammar_rules, &g).unwrap_or_else(|e| panic!("{}", e));
        pest_meta::parser::consume_rules(pairs).unwrap().iter().map(|r| r.name.clone()).collect()
    };
    let shipped = shipped_rules();
    let mut code = format!("pub struct Derived;\n{}\n", code);
    code += "pub fn entries() -> Vec<(&'static str, Rule, Option<sm_parser::Rule>)> { vec![\n";
    for r in &rules {
        let there = shipped.as_ref().map_or(true, |s| s.contains(r));
        let other = if there { format!("Some(sm_parser::Rule::r#{})", r) } else { "None".to_string() };
        code += &format!("  ({:?}, Rule::r#{}, {}),\n", r, r, other);
    }
    code += "] }\n";
    fs::write(Path::new(&out).join("derived.rs"), code).unwrap();
}
