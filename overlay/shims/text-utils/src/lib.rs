//! Offline stand-in for the `text-utils` crate (not in the sandbox's cargo cache).
//! Only what sm_ast uses, with the documented behaviour: upper-case the first character.

pub fn capitalize_first_letter(s: &str) -> String {
    let mut c = s.chars();
    match c.next() {
        None => String::new(),
        Some(f) => f.to_uppercase().collect::<String>() + c.as_str(),
    }
}
