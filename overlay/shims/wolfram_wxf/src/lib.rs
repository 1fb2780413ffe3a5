//! Offline stand-in for the `wolfram_wxf` crate (not in the sandbox's cargo cache).
//! The data type and the textual form are what sm_ast (and its test-suite) use; the
//! byte form is this stand-in's own unambiguous encoding, not the WXF wire format.
use num::BigInt;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum WolframValue {
    Skip,
    Function(Box<WolframValue>, Vec<WolframValue>),
    String(Box<str>),
    Bytes(Box<[u8]>),
    Symbol(Box<str>),
    Integer8(i8),
    Integer16(i16),
    Integer32(i32),
    Integer64(i64),
    Decimal64([u8; 8]),
    BigInteger(BigInt),
    BigDecimal(Box<str>),
    Rule,
    Association(BTreeMap<WolframValue, (WolframValue, WolframValue)>),
}

pub trait ToWolfram {
    fn to_wolfram(&self) -> WolframValue;
    fn to_wolfram_string(&self) -> String {
        self.to_wolfram().to_string()
    }
    fn to_wolfram_bytes(&self) -> Vec<u8> {
        self.to_wolfram().to_bytes()
    }
}

impl WolframValue {
    pub fn new_symbol(s: &str) -> WolframValue {
        WolframValue::Symbol(Box::from(s))
    }
    pub fn symbol(s: impl AsRef<str>) -> WolframValue {
        WolframValue::Symbol(Box::from(s.as_ref()))
    }
    pub fn string(s: impl AsRef<str>) -> WolframValue {
        WolframValue::String(Box::from(s.as_ref()))
    }
    pub fn function(name: &str, args: Vec<impl ToWolfram>) -> WolframValue {
        let v = args.iter().map(|e| e.to_wolfram()).collect();
        WolframValue::Function(Box::new(WolframValue::symbol(name)), v)
    }
    pub fn list(args: Vec<impl ToWolfram>) -> WolframValue {
        WolframValue::function("List", args)
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut out = b"8:".to_vec();
        self.write(&mut out);
        out
    }
    fn write(&self, out: &mut Vec<u8>) {
        fn blob(out: &mut Vec<u8>, tag: u8, b: &[u8]) {
            out.push(tag);
            out.extend_from_slice(&(b.len() as u64).to_le_bytes());
            out.extend_from_slice(b);
        }
        match self {
            WolframValue::Skip => out.push(b'0'),
            WolframValue::Function(h, a) => {
                out.push(b'f');
                out.extend_from_slice(&(a.len() as u64).to_le_bytes());
                h.write(out);
                a.iter().for_each(|e| e.write(out));
            }
            WolframValue::String(s) => blob(out, b'S', s.as_bytes()),
            WolframValue::Bytes(s) => blob(out, b'B', s),
            WolframValue::Symbol(s) => blob(out, b's', s.as_bytes()),
            WolframValue::Integer8(i) => blob(out, b'I', i.to_string().as_bytes()),
            WolframValue::Integer16(i) => blob(out, b'I', i.to_string().as_bytes()),
            WolframValue::Integer32(i) => blob(out, b'I', i.to_string().as_bytes()),
            WolframValue::Integer64(i) => blob(out, b'I', i.to_string().as_bytes()),
            WolframValue::Decimal64(b) => blob(out, b'r', b),
            WolframValue::BigInteger(i) => blob(out, b'I', i.to_string().as_bytes()),
            WolframValue::BigDecimal(s) => blob(out, b'R', s.as_bytes()),
            WolframValue::Rule => out.push(b'-'),
            WolframValue::Association(m) => {
                out.push(b'A');
                out.extend_from_slice(&(m.len() as u64).to_le_bytes());
                for (k, (r, v)) in m {
                    r.write(out);
                    k.write(out);
                    v.write(out);
                }
            }
        }
    }
}

impl std::fmt::Display for WolframValue {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let join = |a: &[WolframValue]| a.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(",");
        match self {
            WolframValue::Skip => Ok(()),
            WolframValue::Function(h, a) => match &**h {
                WolframValue::Symbol(s) if &**s == "List" => write!(f, "{{{}}}", join(a)),
                h => write!(f, "{}[{}]", h, join(a)),
            },
            WolframValue::String(s) => write!(f, "\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"")),
            WolframValue::Bytes(b) => write!(f, "ByteArray[{:?}]", b),
            WolframValue::Symbol(s) => write!(f, "{}", s),
            WolframValue::Integer8(i) => write!(f, "{}", i),
            WolframValue::Integer16(i) => write!(f, "{}", i),
            WolframValue::Integer32(i) => write!(f, "{}", i),
            WolframValue::Integer64(i) => write!(f, "{}", i),
            WolframValue::Decimal64(b) => write!(f, "{}", f64::from_le_bytes(*b)),
            WolframValue::BigInteger(i) => write!(f, "{}", i),
            WolframValue::BigDecimal(s) => write!(f, "{}", s),
            WolframValue::Rule => write!(f, "Rule"),
            WolframValue::Association(m) => {
                let v = m.iter().map(|(k, (_, v))| format!("{}->{}", k, v)).collect::<Vec<_>>();
                write!(f, "<|{}|>", v.join(","))
            }
        }
    }
}

impl ToWolfram for WolframValue {
    fn to_wolfram(&self) -> WolframValue {
        self.clone()
    }
}
impl ToWolfram for bool {
    fn to_wolfram(&self) -> WolframValue {
        WolframValue::symbol(if *self { "True" } else { "False" })
    }
}
impl ToWolfram for String {
    fn to_wolfram(&self) -> WolframValue {
        WolframValue::string(self)
    }
}
impl ToWolfram for &str {
    fn to_wolfram(&self) -> WolframValue {
        WolframValue::string(self)
    }
}
impl ToWolfram for BigInt {
    fn to_wolfram(&self) -> WolframValue {
        WolframValue::BigInteger(self.clone())
    }
}
impl<T: ToWolfram> ToWolfram for Vec<T> {
    fn to_wolfram(&self) -> WolframValue {
        WolframValue::Function(Box::new(WolframValue::symbol("List")), self.iter().map(|e| e.to_wolfram()).collect())
    }
}
