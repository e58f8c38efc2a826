// Driver for generated Rust code: lines of message type and hexadecimal bytes come in,
// what the generated code makes of them goes out. registry.rs, which renders the fields
// of every message, is written by the checker.
#![allow(dead_code, unused_imports, unused_variables, unused_mut, non_camel_case_types, non_snake_case, clippy::all)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, Cursor, Write};
use std::sync::atomic::{AtomicUsize, Ordering};

mod registry;

struct Counting;
static LARGEST: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LARGEST.fetch_max(l.size(), Ordering::Relaxed);
        TOTAL.fetch_add(l.size(), Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LARGEST.fetch_max(n, Ordering::Relaxed);
        TOTAL.fetch_add(n, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        write!(s, "{:02x}", x).unwrap();
    }
    s
}

pub trait Dump {
    fn dump(&self, w: &mut String);
}
macro_rules! plain {
    ($($t:ty),*) => { $(impl Dump for $t { fn dump(&self, w: &mut String) { write!(w, "{}", self).unwrap(); } })* };
}
plain!(bool, u32, u64, i32, i64);
impl Dump for f32 {
    fn dump(&self, w: &mut String) {
        write!(w, "f{:08x}", self.to_bits()).unwrap();
    }
}
impl Dump for f64 {
    fn dump(&self, w: &mut String) {
        write!(w, "f{:016x}", self.to_bits()).unwrap();
    }
}
impl Dump for String {
    fn dump(&self, w: &mut String) {
        w.push('s');
        w.push_str(&hex(self.as_bytes()));
    }
}
impl Dump for Vec<u8> {
    fn dump(&self, w: &mut String) {
        w.push('b');
        w.push_str(&hex(self));
    }
}
// u8 itself is no field type, so that lists and byte strings do not clash.
pub trait Item: Dump {}
impl<T: Item> Dump for Vec<T> {
    fn dump(&self, w: &mut String) {
        w.push('[');
        for (i, x) in self.iter().enumerate() {
            if i > 0 {
                w.push(',');
            }
            x.dump(w);
        }
        w.push(']');
    }
}
impl Item for bool {}
impl Item for u32 {}
impl Item for u64 {}
impl Item for i32 {}
impl Item for i64 {}
impl Item for f32 {}
impl Item for f64 {}
impl Item for String {}
impl Item for Vec<u8> {}
impl<K: Dump, V: Dump> Dump for HashMap<K, V> {
    fn dump(&self, w: &mut String) {
        let mut ls: Vec<String> = self
            .iter()
            .map(|(k, v)| {
                let mut e = String::new();
                k.dump(&mut e);
                e.push(':');
                v.dump(&mut e);
                e
            })
            .collect();
        ls.sort();
        w.push('<');
        w.push_str(&ls.join(","));
        w.push('>');
    }
}

#[macro_export]
macro_rules! message {
    ($m:ident, $t:ident, [$($f:ident),*]) => {
        impl $crate::Dump for $crate::registry::$m::$t {
            fn dump(&self, w: &mut String) {
                let mut first = true;
                w.push('{');
                $(
                    if !first { w.push(','); }
                    first = false;
                    self.$f.dump(w);
                )*
                w.push('}');
            }
        }
        impl $crate::Item for $crate::registry::$m::$t {}
    };
}

#[macro_export]
macro_rules! enumeration {
    ($m:ident, $t:ident) => {
        impl $crate::Dump for $crate::registry::$m::$t {
            fn dump(&self, w: &mut String) {
                (*self as u32).dump(w)
            }
        }
        impl $crate::Item for $crate::registry::$m::$t {}
    };
}

pub enum Outcome {
    None,
    Error(String),
    Message(String, Result<Vec<u8>, String>),
}

#[macro_export]
macro_rules! run {
    ($m:ident, $t:ident, $b:expr, $full:expr) => {{
        use $crate::registry::$m::{Decode, Encode};
        match <$crate::registry::$m::$t as Decode>::decode($b) {
            Err(e) => $crate::Outcome::Error(e.to_string()),
            Ok(None) => $crate::Outcome::None,
            Ok(Some(m)) => {
                let mut s = String::new();
                let mut r = Ok(Vec::new());
                if $full {
                    $crate::Dump::dump(&m, &mut s);
                    let mut c = Cursor::new(Vec::new());
                    let e = m.encode(&mut c).map(|_| ()).map_err(|e| e.to_string());
                    r = e.map(|_| c.into_inner());
                }
                $crate::Outcome::Message(s, r)
            }
        }
    }};
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn attempt(ty: &str, mut b: Vec<u8>, full: bool) -> (Result<Outcome, String>, u64, usize, usize) {
    let before = b.clone();
    let mut pos = 0;
    LARGEST.store(0, Ordering::Relaxed);
    let t0 = TOTAL.load(Ordering::Relaxed);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut c = Cursor::new(&mut b);
        let o = registry::run(ty, &mut c, full);
        pos = c.position();
        o
    }));
    let total = TOTAL.load(Ordering::Relaxed) - t0;
    let r = r.map_err(|e| e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default().replace('\n', " "));
    (r, pos, LARGEST.load(Ordering::Relaxed), if b == before { total } else { usize::MAX })
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::BufWriter::with_capacity(1 << 20, std::io::stdout());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let f: Vec<&str> = line.split('\t').collect();
        let b = unhex(f[2]);
        match f[0] {
            // one message: everything about it
            "m" => {
                let (r, pos, _, total) = attempt(f[1], b, true);
                if total == usize::MAX {
                    write!(out, "changed ").unwrap();
                }
                match r {
                    Err(p) => writeln!(out, "panic {}", p).unwrap(),
                    Ok(Outcome::None) => writeln!(out, "none {}", pos).unwrap(),
                    Ok(Outcome::Error(e)) => writeln!(out, "error {}", e.replace('\n', " ")).unwrap(),
                    Ok(Outcome::Message(s, Ok(e))) => writeln!(out, "ok\t{}\t{}\t{}", s, hex(&e), pos).unwrap(),
                    Ok(Outcome::Message(s, Err(e))) => writeln!(out, "encode-error {}", e).unwrap(),
                }
            }
            // all prefixes (p) or listed inputs (i): only whether each is accepted
            "p" | "i" => {
                let inputs: Vec<Vec<u8>> = if f[0] == "p" { (0..b.len()).map(|n| b[..n].to_vec()).collect() } else { f[2..].iter().map(|s| unhex(s)).collect() };
                let mut s = String::new();
                for x in inputs {
                    let n = x.len();
                    let (r, pos, largest, total) = attempt(f[1], x, false);
                    s.push(match r {
                        Err(_) => 'P',
                        Ok(Outcome::None) => 'N',
                        Ok(Outcome::Error(_)) => 'e',
                        Ok(_) if pos as usize > n => 'B',
                        Ok(_) => 'A',
                    });
                    if largest > 256 << 10 || total > (256 << 10) + 256 * n {
                        s.pop();
                        s.push(if total == usize::MAX { 'C' } else { 'M' });
                    }
                }
                writeln!(out, "{}", s).unwrap();
            }
            // the numbers of all enum constants
            "e" => {
                let es: Vec<String> = registry::enums().iter().map(|(n, v)| format!("{} [{}]", n, v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "))).collect();
                writeln!(out, "{}", es.join(";")).unwrap();
            }
            _ => panic!("bad request"),
        }
    }
    out.flush().unwrap();
}
