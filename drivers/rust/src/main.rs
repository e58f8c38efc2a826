//! Executes encode and decode traces from the model checker against polyglot_rs.
//! Protocol: see harness/ext.go.
use polyglot_rs::{Decoder, DecodingError, Encoder, Kind};
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{Cursor, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

struct Counting;
static ALLOCATED: AtomicU64 = AtomicU64::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ALLOCATED.fetch_add(l.size() as u64, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        ALLOCATED.fetch_add(l.size() as u64, Ordering::Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        ALLOCATED.fetch_add(n as u64, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

#[global_allocator]
static A: Counting = Counting;

#[derive(Clone)]
struct Op<'a> {
    k: u8,
    a: u8,
    b: u8,
    n: u64,
    d: &'a [u8],
}

struct In<'a> {
    b: &'a [u8],
    p: usize,
}

impl<'a> In<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        r
    }
    fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    fn u16(&mut self) -> u16 {
        u16::from_le_bytes(self.take(2).try_into().unwrap())
    }
    fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.take(4).try_into().unwrap())
    }
    fn u64(&mut self) -> u64 {
        u64::from_le_bytes(self.take(8).try_into().unwrap())
    }
}

fn err_code(e: &DecodingError) -> u8 {
    match e {
        DecodingError::InvalidArray => 1,
        DecodingError::InvalidMap => 2,
        DecodingError::InvalidBytes => 4,
        DecodingError::InvalidString => 5,
        DecodingError::InvalidError => 6,
        DecodingError::InvalidBool => 7,
        DecodingError::InvalidU8 => 8,
        DecodingError::InvalidU16 => 9,
        DecodingError::InvalidU32 => 10,
        DecodingError::InvalidU64 => 11,
        DecodingError::InvalidI32 => 12,
        DecodingError::InvalidI64 => 13,
        DecodingError::InvalidF32 => 14,
        DecodingError::InvalidF64 => 15,
        _ => 0xff,
    }
}

type Val = (u64, Vec<u8>);

fn decode_one<D: Decoder>(c: &mut D, o: &Op) -> Result<Val, u8> {
    let n = |x: u64| (x, Vec::new());
    let r: Result<Val, DecodingError> = match o.k {
        0 => return if c.decode_none() { Ok(n(0)) } else { Err(0) },
        1 => c.decode_array(Kind::from(o.a)).map(|x| n(x as u64)),
        2 => c.decode_map(Kind::from(o.a), Kind::from(o.b)).map(|x| n(x as u64)),
        4 => c.decode_bytes().map(|x| (0, x)),
        5 => c.decode_string().map(|x| (0, x.into_bytes())),
        6 => c.decode_error().map(|x| (0, x.to_string().into_bytes())),
        7 => c.decode_bool().map(|x| n(x as u64)),
        8 => c.decode_u8().map(|x| n(x as u64)),
        9 => c.decode_u16().map(|x| n(x as u64)),
        10 => c.decode_u32().map(|x| n(x as u64)),
        11 => c.decode_u64().map(n),
        12 => c.decode_i32().map(|x| n(x as i64 as u64)),
        13 => c.decode_i64().map(|x| n(x as u64)),
        14 => c.decode_f32().map(|x| n(x.to_bits() as u64)),
        15 => c.decode_f64().map(|x| n(x.to_bits())),
        _ => panic!("driver: op"),
    };
    r.map_err(|e| err_code(&e))
}

fn encode_one(c: &mut Cursor<Vec<u8>>, o: &Op, flip: bool) -> bool {
    let s = || String::from_utf8(o.d.to_vec()).unwrap();
    match o.k {
        0 => c.encode_none(),
        1 => c.encode_array(o.n as usize, Kind::from(o.a)),
        2 => c.encode_map(o.n as usize, Kind::from(o.a), Kind::from(o.b)),
        4 => c.encode_bytes(o.d),
        5 => {
            if flip {
                c.encode_str(&s())
            } else {
                c.encode_string(&s())
            }
        }
        6 => c.encode_error(Box::<dyn std::error::Error>::from(s())),
        7 => c.encode_bool(o.n != 0),
        8 => c.encode_u8(o.n as u8),
        9 => c.encode_u16(o.n as u16),
        10 => c.encode_u32(o.n as u32),
        11 => c.encode_u64(o.n),
        12 => c.encode_i32(o.n as i32),
        13 => c.encode_i64(o.n as i64),
        14 => c.encode_f32(f32::from_bits(o.n as u32)),
        15 => c.encode_f64(f64::from_bits(o.n)),
        _ => panic!("driver: op"),
    }
    .is_ok()
}

fn msg(p: Box<dyn std::any::Any + Send>) -> Vec<u8> {
    let s = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    };
    format!("panic: {s}").into_bytes()
}

fn put_res(out: &mut Vec<u8>, flag: u8, err: u8, n: u64, d: &[u8], rem: u32, alloc: u64) {
    out.push(flag);
    out.push(err);
    out.extend_from_slice(&n.to_le_bytes());
    out.extend_from_slice(&(d.len() as u32).to_le_bytes());
    out.extend_from_slice(d);
    out.extend_from_slice(&rem.to_le_bytes());
    out.extend_from_slice(&alloc.to_le_bytes());
}

/// One encoder and what it has to write.
struct Enc<'a> {
    ops: Vec<Op<'a>>,
    next: usize,
    c: Cursor<Vec<u8>>,
    at: usize,
    before: usize,
    fail: Option<Vec<u8>>,
    flip: bool,
}

impl<'a> Enc<'a> {
    fn new(i: &mut In<'a>, flip: bool) -> Self {
        let bk = i.u8();
        let bn = i.u32() as usize;
        let _cap = i.u32();
        let nops = i.u16();
        let mut ops = Vec::with_capacity(nops as usize);
        for _ in 0..nops {
            let (k, a, b, n) = (i.u8(), i.u8(), i.u8(), i.u64());
            let dl = i.u32() as usize;
            ops.push(Op { k, a, b, n, d: i.take(dl) });
        }
        // Position and earlier contents of the cursor: they stay as they are.
        let (v, at): (Vec<u8>, usize) = match bk {
            0 => (Vec::new(), 0),
            1 => (Vec::with_capacity(bn), 0),
            13 => (vec![0xEE; bn], 0),
            14 => (vec![0xEE; bn], bn / 2),
            15 => (vec![0xEE; bn], bn),
            _ => {
                let mut v = vec![0xEEu8; bn];
                v.clear();
                (v, 0)
            }
        };
        let before = v.len();
        let mut c = Cursor::new(v);
        c.set_position(at as u64);
        Enc { ops, next: 0, c, at, before, fail: None, flip }
    }
    fn step(&mut self) {
        if self.next == self.ops.len() {
            return;
        }
        let o = self.ops[self.next].clone();
        self.next += 1;
        if self.fail.is_some() {
            return;
        }
        let (c, flip) = (&mut self.c, self.flip);
        match catch_unwind(AssertUnwindSafe(|| encode_one(c, &o, flip))) {
            Ok(true) => {}
            Ok(false) => self.fail = Some(b"encode returned an error".to_vec()),
            Err(p) => self.fail = Some(msg(p)),
        }
    }
    fn answer(self, out: &mut Vec<u8>) {
        let Enc { c, at, before, mut fail, .. } = self;
        let end = c.position() as usize;
        let mut v = c.into_inner();
        if fail.is_none() {
            if v.len() != end.max(before) {
                fail = Some(b"panic: cursor not at the end after encoding".to_vec());
            } else if v[..at].iter().chain(&v[end..]).any(|x| *x != 0xEE) {
                fail = Some(b"panic: bytes around what was encoded changed".to_vec());
            }
        }
        let (f, d) = match fail {
            Some(d) => (1u8, d),
            None => {
                v.truncate(end);
                (0, v.split_off(at))
            }
        };
        out.push(f);
        out.extend_from_slice(&(d.len() as u32).to_le_bytes());
        out.extend_from_slice(&d);
    }
}

/// One decoder and what it is asked for.
struct Dec<'a> {
    ops: Vec<Op<'a>>,
    next: usize,
    len: usize,
    owned: Cursor<Vec<u8>>,
    borrowed: Cursor<&'a [u8]>,
    out: Vec<u8>,
    done: u16,
    dead: bool,
    flip: bool,
}

impl<'a> Dec<'a> {
    fn new(i: &mut In<'a>, flip: bool) -> Self {
        let n = i.u32() as usize;
        let data = i.take(n);
        let nops = i.u16();
        let mut ops = Vec::with_capacity(nops as usize);
        for _ in 0..nops {
            let (k, a, b) = (i.u8(), i.u8(), i.u8());
            ops.push(Op { k, a, b, n: 0, d: &[] });
        }
        let owned = Cursor::new(data.to_vec());
        Dec { ops, next: 0, len: n, owned, borrowed: Cursor::new(data), out: Vec::new(), done: 0, dead: false, flip }
    }
    fn step(&mut self) {
        if self.next == self.ops.len() {
            return;
        }
        let o = self.ops[self.next].clone();
        self.next += 1;
        if self.dead {
            return;
        }
        let (owned, borrowed, flip) = (&mut self.owned, &mut self.borrowed, self.flip);
        let before = ALLOCATED.load(Ordering::Relaxed);
        let r = catch_unwind(AssertUnwindSafe(|| {
            if flip {
                decode_one(owned, &o)
            } else {
                decode_one(borrowed, &o)
            }
        }));
        let alloc = ALLOCATED.load(Ordering::Relaxed) - before;
        let pos = if flip { self.owned.position() } else { self.borrowed.position() };
        let rem = (self.len as i64 - pos as i64) as u32;
        self.done += 1;
        match r {
            Ok(Ok((n, d))) => put_res(&mut self.out, 0, 0, n, &d, rem, alloc),
            Ok(Err(e)) => put_res(&mut self.out, 1, e, 0, &[], rem, alloc),
            Err(p) => {
                put_res(&mut self.out, 2, 0xff, 0, &msg(p), rem, alloc);
                self.dead = true;
            }
        }
    }
    fn answer(self, out: &mut Vec<u8>) {
        out.extend_from_slice(&self.done.to_le_bytes());
        out.extend_from_slice(&self.out);
    }
}

enum Obj<'a> {
    E(Enc<'a>),
    D(Dec<'a>),
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // The variant (first argument) picks the equivalent API forms: str vs String,
    // owned vs borrowed cursor.
    let flip = std::env::args().nth(1).as_deref() == Some("b");
    let mut stdin = std::io::stdin().lock();
    let mut stdout = std::io::stdout().lock();
    loop {
        let mut h = [0u8; 8];
        if stdin.read_exact(&mut h).is_err() {
            return;
        }
        let len = u32::from_le_bytes(h[..4].try_into().unwrap()) as usize;
        let count = u32::from_le_bytes(h[4..].try_into().unwrap());
        let mut req = vec![0u8; len];
        stdin.read_exact(&mut req).unwrap();
        let mut out = Vec::with_capacity(len * 2 + 64);
        let mut i = In { b: &req, p: 0 };
        for _ in 0..count {
            match i.u8() {
                b'E' => {
                    let mut e = Enc::new(&mut i, flip);
                    for _ in 0..e.ops.len() {
                        e.step();
                    }
                    e.answer(&mut out);
                }
                b'D' => {
                    let mut d = Dec::new(&mut i, flip);
                    for _ in 0..d.ops.len() {
                        d.step();
                    }
                    d.answer(&mut out);
                }
                b'I' => {
                    // Several at once. An encoder or decoder is a cursor, so the step of the
                    // order that creates it does nothing.
                    let n = i.u8();
                    let mut objs = Vec::new();
                    for _ in 0..n {
                        objs.push(match i.u8() {
                            b'E' => Obj::E(Enc::new(&mut i, flip)),
                            _ => Obj::D(Dec::new(&mut i, flip)),
                        });
                    }
                    let mut made = vec![false; objs.len()];
                    for _ in 0..i.u16() {
                        let k = i.u8() as usize;
                        if made[k] {
                            match &mut objs[k] {
                                Obj::E(e) => e.step(),
                                Obj::D(d) => d.step(),
                            }
                        }
                        made[k] = true;
                    }
                    for o in objs {
                        match o {
                            Obj::E(e) => e.answer(&mut out),
                            Obj::D(d) => d.answer(&mut out),
                        }
                    }
                }
                x => panic!("driver: record {x}"),
            }
        }
        stdout.write_all(&(out.len() as u32).to_le_bytes()).unwrap();
        stdout.write_all(&out).unwrap();
        stdout.flush().unwrap();
    }
}
