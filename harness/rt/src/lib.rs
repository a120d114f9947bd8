//! Runtime of the generated drivers: reads operations, applies them to the real
//! library, and records every call with its arguments and observable result.
//!
//! Values are read from and written to their parts without going through the
//! library's own codecs: native integers as big-endian two's-complement bytes,
//! enum variants by index, structs field by field.

#[cfg(feature = "heap")]
use packed_struct::debug_fmt::{PackedStructDebug, PackedStructDisplay};
use packed_struct::types::bits::{ByteArray, NumberOfBits};
use packed_struct::types::*;
use packed_struct::{EnumCatchAll, PackedStruct, PackedStructInfo, PackedStructSlice, PackingError, PrimitiveEnum};
use std::fmt::{Debug, Write as _};
use std::io::Write as _;
use std::ops::Deref;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub mod enums;

/// A stream of small integers describing a value.
pub struct Rd<'a> {
    it: std::str::SplitAsciiWhitespace<'a>,
}
impl<'a> Rd<'a> {
    pub fn new(s: &'a str) -> Self {
        Rd { it: s.split_ascii_whitespace() }
    }
    pub fn num(&mut self) -> i64 {
        self.it.next().expect("operation ends early").parse().expect("operation is not a number")
    }
    pub fn byte(&mut self) -> u8 {
        self.num() as u8
    }
    pub fn opt(&mut self) -> Option<i64> {
        self.it.next().map(|s| s.parse().expect("operation is not a number"))
    }
    pub fn rest(&mut self) -> Vec<u8> {
        let mut v = vec![];
        while let Some(n) = self.opt() {
            v.push(n as u8);
        }
        v
    }
}

pub trait Val: Sized {
    fn rd(r: &mut Rd) -> Self;
    fn wr(&self, o: &mut String);
}

pub fn wr_bytes(b: &[u8], o: &mut String) {
    o.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "{}", x);
    }
    o.push(']');
}

pub fn wr_list<T: Val>(b: &[T], o: &mut String) {
    o.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        x.wr(o);
    }
    o.push(']');
}

macro_rules! ints {
    ($($t:ident $n:literal),*) => {$(
        impl Val for $t {
            fn rd(r: &mut Rd) -> Self {
                let mut b = [0u8; $n];
                for x in b.iter_mut() { *x = r.byte(); }
                <$t>::from_be_bytes(b)
            }
            fn wr(&self, o: &mut String) { wr_bytes(&self.to_be_bytes(), o) }
        }
    )*}
}
ints!(u8 1, i8 1, u16 2, i16 2, u32 4, i32 4, u64 8, i64 8);

impl Val for bool {
    fn rd(r: &mut Rd) -> Self {
        r.num() == 1
    }
    fn wr(&self, o: &mut String) {
        o.push_str(if *self { "[1]" } else { "[0]" })
    }
}
impl Val for () {
    fn rd(_: &mut Rd) -> Self {}
    fn wr(&self, o: &mut String) {
        o.push_str("[]")
    }
}
impl<T: Val, B> Val for Integer<T, B>
where
    T: Into<Integer<T, B>>,
    Integer<T, B>: Deref<Target = T>,
{
    fn rd(r: &mut Rd) -> Self {
        T::rd(r).into()
    }
    fn wr(&self, o: &mut String) {
        self.deref().wr(o)
    }
}
impl<T, B, I: Val> Val for MsbInteger<T, B, I> {
    fn rd(r: &mut Rd) -> Self {
        I::rd(r).into()
    }
    fn wr(&self, o: &mut String) {
        self.deref().wr(o)
    }
}
impl<T, B, I: Val> Val for LsbInteger<T, B, I> {
    fn rd(r: &mut Rd) -> Self {
        I::rd(r).into()
    }
    fn wr(&self, o: &mut String) {
        self.deref().wr(o)
    }
}
impl<V: Default, B: NumberOfBits> Val for ReservedBits<V, B> {
    fn rd(_: &mut Rd) -> Self {
        Default::default()
    }
    fn wr(&self, o: &mut String) {
        o.push_str("[]")
    }
}
impl<T: Val, const N: usize> Val for [T; N] {
    fn rd(r: &mut Rd) -> Self {
        std::array::from_fn(|_| T::rd(r))
    }
    fn wr(&self, o: &mut String) {
        wr_list(self, o)
    }
}
/// A type whose packing is written by hand: its bytes, with two refusals.
#[derive(Clone, PartialEq)]
pub struct Cust<const N: usize>(pub [u8; N]);
impl<const N: usize> Debug for Cust<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        Debug::fmt(&self.0, f)
    }
}
impl<const N: usize> PackedStruct for Cust<N>
where
    [u8; N]: ByteArray,
{
    type ByteArray = [u8; N];
    fn pack(&self) -> Result<[u8; N], PackingError> {
        if self.0[0] == 238 {
            return Err(PackingError::BitsError);
        }
        Ok(self.0)
    }
    fn unpack(src: &[u8; N]) -> Result<Self, PackingError> {
        if src[0] == 221 {
            return Err(PackingError::NotImplemented);
        }
        Ok(Cust(*src))
    }
}
impl<const N: usize> PackedStructInfo for Cust<N> {
    fn packed_bits() -> usize {
        N * 8
    }
}
impl<const N: usize> Val for Cust<N> {
    fn rd(r: &mut Rd) -> Self {
        Cust(std::array::from_fn(|_| r.byte()))
    }
    fn wr(&self, o: &mut String) {
        wr_bytes(&self.0, o)
    }
}

impl<T: Val> Val for Vec<T> {
    fn rd(r: &mut Rd) -> Self {
        let n = r.num();
        (0..n).map(|_| T::rd(r)).collect()
    }
    fn wr(&self, o: &mut String) {
        wr_list(self, o)
    }
}
/// Enums name their variants by position, counted from one.
pub trait Variants: Sized + Copy {
    fn nth(i: i64) -> Self;
    fn ix(&self) -> i64;
}
impl<E> Val for EnumCatchAll<E>
where
    E: PrimitiveEnum + Variants,
    E::Primitive: Val,
{
    fn rd(r: &mut Rd) -> Self {
        match r.num() {
            0 => EnumCatchAll::CatchAll(<E::Primitive as Val>::rd(r)),
            i => EnumCatchAll::Enum(E::nth(i)),
        }
    }
    fn wr(&self, o: &mut String) {
        match self {
            EnumCatchAll::Enum(e) => {
                let _ = write!(o, "[{}]", e.ix());
            }
            EnumCatchAll::CatchAll(p) => {
                let mut t = String::new();
                p.wr(&mut t);
                let _ = write!(o, "[0,{}", &t[1..]);
            }
        }
    }
}

macro_rules! tuples {
    ($(($($t:ident $i:tt),+))*) => {$(
        impl<$($t: Val),+> Val for ($($t,)+) {
            fn rd(r: &mut Rd) -> Self { ($($t::rd(r),)+) }
            fn wr(&self, o: &mut String) {
                o.push('[');
                $( if $i > 0 { o.push(','); } self.$i.wr(o); )+
                o.push(']');
            }
        }
    )*}
}
tuples! {
    (A 0) (A 0, B 1) (A 0, B 1, C 2) (A 0, B 1, C 2, D 3) (A 0, B 1, C 2, D 3, E 4)
    (A 0, B 1, C 2, D 3, E 4, F 5) (A 0, B 1, C 2, D 3, E 4, F 5, G 6)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9)
}

pub fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\r' => o.push_str("\\r"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

fn err_json(e: &PackingError) -> String {
    let s = match e {
        PackingError::BufferSizeMismatch { expected, actual } => format!("[\"BufferSizeMismatch\",{},{}]", expected, actual),
        PackingError::BufferModMismatch { actual_size, modulo_required } => {
            format!("[\"BufferModMismatch\",{},{}]", actual_size, modulo_required)
        }
        PackingError::SliceIndexingError { slice_len } => format!("[\"SliceIndexingError\",{}]", slice_len),
        e => format!("[\"{:?}\"]", e),
    };
    format!("{{\"k\":\"err\",\"x\":{}}}", s)
}
pub fn ok_json(x: String) -> String {
    format!("{{\"k\":\"ok\",\"x\":{}}}", x)
}
pub fn res_json(r: Result<String, PackingError>) -> String {
    match r {
        Ok(x) => ok_json(x),
        Err(e) => err_json(&e),
    }
}
pub const PANIC: &str = "{\"k\":\"panic\",\"x\":[]}";

/// Run one library call; a panic is an observation, not a failure of the driver.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.to_string())
}
fn flat(r: Result<String, String>) -> String {
    match r {
        Ok(s) | Err(s) => s,
    }
}
fn bytes_json(b: &[u8]) -> String {
    let mut o = String::new();
    wr_bytes(b, &mut o);
    o
}
fn val_json<T: Val>(v: &T) -> String {
    let mut o = String::new();
    v.wr(&mut o);
    o
}

/// What the interpreter can do with an object of any type.
pub trait Obj {
    /// Build a value; returns its parts as read back.
    fn new(&mut self, r: &mut Rd) -> String;
    fn has(&self) -> bool;
    fn pack(&self) -> Option<Result<Vec<u8>, PackingError>>;
    fn unpack(&mut self, b: &[u8]) -> Option<Result<String, PackingError>>;
    fn to_slice(&self, b: &mut [u8]) -> Result<(), PackingError>;
    fn of_slice(&mut self, b: &[u8]) -> Result<String, PackingError>;
    fn vec(&self) -> Option<Result<Vec<u8>, PackingError>>;
    fn bits(&self) -> i64;
    fn alen(&self) -> i64;
    fn size_none(&self) -> Result<usize, PackingError>;
    fn size_some(&self) -> Result<usize, PackingError>;
    fn debug(&self) -> String;
    fn eq(&self, r: &mut Rd) -> Option<bool>;
    fn show(&self, fl: [bool; 5]) -> Option<String>;
    fn display(&self) -> Option<String>;
}

macro_rules! common_obj {
    () => {
        fn new(&mut self, r: &mut Rd) -> String {
            self.0 = None;
            let v = T::rd(r);
            let s = val_json(&v);
            self.0 = Some(v);
            s
        }
        fn has(&self) -> bool {
            self.0.is_some()
        }
        fn to_slice(&self, b: &mut [u8]) -> Result<(), PackingError> {
            self.0.as_ref().unwrap().pack_to_slice(b)
        }
        fn of_slice(&mut self, b: &[u8]) -> Result<String, PackingError> {
            let v = T::unpack_from_slice(b)?;
            let s = val_json(&v);
            self.0 = Some(v);
            Ok(s)
        }
        #[cfg(feature = "heap")]
        fn vec(&self) -> Option<Result<Vec<u8>, PackingError>> {
            Some(self.0.as_ref().unwrap().pack_to_vec())
        }
        #[cfg(not(feature = "heap"))]
        fn vec(&self) -> Option<Result<Vec<u8>, PackingError>> {
            None
        }
        fn size_none(&self) -> Result<usize, PackingError> {
            T::packed_bytes_size(None)
        }
        fn size_some(&self) -> Result<usize, PackingError> {
            T::packed_bytes_size(self.0.as_ref())
        }
        fn debug(&self) -> String {
            format!("{:?}", self.0.as_ref().unwrap())
        }
    };
}
macro_rules! fixed_obj {
    () => {
        fn pack(&self) -> Option<Result<Vec<u8>, PackingError>> {
            Some(self.0.as_ref().unwrap().pack().map(|b| b.as_bytes_slice().to_vec()))
        }
        fn unpack(&mut self, b: &[u8]) -> Option<Result<String, PackingError>> {
            let mut a = T::ByteArray::new(0);
            if a.as_mut_bytes_slice().len() != b.len() {
                return None;
            }
            a.as_mut_bytes_slice().copy_from_slice(b);
            Some(T::unpack(&a).map(|v| {
                let s = val_json(&v);
                self.0 = Some(v);
                s
            }))
        }
        fn bits(&self) -> i64 {
            T::packed_bits() as i64
        }
        fn alen(&self) -> i64 {
            <T::ByteArray as ByteArray>::len() as i64
        }
    };
}

/// Structs: everything is available.
pub struct SObj<T>(pub Option<T>);
#[cfg(feature = "heap")]
impl<T> Obj for SObj<T>
where
    T: Val + Debug + PartialEq + PackedStruct + PackedStructInfo + PackedStructSlice + PackedStructDebug + std::fmt::Display,
{
    common_obj!();
    fixed_obj!();
    fn eq(&self, r: &mut Rd) -> Option<bool> {
        Some(self.0.as_ref().unwrap() == &T::rd(r))
    }
    fn show(&self, fl: [bool; 5]) -> Option<String> {
        let mut d = PackedStructDisplay::new(self.0.as_ref().unwrap());
        d.header = fl[0];
        d.raw_decimal = fl[1];
        d.raw_hex = fl[2];
        d.raw_binary = fl[3];
        d.fields = fl[4];
        Some(format!("{}", d))
    }
    fn display(&self) -> Option<String> {
        Some(format!("{}", self.0.as_ref().unwrap()))
    }
}

#[cfg(not(feature = "heap"))]
impl<T> Obj for SObj<T>
where
    T: Val + Debug + PartialEq + PackedStruct + PackedStructInfo + PackedStructSlice,
{
    common_obj!();
    fixed_obj!();
    fn eq(&self, r: &mut Rd) -> Option<bool> {
        Some(self.0.as_ref().unwrap() == &T::rd(r))
    }
    fn show(&self, _: [bool; 5]) -> Option<String> {
        None
    }
    fn display(&self) -> Option<String> {
        None
    }
}

/// Other types of a fixed size.
pub struct FObj<T>(pub Option<T>);
impl<T> Obj for FObj<T>
where
    T: Val + Debug + PackedStruct + PackedStructInfo + PackedStructSlice,
{
    common_obj!();
    fixed_obj!();
    fn eq(&self, _: &mut Rd) -> Option<bool> {
        None
    }
    fn show(&self, _: [bool; 5]) -> Option<String> {
        None
    }
    fn display(&self) -> Option<String> {
        None
    }
}

/// Types that only have the slice interface.
pub struct DObj<T>(pub Option<T>);
impl<T> Obj for DObj<T>
where
    T: Val + Debug + PackedStructSlice,
{
    common_obj!();
    fn pack(&self) -> Option<Result<Vec<u8>, PackingError>> {
        None
    }
    fn unpack(&mut self, _: &[u8]) -> Option<Result<String, PackingError>> {
        None
    }
    fn bits(&self) -> i64 {
        -1
    }
    fn alen(&self) -> i64 {
        -1
    }
    fn eq(&self, _: &mut Rd) -> Option<bool> {
        None
    }
    fn show(&self, _: [bool; 5]) -> Option<String> {
        None
    }
    fn display(&self) -> Option<String> {
        None
    }
}

fn ones_json(b: &[u8]) -> String {
    let mut q = vec![];
    for (i, x) in b.iter().enumerate() {
        for k in 0..8 {
            if x & (0x80 >> k) != 0 && q.len() < 4000 {
                q.push((8 * i + k).to_string());
            }
        }
    }
    format!("[{}]", q.join(","))
}

/// Run a script of operations against the objects made by `make`.
///
/// Lines: `N <obj> <parts>` build; `P` pack; `U <bytes>` unpack; `X <bit>..` flip bits of
/// the last buffer and unpack it; `S <bytes>` pack into a slice with this content; `F <bytes>`
/// unpack from a slice (`K <longer> [<at> <xor>]..`: from the last buffer, so changed); `V` pack to a vector; `Z` sizes; `E <parts>` compare; `D <5 flags>`
/// display; `T` default display; `B` debug text.
pub fn run(script: &str, out: &mut dyn std::io::Write, make: &(dyn Fn(usize) -> Box<dyn Obj> + Sync)) {
    let mut obj: Option<(usize, Box<dyn Obj>)> = None;
    let mut buf: Vec<u8> = vec![];
    for line in script.lines() {
        // after the bar: the same arguments as JSON, for the record
        let (line, literal) = line.split_once('|').unwrap_or((line, ""));
        let (op, args) = line.split_at(1);
        let mut r = Rd::new(args);
        if op == "N" {
            let id = r.num() as usize;
            let mut o = make(id);
            let g = flat(guarded(|| ok_json(o.new(&mut r))));
            let _ = writeln!(out, "{{\"op\":\"new\",\"o\":{},\"v\":{},\"r\":{}}}", id, literal, g);
            obj = if o.has() { Some((id, o)) } else { None };
            buf.clear();
            continue;
        }
        let o = match obj.as_mut() {
            Some((_, o)) => o,
            None => continue,
        };
        let e = match op {
            "P" => {
                let p = guarded(|| o.pack());
                match p {
                    Err(p) => format!("{{\"op\":\"pack\",\"r\":{}}}", p),
                    Ok(None) => continue,
                    Ok(Some(p)) => {
                        if let Ok(b) = &p {
                            buf = b.clone();
                        }
                        format!("{{\"op\":\"pack\",\"r\":{}}}", res_json(p.map(|b| bytes_json(&b))))
                    }
                }
            }
            "V" => {
                let p = guarded(|| o.vec());
                match p {
                    Err(p) => format!("{{\"op\":\"vec\",\"r\":{}}}", p),
                    Ok(None) => continue,
                    Ok(Some(p)) => {
                        if let Ok(b) = &p {
                            buf = b.clone();
                        }
                        format!("{{\"op\":\"vec\",\"r\":{}}}", res_json(p.map(|b| bytes_json(&b))))
                    }
                }
            }
            // very long packed bytes, as the positions of their one bits
            "p" => {
                let p = guarded(|| o.pack());
                match p {
                    Err(p) => format!("{{\"op\":\"spack\",\"r\":{}}}", p),
                    Ok(None) => continue,
                    Ok(Some(p)) => {
                        if let Ok(b) = &p {
                            buf = b.clone();
                        }
                        format!("{{\"op\":\"spack\",\"r\":{}}}", res_json(p.map(|b| format!("[{},{}]", b.len(), ones_json(&b)))))
                    }
                }
            }
            "u" => {
                // flips these bits of the last buffer (of so many bytes) and unpacks it
                let n = r.num() as usize;
                buf.resize(n, 0);
                while let Some(i) = r.opt() {
                    let i = i as usize;
                    buf[i / 8] ^= 0x80 >> (i % 8);
                }
                let b = buf.clone();
                let res = match guarded(|| o.unpack(&b)) {
                    Err(p) => p,
                    Ok(None) => continue,
                    Ok(Some(u)) => res_json(u),
                };
                format!("{{\"op\":\"sunpack\",\"ones\":{},\"r\":{}}}", ones_json(&buf), res)
            }
            "U" | "X" => {
                let b = if op == "U" {
                    r.rest()
                } else {
                    let mut b = buf.clone();
                    while let Some(i) = r.opt() {
                        let i = i as usize;
                        if i / 8 < b.len() {
                            b[i / 8] ^= 0x80 >> (i % 8);
                        }
                    }
                    b
                };
                let u = guarded(|| o.unpack(&b));
                let res = match u {
                    Err(p) => p,
                    Ok(None) => {
                        let u = guarded(|| o.of_slice(&b));
                        let res = match u {
                            Err(p) => p,
                            Ok(u) => res_json(u),
                        };
                        buf = b;
                        let _ = writeln!(out, "{{\"op\":\"from\",\"b\":{},\"r\":{}}}", bytes_json(&buf), res);
                        continue;
                    }
                    Ok(Some(u)) => res_json(u),
                };
                buf = b;
                format!("{{\"op\":\"unpack\",\"b\":{},\"r\":{}}}", bytes_json(&buf), res)
            }
            "F" | "K" => {
                // K: of the last buffer, made longer or shorter by so much and with these bytes changed
                let b = if op == "F" {
                    r.rest()
                } else {
                    let mut b = buf.clone();
                    b.resize((b.len() as i64 + r.num()).max(0) as usize, 0);
                    while let Some(i) = r.opt() {
                        let x = r.byte();
                        let n = b.len();
                        if n > 0 {
                            b[i as usize % n] ^= x;
                        }
                    }
                    b
                };
                let u = guarded(|| o.of_slice(&b));
                let res = match u {
                    Err(p) => p,
                    Ok(u) => res_json(u),
                };
                buf = b;
                format!("{{\"op\":\"from\",\"b\":{},\"r\":{}}}", bytes_json(&buf), res)
            }
            "S" => {
                let pre = r.rest();
                let mut post = pre.clone();
                let res = match guarded(|| o.to_slice(&mut post)) {
                    Err(p) => p,
                    Ok(r) => res_json(r.map(|_| "[]".to_string())),
                };
                let e = format!("{{\"op\":\"into\",\"pre\":{},\"post\":{},\"r\":{}}}", bytes_json(&pre), bytes_json(&post), res);
                buf = post;
                e
            }
            "Z" => {
                let f = |r: Result<Result<usize, PackingError>, String>| match r {
                    Err(p) => p,
                    Ok(r) => res_json(r.map(|n| n.to_string())),
                };
                let none = f(guarded(|| o.size_none()));
                let some = f(guarded(|| o.size_some()));
                format!("{{\"op\":\"sizes\",\"bits\":{},\"alen\":{},\"none\":{},\"some\":{}}}", o.bits(), o.alen(), none, some)
            }
            "E" => {
                let q = match guarded(|| o.eq(&mut r)) {
                    Err(_) => "2",
                    Ok(None) => continue,
                    Ok(Some(true)) => "1",
                    Ok(Some(false)) => "0",
                };
                format!("{{\"op\":\"eq\",\"v\":{},\"r\":{}}}", literal, q)
            }
            "D" | "T" => {
                let mut fl = [true; 5];
                if op == "D" {
                    for f in fl.iter_mut() {
                        *f = r.num() == 1;
                    }
                }
                let t = guarded(|| if op == "D" { o.show(fl) } else { o.display() });
                let res = match t {
                    Err(p) => p,
                    Ok(None) => continue,
                    Ok(Some(t)) => {
                        let mut q = String::new();
                        esc(&t, &mut q);
                        ok_json(q)
                    }
                };
                let fl: Vec<&str> = fl.iter().map(|b| if *b { "1" } else { "0" }).collect();
                format!("{{\"op\":\"show\",\"fl\":[{}],\"r\":{}}}", fl.join(","), res)
            }
            "B" => {
                let res = flat(guarded(|| {
                    let mut q = String::new();
                    esc(&o.debug(), &mut q);
                    ok_json(q)
                }));
                format!("{{\"op\":\"debug\",\"r\":{}}}", res)
            }
            _ => panic!("unknown operation {:?}", line),
        };
        let _ = writeln!(out, "{}", e);
    }
}

/// Runs the parts of a script, which start at lines that begin like this and have nothing to do with each other, one after
/// the other.  Then runs them again in several threads at a time, in this order and backwards: what a part records must not
/// depend on what else goes on.  Parts that record something else are recorded again as they went then.
pub fn replay(script: &str, start: char, out: &mut dyn std::io::Write, run: &(dyn Fn(&str, &mut dyn std::io::Write) + Sync)) {
    use std::hash::{Hash, Hasher};
    use std::sync::Mutex;
    let mut parts: Vec<&str> = vec![];
    let (mut from, mut at) = (0, 0);
    for line in script.split_inclusive('\n') {
        if line.starts_with(start) && at > from {
            parts.push(&script[from..at]);
            from = at;
        }
        at += line.len();
    }
    parts.push(&script[from..]);
    let hash = |b: &[u8]| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        b.hash(&mut h);
        h.finish()
    };
    let mut seen = vec![];
    for p in &parts {
        let mut o = vec![];
        run(p, &mut o);
        seen.push(hash(&o));
        out.write_all(&o).expect("trace");
    }
    out.flush().expect("trace");
    let other = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for t in 0..4 {
            let (parts, seen, other, hash) = (&parts, &seen, &other, &hash);
            let go = move || {
                for k in 0..parts.len() {
                    let k = if t < 2 { k } else { parts.len() - 1 - k };
                    let mut o = vec![];
                    run(parts[k], &mut o);
                    if hash(&o) != seen[k] {
                        let mut other = other.lock().unwrap();
                        if other.len() < 40 {
                            other.push(o);
                        }
                    }
                }
            };
            let _ = std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(s, go);
        }
    });
    for o in other.into_inner().unwrap() {
        out.write_all(&o).expect("trace");
    }
}

/// Entry point of a generated driver: `driver SCRIPT TRACE`.
pub fn main_with(make: &(dyn Fn(usize) -> Box<dyn Obj> + Sync)) {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let script = std::fs::read_to_string(&a[1]).expect("script");
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[2]).expect("trace"));
    replay(&script, 'N', &mut out, &|part, out| run(part, out, make));
    out.flush().expect("trace");
}
