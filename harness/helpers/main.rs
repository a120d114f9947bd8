//! Driver of the library's small helpers: size markers, byte arrays, errors.
//!
//! Lines: `W` report every size marker; `N <len index> <fill>` a new byte array;
//! `P <index> <byte>` write into it; `R <count>` shift it; `G` read it;
//! `E <variant> [<numbers>]` show an error; `V` show reserved values.
use packed_struct::types::bits::*;
use packed_struct::types::*;
use packed_struct::{PackedStruct, PackedStructInfo, PackedStructSlice, PackingError};
use rt::{esc, guarded, res_json, wr_bytes, Rd};
include!("carry.rs");
use std::io::Write as _;
use std::marker::PhantomData;

fn g(f: impl FnOnce() -> String) -> String {
    match guarded(|| Ok::<_, PackingError>(f())) {
        Ok(r) => res_json(r),
        Err(p) => p,
    }
}
fn bj(b: &[u8]) -> String {
    let mut o = String::new();
    wr_bytes(b, &mut o);
    o
}
fn sj(s: &str) -> String {
    let mut o = String::new();
    esc(s, &mut o);
    o
}

// which of the marker traits a concrete type has
struct Q<T>(PhantomData<T>);
trait IsFull {
    fn full(&self) -> i32 {
        1
    }
}
impl<T: BitsFullBytes> IsFull for Q<T> {}
trait NotFull {
    fn full(&self) -> i32 {
        0
    }
}
impl<T> NotFull for &Q<T> {}
trait IsPart {
    fn part(&self) -> i32 {
        1
    }
}
impl<T: BitsPartialBytes> IsPart for Q<T> {}
trait NotPart {
    fn part(&self) -> i32 {
        0
    }
}
impl<T> NotPart for &Q<T> {}

fn width<B: NumberOfBits>(n: usize, full: i32, part: i32) -> String
where
    ReservedZero<B>: PackedStruct,
    ReservedOne<B>: PackedStruct,
{
    let nums = format!(
        "[{},{},{},{},{},{},{}]",
        B::number_of_bits(),
        B::byte_array_len(),
        <B::Bytes as NumberOfBytes>::number_of_bytes(),
        <<B::Bytes as NumberOfBytes>::AsBytes as ByteArray>::len(),
        <ReservedZero<B> as PackedStructInfo>::packed_bits(),
        <ReservedOne<B> as PackedStructInfo>::packed_bits(),
        <<ReservedOne<B> as PackedStruct>::ByteArray as ByteArray>::len(),
    );
    format!("{{\"op\":\"width\",\"n\":{},\"r\":{{\"k\":\"ok\",\"x\":{}}},\"full\":{},\"part\":{}}}", n, nums, full, part)
}
macro_rules! width {
    ($n:literal, $out:expr) => {
        writeln!($out, "{}", width::<Bits<$n>>($n, (&Q::<Bits<$n>>(PhantomData)).full(), (&Q::<Bits<$n>>(PhantomData)).part())).unwrap()
    };
}
include!("widths.rs");

trait Arr {
    fn len(&self) -> usize;
    fn get(&self) -> Vec<u8>;
    fn put(&mut self, i: usize, b: u8);
    fn shift(&mut self, k: usize);
}
impl<A: ByteArray> Arr for A {
    fn len(&self) -> usize {
        A::len()
    }
    fn get(&self) -> Vec<u8> {
        self.as_bytes_slice().to_vec()
    }
    fn put(&mut self, i: usize, b: u8) {
        self.as_mut_bytes_slice()[i] = b
    }
    fn shift(&mut self, k: usize) {
        self.rotate_right(k)
    }
}
fn new_arr(n: usize, fill: u8) -> Box<dyn Arr> {
    macro_rules! pick { ($($l:literal)*) => { match n { $($l => Box::new(<[u8; $l] as ByteArray>::new(fill)),)* _ => panic!() } } }
    pick!(1 2 3 4 5 7 8 9 15 16 17 31 32 33 64 255 256 300 1025)
}

fn error(v: usize, a: usize, b: usize) -> PackingError {
    match v {
        0 => PackingError::InvalidValue,
        1 => PackingError::BitsError,
        2 => PackingError::BufferTooSmall,
        3 => PackingError::NotImplemented,
        4 => PackingError::InstanceRequiredForSize,
        5 => PackingError::MoreThanOneDynamicType,
        6 => PackingError::BufferSizeMismatch { expected: a, actual: b },
        7 => PackingError::BufferModMismatch { actual_size: a, modulo_required: b },
        8 => PackingError::SliceIndexingError { slice_len: a },
        _ => PackingError::InternalError,
    }
}

fn reserved<B: NumberOfBits>(out: &mut dyn std::io::Write, n: usize) {
    let (z, o) = (ReservedZero::<B>::default(), ReservedOne::<B>::default());
    writeln!(
        out,
        "{{\"op\":\"reserved\",\"n\":{},\"z\":[{},{}],\"o\":[{},{}],\"zs\":[{},{}],\"os\":[{},{}]}}",
        n,
        g(|| sj(&format!("{}", z))), g(|| sj(&format!("{:?}", z))),
        g(|| sj(&format!("{}", o))), g(|| sj(&format!("{:?}", o))),
        g(|| PackedStructSlice::pack_to_vec(&z).unwrap().len().to_string()),
        g(|| <ReservedZero<B> as PackedStructSlice>::packed_bytes_size(None).unwrap().to_string()),
        g(|| PackedStructSlice::pack_to_vec(&o).unwrap().len().to_string()),
        g(|| <ReservedOne<B> as PackedStructSlice>::packed_bytes_size(None).unwrap().to_string()),
    ).unwrap();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let script = std::fs::read_to_string(&a[1]).unwrap();
    let mut out = std::fs::File::create(&a[2]).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let mut arr: Option<Box<dyn Arr>> = None;
    for line in script.lines() {
        let mut r = Rd::new(&line[1..]);
        match &line[..1] {
            "W" => widths(&mut out),
            "N" => {
                let (n, f) = (r.num() as usize, r.byte());
                let x = new_arr(n, f);
                writeln!(out, "{{\"op\":\"make\",\"n\":{},\"x\":{},\"r\":{},\"len\":{}}}", n, f, g(|| bj(&x.get())), x.len()).unwrap();
                arr = Some(x);
            }
            "P" => {
                let (i, b) = (r.num() as usize, r.byte());
                let x = arr.as_mut().unwrap();
                let res = g(|| { x.put(i, b); bj(&x.get()) });
                writeln!(out, "{{\"op\":\"put\",\"i\":{},\"b\":{},\"r\":{}}}", i, b, res).unwrap();
            }
            "R" => {
                let k = r.num() as usize;
                let x = arr.as_mut().unwrap();
                let res = g(|| { x.shift(k); bj(&x.get()) });
                writeln!(out, "{{\"op\":\"shift\",\"n\":{},\"r\":{}}}", k, res).unwrap();
            }
            "G" => {
                let x = arr.as_ref().unwrap();
                writeln!(out, "{{\"op\":\"get\",\"r\":{},\"len\":{}}}", g(|| bj(&x.get())), x.len()).unwrap();
            }
            "E" => {
                let (v, p, q) = (r.num() as usize, r.num() as usize, r.num() as usize);
                let e = error(v, p, q);
                let copy = e;
                writeln!(out, "{{\"op\":\"error\",\"v\":{},\"a\":{},\"b\":{},\"show\":{},\"debug\":{},\"boxed\":{},\"same\":{},\"fmt\":{},\"carried\":{}}}", v, p, q,
                    g(|| sj(&format!("{}", e))), g(|| sj(&format!("{:?}", e))),
                    g(|| sj(&(Box::new(e) as Box<dyn std::error::Error>).to_string())),
                    g(|| ((e == copy && e == error(v, p, q)) as i32).to_string()),
                    g(|| sj(&format!("{:?}", std::fmt::Error::from(e)))), g(|| carried(e))).unwrap();
            }
            "V" => {
                reserved::<Bits<1>>(&mut out, 1);
                reserved::<Bits<3>>(&mut out, 3);
                reserved::<Bits<8>>(&mut out, 8);
                reserved::<Bits<11>>(&mut out, 11);
                reserved::<Bits<32>>(&mut out, 32);
                reserved::<Bits<255>>(&mut out, 255);
            }
            _ => panic!(),
        }
    }
}
