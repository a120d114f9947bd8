//! Driver of the width-limited integers: every (native type, width) pair the
//! library supports, as a register that is loaded, read and converted.
//!
//! Lines: `A <inst> <native bytes>` load from the native type, both ways;
//! `M|L|m|l <inst> <bytes>` load from big-endian / little-endian bytes (capital: the
//! conversions, small: the packing wrappers); `R` read in all ways; `B` convert to bytes
//! in all ways; `Q <native bytes>` compare with another; `Z` load the default;
//! `I <type> <bytes>` the native type's own byte conversions; `S` serialise,
//! `D <native bytes>` / `T <text>` deserialise (with feature serde).
use packed_struct::types::bits::{Bits, ByteArray};
use packed_struct::types::*;
use packed_struct::{PackedStruct, PackedStructInfo, PackingError};
use rt::{esc, guarded, res_json, wr_bytes, Rd, Val};
use std::hash::{Hash, Hasher};
use std::io::Write as _;

#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn hash_of<T: Hash>(t: &T) -> Vec<u8> {
    let mut r = Rec::default();
    t.hash(&mut r);
    r.0
}
fn js<T: Val>(t: &T) -> String {
    let mut o = String::new();
    t.wr(&mut o);
    o
}
fn bj(b: &[u8]) -> String {
    let mut o = String::new();
    wr_bytes(b, &mut o);
    o
}
fn sj(s: &str) -> String {
    let mut o = String::new();
    esc(s, &mut o);
    o
}
fn g(f: impl FnOnce() -> Result<String, PackingError>) -> String {
    match guarded(f) {
        Ok(r) => res_json(r),
        Err(p) => p,
    }
}
fn ok(f: impl FnOnce() -> String) -> String {
    g(|| Ok(f()))
}
fn arr<A: ByteArray>(b: &[u8]) -> A {
    let mut a = A::new(0);
    a.as_mut_bytes_slice().copy_from_slice(b);
    a
}

trait Reg {
    fn step(&mut self, op: &str, r: &mut Rd, out: &mut dyn std::io::Write);
}

include!("serde_ops.rs");

macro_rules! reg {
    ($name:ident $t:ident $s:literal $n:literal $w:literal) => {
        #[derive(Default)]
        struct $name(Option<Integer<$t, Bits<$w>>>);
        impl Reg for $name {
            fn step(&mut self, op: &str, r: &mut Rd, out: &mut dyn std::io::Write) {
                type I = Integer<$t, Bits<$w>>;
                type A = <MsbInteger<$t, Bits<$w>, I> as PackedStruct>::ByteArray;
                let t = format!("\"t\":[{},{},{}]", $s, $n, $w);
                let load = |me: &mut Self, r: Result<I, PackingError>| {
                    let r = r?;
                    me.0 = Some(r);
                    Ok(js(&*r))
                };
                match op {
                    "A" => {
                        let x = <$t>::rd(r);
                        let a = ok(|| js(&*I::from_primitive(x)));
                        let b = g(|| load(self, Ok(x.into())));
                        let _ = writeln!(out, "{{\"op\":\"load\",{},\"x\":{},\"r\":{},\"p\":{}}}", t, js(&x), b, a);
                    }
                    "Z" => {
                        let b = g(|| load(self, Ok(I::default())));
                        let _ = writeln!(out, "{{\"op\":\"default\",{},\"r\":{}}}", t, b);
                    }
                    "M" | "L" | "m" | "l" => {
                        let b = r.rest();
                        let res = g(|| {
                            let v = match op {
                                "M" => <I as SizedInteger<$t, Bits<$w>>>::from_msb_bytes(&arr::<A>(&b)),
                                "L" => <I as SizedInteger<$t, Bits<$w>>>::from_lsb_bytes(&arr::<A>(&b)),
                                "m" => MsbInteger::<$t, Bits<$w>, I>::unpack(&arr::<A>(&b)).map(|x| *x),
                                _ => LsbInteger::<$t, Bits<$w>, I>::unpack(&arr::<A>(&b)).map(|x| *x),
                            };
                            load(self, v)
                        });
                        let o = match op { "M" => "of_msb", "L" => "of_lsb", "m" => "unpack_msb", _ => "unpack_lsb" };
                        let _ = writeln!(out, "{{\"op\":\"{}\",{},\"b\":{},\"r\":{}}}", o, t, bj(&b), res);
                    }
                    "R" => {
                        let v = match self.0 { Some(v) => v, None => return };
                        let prim = ok(|| js(&v.to_primitive()));
                        let back = ok(|| js(&<$t as From<I>>::from(v)));
                        let deref = ok(|| js(&*v));
                        let copy = ok(|| { let c = v; let d = c.clone(); js(&*d) });
                        let mask = ok(|| js(&<I as SizedInteger<$t, Bits<$w>>>::value_bit_mask()));
                        let dbg = ok(|| sj(&format!("{:?}", v)));
                        let disp = ok(|| sj(&format!("{}", v)));
                        let _ = writeln!(out, "{{\"op\":\"read\",\"nums\":[{},{},{},{}],\"mask\":{},\"texts\":[{},{}]}}",
                            prim, back, deref, copy, mask, dbg, disp);
                    }
                    "B" => {
                        let v = match self.0 { Some(v) => v, None => return };
                        let f = |r: Result<A, PackingError>| r.map(|b| bj(b.as_bytes_slice()));
                        let msb = g(|| f(SizedInteger::<$t, Bits<$w>>::to_msb_bytes(&v)));
                        let lsb = g(|| f(SizedInteger::<$t, Bits<$w>>::to_lsb_bytes(&v)));
                        let m1 = v.as_packed_msb();
                        let l1 = v.as_packed_lsb();
                        let m2: MsbInteger<$t, Bits<$w>, I> = v.into();
                        let l2: LsbInteger<$t, Bits<$w>, I> = v.into();
                        let pm = g(|| f(m1.pack()));
                        let pl = g(|| f(l1.pack()));
                        let pm2 = g(|| f(m2.pack()));
                        let pl2 = g(|| f(l2.pack()));
                        let nums = [ok(|| js(&**m1)), ok(|| js(&**l1)), ok(|| js(&**m2)), ok(|| js(&**l2))].join(",");
                        let texts = [ok(|| sj(&format!("{:?}", m1))), ok(|| sj(&format!("{}", m1))), ok(|| sj(&format!("{:?}", l1))),
                            ok(|| sj(&format!("{}", l1)))].join(",");
                        let bits = (MsbInteger::<$t, Bits<$w>, I>::packed_bits(), LsbInteger::<$t, Bits<$w>, I>::packed_bits());
                        let _ = writeln!(out, "{{\"op\":\"bytes\",\"msb\":{},\"lsb\":{},\"pm\":[{},{}],\"pl\":[{},{}],\"nums\":[{}],\"texts\":[{}],\"bits\":[{},{}]}}",
                            msb, lsb, pm, pm2, pl, pl2, nums, texts, bits.0, bits.1);
                    }
                    "Q" => {
                        let v = match self.0 { Some(v) => v, None => return };
                        let y = <$t>::rd(r);
                        let q = ok(|| {
                            let w: I = y.into();
                            format!("[{},{},{},{}]", (v == w) as u8, (w == v) as u8, (v != w) as u8, (hash_of(&v) == hash_of(&w)) as u8)
                        });
                        let hn = ok(|| ((hash_of(&v) == hash_of(&*v)) as u8).to_string());
                        let _ = writeln!(out, "{{\"op\":\"pair\",\"x\":{},\"q\":{},\"hn\":{}}}", js(&y), q, hn);
                    }
                    "S" | "D" | "T" => serde_ops!(self, op, r, out, $t, I, t),
                    _ => panic!("unknown operation"),
                }
            }
        }
    };
}

macro_rules! natives {
    ($r:expr, $out:expr, $i:expr; $($k:literal $t:ident $s:literal $n:literal),*) => {
        match $i {
            $($k => {
                let b = $r.rest();
                let a: [u8; $n] = b[..].try_into().unwrap();
                let x = <$t>::from_be_bytes(a);
                let tm = ok(|| bj(&IntegerAsBytes::to_msb_bytes(&x)));
                let tl = ok(|| bj(&IntegerAsBytes::to_lsb_bytes(&x)));
                let fm = ok(|| js(&<$t as IntegerAsBytes>::from_msb_bytes(&a)));
                let fl = ok(|| js(&<$t as IntegerAsBytes>::from_lsb_bytes(&a)));
                let _ = writeln!($out, "{{\"op\":\"native\",\"x\":{},\"tm\":{},\"tl\":{},\"fm\":{},\"fl\":{}}}", bj(&b), tm, tl, fm, fl);
            })*
            _ => panic!(),
        }
    };
}

include!("insts.rs");

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let script = std::fs::read_to_string(&a[1]).expect("script");
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[2]).expect("trace"));
    let mut cur: Option<Box<dyn Reg>> = None;
    for line in script.lines() {
        let (op, args) = line.split_at(1);
        let mut r = Rd::new(args);
        match op {
            "A" | "Z" | "M" | "L" | "m" | "l" | "D" | "T" => cur = Some(make(r.num())),
            "I" => {
                let i = r.num();
                natives!(r, out, i; 0 u8 0 1, 1 i8 1 1, 2 u16 0 2, 3 i16 1 2, 4 u32 0 4, 5 i32 1 4, 6 u64 0 8, 7 i64 1 8);
                continue;
            }
            _ => {}
        }
        if let Some(c) = cur.as_mut() {
            c.step(op, &mut r, &mut out);
        }
    }
    out.flush().expect("trace");
}
