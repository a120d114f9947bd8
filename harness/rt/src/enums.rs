//! Enums on their own: every conversion of the primitive enum traits.
//!
//! Lines: `G e` take enum e, report its primitive type and its variants; `V i` convert
//! variant i; `F <wide bytes>` convert from the primitive that the low bytes are;
//! `S <code points>` convert from a string; `Q <wide> <wide>` compare catch-alls.
use super::*;
#[cfg(feature = "heap")]
use packed_struct::PrimitiveEnumDynamicStr;
use packed_struct::PrimitiveEnumStaticStr;

pub trait EnumOps {
    fn info(&self) -> String;
    fn variant(&self, i: i64) -> String;
    fn from(&self, wide: &[u8]) -> String;
    fn string(&self, s: &str) -> String;
    fn pair(&self, a: &[u8], b: &[u8]) -> String;
}
pub struct EOps<E>(pub std::marker::PhantomData<E>);
impl<E> EOps<E> {
    pub fn boxed() -> Box<dyn EnumOps>
    where
        E: 'static,
        EOps<E>: EnumOps,
    {
        Box::new(EOps(std::marker::PhantomData::<E>))
    }
}

fn text(s: &str) -> String {
    let c: Vec<String> = s.chars().map(|c| (c as u32).to_string()).collect();
    format!("[{}]", c.join(","))
}
fn call(f: impl FnOnce() -> String) -> String {
    flat(guarded(|| ok_json(f())))
}
fn opt<E: Variants>(e: Option<E>) -> String {
    e.map(|e| e.ix()).unwrap_or(0).to_string()
}
fn shown(s: &str) -> String {
    let mut o = String::new();
    esc(s, &mut o);
    o
}

fn prim_of<E>(wide: &[u8]) -> (E::Primitive, String)
where
    E: PrimitiveEnum,
    E::Primitive: Val,
{
    let n = std::mem::size_of::<E::Primitive>();
    let low = &wide[wide.len() - n..];
    let t = low.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(" ");
    (<E::Primitive as Val>::rd(&mut Rd::new(&t)), bytes_json(low))
}

#[cfg(feature = "heap")]
pub trait Subject: PrimitiveEnum + PrimitiveEnumDynamicStr + PrimitiveEnumStaticStr + Variants + PartialEq + Debug + 'static {}
#[cfg(feature = "heap")]
impl<E: PrimitiveEnum + PrimitiveEnumDynamicStr + PrimitiveEnumStaticStr + Variants + PartialEq + Debug + 'static> Subject for E {}
#[cfg(not(feature = "heap"))]
pub trait Subject: PrimitiveEnum + PrimitiveEnumStaticStr + Variants + PartialEq + Debug + 'static {}
#[cfg(not(feature = "heap"))]
impl<E: PrimitiveEnum + PrimitiveEnumStaticStr + Variants + PartialEq + Debug + 'static> Subject for E {}

// what there is only with an allocator is left out of the record without one
#[cfg(feature = "heap")]
mod dynamic {
    use super::*;
    pub fn all<E: Subject>() -> Option<String>
    where
        E::Primitive: Val,
    {
        Some(call(|| list(PrimitiveEnumDynamicStr::all_variants().iter().map(|e: &E| e.ix()).collect())))
    }
    pub fn catch_all<E: Subject>() -> Option<String>
    where
        E::Primitive: Val,
    {
        let ix = |e: &EnumCatchAll<E>| match e {
            EnumCatchAll::Enum(e) => e.ix(),
            EnumCatchAll::CatchAll(_) => 0,
        };
        Some(call(|| list(<EnumCatchAll<E> as PrimitiveEnumDynamicStr>::all_variants().iter().map(ix).collect())))
    }
    pub fn name<E: PrimitiveEnumDynamicStr>(e: E) -> Option<String> {
        Some(call(|| text(&PrimitiveEnumDynamicStr::to_display_str(&e))))
    }
    pub fn show<E: PrimitiveEnumDynamicStr>(f: impl FnOnce() -> E) -> Option<String> {
        Some(call(|| shown(&PrimitiveEnumDynamicStr::to_display_str(&f()))))
    }
}
#[cfg(not(feature = "heap"))]
mod dynamic {
    pub fn all<E>() -> Option<String> {
        None
    }
    pub fn catch_all<E>() -> Option<String> {
        None
    }
    pub fn name<E>(_: E) -> Option<String> {
        None
    }
    pub fn show<E>(_: impl FnOnce() -> E) -> Option<String> {
        None
    }
}
fn list(v: Vec<i64>) -> String {
    format!("{:?}", v)
}
fn some(v: Vec<Option<String>>) -> String {
    v.into_iter().flatten().collect::<Vec<_>>().join(",")
}

impl<E> EnumOps for EOps<E>
where
    E: Subject,
    E::Primitive: Val,
{
    fn info(&self) -> String {
        let stat = call(|| list(PrimitiveEnumStaticStr::all_variants().iter().map(|e: &E| e.ix()).collect()));
        let all = some(vec![dynamic::all::<E>(), Some(stat), dynamic::catch_all::<E>()]);
        format!(
            "\"op\":\"info\",\"type\":\"{}\",\"size\":{},\"all\":[{}]",
            std::any::type_name::<E::Primitive>(),
            std::mem::size_of::<E::Primitive>(),
            all
        )
    }
    fn variant(&self, i: i64) -> String {
        let e = E::nth(i);
        let prim = [call(|| val_json(&e.to_primitive())), call(|| val_json(&EnumCatchAll::from(e).to_primitive())),
            call(|| val_json(&EnumCatchAll::from_enum(e).to_primitive()))];
        let names = some(vec![
            dynamic::name(e),
            Some(call(|| text(PrimitiveEnumStaticStr::to_display_str(&e)))),
            dynamic::name(EnumCatchAll::from(e)),
            dynamic::name(EnumCatchAll::from_enum(e)),
        ]);
        let back = call(|| opt(E::from_primitive(e.to_primitive())));
        let eq = call(|| {
            let (a, b, c) = (EnumCatchAll::from(e), EnumCatchAll::from_enum(e), EnumCatchAll::<E>::CatchAll(e.to_primitive()));
            format!("[{},{},{}]", (a == b) as u8, (a == c) as u8, (c != b) as u8)
        });
        format!("\"op\":\"variant\",\"i\":{},\"prim\":[{}],\"names\":[{}],\"back\":{},\"eq\":{}", i, prim.join(","), names, back, eq)
    }
    fn from(&self, wide: &[u8]) -> String {
        let (p, low) = prim_of::<E>(wide);
        let r = call(|| opt(E::from_primitive(p)));
        let c = call(|| val_json(&EnumCatchAll::<E>::from_primitive(p).unwrap()));
        let cp = call(|| val_json(&EnumCatchAll::<E>::from_primitive(p).unwrap().to_primitive()));
        let ct = dynamic::show(|| EnumCatchAll::<E>::from_primitive(p).unwrap()).unwrap_or("{\"k\":\"none\",\"x\":\"\"}".to_string());
        format!(
            "\"op\":\"from\",\"type\":\"{}\",\"b\":{},\"r\":{},\"c\":{},\"cp\":{},\"ct\":{}",
            std::any::type_name::<E::Primitive>(), low, r, c, cp, ct
        )
    }
    fn string(&self, s: &str) -> String {
        let ca = |c: Option<EnumCatchAll<E>>| match c {
            None => "0".to_string(),
            Some(EnumCatchAll::Enum(e)) => e.ix().to_string(),
            Some(EnumCatchAll::CatchAll(_)) => "-1".to_string(),
        };
        let exact = [call(|| opt(E::from_str(s))), call(|| ca(EnumCatchAll::<E>::from_str(s)))];
        let lower = [call(|| opt(E::from_str_lower(s))), call(|| ca(EnumCatchAll::<E>::from_str_lower(s)))];
        format!("\"op\":\"str\",\"s\":{},\"exact\":[{}],\"lower\":[{}]", text(s), exact.join(","), lower.join(","))
    }
    fn pair(&self, a: &[u8], b: &[u8]) -> String {
        let ((a, la), (b, lb)) = (prim_of::<E>(a), prim_of::<E>(b));
        let q = call(|| {
            let (x, y) = (EnumCatchAll::<E>::from_primitive(a).unwrap(), EnumCatchAll::<E>::from_primitive(b).unwrap());
            let z = EnumCatchAll::<E>::CatchAll(b);
            format!("[{},{},{}]", (x == y) as u8, (x != y) as u8, (x == z) as u8)
        });
        format!("\"op\":\"pair\",\"a\":{},\"b\":{},\"q\":{}", la, lb, q)
    }
}

fn run(script: &str, out: &mut dyn std::io::Write, make: &(dyn Fn(usize) -> Box<dyn EnumOps> + Sync)) {
    let mut cur = None;
    for line in script.lines() {
        let (op, args) = line.split_at(1);
        let mut r = Rd::new(args);
        if op == "G" {
            let k = r.num() as usize;
            cur = Some((k, make(k)));
        }
        let (k, e) = cur.as_ref().unwrap();
        let s = match op {
            "G" => e.info(),
            "V" => e.variant(r.num()),
            "F" => e.from(&r.rest()),
            "S" => {
                let mut s = String::new();
                while let Some(c) = r.opt() {
                    s.push(char::from_u32(c as u32).unwrap());
                }
                e.string(&s)
            }
            "Q" => {
                let b = r.rest();
                e.pair(&b[..b.len() / 2], &b[b.len() / 2..])
            }
            _ => panic!("unknown operation"),
        };
        let _ = writeln!(out, "{{\"e\":{},{}}}", k, s);
    }
}

pub fn main_with(make: &(dyn Fn(usize) -> Box<dyn EnumOps> + Sync)) {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let script = std::fs::read_to_string(&a[1]).expect("script");
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[2]).expect("trace"));
    replay(&script, 'G', &mut out, &|part, out| run(part, out, make));
    out.flush().expect("trace");
}
