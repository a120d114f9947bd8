// Recording ends of serde: what is asked of a serialiser, and of a deserialiser.
use serde::{de, ser, Deserialize, Serialize};

#[derive(Debug)]
struct No;
impl std::fmt::Display for No {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("no")
    }
}
impl std::error::Error for No {}
impl ser::Error for No {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        No
    }
}
impl de::Error for No {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        No
    }
}

/// Asked for text (true) or for a compact form.
struct Calls(bool);
macro_rules! num_calls {
    ($($f:ident $t:ident),*) => {$(
        fn $f(self, v: $t) -> Result<String, No> {
            Ok(format!("{} {}", stringify!($t), v))
        }
    )*}
}
macro_rules! other_calls {
    ($($f:ident ($($a:ident: $t:ty),*) $r:ty;)*) => {$(
        fn $f(self, $($a: $t),*) -> Result<$r, No> {
            $(let _ = $a;)*
            Err(No)
        }
    )*}
}
impl ser::Serializer for Calls {
    type Ok = String;
    type Error = No;
    type SerializeSeq = ser::Impossible<String, No>;
    type SerializeTuple = ser::Impossible<String, No>;
    type SerializeTupleStruct = ser::Impossible<String, No>;
    type SerializeTupleVariant = ser::Impossible<String, No>;
    type SerializeMap = ser::Impossible<String, No>;
    type SerializeStruct = ser::Impossible<String, No>;
    type SerializeStructVariant = ser::Impossible<String, No>;
    fn is_human_readable(&self) -> bool {
        self.0
    }
    num_calls!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
        serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_i128 i128, serialize_u128 u128,
        serialize_f32 f32, serialize_f64 f64, serialize_char char);
    fn serialize_str(self, v: &str) -> Result<String, No> {
        Ok(format!("str {}", v))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<String, No> {
        Ok(format!("bytes {:?}", v))
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<String, No> {
        Ok(format!("some {}", v.serialize(self)?))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, n: &'static str, v: &T) -> Result<String, No> {
        Ok(format!("newtype {} {}", n, v.serialize(self)?))
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, n: &'static str, _: u32, _: &'static str, v: &T) -> Result<String, No> {
        Ok(format!("variant {} {}", n, v.serialize(self)?))
    }
    fn serialize_none(self) -> Result<String, No> {
        Ok("none".to_string())
    }
    fn serialize_unit(self) -> Result<String, No> {
        Ok("unit".to_string())
    }
    other_calls! {
        serialize_unit_struct(_n: &'static str) String;
        serialize_unit_variant(_n: &'static str, _i: u32, _v: &'static str) String;
        serialize_seq(_n: Option<usize>) Self::SerializeSeq;
        serialize_tuple(_n: usize) Self::SerializeTuple;
        serialize_tuple_struct(_n: &'static str, _l: usize) Self::SerializeTupleStruct;
        serialize_tuple_variant(_n: &'static str, _i: u32, _v: &'static str, _l: usize) Self::SerializeTupleVariant;
        serialize_map(_n: Option<usize>) Self::SerializeMap;
        serialize_struct(_n: &'static str, _l: usize) Self::SerializeStruct;
        serialize_struct_variant(_n: &'static str, _i: u32, _v: &'static str, _l: usize) Self::SerializeStructVariant;
    }
}

/// Hands one native value over, whatever is asked for, and remembers what was.
struct Give<'a, T>(T, &'a std::cell::RefCell<String>, bool);
trait Visit: Copy {
    fn visit<'de, V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, No>;
}
macro_rules! visits {
    ($($t:ident $f:ident),*) => {$(
        impl Visit for $t {
            fn visit<'de, V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, No> { v.$f(self) }
        }
    )*}
}
visits!(u8 visit_u8, i8 visit_i8, u16 visit_u16, i16 visit_i16, u32 visit_u32, i32 visit_i32, u64 visit_u64, i64 visit_i64);
macro_rules! asks {
    ($($f:ident $($a:ident: $t:ty)*;)*) => {$(
        fn $f<V: de::Visitor<'de>>(self, $($a: $t,)* v: V) -> Result<V::Value, No> {
            $(let _ = $a;)*
            self.1.borrow_mut().push_str(stringify!($f));
            self.0.visit(v)
        }
    )*}
}
impl<'de, 'a, T: Visit> de::Deserializer<'de> for Give<'a, T> {
    type Error = No;
    fn is_human_readable(&self) -> bool {
        self.2
    }
    asks! {
        deserialize_any; deserialize_bool; deserialize_i8; deserialize_i16; deserialize_i32; deserialize_i64; deserialize_i128;
        deserialize_u8; deserialize_u16; deserialize_u32; deserialize_u64; deserialize_u128; deserialize_f32; deserialize_f64;
        deserialize_char; deserialize_str; deserialize_string; deserialize_bytes; deserialize_byte_buf; deserialize_option;
        deserialize_unit; deserialize_unit_struct _n: &'static str; deserialize_newtype_struct _n: &'static str;
        deserialize_seq; deserialize_tuple _n: usize; deserialize_tuple_struct _n: &'static str _l: usize; deserialize_map;
        deserialize_struct _n: &'static str _f: &'static [&'static str]; deserialize_enum _n: &'static str _f: &'static [&'static str];
        deserialize_identifier; deserialize_ignored_any;
    }
}

#[derive(Serialize, Deserialize)]
struct Holder<T> {
    a: T,
    b: Vec<T>,
    c: Option<T>,
    d: (T, bool),
}
fn held<T: Copy>(x: T) -> Holder<T> {
    Holder { a: x, b: vec![x, x], c: Some(x), d: (x, true) }
}
fn r2s<T, E>(r: Result<T, E>, f: impl FnOnce(T) -> String) -> String {
    match r {
        Ok(x) => rt::ok_json(f(x)),
        Err(_) => "{\"k\":\"err\",\"x\":[\"serde\"]}".to_string(),
    }
}
fn gg(f: impl FnOnce() -> String) -> String {
    match guarded(f) {
        Ok(s) | Err(s) => s,
    }
}

macro_rules! serde_ops {
    ($me:expr, $op:expr, $r:expr, $out:expr, $t:ident, $I:ty, $ty:expr) => {
        match $op {
            "S" => {
                let v = match $me.0 { Some(v) => v, None => return };
                let call = gg(|| r2s(v.serialize(Calls(true)), |s| sj(&s)));
                let compact = gg(|| r2s(v.serialize(Calls(false)), |s| sj(&s)));
                let text = gg(|| r2s(serde_json::to_string(&v), |s| sj(&s)));
                let held = |s: Result<String, _>| s.map(|s| s.replace(' ', ""));
                let holder = gg(|| r2s(held(serde_json::to_string(&self::held(v))), |s| sj(&s)));
                let native = gg(|| r2s(held(serde_json::to_string(&self::held(*v))), |s| sj(&s)));
                let again = gg(|| r2s(serde_json::to_string(&v).and_then(|s| serde_json::from_str::<$I>(&s)), |x| js(&*x)));
                let through = gg(|| {
                    let c = std::cell::RefCell::new(String::new());
                    r2s(<$I>::deserialize(Give(*v, &c, false)), |x| js(&*x))
                });
                let _ = writeln!($out, "{{\"op\":\"ser\",\"call\":{},\"compact\":{},\"text\":{},\"holder\":{},\"native\":{},\"again\":{},\"through\":{}}}",
                    call, compact, text, holder, native, again, through);
            }
            "D" => {
                let x = <$t>::rd($r);
                let c = std::cell::RefCell::new(String::new());
                let n = std::cell::RefCell::new(String::new());
                let d = gg(|| {
                    let v = <$I>::deserialize(Give(x, &c, true));
                    $me.0 = v.as_ref().ok().copied();
                    r2s(v, |v| js(&*v))
                });
                let _ = gg(|| r2s(<$t>::deserialize(Give(x, &n, true)), |v| js(&v)));
                let compact = gg(|| {
                    let c = std::cell::RefCell::new(String::new());
                    r2s(<$I>::deserialize(Give(x, &c, false)), |v| js(&*v))
                });
                let place = gg(|| {
                    let c = std::cell::RefCell::new(String::new());
                    let mut v = <$I>::default();
                    r2s(de::Deserialize::deserialize_in_place(Give(x, &c, true), &mut v).map(|_| v), |v| js(&*v))
                });
                let text = gg(|| r2s(serde_json::from_str::<$I>(&x.to_string()), |v| js(&*v)));
                let val = gg(|| r2s(serde_json::from_value::<$I>(serde_json::Value::from(x)), |v| js(&*v)));
                let holder = gg(|| {
                    r2s(serde_json::from_str::<Holder<$I>>(&serde_json::to_string(&held(x)).unwrap()), |h| {
                        let same = *h.a == *h.b[0] && *h.a == *h.b[1] && h.b.len() == 2 && *h.a == *h.c.unwrap() && *h.a == *h.d.0;
                        if same { js(&*h.a) } else { "[]".to_string() }
                    })
                });
                let _ = writeln!($out, "{{\"op\":\"de\",{},\"x\":{},\"r\":{},\"more\":[{},{},{},{},{}],\"asked\":[{},{}]}}",
                    $ty, js(&x), d, text, val, holder, compact, place, sj(&c.borrow()), sj(&n.borrow()));
            }
            _ => {
                let s = String::from_utf8($r.rest()).unwrap();
                let d = gg(|| {
                    let v = serde_json::from_str::<$I>(&s);
                    $me.0 = v.as_ref().ok().copied();
                    r2s(v, |v| js(&*v))
                });
                let n = gg(|| r2s(serde_json::from_str::<$t>(&s), |v| js(&v)));
                let _ = writeln!($out, "{{\"op\":\"detext\",{},\"s\":{},\"r\":{},\"n\":{}}}", $ty, sj(&s), d, n);
            }
        }
    };
}
