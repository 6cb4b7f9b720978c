//! C01: every call gives what the same call gives alone in a fresh process.
use super::c05::{gen_layout, render, Layout};
use super::*;
use kserd::fmt::Formatter;
use kserd::nav::{Navigator, NodeValue};
use kserd::{Kserd, Kstr, Number, ToKserd, ToKserdErr, Value};
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use serde_derive::{Deserialize as De, Serialize as Ser};
use simrt::{count, ev, nontrivial, result, violation};
use std::cell::Cell;
use std::fmt::{self, Write};

pub const C01: Prop = Prop {
    id: "C01",
    run,
    quick: 60_000,
    thorough: 1_500_000,
    wall: 60,
    rule: "Each run draws shared values and texts, a pool of calls (encode, decode, format, parse, navigate, compare, hash, convert, with failing, panicking and re-entrant callbacks), 1 to 4 threads with histories of calls from the pool, a hash seed and the interleaving; non-trivial when a call was made after or during another one. The yardstick is each call alone in a freshly forked process with another hash seed in which only its own arguments were made.",
    real: &["kserd encoder, decoder, formatter, parser, navigator, values, conversions (unmodified, from /repo)", "std HashMap with drawn seeds", "std locks, should the library use any"],
    stub: &["OS scheduler", "OS randomness (hash seeds)", "locks (futex)", "caller callbacks", "allocator (freed memory poisoned)"],
    assume: &["the process the yardstick is taken in is a fork of one that never called the library", "values up to about 60 nodes, at most 4 threads with 6 kinds of calls each, repeated up to 300 times", "sampling: a clean batch is evidence, not proof"],
};

// ---------------------------------------------------------------- the calls

#[derive(Clone, Debug)]
pub struct Call {
    pub kind: u64,
    /// documents and texts it works on
    pub a: usize,
    pub b: usize,
    /// form of the call
    pub c: u64,
    /// works on a copy at an address earlier calls used, too
    pub local: bool,
    pub layout: Layout,
    /// what the callback does: 0 nothing, 1 fail, 2 panic, 3 make another call
    pub fault: u64,
    pub at: u64,
    pub inner: Option<Box<Call>>,
    /// what it answers alone, for calls made by callbacks
    alone: std::sync::OnceLock<String>,
}
pub const KINDS: &[&str] = &["encode", "decode", "format", "session", "parse", "navigate", "compare", "hash", "convert", "sink", "typed", "to-kserd", "number", "names", "shared-view", "edit"];

fn gen_call(docs: usize, texts: usize, kinds: &[u64], depth: u32) -> Call {
    let kind = pick(kinds);
    let fault = match fl(8) {
        0..=2 => 0,
        3 | 4 => 1,
        5 => 2,
        _ => 3,
    };
    let kin = [kind];
    let inner = if fault == 3 && depth > 0 { Some(Box::new(gen_call(docs, texts, if chance(1, 2) { kinds } else { &kin }, depth - 1))) } else { None };
    Call { kind, a: w(docs as u64) as usize, b: w(if kind == 4 { texts as u64 } else { docs as u64 }) as usize, c: w(60), local: chance(1, 3), layout: gen_layout(), fault, at: if fchance(1, 2) { fl(3) } else { fl(12) }, inner, alone: Default::default() }
}

/// What the calls work on. Only the parts a call needs are made for the yardstick.
pub struct World<'w> {
    pub k: Vec<Option<Kserd<'w>>>,
    pub nav: Vec<Option<Navigator<'w, 'w>>>,
    pub fmt: Vec<Option<Formatter<'w, 'w>>>,
    pub texts: &'w [String],
    pub ms: &'w [M],
    /// re-entrant callbacks really make their calls
    pub nest: bool,
}

/// Counts callbacks down to the planned fault.
struct Ctx<'x> {
    left: Cell<u64>,
    call: &'x Call,
    w: &'x World<'x>,
}
enum Hit {
    No,
    Fail,
}
impl Ctx<'_> {
    fn hit(&self) -> Hit {
        simrt::yield_point("callback");
        let n = self.left.get();
        self.left.set(n.wrapping_sub(1));
        if n != 0 {
            return Hit::No;
        }
        match self.call.fault {
            1 => {
                count("fault.callback-failed");
                Hit::Fail
            }
            2 => {
                count("fault.callback-panicked");
                panic!("callback panics at {}", self.call.at)
            }
            3 => {
                if let (true, Some(c)) = (self.w.nest, &self.call.inner) {
                    count("fault.callback-made-a-call");
                    let got = exec(c, self.w);
                    if let Some(want) = c.alone.get() {
                        differs(&got, want, c, "made by a callback");
                    }
                }
                Hit::No
            }
            _ => Hit::No,
        }
    }
}

struct Enc<'x>(&'x M, &'x Ctx<'x>);
impl Serialize for Enc<'_> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        if let Hit::Fail = self.1.hit() {
            return Err(ser::Error::custom("callback fails"));
        }
        let Enc(m, c) = *self;
        let named = m.id.is_some();
        match &m.v {
            V::Unit => z.serialize_unit(),
            V::Bool(b) => z.serialize_bool(*b),
            V::U(x) => z.serialize_u128(*x),
            V::I(x) => z.serialize_i128(*x),
            V::F(x) => z.serialize_f64(*x),
            V::Str(s) if s.len() % 3 == 1 => z.collect_str(&Shown(s, c)),
            V::Str(s) => z.serialize_str(s),
            V::Barr(b) => z.serialize_bytes(b),
            V::Tuple(l) if l.len() == 1 && m.id.as_deref() == Some("Some") => z.serialize_some(&Enc(&l[0], c)),
            V::Tuple(l) if l.is_empty() && m.id.as_deref() == Some("None") => z.serialize_none(),
            V::Tuple(l) if l.is_empty() && named => z.serialize_unit_variant("Enum", 0, "Unit"),
            V::Tuple(l) if l.is_empty() => z.serialize_unit_struct("UnitStruct"),
            V::Tuple(l) if l.len() == 1 && m.id.as_deref() == Some("Point") => z.serialize_newtype_struct("New", &Enc(&l[0], c)),
            V::Tuple(l) if l.len() == 1 && named => z.serialize_newtype_variant("Enum", 2, "NewVariant", &Enc(&l[0], c)),
            V::Tuple(l) if l.len() == 1 => z.serialize_some(&Enc(&l[0], c)),
            V::Tuple(l) if named => {
                let mut t = z.serialize_tuple_struct("Named", l.len())?;
                for x in l {
                    t.serialize_field(&Enc(x, c))?;
                }
                t.end()
            }
            V::Tuple(l) if l.len() % 2 == 1 => {
                let mut t = z.serialize_tuple_variant("Enum", 1, "Variant", l.len())?;
                for x in l {
                    t.serialize_field(&Enc(x, c))?;
                }
                t.end()
            }
            V::Tuple(l) => {
                let mut t = z.serialize_tuple(l.len())?;
                for x in l {
                    t.serialize_element(&Enc(x, c))?;
                }
                t.end()
            }
            V::Seq(l) => {
                let mut t = z.serialize_seq(if named { None } else { Some(l.len()) })?;
                for x in l {
                    t.serialize_element(&Enc(x, c))?;
                }
                t.end()
            }
            V::Cntr(l) if named => {
                let mut t = z.serialize_struct_variant("Enum", 3, "Rec", l.len())?;
                for (n, x) in l {
                    t.serialize_field(fixed(n), &Enc(x, c))?;
                }
                t.end()
            }
            V::Cntr(l) => {
                let mut t = z.serialize_struct("Struct", l.len())?;
                for (n, x) in l {
                    t.serialize_field(fixed(n), &Enc(x, c))?;
                }
                t.end()
            }
            V::Map(l) => {
                let mut t = z.serialize_map(Some(l.len()))?;
                for (a, b) in l {
                    if named {
                        t.serialize_entry(&Enc(a, c), &Enc(b, c))?;
                        continue;
                    }
                    t.serialize_key(&Enc(a, c))?;
                    t.serialize_value(&Enc(b, c))?;
                }
                t.end()
            }
        }
    }
}

/// Text that is asked for piece by piece.
struct Shown<'x>(&'x str, &'x Ctx<'x>);
impl fmt::Display for Shown<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for c in self.0.chars().take(3) {
            f.write_char(c)?;
            if let Hit::Fail = self.1.hit() {
                return Err(fmt::Error);
            }
        }
        f.write_str(self.0)
    }
}
/// A name that is asked for.
struct Asked<'x>(&'x str, &'x Ctx<'x>);
impl From<Asked<'_>> for Kstr<'static> {
    fn from(a: Asked) -> Kstr<'static> {
        let _ = a.1.hit();
        Kstr::owned(a.0.to_string())
    }
}

/// Reads whatever is there, as text.
#[derive(Clone, Copy)]
struct Dec<'x>(&'x Ctx<'x>);
impl<'de> DeserializeSeed<'de> for Dec<'_> {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        let left = self.0.left.get();
        let first = left == self.0.call.at;
        match self.0.call.c % 10 {
            3 => d.deserialize_option(self),
            4 => d.deserialize_enum("Enum", &["a", "b"], self),
            5 if first => d.deserialize_struct("Struct", &["a", "b"], self),
            6 if first => d.deserialize_newtype_struct("New", self),
            7 => match left % 23 {
                0 => d.deserialize_bool(self),
                1 => d.deserialize_i8(self),
                2 => d.deserialize_u64(self),
                3 => d.deserialize_i128(self),
                4 => d.deserialize_f32(self),
                5 => d.deserialize_char(self),
                6 => d.deserialize_str(self),
                7 => d.deserialize_string(self),
                8 => d.deserialize_bytes(self),
                9 => d.deserialize_byte_buf(self),
                10 => d.deserialize_unit(self),
                11 => d.deserialize_unit_struct("Unit", self),
                12 => d.deserialize_seq(self),
                13 => d.deserialize_map(self),
                14 => d.deserialize_tuple(2, self),
                15 => d.deserialize_tuple_struct("Tuple", 2, self),
                16 => d.deserialize_identifier(self),
                17 => d.deserialize_ignored_any(self),
                18 | 19 => d.deserialize_enum("Enum", &["a", "b"], self),
                _ => d.deserialize_any(self),
            },
            _ => d.deserialize_any(self),
        }
    }
}
macro_rules! leaf {
    ($($f:ident $t:ty),*) => { $(fn $f<E: de::Error>(self, x: $t) -> Result<String, E> {
        match self.0.hit() {
            Hit::Fail => Err(E::custom("callback fails")),
            Hit::No => Ok(format!("{} {x:?}", stringify!($f))),
        }
    })* }
}
impl<'de> Visitor<'de> for Dec<'_> {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    leaf!(visit_bool bool, visit_i64 i64, visit_i128 i128, visit_u64 u64, visit_u128 u128, visit_f64 f64, visit_char char, visit_str &str, visit_borrowed_str &'de str, visit_string String, visit_bytes &[u8], visit_borrowed_bytes &'de [u8], visit_byte_buf Vec<u8>);
    fn visit_unit<E: de::Error>(self) -> Result<String, E> {
        match self.0.hit() {
            Hit::Fail => Err(E::custom("callback fails")),
            Hit::No => Ok("unit".into()),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<String, E> {
        Ok("none".into())
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        Ok(format!("some {}", d.deserialize_any(self)?))
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        Ok(format!("newtype {}", d.deserialize_any(self)?))
    }
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<String, A::Error> {
        if let Hit::Fail = self.0.hit() {
            return Err(de::Error::custom("callback fails"));
        }
        let (n, v) = a.variant::<String>()?;
        let x = match (self.0.call.c + self.0.left.get()) % 5 {
            0 => de::VariantAccess::unit_variant(v).map(|_| "unit".into())?,
            1 => de::VariantAccess::tuple_variant(v, 2, self)?,
            2 => de::VariantAccess::struct_variant(v, &["a", "b"], self)?,
            _ => de::VariantAccess::newtype_variant_seed(v, self)?,
        };
        Ok(format!("variant {n} {x}"))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<String, A::Error> {
        if let Hit::Fail = self.0.hit() {
            return Err(de::Error::custom("callback fails"));
        }
        let mut s = format!("seq{:?}[", a.size_hint());
        while let Some(x) = a.next_element_seed(self)? {
            s.push_str(&x);
            s.push(',');
        }
        Ok(s + "]")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<String, A::Error> {
        if let Hit::Fail = self.0.hit() {
            return Err(de::Error::custom("callback fails"));
        }
        let mut s = format!("map{:?}[", a.size_hint());
        while let Some(x) = a.next_key_seed(self)? {
            s.push_str(&x);
            s.push('=');
            s.push_str(&a.next_value_seed(self)?);
            s.push(',');
        }
        Ok(s + "]")
    }
}

#[derive(Ser, De, Debug, Clone, PartialEq)]
enum Kind {
    Unit,
    New(u8),
    Pair(i64, String),
    Rec { a: bool, foo: Option<f64> },
}
#[derive(Ser, De, Debug, Clone, PartialEq)]
struct Typed {
    a: u32,
    b: Option<String>,
    foo: Vec<Kind>,
    value: (i8, f64, char),
    id: std::collections::BTreeMap<String, u64>,
}
fn typed(c: u64) -> Typed {
    Typed {
        a: c as u32 * 77,
        b: (c % 3 == 0).then(|| "text".repeat(c as usize % 5)),
        foo: (0..c % 5).map(|i| match (i + c) % 4 {
            0 => Kind::Unit,
            1 => Kind::New(c as u8),
            2 => Kind::Pair(-(c as i64), "é\n".into()),
            _ => Kind::Rec { a: c % 2 == 0, foo: (c % 2 == 0).then_some(c as f64 / 3.0) },
        })
        .collect(),
        value: (-(c as i8), c as f64 / 7.0, 'x'),
        id: (0..c % 4).map(|i| (format!("k{i}"), i * c)).collect(),
    }
}
struct Conv<'x>(u64, &'x Ctx<'x>);
impl<'a> ToKserd<'a> for Conv<'_> {
    fn into_kserd(self) -> Result<Kserd<'a>, ToKserdErr> {
        if let Hit::Fail = self.1.hit() {
            Kserd::with_id("callback fails", Value::Unit)?;
        }
        self.0.into_kserd()
    }
}

struct Sink<'x> {
    s: String,
    left: usize,
    cx: &'x Ctx<'x>,
}
impl fmt::Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if let Hit::Fail = self.cx.hit() {
            return Err(fmt::Error);
        }
        if s.len() > self.left {
            count("fault.sink-rejected");
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.s.push_str(s);
        Ok(())
    }
}

fn show<T: fmt::Debug, E: fmt::Debug + fmt::Display>(r: Result<T, E>) -> String {
    match r {
        Ok(x) => format!("{x:?}"),
        Err(e) => format!("error {e} / {e:?}"),
    }
}
fn value(r: Result<Kserd, impl fmt::Display>) -> String {
    match r {
        Ok(k) => M::of(&k).digest(),
        Err(e) => format!("error {e}"),
    }
}
fn view(nav: &Navigator, c: u64) -> String {
    let mut s = format!("{} ", nav.len());
    for n in nav.nodes() {
        let kids: Vec<usize> = match n.value() {
            NodeValue::Primitive => vec![],
            NodeValue::Tuple(i) | NodeValue::Seq(i) => i.map(|x| x.index()).collect(),
            NodeValue::Cntr(i) => i.map(|x| x.1.index()).collect(),
            NodeValue::Map(i) => i.flat_map(|x| [x.0.index(), x.1.index()]).collect(),
        };
        let k: Vec<usize> = n.key_children().map(|x| x.index()).collect();
        let v: Vec<usize> = n.value_children().map(|x| x.index()).collect();
        let _ = write!(s, "{}:{:?}:{}:{}:{kids:?}:{k:?}:{v:?} ", n.index(), n.parent().map(|p| p.index()), n.is_key(), n.idx_in_parent());
        if n.index() as u64 == c {
            // leaves the iterator unfinished
            let d: Vec<usize> = n.descendants_depth().iter().map(|x| x.index()).collect();
            let b: Vec<usize> = n.descendants_breadth().iter().map(|x| x.index()).collect();
            let _ = write!(s, "{d:?} {b:?}");
            if c % 5 == 0 {
                break;
            }
        }
    }
    s
}
fn requests(f: &mut Formatter, c: u64, at: u64) -> String {
    let mut s = String::new();
    let n = f.len() as u64;
    for i in 0..4 {
        let x = ((c * 7 + i * 13 + at) % (n + 1)) as usize;
        let _ = match (c + i) % 5 {
            0 => write!(s, "{:?} ", f.inline(x)),
            1 => write!(s, "{:?} ", f.concise(x)),
            2 => write!(s, "{:?} ", f.verbose(x)),
            3 => write!(s, "{:?} ", f.id(x, c % 2 == 0)),
            _ => write!(s, "{:?} ", f.fmts()),
        };
    }
    s + &f.write_string("> ".into())
}

fn differs(got: &str, want: &str, c: &Call, at: &str) -> bool {
    let _m = simrt::Mask::new();
    let got = cut(got, REGION - 64);
    if got == want {
        return false;
    }
    let n = got.bytes().zip(want.bytes()).take_while(|x| x.0 == x.1).count();
    let kind = KINDS[c.kind as usize];
    violation(&format!("answer-differs {kind}"), &format!("{at}: {kind} {c:?} differs from byte {n} on: {:?}, alone in a fresh process {:?}", cut(&got, 1500), cut(want, 1500)));
    true
}

const PAGE_SIZE: usize = 1 << 16;
thread_local! {
    /// where every text a thread reads is put
    static PAGE: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}
fn read(t: &str) -> String {
    match kserd::parse::parse(t) {
        Ok(k) => M::of(&k).digest(),
        Err(e) => {
            let l: Vec<String> = e.iter().map(|t| format!("{t}")).collect();
            format!("refused {e:?} {l:?} {}", e.backtrace())
        }
    }
}

/// One call; everything it answers, as text.
pub fn exec(call: &Call, w: &World) -> String {
    match guard(|| exec_inner(call, w)) {
        Ok(s) => s,
        Err(p) => format!("panicked: {p}"),
    }
}
fn exec_inner(call: &Call, w: &World) -> String {
    let cx = Ctx { left: Cell::new(call.at), call, w };
    let (a, b, c) = (call.a, call.b, call.c);
    // the copy takes the place of the copies of other calls
    let (mut copy_a, mut copy_b) = (None, None);
    if call.local && call.kind != 14 {
        copy_a = w.k[a].clone();
        copy_b = w.k.get(b).and_then(|x| x.clone());
    }
    let k = |i: usize| match (&copy_a, &copy_b) {
        (Some(x), _) if i == a => x,
        (_, Some(x)) if i == b => x,
        _ => w.k[i].as_ref().unwrap(),
    };
    match call.kind {
        0 => value(Kserd::enc(&Enc(&w.ms[a], &cx))),
        1 => {
            let x = match c % 3 {
                0 => k(a).clone(),
                1 => k(a).mk_brw(),
                _ => k(a).clone().into_owned(),
            };
            show(Dec(&cx).deserialize(kserd::encode::Decoder(x)))
        }
        2 => match c % 6 {
            0 => k(a).as_str(),
            1 => format!("{:?}", k(a)),
            2 => format!("{:#?}", k(a)),
            _ => match &call.layout {
                Layout::Cfg(cfg) => k(a).as_str_with_config(*cfg),
                l => render(&w.ms[a], l).unwrap_or_else(|| "panicked".into()),
            },
        },
        3 => {
            let mut f = Formatter::new(k(a));
            if let Layout::Cfg(cfg) = &call.layout {
                f.apply_config(*cfg);
            }
            requests(&mut f, c, call.at)
        }
        4 if call.local => PAGE.with(|p| {
            let mut p = p.borrow_mut();
            p.clear();
            p.reserve(PAGE_SIZE);
            p.push_str(&w.texts[b]);
            read(&p)
        }),
        4 => read(&w.texts[b]),
        5 => view(&Navigator::new(k(a)), c),
        6 => format!("{} {:?} {:?} {}", k(a) == k(b), k(a).cmp(k(b)), k(a).partial_cmp(k(b)), k(a).val == k(b).val),
        7 => {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            let n = match c % 5 {
                0 => Number::from(c),
                1 => Number::from(-(c as i64)),
                2 => Number::from(c as f64),
                3 => Number::from(c as f64 / 3.0),
                _ => Number::from(u128::MAX - c as u128),
            };
            n.hash(&mut h);
            format!("{} {n} {n:?}", h.finish())
        }
        8 => {
            let x = k(a).mk_brw();
            let y = x.clone().into_owned();
            let z = Kserd { id: x.id.clone(), val: x.val.mk_brw() };
            format!("{} {} {}", M::of(&x).digest(), M::of(&y).digest(), M::of(&z).digest())
        }
        9 => {
            let mut s = Sink { s: String::new(), left: if c % 2 == 0 { call.at as usize * 3 } else { usize::MAX }, cx: &cx };
            let r = match c % 7 {
                0 => write!(s, "{:?}", k(a)),
                1 => write!(s, "{:#?}", k(a)),
                2 => write!(s, "{}", k(a)),
                3 | 4 | 5 => {
                    let n = match c / 7 % 4 {
                        0 => Number::from(c),
                        1 => Number::from(-(c as i64)),
                        2 => Number::from(c as f64 / 3.0),
                        _ => Number::from(c as f64 * 1e20),
                    };
                    write!(s, "{n} {n:?} {} {:?}", Kstr::brwed("text"), kserd::ds::Barr::brwed(&[1, 2]))
                }
                _ => match kserd::parse::parse(&w.texts[b % w.texts.len()]) {
                    Ok(k) => write!(s, "{:?}", k.val),
                    Err(e) => write!(s, "{e:?}"),
                },
            };
            format!("{r:?} {}", s.s)
        }
        10 => {
            let t = typed(c);
            let e = Kserd::enc(&t);
            let x = value(e.clone());
            let y = match e {
                Ok(k) => show(k.decode::<Typed>()),
                _ => String::new(),
            };
            let z = match c % 4 {
                0 => show(k(a).clone().decode::<Typed>()),
                1 => show(k(a).clone().decode::<Vec<Kind>>()),
                2 => show(k(a).clone().decode::<(u8, String)>()),
                _ => show(k(a).clone().decode::<std::collections::BTreeMap<String, f32>>()),
            };
            format!("{x} {y} {z}")
        }
        11 => {
            let l: Vec<Conv> = (0..3 + c % 4).map(|i| Conv(i * c, &cx)).collect();
            match c % 4 {
                0 => value(l.into_kserd()),
                1 => value((1u8, "x", Conv(c, &cx)).into_kserd()),
                2 => value(Some(Conv(c, &cx)).into_kserd()),
                _ => value(Ok::<_, String>(Box::new(Conv(c, &cx))).into_kserd()),
            }
        }
        12 => {
            let t = ["1", "-1", "1.5", "1e400", "nan", "inf", "-0", "340282366920938463463374607431768211456", "+7", "x", "", "1_000", "0x10"][c as usize % 13];
            let n = t.parse::<Number>();
            match n {
                Ok(n) => format!("{n} {n:?} {:?} {:?} {}", n.as_u128(), n.as_i128(), n.as_f64()),
                Err(e) => format!("error {e} {e:?}"),
            }
        }
        13 => {
            let t = ["a", "a b", "", "é", "x-y", "1x", "a.b", "(", "true", "tab\tx"][c as usize % 10];
            if c >= 40 {
                let l = (0..1 + c % 3).map(|_| (Asked(t, &cx), Kserd::new_unit()));
                let x = if c >= 50 { value(Kserd::with_id(Asked(t, &cx), Value::Unit)) } else { String::new() };
                return format!("{x} {}", value(Kserd::new_cntr(l)));
            }
            let x = Kserd::with_id(t, Value::Unit);
            let y = Kserd::new_cntr(vec![(t, Kserd::new_bool(true)), ("b", Kserd::new_unit())]);
            format!("{} {}", value(x), value(y))
        }
        14 => match c % 3 {
            0 => view(w.nav[a].as_ref().unwrap(), c),
            1 => w.fmt[a].as_ref().unwrap().write_string("# ".into()),
            _ => format!("{:?}", w.fmt[a].as_ref().unwrap().fmts()),
        },
        _ => {
            let mut x = k(a).mk_brw();
            x.id = Some(Kstr::brwed("new"));
            if let Some(s) = x.str_mut() {
                s.push('!')
            }
            if let Some(l) = x.tuple_or_seq_mut() {
                if let Some(y) = l.first_mut() {
                    *y = Kserd::new_num(c)
                }
            }
            if let Some(mut f) = x.cntr_mut() {
                for n in NAMES {
                    if let Some(s) = f.get_str_mut(*n) {
                        s.insert(0, '>')
                    }
                    if let Some(n) = f.get_num_mut(*n) {
                        *n = Number::from(c)
                    }
                }
            }
            if let Some(m) = x.map_mut() {
                m.insert(Kserd::new_str("fresh"), Kserd::new_num(c));
            }
            M::of(&x).digest()
        }
    }
}

/// The documents a call touches.
fn needs(c: &Call, out: &mut Vec<(usize, bool)>) {
    out.push((c.a, c.kind == 14));
    if c.kind == 6 {
        out.push((c.b, false));
    }
}
pub fn world<'w>(ms: &'w [M], texts: &'w [String], hold: &'w [std::sync::OnceLock<Kserd<'w>>], need: &[(usize, bool)], own: bool, nest: bool) -> World<'w> {
    let mut x = World { k: vec![], nav: vec![], fmt: vec![], texts, ms, nest };
    for i in 0..ms.len() {
        let used = need.iter().any(|n| n.0 == i);
        let seen = need.iter().any(|n| n.0 == i && n.1);
        let k = used.then(|| &*hold[i].get_or_init(|| if own { ms[i].own() } else { ms[i].brw() }));
        x.k.push(k.map(|k| if own { k.clone() } else { k.mk_brw() }));
        x.nav.push(k.filter(|_| seen).map(Navigator::new));
        x.fmt.push(k.filter(|_| seen).map(Formatter::new));
    }
    x
}

pub const REGION: usize = 1 << 20;
/// Runs `f` alone in a process that has not used the library.
fn alone(region: *mut u8, seed: u64, f: impl FnOnce() -> String + Send) -> Option<String> {
    let e = simrt::in_child(20, || {
        simrt::use_shared(std::ptr::null_mut());
        simrt::set_hash_seed(seed);
        let s = std::thread::scope(|t| std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(t, f).unwrap().join());
        let Ok(s) = s else { return 3 };
        let s = cut(&s, REGION - 64);
        unsafe {
            *(region as *mut u64) = s.len() as u64;
            std::ptr::copy_nonoverlapping(s.as_ptr(), region.add(8), s.len());
        }
        0
    });
    if e != simrt::Exit::Code(0) {
        return None;
    }
    let b = unsafe { std::slice::from_raw_parts(region.add(8), *(region as *const u64) as usize) };
    Some(String::from_utf8(b.to_vec()).unwrap())
}
/// Send for a pointer into memory only the forked processes touch in turn.
#[derive(Clone, Copy)]
struct Region(*mut u8);

/// Documents, texts and the pool of calls of a run.
pub struct Pool {
    pub ms: &'static [M],
    pub texts: &'static [String],
    pub calls: Vec<Call>,
    pub focus: bool,
    /// of all documents, for limits
    pub size: usize,
}
pub type Cells = &'static [std::sync::OnceLock<Kserd<'static>>];
pub fn cells(ms: &[M]) -> Cells {
    Box::leak(ms.iter().map(|_| std::sync::OnceLock::new()).collect::<Vec<_>>().into_boxed_slice())
}
pub fn gen_pool(region: *mut u8, other: u64) -> Pool {
    let g = Gen::swarm(4, 4);
    // much the same call over and over, on values much the same
    let focus = chance(1, 3);
    let mut ms: Vec<M> = vec![];
    for _ in 0..1 + w(3) {
        let m = match ms.last() {
            // the same but for its texts, numbers and names
            Some(m) if focus || chance(1, 3) => sibling(m, &g),
            _ if chance(1, 8) => gen_tower(&g, 3 + w(26)),
            _ => gen(&g, g.depth),
        };
        ms.push(m);
    }
    // texts: what the library writes, some of it damaged
    let mut texts: Vec<String> = vec![];
    for _ in 0..1 + w(3) {
        let m = &ms[w(ms.len() as u64) as usize];
        let l = gen_layout();
        let t = alone(region, other, || render(m, &l).unwrap_or_default()).unwrap_or_default();
        let mut b = t.into_bytes();
        if fchance(1, 2) && !b.is_empty() {
            let i = fl(b.len() as u64) as usize;
            match fl(3) {
                0 => b.truncate(i),
                1 => b[i] ^= 1 << fl(7),
                _ => drop(b.remove(i)),
            }
            count("fault.text-damaged");
        }
        texts.push(String::from_utf8_lossy(&b).into_owned());
    }
    // the kinds of calls of this run
    let kinds: Vec<u64> = (0..if focus { 1 } else { 1 + w(5) }).map(|_| w(KINDS.len() as u64)).collect();
    let mut pool: Vec<Call> = vec![];
    for _ in 0..1 + w(6) {
        let mut c = gen_call(ms.len(), texts.len(), &kinds, 1);
        if focus {
            c.local = true;
        }
        if !pool.is_empty() && chance(1, if focus { 1 } else { 3 }) {
            // an earlier one with other arguments, or put another way
            let p = pool[w(pool.len() as u64) as usize].clone();
            if chance(if focus { 3 } else { 2 }, 4) {
                let b = if p.kind == 4 { c.b % texts.len() } else { c.b % ms.len() };
                c = Call { a: c.a, b, ..p };
            } else {
                c = Call { a: p.a, b: p.b, kind: p.kind, ..c };
            }
        }
        pool.push(c);
    }
    for (i, m) in ms.iter().enumerate() {
        ev!("document {i}: {}", cut(&m.digest(), 600));
    }
    for (i, t) in texts.iter().enumerate() {
        ev!("text {i}: {}", cut(&format!("{t:?}"), 600));
    }
    for (i, c) in pool.iter().enumerate() {
        ev!("call {i}: {} {c:?}", KINDS[c.kind as usize]);
    }
    let size = ms.iter().map(|m| 1 + m.size() + m.digest().len() / 64).sum();
    // the process ends with the run
    Pool { ms: Box::leak(ms.into_boxed_slice()), texts: Box::leak(texts.into_boxed_slice()), calls: pool, focus, size }
}

fn run() {
    // keeps the making of documents free of library calls
    plain_maps();
    let region = Region(simrt::sys::mmap_shared(REGION));
    let other = wide() ^ 0x5555;
    let Pool { ms, texts, calls: pool, focus, size } = gen_pool(region.0, other);
    let threads = if focus { 2 + w(3) } else { 1 + w(4) };
    let most = (8000 / size).max(2) as u64;
    let scripts: Vec<Vec<(usize, u64)>> = (0..threads)
        .map(|_| (0..1 + w(6)).map(|_| (w(pool.len() as u64) as usize, if chance(1, 16) { pick(&[3, 40, 140, 300]).min(most) } else { 1 })).collect())
        .collect();
    let own = chance(1, 2);
    // the yardstick
    let mut want: Vec<String> = vec![];
    for c in &pool {
        let s = alone(region.0, other, || {
            let mut need = vec![];
            needs(c, &mut need);
            let w = world(ms, texts, cells(ms), &need, own, false);
            exec(c, &w)
        });
        if let Some(i) = &c.inner {
            let s = alone(region.0, other, || {
                let mut need = vec![];
                needs(i, &mut need);
                let w = world(ms, texts, cells(ms), &need, own, false);
                exec(i, &w)
            });
            if let Some(s) = s {
                let _ = i.alone.set(s);
            }
        }
        match s {
            Some(s) => want.push(s),
            None => {
                violation("call-alone-died", &format!("{} {c:?} alone in a fresh process did not end", KINDS[c.kind as usize]));
                return;
            }
        }
    }
    let need: Vec<(usize, bool)> = (0..ms.len()).map(|i| (i, true)).collect();
    let cfg = sched_cfg(400_000_000);
    let world = &world(ms, texts, cells(ms), &need, own, true);
    let (pool, want) = (&pool, &want);
    let tasks: Vec<Box<dyn FnOnce() + Send + '_>> = scripts
        .iter()
        .enumerate()
        .map(|(who, s)| {
            let f = move || {
                for (step, (i, times)) in s.iter().enumerate() {
                    for round in 0..*times {
                        let c = &pool[*i];
                        simrt::yield_point("call");
                        let got = exec(c, world);
                        let _m = simrt::Mask::new();
                        let got = cut(&got, REGION - 64);
                        result(&got);
                        count(&format!("op.{}", KINDS[c.kind as usize]));
                        if round == 0 {
                            ev!("thread {who}: call {i}: {}", cut(&got, 120));
                        }
                        if got.starts_with("panicked") {
                            count("probe.call-panicked");
                        }
                        if threads > 1 || step > 0 || round > 0 {
                            nontrivial();
                        }
                        if differs(&got, &want[*i], c, &format!("thread {who}, step {step}, round {round}")) {
                            return;
                        }
                    }
                }
            };
            Box::new(f) as Box<dyn FnOnce() + Send + '_>
        })
        .collect();
    simrt::run_tasks(cfg, tasks);
}
