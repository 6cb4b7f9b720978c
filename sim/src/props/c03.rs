//! C03: visitors that fail, panic, stop early or ask for something else.
use super::*;
use kserd::ds::*;
use kserd::encode::Decoder;
use kserd::{Kserd, Kstr, Value};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, Error as _, MapAccess, SeqAccess, VariantAccess, Visitor};
use simrt::{count, ev, nontrivial, result, violation};
use std::cell::{Cell, RefCell};

pub const C03: Prop = Prop {
    id: "C03",
    run,
    quick: 180_000,
    thorough: 3_000_000,
    wall: 30,
    rule: "Each run draws a document (parts borrowed, parts owned), 1 to 3 decoders with their own visitor scripts (type asked for at each item, injected failures, panics and early stops) and the interleaving; non-trivial when a decoder was interrupted or the document has at least 4 items.",
    real: &["kserd decoder (unmodified, from /repo)", "serde sequence and map access"],
    stub: &["the caller's visitors", "OS scheduler", "OS randomness", "locks (futex)"],
    assume: &["documents up to depth 5", "where a request is neither clearly met nor clearly mismatched by the item, an error and the item's content are both accepted", "sampling: a clean batch is evidence, not proof"],
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ask {
    Any,
    Bool,
    /// signed, bits
    Int(bool, u8),
    F32,
    F64,
    Char,
    Str,
    String,
    Bytes,
    ByteBuf,
    Option,
    Unit,
    UnitStruct,
    Newtype,
    Seq,
    Tuple,
    TupleStruct,
    Map,
    Struct,
    EnumUnit,
    EnumNewtype,
    /// off by this many
    EnumTuple(i8),
    EnumStruct,
    Identifier,
    Ignored,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Go,
    Fail(u64),
    Panic(u64),
    /// after this many items
    Stop(usize),
}
/// A document item, what is asked of it and what happens there.
struct P<'m> {
    m: &'m M,
    ask: Ask,
    act: Act,
    /// length asked for less length held, for tuples
    off: i64,
    /// borrowed data: where it lives
    at: Cell<Option<usize>>,
    kids: Vec<P<'m>>,
}
unsafe impl Sync for P<'_> {}

const ALL: &[Ask] = &[
    Ask::Any,
    Ask::Bool,
    Ask::Int(false, 8),
    Ask::Int(false, 16),
    Ask::Int(false, 32),
    Ask::Int(false, 64),
    Ask::Int(false, 128),
    Ask::Int(true, 8),
    Ask::Int(true, 16),
    Ask::Int(true, 32),
    Ask::Int(true, 64),
    Ask::Int(true, 128),
    Ask::F32,
    Ask::F64,
    Ask::Char,
    Ask::Str,
    Ask::String,
    Ask::Bytes,
    Ask::ByteBuf,
    Ask::Option,
    Ask::Unit,
    Ask::UnitStruct,
    Ask::Newtype,
    Ask::Seq,
    Ask::Tuple,
    Ask::TupleStruct,
    Ask::Map,
    Ask::Struct,
    Ask::EnumUnit,
    Ask::EnumNewtype,
    Ask::EnumTuple(0),
    Ask::EnumStruct,
    Ask::Identifier,
    Ask::Ignored,
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fit {
    Yes,
    No,
    Open,
}
fn fits_int(m: &M, signed: bool, bits: u8) -> Fit {
    let yes = |b| if b { Fit::Yes } else { Fit::No };
    match (&m.v, signed) {
        (V::U(x), false) => yes(bits == 128 || *x < 1u128 << bits),
        (V::U(x), true) => yes(*x < 1u128 << (bits - 1)),
        (V::I(x), false) => yes(*x >= 0 && (bits == 128 || *x < 1i128 << bits.min(126))),
        (V::I(x), true) => yes(bits == 128 || (*x < 1i128 << (bits - 1) && *x >= -(1i128 << (bits - 1)))),
        // a float within 1e-10 of an integer may be taken for it (documented), one beyond the range not
        (V::F(x), _) => {
            if !x.is_finite() || (x.round() - x).abs() >= 1e-10 {
                return Fit::No;
            }
            let r = x.round();
            let (lo, hi) = if signed { (-2f64.powi(bits as i32 - 1), 2f64.powi(bits as i32 - 1)) } else { (0.0, 2f64.powi(bits as i32)) };
            if r < lo || r >= hi {
                Fit::No
            } else {
                Fit::Open
            }
        }
        _ => Fit::No,
    }
}
/// Does the item hold what is asked for?
fn fit(m: &M, ask: Ask) -> Fit {
    use Fit::*;
    let id = m.id.as_deref();
    let n = m.kids().len();
    let yes = |b| if b { Yes } else { No };
    let num = matches!(m.v, V::U(_) | V::I(_) | V::F(_));
    let none = matches!(m.v, V::Tuple(_)) && n == 0 && id == Some("None");
    let some = matches!(m.v, V::Tuple(_)) && n == 1 && id == Some("Some");
    let hollow = matches!(m.v, V::Unit) || (n == 0 && matches!(m.v, V::Tuple(_) | V::Cntr(_)));
    match ask {
        Ask::Any | Ask::Ignored => Yes,
        Ask::Bool => yes(matches!(m.v, V::Bool(_))),
        Ask::Int(s, b) => fits_int(m, s, b),
        Ask::F32 | Ask::F64 => yes(num),
        Ask::Char => match &m.v {
            V::Str(s) => yes(s.chars().count() == 1),
            _ => No,
        },
        Ask::Str | Ask::String => yes(matches!(m.v, V::Str(_))),
        Ask::Bytes | Ask::ByteBuf => yes(matches!(m.v, V::Barr(_))),
        Ask::Option => {
            if none || some {
                Yes
            } else if hollow {
                Open
            } else {
                No
            }
        }
        Ask::Unit => match m.v {
            V::Unit => Yes,
            _ if hollow => Open,
            _ => No,
        },
        Ask::UnitStruct => match m.v {
            V::Tuple(_) if n == 0 => Yes,
            _ if hollow => Open,
            _ => No,
        },
        Ask::Newtype => match m.v {
            V::Tuple(_) if n == 1 && id != Some("Some") => Yes,
            V::Tuple(_) | V::Seq(_) => Open,
            _ => No,
        },
        Ask::Seq | Ask::Tuple | Ask::TupleStruct => match m.v {
            V::Seq(_) => Yes,
            V::Tuple(_) if !none && !some => Yes,
            V::Tuple(_) => Open,
            V::Unit => Open,
            _ => No,
        },
        Ask::Map | Ask::Struct => match m.v {
            V::Map(_) | V::Cntr(_) => Yes,
            _ if hollow => Open,
            _ => No,
        },
        Ask::EnumUnit if id.is_some() => match m.v {
            V::Unit => Yes,
            V::Tuple(_) if n == 0 => Yes,
            _ if hollow => Open,
            _ => No,
        },
        Ask::EnumNewtype if id.is_some() => yes(matches!(m.v, V::Tuple(_)) && n == 1),
        Ask::EnumTuple(off) if id.is_some() => yes(matches!(m.v, V::Tuple(_)) && (off == 0 || (off < 0 && n == 0))),
        Ask::EnumStruct if id.is_some() => match m.v {
            V::Cntr(_) => Yes,
            _ if hollow => Open,
            _ => No,
        },
        Ask::EnumUnit | Ask::EnumNewtype | Ask::EnumTuple(_) | Ask::EnumStruct => No,
        Ask::Identifier => match m.v {
            V::Str(_) => Yes,
            _ if num => Open,
            V::Barr(_) => Open,
            _ => No,
        },
    }
}

fn fit_p(p: &P) -> Fit {
    match fit(p.m, p.ask) {
        // all its items or an error
        Fit::Yes if p.off != 0 => Fit::Open,
        x => x,
    }
}
fn pick_off() -> i64 {
    [1, -1, 2, -2, 100, -100][fl(6) as usize]
}
/// Requests that an item like this could be mistaken to meet.
fn near(m: &M) -> &'static [Ask] {
    match &m.v {
        V::Str(_) => &[Ask::Char, Ask::Bytes, Ask::ByteBuf, Ask::Identifier, Ask::EnumUnit, Ask::Unit],
        V::Barr(_) => &[Ask::Str, Ask::String, Ask::Char, Ask::Seq, Ask::Identifier],
        V::U(_) | V::I(_) | V::F(_) => &[Ask::Int(false, 8), Ask::Int(false, 16), Ask::Int(false, 32), Ask::Int(false, 64), Ask::Int(false, 128), Ask::Int(true, 8), Ask::Int(true, 16), Ask::Int(true, 32), Ask::Int(true, 64), Ask::Int(true, 128), Ask::Bool, Ask::Char, Ask::Str, Ask::Identifier],
        V::Bool(_) => &[Ask::Int(false, 8), Ask::Unit, Ask::Str, Ask::F64],
        V::Tuple(_) | V::Seq(_) => &[Ask::Option, Ask::Unit, Ask::UnitStruct, Ask::Newtype, Ask::EnumUnit, Ask::EnumNewtype, Ask::EnumTuple(0), Ask::EnumTuple(1), Ask::EnumTuple(-1), Ask::EnumStruct, Ask::Map, Ask::Struct, Ask::Bytes, Ask::Tuple, Ask::TupleStruct],
        V::Cntr(_) | V::Map(_) => &[Ask::Seq, Ask::Tuple, Ask::EnumStruct, Ask::EnumTuple(0), Ask::EnumNewtype, Ask::EnumUnit, Ask::Unit, Ask::UnitStruct, Ask::Newtype, Ask::Option],
        V::Unit => &[Ask::Option, Ask::UnitStruct, Ask::EnumUnit, Ask::Bool, Ask::Seq, Ask::Map, Ask::EnumTuple(0)],
    }
}

struct Rates {
    wrong: u64,
    fail: u64,
    panic: u64,
    stop: u64,
    next: u64,
}
fn gen_p<'m>(m: &'m M, r: &mut Rates) -> P<'m> {
    let ask = if fchance(r.wrong, 80) {
        let x = fl(8);
        if x == 7 {
            Ask::EnumTuple(fl(3) as i8 - 1)
        } else if x >= 3 {
            let l = near(m);
            l[fl(l.len() as u64) as usize]
        } else {
            ALL[fl(ALL.len() as u64) as usize]
        }
    } else if chance(1, 4) {
        Ask::Any
    } else {
        // one that is met
        let start = w(ALL.len() as u64) as usize;
        (0..ALL.len()).map(|i| ALL[(start + i) % ALL.len()]).find(|a| fit(m, *a) == Fit::Yes).unwrap()
    };
    let x = fl(80);
    let act = if x != 0 && x <= r.fail {
        r.next += 1;
        Act::Fail(r.next)
    } else if x > 79 - r.panic {
        r.next += 1;
        Act::Panic(r.next)
    } else if x >= 40 && x < 40 + r.stop {
        Act::Stop(fl(4) as usize)
    } else {
        Act::Go
    };
    let kids = m.kids().into_iter().map(|k| gen_p(k, r)).collect();
    let off = if matches!(ask, Ask::Tuple | Ask::TupleStruct) && fchance(r.wrong, 20) { pick_off() } else { 0 };
    P { m, ask, act, off, at: Cell::new(None), kids }
}

// ------------------------------------------------------------------ the recording visitor

#[derive(Default)]
struct Rec {
    /// the failure that must come out
    err: Option<String>,
    panic: Option<String>,
    /// a visitor stopped early here: a length error may follow
    stopped: bool,
    given: u64,
    bad: Option<(String, String)>,
}
type R<'r> = &'r RefCell<Rec>;
fn bad(r: R, class: &str, msg: String) {
    let mut r = r.borrow_mut();
    if r.bad.is_none() {
        r.bad = Some((class.into(), msg));
    }
}
fn over(r: R) -> bool {
    let r = r.borrow();
    r.err.is_some() || r.panic.is_some()
}

#[derive(Clone, Copy)]
struct Seed<'p, 'm, 'r> {
    p: &'p P<'m>,
    r: R<'r>,
}
impl<'de, 'p, 'm, 'r> DeserializeSeed<'de> for Seed<'p, 'm, 'r> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        let Seed { p, r } = self;
        simrt::yield_point("callback");
        if over(r) {
            bad(r, "handed-out-after-failure", format!("item {:?} was offered after the failure", p.m));
        }
        let called = Cell::new(false);
        let v = Vis { p, r, called: &called };
        let was_stopped = r.borrow().stopped;
        const F: &[&str] = &["a", "b", "c"];
        let x = match p.ask {
            Ask::Any => d.deserialize_any(v),
            Ask::Bool => d.deserialize_bool(v),
            Ask::Int(false, 8) => d.deserialize_u8(v),
            Ask::Int(false, 16) => d.deserialize_u16(v),
            Ask::Int(false, 32) => d.deserialize_u32(v),
            Ask::Int(false, 64) => d.deserialize_u64(v),
            Ask::Int(false, _) => d.deserialize_u128(v),
            Ask::Int(true, 8) => d.deserialize_i8(v),
            Ask::Int(true, 16) => d.deserialize_i16(v),
            Ask::Int(true, 32) => d.deserialize_i32(v),
            Ask::Int(true, 64) => d.deserialize_i64(v),
            Ask::Int(true, _) => d.deserialize_i128(v),
            Ask::F32 => d.deserialize_f32(v),
            Ask::F64 => d.deserialize_f64(v),
            Ask::Char => d.deserialize_char(v),
            Ask::Str => d.deserialize_str(v),
            Ask::String => d.deserialize_string(v),
            Ask::Bytes => d.deserialize_bytes(v),
            Ask::ByteBuf => d.deserialize_byte_buf(v),
            Ask::Option => d.deserialize_option(v),
            Ask::Unit => d.deserialize_unit(v),
            Ask::UnitStruct => d.deserialize_unit_struct("S", v),
            Ask::Newtype => d.deserialize_newtype_struct("S", v),
            Ask::Seq => d.deserialize_seq(v),
            Ask::Tuple => d.deserialize_tuple((p.kids.len() as i64 + p.off).max(0) as usize, v),
            Ask::TupleStruct => d.deserialize_tuple_struct("S", (p.kids.len() as i64 + p.off).max(0) as usize, v),
            Ask::Map => d.deserialize_map(v),
            Ask::Struct => d.deserialize_struct("S", F, v),
            Ask::EnumUnit | Ask::EnumNewtype | Ask::EnumTuple(_) | Ask::EnumStruct => d.deserialize_enum("E", F, v),
            Ask::Identifier => d.deserialize_identifier(v),
            Ask::Ignored => d.deserialize_ignored_any(v),
        };
        match &x {
            Ok(()) => {
                if over(r) {
                    bad(r, "failure-swallowed", format!("item {:?} asked as {:?} succeeded after {:?}", p.m, p.ask, r.borrow().err));
                } else if !called.get() {
                    bad(r, "nothing-handed-out", format!("item {:?} asked as {:?} succeeded without a callback", p.m, p.ask));
                } else if fit_p(p) == Fit::No {
                    bad(r, "wrong-type-accepted", format!("item {:?} asked as {:?} did not fail", p.m, p.ask));
                }
            }
            Err(e) => {
                let e = e.to_string();
                let known = r.borrow().err.clone();
                match known {
                    Some(k) if k == e => {}
                    Some(k) => bad(r, "other-failure", format!("item {:?} failed with {e:?}, the failure was {k:?}", p.m)),
                    None => {
                        // a new error: only for a mismatch, or a length error after an early stop
                        let length = (r.borrow().stopped && !was_stopped) && e.contains("length");
                        if fit_p(p) == Fit::Yes && !length {
                            bad(r, "refused", format!("item {:?} asked as {:?} failed with {e:?}", p.m, p.ask));
                        }
                        r.borrow_mut().err = Some(e);
                        count("probe.type-mismatch-error");
                    }
                }
            }
        }
        x
    }
}

struct Vis<'p, 'm, 'r, 'c> {
    p: &'p P<'m>,
    r: R<'r>,
    called: &'c Cell<bool>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Cb {
    Bool,
    Int,
    Float,
    Char,
    Str,
    Bytes,
    None,
    Some,
    Unit,
    Newtype,
    Seq,
    Map,
    Enum,
}
impl Vis<'_, '_, '_, '_> {
    /// Does a visitor for this request take this callback at all?
    fn takes(&self, cb: Cb) -> bool {
        use Cb::*;
        match self.p.ask {
            Ask::Any | Ask::Ignored => true,
            Ask::Bool => cb == Bool,
            Ask::Int(..) => cb == Int,
            Ask::F32 | Ask::F64 => cb == Float,
            Ask::Char => cb == Char,
            Ask::Str | Ask::String => cb == Str,
            Ask::Bytes | Ask::ByteBuf => cb == Bytes,
            Ask::Option => matches!(cb, None | Some | Unit),
            Ask::Unit | Ask::UnitStruct => cb == Unit,
            Ask::Newtype => matches!(cb, Newtype | Seq),
            // serde's own collections take sequences only; a one-tuple with a name arrives as a newtype
            Ask::Seq | Ask::Tuple | Ask::TupleStruct => matches!(cb, Seq | Newtype),
            Ask::Map | Ask::Struct => cb == Map,
            Ask::EnumUnit | Ask::EnumNewtype | Ask::EnumTuple(_) | Ask::EnumStruct => cb == Enum,
            Ask::Identifier => matches!(cb, Str | Int | Bytes),
        }
    }
    /// Every callback starts here: Ok(true) when its content is to be looked at.
    fn enter<E: de::Error>(&self, cb: Cb, what: de::Unexpected) -> Result<(), E> {
        simrt::yield_point("callback");
        if over(self.r) {
            bad(self.r, "handed-out-after-failure", format!("{cb:?} of {:?} after the failure", self.p.m));
        }
        if self.called.replace(true) {
            bad(self.r, "handed-out-twice", format!("{:?} was handed out twice", self.p.m));
        }
        self.r.borrow_mut().given += 1;
        if !self.takes(cb) {
            let e = E::invalid_type(what, self);
            self.r.borrow_mut().err = Some(e.to_string());
            if fit_p(self.p) == Fit::Yes {
                bad(self.r, "wrong-callback", format!("{:?} asked as {:?} arrived as {cb:?}", self.p.m, self.p.ask));
            }
            return Err(e);
        }
        Ok(())
    }
    fn act<E: de::Error>(&self) -> Result<(), E> {
        match self.p.act {
            Act::Fail(n) => {
                count("fault.visitor-error");
                ev!("visitor fails: {n}");
                let t = match n % 7 {
                    4 => String::new(),
                    5 => format!("injected failure {n}\nsecond line\n"),
                    6 => format!("injected failure {n} {}", "é'\"{}".repeat(60)),
                    _ => format!("injected failure {n}"),
                };
                let e = E::custom(&t);
                if !e.to_string().contains(&t) {
                    bad(self.r, "failure-altered", format!("the failure {t:?} became {:?}", e.to_string()));
                }
                self.r.borrow_mut().err = Some(e.to_string());
                Err(e)
            }
            Act::Panic(n) => {
                count("fault.visitor-panic");
                ev!("visitor panics: {n}");
                self.r.borrow_mut().panic = Some(format!("injected panic {n}"));
                panic!("injected panic {n}")
            }
            _ => Ok(()),
        }
    }
    fn content(&self, ok: bool, got: &dyn std::fmt::Debug) {
        if !ok {
            bad(self.r, "wrong-content", format!("item {:?} asked as {:?} was handed out as {got:?}", self.p.m, self.p.ask));
        }
    }
    fn int<E: de::Error>(self, neg: Option<i128>, pos: Option<u128>, width: (bool, u8)) -> Result<(), E> {
        let u = match (neg, pos) {
            (Some(n), _) => de::Unexpected::Signed(n as i64),
            _ => de::Unexpected::Unsigned(pos.unwrap_or(0) as u64),
        };
        self.enter(Cb::Int, u)?;
        let asked = matches!(self.p.ask, Ask::Int(..));
        let ok = match (&self.p.m.v, neg, pos) {
            (V::U(x), _, Some(p)) => *x == p,
            (V::U(x), Some(n), _) => asked && n >= 0 && *x == n as u128,
            (V::I(x), Some(n), _) => *x == n,
            (V::I(x), _, Some(p)) => asked && *x >= 0 && *x as u128 == p,
            // a cast saturates
            (V::F(x), Some(n), _) => asked && (n as f64 - x).abs() < 1e-10 && x.abs() <= 2f64.powi(127) && *x != 2f64.powi(127),
            (V::F(x), _, Some(p)) => asked && (p as f64 - x).abs() < 1e-10 && *x < 2f64.powi(128),
            _ => false,
        };
        self.content(ok, &(neg, pos, width));
        self.act()
    }
    fn float<E: de::Error>(self, f: f64, narrow: bool) -> Result<(), E> {
        self.enter(Cb::Float, de::Unexpected::Float(f))?;
        let same = |a: f64, b: f64| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan());
        let want = match &self.p.m.v {
            V::F(x) => Some(*x),
            V::U(x) if matches!(self.p.ask, Ask::F32 | Ask::F64) => Some(*x as f64),
            V::I(x) if matches!(self.p.ask, Ask::F32 | Ask::F64) => Some(*x as f64),
            _ => None,
        };
        let ok = want.map_or(false, |x| same(x, f) || (narrow && self.p.ask == Ask::F32 && same(x as f32 as f64, f)));
        self.content(ok, &f);
        self.act()
    }
    /// `at`: address, when handed out as borrowed; `owned`: handed out as owned
    fn data<E: de::Error>(self, cb: Cb, b: &[u8], at: Option<usize>, owned: bool) -> Result<(), E> {
        let u = match cb {
            Cb::Str => de::Unexpected::Str("text"),
            _ => de::Unexpected::Bytes(b),
        };
        self.enter(cb, u)?;
        let ok = match (&self.p.m.v, cb) {
            (V::Str(s), Cb::Str) => s.as_bytes() == b,
            (V::Barr(s), Cb::Bytes) => s == b,
            (V::Str(s), Cb::Bytes) => s.as_bytes() == b && self.p.ask == Ask::Identifier,
            _ => false,
        };
        self.content(ok, &String::from_utf8_lossy(b));
        match (self.p.at.get(), at) {
            (Some(a), Some(b)) => {
                if a != b {
                    bad(self.r, "borrow-elsewhere", format!("borrowed {:?} was handed out from other memory", self.p.m))
                }
                count("probe.borrowed");
            }
            (Some(_), None) => bad(self.r, "borrow-copied", format!("borrowed {:?} was not handed out as a borrow", self.p.m)),
            (None, Some(_)) => bad(self.r, "owned-as-borrow", format!("owned {:?} was handed out as a borrow", self.p.m)),
            (None, None) if !owned => bad(self.r, "owned-not-owned", format!("owned {:?} was not handed out as owned", self.p.m)),
            _ => count("probe.owned"),
        }
        self.act()
    }
    fn limit(&self) -> Option<usize> {
        match self.p.act {
            Act::Stop(n) if n < self.items() => Some(n),
            _ => None,
        }
    }
    fn items(&self) -> usize {
        match self.p.m.v {
            V::Map(_) => self.p.kids.len() / 2,
            _ => self.p.kids.len(),
        }
    }
    fn early(&self) {
        count("fault.visitor-stops-early");
        ev!("visitor stops early");
        self.r.borrow_mut().stopped = true;
    }
    fn elements<'de, A: SeqAccess<'de>>(&self, mut a: A) -> Result<(), A::Error> {
        for i in 0.. {
            if self.limit() == Some(i) {
                self.early();
                return Ok(());
            }
            simrt::yield_point("next item");
            if i >= self.items() {
                // nothing more may come
                let d = P { m: &M { id: None, v: V::Unit }, ask: Ask::Any, act: Act::Go, off: 0, at: Cell::new(None), kids: vec![] };
                let quiet = RefCell::new(Rec::default());
                if let Some(()) = a.next_element_seed(Seed { p: &d, r: &quiet })? {
                    bad(self.r, "extra-item", format!("{:?} handed out more items than it has", self.p.m));
                }
                return Ok(());
            }
            if a.next_element_seed(Seed { p: &self.p.kids[i], r: self.r })?.is_none() {
                bad(self.r, "missing-item", format!("{:?} handed out only {i} items", self.p.m));
                return Ok(());
            }
        }
        Ok(())
    }
    fn entries<'de, A: MapAccess<'de>>(&self, mut a: A) -> Result<(), A::Error> {
        for i in 0.. {
            if self.limit() == Some(i) {
                self.early();
                return Ok(());
            }
            simrt::yield_point("next item");
            if i >= self.items() {
                if let Some(x) = a.next_key::<de::IgnoredAny>()? {
                    let _ = x;
                    bad(self.r, "extra-item", format!("{:?} handed out more entries than it has", self.p.m));
                }
                return Ok(());
            }
            let (k, v) = match &self.p.m.v {
                V::Cntr(l) => (a.next_key_seed(Name { want: &l[i].0, r: self.r })?, &self.p.kids[i]),
                _ => (a.next_key_seed(Seed { p: &self.p.kids[2 * i], r: self.r })?, &self.p.kids[2 * i + 1]),
            };
            if k.is_none() {
                bad(self.r, "missing-item", format!("{:?} handed out only {i} entries", self.p.m));
                return Ok(());
            }
            a.next_value_seed(Seed { p: v, r: self.r })?;
        }
        Ok(())
    }
}
/// A field name or variant name.
struct Name<'a, 'r> {
    want: &'a str,
    r: R<'r>,
}
impl<'de> DeserializeSeed<'de> for Name<'_, '_> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for Name<'_, '_> {
    type Value = ();
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("a name")
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<(), E> {
        if over(self.r) {
            bad(self.r, "handed-out-after-failure", format!("name {s:?} after the failure"));
        }
        if s != self.want {
            bad(self.r, "wrong-name", format!("name {s:?} was handed out for {:?}", self.want));
        }
        Ok(())
    }
}

impl<'de> Visitor<'de> for Vis<'_, '_, '_, '_> {
    type Value = ();
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self.p.ask)
    }
    fn visit_bool<E: de::Error>(self, b: bool) -> Result<(), E> {
        self.enter(Cb::Bool, de::Unexpected::Bool(b))?;
        self.content(matches!(self.p.m.v, V::Bool(x) if x == b), &b);
        self.act()
    }
    fn visit_u8<E: de::Error>(self, x: u8) -> Result<(), E> {
        self.int(None, Some(x.into()), (false, 8))
    }
    fn visit_u16<E: de::Error>(self, x: u16) -> Result<(), E> {
        self.int(None, Some(x.into()), (false, 16))
    }
    fn visit_u32<E: de::Error>(self, x: u32) -> Result<(), E> {
        self.int(None, Some(x.into()), (false, 32))
    }
    fn visit_u64<E: de::Error>(self, x: u64) -> Result<(), E> {
        self.int(None, Some(x.into()), (false, 64))
    }
    fn visit_u128<E: de::Error>(self, x: u128) -> Result<(), E> {
        self.int(None, Some(x), (false, 128))
    }
    fn visit_i8<E: de::Error>(self, x: i8) -> Result<(), E> {
        self.int(Some(x.into()), None, (true, 8))
    }
    fn visit_i16<E: de::Error>(self, x: i16) -> Result<(), E> {
        self.int(Some(x.into()), None, (true, 16))
    }
    fn visit_i32<E: de::Error>(self, x: i32) -> Result<(), E> {
        self.int(Some(x.into()), None, (true, 32))
    }
    fn visit_i64<E: de::Error>(self, x: i64) -> Result<(), E> {
        self.int(Some(x.into()), None, (true, 64))
    }
    fn visit_i128<E: de::Error>(self, x: i128) -> Result<(), E> {
        self.int(Some(x), None, (true, 128))
    }
    fn visit_f32<E: de::Error>(self, x: f32) -> Result<(), E> {
        self.float(x as f64, true)
    }
    fn visit_f64<E: de::Error>(self, x: f64) -> Result<(), E> {
        self.float(x, false)
    }
    fn visit_char<E: de::Error>(self, c: char) -> Result<(), E> {
        self.enter(Cb::Char, de::Unexpected::Char(c))?;
        self.content(matches!(&self.p.m.v, V::Str(s) if s.chars().eq([c])), &c);
        self.act()
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<(), E> {
        self.data(Cb::Str, s.as_bytes(), None, false)
    }
    fn visit_borrowed_str<E: de::Error>(self, s: &'de str) -> Result<(), E> {
        self.data(Cb::Str, s.as_bytes(), Some(s.as_ptr() as usize), false)
    }
    fn visit_string<E: de::Error>(self, s: String) -> Result<(), E> {
        self.data(Cb::Str, s.as_bytes(), None, true)
    }
    fn visit_bytes<E: de::Error>(self, s: &[u8]) -> Result<(), E> {
        self.data(Cb::Bytes, s, None, false)
    }
    fn visit_borrowed_bytes<E: de::Error>(self, s: &'de [u8]) -> Result<(), E> {
        self.data(Cb::Bytes, s, Some(s.as_ptr() as usize), false)
    }
    fn visit_byte_buf<E: de::Error>(self, s: Vec<u8>) -> Result<(), E> {
        self.data(Cb::Bytes, &s, None, true)
    }
    fn visit_none<E: de::Error>(self) -> Result<(), E> {
        self.enter(Cb::None, de::Unexpected::Option)?;
        let m = self.p.m;
        self.content(m.kids().is_empty() && (m.id.as_deref() == Some("None") || self.p.ask == Ask::Option) && matches!(m.v, V::Tuple(_) | V::Unit | V::Cntr(_)), &"none");
        self.act()
    }
    fn visit_unit<E: de::Error>(self) -> Result<(), E> {
        self.enter(Cb::Unit, de::Unexpected::Unit)?;
        let m = self.p.m;
        self.content(m.kids().is_empty() && matches!(m.v, V::Unit | V::Tuple(_) | V::Cntr(_)), &"unit");
        self.act()
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.enter(Cb::Some, de::Unexpected::Option)?;
        let m = self.p.m;
        let ok = matches!(&m.v, V::Tuple(l) if l.len() == 1) && m.id.as_deref() == Some("Some");
        self.content(ok, &"some");
        self.act()?;
        if ok && self.limit().is_none() {
            return Seed { p: &self.p.kids[0], r: self.r }.deserialize(d);
        }
        self.early();
        Ok(())
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.enter(Cb::Newtype, de::Unexpected::NewtypeStruct)?;
        let ok = matches!(&self.p.m.v, V::Tuple(l) if l.len() == 1);
        self.content(ok, &"newtype");
        self.act()?;
        if ok && self.limit().is_none() {
            return Seed { p: &self.p.kids[0], r: self.r }.deserialize(d);
        }
        self.early();
        Ok(())
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        self.enter(Cb::Seq, de::Unexpected::Seq)?;
        let ok = matches!(self.p.m.v, V::Tuple(_) | V::Seq(_));
        self.content(ok, &"sequence");
        self.act()?;
        if !ok {
            return Ok(());
        }
        self.elements(a)
    }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        self.enter(Cb::Map, de::Unexpected::Map)?;
        let ok = matches!(self.p.m.v, V::Map(_) | V::Cntr(_));
        self.content(ok, &"map");
        self.act()?;
        if !ok {
            return Ok(());
        }
        self.entries(a)
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        self.enter(Cb::Enum, de::Unexpected::Enum)?;
        self.act()?;
        let m = self.p.m;
        let ((), va) = a.variant_seed(Name { want: m.id.as_deref().unwrap_or("(no identity)"), r: self.r })?;
        simrt::yield_point("variant");
        let called = Cell::new(false);
        match self.p.ask {
            Ask::EnumUnit => va.unit_variant(),
            Ask::EnumNewtype => {
                if !self.p.kids.is_empty() {
                    va.newtype_variant_seed(Seed { p: &self.p.kids[0], r: self.r })
                } else {
                    va.newtype_variant::<de::IgnoredAny>().map(|_| ())
                }
            }
            Ask::EnumTuple(off) => va.tuple_variant((self.p.kids.len() as i64 + off as i64).max(0) as usize, Inner { v: Vis { p: self.p, r: self.r, called: &called } }),
            _ => va.struct_variant(&[], Inner { v: Vis { p: self.p, r: self.r, called: &called } }),
        }
    }
}
/// Receives the content of a variant.
struct Inner<'p, 'm, 'r, 'c> {
    v: Vis<'p, 'm, 'r, 'c>,
}
impl<'de> Visitor<'de> for Inner<'_, '_, '_, '_> {
    type Value = ();
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("variant content")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        self.v.content(matches!(self.v.p.m.v, V::Tuple(_)) && matches!(self.v.p.ask, Ask::EnumTuple(_)), &"tuple variant");
        self.v.elements(a)
    }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        self.v.content(matches!(self.v.p.m.v, V::Cntr(_)) && self.v.p.ask == Ask::EnumStruct, &"struct variant");
        self.v.entries(a)
    }
}

// ------------------------------------------------------------------ the run

/// A value over the model's buffers: parts borrowed, parts owned, in the order of the walk.
fn mixed<'m>(m: &'m M, plan: &[bool], at: &mut usize) -> Kserd<'m> {
    let mut brw = || {
        *at += 1;
        plan[(*at - 1) % plan.len()]
    };
    let val = match &m.v {
        V::Str(s) => Value::Str(if brw() { Kstr::brwed(s) } else { Kstr::owned(roomy(s)) }),
        V::Barr(s) => Value::Barr(if brw() { Barr::brwed(s) } else { Barr::owned(roomy_bytes(s)) }),
        V::Tuple(l) => Value::Tuple(l.iter().map(|x| mixed(x, plan, at)).collect()),
        V::Seq(l) => Value::Seq(l.iter().map(|x| mixed(x, plan, at)).collect()),
        V::Cntr(l) => Value::Cntr(l.iter().map(|(n, x)| (Kstr::brwed(n), mixed(x, plan, at))).collect()),
        V::Map(l) => Value::Map(l.iter().map(|(k, x)| (mixed(k, plan, at), mixed(x, plan, at))).collect()),
        o => o.own(),
    };
    Kserd { id: m.id.as_deref().map(Kstr::brwed), val }
}
/// Notes for each item whether it is borrowed and from where.
fn note(p: &P, plan: &[bool], at: &mut usize) {
    if let V::Str(_) | V::Barr(_) = p.m.v {
        *at += 1;
        let b = plan[(*at - 1) % plan.len()];
        let a = match &p.m.v {
            V::Str(s) => s.as_ptr() as usize,
            V::Barr(s) => s.as_ptr() as usize,
            _ => 0,
        };
        p.at.set(if b { Some(a) } else { None });
    }
    for k in &p.kids {
        note(k, plan, at);
    }
}
/// The same for a value borrowed as a whole from `k`.
fn note_brw(p: &P, k: &Kserd) {
    match &k.val {
        Value::Str(s) => p.at.set(Some(s.as_str().as_ptr() as usize)),
        Value::Barr(s) => p.at.set(Some(s.as_bytes().as_ptr() as usize)),
        Value::Tuple(l) | Value::Seq(l) => p.kids.iter().zip(l).for_each(|(p, k)| note_brw(p, k)),
        Value::Cntr(l) => p.kids.iter().zip(l.values()).for_each(|(p, k)| note_brw(p, k)),
        Value::Map(l) => l.iter().zip(p.kids.chunks(2)).for_each(|((a, b), p)| {
            note_brw(&p[0], a);
            note_brw(&p[1], b);
        }),
        _ => {}
    }
}

thread_local! {
    static ROOT: Cell<Option<(usize, usize)>> = const { Cell::new(None) };
}
/// Carries a script into `Kserd::decode`.
struct Root;
impl<'de> de::Deserialize<'de> for Root {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Root, D::Error> {
        let (p, r) = ROOT.with(|x| x.get()).unwrap();
        let (p, r) = unsafe { (&*(p as *const P), &*(r as *const RefCell<Rec>)) };
        Seed { p, r }.deserialize(d).map(|_| Root)
    }
}

fn judge(p: &P, k: Kserd, direct: bool, who: usize) {
    let rec = RefCell::new(Rec::default());
    let got = guard(|| {
        if direct {
            Seed { p, r: &rec }.deserialize(Decoder(k))
        } else {
            ROOT.with(|x| x.set(Some((p as *const P as usize, &rec as *const RefCell<Rec> as usize))));
            k.decode::<Root>().map(|_| ())
        }
    });
    let rec = rec.into_inner();
    match &got {
        Ok(Ok(())) => count("op.decoded"),
        Ok(Err(_)) => count("op.ended-in-error"),
        Err(_) => count("op.panicked"),
    }
    simrt::count_n("op.items-handed-out", rec.given);
    result(&format!("{got:?} {}", rec.given));
    if rec.given > 3 || rec.err.is_some() || rec.panic.is_some() || rec.stopped {
        nontrivial();
    }
    let fail = |class: &str, msg: String| violation(class, &format!("decoder {who}: {msg}; document {}", cut(&p.m.digest(), 500)));
    if let Some((c, m)) = rec.bad {
        return fail(&c, m);
    }
    match (got, rec.err, rec.panic) {
        (Err(p), _, Some(want)) => {
            if !(p == want || p.starts_with(&format!("{want} "))) {
                fail("other-panic", format!("panicked with {p}, the visitor panicked with {want}"))
            }
        }
        (Err(p), _, None) => fail(&panic_class(&p), format!("panicked with {p}")),
        (Ok(r), _, Some(want)) => fail("panic-swallowed", format!("ended with {r:?} although a visitor panicked with {want}")),
        (Ok(Ok(())), Some(e), None) => fail("failure-swallowed", format!("succeeded although a visitor failed with {e}")),
        (Ok(Err(e)), Some(want), None) => {
            if e.to_string() != want {
                fail("other-failure", format!("failed with {e}, the failure was {want}"))
            }
        }
        (Ok(Err(e)), None, None) => fail("refused", format!("failed with {e} although nothing failed")),
        (Ok(Ok(())), None, None) => {}
    }
}

fn run() {
    sizes_up_to(1 << 16);
    let g = Gen::swarm(5, 5);
    let doc = dress(&if chance(1, 24) { gen_tower(&g, 4 + w(80)) } else { gen(&g, g.depth) });
    let quiet = fl(6) == 0;
    let x = |l: &[u64]| if quiet { 0 } else { l[fl(l.len() as u64) as usize] };
    let mut r = Rates { wrong: x(&[0, 1, 6]), fail: x(&[0, 1, 5]), panic: x(&[0, 1, 3]), stop: x(&[0, 2, 10]), next: 0 };
    let n = 1 + w(3);
    let plan: Vec<bool> = (0..1 + w(4)).map(|_| chance(1, 2)).collect();
    ev!("document {} borrowed {plan:?}", cut(&doc.digest(), 900));
    let base = doc.own();
    let scripts: Vec<(P, u64, bool)> = (0..n).map(|_| (gen_p(&doc, &mut r), w(3), chance(1, 2))).collect();
    let cfg = sched_cfg(60_000_000);
    let (base, plan, doc) = (&base, &plan, &doc);
    let shared = mixed(doc, plan, &mut 0);
    let shared = &shared;
    let tasks: Vec<Box<dyn FnOnce() + Send + '_>> = scripts
        .iter()
        .enumerate()
        .map(|(i, (p, how, direct))| {
            Box::new(move || {
                let k = match how {
                    0 => {
                        note(p, plan, &mut 0);
                        mixed(doc, plan, &mut 0)
                    }
                    1 => {
                        note_brw(p, base);
                        base.mk_brw()
                    }
                    _ => {
                        note(p, plan, &mut 0);
                        shared.clone()
                    }
                };
                judge(p, k, *direct, i)
            }) as Box<dyn FnOnce() + Send + '_>
        })
        .collect();
    simrt::run_tasks(cfg, tasks);
}
/// Gives some collections the names that mean something to a decoder.
fn dress(m: &M) -> M {
    let l = |l: &Vec<M>| -> Vec<M> { l.iter().map(dress).collect() };
    let v = match &m.v {
        V::Tuple(x) => V::Tuple(l(x)),
        V::Seq(x) => V::Seq(l(x)),
        V::Cntr(x) => V::Cntr(x.iter().map(|(n, x)| (n.clone(), dress(x))).collect()),
        V::Map(x) => V::Map(x.iter().map(|(k, x)| (k.clone(), dress(x))).collect()),
        o => o.clone(),
    };
    let mut id = m.id.clone();
    if let V::Tuple(x) = &v {
        if x.len() < 2 && chance(1, 2) {
            id = Some(if x.is_empty() { "None" } else { "Some" }.into());
        }
    }
    M { id, v }
}
