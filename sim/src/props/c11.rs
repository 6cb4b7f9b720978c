//! C11: a two-slot checkpoint store on a disk that loses, tears and cuts unsynced writes.
use super::*;
use kserd::fmt::{Formatter, FormattingConfig, Repr};
use kserd::Kserd;
use serde::de::{self, Deserialize, Deserializer, Visitor};
use serde::ser::{Serialize, Serializer};
use serde_derive::{Deserialize as De, Serialize as Ser};
use simrt::{count, ev, nontrivial, result, violation, violated};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::Mutex;

pub const C11: Prop = Prop {
    id: "C11",
    run,
    quick: 80_000,
    thorough: 2_500_000,
    wall: 30,
    rule: "Each run draws 1 or 2 programs with 1 to 8 saves each of typed data in a bracketed layout to two slots, block by block, with crashes at drawn points (what was not synced survives as a prefix, cut at any byte, possibly padded with zeros), restarts that recover and go on, standby readers that recover while a save is under way, and the interleaving; the model keeps the acknowledged and the in-flight state. Non-trivial when a recovery met a slot that was not complete.",
    real: &["kserd encoder, formatter, parser, decoder (unmodified, from /repo)", "serde and serde_derive"],
    stub: &["disk (two slots, unsynced tails)", "OS scheduler", "OS randomness", "locks (futex)"],
    assume: &["a slot is emptied before it is written and its blocks reach the disk in order; unsynced bytes survive as a prefix, possibly zero padded", "identities of tuples and containers are written (they name enum variants)", "no NaN as data, no map keyed by enum variants (see the known finding of C02), no option directly inside an option or around unit", "sampling: a clean batch is evidence, not proof"],
};

// ---------------------------------------------------------------- data

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Bytes(Vec<u8>);
impl Serialize for Bytes {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        z.serialize_bytes(&self.0)
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Bytes, D::Error> {
        struct Vis;
        impl<'de> Visitor<'de> for Vis {
            type Value = Bytes;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E: de::Error>(self, b: &[u8]) -> Result<Bytes, E> {
                Ok(Bytes(b.to_vec()))
            }
            fn visit_byte_buf<E: de::Error>(self, b: Vec<u8>) -> Result<Bytes, E> {
                Ok(Bytes(b))
            }
        }
        d.deserialize_byte_buf(Vis)
    }
}

#[derive(Clone, Debug, PartialEq, Ser, De)]
enum Data {
    Nothing,
    Flag(bool),
    U8(u8),
    I16(i16),
    U32(u32),
    I64(i64),
    U64(u64),
    U128(u128),
    I128(i128),
    F32(f32),
    F64(f64),
    Char(char),
    Text(String),
    Bytes(Bytes),
    Opt(Option<Box<Data>>),
    OptText(Option<String>),
    Pair(Box<Data>, Box<Data>),
    Rec { a: Box<Data>, foo: Option<u8>, bar: Vec<String> },
    Tup((i32, String, Option<f64>)),
    List(Vec<Data>),
    Texts(Vec<String>),
    Nums(Vec<f64>),
    Nested(Vec<Vec<i32>>),
    Named(BTreeMap<String, Data>),
    Numbered(BTreeMap<i64, Data>),
    ByPair(BTreeMap<(u8, String), Data>),
    St(Box<Struct>),
    New(Newtype),
    Unit(Marker),
    Ts(TupStruct),
    Res(Result<u8, String>),
    Arr([u8; 3]),
    Nil(()),
    Long(Box<Long>),
    AVariantWithARatherLongNameAndFields { a_field_that_says_what_it_is_for: u8, b: Option<Box<Data>> },
    #[serde(rename = "a-variant_with-a_rather_long_name-without_any_fields")]
    LongUnit,
    Flat(Box<Flat>),
    Tagged(Tagged),
    Apart(Apart),
    Either(Either),
    Sets(BTreeSet<String>, BTreeSet<char>),
    ByFlag(BTreeMap<bool, u8>),
    ByChar(BTreeMap<char, Option<Newtype>>),
    Keys(Vec<Key>),
    ByBytes(BTreeMap<Bytes, bool>),
    Deque(VecDeque<Option<String>>),
    Lib(std::time::Duration, std::ops::Range<i64>, std::num::NonZeroU16, Box<str>, std::net::IpAddr),
    Deep(((u8, (String,)), [[i8; 2]; 2])),
    Rename {
        #[serde(rename = "true")]
        a: u8,
        #[serde(rename = "a__-")]
        b: String,
        #[serde(rename = "inf")]
        c: f64,
        #[serde(rename = "_")]
        d: (),
        e: Vec<()>,
    },
}
/// Names of many lengths.
#[derive(Clone, Debug, PartialEq, Ser, De)]
struct Long {
    sixteen_letters_: u8,
    a_name_of_twenty_five_ltr: String,
    a_name_that_goes_on_for_forty_characters: Option<u16>,
    #[serde(rename = "this-name-has-as-many-as-sixty-seven-characters-and-dashes-in-it-ok")]
    sixty: Vec<String>,
    #[serde(rename = "abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789")]
    most: Data,
}
#[derive(Clone, Debug, PartialEq, Ser, De)]
struct Flat {
    first: u8,
    #[serde(flatten)]
    mid: Mid,
    #[serde(skip_serializing_if = "Option::is_none", default)]
    last: Option<String>,
    #[serde(skip)]
    not: u8,
}
#[derive(Clone, Debug, PartialEq, Ser, De)]
struct Mid {
    m: String,
    n: Vec<i16>,
}
#[derive(Clone, Debug, PartialEq, Ser, De)]
#[serde(tag = "kind")]
enum Tagged {
    A { x: u8, y: String },
    B(Mid),
    C,
}
#[derive(Clone, Debug, PartialEq, Ser, De)]
#[serde(tag = "t", content = "c")]
enum Apart {
    A { x: Option<u8> },
    B(String, i32),
    C(Vec<u8>),
    D,
}
#[derive(Clone, Debug, PartialEq, Ser, De)]
#[serde(untagged)]
enum Either {
    Flag(bool),
    Text(String),
    Rec { only: u8 },
    Pair(u8, String),
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Ser, De)]
enum Key {
    A,
    B(u8),
    C { k: String },
    D(String, Option<bool>),
}
#[derive(Clone, Debug, PartialEq, Ser, De)]
struct Struct {
    name: String,
    #[serde(rename = "x-y")]
    xy: (f64, f64),
    inner: Option<Box<Struct>>,
    tags: BTreeMap<String, Vec<u16>>,
    rest: Data,
}
#[derive(Clone, Debug, PartialEq, Ser, De)]
struct Newtype(Vec<Option<i8>>);
#[derive(Clone, Debug, PartialEq, Ser, De)]
struct Marker;
#[derive(Clone, Debug, PartialEq, Ser, De)]
struct TupStruct(u8, String, Bytes);

fn gen_f64(g: &Gen) -> f64 {
    if chance(g.odd_num, 8) {
        let x = match w(6) {
            4 | 5 => edge_f64(),
            0 => pick(&[f64::INFINITY, f64::NEG_INFINITY, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e15, 1e16, 999999999999999.9, 1e39, 1e21, 1.7976931348623157e308]),
            1 => f64::from_bits(wide()),
            2 => (wide() as f64) * 1.5,
            _ => 1.0 / (1 + w(1000)) as f64,
        };
        if x.is_nan() {
            1.5
        } else {
            x
        }
    } else {
        w(400) as f64 / 8.0 - 10.0
    }
}
fn gen_char(g: &Gen) -> char {
    gen_str(g).chars().next().unwrap_or('q')
}
fn gen_bytes(g: &Gen) -> Bytes {
    Bytes(gen_barr(g))
}
fn many<T>(g: &Gen, mut f: impl FnMut() -> T) -> Vec<T> {
    let n = if big(g, 64) { big_len() as u64 } else { w(g.width + 1) };
    (0..n).map(|_| f()).collect()
}
fn gen_struct(g: &Gen, d: u32) -> Struct {
    Struct {
        name: gen_str(g),
        xy: (gen_f64(g), gen_f64(g)),
        inner: if d > 0 && chance(1, 3) { Some(Box::new(gen_struct(g, d - 1))) } else { None },
        tags: many(g, || (gen_str(g), many(g, || w(70000) as u16))).into_iter().collect(),
        rest: gen_data(g, d.saturating_sub(1)),
    }
}
fn gen_mid(g: &Gen) -> Mid {
    Mid { m: gen_str(g), n: many(g, || w(1000) as i16 - 500) }
}
fn gen_key(g: &Gen) -> Key {
    match w(4) {
        0 => Key::A,
        1 => Key::B(w(9) as u8),
        2 => Key::C { k: gen_str(g) },
        _ => Key::D(gen_str(g), chance(1, 2).then(|| chance(1, 2))),
    }
}
/// The less usual shapes.
fn gen_more(g: &Gen, d: u32) -> Data {
    let sub = || gen_data(g, d.saturating_sub(1));
    let byte = || w(256) as u8;
    match w(17) {
        0 => Data::Long(Box::new(Long {
            sixteen_letters_: byte(),
            a_name_of_twenty_five_ltr: gen_str(g),
            a_name_that_goes_on_for_forty_characters: chance(1, 2).then(|| w(70000) as u16),
            sixty: many(g, || gen_str(g)),
            most: sub(),
        })),
        1 => Data::AVariantWithARatherLongNameAndFields { a_field_that_says_what_it_is_for: byte(), b: (d > 0 && chance(1, 2)).then(|| Box::new(sub())) },
        2 => Data::LongUnit,
        3 => Data::Flat(Box::new(Flat { first: byte(), mid: gen_mid(g), last: chance(1, 2).then(|| gen_str(g)), not: 0 })),
        4 => Data::Tagged(match w(3) {
            0 => Tagged::A { x: byte(), y: gen_str(g) },
            1 => Tagged::B(gen_mid(g)),
            _ => Tagged::C,
        }),
        5 => Data::Apart(match w(4) {
            0 => Apart::A { x: chance(1, 2).then(byte) },
            1 => Apart::B(gen_str(g), w(1000) as i32 - 500),
            2 => Apart::C(many(g, byte)),
            _ => Apart::D,
        }),
        6 => Data::Either(match w(4) {
            0 => Either::Flag(chance(1, 2)),
            1 => Either::Text(gen_str(g)),
            2 => Either::Rec { only: byte() },
            _ => Either::Pair(byte(), gen_str(g)),
        }),
        7 => Data::Sets(many(g, || gen_str(g)).into_iter().collect(), many(g, || gen_char(g)).into_iter().collect()),
        8 => Data::ByFlag(many(g, || (chance(1, 2), byte())).into_iter().collect()),
        9 => Data::ByChar(many(g, || (gen_char(g), chance(1, 2).then(|| Newtype(vec![None])))).into_iter().collect()),
        10 => Data::Keys(many(g, || gen_key(g))),
        11 => Data::ByBytes(many(g, || (gen_bytes(g), chance(1, 2))).into_iter().collect()),
        12 => Data::Deque(many(g, || chance(1, 2).then(|| gen_str(g))).into()),
        13 => Data::Lib(
            std::time::Duration::new(w(100_000), w(1_000_000_000) as u32),
            -(w(100) as i64)..w(100) as i64,
            std::num::NonZeroU16::new(1 + w(65535) as u16).unwrap(),
            gen_str(g).into_boxed_str(),
            if chance(1, 2) { [byte(), 0, 0, 1].into() } else { [w(65536) as u16, 0, 0, 0, 0, 0, 0, 1].into() },
        ),
        14 => Data::Deep(((byte(), (gen_str(g),)), [[w(256) as i8, 0], [-1, w(256) as i8]])),
        _ => Data::Rename { a: byte(), b: gen_str(g), c: gen_f64(g), d: (), e: many(g, || ()) },
    }
}
fn gen_data(g: &Gen, d: u32) -> Data {
    if chance(1, 8) {
        return gen_more(g, d);
    }
    let sub = || gen_data(g, d.saturating_sub(1));
    let odd = chance(g.odd_num, 8);
    let n = match odd {
        true if chance(1, 2) => edge() as u64,
        true => wide(),
        false => w(200),
    };
    if d > 0 && chance(g.nest, 8) {
        return match w(12) {
            0 => Data::List(many(g, sub)),
            1 => Data::Pair(Box::new(sub()), Box::new(sub())),
            2 => Data::Rec { a: Box::new(sub()), foo: chance(1, 2).then(|| w(256) as u8), bar: many(g, || gen_str(g)) },
            3 => Data::Named(many(g, || (gen_str(g), sub())).into_iter().collect()),
            4 => Data::Numbered(many(g, || (if chance(g.odd_num, 16) { edge() as i64 } else { w(50) as i64 - 25 }, sub())).into_iter().collect()),
            5 => Data::ByPair(many(g, || ((w(3) as u8, gen_str(g)), sub())).into_iter().collect()),
            6 => Data::St(Box::new(gen_struct(g, d - 1))),
            7 => Data::Opt(if chance(1, 4) { None } else { Some(Box::new(sub())) }),
            8 => Data::New(Newtype(many(g, || chance(2, 3).then(|| w(256) as i8)))),
            9 => Data::Nested(many(g, || many(g, || w(1000) as i32 - 500))),
            10 => Data::Texts(many(g, || gen_str(g))),
            _ => Data::Nums(many(g, || gen_f64(g))),
        };
    }
    match w(22) {
        0 => Data::Nothing,
        1 => Data::Flag(n % 2 == 0),
        2 => Data::U8(n as u8),
        3 => Data::I16(n as i16),
        4 => Data::U32(n as u32),
        5 => Data::I64(-(n as i64 >> 1)),
        6 => Data::U64(n),
        7 => Data::U128(match odd {
            true if chance(1, 2) => edge(),
            true => u128::MAX - n as u128,
            false => n as u128,
        }),
        8 => Data::I128(match odd {
            true if chance(1, 2) => 0i128.wrapping_sub(edge() as i128),
            true => i128::MIN + n as i128,
            false => -(n as i128),
        }),
        9 => {
            let x = gen_f64(g) as f32;
            Data::F32(x)
        }
        10 => Data::F64(gen_f64(g)),
        11 => Data::Char(gen_char(g)),
        12 | 13 => Data::Text(gen_str(g)),
        14 => Data::Bytes(gen_bytes(g)),
        15 => Data::OptText(chance(1, 2).then(|| gen_str(g))),
        16 => Data::Tup((n as i32, gen_str(g), chance(1, 2).then(|| gen_f64(g)))),
        17 => Data::Unit(Marker),
        18 => Data::Ts(TupStruct(n as u8, gen_str(g), gen_bytes(g))),
        19 => Data::Res(if chance(1, 2) { Ok(n as u8) } else { Err(gen_str(g)) }),
        20 => Data::Arr([n as u8, 0, 255]),
        _ => Data::Nil(()),
    }
}

/// The saved state, in several outer forms.
#[derive(Clone, Debug, PartialEq)]
enum State {
    Struct(RootStruct),
    Tuple(u64, Data),
    Named(RootTuple),
    Variant(RootEnum),
    Seq(Vec<Data>),
    Map(BTreeMap<String, Data>),
}
#[derive(Clone, Debug, PartialEq, Ser, De)]
struct RootStruct {
    seq: u64,
    data: Data,
    note: Option<String>,
}
#[derive(Clone, Debug, PartialEq, Ser, De)]
struct RootTuple(u64, Data);
#[derive(Clone, Debug, PartialEq, Ser, De)]
enum RootEnum {
    A(u64, Data),
    B { seq: u64, data: Data },
}
impl State {
    fn new(form: u64, seq: u64, data: Data, g: &Gen) -> State {
        match form {
            0 => State::Struct(RootStruct { seq, data, note: chance(1, 2).then(|| gen_str(g)) }),
            1 => State::Tuple(seq, data),
            2 => State::Named(RootTuple(seq, data)),
            3 => State::Variant(RootEnum::A(seq, data)),
            4 => State::Variant(RootEnum::B { seq, data }),
            5 => {
                let mut l = vec![Data::U64(seq), data];
                l.extend(many(g, || gen_data(g, 1)));
                State::Seq(l)
            }
            _ => {
                let mut l: BTreeMap<String, Data> = many(g, || (gen_str(g), gen_data(g, 1))).into_iter().collect();
                l.insert("data".into(), data);
                l.insert("seq".into(), Data::U64(seq));
                State::Map(l)
            }
        }
    }
    fn seq(&self) -> Option<u64> {
        match self {
            State::Struct(x) => Some(x.seq),
            State::Tuple(n, _) | State::Named(RootTuple(n, _)) | State::Variant(RootEnum::A(n, _)) => Some(*n),
            State::Variant(RootEnum::B { seq, .. }) => Some(*seq),
            State::Seq(l) => match l.first() {
                Some(Data::U64(n)) => Some(*n),
                _ => None,
            },
            State::Map(l) => match l.get("seq") {
                Some(Data::U64(n)) => Some(*n),
                _ => None,
            },
        }
    }
    fn encode(&self) -> Result<Kserd<'static>, String> {
        match self {
            State::Struct(x) => Kserd::enc(x),
            State::Tuple(n, x) => Kserd::enc(&(n, x)),
            State::Named(x) => Kserd::enc(x),
            State::Variant(x) => Kserd::enc(x),
            State::Seq(x) => Kserd::enc(x),
            State::Map(x) => Kserd::enc(x),
        }
        .map_err(|e| e.to_string())
    }
    fn decode(form: u64, k: Kserd) -> Result<State, String> {
        match form {
            0 => k.decode().map(State::Struct),
            1 => k.decode().map(|(a, b)| State::Tuple(a, b)),
            2 => k.decode().map(State::Named),
            3 | 4 => k.decode().map(State::Variant),
            5 => k.decode().map(State::Seq),
            _ => k.decode().map(State::Map),
        }
        .map_err(|e| e.to_string())
    }
}

/// How a program writes: every save may use another layout.
#[derive(Clone, Debug)]
struct Look {
    cfg: Option<FormattingConfig>,
    root: u64,
    reqs: Vec<(u64, u64)>,
}
fn gen_look() -> Look {
    let cfg = chance(3, 4).then(|| {
        let mut c = gen_cfg();
        // these name the variants
        c.id_on_tuples = true;
        c.id_on_containers = true;
        c
    });
    let mut reqs = vec![];
    while w(4) != 0 && reqs.len() < 12 {
        reqs.push((w(2), w(64)));
    }
    Look { cfg, root: w(3), reqs }
}
fn write_out(k: &Kserd, l: &Look) -> String {
    let mut f = Formatter::new(k);
    if let Some(c) = l.cfg {
        f.apply_config(c);
    }
    if l.root == 1 {
        let _ = f.concise(0);
    } else if l.root == 2 || f.fmts()[0].line == Repr::Verbose {
        let r = f.concise(0);
        if l.root == 2 || r.is_err() {
            let _ = f.inline(0);
        }
    }
    for (op, n) in &l.reqs {
        let i = 1 + *n as usize % f.len();
        let _ = match op {
            0 => f.inline(i),
            _ => f.concise(i),
        };
    }
    f.write_string(String::new())
}

// ---------------------------------------------------------------- disk

#[derive(Default, Clone)]
struct Slot {
    /// what a reader sees
    bytes: Vec<u8>,
    /// how much of it is certain to survive a crash
    synced: usize,
}
#[derive(Default)]
struct Store {
    slots: [Slot; 2],
    acked: Option<State>,
    flight: Option<State>,
}

struct Program {
    form: u64,
    saves: Vec<(State, Look, Plan)>,
    block: usize,
}
#[derive(Clone, Debug)]
struct Plan {
    /// crash before this many blocks were written (beyond the last: after the sync, before the acknowledgement)
    crash: Option<u64>,
    /// counted from the end
    late: bool,
    /// where the surviving prefix ends, in 1/1024 of the unsynced bytes
    keep: u64,
    pad: bool,
    /// sync in between
    sync_every: u64,
}

/// Recovery from a snapshot of both slots: the newest that parses.
fn recover(form: u64, slots: &[Vec<u8>; 2], who: &str) -> Result<Option<(State, usize)>, (&'static str, String)> {
    let mut best: Option<(State, usize)> = None;
    let mut seen = vec![];
    for (i, b) in slots.iter().enumerate() {
        let Ok(t) = std::str::from_utf8(b) else {
            continue;
        };
        let r = guard(|| match kserd::parse::parse(t) {
            Err(_) => None,
            Ok(k) => Some(State::decode(form, k)),
        });
        match r {
            Err(p) => return Err(("panic", format!("{who}: loading slot {i} panicked: {p}; text {t:?}"))),
            Ok(None) => {
                if !b.is_empty() {
                    count("probe.slot-refused");
                    nontrivial();
                }
            }
            Ok(Some(Err(e))) => return Err(("loaded-does-not-decode", format!("{who}: slot {i} parses but does not decode: {e}; text {t:?}"))),
            Ok(Some(Ok(s))) => {
                let Some(n) = s.seq() else { return Err(("loaded-without-number", format!("{who}: slot {i} holds {s:?}, which was never saved; text {t:?}"))) };
                seen.push(n);
                if best.as_ref().map_or(true, |x| x.0.seq().unwrap() < n) {
                    best = Some((s, i));
                }
            }
        }
    }
    ev!("{who}: slots hold {seen:?}");
    Ok(best)
}
fn same(a: &State, b: &State) -> bool {
    a == b
}
/// The recovered state against the model.
fn judge(form: u64, slots: &[Vec<u8>; 2], acked: &Option<State>, flight: &Option<State>, who: &str) -> Result<Option<(State, usize)>, ()> {
    let r = match recover(form, slots, who) {
        Err((c, m)) => {
            violation(c, &m);
            return Err(());
        }
        Ok(r) => r,
    };
    let ok = match (&r, acked) {
        (None, None) => true,
        (Some((s, _)), a) => a.as_ref().is_some_and(|a| same(a, s)) || flight.as_ref().is_some_and(|f| same(f, s)),
        (None, Some(_)) => false,
    };
    let text = |b: &Vec<u8>| cut(&format!("{:?}", String::from_utf8_lossy(b)), 1500);
    if !ok {
        let class = if r.is_none() { "acknowledged-state-lost" } else { "recovered-something-else" };
        violation(
            class,
            &format!("{who}: recovered {:?}; acknowledged {acked:?}; being saved {flight:?}; slots {} and {}", r.map(|x| x.0), text(&slots[0]), text(&slots[1])),
        );
        return Err(());
    }
    count(match &r {
        None => "op.recovered-nothing",
        Some((s, _)) if flight.as_ref().is_some_and(|f| same(f, s)) => "op.recovered-in-flight",
        _ => "op.recovered-acknowledged",
    });
    result(&format!("{:?}", r));
    Ok(r)
}

fn writer(p: &Program, st: &Mutex<Store>, who: usize) {
    let mut next = 0usize;
    for (s, look, plan) in &p.saves {
        if violated() {
            return;
        }
        simrt::yield_point("save");
        let text = match guard(|| s.encode().map(|k| write_out(&k, look))) {
            Err(m) => {
                violation(&panic_class(&m), &format!("saving panicked: {m}; state {s:?}, {look:?}"));
                return;
            }
            Ok(Err(e)) => {
                violation("does-not-encode", &format!("encoding failed: {e}; state {s:?}"));
                return;
            }
            Ok(Ok(t)) => t,
        };
        count("op.save");
        let slot = next;
        ev!("program {who}: saves state {:?} to slot {slot}: {}", s.seq(), cut(&format!("{text:?}"), 700));
        {
            let _m = simrt::Mask::new();
            let mut d = st.lock().unwrap();
            d.flight = Some(s.clone());
            d.slots[slot] = Slot::default();
        }
        let mut crashed = false;
        let blocks: Vec<&[u8]> = text.as_bytes().chunks(p.block).collect();
        let end = blocks.len() as u64 + 1;
        let crash = plan.crash.map(|c| if plan.late { end.saturating_sub(c) } else { c });
        for (i, b) in blocks.iter().enumerate() {
            simrt::yield_point("block");
            if crash == Some(i as u64) {
                crashed = true;
                break;
            }
            let _m = simrt::Mask::new();
            let mut d = st.lock().unwrap();
            d.slots[slot].bytes.extend_from_slice(b);
            if plan.sync_every != 0 && i as u64 % plan.sync_every == 0 {
                d.slots[slot].synced = d.slots[slot].bytes.len();
            }
        }
        simrt::yield_point("sync");
        if !crashed && crash == Some(blocks.len() as u64) {
            crashed = true;
        }
        if !crashed {
            {
                let _m = simrt::Mask::new();
                let mut d = st.lock().unwrap();
                d.slots[slot].synced = d.slots[slot].bytes.len();
            }
            simrt::yield_point("acknowledge");
            if crash != Some(blocks.len() as u64 + 1) {
                let _m = simrt::Mask::new();
                let mut d = st.lock().unwrap();
                d.acked = d.flight.take();
                next = 1 - slot;
                continue;
            }
        }
        // crash: only a prefix of what was not synced survives
        let (slots, acked, flight) = {
            let _m = simrt::Mask::new();
            let mut d = st.lock().unwrap();
            let x = &mut d.slots[slot];
            let open = x.bytes.len() - x.synced;
            let keep = x.synced + (open as u64 * plan.keep.min(1024) / 1024) as usize;
            let full = x.bytes.len();
            x.bytes.truncate(keep);
            if plan.pad && keep < full {
                x.bytes.resize(full, 0);
                count("fault.zero-padding");
            }
            count(if keep == full { "fault.crash" } else { "fault.crash-lost-tail" });
            ev!("program {who}: crash, slot {slot} keeps {keep} of {} bytes{}", text.len(), if plan.pad { ", zero padded" } else { "" });
            ([d.slots[0].bytes.clone(), d.slots[1].bytes.clone()], d.acked.clone(), d.flight.clone())
        };
        let Ok(r) = judge(p.form, &slots, &acked, &flight, &format!("program {who} restarting")) else { return };
        // goes on from what it found
        let _m = simrt::Mask::new();
        let mut d = st.lock().unwrap();
        d.flight = None;
        next = match &r {
            Some((_, i)) => 1 - i,
            None => 0,
        };
        d.acked = r.map(|x| x.0);
    }
    // a last orderly start
    let (slots, acked) = {
        let _m = simrt::Mask::new();
        let d = st.lock().unwrap();
        ([d.slots[0].bytes.clone(), d.slots[1].bytes.clone()], d.acked.clone())
    };
    let _ = judge(p.form, &slots, &acked, &None, &format!("program {who} starting"));
}
fn reader(p: &Program, st: &Mutex<Store>, times: u64, who: usize) {
    for _ in 0..times {
        simrt::yield_point("standby");
        if violated() {
            return;
        }
        let (slots, acked, flight) = {
            let _m = simrt::Mask::new();
            let d = st.lock().unwrap();
            ([d.slots[0].bytes.clone(), d.slots[1].bytes.clone()], d.acked.clone(), d.flight.clone())
        };
        count("op.standby-read");
        if judge(p.form, &slots, &acked, &flight, &format!("standby {who}")).is_err() {
            return;
        }
    }
}

fn run() {
    sizes_up_to(1 << 12);
    let g = Gen::swarm(4, 4);
    let often = pick(&[2, 6]);
    let programs: Vec<Program> = (0..1 + w(2))
        .map(|_| {
            let form = w(7);
            let block = pick(&[1usize, 8, 16, 64, 512]);
            let saves = (0..1 + w(8))
                .map(|i| {
                    let s = State::new(form, i + 1, gen_data(&g, g.depth), &g);
                    let crash = fchance(1, often).then(|| if fchance(1, 2) { fl(6) } else { fl(64) });
                    (s, gen_look(), Plan { crash, late: fchance(1, 2), keep: if fchance(1, 2) { 1024 } else { fl(1025) }, pad: fchance(1, 3), sync_every: if fchance(1, 2) { 0 } else { 1 + fl(4) } })
                })
                .collect();
            Program { form, saves, block }
        })
        .collect();
    let readers: Vec<u64> = programs.iter().map(|_| if chance(1, 2) { 0 } else { 1 + w(4) }).collect();
    let cfg = sched_cfg(400_000_000);
    let stores: Vec<Mutex<Store>> = programs.iter().map(|_| Mutex::new(Store::default())).collect();
    let mut tasks: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
    for (i, p) in programs.iter().enumerate() {
        let st = &stores[i];
        tasks.push(Box::new(move || writer(p, st, i)));
        let n = readers[i];
        if n > 0 {
            tasks.push(Box::new(move || reader(p, st, n, i)));
        }
    }
    simrt::run_tasks(cfg, tasks);
}
