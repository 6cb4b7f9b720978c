//! C21: building a value out of the caller's items, some of which fail, panic
//! or say the wrong things about themselves.
use super::*;
use kserd::{Kserd, Kstr, ToKserd, ToKserdErr, Value};
use simrt::{count, ev, nontrivial, result, violation};
use std::cell::RefCell;
use std::collections::BTreeMap;

pub const C21: Prop = Prop {
    id: "C21",
    run,
    quick: 200_000,
    thorough: 6_000_000,
    wall: 20,
    rule: "Each run draws 1 to 3 threads, each with 1 to 4 builds: conversions of nested vectors, arrays, tuples, boxes, options, results and caller types (up to about 300 items, 5 deep), containers and maps out of iterators, and identities; items fail or panic at drawn places, iterators panic, misstate their length or go on after their end, names are refused. Threads switch at every callback and basic block. A reference model says which items are asked and what comes out. Non-trivial when two or more items were asked.",
    real: &["kserd conversions and constructors (unmodified, from /repo)", "std collections"],
    stub: &["OS scheduler", "caller items, iterators and names", "allocator (counted, freed memory poisoned)"],
    assume: &["an iterator that misstates its length is at most 64 off", "of several refused names any may be the one reported", "sampling: a clean batch is evidence, not proof"],
};

// ---------------------------------------------------------------- what is built

#[derive(Clone, Debug)]
enum P {
    Leaf(Leaf),
    /// refused name of an identity or a field
    Fail(bool, &'static str),
    Panic,
    List(Form, Vec<(u32, P)>),
}
#[derive(Clone, Debug)]
enum Leaf {
    Num(u64, i128),
    Bool(bool),
    Unit,
    Ch(char),
    Str(String, bool),
    Kserd(M),
    Units(usize),
    Bytes(Vec<u8>),
    Words(Vec<String>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Form {
    Vec,
    Array,
    Tuple,
    Some,
    None,
    Ok,
    Err,
    Box,
    /// caller types: a named tuple, a container, a map
    Named(&'static str),
    Cntr,
    Map,
}
const BAD_IDS: &[&str] = &["a b", "(", "x)", "a.b", "a=b", "x,y", "{", "[0]", "<", "/", "\\", " ", "a_rather_long_identity_with_a_bad (end", "x-y-x-y-x-y-x-y-x-y-x-y-x-y-x-y-x-y-x-y-x-y-x-y-x-y-x-y-x-y-x-y-x-y/", "ééééééééééééééééé.", ">12345678"];
const BAD_NAMES: &[&str] = &["a b", "a/b", "", "1x", "tab\tx", "q\"", "back\\s", "it's", "9", "a_rather_long_name_that_goes_wrong_at the_end", "x-y-x-y-x-y-x-y-x-y-x-y-x-y-x-y-x-y-x-y-x-y-x-y-x-y-x-y-x-y-x-y-x-y'", "ééééééééééééééééé\"", "\tlead", "zz z", "漢 字", "~'"];
fn bad_id(s: &str) -> bool {
    s.contains(|c| " (){}[]<>.,=/\\".contains(c))
}
fn bad_name(s: &str) -> bool {
    s.is_empty() || s.as_bytes()[0].is_ascii_digit() || s.contains(|c| " /\\\"\t'".contains(c))
}
/// A refused name: one of the list, or a good one with a bad character anywhere.
fn spoil(s: String, list: &[&str], chars: &str) -> String {
    if fl(2) == 0 {
        return list[fl(list.len() as u64) as usize].to_string();
    }
    let c: Vec<char> = chars.chars().collect();
    let mut at = match fl(3) {
        0 => s.len(),
        1 => 0,
        _ => fl(s.len() as u64 + 1) as usize,
    };
    while !s.is_char_boundary(at) {
        at -= 1
    }
    let mut s = s;
    s.insert(at, c[fl(c.len() as u64) as usize]);
    s
}
fn spoil_name(s: String) -> String {
    spoil(s, BAD_NAMES, " /\\\"\t'")
}
fn spoil_id(s: String) -> String {
    spoil(s, BAD_IDS, " (){}[]<>.,=/\\")
}

fn gen_leaf(g: &Gen) -> Leaf {
    match w(10) {
        0..=2 => Leaf::Num(w(14), if chance(1, 3) { edge() as i128 } else { w(1000) as i128 - 500 }),
        3 => Leaf::Bool(chance(1, 2)),
        4 => pick(&[Leaf::Unit, Leaf::Ch('y'), Leaf::Ch('é'), Leaf::Ch('\u{10ffff}'), Leaf::Ch('\0')]),
        5 => Leaf::Str(gen_str(g), true),
        6 => Leaf::Str(gen_str(g), false),
        7 => Leaf::Kserd(gen(g, 2)),
        8 => Leaf::Units(pick(&[0, 1, 2, 7, 300])),
        _ if chance(1, 2) => Leaf::Bytes((0..pick(&[0, 1, 3, 40])).map(|i: u8| i.wrapping_mul(7)).collect()),
        _ => Leaf::Words((0..w(4)).map(|_| gen_str(g)).collect()),
    }
}
fn gen_p(g: &Gen, d: u32, n: &mut u32, bad: u64) -> (u32, P) {
    let me = *n;
    *n += 1;
    if fchance(bad, 64) {
        let p = match fl(3) {
            0 => P::Fail(true, BAD_IDS[fl(BAD_IDS.len() as u64) as usize]),
            1 => P::Fail(false, BAD_NAMES[fl(BAD_NAMES.len() as u64) as usize]),
            _ => P::Panic,
        };
        return (me, p);
    }
    if d == 0 || !chance(3, 4) {
        return (me, P::Leaf(gen_leaf(g)));
    }
    let form = pick(&[Form::Vec, Form::Vec, Form::Array, Form::Array, Form::Tuple, Form::Tuple, Form::Some, Form::None, Form::Ok, Form::Err, Form::Box, Form::Named("Point"), Form::Named("x-y"), Form::Cntr, Form::Map]);
    let len = match form {
        Form::Vec if *n < 40 && chance(1, 24) => any_len() as u64,
        Form::Vec | Form::Named(_) | Form::Cntr | Form::Map => w(6),
        Form::Array if *n < 40 && chance(1, 2) => 1 + w(32),
        Form::Tuple if *n < 40 && chance(1, 2) => 1 + w(12),
        Form::Array | Form::Tuple => 1 + w(4),
        Form::None => 0,
        _ => 1,
    };
    let d = if len > 12 { 0 } else { d - 1 };
    (me, P::List(form, (0..len).map(|_| gen_p(g, d, n, bad)).collect()))
}

// ---------------------------------------------------------------- the real thing

#[derive(Default)]
struct Log {
    asked: RefCell<Vec<u32>>,
    made: RefCell<Vec<u32>>,
    gone: RefCell<Vec<u32>>,
    /// the failure as the caller's code saw it
    failed: RefCell<Option<ToKserdErr>>,
}
struct Item<'p> {
    n: u32,
    p: &'p P,
    log: &'p Log,
}
impl<'p> Item<'p> {
    fn new((n, p): &'p (u32, P), log: &'p Log) -> Item<'p> {
        let _m = simrt::Mask::new();
        log.made.borrow_mut().push(*n);
        Item { n: *n, p, log }
    }
}
impl Drop for Item<'_> {
    fn drop(&mut self) {
        let _m = simrt::Mask::new();
        self.log.gone.borrow_mut().push(self.n);
    }
}
fn num<'a>(t: u64, x: i128) -> Result<Kserd<'a>, ToKserdErr> {
    match t {
        0 => (x as usize).into_kserd(),
        1 => (x as u8).into_kserd(),
        2 => (x as u16).into_kserd(),
        3 => (x as u32).into_kserd(),
        4 => (x as u64).into_kserd(),
        5 => (x as u128).into_kserd(),
        6 => (x as isize).into_kserd(),
        7 => (x as i8).into_kserd(),
        8 => (x as i16).into_kserd(),
        9 => (x as i32).into_kserd(),
        10 => (x as i64).into_kserd(),
        11 => x.into_kserd(),
        12 => (x as i16 as f32 / 4.0).into_kserd(),
        _ => (x as f64 / 4.0).into_kserd(),
    }
}
macro_rules! arrays {
    ($l:expr, $($n:literal)*) => { match $l.len() {
        $($n => <[Item; $n]>::try_from($l).ok().unwrap().into_kserd(),)*
        n => panic!("no array of {n}"),
    } }
}
macro_rules! tuples {
    ($l:expr, $($n:literal: $($x:ident)*;)*) => { match $l.len() {
        $($n => {
            let mut i = $l.into_iter();
            $(let $x = i.next().unwrap();)*
            ($($x,)*).into_kserd()
        })*
        n => panic!("no tuple of {n}"),
    } }
}
impl<'p> ToKserd<'p> for Item<'p> {
    fn into_kserd(self) -> Result<Kserd<'p>, ToKserdErr> {
        {
            let _m = simrt::Mask::new();
            self.log.asked.borrow_mut().push(self.n);
        }
        simrt::yield_point("item");
        let keep = |e: ToKserdErr| {
            let _m = simrt::Mask::new();
            let mut f = self.log.failed.borrow_mut();
            f.get_or_insert(e.clone());
            drop(f);
            e
        };
        match self.p {
            P::Leaf(l) => match l {
                Leaf::Num(t, x) => num(*t, *x),
                Leaf::Bool(b) => b.into_kserd(),
                Leaf::Unit => ().into_kserd(),
                Leaf::Ch(c) => c.into_kserd(),
                Leaf::Str(s, true) => s.as_str().into_kserd(),
                Leaf::Str(s, false) => s.clone().into_kserd(),
                Leaf::Kserd(m) => m.brw().into_kserd(),
                Leaf::Units(n) => vec![(); *n].into_kserd(),
                Leaf::Bytes(b) => b.clone().into_kserd(),
                Leaf::Words(l) => l.iter().map(|x| x.as_str()).collect::<Vec<_>>().into_kserd(),
            },
            P::Fail(id, t) => {
                count("fault.item-failed");
                if *id {
                    Kserd::with_id(*t, Value::Unit).map_err(|e| keep(e.into()))
                } else {
                    let v = Value::new_cntr(vec![(*t, Kserd::new_unit())]).map_err(|e| keep(e.into()))?;
                    Ok(Kserd::new(v))
                }
            }
            P::Panic => {
                count("fault.item-panicked");
                panic!("item {} panics", self.n)
            }
            P::List(form, l) => {
                let mut l: Vec<Item<'p>> = l.iter().map(|x| Item::new(x, self.log)).collect();
                match form {
                    Form::Vec => l.into_kserd(),
                    Form::Array => arrays!(l, 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32),
                    Form::Tuple => tuples!(l, 1: a; 2: a b; 3: a b c; 4: a b c d; 5: a b c d e; 6: a b c d e f; 7: a b c d e f g; 8: a b c d e f g h; 9: a b c d e f g h i_; 10: a b c d e f g h i_ j; 11: a b c d e f g h i_ j k; 12: a b c d e f g h i_ j k m;),
                    Form::Some => l.pop().into_kserd(),
                    Form::None => None::<Item>.into_kserd(),
                    Form::Ok => Ok::<Item, Item>(l.remove(0)).into_kserd(),
                    Form::Err => Err::<Item, Item>(l.remove(0)).into_kserd(),
                    Form::Box => Box::new(l.remove(0)).into_kserd(),
                    Form::Named(n) => {
                        let mut v = vec![];
                        for x in l {
                            v.push(x.into_kserd()?);
                        }
                        Ok(Kserd::with_id(*n, Value::Tuple(v))?)
                    }
                    Form::Cntr => {
                        let mut v = vec![];
                        for (i, x) in l.into_iter().enumerate() {
                            v.push((Kstr::owned(format!("f{i}")), x.into_kserd()?));
                        }
                        Ok(Kserd::new_cntr(v)?)
                    }
                    Form::Map => {
                        let mut v = vec![];
                        for (i, x) in l.into_iter().enumerate() {
                            v.push((i.into_kserd()?, x.into_kserd()?));
                        }
                        Ok(Kserd::new_map(v))
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- the model

enum Stop {
    Fail,
    Panic(u32),
}
const TYPES: &[&str] = &["usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64", "i128", "f32", "f64"];
fn id(n: &str, v: V) -> M {
    M { id: Some(n.to_string()), v }
}
fn want((n, p): &(u32, P), asked: &mut Vec<u32>) -> Result<M, Stop> {
    asked.push(*n);
    match p {
        P::Leaf(l) => Ok(match l {
            Leaf::Num(t, x) => {
                let v = match t {
                    0 | 4 => V::U(*x as u64 as u128),
                    1 => V::U(*x as u8 as u128),
                    2 => V::U(*x as u16 as u128),
                    3 => V::U(*x as u32 as u128),
                    5 => V::U(*x as u128),
                    6 | 10 => V::I(*x as i64 as i128),
                    7 => V::I(*x as i8 as i128),
                    8 => V::I(*x as i16 as i128),
                    9 => V::I(*x as i32 as i128),
                    11 => V::I(*x),
                    12 => V::F(*x as i16 as f64 / 4.0),
                    _ => V::F(*x as f64 / 4.0),
                };
                id(TYPES[*t as usize], v)
            }
            Leaf::Bool(b) => id("bool", V::Bool(*b)),
            Leaf::Unit => m(V::Unit),
            Leaf::Ch(c) => id("char", V::Str(c.to_string())),
            Leaf::Str(s, b) => id(if *b { "str" } else { "String" }, V::Str(s.clone())),
            Leaf::Kserd(m) => m.clone(),
            Leaf::Units(n) => id("Vec", V::Seq(vec![m(V::Unit); *n])),
            Leaf::Bytes(b) => id("Vec", V::Seq(b.iter().map(|x| id("u8", V::U(*x as u128))).collect())),
            Leaf::Words(l) => id("Vec", V::Seq(l.iter().map(|x| id("str", V::Str(x.clone()))).collect())),
        }),
        P::Fail(..) => Err(Stop::Fail),
        P::Panic => Err(Stop::Panic(*n)),
        P::List(f, l) => {
            let mut v = vec![];
            for x in l {
                v.push(want(x, asked)?);
            }
            Ok(match f {
                Form::Vec => id("Vec", V::Seq(v)),
                Form::Array => id("array", V::Seq(v)),
                Form::Tuple => m(V::Tuple(v)),
                Form::None => id("None", V::Tuple(v)),
                Form::Ok => id("Ok", V::Tuple(v)),
                Form::Err => id("Err", V::Tuple(v)),
                Form::Some | Form::Box => v.pop().unwrap(),
                Form::Named(n) => id(n, V::Tuple(v)),
                Form::Cntr => m(V::Cntr(v.into_iter().enumerate().map(|(i, x)| (format!("f{i}"), x)).collect::<BTreeMap<_, _>>().into_iter().collect())),
                Form::Map => m(V::Map(v.into_iter().enumerate().map(|(i, x)| (id("usize", V::U(i as u128)), x)).collect())),
            })
        }
    }
}
/// One form per number, entries of maps in one order.
fn canon(x: &M) -> M {
    let l = |l: &Vec<M>| l.iter().map(canon).collect();
    let v = match &x.v {
        V::I(x) if *x >= 0 => V::U(*x as u128),
        V::Tuple(x) => V::Tuple(l(x)),
        V::Seq(x) => V::Seq(l(x)),
        V::Cntr(x) => V::Cntr(x.iter().map(|(n, x)| (n.clone(), canon(x))).collect()),
        V::Map(x) => {
            let mut x: Vec<(M, M)> = x.iter().map(|(k, v)| (canon(k), canon(v))).collect();
            x.sort_by_cached_key(|e| e.0.digest());
            V::Map(x)
        }
        o => o.clone(),
    };
    M { id: x.id.clone(), v }
}

// ---------------------------------------------------------------- iterators

/// How an iterator of the caller behaves.
#[derive(Clone, Debug)]
struct Habits {
    /// before which item it panics
    panics: Option<usize>,
    /// whose name panics when it is turned into text
    name_panics: Option<usize>,
    /// what it says about its length: the truth, nothing, too little, too much
    hint: u64,
    /// items after which it says it has ended
    pause: Option<usize>,
}
struct Iter<'p, T> {
    l: std::vec::IntoIter<T>,
    h: &'p Habits,
    at: usize,
    paused: bool,
}
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        simrt::yield_point("next");
        if self.h.panics == Some(self.at) {
            count("fault.iterator-panicked");
            panic!("iterator panics at {}", self.at)
        }
        if self.h.pause == Some(self.at) && !self.paused {
            count("fault.iterator-paused");
            self.paused = true;
            return None;
        }
        self.at += 1;
        self.l.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.l.len();
        match self.h.hint {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n / 2, Some(n / 2)),
            _ => (n + 1 + self.h.hint as usize, Some(n + 1 + self.h.hint as usize)),
        }
    }
}
struct Name<'p> {
    s: &'p str,
    n: usize,
    h: &'p Habits,
    own: bool,
}
impl<'p> From<Name<'p>> for Kstr<'p> {
    fn from(x: Name<'p>) -> Kstr<'p> {
        simrt::yield_point("name");
        if x.h.name_panics == Some(x.n) {
            count("fault.name-panicked");
            panic!("name panics at {}", x.n)
        }
        if x.own {
            Kstr::owned(x.s.to_string())
        } else {
            Kstr::brwed(x.s)
        }
    }
}

// ---------------------------------------------------------------- builds

#[derive(Clone, Debug)]
enum Op {
    Convert((u32, P)),
    Cntr(Vec<(String, M)>, Habits, bool),
    Map(Vec<(M, M)>, Habits, bool),
    Id(String, M, Habits),
}
fn gen_habits(n: usize, names: bool) -> Habits {
    let mut h = Habits { panics: None, name_panics: None, hint: 0, pause: None };
    if fchance(1, 2) {
        let at = fl(n as u64 + 1) as usize;
        match fl(if names { 4 } else { 3 }) {
            0 => h.panics = Some(at),
            1 => h.pause = Some(at),
            2 => {}
            _ => h.name_panics = Some(at),
        }
    }
    if fchance(1, 2) {
        h.hint = fl(64);
        if h.hint > 0 {
            count("fault.length-misstated");
        }
    }
    h
}
fn gen_op(g: &Gen) -> Op {
    match w(8) {
        0..=4 => {
            let bad = if fchance(1, 2) { 1 + fl(6) } else { 0 };
            Op::Convert(gen_p(g, 1 + w(4) as u32, &mut 0, bad))
        }
        5 => {
            let n = if chance(1, 8) { big_len() / 2 } else { w(8) as usize };
            // one refused name, or one in four
            let bad = fl(5);
            let mut l: Vec<(String, M)> = vec![];
            for i in 0..n {
                let name = match w(6) {
                    // once more
                    0 if i > 0 => l[w(i as u64) as usize].0.clone(),
                    1 => pick(&["é", "x.y", "a=b", "(", "漢字", "a-9", "[]"]).to_string(),
                    2 | 3 => format!("f{}", w(40.max(4 * n as u64))),
                    _ => name(),
                };
                let name = if bad == 1 && fchance(1, 4) { spoil_name(name) } else { name };
                l.push((name, if n > 20 && chance(1, 2) { m(V::Unit) } else { gen(g, 1) }));
            }
            if bad > 2 && n > 0 {
                let i = fl(n as u64) as usize;
                l[i].0 = spoil_name(name());
            }
            let h = gen_habits(l.len(), true);
            Op::Cntr(l, h, chance(1, 2))
        }
        6 => {
            let n = if chance(1, 12) { big_len() / 4 } else { w(8) as usize };
            let mut l: Vec<(M, M)> = vec![];
            for i in 0..n {
                let k = match w(5) {
                    0 if i > 0 => l[w(i as u64) as usize].0.clone(),
                    1 => m(V::U(w(60) as u128)),
                    2 => m(V::Bool(chance(1, 2))),
                    3 => m(V::Seq((0..w(3)).map(|_| m(V::U(w(4) as u128))).collect())),
                    _ => m(V::Str(gen_str(g))),
                };
                l.push((k, gen(g, 1)));
            }
            let h = gen_habits(l.len(), false);
            Op::Map(l, h, chance(1, 2))
        }
        _ => {
            let id = if fchance(1, 2) { spoil_id(name()) } else { name() };
            let mut h = gen_habits(0, true);
            h.panics = None;
            Op::Id(id, gen(g, 2), h)
        }
    }
}

/// What a build came to, and whether that is right.
fn build(op: &Op) -> Result<String, (String, String)> {
    let bad = |c: &str, s: String| Err((c.to_string(), s));
    match op {
        Op::Convert(p) => {
            let log = Log::default();
            let got = guard(|| Item::new(p, &log).into_kserd());
            let _m = simrt::Mask::new();
            let mut asked = vec![];
            let want = want(p, &mut asked);
            let seen = log.asked.borrow();
            if asked.len() > 1 {
                nontrivial();
            }
            if *seen != asked {
                return bad("asked-wrongly", format!("items asked {seen:?}, expected {asked:?}"));
            }
            let (mut made, mut gone) = (log.made.borrow().clone(), log.gone.borrow().clone());
            made.sort_unstable();
            gone.sort_unstable();
            if made != gone {
                return bad("released-wrongly", format!("items handed over {made:?}, released {gone:?}"));
            }
            match (want, &got) {
                (Ok(m), Ok(Ok(k))) => {
                    let (x, y) = (canon(&m).digest(), canon(&M::of(k)).digest());
                    if x != y {
                        return bad("value-differs", format!("got {}, expected {}", cut(&y, 1500), cut(&x, 1500)));
                    }
                    Ok(y)
                }
                (Err(Stop::Fail), Ok(Err(e))) => {
                    let f = log.failed.borrow();
                    if f.as_ref() != Some(e) || f.as_ref().map(|x| x.to_string()) != Some(e.to_string()) {
                        return bad("failure-differs", format!("the item failed with {f:?}, the conversion with {e:?}"));
                    }
                    Ok(e.to_string())
                }
                (Err(Stop::Panic(n)), Err(p)) if p.starts_with(&format!("item {n} panics")) => Ok(p.clone()),
                (w, g) => {
                    let w = match w {
                        Ok(_) => "a value".to_string(),
                        Err(Stop::Fail) => format!("failure {:?}", log.failed.borrow()),
                        Err(Stop::Panic(n)) => format!("the panic of item {n}"),
                    };
                    let class = match g {
                        Err(p) if !p.starts_with("item") => panic_class(p),
                        _ => "outcome-differs".into(),
                    };
                    bad(&class, format!("got {}, expected {w}", cut(&format!("{g:?}"), 800)))
                }
            }
        }
        Op::Cntr(l, h, direct) => {
            let given: Vec<(Name, Kserd)> = l.iter().enumerate().map(|(n, (s, m))| (Name { s, n, h, own: n % 2 == 0 }, m.brw())).collect();
            let it = Iter { l: given.into_iter(), h, at: 0, paused: false };
            let got = guard(|| if *direct { Kserd::new_cntr(it) } else { Value::new_cntr(it).map(Kserd::new) });
            let _m = simrt::Mask::new();
            if l.len() > 1 {
                nontrivial();
            }
            let taken = &l[..h.pause.unwrap_or(l.len()).min(l.len())];
            let refused: Vec<&str> = taken.iter().map(|x| x.0.as_str()).filter(|x| bad_name(x)).collect();
            let panics = h.panics.or(h.name_panics.filter(|n| *n < taken.len()));
            match &got {
                // which of the two ends it is open
                Err(p) if panics.is_some() && (p.starts_with("iterator panics") || p.starts_with("name panics")) => Ok(p.clone()),
                Err(p) => bad(&panic_class(p), format!("panicked: {p}")),
                Ok(Err(e)) if !refused.is_empty() => {
                    let may: Vec<String> = refused.iter().filter_map(|n| Value::new_cntr(vec![(*n, Kserd::new_unit())]).err()).map(|e| e.to_string()).collect();
                    if !may.contains(&e.to_string()) {
                        return bad("failure-differs", format!("failed with {e}, names refused {refused:?}"));
                    }
                    Ok(e.to_string())
                }
                Ok(Err(e)) => bad("refused-wrongly", format!("failed with {e}, though all names are fine")),
                Ok(Ok(_)) if !refused.is_empty() => bad("accepted-wrongly", format!("accepted names {refused:?}")),
                Ok(Ok(_)) if panics.is_some() => bad("outcome-differs", "a value in spite of a panic".into()),
                Ok(Ok(k)) => {
                    let want = m(V::Cntr(taken.iter().cloned().collect::<BTreeMap<_, _>>().into_iter().collect()));
                    same(&want, k)
                }
            }
        }
        Op::Map(l, h, direct) => {
            let given: Vec<(Kserd, Kserd)> = l.iter().map(|(k, v)| (k.brw(), v.brw())).collect();
            let it = Iter { l: given.into_iter(), h, at: 0, paused: false };
            let got = guard(|| if *direct { Kserd::new_map(it) } else { Kserd::new(Value::new_map(it)) });
            let _m = simrt::Mask::new();
            if l.len() > 1 {
                nontrivial();
            }
            let taken = &l[..h.pause.unwrap_or(l.len()).min(l.len())];
            match &got {
                Err(p) if h.panics.is_some() && p.starts_with("iterator panics") => Ok(p.clone()),
                Err(p) => bad(&panic_class(p), format!("panicked: {p}")),
                Ok(_) if h.panics.is_some() => bad("outcome-differs", "a value in spite of a panic".into()),
                Ok(k) => {
                    let e: BTreeMap<String, (M, M)> = taken.iter().map(|(k, v)| (key_text(k), (k.clone(), v.clone()))).collect();
                    same(&m(V::Map(e.into_values().collect())), k)
                }
            }
        }
        Op::Id(s, m, h) => {
            let got = guard(|| Kserd::with_id(Name { s, n: 0, h, own: s.len() % 2 == 0 }, m.v.brw()));
            let _m = simrt::Mask::new();
            let refused = bad_id(&s);
            match &got {
                Err(p) if h.name_panics.is_some() && p.starts_with("name panics") => Ok(p.clone()),
                Err(p) => bad(&panic_class(p), format!("panicked: {p}")),
                Ok(_) if h.name_panics.is_some() => bad("outcome-differs", "a value in spite of a panic".into()),
                Ok(Err(e)) if refused && e.to_string().contains(&format!("'{s}'")) => Ok(e.to_string()),
                Ok(Err(e)) => bad("failure-differs", format!("{s:?} was refused as {e}")),
                Ok(Ok(_)) if refused => bad("accepted-wrongly", format!("accepted {s:?}")),
                Ok(Ok(k)) => same(&id(s, m.v.clone()), k),
            }
        }
    }
}
fn same(want: &M, k: &Kserd) -> Result<String, (String, String)> {
    let (x, y) = (canon(want).digest(), canon(&M::of(k)).digest());
    if x != y {
        return Err(("value-differs".into(), format!("got {}, expected {}", cut(&y, 1500), cut(&x, 1500))));
    }
    Ok(y)
}

fn run() {
    sizes_up_to(1 << 12);
    let g = Gen::swarm(2, 3);
    let threads = pick(&[1, 1, 2, 3]);
    let ops: Vec<Vec<Op>> = (0..threads).map(|_| (0..1 + w(4)).map(|_| gen_op(&g)).collect()).collect();
    // the same builds again, to see whether anything stays behind
    let again = threads == 1 && chance(1, 4);
    for (i, l) in ops.iter().enumerate() {
        for (j, o) in l.iter().enumerate() {
            ev!("thread {i}, build {j}: {}", cut(&format!("{o:?}"), 900));
        }
    }
    let tasks: Vec<Box<dyn FnOnce() + Send + '_>> = ops
        .iter()
        .enumerate()
        .map(|(who, l)| {
            let f = move || {
                for (j, o) in l.iter().enumerate() {
                    simrt::yield_point("build");
                    let mut live = [0; 4];
                    for round in 0..if again { 4 } else { 1 } {
                        let r = build(o);
                        let _m = simrt::Mask::new();
                        match r {
                            Ok(s) => {
                                result(&s);
                                if round == 0 {
                                    ev!("thread {who}, build {j}: {}", cut(&s, 200));
                                }
                            }
                            Err((c, s)) => {
                                violation(&c, &format!("thread {who}, build {j}, round {round}, {}: {s}", cut(&format!("{o:?}"), 1500)));
                                return;
                            }
                        }
                        live[round] = simrt::live_bytes();
                    }
                    let _m = simrt::Mask::new();
                    if again {
                        count("probe.built-again");
                        if live[1] < live[2] && live[2] < live[3] {
                            violation("memory-stays-behind", &format!("build {j} leaves {} bytes behind each time: {}", live[3] - live[2], cut(&format!("{o:?}"), 1500)));
                            return;
                        }
                    }
                    count(match o {
                        Op::Convert(_) => "op.convert",
                        Op::Cntr(..) => "op.container",
                        Op::Map(..) => "op.map",
                        Op::Id(..) => "op.identity",
                    });
                }
            };
            Box::new(f) as Box<dyn FnOnce() + Send + '_>
        })
        .collect();
    simrt::run_tasks(sched_cfg(100_000_000), tasks);
}
