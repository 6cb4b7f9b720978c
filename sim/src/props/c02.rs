//! C02: serialisers that fail, panic, skip, repeat and carry on.
use super::*;
use kserd::encode::Encoder;
use kserd::Kserd;
use serde::ser::{self, Error as _, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
use serde::{Serialize, Serializer};
use simrt::{count, ev, nontrivial, result, violation};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub const C02: Prop = Prop {
    id: "C02",
    run,
    quick: 180_000,
    thorough: 3_000_000,
    wall: 30,
    rule: "Each run draws 1 to 3 encoders with scripts of serialiser calls, injected errors, panics, wrong hints, skipped and repeated calls, whether the caller carries on after each failure, and the interleaving; non-trivial when a fault fired.",
    real: &["kserd encoder (unmodified, from /repo)", "serde data model"],
    stub: &["the caller's Serialize implementations", "OS scheduler", "OS randomness", "locks (futex)"],
    assume: &["scripts up to depth 4 and about 100 calls", "no key call fails and no whole entry is given while a key is waiting (the statement leaves those open)", "sampling: a clean batch is evidence, not proof"],
};

type EncErr = <Encoder as Serializer>::Error;

/// What the caller does when a nested call fails.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Carry {
    Return,
    Ignore,
    /// also catches panics of the nested call
    Catch,
}
#[derive(Clone, Debug)]
enum S {
    Prim(M, u8),
    Boom(u64),
    Panic(u64),
    Some(Box<S>),
    New(usize, bool, Box<S>),
    /// 0 seq, 1 tuple, 2 tuple struct, 3 tuple variant
    List(u8, usize, Option<usize>, Vec<(S, Carry)>, End),
    Map(Option<usize>, Vec<(Call, Carry)>, End),
    Struct(bool, usize, usize, Vec<(Field, Carry)>, End),
}
#[derive(Clone, Debug)]
enum Call {
    Key(S),
    Value(S),
    Entry(S, S),
}
#[derive(Clone, Debug)]
enum Field {
    Put(usize, S),
    Skip(usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    End,
    Boom(u64),
    Panic(u64),
}
/// Names of the scripts; the last two are not valid identities.
const IDS: &[&str] = &["Foo", "Bar", "Red", "p_1", "Some", "None", "a=b", "x y"];
const VALID: u64 = 6;

#[derive(Clone, Debug, PartialEq)]
enum Fail {
    Boom(u64),
    Panic(u64),
    Refused,
    BadId,
}

// ------------------------------------------------------------------ generator

struct G {
    g: Gen,
    boom: u64,
    panic: u64,
    carry: u64,
    badid: u64,
    idkeys: bool,
    hints: bool,
    next: u64,
    budget: u64,
}
impl G {
    fn fault(&mut self) -> Option<S> {
        let x = fl(200);
        if x != 0 && x <= self.boom {
            self.next += 1;
            return Some(S::Boom(self.next));
        }
        if x > 199 - self.panic {
            self.next += 1;
            return Some(S::Panic(self.next));
        }
        None
    }
    fn carry(&mut self) -> Carry {
        let x = fl(16);
        if x != 0 && x <= self.carry {
            Carry::Ignore
        } else if x == 15 && self.carry > 0 {
            Carry::Catch
        } else {
            Carry::Return
        }
    }
    fn end(&mut self) -> End {
        match self.fault() {
            Some(S::Boom(n)) => End::Boom(n),
            Some(S::Panic(n)) => End::Panic(n),
            _ => End::End,
        }
    }
    fn id(&mut self) -> usize {
        if fchance(self.badid, 40) {
            (VALID + fl(2)) as usize
        } else {
            w(VALID) as usize
        }
    }
    fn hint(&mut self, n: usize) -> usize {
        if self.hints && fchance(1, 3) {
            count("fault.wrong-hint");
            match fl(5) {
                0 => 0,
                1 => n + 1,
                2 => n.saturating_sub(1),
                3 => usize::MAX,
                _ => 1 << fl(50),
            }
        } else {
            n
        }
    }
    fn prim(&mut self) -> S {
        let m = match w(12) {
            0 => m(V::Unit),
            1 => M { id: Some("None".into()), v: V::Tuple(vec![]) },
            2 => M { id: Some(IDS[w(VALID) as usize].into()), v: V::Tuple(vec![]) },
            3 => M { id: Some("char".into()), v: V::Str(pick(&["a", "é", "🦀", "\"", "\n"]).into()) },
            _ => gen_prim(&Gen { ids: 0, ..self.g.clone() }),
        };
        S::Prim(m, w(8) as u8)
    }
    fn key(&mut self) -> S {
        if let Some(f) = self.fault() {
            return f;
        }
        if self.idkeys && chance(1, 3) {
            return S::Prim(M { id: Some(IDS[w(4) as usize].into()), v: V::Tuple(vec![]) }, 0);
        }
        match w(6) {
            0 => S::Some(Box::new(S::Prim(m(V::U(w(3) as u128)), 0))),
            1 => S::List(0, 0, Some(1), vec![(S::Prim(m(V::U(w(3) as u128)), 0), Carry::Return)], End::End),
            2 => S::Prim(m(V::Str(pick(&["k", "l", "key", ""]).into())), 0),
            3 => S::Prim(m(V::Bool(chance(1, 2))), 0),
            _ => S::Prim(m(V::U(if chance(1, 3) { w(1000) } else { w(5) } as u128)), w(8) as u8),
        }
    }
    fn gen(&mut self, d: u32) -> S {
        if let Some(f) = self.fault() {
            return f;
        }
        if self.budget == 0 || d == 0 || w(4) == 0 {
            return self.prim();
        }
        self.budget -= 1;
        let n = if big(&self.g, 32) { big_len().min(300) } else { w(6) as usize };
        match w(8) {
            0 => S::Some(Box::new(self.gen(d - 1))),
            1 => {
                let id = self.id();
                // a bad name and a failing value at once: either may be reported
                let x = if id as u64 >= VALID { self.prim() } else { self.gen(d - 1) };
                S::New(id, chance(1, 2), Box::new(x))
            }
            2..=4 => {
                let kind = w(4) as u8;
                let id = if kind >= 2 { self.id() } else { 0 };
                let mut l: Vec<(S, Carry)> = (0..n).map(|_| (self.gen(d - 1), self.carry())).collect();
                if big(&self.g, 32) {
                    // many plain items before those
                    let many = any_len();
                    l.splice(0..0, (0..many).map(|i| (S::Prim(m(V::U(i as u128)), 0), Carry::Return)));
                }
                let n = l.len();
                let h = if kind == 0 && chance(1, 3) { None } else { Some(self.hint(n)) };
                S::List(kind, id, h, l, self.end())
            }
            5 | 6 => {
                let mut l = vec![];
                // what an encoder that keeps to the statement would hold pending
                let mut pending = false;
                for _ in 0..n {
                    let c = match w(6) {
                        0 | 1 if !pending => Call::Entry(self.key(), self.gen(d - 1)),
                        0..=2 => {
                            let mut k = self.key();
                            if pending && eval(&k, true).is_err() {
                                k = S::Prim(m(V::U(w(5) as u128)), 0);
                            }
                            pending |= eval(&k, true).is_ok();
                            Call::Key(k)
                        }
                        _ if pending || fchance(1, 6) => {
                            pending = false;
                            Call::Value(self.gen(d - 1))
                        }
                        _ => Call::Entry(self.key(), self.gen(d - 1)),
                    };
                    l.push((c, self.carry()));
                }
                let h = if chance(1, 3) { None } else { Some(self.hint(n)) };
                S::Map(h, l, self.end())
            }
            _ => {
                let id = self.id();
                let l: Vec<(Field, Carry)> = (0..n)
                    .map(|_| {
                        let f = w(FIELDS.len() as u64) as usize;
                        if fchance(1, 12) {
                            (Field::Skip(f), Carry::Return)
                        } else {
                            (Field::Put(f, self.gen(d - 1)), self.carry())
                        }
                    })
                    .collect();
                let h = self.hint(n);
                S::Struct(chance(1, 2), id, h, l, self.end())
            }
        }
    }
}

/// Field names: the encoder takes any.
const FIELDS: &[&str] = &[
    "a", "b", "c", "foo", "Bar", "key_1", "x-y", "_z", "Some", "None", "str", "Point", "id", "value", "two words", "é", "", "a_long_name-a_long_name-a_long_name-a_long_name-a", "a_long_name-a_long_name-a_long_name-a_long_name-b", "A", "9",
];

// ------------------------------------------------------------------ reference model

fn canon(x: &M) -> M {
    let v = match &x.v {
        V::I(i) if *i >= 0 => V::U(*i as u128),
        V::F(f) if f.is_nan() => V::F(f64::NAN),
        // an f32 may arrive as the nearest f64 or as the f64 of its shortest decimal
        V::F(f) if format!("{:e}", *f as f32).parse::<f64>().unwrap() == *f => V::F(*f as f32 as f64),
        V::Tuple(l) => V::Tuple(l.iter().map(canon).collect()),
        V::Seq(l) => V::Seq(l.iter().map(canon).collect()),
        V::Cntr(l) => V::Cntr(l.iter().map(|(n, x)| (n.clone(), canon(x))).collect()),
        V::Map(l) => {
            let mut l: Vec<(M, M)> = l.iter().map(|(k, x)| (canon(k), canon(x))).collect();
            l.sort_by_cached_key(|x| x.0.digest());
            V::Map(l)
        }
        o => o.clone(),
    };
    // the type names on primitives are not the caller's
    let id = if matches!(v, V::Tuple(_) | V::Seq(_) | V::Cntr(_) | V::Map(_)) { x.id.clone() } else { None };
    M { id, v }
}
/// `strict`: keys that differ only by an identity are different keys.
fn put(l: &mut Vec<(M, M)>, k: M, v: M, strict: bool) {
    let t = |k: &M| if strict { k.digest() } else { key_text(k) };
    match l.iter_mut().find(|e| t(&e.0) == t(&k)) {
        Some(e) => e.1 = v,
        None => l.push((k, v)),
    }
}
fn eval(s: &S, strict: bool) -> Result<M, Fail> {
    let named = |id: usize, v: V| {
        if id as u64 >= VALID {
            Err(Fail::BadId)
        } else {
            Ok(M { id: Some(IDS[id].into()), v })
        }
    };
    // Ok(true): carried on
    let on = |r: Fail, c: Carry| match (c, &r) {
        (Carry::Return, _) | (Carry::Ignore, Fail::Panic(_)) => Err(r),
        _ => Ok(()),
    };
    let end = |e: End| match e {
        End::End => Ok(()),
        End::Boom(n) => Err(Fail::Boom(n)),
        End::Panic(n) => Err(Fail::Panic(n)),
    };
    match s {
        S::Prim(m, _) => Ok(canon(m)),
        S::Boom(n) => Err(Fail::Boom(*n)),
        S::Panic(n) => Err(Fail::Panic(*n)),
        S::Some(x) => Ok(M { id: Some("Some".into()), v: V::Tuple(vec![eval(x, strict)?]) }),
        S::New(id, _, x) => {
            let x = eval(x, strict)?;
            named(*id, V::Tuple(vec![x]))
        }
        S::List(kind, id, _, l, e) => {
            if *kind >= 2 {
                named(*id, V::Unit)?;
            }
            let mut o = vec![];
            for (x, c) in l {
                match eval(x, strict) {
                    Ok(x) => o.push(x),
                    Err(f) => on(f, *c)?,
                }
            }
            end(*e)?;
            match kind {
                0 => Ok(m(V::Seq(o))),
                1 => Ok(m(V::Tuple(o))),
                _ => named(*id, V::Tuple(o)),
            }
        }
        S::Map(_, l, e) => {
            let mut o = vec![];
            let mut key = None;
            for (x, c) in l {
                let r = match x {
                    Call::Key(k) => eval(k, strict).map(|k| key = Some(k)),
                    Call::Value(v) => match key.take() {
                        None => Err(Fail::Refused),
                        Some(k) => eval(v, strict).map(|v| put(&mut o, k, v, strict)),
                    },
                    Call::Entry(k, v) => eval(k, strict).and_then(|k| eval(v, strict).map(|v| put(&mut o, k, v, strict))),
                };
                if let Err(f) = r {
                    on(f, *c)?;
                }
            }
            end(*e)?;
            o.sort_by_cached_key(|x| x.0.digest());
            Ok(m(V::Map(o)))
        }
        S::Struct(_, id, _, l, e) => {
            named(*id, V::Unit)?;
            let mut o = std::collections::BTreeMap::new();
            for (x, c) in l {
                if let Field::Put(n, x) = x {
                    match eval(x, strict) {
                        Ok(x) => {
                            o.insert(FIELDS[*n].to_string(), x);
                        }
                        Err(f) => on(f, *c)?,
                    }
                }
            }
            end(*e)?;
            named(*id, V::Cntr(o.into_iter().collect()))
        }
    }
}

// ------------------------------------------------------------------ the caller's code

struct Bytes<'a>(&'a [u8]);
impl Serialize for Bytes<'_> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        z.serialize_bytes(self.0)
    }
}
fn boom_text(n: u64) -> String {
    match n % 7 {
        4 => String::new(),
        5 => format!("injected failure {n}\nsecond line\n"),
        6 => format!("injected failure {n} {}", "é'\"{}".repeat(60)),
        _ => format!("injected failure {n}"),
    }
}
fn boom<T, E: ser::Error>(n: u64) -> Result<T, E> {
    count("fault.callback-error");
    ev!("callback fails: {n}");
    Err(E::custom(boom_text(n)))
}
fn panic_now(n: u64) -> ! {
    count("fault.callback-panic");
    ev!("callback panics: {n}");
    panic!("injected panic {n}")
}
/// Makes a nested call and does what the script says when it fails.
fn step<E: ser::Error>(c: Carry, f: impl FnOnce() -> Result<(), E>) -> Result<(), E> {
    simrt::yield_point("callback");
    let r = match c {
        Carry::Catch => match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(p) => {
                if !simrt::last_panic().contains("injected panic") {
                    resume_unwind(p)
                }
                count("fault.panic-caught-by-caller");
                return Ok(());
            }
        },
        _ => f(),
    };
    match r {
        Err(e) if c == Carry::Return => Err(e),
        Err(e) => {
            count("fault.carried-on");
            ev!("carries on after {e}");
            Ok(())
        }
        Ok(()) => Ok(()),
    }
}
fn ending<E: ser::Error>(e: End) -> Result<(), E> {
    simrt::yield_point("callback");
    match e {
        End::End => Ok(()),
        End::Boom(n) => boom(n),
        End::Panic(n) => panic_now(n),
    }
}

impl Serialize for S {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        match self {
            S::Boom(n) => boom(*n),
            S::Panic(n) => panic_now(*n),
            S::Prim(m, how) => match &m.v {
                V::Unit => z.serialize_unit(),
                V::Bool(b) => z.serialize_bool(*b),
                V::U(x) => match how {
                    0 if *x <= u8::MAX as u128 => z.serialize_u8(*x as u8),
                    1 if *x <= u16::MAX as u128 => z.serialize_u16(*x as u16),
                    2 if *x <= u32::MAX as u128 => z.serialize_u32(*x as u32),
                    3 if *x <= u64::MAX as u128 => z.serialize_u64(*x as u64),
                    4 if *x <= i8::MAX as u128 => z.serialize_i8(*x as i8),
                    _ => z.serialize_u128(*x),
                },
                V::I(x) => match how {
                    0 if *x >= i8::MIN as i128 && *x <= i8::MAX as i128 => z.serialize_i8(*x as i8),
                    1 if *x >= i16::MIN as i128 && *x <= i16::MAX as i128 => z.serialize_i16(*x as i16),
                    2 if *x >= i32::MIN as i128 && *x <= i32::MAX as i128 => z.serialize_i32(*x as i32),
                    3 if *x >= i64::MIN as i128 && *x <= i64::MAX as i128 => z.serialize_i64(*x as i64),
                    _ => z.serialize_i128(*x),
                },
                V::F(x) => {
                    if *how < 4 && (*x as f32) as f64 == *x {
                        z.serialize_f32(*x as f32)
                    } else {
                        z.serialize_f64(*x)
                    }
                }
                V::Str(s) => match m.id {
                    Some(_) => z.serialize_char(s.chars().next().unwrap()),
                    None if *how == 0 => z.collect_str(s),
                    None => z.serialize_str(s),
                },
                V::Barr(b) => Bytes(b).serialize(z),
                V::Tuple(_) => {
                    let id = m.id.as_deref().unwrap();
                    let id = IDS.iter().find(|x| **x == id).unwrap();
                    match how {
                        0 | 1 if *id == "None" => z.serialize_none(),
                        0..=3 => z.serialize_unit_variant("E", 1, id),
                        _ => z.serialize_unit_struct(id),
                    }
                }
                _ => unreachable!(),
            },
            S::Some(x) => z.serialize_some(&**x),
            S::New(id, variant, x) => {
                if *variant {
                    z.serialize_newtype_variant("E", 2, IDS[*id], &**x)
                } else {
                    z.serialize_newtype_struct(IDS[*id], &**x)
                }
            }
            S::List(kind, id, hint, l, e) => match kind {
                0 => {
                    let mut q = z.serialize_seq(*hint)?;
                    for (x, c) in l {
                        step(*c, || q.serialize_element(x))?;
                    }
                    ending(*e)?;
                    q.end()
                }
                1 => {
                    let mut q = z.serialize_tuple(hint.unwrap())?;
                    for (x, c) in l {
                        step(*c, || q.serialize_element(x))?;
                    }
                    ending(*e)?;
                    q.end()
                }
                2 => {
                    let mut q = z.serialize_tuple_struct(IDS[*id], hint.unwrap())?;
                    for (x, c) in l {
                        step(*c, || q.serialize_field(x))?;
                    }
                    ending(*e)?;
                    q.end()
                }
                _ => {
                    let mut q = z.serialize_tuple_variant("E", 3, IDS[*id], hint.unwrap())?;
                    for (x, c) in l {
                        step(*c, || q.serialize_field(x))?;
                    }
                    ending(*e)?;
                    q.end()
                }
            },
            S::Map(hint, l, e) => {
                let mut q = z.serialize_map(*hint)?;
                for (x, c) in l {
                    step(*c, || match x {
                        Call::Key(k) => q.serialize_key(k),
                        Call::Value(v) => q.serialize_value(v),
                        Call::Entry(k, v) => q.serialize_entry(k, v),
                    })?;
                }
                ending(*e)?;
                q.end()
            }
            S::Struct(variant, id, hint, l, e) => {
                if *variant {
                    let mut q = z.serialize_struct_variant("E", 4, IDS[*id], *hint)?;
                    for (x, c) in l {
                        match x {
                            Field::Put(n, x) => step(*c, || q.serialize_field(FIELDS[*n], x))?,
                            Field::Skip(n) => {
                                count("fault.skipped-field");
                                step(*c, || q.skip_field(FIELDS[*n]))?
                            }
                        }
                    }
                    ending(*e)?;
                    q.end()
                } else {
                    let mut q = z.serialize_struct(IDS[*id], *hint)?;
                    for (x, c) in l {
                        match x {
                            Field::Put(n, x) => step(*c, || q.serialize_field(FIELDS[*n], x))?,
                            Field::Skip(n) => {
                                count("fault.skipped-field");
                                step(*c, || q.skip_field(FIELDS[*n]))?
                            }
                        }
                    }
                    ending(*e)?;
                    q.end()
                }
            }
        }
    }
}

// ------------------------------------------------------------------ the run

fn judge(s: &S, who: usize) {
    let want = eval(s, true);
    let loose = eval(s, false);
    let got = guard(|| if who % 2 == 0 { Kserd::enc(s) } else { s.serialize(Encoder) });
    match &got {
        Ok(Ok(k)) => {
            result(&M::of(k).digest());
            count("op.encoded");
        }
        Ok(Err(e)) => {
            result(&e.to_string());
            count("op.refused");
        }
        Err(p) => {
            result(p);
            count("op.panicked");
        }
    }
    if want.is_err() || simrt::shared().nontrivial != 0 {
        nontrivial();
    }
    let fail = |class: &str, msg: String| violation(class, &format!("encoder {who}: {msg}; script {}", cut(&format!("{s:?}"), 700)));
    match (got, want) {
        (Ok(Ok(k)), Ok(w)) => {
            let g = canon(&M::of(&k));
            if g != w {
                if Ok(&g) == loose.as_ref().map_err(|_| ()) {
                    // every difference is explained by keys that are the same but for their identity
                    return fail("keys-differ-only-by-identity", format!("encoded {g:?}, the calls that succeeded were {w:?}"));
                }
                fail("entries-differ", format!("encoded {g:?}, the calls that succeeded were {w:?}"))
            }
        }
        (Ok(Ok(k)), Err(f)) => fail("failure-swallowed", format!("encoded {:?} although the script ends in {f:?}", M::of(&k))),
        (Ok(Err(e)), Ok(w)) => fail("refused", format!("failed with {e} where {w:?} was expected")),
        (Ok(Err(e)), Err(Fail::Boom(n))) => {
            if e != EncErr::custom(boom_text(n)) || !e.to_string().contains(&boom_text(n)) {
                fail("other-failure", format!("failed with {e}, injected was failure {n}"))
            }
        }
        (Ok(Err(e)), Err(Fail::Refused | Fail::BadId)) => {
            if e.to_string().contains("injected") {
                fail("other-failure", format!("failed with {e}"))
            }
            count("probe.refused-by-encoder");
        }
        (Ok(Err(e)), Err(f)) => fail("other-failure", format!("failed with {e}, expected {f:?}")),
        (Err(p), Err(Fail::Panic(n))) => {
            let t = format!("injected panic {n}");
            if !(p == t || p.starts_with(&format!("{t} "))) {
                fail("other-panic", format!("panicked with {p}, injected was {n}"))
            }
        }
        (Err(p), w) => fail(&panic_class(&p), format!("panicked with {p}, expected {w:?}")),
    }
}

fn run() {
    sizes_up_to(1 << 16);
    let g = Gen { maps: false, ..Gen::swarm(3, 4) };
    let quiet = fl(8) == 0;
    let r = |l: &[u64]| if quiet { 0 } else { l[fl(l.len() as u64) as usize] };
    let mut g = G {
        boom: r(&[2, 6, 20]),
        panic: r(&[0, 1, 4]),
        carry: r(&[0, 8, 14]),
        badid: r(&[0, 0, 1]),
        hints: r(&[0, 1]) == 1,
        idkeys: chance(1, 12),
        next: 0,
        budget: 14,
        g,
    };
    let n = 1 + w(3);
    let scripts: Vec<S> = (0..n)
        .map(|_| {
            g.budget = 14;
            let mut s = g.gen(4);
            if chance(1, 24) {
                // deep inside options, newtypes and one item lists
                for _ in 0..4 + w(90) {
                    s = match w(3) {
                        0 => S::Some(Box::new(s)),
                        1 => S::New(w(VALID) as _, chance(1, 2), Box::new(s)),
                        _ => S::List(0, 0, None, vec![(s, Carry::Return)], End::End),
                    };
                }
            }
            s
        })
        .collect();
    if !quiet && scripts.iter().any(|s| eval(s, true).is_err() || format!("{s:?}").contains("Boom")) {
        nontrivial();
    }
    for (i, s) in scripts.iter().enumerate() {
        ev!("encoder {i}: {}", cut(&format!("{s:?}"), 1200));
    }
    let cfg = sched_cfg(60_000_000);
    let tasks: Vec<Box<dyn FnOnce() + Send + '_>> = scripts.iter().enumerate().map(|(i, s)| Box::new(move || judge(s, i)) as Box<dyn FnOnce() + Send + '_>).collect();
    simrt::run_tasks(cfg, tasks);
}
