//! C10: copy-on-write handles edited by several threads.
use super::*;
use kserd::ds::*;
use kserd::{Kserd, Kstr, Value};
use simrt::{count, ev, nontrivial, result, violation};

type List<'a> = Vec<Kserd<'a>>;

pub const C10: Prop = Prop {
    id: "C10",
    run,
    quick: 200_000,
    thorough: 3_000_000,
    wall: 30,
    rule: "Each run draws source buffers, shared values over them, and 1 to 3 threads with histories of clone, borrow, convert, read, edit, hand over and drop on up to 5 handles each, and the interleaving; every handle is compared with its own plain tree after every operation. Non-trivial when a borrowed handle was edited or an owned one outlived its source.",
    real: &["kserd values, strings, byte arrays, accessors, conversions (unmodified, from /repo)"],
    stub: &["OS scheduler", "allocator (freed memory poisoned)", "OS randomness", "locks (futex)"],
    assume: &["values up to about 40 nodes", "a value is not edited or dropped while another borrows from it (the compiler forbids it)", "sampling: a clean batch is evidence, not proof"],
};

/// The same tree with map entries in one order.
fn sorted(x: &M) -> M {
    let v = match &x.v {
        V::Tuple(l) => V::Tuple(l.iter().map(sorted).collect()),
        V::Seq(l) => V::Seq(l.iter().map(sorted).collect()),
        V::Cntr(l) => V::Cntr(l.iter().map(|(n, x)| (n.clone(), sorted(x))).collect()),
        V::Map(l) => {
            let mut l: Vec<(M, M)> = l.iter().map(|(k, x)| (sorted(k), sorted(x))).collect();
            l.sort_by_cached_key(|x| x.0.digest());
            V::Map(l)
        }
        o => o.clone(),
    };
    M { id: x.id.clone(), v }
}

struct Handle {
    name: u64,
    k: Box<Kserd<'static>>,
    m: M,
    /// what it may borrow from: source buffers and handles of this thread
    from: Vec<u64>,
    /// borrows from the values all threads share
    shared: bool,
}
struct Source {
    name: u64,
    m: Box<M>,
    copy: M,
}
/// The borrow is kept honest by `from`.
fn forever(k: Kserd<'_>) -> Box<Kserd<'static>> {
    Box::new(unsafe { std::mem::transmute::<Kserd<'_>, Kserd<'static>>(k) })
}

#[derive(Clone, Debug)]
struct Op(u64, u64, u64, u64);

struct World<'w> {
    who: usize,
    next: u64,
    hs: Vec<Handle>,
    src: Vec<Source>,
    base: &'w [(Kserd<'w>, M)],
    g: &'w Gen,
    post: &'w std::sync::Mutex<Vec<Handle>>,
}
type Bad = (&'static str, String);

impl World<'_> {
    fn name(&mut self) -> u64 {
        self.next += 1;
        (self.who as u64 + 1) * 1000 + self.next
    }
    fn lent(&self, name: u64) -> bool {
        self.hs.iter().any(|h| h.from.contains(&name))
    }
    fn check(&self) -> Result<(), Bad> {
        for h in &self.hs {
            same(&h.k, &h.m, h.name)?;
        }
        for s in &self.src {
            if *s.m != s.copy {
                return Err(("source-changed", format!("source {} was {:?} and is {:?}", s.name, s.copy, s.m)));
            }
        }
        Ok(())
    }
    fn go(&mut self, op: &Op, docs: &[M]) -> Result<(), Bad> {
        let Op(kind, a, b, c) = *op;
        let full = self.hs.len() >= 5;
        let i = if self.hs.is_empty() { 0 } else { a as usize % self.hs.len() };
        let none = self.hs.is_empty();
        match kind {
            // a new handle over a new source
            0 if !full => {
                let name = self.name();
                let m = docs[b as usize % docs.len()].clone();
                let s = Source { name, m: Box::new(m.clone()), copy: m.clone() };
                let k = if c % 4 == 3 { Box::new(m.own()) } else { forever(s.m.brw()) };
                let n = self.name();
                self.hs.push(Handle { name: n, k, m, from: vec![name], shared: false });
                self.src.push(s);
                ev!("thread {}: handle {n} over source {name}", self.who);
                count("op.new");
            }
            // from a shared value
            1 if !full => {
                let (k, m) = &self.base[b as usize % self.base.len()];
                let n = self.name();
                let k = match c % 4 {
                    0 => forever(k.clone()),
                    1 => forever(k.mk_brw()),
                    2 => forever(Kserd { id: k.id.clone(), val: k.val.mk_brw() }),
                    _ => Box::new(k.clone().into_owned()),
                };
                self.hs.push(Handle { name: n, k, m: m.clone(), from: vec![], shared: c % 4 != 3 });
                ev!("thread {}: handle {n} from shared value ({})", self.who, c % 4);
                count("op.from-shared");
            }
            2 if !full && !none => {
                let n = self.name();
                let h = &self.hs[i];
                let h = Handle { name: n, k: h.k.clone(), m: h.m.clone(), from: h.from.clone(), shared: h.shared };
                ev!("thread {}: handle {n} cloned from {}", self.who, self.hs[i].name);
                self.hs.push(h);
                count("op.clone");
            }
            3 if !full && !none => {
                let n = self.name();
                let h = &self.hs[i];
                let k = if c % 2 == 0 { forever(h.k.mk_brw()) } else { forever(Kserd { id: h.k.id.clone(), val: h.k.val.mk_brw() }) };
                // the second form shares the identity with what the handle itself borrows from
                let mut from = h.from.clone();
                from.push(h.name);
                let h = Handle { name: n, k, m: h.m.clone(), from, shared: h.shared };
                ev!("thread {}: handle {n} borrowed from {}", self.who, self.hs[i].name);
                self.hs.push(h);
                count("op.borrow");
            }
            4 if !none && !self.lent(self.hs[i].name) => {
                let h = &mut self.hs[i];
                let k = std::mem::replace(&mut *h.k, Kserd::new_unit());
                *h.k = if c % 2 == 0 {
                    k.into_owned()
                } else {
                    Kserd { id: k.id.map(|x| x.into_owned()), val: k.val.into_owned() }
                };
                ev!("thread {}: handle {} made owned", self.who, h.name);
                if !h.from.is_empty() || h.shared {
                    count("probe.borrowed-made-owned");
                }
                h.from.clear();
                h.shared = false;
                count("op.own");
            }
            5 if !none && !self.lent(self.hs[i].name) => {
                let h = self.hs.remove(i);
                ev!("thread {}: handle {} dropped", self.who, h.name);
                count("op.drop");
            }
            // drop sources nobody borrows from
            6 => {
                let used: Vec<u64> = self.hs.iter().flat_map(|h| h.from.clone()).collect();
                let n = self.src.len();
                self.src.retain(|s| used.contains(&s.name));
                if self.src.len() < n {
                    count("fault.source-freed");
                    ev!("thread {}: {} sources freed", self.who, n - self.src.len());
                    nontrivial();
                }
            }
            // hand over to whoever takes it
            7 if !none && !self.lent(self.hs[i].name) && self.hs[i].from.is_empty() => {
                let h = self.hs.remove(i);
                ev!("thread {}: handle {} handed over", self.who, h.name);
                {
                    let mut p = self.post.lock().unwrap();
                    p.push(h);
                }
                count("op.hand-over");
            }
            8 if !full => {
                let h = {
                    let mut p = self.post.lock().unwrap();
                    p.pop()
                };
                if let Some(h) = h {
                    ev!("thread {}: handle {} taken", self.who, h.name);
                    self.hs.push(h);
                    count("op.taken");
                }
            }
            9 if !none => {
                let h = &self.hs[i];
                typed(&h.k, &h.m, h.name)?;
                count("op.typed-read");
            }
            // copy one handle over another
            20 | 21 if self.hs.len() > 1 && !self.lent(self.hs[i].name) => {
                let j = (i + 1 + b as usize % (self.hs.len() - 1)) % self.hs.len();
                let (m, from, shared, other) = (self.hs[j].m.clone(), self.hs[j].from.clone(), self.hs[j].shared, self.hs[j].name);
                if from.contains(&self.hs[i].name) {
                    return Ok(());
                }
                // out of the list for a moment, to have both at hand
                let mut h = self.hs.remove(i);
                let o = self.hs.iter().find(|o| o.name == other).unwrap();
                if c % 2 == 0 {
                    h.k.clone_from(&o.k);
                } else {
                    h.k.id.clone_from(&o.k.id);
                    h.k.val.clone_from(&o.k.val);
                }
                h.m = m;
                for f in from {
                    if !h.from.contains(&f) {
                        h.from.push(f);
                    }
                }
                h.shared |= shared;
                ev!("thread {}: handle {} copied over handle {}", self.who, other, h.name);
                self.hs.insert(i, h);
                count("op.copy-over");
            }
            // edits
            _ if !none && !self.lent(self.hs[i].name) => {
                let h = &mut self.hs[i];
                let mut r = Dice(simrt::fnv(b ^ 0x9e37_79b9_7f4a_7c15, &c.to_le_bytes()));
                if !h.from.is_empty() || h.shared {
                    count("probe.borrowed-edited");
                    nontrivial();
                }
                let what = edit(&mut h.k, &mut h.m, &mut r, self.g, docs)?;
                ev!("thread {}: handle {}: {what}", self.who, h.name);
                count("op.edit");
            }
            _ => {}
        }
        Ok(())
    }
}
fn same(k: &Kserd, m: &M, name: u64) -> Result<(), Bad> {
    let got = M::of(k);
    if sorted(&got) != sorted(m) {
        return Err(("handle-differs", format!("handle {name} reads {got:?}, its own history gives {m:?}")));
    }
    Ok(())
}

/// Choices inside one edit, all from the edit's own numbers.
struct Dice(u64);
impl Dice {
    fn roll(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let x = self.0;
        ((x ^ (x >> 29)) >> 16) % n
    }
}

/// Every typed accessor answers if and only if the item has that type.
fn typed(k: &Kserd, m: &M, name: u64) -> Result<(), Bad> {
    let bad = |what: &str| Err(("accessor", format!("handle {name}: {what} is wrong for {m:?}")));
    let v: &Value = k;
    if k.id() != m.id.as_deref() {
        return bad("id");
    }
    if v.unit() != matches!(m.v, V::Unit) {
        return bad("unit");
    }
    if v.bool() != if let V::Bool(b) = m.v { Some(b) } else { None } {
        return bad("bool");
    }
    if v.str() != if let V::Str(s) = &m.v { Some(s.as_str()) } else { None } {
        return bad("str");
    }
    let ch = match &m.v {
        V::Str(s) if s.chars().count() == 1 => s.chars().next(),
        _ => None,
    };
    if v.ch() != ch {
        return bad("ch");
    }
    if v.barr() != if let V::Barr(s) = &m.v { Some(&s[..]) } else { None } {
        return bad("barr");
    }
    match m.v {
        V::U(x) => {
            if v.uint() != Some(x) || v.int() != i128::try_from(x).ok() || v.float() != Some(x as f64) {
                return bad("number");
            }
        }
        V::I(x) => {
            if v.int() != Some(x) || v.uint() != u128::try_from(x).ok() || v.float() != Some(x as f64) {
                return bad("number");
            }
        }
        V::F(x) => {
            if v.float().map(f64::to_bits) != Some(x.to_bits()) {
                return bad("number");
            }
            if (x.fract().abs() > 1e-6 && x.fract().abs() < 1.0 - 1e-6 || !x.is_finite()) && (v.int().is_some() || v.uint().is_some()) {
                return bad("integer");
            }
            if x.fract() == 0.0 {
                let u = (0.0..340282366920938463463374607431768211456.0).contains(&x).then_some(x as u128);
                let i = (-170141183460469231731687303715884105728.0..170141183460469231731687303715884105728.0).contains(&x).then_some(x as i128);
                if v.uint() != u || v.int() != i {
                    return bad("integer of a float");
                }
            }
        }
        _ => {
            if v.uint().is_some() || v.int().is_some() || v.float().is_some() {
                return bad("number");
            }
        }
    }
    let list = |x: Option<&List>, want: Option<&Vec<M>>| match (x, want) {
        (Some(x), Some(w)) => x.len() == w.len() && x.iter().zip(w).all(|(x, w)| sorted(&M::of(x)) == sorted(w)),
        (None, None) => true,
        _ => false,
    };
    let (t, s) = match &m.v {
        V::Tuple(l) => (Some(l), None),
        V::Seq(l) => (None, Some(l)),
        _ => (None, None),
    };
    if !list(v.tuple(), t) {
        return bad("tuple");
    }
    if !list(v.seq(), s) {
        return bad("seq");
    }
    if !list(v.tuple_or_seq(), t.or(s)) {
        return bad("tuple_or_seq");
    }
    match (v.map(), &m.v) {
        (Some(x), V::Map(l)) => {
            if x.len() != l.len() {
                return bad("map");
            }
            for (a, b) in l {
                let a = a.own();
                if x.get(&a).map(|x| sorted(&M::of(x))) != Some(sorted(b)) {
                    return bad("map lookup");
                }
            }
        }
        (None, V::Map(_)) | (Some(_), _) => return bad("map"),
        _ => {}
    }
    match (v.cntr(), &m.v) {
        (Some(c), V::Cntr(l)) => {
            if c.len() != l.len() {
                return bad("cntr");
            }
            for n in NAMES.iter().copied().chain(["absent", ""]).chain(l.iter().map(|x| x.0.as_str()).filter(|n| !NAMES.contains(n))) {
                let n = &n;
                let f = l.iter().find(|x| x.0 == *n).map(|x| &x.1.v);
                let bad = |what: &str| Err(("accessor", format!("handle {name}: {what}({n:?}) is wrong for {m:?}")));
                if c.get_unit(*n).is_some() != matches!(f, Some(V::Unit)) {
                    return bad("get_unit");
                }
                if c.get_bool(*n) != if let Some(V::Bool(b)) = f { Some(*b) } else { None } {
                    return bad("get_bool");
                }
                if c.get_num(*n).map(|x| V::of(&Value::Num(x))) != f.filter(|x| matches!(x, V::U(_) | V::I(_) | V::F(_))).cloned() {
                    return bad("get_num");
                }
                if c.get_str(*n) != if let Some(V::Str(s)) = f { Some(s.as_str()) } else { None } {
                    return bad("get_str");
                }
                if c.get_barr(*n) != if let Some(V::Barr(s)) = f { Some(&s[..]) } else { None } {
                    return bad("get_barr");
                }
                let t = if let Some(V::Tuple(l)) = f { Some(l) } else { None };
                let s = if let Some(V::Seq(l)) = f { Some(l) } else { None };
                if !list(c.get_tuple(*n), t) {
                    return bad("get_tuple");
                }
                if !list(c.get_seq(*n), s) {
                    return bad("get_seq");
                }
                if !list(c.get_tuple_or_seq(*n), t.or(s)) {
                    return bad("get_tuple_or_seq");
                }
                if c.get_cntr(*n).map(|x| x.len()) != if let Some(V::Cntr(l)) = f { Some(l.len()) } else { None } {
                    return bad("get_cntr");
                }
                if c.get_map(*n).map(|x| x.len()) != if let Some(V::Map(l)) = f { Some(l.len()) } else { None } {
                    return bad("get_map");
                }
            }
        }
        (None, V::Cntr(_)) | (Some(_), _) => return bad("cntr"),
        _ => {}
    }
    let kids: Vec<&Kserd> = match &k.val {
        Value::Tuple(l) | Value::Seq(l) => l.iter().collect(),
        Value::Cntr(l) => l.values().collect(),
        _ => vec![],
    };
    let mk: Vec<&M> = if let V::Map(_) = m.v { vec![] } else { m.kids() };
    for (k, m) in kids.into_iter().zip(mk) {
        typed(k, m, name)?;
    }
    Ok(())
}

fn number(r: &mut Dice) -> (Number, V) {
    match r.roll(3) {
        0 => (Number::Uint(7), V::U(7)),
        1 => (Number::Int(-8), V::I(-8)),
        _ => (Number::Float(2.5), V::F(2.5)),
    }
}
fn edit_text(s: &mut String, t: &mut String, r: &mut Dice) {
    match r.roll(5) {
        0 => {
            s.push_str("+é");
            t.push_str("+é")
        }
        1 => {
            s.clear();
            t.clear()
        }
        2 => {
            s.insert(0, '>');
            t.insert(0, '>')
        }
        3 => {
            s.pop();
            t.pop();
        }
        _ => {
            *s = "new".into();
            *t = "new".into()
        }
    }
}
fn edit_bytes(s: &mut Vec<u8>, t: &mut Vec<u8>, r: &mut Dice) {
    match r.roll(4) {
        0 => {
            s.push(9);
            t.push(9)
        }
        1 => {
            s.clear();
            t.clear()
        }
        2 => {
            for x in s.iter_mut() {
                *x ^= 255
            }
            for x in t.iter_mut() {
                *x ^= 255
            }
        }
        _ => {
            s.pop();
            t.pop();
        }
    }
}
fn edit_list(k: &mut List, m: &mut Vec<M>, r: &mut Dice, docs: &[M]) {
    let n = k.len() as u64;
    let new = docs[r.roll(docs.len() as u64) as usize].clone();
    match r.roll(5) {
        0 if n < 12 => {
            k.push(new.own());
            m.push(new)
        }
        1 if n > 0 => {
            let i = r.roll(n) as usize;
            k.remove(i);
            m.remove(i);
        }
        2 if n > 1 => {
            let (i, j) = (r.roll(n) as usize, r.roll(n) as usize);
            k.swap(i, j);
            m.swap(i, j)
        }
        3 if n > 0 => {
            let i = r.roll(n) as usize;
            k[i] = new.own();
            m[i] = new
        }
        _ => {
            k.reverse();
            m.reverse()
        }
    }
}
/// One edit somewhere in the tree, made on the handle through the accessors and on the model by hand.
fn edit(k: &mut Kserd<'static>, m: &mut M, r: &mut Dice, g: &Gen, docs: &[M]) -> Result<String, Bad> {
    let bad = |what: &str, m: &M| Err(("mutable-accessor", format!("{what} does not answer as it should for {m:?}")));
    // every mutable accessor of another type must decline
    let kind = match m.v {
        V::Unit => 0,
        V::Bool(_) => 1,
        V::U(_) | V::I(_) | V::F(_) => 2,
        V::Str(_) => 3,
        V::Barr(_) => 4,
        V::Tuple(_) => 5,
        V::Seq(_) => 6,
        V::Cntr(_) => 7,
        V::Map(_) => 8,
    };
    if k.bool_mut().is_some() != (kind == 1) {
        return bad("bool_mut", m);
    }
    if k.num_mut().is_some() != (kind == 2) {
        return bad("num_mut", m);
    }
    if kind != 3 && k.str_mut().is_some() {
        return bad("str_mut", m);
    }
    if kind != 4 && k.barr_mut().is_some() {
        return bad("barr_mut", m);
    }
    if k.tuple_mut().is_some() != (kind == 5) {
        return bad("tuple_mut", m);
    }
    if k.seq_mut().is_some() != (kind == 6) {
        return bad("seq_mut", m);
    }
    if k.tuple_or_seq_mut().is_some() != (kind == 5 || kind == 6) {
        return bad("tuple_or_seq_mut", m);
    }
    if k.cntr_mut().is_some() != (kind == 7) {
        return bad("cntr_mut", m);
    }
    if k.map_mut().is_some() != (kind == 8) {
        return bad("map_mut", m);
    }
    // asking changed nothing
    same(k, m, 0)?;
    if r.roll(8) == 0 {
        // the identity
        match (r.roll(3), &mut k.id, &mut m.id) {
            (0, Some(a), Some(b)) => edit_text(a.to_mut(), b, r),
            (1, _, _) => {
                k.id = None;
                m.id = None
            }
            _ => {
                k.id = Some(Kstr::brwed("fresh"));
                m.id = Some("fresh".into())
            }
        }
        return Ok("identity changed".into());
    }
    let deeper = r.roll(3) != 0;
    match &mut m.v {
        V::Unit => {
            let x = docs[r.roll(docs.len() as u64) as usize].clone();
            k.val = x.own().val;
            m.v = x.v;
            Ok("value replaced".into())
        }
        V::Bool(b) => {
            let x = k.bool_mut().unwrap();
            *x = !*x;
            *b = !*b;
            Ok("bool flipped".into())
        }
        V::U(_) | V::I(_) | V::F(_) => {
            let (x, y) = number(r);
            *k.num_mut().unwrap() = x;
            m.v = y;
            Ok("number set".into())
        }
        V::Str(t) => {
            let Some(s) = k.str_mut() else { return bad("str_mut", m) };
            edit_text(s, t, r);
            Ok("text edited".into())
        }
        V::Barr(t) => {
            let Some(s) = k.barr_mut() else { return bad("barr_mut", m) };
            edit_bytes(s, t, r);
            Ok("bytes edited".into())
        }
        V::Tuple(l) | V::Seq(l) => {
            let x = match r.roll(2) {
                0 => k.tuple_or_seq_mut(),
                _ if kind == 5 => k.tuple_mut(),
                _ => k.seq_mut(),
            };
            let x = x.unwrap();
            if x.len() != l.len() {
                return Err(("handle-differs", format!("{} items where {l:?} are expected", x.len())));
            }
            if deeper && !l.is_empty() {
                let i = r.roll(l.len() as u64) as usize;
                return Ok(format!("[{i}] {}", edit(&mut x[i], &mut l[i], r, g, docs)?));
            }
            edit_list(x, l, r, docs);
            Ok("list edited".into())
        }
        V::Cntr(l) => {
            let mut c = k.cntr_mut().unwrap();
            let n = if l.is_empty() || r.roll(4) == 0 { NAMES[r.roll(NAMES.len() as u64) as usize].to_string() } else { l[r.roll(l.len() as u64) as usize].0.clone() };
            let at = l.iter().position(|x| x.0 == n);
            let f = at.map(|i| &mut l[i].1);
            let n = n.as_str();
            let decl = |what: &str| Err(("mutable-accessor", format!("{what}({n:?}) does not answer as it should")));
            if let (true, Some(f)) = (deeper, f) {
                // by type, through the container's accessor
                macro_rules! only {
                    ($f:ident, $p:pat) => {
                        if c.$f(n).is_some() != matches!(f.v, $p) {
                            return decl(stringify!($f));
                        }
                    };
                }
                only!(get_bool_mut, V::Bool(_));
                only!(get_num_mut, V::U(_) | V::I(_) | V::F(_));
                only!(get_tuple_mut, V::Tuple(_));
                only!(get_seq_mut, V::Seq(_));
                only!(get_tuple_or_seq_mut, V::Tuple(_) | V::Seq(_));
                only!(get_cntr_mut, V::Cntr(_));
                only!(get_map_mut, V::Map(_));
                if !matches!(f.v, V::Str(_)) {
                    only!(get_str_mut, V::Str(_));
                }
                if !matches!(f.v, V::Barr(_)) {
                    only!(get_barr_mut, V::Barr(_));
                }
                // asking changed nothing
                match c.get(n) {
                    Some(x) => same(x, f, 0)?,
                    None => return decl("get"),
                }
                match &mut f.v {
                    V::Bool(b) => {
                        *c.get_bool_mut(n).unwrap() ^= true;
                        *b ^= true;
                    }
                    V::U(_) | V::I(_) | V::F(_) => {
                        let (x, y) = number(r);
                        *c.get_num_mut(n).unwrap() = x;
                        f.v = y;
                    }
                    V::Str(t) => match c.get_str_mut(n) {
                        Some(s) => edit_text(s, t, r),
                        None => return decl("get_str_mut"),
                    },
                    V::Barr(t) => match c.get_barr_mut(n) {
                        Some(s) => edit_bytes(s, t, r),
                        None => return decl("get_barr_mut"),
                    },
                    V::Tuple(t) => edit_list(c.get_tuple_mut(n).unwrap(), t, r, docs),
                    V::Seq(t) => edit_list(c.get_seq_mut(n).unwrap(), t, r, docs),
                    _ => match c.get_mut(n) {
                        Some(x) => return Ok(format!(".{n} {}", edit(x, f, r, g, docs)?)),
                        None => return decl("get_mut"),
                    },
                }
                return Ok(format!(".{n} edited"));
            }
            let new = docs[r.roll(docs.len() as u64) as usize].clone();
            match (at, r.roll(3)) {
                (Some(i), 0) => {
                    if c.remove(n).is_none() {
                        return decl("remove");
                    }
                    l.remove(i);
                    Ok(format!(".{n} removed"))
                }
                (Some(i), _) => {
                    c.insert(Kstr::owned(n.to_string()), new.own());
                    l[i].1 = new;
                    Ok(format!(".{n} replaced"))
                }
                (None, _) => {
                    if c.get_bool_mut(n).is_some() || c.get_str_mut(n).is_some() || c.get_tuple_or_seq_mut(n).is_some() || c.get_mut(n).is_some() {
                        return decl("an accessor of an absent field");
                    }
                    c.insert(Kstr::owned(n.to_string()), new.own());
                    l.push((n.to_string(), new));
                    l.sort_by(|a, b| a.0.cmp(&b.0));
                    Ok(format!(".{n} added"))
                }
            }
        }
        V::Map(l) => {
            let x = k.map_mut().unwrap();
            if deeper && !l.is_empty() {
                let i = r.roll(l.len() as u64) as usize;
                let key = l[i].0.own();
                return match x.get_mut(&key) {
                    Some(x) => Ok(format!("{{{i}}} {}", edit(x, &mut l[i].1, r, g, docs)?)),
                    None => Err(("handle-differs", format!("key {:?} is gone", l[i].0))),
                };
            }
            let new = docs[r.roll(docs.len() as u64) as usize].clone();
            let key = m_key(r);
            match l.iter().position(|e| key_text(&e.0) == key_text(&key)) {
                Some(i) => {
                    x.remove(&key.own());
                    l.remove(i);
                    Ok("entry removed".into())
                }
                None => {
                    x.insert(key.own(), new.own());
                    l.push((key, new));
                    Ok("entry added".into())
                }
            }
        }
    }
}
fn m_key(r: &mut Dice) -> M {
    match r.roll(2) {
        0 => m(V::U(r.roll(4) as u128)),
        _ => m(V::Str(["k", "hi", "x"][r.roll(3) as usize].into())),
    }
}

fn run() {
    sizes_up_to(1 << 16);
    let g = Gen::swarm(3, 3);
    let docs: Vec<M> = (0..2 + w(3)).map(|_| gen(&g, g.depth)).collect();
    let nb = 1 + w(2) as usize;
    let threads = 1 + w(3) as usize;
    let scripts: Vec<Vec<Op>> = (0..threads).map(|_| (0..3 + w(14)).map(|_| Op(w(22), w(1 << 16), w(1 << 16), w(1 << 16))).collect()).collect();
    let last: Vec<u64> = (0..threads).map(|_| w(4)).collect();
    // shared values: some own their text, some borrow it
    let text: Vec<Box<M>> = docs.iter().take(nb).cloned().map(Box::new).collect();
    let copy: Vec<M> = text.iter().map(|x| (**x).clone()).collect();
    let cfg = sched_cfg(200_000_000);
    for (i, d) in docs.iter().enumerate() {
        ev!("document {i}: {}", cut(&d.digest(), 400));
    }
    let post = std::sync::Mutex::new(vec![]);
    let rest = std::sync::Mutex::new(vec![]);
    {
        let base: Vec<(Kserd, M)> = text.iter().enumerate().map(|(i, t)| (if i % 2 == 0 { t.brw() } else { t.own() }, (**t).clone())).collect();
        let (base_ref, g, docs, post_ref, rest_ref) = (&base, &g, &docs, &post, &rest);
        let tasks: Vec<Box<dyn FnOnce() + Send + '_>> = scripts
            .iter()
            .enumerate()
            .map(|(who, s)| {
                let last = last[who];
                Box::new(move || {
                    let mut wd = World { who, next: 0, hs: vec![], src: vec![], base: base_ref, g, post: post_ref };
                    for op in s {
                        simrt::yield_point("operation");
                        let r = guard(|| wd.go(op, docs).and_then(|_| wd.check()));
                        let f = match r {
                            Err(p) => Some((panic_class(&p), p)),
                            Ok(Err((c, m))) => Some((c.to_string(), m)),
                            Ok(Ok(())) => None,
                        };
                        if let Some((c, msg)) = f {
                            violation(&c, &format!("thread {who}, {op:?}: {msg}"));
                            std::mem::forget(wd);
                            return;
                        }
                    }
                    // what is owned by now may outlive everything here
                    let keep: Vec<Handle> = if last > 0 {
                        let mut v = vec![];
                        for h in &wd.hs {
                            let n = h.name + 500;
                            v.push(Handle { name: n, k: Box::new(h.k.clone().into_owned()), m: h.m.clone(), from: vec![], shared: false });
                        }
                        v
                    } else {
                        vec![]
                    };
                    // borrowers go before what they borrow from
                    while let Some(h) = wd.hs.pop() {
                        drop(h);
                    }
                    drop(wd);
                    let mut r = rest_ref.lock().unwrap();
                    r.extend(keep);
                }) as Box<dyn FnOnce() + Send + '_>
            })
            .collect();
        simrt::run_tasks(cfg, tasks);
        if simrt::violated() {
            return;
        }
        for (i, (k, m)) in base.iter().enumerate() {
            if M::of(k) != *m {
                return violation("shared-changed", &format!("shared value {i} was {m:?} and is {:?}", M::of(k)));
            }
        }
        for (t, c) in text.iter().zip(&copy) {
            if **t != *c {
                return violation("source-changed", &format!("shared text was {c:?} and is {t:?}"));
            }
        }
        // handed over and never taken, may borrow from the shared values
        for h in post.into_inner().unwrap_or_else(|e| e.into_inner()) {
            if let Err((c, msg)) = same(&h.k, &h.m, h.name) {
                return violation(c, &msg);
            }
        }
    }
    drop(text);
    let rest = rest.into_inner().unwrap_or_else(|e| e.into_inner());
    if !rest.is_empty() {
        count("probe.owned-outlived-everything");
    }
    for h in rest {
        if let Err((c, msg)) = same(&h.k, &h.m, h.name) {
            return violation(if c == "handle-differs" { "owned-did-not-survive" } else { c }, &format!("after everything it was made from is gone: {msg}"));
        }
        result(&h.m.digest());
    }
}
