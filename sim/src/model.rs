//! Plain value trees: what the documents of a run are, independent of kserd's types.
use kserd::ds::*;
use kserd::{Kserd, Kstr, Value};
use simrt::{draw, F, W};
use std::collections::BTreeMap;

#[derive(Clone, PartialEq)]
pub struct M {
    pub id: Option<String>,
    pub v: V,
}
#[derive(Clone)]
pub enum V {
    Unit,
    Bool(bool),
    U(u128),
    I(i128),
    F(f64),
    Str(String),
    Barr(Vec<u8>),
    Tuple(Vec<M>),
    /// sorted by name, names unique
    Cntr(Vec<(String, M)>),
    Seq(Vec<M>),
    /// in the order the real map iterates
    Map(Vec<(M, M)>),
}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        use V::*;
        match (self, o) {
            (Unit, Unit) => true,
            (Bool(a), Bool(b)) => a == b,
            (U(a), U(b)) => a == b,
            (I(a), I(b)) => a == b,
            (F(a), F(b)) => a.to_bits() == b.to_bits(),
            (Str(a), Str(b)) => a == b,
            (Barr(a), Barr(b)) => a == b,
            (Tuple(a), Tuple(b)) | (Seq(a), Seq(b)) => a == b,
            (Cntr(a), Cntr(b)) => a == b,
            (Map(a), Map(b)) => a == b,
            _ => false,
        }
    }
}
impl std::fmt::Debug for M {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if let Some(i) = &self.id {
            write!(f, "<{i:?}>")?;
        }
        match &self.v {
            V::Unit => write!(f, "()"),
            V::Bool(b) => write!(f, "{b}"),
            V::U(x) => write!(f, "{x}u"),
            V::I(x) => write!(f, "{x}i"),
            V::F(x) => write!(f, "{x:?}f#{:x}", x.to_bits()),
            V::Str(s) => write!(f, "{s:?}"),
            V::Barr(b) => write!(f, "b{b:?}"),
            V::Tuple(l) => {
                write!(f, "(")?;
                for x in l {
                    write!(f, "{x:?},")?;
                }
                write!(f, ")")
            }
            V::Seq(l) => {
                write!(f, "[")?;
                for x in l {
                    write!(f, "{x:?},")?;
                }
                write!(f, "]")
            }
            V::Cntr(l) => {
                write!(f, "cntr(")?;
                for (n, x) in l {
                    write!(f, "{n:?}={x:?},")?;
                }
                write!(f, ")")
            }
            V::Map(l) => {
                write!(f, "{{")?;
                for (k, x) in l {
                    write!(f, "{k:?}:{x:?},")?;
                }
                write!(f, "}}")
            }
        }
    }
}

pub fn m(v: V) -> M {
    M { id: None, v }
}

pub fn w(n: u64) -> u64 {
    draw(W, n)
}
pub fn fl(n: u64) -> u64 {
    draw(F, n)
}
/// true with probability k/n; false is the simple choice
pub fn chance(k: u64, n: u64) -> bool {
    draw(W, n) >= n - k
}
pub fn fchance(k: u64, n: u64) -> bool {
    draw(F, n) >= n - k
}
pub fn pick<T: Clone>(l: &[T]) -> T {
    l[w(l.len() as u64) as usize].clone()
}
pub fn wide() -> u64 {
    w(1 << 32) << 32 | w(1 << 32)
}

// ------------------------------------------------------------------ conversions

impl M {
    pub fn own(&self) -> Kserd<'static> {
        Kserd {
            id: self.id.clone().map(Kstr::owned),
            val: self.v.own(),
        }
    }
    pub fn brw(&self) -> Kserd<'_> {
        Kserd {
            id: self.id.as_deref().map(Kstr::brwed),
            val: self.v.brw(),
        }
    }
    pub fn of(k: &Kserd) -> M {
        M {
            id: k.id.as_ref().map(|x| x.as_str().to_string()),
            v: V::of(&k.val),
        }
    }
    pub fn kids(&self) -> Vec<&M> {
        match &self.v {
            V::Tuple(l) | V::Seq(l) => l.iter().collect(),
            V::Cntr(l) => l.iter().map(|x| &x.1).collect(),
            V::Map(l) => l.iter().flat_map(|(k, v)| [k, v]).collect(),
            _ => vec![],
        }
    }
    pub fn size(&self) -> usize {
        1 + self.kids().iter().map(|x| x.size()).sum::<usize>()
    }
    pub fn depth(&self) -> usize {
        1 + self.kids().iter().map(|x| x.depth()).max().unwrap_or(0)
    }
    pub fn digest(&self) -> String {
        format!("{self:?}")
    }
    pub fn strip_ids(&self) -> M {
        let s = |l: &Vec<M>| l.iter().map(|x| x.strip_ids()).collect();
        m(match &self.v {
            V::Tuple(l) => V::Tuple(s(l)),
            V::Seq(l) => V::Seq(s(l)),
            V::Cntr(l) => V::Cntr(l.iter().map(|(n, x)| (n.clone(), x.strip_ids())).collect()),
            V::Map(l) => V::Map(l.iter().map(|(k, x)| (k.strip_ids(), x.strip_ids())).collect()),
            o => o.clone(),
        })
    }
    /// What of a value its text can hold: no identities, one form per number,
    /// empty tuples and containers as units, map entries in one order.
    pub fn norm(&self) -> M {
        let l = |l: &Vec<M>| -> Vec<M> { l.iter().map(|x| x.norm()).collect() };
        m(match &self.v {
            V::Tuple(x) if x.is_empty() => V::Unit,
            V::Cntr(x) if x.is_empty() => V::Unit,
            V::I(x) if *x >= 0 => V::U(*x as u128),
            V::F(x) if x.is_nan() => V::F(f64::NAN),
            V::F(x) if x.is_finite() && x.fract() == 0.0 && x.abs() < 1e15 => {
                if *x < 0.0 {
                    V::I(*x as i128)
                } else {
                    V::U(*x as u128)
                }
            }
            V::Tuple(x) => V::Tuple(l(x)),
            V::Seq(x) => V::Seq(l(x)),
            V::Cntr(x) => V::Cntr(x.iter().map(|(n, x)| (n.clone(), x.norm())).collect()),
            V::Map(x) => {
                let mut x: Vec<(M, M)> = x.iter().map(|(k, v)| (k.norm(), v.norm())).collect();
                x.sort_by_cached_key(|e| e.0.digest());
                V::Map(x)
            }
            o => o.clone(),
        })
    }
}
impl V {
    pub fn own(&self) -> Value<'static> {
        match self {
            V::Unit => Value::Unit,
            V::Bool(b) => Value::Bool(*b),
            V::U(x) => Value::Num(Number::Uint(*x)),
            V::I(x) => Value::Num(Number::Int(*x)),
            V::F(x) => Value::Num(Number::Float(*x)),
            V::Str(s) => Value::Str(Kstr::owned(roomy(s))),
            V::Barr(b) => Value::Barr(Barr::owned(roomy_bytes(b))),
            V::Tuple(l) => Value::Tuple(l.iter().map(|x| x.own()).collect()),
            V::Seq(l) => Value::Seq(l.iter().map(|x| x.own()).collect()),
            V::Cntr(l) => Value::Cntr(l.iter().map(|(n, x)| (Kstr::owned(n.clone()), x.own())).collect()),
            V::Map(l) => Value::Map(l.iter().map(|(k, x)| (k.own(), x.own())).collect()),
        }
    }
    pub fn brw(&self) -> Value<'_> {
        match self {
            V::Str(s) => Value::Str(Kstr::brwed(s)),
            V::Barr(b) => Value::Barr(Barr::brwed(b)),
            V::Tuple(l) => Value::Tuple(l.iter().map(|x| x.brw()).collect()),
            V::Seq(l) => Value::Seq(l.iter().map(|x| x.brw()).collect()),
            V::Cntr(l) => Value::Cntr(l.iter().map(|(n, x)| (Kstr::brwed(n), x.brw())).collect::<BTreeMap<_, _>>()),
            V::Map(l) => Value::Map(l.iter().map(|(k, x)| (k.brw(), x.brw())).collect()),
            o => o.own(),
        }
    }
    pub fn of(v: &Value) -> V {
        match v {
            Value::Unit => V::Unit,
            Value::Bool(b) => V::Bool(*b),
            Value::Num(Number::Uint(x)) => V::U(*x),
            Value::Num(Number::Int(x)) => V::I(*x),
            Value::Num(Number::Float(x)) => V::F(*x),
            Value::Str(s) => V::Str(s.as_str().to_string()),
            Value::Barr(b) => V::Barr(b.as_bytes().to_vec()),
            Value::Tuple(l) => V::Tuple(l.iter().map(M::of).collect()),
            Value::Seq(l) => V::Seq(l.iter().map(M::of).collect()),
            Value::Cntr(l) => V::Cntr(l.iter().map(|(n, x)| (n.as_str().to_string(), M::of(x))).collect()),
            Value::Map(l) => V::Map(l.iter().map(|(k, x)| (M::of(k), M::of(x))).collect()),
        }
    }
}

/// A copy, for some lengths with room to spare.
pub fn roomy(s: &str) -> String {
    let mut x = String::with_capacity(if s.len() % 3 == 1 { s.len() * 3 + 10 } else { s.len() });
    x.push_str(s);
    x
}
pub fn roomy_bytes(s: &[u8]) -> Vec<u8> {
    let mut x = Vec::with_capacity(if s.len() % 3 == 1 { s.len() * 3 + 10 } else { s.len() });
    x.extend_from_slice(s);
    x
}

// ------------------------------------------------------------------ generator

#[derive(Clone, Debug)]
pub struct Gen {
    pub depth: u32,
    pub width: u64,
    /// chance (of 8) of an identity
    pub ids: u64,
    /// chance (of 8) of odd strings
    pub odd_str: u64,
    /// chance (of 8) of extreme numbers
    pub odd_num: u64,
    /// chance (of 8) of collections, per level
    pub nest: u64,
    pub barr: bool,
    pub maps: bool,
    /// chance (of 8) that a map key is a collection
    pub comp_keys: u64,
    /// chance (of 32) of long text, long byte arrays and wide collections
    pub big: u64,
}
impl Gen {
    /// swarm: every run has its own mix
    pub fn swarm(depth: u32, width: u64) -> Gen {
        BULK.with(|b| b.set(4));
        Gen {
            depth: 1 + w(depth as u64) as u32,
            width: 1 + w(width),
            ids: pick(&[0, 0, 2, 5]),
            odd_str: pick(&[0, 1, 4]),
            odd_num: pick(&[0, 1, 4]),
            nest: pick(&[4, 6, 7]),
            barr: chance(1, 2),
            maps: chance(3, 4),
            comp_keys: pick(&[0, 1, 4]),
            big: pick(&[0, 0, 0, 0, 0, 1, 1, 4]),
        }
    }
}

pub const NAMES: &[&str] = &["a", "b", "c", "foo", "Bar", "key_1", "x-y", "_z", "Some", "None", "str", "b91", "Point", "id", "z9", "value"];

pub fn name() -> String {
    if !chance(1, 16) {
        return pick(NAMES).to_string();
    }
    // any other, up to rather long ones
    match w(4) {
        0 => pick(&["A", "t", "true_", "falsey", "inf", "nan1", "e5", "_", "_1", "strange", "b91x", "i32", "Option", "a-", "x_y-z"]).to_string(),
        1 => format!("n{}", w(1000)),
        2 => format!("{}_{}", pick(NAMES), pick(NAMES)),
        _ if chance(1, 6) => pick(&["abcdefgh", "x", "Long_"]).repeat(30 + w(40) as usize),
        _ => "a_long_name-".repeat(1 + w(7) as usize) + pick(NAMES),
    }
}
/// A name that lives as long as the process.
pub fn fixed(n: &str) -> &'static str {
    static MADE: std::sync::Mutex<Vec<&'static str>> = std::sync::Mutex::new(vec![]);
    let _m = simrt::Mask::new();
    let mut made = MADE.lock().unwrap();
    match NAMES.iter().chain(made.iter()).find(|x| **x == n) {
        Some(x) => x,
        None => {
            let x: &'static str = Box::leak(n.to_string().into_boxed_str());
            made.push(x);
            x
        }
    }
}
pub fn gen_id(g: &Gen) -> Option<String> {
    if chance(g.ids, 8) {
        Some(name())
    } else {
        None
    }
}
const BITS: &[&str] = &[
    "a", "b", " ", "\"", "'", "#", "`", "=", "\n", "\r\n", "é", "漢", "🦀", "(", ")", "[", "]", "{", "}", "<", ">", ",", ":", "|", "_", "\\", "\t", "/", "\u{0}", "\u{7f}", "\u{2028}", "\u{feff}", "1", "-", ".", "^", "*", "~", "$", "!", "@", "%", "&", ";", "?", "+", "e\u{301}", "\u{301}", "\u{200d}", "\u{85}", "\u{a0}", "\u{b}", "\u{c}", "\r", "ß", "İ", "\u{10ffff}", "str", "b91'", "true",
];
/// Characters that may delimit a text, all of which may have to be avoided.
const DELIMS: &str = "\"'#`|*^!%~&\\/:<>)=_($@?;+-";
/// Sizes around which code likes to change its ways.
thread_local! {
    /// how many more big things the run may have
    static BULK: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
pub fn big(g: &Gen, of: u64) -> bool {
    chance(g.big, of) && BULK.with(|b| b.replace(b.get().saturating_sub(1)) > 0)
}
static SIZES: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// From here on a few sizes are in the thousands or beyond what 16 bits count, up to about `max`.
pub fn sizes_up_to(max: u64) {
    SIZES.store(max, std::sync::atomic::Ordering::Relaxed);
}
/// Now and then, a size that is big for a big one.
fn huge_len() -> Option<usize> {
    let max = SIZES.load(std::sync::atomic::Ordering::Relaxed);
    if max == 0 || !chance(1, 24) {
        return None;
    }
    let mut n = pick(&[1000, 1024, 2048, 4096]);
    if chance(1, 12) {
        n = 1 << 16;
    }
    Some((n.min(max) + w(4) - 1) as usize)
}
/// Like `big_len`, and at most once in a run a size that is big for that.
pub fn any_len() -> usize {
    match huge_len() {
        None => big_len(),
        Some(n) => {
            sizes_up_to(0);
            n
        }
    }
}
pub fn big_len() -> usize {
    let n: u64 = pick(&[12, 16, 24, 32, 64, 100, 128, 256, 256, 512]);
    (n + w(4) - 1) as usize
}
pub fn gen_str(g: &Gen) -> String {
    if big(g, 32) {
        let n = huge_len().unwrap_or_else(|| big_len() * pick(&[1, 1, 1, 2, 8]));
        let bit = pick(&["w", "word ", "é", "漢 ", "a\"b'", "line\n", "🦀"]);
        let mut s = bit.repeat(n / bit.len() + 1);
        if chance(1, 2) {
            // what matters comes late
            while w(3) != 0 {
                s.push_str(pick(BITS));
            }
            if chance(1, 3) {
                s.push_str(pick(&["\"", "\"'", "\"'#", "\"'#`"]));
            }
            s.push_str(pick(&["", "x", "tail"]));
        }
        return s;
    }
    if chance(g.odd_str, 8) {
        if chance(1, 6) {
            // uses up delimiters, from the first on or nearly all of them
            let all: Vec<char> = DELIMS.chars().collect();
            let n = 1 + w(all.len() as u64) as usize;
            let skip = w(all.len() as u64) as usize;
            return all.iter().take(n).enumerate().filter(|(i, _)| *i + 1 != skip).map(|x| x.1).collect();
        }
        let mut s = String::new();
        while w(8) != 0 && s.len() < 60 {
            s.push_str(pick(BITS));
        }
        s
    } else {
        match w(4) {
            0 => pick(&["", "x", "hi", "hello world", "a = 1", "line\nline"]).to_string(),
            1 => "w".repeat(w(40) as usize),
            2 => pick(&["é", "e\u{301}", "ß", "naïve", "日本", "true", "12", "(1)", "[k]", "end"]).to_string(),
            _ => format!("s{}", w(100)),
        }
    }
}
/// Next to a power of two or ten.
pub fn edge() -> u128 {
    let x = if chance(1, 3) { 10u128.pow(w(39) as u32) } else { 1u128 << w(128) };
    match w(3) {
        0 => x,
        1 => x - 1,
        _ => x + 1,
    }
}
pub fn edge_f64() -> f64 {
    let x = match w(4) {
        0 => 2f64.powi(w(1200) as i32 - 600),
        1 => 10f64.powi(w(80) as i32 - 40),
        2 => edge() as f64,
        _ => w(100000) as f64 / pick(&[10.0, 100.0, 1000.0, 1e7, 1e12]),
    };
    let x = match w(4) {
        0 | 1 => x,
        2 => f64::from_bits(x.to_bits() + 1),
        _ => f64::from_bits(x.to_bits().saturating_sub(1)),
    };
    if chance(1, 3) {
        -x
    } else {
        x
    }
}
pub fn gen_num(g: &Gen) -> V {
    if chance(g.odd_num, 8) {
        match w(16) {
            14 => V::I(edge() as i128 & i128::MAX),
            15 => V::F(2f64.powi(pick(&[7, 8, 15, 16, 24, 31, 32, 52, 53, 63, 64, 127, 128])) * pick(&[1.0, -1.0])),
            10 | 11 => V::U(edge()),
            12 => V::I(0i128.wrapping_sub(edge() as i128)),
            13 => V::F(edge_f64()),
            0 => V::U(u128::MAX - w(3) as u128),
            1 => V::I(i128::MIN + w(3) as i128),
            2 => V::I(i128::MAX - w(3) as i128),
            3 => V::U(wide() as u128),
            4 => V::I(-(wide() as i128)),
            5 => V::F(f64::from_bits(wide())),
            6 => V::F(pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -0.0, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e39, 1e300, -1e39])),
            7 => V::U(1u128 << (w(128) as u32)),
            8 => V::F((wide() as f64) * 1.5),
            _ => V::F(w(1000) as f64 + 1e-11),
        }
    } else {
        match w(5) {
            0 => V::U(w(10) as u128),
            4 => V::I(w(100) as i128),
            1 => V::I(-(1 + w(10) as i128)),
            2 => V::F(w(64) as f64 / 8.0),
            _ => V::U(w(100000) as u128),
        }
    }
}
pub fn gen_barr(g: &Gen) -> Vec<u8> {
    let mut b = vec![];
    if big(g, 32) {
        let (a, k) = (w(256), w(256));
        return (0..huge_len().unwrap_or_else(big_len) as u64).map(|i| (a + i * k) as u8).collect();
    }
    while w(6) != 0 && b.len() < 40 {
        b.push(w(256) as u8)
    }
    b
}
pub fn gen_prim(g: &Gen) -> M {
    let id = gen_id(g);
    let v = match w(6) {
        0 => return m(V::Unit),
        1 => V::Bool(chance(1, 2)),
        2 | 3 => gen_num(g),
        4 if g.barr => {
            V::Barr(gen_barr(g))
        }
        _ => V::Str(gen_str(g)),
    };
    M { id, v }
}
/// A number usable as a map key: no NaN, no signed zero, no near-integers.
fn key_num() -> V {
    match w(4) {
        0 => V::U(w(20) as u128),
        1 => V::I(-(1 + w(20) as i128)),
        2 => V::F(w(40) as f64 + 0.5),
        _ => V::U(100 + w(100000) as u128),
    }
}
pub fn gen_key(g: &Gen, d: u32) -> M {
    let id = gen_id(g);
    if d > 0 && chance(g.comp_keys, 8) {
        let n = 1 + w(2);
        let l: Vec<M> = (0..n).map(|_| gen_key(g, d - 1)).collect();
        let v = match w(4) {
            0 => V::Tuple(l),
            1 => V::Seq(l),
            2 => V::Cntr(uniq_fields(l.into_iter().enumerate().map(|(i, x)| (NAMES[i].to_string(), x)).collect())),
            _ => V::Map(uniq_map(l.into_iter().map(|x| (x, m(V::U(1)))).collect())),
        };
        return M { id, v };
    }
    let v = match w(4) {
        0 | 1 => key_num(),
        2 => V::Str(gen_str(g)),
        _ => V::Bool(chance(1, 2)),
    };
    M { id, v }
}
/// Text under which two keys count as the same.
pub fn key_text(k: &M) -> String {
    k.strip_ids().digest()
}
pub fn uniq_fields(l: Vec<(String, M)>) -> Vec<(String, M)> {
    l.into_iter().collect::<BTreeMap<_, _>>().into_iter().collect()
}
/// Drops later duplicates and puts the entries in the real map's order.
pub fn uniq_map(l: Vec<(M, M)>) -> Vec<(M, M)> {
    let mut seen = std::collections::BTreeSet::new();
    let l: Vec<(M, M)> = l.into_iter().filter(|(k, _)| seen.insert(key_text(k))).collect();
    sort_map(l)
}
static PLAIN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// From here on the model's maps stay in the order they were drawn in.
pub fn plain_maps() {
    PLAIN.store(true, std::sync::atomic::Ordering::Relaxed);
}
pub fn sort_map(l: Vec<(M, M)>) -> Vec<(M, M)> {
    if PLAIN.load(std::sync::atomic::Ordering::Relaxed) {
        return l;
    }
    let mut l: Vec<(Kserd, (M, M))> = l.into_iter().map(|(k, v)| (k.own(), (k, v))).collect();
    l.sort_by(|a, b| a.0.cmp(&b.0));
    l.into_iter().map(|x| x.1).collect()
}
pub fn gen(g: &Gen, d: u32) -> M {
    if d == 0 || !chance(g.nest, 8) {
        return gen_prim(g);
    }
    gen_coll(g, d)
}
pub fn gen_coll(g: &Gen, d: u32) -> M {
    let id = gen_id(g);
    if big(g, 32) {
        // many items, few of them or all of them alike
        let mut n = big_len();
        let one = (n > 130 || chance(1, 2)).then(|| gen_prim(&Gen { big: 0, ..g.clone() }));
        if n > 300 {
            n = n.min(300 + w(8) as usize);
        }
        let huge = huge_len();
        if huge.is_some() {
            sizes_up_to(0); // one is enough
        }
        let one = if huge.is_some() { Some(m(V::U(w(10) as u128))) } else { one };
        n = huge.unwrap_or(n);
        let mut l: Vec<M> = (0..n).map(|_| one.clone().unwrap_or_else(|| gen_prim(&Gen { big: 0, ..g.clone() }))).collect();
        let at = w(n as u64) as usize;
        l[at] = gen(&Gen { big: 0, ..g.clone() }, d - 1);
        let v = match w(4) {
            0 => V::Tuple(l),
            3 if g.maps && n < 1100 => V::Map(uniq_map(l.into_iter().enumerate().map(|(i, x)| (m(V::U(i as u128 * 7)), x)).collect())),
            2 if n < 1100 => V::Cntr(uniq_fields(l.into_iter().enumerate().map(|(i, x)| (NAMES.get(i).map_or_else(|| format!("f{i}"), |n| n.to_string()), x)).collect())),
            _ => V::Seq(l),
        };
        return M { id, v };
    }
    let n = w(g.width + 1);
    let sub = |_: u64| gen(g, d - 1);
    let v = match w(4) {
        0 => V::Tuple((0..n).map(sub).collect()),
        1 => V::Seq((0..n).map(sub).collect()),
        3 if g.maps => V::Map(uniq_map((0..n).map(|_| (gen_key(g, d.min(2)), gen(g, d - 1))).collect())),
        _ => V::Cntr(uniq_fields((0..n).map(|_| (name(), gen(g, d - 1))).collect())),
    };
    M { id, v }
}

/// The same shape with other leaves.
pub fn sibling(x: &M, g: &Gen) -> M {
    let n = |s: &str| if chance(1, 4) { format!("{s}{s}") } else { s.to_string() };
    let one = |x: &M| sibling(x, g);
    let v = match &x.v {
        V::Tuple(l) => V::Tuple(l.iter().map(one).collect()),
        V::Seq(l) => V::Seq(l.iter().map(one).collect()),
        V::Cntr(l) => V::Cntr(l.iter().map(|(n, x)| (n.clone(), one(x))).collect()),
        V::Map(l) => V::Map(l.iter().map(|(k, x)| (k.clone(), one(x))).collect()),
        V::Str(s) if chance(1, 2) => V::Str(n(s)),
        _ if chance(1, 2) => match w(4) {
            0 => V::Str("x".repeat(30 + w(20) as usize)),
            1 => V::U(w(1 << 16) as u128),
            _ => gen_prim(g).v,
        },
        o => o.clone(),
    };
    M { id: x.id.clone(), v }
}

/// A tall, thin document.
pub fn gen_tower(g: &Gen, n: u64) -> M {
    let mut x = gen_prim(g);
    // one or two kinds of collection, repeated
    let (a, b) = (w(5), w(5));
    for i in 0..n {
        let id = gen_id(g);
        let side = chance(1, 4);
        let mut l = vec![];
        if side {
            l.push(gen_prim(g));
        }
        let v = match if i % 2 == 0 { a } else { b } {
            0 => {
                l.push(x);
                V::Tuple(l)
            }
            1 => {
                l.push(x);
                V::Seq(l)
            }
            2 => V::Cntr(vec![(name(), x)]),
            3 => V::Map(vec![(m(V::U(i as u128)), x)]),
            _ => V::Map(vec![(x, m(V::U(i as u128)))]),
        };
        x = M { id, v };
    }
    x
}

pub fn gen_cfg() -> kserd::fmt::FormattingConfig {
    kserd::fmt::FormattingConfig {
        id_on_primitives: chance(1, 2),
        id_on_tuples: chance(1, 2),
        id_on_containers: chance(1, 2),
        id_on_seqs: chance(1, 2),
        id_on_maps: chance(1, 2),
        width_limit: match w(6) {
            0 => None,
            1 => Some(0),
            2 => Some(60),
            3 => Some(w(20) as u16),
            4 => Some(w(120) as u16),
            _ => Some(pick(&[1, 10, 30, 1000, u16::MAX])),
        },
    }
}
pub fn show_cfg(c: &kserd::fmt::FormattingConfig) -> String {
    let b = |x: bool| if x { '1' } else { '0' };
    format!("ids {}{}{}{}{} width {:?}", b(c.id_on_primitives), b(c.id_on_tuples), b(c.id_on_containers), b(c.id_on_seqs), b(c.id_on_maps), c.width_limit)
}
pub fn cut(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1
    }
    format!("{}...", &s[..e])
}
/// Runs `f`, turning a panic into its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| simrt::last_panic())
}
