//! C23: a document written line by line, loaded while it grows.
use super::*;
use kserd::fmt::{Formatter, Repr};
use kserd::parse::parse;
use simrt::{count, ev, nontrivial, result, violation, Mask};
use std::sync::Mutex;

pub const C23: Prop = Prop {
    id: "C23",
    run,
    quick: 60_000,
    thorough: 1_500_000,
    wall: 30,
    rule: "Each run draws a container document with a layout that is open at its root, and a plan of appends: how many lines reach the file at once, where the writer crashes, how many unsynced lines it loses, and where a restarted writer goes on. One to three readers load the file meanwhile, sometimes an older length of it, sometimes with blank lines after it. Every load is compared with what the reference reader says the lines written so far hold; the file is loaded once more when the writer is done. Non-trivial when a load saw some, but not all lines.",
    real: &["kserd formatter, navigator, parser (unmodified, from /repo)"],
    stub: &["the growing file", "writers and readers (tasks of the run)", "OS scheduler", "OS randomness (hash seeds)"],
    assume: &["documents up to depth 5 and 400 lines", "lines reach the file whole and in order", "a document is written again from scratch with the same layout after a restart", "sampling: a clean batch is evidence, not proof"],
};

/// A node and how it is laid out.
struct Lay<'a> {
    m: &'a M,
    line: Repr,
    id: bool,
    kids: Vec<Lay<'a>>,
}
fn lay<'a>(m: &'a M, fmts: &[(Repr, bool)], at: &mut usize) -> Lay<'a> {
    let (line, id) = fmts[*at];
    *at += 1;
    Lay { m, line, id, kids: m.kids().into_iter().map(|k| lay(k, fmts, at)).collect() }
}
/// What the text of a value holds: one form per number, empty tuples and containers
/// as units, identities except of units.
fn held(x: &M) -> M {
    let l = |l: &Vec<M>| -> Vec<M> { l.iter().map(held).collect() };
    let v = match &x.v {
        V::Tuple(x) if x.is_empty() => V::Unit,
        V::Cntr(x) if x.is_empty() => V::Unit,
        V::Tuple(x) => V::Tuple(l(x)),
        V::Seq(x) => V::Seq(l(x)),
        V::Cntr(x) => V::Cntr(x.iter().map(|(n, x)| (n.clone(), held(x))).collect()),
        V::Map(x) => {
            let mut x: Vec<(M, M)> = x.iter().map(|(k, v)| (held(k), held(v))).collect();
            x.sort_by_cached_key(|e| e.0.norm().digest());
            V::Map(x)
        }
        o => m(o.clone()).norm().v,
    };
    M { id: if matches!(v, V::Unit) { None } else { x.id.clone() }, v }
}
impl Lay<'_> {
    /// The value with the identities its layout writes.
    fn written(&self, named: bool) -> M {
        let mut k = self.kids.iter().map(|x| x.written(false));
        let mut next = || k.next().unwrap();
        let v = match &self.m.v {
            V::Tuple(l) => V::Tuple(l.iter().map(|_| next()).collect()),
            V::Seq(l) => V::Seq(l.iter().map(|_| next()).collect()),
            V::Cntr(l) => V::Cntr(l.iter().map(|(n, _)| (n.clone(), next())).collect()),
            V::Map(l) => V::Map(l.iter().map(|_| (next(), next())).collect()),
            o => o.clone(),
        };
        let split = named && self.line == Repr::Verbose;
        M { id: if self.id && !split { self.m.id.clone() } else { None }, v }
    }
}

/// Follows a document through the first lines of its text.
struct Follow<'a> {
    t: &'a str,
    at: usize,
    open: bool,
    /// the text is not laid out as told
    lost: bool,
}
fn is_name(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '-' || c == '_'
}
impl<'a> Follow<'a> {
    /// The next line with something on it.
    fn peek(&mut self) -> Option<&'a str> {
        loop {
            let rest = &self.t[self.at..];
            let n = rest.find('\n')?;
            if !rest[..n].trim().is_empty() {
                return Some(rest[..n].trim_start_matches(' '));
            }
            self.at += n + 1;
        }
    }
    fn head(&mut self, want: &str) -> bool {
        match self.peek() {
            Some(l) if l == want => {
                self.at += self.t[self.at..].find('\n').unwrap() + 1;
                true
            }
            Some(_) => {
                self.lost = true;
                false
            }
            None => false,
        }
    }
    /// Where the value at `i` ends: at a line end, or at a colon when it is a key.
    fn value(&self, mut i: usize, key: bool) -> Option<usize> {
        let (mut depth, mut word) = (0, false);
        loop {
            let rest = &self.t[i..];
            let c = rest.chars().next()?;
            let skip = |from: usize, d: char| rest[from..].find(d).map(|n| from + n + d.len_utf8());
            let mut step = c.len_utf8();
            if !word {
                if c == '"' {
                    step = skip(1, '"')?;
                } else if c == '<' {
                    step = skip(1, '>')?;
                } else if rest.starts_with("b91'") {
                    step = skip(4, '\'')?;
                } else if let Some(d) = rest.strip_prefix("str").and_then(|x| x.chars().next()) {
                    if "'#`|*^!%~&\\/:<>)".contains(d) || d >= '\u{a1}' {
                        step = skip(3 + d.len_utf8(), d)?;
                    }
                }
            }
            if step == c.len_utf8() {
                match c {
                    '(' | '[' | '{' => depth += 1,
                    ')' | ']' | '}' => depth -= 1,
                    '\n' if depth == 0 => return Some(i),
                    ':' if depth == 0 && key => return Some(i),
                    _ => {}
                }
                word = is_name(c);
            } else {
                word = false;
            }
            i += step;
        }
    }
    /// A value that goes on from `i`, complete or not.
    fn whole(&mut self, i: usize) -> bool {
        match self.value(i, false) {
            Some(e) => {
                self.at = e + 1;
                true
            }
            None => {
                self.open = true;
                self.at = self.t.len();
                false
            }
        }
    }
    /// The container's part that the lines hold, or None when not even a beginning.
    fn cntr(&mut self, l: &Lay, idline: bool) -> Option<M> {
        let V::Cntr(fields) = &l.m.v else { unreachable!() };
        let mut out = m(V::Unit);
        let mut have = vec![];
        let mut some = false;
        if idline && l.id {
            if let Some(id) = &l.m.id {
                if self.head(&format!(":{id}")) {
                    out.id = Some(id.clone());
                    some = true;
                }
            }
        }
        for ((n, _), k) in fields.iter().zip(&l.kids) {
            if self.lost || self.open {
                break;
            }
            let Some(line) = self.peek() else { break };
            let (x, more) = self.field(n, k, line);
            if let Some(x) = x {
                have.push((n.clone(), x));
                some = true;
            }
            if !more {
                break;
            }
        }
        out.v = V::Cntr(have);
        some.then_some(out)
    }
    fn field(&mut self, n: &str, k: &Lay, line: &str) -> (Option<M>, bool) {
        match (&k.m.v, k.line) {
            (V::Cntr(_), Repr::Verbose) => {
                let id = k.m.id.as_ref().filter(|_| k.id);
                let h = id.map_or(format!("[{n}]"), |id| format!("[{n}:{id}]"));
                if !self.head(&h) {
                    return (None, false);
                }
                let x = self.cntr(k, false).map(|x| M { id: id.cloned(), ..x });
                self.open |= x.is_none();
                let more = x.is_some();
                (x, more)
            }
            (V::Seq(_), Repr::Verbose) => {
                let mut l = vec![];
                for e in &k.kids {
                    if self.open || !self.head(&format!("[[{n}]]")) {
                        break;
                    }
                    match self.entry(e) {
                        Some(x) => l.push(x),
                        None => {
                            self.open = true;
                            break;
                        }
                    }
                }
                let more = l.len() == k.kids.len();
                ((!l.is_empty()).then(|| m(V::Seq(l))), more)
            }
            (V::Map(_), Repr::Verbose) => {
                let mut l = vec![];
                for e in k.kids.chunks(2) {
                    if self.open || !self.head(&format!("[[{n}]]")) {
                        break;
                    }
                    let v = match self.peek().and_then(|_| self.value(self.at, true)) {
                        Some(i) if self.t[i..].starts_with(":\n") => {
                            self.at = i + 2;
                            self.entry(&e[1])
                        }
                        Some(i) if self.t[i..].starts_with(": ") => self.whole(i + 1).then(|| e[1].written(false)),
                        Some(_) => {
                            self.lost = true;
                            break;
                        }
                        None => None,
                    };
                    match v {
                        Some(v) => l.push((e[0].written(false), v)),
                        None => {
                            self.open = true;
                            break;
                        }
                    }
                }
                let more = l.len() * 2 == k.kids.len();
                ((!l.is_empty()).then(|| m(V::Map(l))), more)
            }
            _ => {
                let Some(_) = line.strip_prefix(n).and_then(|x| x.strip_prefix(" = ")) else {
                    self.lost = true;
                    return (None, false);
                };
                let i = self.at + self.t[self.at..].find('=').unwrap() + 1;
                let w = self.whole(i);
                (w.then(|| k.written(true)), w)
            }
        }
    }
    fn entry(&mut self, e: &Lay) -> Option<M> {
        if e.line == Repr::Verbose && matches!(e.m.v, V::Cntr(_)) {
            return self.cntr(e, true);
        }
        self.peek()?;
        let i = self.at;
        self.whole(i).then(|| e.written(false))
    }
}
/// The part of the document in these lines, and whether something is open at their end.
fn part(root: &Lay, t: &str) -> Option<(M, bool)> {
    let mut f = Follow { t, at: 0, open: false, lost: false };
    let x = f.cntr(root, true);
    let open = f.open || x.is_none();
    (!f.lost).then(|| (x.unwrap_or(m(V::Cntr(vec![]))), open))
}

fn gen_root(g: &Gen) -> M {
    let n = 1 + w(g.width + 1);
    M { id: gen_id(g), v: V::Cntr(uniq_fields((0..n).map(|_| (name(), if chance(1, 4) { gen_prim(g) } else { gen_coll(g, g.depth) })).collect())) }
}
/// The text and the layout of every node, in the order of the text.
fn render(m: &M, l: &[(u64, u64)], cfg: Option<kserd::fmt::FormattingConfig>) -> (String, Vec<(Repr, bool)>) {
    let k = m.own();
    let mut f = Formatter::new(&k);
    if let Some(c) = cfg {
        f.apply_config(c);
    }
    for (op, n) in l {
        let i = (*n as usize) % f.len();
        let _ = match op {
            0 => f.inline(i),
            1 => f.concise(i),
            2 => f.verbose(i),
            3 => f.id(i, true),
            _ => f.id(i, false),
        };
    }
    let fm = f.fmts().iter().map(|x| (x.line, x.id)).collect();
    (f.write_string(String::new()), fm)
}

/// Whether a text goes over more than one line.
fn broken_text(x: &M) -> bool {
    matches!(&x.v, V::Str(s) if s.contains(['\n', '\r', '\t'])) || x.kids().into_iter().any(broken_text)
}
/// Every so many indents of four spaces become a tab.
fn convert(l: &str, crlf: bool, tabs: usize) -> String {
    let n = l.len() - l.trim_start_matches(' ').len();
    let mut s = String::new();
    for i in 0..n / 4 {
        s.push_str(if tabs > 0 && i % tabs == 0 { "\t" } else { "    " });
    }
    s.push_str(&l[n / 4 * 4..l.len() - 1]);
    s.push_str(if crlf { "\r\n" } else { "\n" });
    s
}

struct Store {
    /// bytes in the file, all of them whole lines
    len: usize,
    synced: usize,
    done: bool,
}

fn run() {
    sizes_up_to(1 << 16);
    let g = Gen::swarm(4, 5);
    let mo = if chance(1, 16) {
        let t = (name(), gen_tower(&g, 3 + w(12)));
        M { id: gen_id(&g), v: V::Cntr(vec![t]) }
    } else {
        gen_root(&g)
    };
    let cfg = chance(2, 3).then(|| {
        let mut c = gen_cfg();
        if chance(1, 2) {
            c.width_limit = Some(w(30) as u16);
        }
        c
    });
    let mut reqs = vec![];
    while chance(1, 2) && reqs.len() < 8 {
        reqs.push((w(5), w(64)));
    }
    let Ok((t, fm)) = guard(|| render(&mo, &reqs, cfg)) else {
        count("probe.document-not-renderable");
        return;
    };
    if fm[0].0 != Repr::Verbose {
        count("probe.root-not-open");
        return;
    }
    let mut t = t;
    if !t.ends_with('\n') {
        t.push('\n');
    }
    let lines: Vec<usize> = t.bytes().enumerate().filter(|x| x.1 == b'\n').map(|x| x.0 + 1).collect();
    if lines.len() > 8000 {
        count("probe.too-many-lines");
        return;
    }
    let root = lay(&mo, &fm, &mut 0);
    let known = part(&root, &t).is_some();
    if !known {
        count("probe.layout-not-followed");
    }
    let whole = held(&part(&root, &t).map_or_else(|| root.written(true), |x| x.0)).digest();
    ev!("{} lines:\n{t}", lines.len());
    // a medium in text mode: other line ends, other indents
    let plain = !broken_text(&mo);
    let crlf = plain && fchance(1, 8);
    let tabs = if plain && fchance(1, 8) { 1 + fl(3) as usize } else { 0 };
    let stored: Vec<String> = t.split_inclusive('\n').map(|l| convert(l, crlf, tabs)).collect();
    if crlf {
        count("fault.line-ends-converted");
    }
    if tabs > 0 {
        count("fault.indents-converted");
    }
    // crashes: after how many appends, and how many unsynced lines are lost then
    let mut crashes = vec![];
    while fchance(1, 2) && crashes.len() < 4 {
        crashes.push((fl(lines.len() as u64 + 1), fl(6)));
    }
    let (batch, sync) = (1 + w(3), 1 + w(5));
    let mut readers: Vec<Vec<(u64, u64, u64)>> = vec![];
    for _ in 0..1 + w(3) {
        let n = 1 + w(5);
        readers.push((0..n).map(|_| (w(8), if fchance(1, 4) { 1 + fl(20) } else { 0 }, if fchance(1, 6) { 1 + fl(5) } else { 0 })).collect());
    }
    let st = Mutex::new(Store { len: 0, synced: 0, done: false });
    let (mo, t, lines, root, st, reqs, whole, stored) = (&mo, &t, &lines, &root, &st, &reqs, &whole, &stored);
    let load = move |who: &str, n: usize, pad: u64| {
        let text = {
            let _m = Mask::new();
            let mut s = stored[..n].concat();
            for i in 0..pad {
                s.push_str(["\n", "    \n", "\n", "\t\n", " "][i as usize % 5]);
            }
            s
        };
        count("op.load");
        let r = guard(|| parse(&text).map(|k| M::of(&k)).map_err(|e| e.backtrace()));
        let _m = Mask::new();
        if n > 0 && n < lines.len() {
            nontrivial();
            count("probe.load-of-some-lines");
        }
        let r = match r {
            Err(p) => return violation(&panic_class(&p), &format!("{who}: parse panicked: {p}; text {text:?}")),
            Ok(r) => r.map(|k| held(&k).digest()),
        };
        ev!("{who} loads {n} lines: {}", r.as_ref().map_or("refused", |x| x));
        result(r.as_ref().map_or("refused", |x| x));
        if n == lines.len() {
            match r {
                Err(e) => violation("complete-refused", &format!("{who}: all lines of\n{text} are refused: {e}\ndocument {mo:?}")),
                Ok(d) if d != *whole => violation("complete-differs", &format!("{who}: all lines of\n{text} load as\n{d} instead of\n{whole}")),
                _ => {}
            }
            return;
        }
        if !known {
            return;
        }
        let Some((x, open)) = part(root, &t[..lines.get(n.wrapping_sub(1)).map_or(0, |x| *x)]) else {
            simrt::harness_error(&format!("the first {n} lines of\n{t} cannot be followed"))
        };
        let want = held(&x).digest();
        match r {
            Err(_) if open => count("probe.refused-while-open"),
            Err(e) => violation("beginning-refused", &format!("{who}: the first {n} lines of\n{t} are refused: {e}; they hold {want}")),
            Ok(d) if d != want => violation("beginning-differs", &format!("{who}: the first {n} lines of\n{t} load as\n{d} instead of\n{want}")),
            Ok(_) => count(if open { "probe.accepted-while-open" } else { "probe.beginning-accepted" }),
        }
    };
    let load = &load;
    let mut tasks: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
    tasks.push(Box::new(move || {
        let mut crashes = crashes.into_iter();
        loop {
            let mut crash = crashes.next();
            // a writer comes up and goes on where the file ends
            let Ok((text, _)) = guard(|| render(mo, reqs, cfg)) else { return violation("render-panics", &format!("a second rendering of {mo:?} panics")) };
            if text.trim_end_matches('\n') != t.trim_end_matches('\n') {
                return violation("rendered-differently", &format!("after a restart {mo:?} is written as\n{text}instead of\n{t}"));
            }
            let mut steps = 0;
            loop {
                simrt::yield_point("append");
                let _m = Mask::new();
                let mut s = st.lock().unwrap();
                if s.len == lines.len() {
                    s.done = true;
                    return;
                }
                if let Some((_, lose)) = crash.take_if(|c| c.0 == steps) {
                    count("fault.writer-crash");
                    let n = (s.len - s.synced).min(lose as usize);
                    s.len -= n;
                    s.synced = s.synced.min(s.len);
                    if n > 0 {
                        count("fault.unsynced-lines-lost");
                    }
                    ev!("writer crashes; {n} lines lost, {} remain", s.len);
                    break;
                }
                s.len = (s.len + batch as usize).min(lines.len());
                steps += 1;
                if steps % sync == 0 {
                    s.synced = s.len;
                }
            }
        }
    }));
    for (i, l) in readers.into_iter().enumerate() {
        tasks.push(Box::new(move || {
            let who = format!("reader {i}");
            for (wait, stale, pad) in l {
                for _ in 0..wait {
                    simrt::yield_point("read later");
                }
                let n = {
                    let _m = Mask::new();
                    let s = st.lock().unwrap();
                    s.len
                };
                if n == 0 && wait < 7 {
                    continue;
                }
                if stale > 0 && n > 0 {
                    count("fault.stale-read");
                }
                if pad > 0 {
                    count("fault.blank-tail");
                }
                load(&who, n.saturating_sub(stale as usize).max(n.min(1)), pad);
            }
        }));
    }
    let long = (t.len() as u64 / 8).pow(2) * 1000;
    simrt::run_tasks(sched_cfg(60_000_000 + long), tasks);
    if simrt::violated() {
        return;
    }
    let cfg = SchedCfg { max_preempts: 0, gap_bits: 1, burst: 0, end: 16, sticky: false, fresh: 0, statics: false, explicit: 0, step_limit: 60_000_000 + long, stack: 8 << 20 };
    let picks: Vec<usize> = (0..1 + w(6)).map(|_| lines.len() - 1 - w(lines.len() as u64) as usize).collect();
    simrt::run_tasks(
        cfg,
        vec![Box::new(move || {
            let s = { let _m = Mask::new(); let x = st.lock().unwrap(); (x.done, x.len) };
            if s != (true, lines.len()) {
                simrt::harness_error(&format!("the writer stopped after {} lines", s.1));
            }
            // the beginnings that no reader happened to meet
            for n in picks {
                load("after the fact", n, 0);
            }
            load("at the end", lines.len(), 0);
        })],
    );
}
