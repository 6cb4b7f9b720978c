//! C08: one formatter edited by several editors.
use super::*;
use kserd::fmt::{FmtError, Fmt, Formatter, FormattingConfig, Repr};
use simrt::{count, ev, nontrivial, result, violation};

pub const C08: Prop = Prop {
    id: "C08",
    run,
    quick: 180_000,
    thorough: 3_000_000,
    wall: 30,
    rule: "Each run draws a value, 1 to 4 editors with their own request lists (valid, redundant, refused, out of range, configurations, renderings) and the order in which their requests reach the formatter; the whole formatter state is compared with the reference model after every request. Non-trivial when at least one request was accepted and one refused.",
    real: &["kserd formatter, width solver, navigator, writers (unmodified, from /repo)"],
    stub: &["editors", "OS scheduler", "OS randomness (hash seeds)"],
    assume: &["values up to depth 5", "requests reach the formatter one at a time (it is not shared by reference)", "sampling: a clean batch is evidence, not proof"],
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Prim,
    Tuple,
    Cntr,
    Seq,
    Map,
}
struct N {
    kind: Kind,
    empty: bool,
    key: bool,
    parent: Option<usize>,
    end: usize,
}
fn flat(x: &M, parent: Option<usize>, key: bool, out: &mut Vec<N>) {
    let me = out.len();
    let kind = match &x.v {
        V::Tuple(_) => Kind::Tuple,
        V::Cntr(_) => Kind::Cntr,
        V::Seq(_) => Kind::Seq,
        V::Map(_) => Kind::Map,
        _ => Kind::Prim,
    };
    out.push(N { kind, empty: x.kids().is_empty(), key, parent, end: 0 });
    for (i, k) in x.kids().into_iter().enumerate() {
        flat(k, Some(me), kind == Kind::Map && i % 2 == 0, out);
    }
    let end = out.len();
    out[me].end = end;
}

/// 0 inline, 1 concise, 2 verbose
fn rank(r: Repr) -> u8 {
    match r {
        Repr::Inline => 0,
        Repr::Concise => 1,
        Repr::Verbose => 2,
    }
}
fn repr_name(r: u8) -> &'static str {
    ["inline", "concise", "verbose"][r as usize]
}
fn max_of(n: &N) -> u8 {
    match n.kind {
        _ if n.empty => 0,
        Kind::Prim => 0,
        Kind::Tuple => 1,
        _ if n.key => 1,
        _ => 2,
    }
}
struct Model {
    n: Vec<N>,
    s: Vec<(u8, bool)>,
}
impl Model {
    fn new(m: &M) -> Model {
        let mut n = vec![];
        flat(m, None, false, &mut n);
        let mut s: Vec<(u8, bool)> = vec![];
        for (i, x) in n.iter().enumerate() {
            let mut r = max_of(x);
            if i == 0 && matches!(x.kind, Kind::Seq | Kind::Map) {
                r = r.min(1);
            }
            if let Some(p) = x.parent {
                r = r.min(s[p].0);
            }
            s.push((r, true));
        }
        Model { n, s }
    }
    /// Err: the reasons for which the request may be refused.
    fn request(&mut self, i: usize, r: u8) -> Result<(), Vec<FmtError>> {
        if i >= self.n.len() {
            return Err(vec![FmtError::IdxOutOfBounds]);
        }
        if self.s[i].0 == r {
            return Ok(());
        }
        let mut why = vec![];
        if i == 0 && r == 2 && matches!(self.n[i].kind, Kind::Seq | Kind::Map) {
            why.push(FmtError::SeqMapAtRoot);
        }
        let max = max_of(&self.n[i]);
        if r > max {
            why.push(FmtError::RequestTooHigh(repr_name(max), repr_name(r)));
        }
        if let Some(p) = self.n[i].parent {
            if r > self.s[p].0 {
                why.push(if self.s[p].0 == 0 { FmtError::ParentIsInline } else { FmtError::ParentIsConcise });
            }
        }
        if !why.is_empty() {
            return Err(why);
        }
        self.s[i].0 = r;
        for d in i + 1..self.n[i].end {
            self.s[d].0 = self.s[d].0.min(r);
        }
        Ok(())
    }
    fn broken(&self, f: &[Fmt]) -> Option<(&'static str, String)> {
        if f.len() != self.n.len() {
            return Some(("node-count", format!("{} layouts for {} nodes", f.len(), self.n.len())));
        }
        for (i, x) in f.iter().enumerate() {
            let n = &self.n[i];
            let r = rank(x.line);
            if let Some(p) = n.parent {
                if r > rank(f[p].line) {
                    return Some(("above-parent", format!("node {i} is {} under a parent that is {}", repr_name(r), repr_name(rank(f[p].line)))));
                }
            }
            if r > max_of(n) {
                return Some(("above-maximum", format!("node {i} ({:?}, empty {}, key {}) is {}", n.kind, n.empty, n.key, repr_name(r))));
            }
            if i == 0 && r == 2 && matches!(n.kind, Kind::Seq | Kind::Map) {
                return Some(("verbose-root", "the root sequence or map is verbose".into()));
            }
        }
        None
    }
    fn differs(&self, f: &[Fmt]) -> Option<String> {
        for (i, x) in f.iter().enumerate() {
            if (rank(x.line), x.id) != self.s[i] {
                return Some(format!("node {i} is {} id {} where the rules give {} id {}", repr_name(rank(x.line)), x.id, repr_name(self.s[i].0), self.s[i].1));
            }
        }
        None
    }
    fn take(&mut self, f: &[Fmt]) {
        for (i, x) in f.iter().enumerate() {
            self.s[i] = (rank(x.line), x.id);
        }
    }
    fn ids(&mut self, c: &FormattingConfig) {
        for i in 0..self.n.len() {
            self.s[i].1 = match self.n[i].kind {
                Kind::Prim => c.id_on_primitives,
                Kind::Tuple => c.id_on_tuples,
                Kind::Cntr => c.id_on_containers,
                Kind::Seq => c.id_on_seqs,
                Kind::Map => c.id_on_maps,
            };
        }
    }
}

#[derive(Clone, Debug)]
enum Req {
    Line(u8, u64),
    Id(u64, bool),
    Config(FormattingConfig),
    Render,
    Clone,
}
fn gen_req(len: usize) -> Req {
    let node = || {
        // mostly valid; sometimes past the end
        let x = w(20);
        if x == 19 {
            match w(8) {
                // numbers that are valid in fewer bits
                0 => 1 << 8 | w(len.min(256) as u64),
                1 => (1 + w(3)) << 16 | w(len as u64),
                2 => (1 + w(3)) << 32 | w(len as u64),
                3 => u64::MAX - w(3),
                _ => len as u64 + w(3),
            }
        } else {
            w(len as u64)
        }
    };
    match w(12) {
        0 => Req::Render,
        1 | 2 => Req::Id(node(), chance(1, 2)),
        3 => Req::Config(gen_cfg()),
        4..=6 => Req::Line(2, node()),
        7 | 8 => Req::Line(1, node()),
        9 => Req::Line(0, node()),
        10 => Req::Line(w(3) as u8, 0),
        _ => Req::Clone,
    }
}

fn run() {
    sizes_up_to(1 << 16);
    let g = Gen::swarm(5, 4);
    let m = if chance(1, 12) { gen_tower(&g, 4 + w(30)) } else { gen_coll(&g, g.depth) };
    let len = m.size();
    let editors = 1 + w(4);
    let lists: Vec<Vec<Req>> = (0..editors).map(|_| (0..1 + w(10)).map(|_| gen_req(len)).collect()).collect();
    ev!("value of {len} nodes: {}", cut(&m.digest(), 800));
    let (m, lists) = (&m, &lists);
    let cfg = sched_cfg(60_000_000 + (len * len) as u64 * 10_000);
    let (accepted, refused) = (std::sync::atomic::AtomicU64::new(0), std::sync::atomic::AtomicU64::new(0));
    let k = m.own();
    // the formatter and its model; editors take turns
    let state = std::sync::Mutex::new((None::<Formatter>, Model::new(m)));
    let tasks: Vec<Box<dyn FnOnce() + Send + '_>> = lists
        .iter()
        .enumerate()
        .map(|(e, l)| {
            let (state, k, accepted, refused) = (&state, &k, &accepted, &refused);
            Box::new(move || {
                for r in l {
                    simrt::yield_point("request");
                    let mut st = match state.lock() {
                        Ok(s) => s,
                        Err(p) => p.into_inner(),
                    };
                    let (f, model) = &mut *st;
                    let out = guard(|| apply(f, k, model, r, e));
                    match out {
                        Err(p) => {
                            violation(&panic_class(&p), &format!("editor {e}, request {r:?}: {p}; value {m:?}"));
                            return;
                        }
                        Ok(Err((c, msg))) => {
                            violation(c, &format!("editor {e}, request {r:?}: {msg}; value {m:?}"));
                            return;
                        }
                        Ok(Ok(true)) => accepted.fetch_add(1, std::sync::atomic::Ordering::Relaxed),
                        Ok(Ok(false)) => refused.fetch_add(1, std::sync::atomic::Ordering::Relaxed),
                    };
                }
            }) as Box<dyn FnOnce() + Send + '_>
        })
        .collect();
    simrt::run_tasks(cfg, tasks);
    if accepted.into_inner() > 0 && refused.into_inner() > 0 {
        nontrivial();
    }
}

fn apply<'a, 'k>(f: &mut Option<Formatter<'a, 'k>>, k: &'a kserd::Kserd<'k>, model: &mut Model, r: &Req, e: usize) -> Result<bool, (&'static str, String)> {
    if f.is_none() {
        let n = Formatter::new(k);
        if let Some(b) = model.broken(n.fmts()) {
            return Err(b);
        }
        if let Some(d) = model.differs(n.fmts()) {
            return Err(("start-state", d));
        }
        *f = Some(n);
    }
    let f = f.as_mut().unwrap();
    let mut yes = true;
    match r {
        Req::Line(q, i) => {
            let i = *i as usize;
            let got = match q {
                0 => f.inline(i),
                1 => f.concise(i),
                _ => f.verbose(i),
            };
            let want = model.request(i, *q);
            ev!("editor {e}: {} {i} -> {got:?}", repr_name(*q));
            result(&format!("{got:?}"));
            match (&got, &want) {
                (Ok(()), Ok(())) => count("op.layout-accepted"),
                (Err(g), Err(w)) if w.contains(g) => {
                    yes = false;
                    count("op.layout-refused")
                }
                _ => return Err(("wrong-answer", format!("answered {got:?}, the rules say {want:?}"))),
            }
        }
        Req::Id(i, on) => {
            let i = *i as usize;
            let got = f.id(i, *on);
            let want = if i < model.n.len() { Ok(()) } else { Err(FmtError::IdxOutOfBounds) };
            if want.is_ok() {
                model.s[i].1 = *on;
            } else {
                yes = false;
            }
            ev!("editor {e}: id {i} {on} -> {got:?}");
            result(&format!("{got:?}"));
            if got != want {
                return Err(("wrong-answer", format!("answered {got:?}, the rules say {want:?}")));
            }
            count("op.id");
        }
        Req::Config(c) => {
            f.apply_config(*c);
            ev!("editor {e}: configuration {}", show_cfg(c));
            count("op.configuration");
            if let Some(b) = model.broken(f.fmts()) {
                return Err(b);
            }
            model.ids(c);
            match c.width_limit {
                // no limit: everything on one line
                None => {
                    let _ = model.request(0, 0);
                }
                // any other limit: the rules, and the configured identities
                _ => {
                    for (i, x) in f.fmts().iter().enumerate() {
                        if x.id != model.s[i].1 {
                            return Err(("configuration", format!("node {i} writes its id: {}, configured {}", x.id, model.s[i].1)));
                        }
                    }
                    model.take(f.fmts());
                }
            }
        }
        Req::Render => {
            let s = f.write_string(String::new());
            let t = f.write_string("> ".into());
            result(&s);
            count("op.rendering");
            if t.strip_prefix("> ") != Some(s.as_str()) {
                return Err(("rendering-differs", format!("rendered {s:?} and then {t:?}")));
            }
        }
        Req::Clone => {
            // reading through the navigator must not disturb anything
            let n = f.nodes().count();
            if n != model.n.len() {
                return Err(("node-count", format!("{n} nodes, expected {}", model.n.len())));
            }
        }
    }
    if let Some(b) = model.broken(f.fmts()) {
        return Err(b);
    }
    if let Some(d) = model.differs(f.fmts()) {
        return Err(("state-differs", d));
    }
    Ok(yes)
}
