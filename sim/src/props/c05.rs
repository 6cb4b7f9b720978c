//! C05, C06, C07: loading what a faulty medium gives back.
use super::disk::*;
use super::*;
use kserd::fmt::Formatter;
use kserd::nav::Navigator;
use kserd::parse::parse;
use kserd::Kserd;
use simrt::{count, ev, nontrivial, result, violation};

const REAL: &[&str] = &["kserd parser, diagnostics, formatter, navigator, encoder/decoder (unmodified, from /repo)", "nom, base91, fast-float, std"];
const STUB: &[&str] = &["file and block device", "OS scheduler", "OS randomness", "locks (futex)", "clock"];
const ASSUME: &[&str] = &["bounded documents (depth <= 6, up to a few kB)", "8 MiB stacks", "sampling: a clean batch is evidence, not proof"];

pub const C05: Prop = Prop {
    id: "C05",
    run: run05,
    quick: 110_000,
    thorough: 3_000_000,
    wall: 30,
    rule: "Each run draws documents, layouts, block size, storage faults and an interleaving of up to 2 writers and a reader; non-trivial when at least one fault fired or a read overlapped a write, and the text read back differs from every complete document.",
    real: REAL,
    stub: STUB,
    assume: ASSUME,
};
pub const C06: Prop = Prop {
    id: "C06",
    run: run06,
    quick: 200_000,
    thorough: 3_000_000,
    wall: 30,
    rule: "Each run draws a document in a bracketed layout, stores it, and crashes the write at drawn byte positions past the opening bracket; non-trivial when the stored prefix is proper and was loaded.",
    real: REAL,
    stub: STUB,
    assume: ASSUME,
};
pub const C07: Prop = Prop {
    id: "C07",
    run: run07,
    quick: 80_000,
    thorough: 3_000_000,
    wall: 30,
    rule: "As C05; non-trivial when a load failed and its diagnostics were compared with the text that was read.",
    real: REAL,
    stub: STUB,
    assume: ASSUME,
};

pub const STEP_LIMIT: u64 = 60_000_000;

/// A document as the library would write it, in a drawn layout.
pub fn render(m: &M, layout: &Layout) -> Option<String> {
    guard(|| {
        let k = m.own();
        match layout {
            Layout::Cfg(c) => k.as_str_with_config(*c),
            Layout::Max => Formatter::new(&k).write_string(String::new()),
            Layout::Session(c, reqs) => {
                let mut f = Formatter::new(&k);
                if let Some(c) = c {
                    f.apply_config(*c);
                }
                for (op, n) in reqs {
                    let i = (*n as usize) % f.len();
                    let _ = match op {
                        0 => f.inline(i),
                        1 => f.concise(i),
                        2 => f.verbose(i),
                        3 => f.id(i, true),
                        _ => f.id(i, false),
                    };
                }
                f.write_string(String::new())
            }
        }
    })
    .ok()
}
#[derive(Clone, Debug)]
pub enum Layout {
    Cfg(kserd::fmt::FormattingConfig),
    Max,
    Session(Option<kserd::fmt::FormattingConfig>, Vec<(u64, u64)>),
}
pub fn gen_layout() -> Layout {
    match w(4) {
        0 | 1 => Layout::Cfg(gen_cfg()),
        2 => Layout::Max,
        _ => {
            let c = if chance(1, 2) { Some(gen_cfg()) } else { None };
            let mut v = vec![];
            while w(6) != 0 && v.len() < 20 {
                v.push((w(5), w(64)));
            }
            Layout::Session(c, v)
        }
    }
}

struct Scene {
    texts: Vec<String>,
    plans: Vec<Vec<(usize, Fault)>>,
    block: usize,
    old: Vec<u8>,
    reads: u64,
    crlf: bool,
}
fn scene() -> Option<Scene> {
    let g = Gen::swarm(6, 5);
    let n = 1 + w(2);
    let crlf = chance(1, 8);
    let tower = chance(1, 12);
    let mut texts = vec![];
    for _ in 0..n + 1 {
        let m = if tower { gen_tower(&g, 8 + w(80)) } else { gen(&g, g.depth) };
        let l = gen_layout();
        let Some(mut t) = render(&m, &l) else {
            count("probe.document-not-renderable");
            return None;
        };
        if crlf {
            t = t.replace("\r\n", "\n").replace('\n', "\r\n");
        }
        texts.push(t);
    }
    let old = if chance(1, 2) { texts.pop().unwrap().into_bytes() } else { vec![] };
    if texts.len() > n as usize {
        texts.pop();
    }
    // swarm: which fault kinds this run uses
    let mut kinds: Vec<u64> = vec![];
    for k in 0..11 {
        if fl(3) == 0 {
            kinds.push(k);
        }
    }
    if kinds.is_empty() {
        kinds.push(fl(11));
    }
    let plans = texts.iter().map(|_| gen_plan(6, &kinds)).collect();
    Some(Scene { texts, plans, block: pick(&[8, 1, 2, 3, 4, 16, 32, 64, 512]), old, reads: 1 + w(3), crlf })
}

/// Runs the scene and returns every text a reader got.
fn play(s: &Scene, check: &(dyn Fn(&str, u64) + Sync)) {
    let file = File::new(s.block, &s.old);
    ev!("block size {} crlf {} old version {:?}", s.block, s.crlf, cut(&String::from_utf8_lossy(&s.old), 300));
    for (i, t) in s.texts.iter().enumerate() {
        ev!("writer {i} stores {:?}", cut(t, 600));
    }
    let long: u64 = s.texts.iter().map(|t| t.len()).chain([s.old.len()]).map(|n| (n as u64 / 8).pow(2) * 1000).sum();
    let cfg = sched_cfg(STEP_LIMIT + long);
    let mut tasks: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
    for (i, t) in s.texts.iter().enumerate() {
        let file = &file;
        let plan = &s.plans[i];
        tasks.push(Box::new(move || {
            file.write(&format!("writer {i}"), t.as_bytes(), plan);
        }));
    }
    let file2 = &file;
    tasks.push(Box::new(move || {
        for _ in 0..s.reads {
            let b = file2.read();
            load(s, b, check);
        }
    }));
    simrt::run_tasks(cfg, tasks);
    // after the faults stopped: what is on the medium now
    let b = file.all();
    let cfg = SchedCfg { max_preempts: 0, gap_bits: 1, burst: 0, end: 16, sticky: false, fresh: 0, statics: false, explicit: 0, step_limit: STEP_LIMIT + long, stack: 8 << 20 };
    simrt::run_tasks(cfg, vec![Box::new(|| load(s, b.clone(), check))]);
}
fn load(s: &Scene, b: Vec<u8>, check: &(dyn Fn(&str, u64) + Sync)) {
    let _m = simrt::Mask::new();
    if std::str::from_utf8(&b).is_err() {
        count("probe.read-invalid-utf8");
    }
    let t = String::from_utf8_lossy(&b).into_owned();
    if !s.texts.iter().any(|x| *x == t) && t.as_bytes() != s.old {
        nontrivial();
        count("probe.read-differs-from-every-version");
    }
    count("op.load");
    drop(_m);
    let a = simrt::own_steps();
    check(&t, a);
}

/// Nesting of brackets in the text: what a recursive-descent parser may legitimately pay for.
fn nesting(t: &str) -> u64 {
    let (mut d, mut m) = (0i64, 0i64);
    for c in t.bytes() {
        match c {
            b'(' | b'[' | b'{' => {
                d += 1;
                m = m.max(d)
            }
            b')' | b']' | b'}' => d -= 1,
            _ => {}
        }
    }
    m as u64 + t.matches("    ").count().min(8) as u64
}

fn run05() {
    sizes_up_to(1 << 12);
    let Some(s) = scene() else { return };
    play(&s, &|t, _| {
        let a = simrt::own_steps();
        let r = guard(|| parse(t).map_err(|_| ()));
        let used = simrt::own_steps() - a;
        let _m = simrt::Mask::new();
        simrt::ev!("load of {:?}: {} in {used} steps", cut(t, 600), match &r { Ok(Ok(_)) => "a value", Ok(Err(_)) => "an error", Err(_) => "PANIC" });
        let bound = 200_000 + 4_000 * (t.len() as u64 + 8) * (nesting(t) + 2);
        if used > bound {
            violation("too-much-work", &format!("parse of {} bytes took {used} steps (bound {bound}): {t:?}", t.len()));
        }
        match r {
            Err(p) => violation(&panic_class(&p), &format!("parse panicked: {p}; text {t:?}")),
            Ok(Err(())) => {
                result("err");
                count("op.load-refused");
            }
            Ok(Ok(k)) => {
                count("op.load-accepted");
                let d = M::of(&k).digest();
                result(&d);
                drop(_m);
                usable(&k, t);
            }
        }
    });
}

/// A value obtained from a damaged text must be a normal value.
fn usable(k: &Kserd, t: &str) {
    let mut cfg = kserd::fmt::FormattingConfig::default();
    for width in [None, Some(0), Some(60)] {
        cfg.width_limit = width;
        if let Err(p) = guard(|| k.as_str_with_config(cfg)) {
            violation(&panic_class(&p), &format!("formatting the loaded value (width {width:?}) panicked: {p}; text {t:?}"));
        }
    }
    let r = guard(|| {
        let n = Navigator::new(k);
        let c = n.nodes().count();
        let o = k.clone().into_owned();
        let b = k.mk_brw();
        let same = o == b && o.cmp(&b) == std::cmp::Ordering::Equal;
        drop(b);
        let _ = format!("{k:?}");
        let dec = o.decode::<serde::de::IgnoredAny>().is_ok();
        (c, same, dec)
    });
    match r {
        Err(p) => violation(&panic_class(&p), &format!("using the loaded value panicked: {p}; text {t:?}")),
        Ok((c, same, _)) => {
            let m = M::of(k);
            if c != m.size() {
                violation("loaded-value-nodes", &format!("navigating the loaded value visits {c} of {} nodes; text {t:?}", m.size()));
            }
            let _ = same;
        }
    }
}

fn run07() {
    sizes_up_to(1 << 12);
    let Some(s) = scene() else { return };
    play(&s, &|t, _| {
        let r = guard(|| {
            let Err(e) = parse(t) else { return None };
            let n = e.len();
            let by_idx: Vec<_> = (0..n).map(|i| e.get(i)).collect();
            let past = e.get(n).is_some();
            let it: Vec<_> = e.iter().collect();
            let bt = e.backtrace();
            let dbg = format!("{e:?}");
            Some((n, e.is_empty(), by_idx, past, it, bt, dbg))
        });
        let _m = simrt::Mask::new();
        match r {
            Err(p) => violation(&panic_class(&p), &format!("parse or its diagnostics panicked: {p}; text {t:?}")),
            Ok(None) => {
                count("op.load-accepted");
                simrt::ev!("load of {:?}: accepted", cut(t, 600));
                result("ok");
            }
            Ok(Some((n, empty, by_idx, past, it, bt, dbg))) => {
                count("op.load-refused");
                nontrivial();
                result(&bt);
                simrt::ev!("load of {:?}: refused with {n} traces, first {:?}", cut(t, 600), by_idx.first());
                let bad = |c: &str, m: String| violation(c, &format!("{m}; text {t:?}; report {bt:?}"));
                if n == 0 || empty {
                    return bad("no-trace", "a refused text gave no trace".into());
                }
                if past {
                    return bad("trace-past-end", format!("trace {n} exists although len() is {n}"));
                }
                if by_idx.iter().any(|x| x.is_none()) || it.len() != n || it.iter().zip(&by_idx).any(|(a, b)| Some(a) != b.as_ref()) {
                    return bad("index-vs-iteration", format!("traces by index {by_idx:?}, by iteration {it:?}"));
                }
                // line table of the text, independent of the library
                let mut lines: Vec<(usize, &str)> = vec![];
                let mut at = 0;
                for l in t.split_inclusive('\n') {
                    let x = l.strip_suffix('\n').map(|x| x.strip_suffix('\r').unwrap_or(x)).unwrap_or(l);
                    lines.push((at, x));
                    at += l.len();
                }
                let mut report = String::new();
                for (i, tr) in it.iter().enumerate() {
                    if t.is_empty() {
                        if tr.line != 0 || tr.col != 0 || !tr.linestr.is_empty() {
                            return bad("empty-input-position", format!("trace {i} of an empty text is at {}:{}", tr.line, tr.col));
                        }
                    } else {
                        if tr.line == 0 || tr.line > lines.len() {
                            return bad("line-outside-text", format!("trace {i} names line {} of {}", tr.line, lines.len()));
                        }
                        let (lo, l) = lines[tr.line - 1];
                        if l != tr.linestr {
                            return bad("quoted-line", format!("trace {i} quotes {:?} as line {} which is {l:?}", tr.linestr, tr.line));
                        }
                        // just past its end: after the line terminator at most
                        let term = lines.get(tr.line).map(|x| x.0).unwrap_or(t.len()) - lo;
                        if tr.col == 0 || tr.col > term + 1 {
                            return bad("column-outside-line", format!("trace {i} is at column {} of line {} which has {} bytes", tr.col, tr.line, l.len()));
                        }
                        if !t.is_char_boundary(lo + tr.col - 1) {
                            return bad("column-inside-character", format!("trace {i} column {} is inside a character", tr.col));
                        }
                        // an 'expected x, found y' message names the character at the position
                        if let Some((_, f)) = tr.msg.split_once(", found '") {
                            let found = f.strip_suffix('\'').unwrap_or(f);
                            let real = t[lo + tr.col - 1..].chars().next().map(|c| c.to_string()).unwrap_or_default();
                            if found != real {
                                return bad("found-character", format!("trace {i} says found {found:?} but the text has {real:?} there"));
                            }
                            count("probe.found-character-compared");
                        }
                        if tr.col - 1 >= l.len() {
                            count("probe.position-at-line-end");
                        }
                        if !l.is_ascii() {
                            count("probe.position-on-multibyte-line");
                        }
                    }
                    if tr.msg.is_empty() {
                        return bad("empty-message", format!("trace {i} has no message"));
                    }
                    if i > 0 {
                        report.push_str("\n\n");
                    }
                    report.push_str(&format!("#{i}: {tr}"));
                    let shown = format!("at {}:{} :: {}\n{}\n", tr.line, tr.col, tr.msg, tr.linestr);
                    if !tr.to_string().starts_with(&shown) {
                        return bad("trace-text", format!("trace {i} renders as {:?}", tr.to_string()));
                    }
                }
                if bt != report || dbg != bt {
                    bad("report-vs-traces", format!("the report is not the traces in order: {report:?} debug {dbg:?}"));
                }
            }
        }
    });
}

// ------------------------------------------------------------------ C06

/// Where the root's opening bracket ends, if the text is in a bracketed layout.
pub fn opening(m: &M, t: &str) -> Option<usize> {
    let open = match &m.v {
        V::Tuple(_) | V::Cntr(_) => '(',
        V::Seq(_) => '[',
        V::Map(_) => '{',
        _ => return None,
    };
    let close = match open {
        '(' => ')',
        '[' => ']',
        _ => '}',
    };
    if !t.ends_with(close) {
        return None;
    }
    let rest = match &m.id {
        Some(i) if t.starts_with(i.as_str()) => t[i.len()..].trim_start_matches(' '),
        _ => t,
    };
    if !rest.starts_with(open) {
        return None;
    }
    Some(t.len() - rest.len() + 1)
}
/// A layout whose root is single-line or bracketed multi-line.
fn bracketed(m: &M) -> Layout {
    let _ = m;
    match w(3) {
        0 => {
            let mut c = gen_cfg();
            c.width_limit = None;
            Layout::Cfg(c)
        }
        1 => Layout::Session(Some(gen_cfg()), {
            let mut v = vec![(pick(&[0u64, 1, 1]), 0u64)];
            while w(6) != 0 && v.len() < 20 {
                v.push((pick(&[0u64, 1, 3, 4]), 1 + w(64)));
            }
            v
        }),
        _ => Layout::Session(None, {
            let mut v = vec![(pick(&[1u64, 1, 0]), 0u64)];
            while w(6) != 0 && v.len() < 20 {
                v.push((pick(&[0u64, 1, 3, 4]), 1 + w(64)));
            }
            v
        }),
    }
}

fn run06() {
    sizes_up_to(1 << 16);
    let g = Gen::swarm(5, 5);
    let m = if chance(1, 16) { gen_tower(&g, 4 + w(100)) } else { gen_coll(&g, g.depth) };
    let l = bracketed(&m);
    let Some(t) = render(&m, &l) else {
        count("probe.document-not-renderable");
        return;
    };
    let Some(open) = opening(&m, &t) else {
        count("probe.root-not-bracketed");
        return;
    };
    let block = pick(&[8usize, 1, 4, 64, 512]);
    ev!("document {:?} in {} bytes, opening ends at {open}", cut(&t, 800), t.len());
    let crashes = 1 + w(4);
    let mut points = vec![];
    for _ in 0..crashes {
        // where the write stops: anywhere, or close to the end, or right after a closer or line end
        let span = (t.len() - open) as u64;
        let p = match fl(4) {
            0 => open as u64 + fl(span),
            1 => t.len() as u64 - 1 - fl(span.min(4)),
            2 => {
                let c: Vec<usize> = t.char_indices().filter(|(i, c)| *i >= open && ")]}'\"\n,".contains(*c)).map(|(i, _)| i + 1).filter(|i| *i < t.len()).collect();
                if c.is_empty() {
                    open as u64
                } else {
                    c[fl(c.len() as u64) as usize] as u64
                }
            }
            _ => open as u64 + fl(span.min(12)),
        };
        points.push((p as usize, fl(6), 1 + fl(20)));
    }
    // fault-free: the complete document is accepted
    let complete = fl(4) == 0;
    let cfg = SchedCfg { max_preempts: 0, gap_bits: 1, burst: 0, end: 16, sticky: false, fresh: 0, statics: false, explicit: 0, step_limit: STEP_LIMIT + (t.len() as u64 / 8).pow(2) * 1000, stack: 8 << 20 };
    let (m, t) = (&m, &t);
    simrt::run_tasks(
        cfg,
        vec![Box::new(move || {
            if complete {
                let f = File::new(block, &[]);
                f.write("writer", t.as_bytes(), &[]);
                let s = String::from_utf8(f.read()).unwrap();
                count("op.complete-load");
                match guard(|| parse(&s).map(|k| M::of(&k).norm().digest()).map_err(|e| e.backtrace())) {
                    Err(p) => violation(&panic_class(&p), &format!("parse panicked: {p}; text {s:?}")),
                    Ok(Err(e)) => violation("complete-document-refused", &format!("{s:?} is refused: {e}; document {m:?}")),
                    Ok(Ok(d)) => {
                        result(&d);
                        let want = m.norm().digest();
                        if d != want {
                            violation("complete-document-differs", &format!("{s:?} loads as {d} instead of {want}"));
                        }
                    }
                }
            }
            for (p, pad, n) in points {
                let f = File::new(block, &[]);
                // stop inside the block that holds byte p
                f.write("writer", t.as_bytes(), &[(p / block, Fault::Stop(p % block))]);
                let mut b = f.read();
                if b.len() != p {
                    simrt::harness_error(&format!("stored {} of {p}", b.len()));
                }
                match pad {
                    0..=2 => {}
                    3 => b.extend(vec![b' '; n as usize]),
                    4 => b.extend(vec![b'\n'; n as usize]),
                    _ => {
                        count("fault.zero-padding");
                        b.extend(vec![0u8; n as usize])
                    }
                }
                let s = String::from_utf8_lossy(&b).into_owned();
                nontrivial();
                count("op.truncated-load");
                let r = guard(|| parse(&s).map(|k| M::of(&k).digest()).map_err(|e| e.len()));
                ev!("load of {:?}", cut(&s, 800));
                match r {
                    Err(x) => violation(&panic_class(&x), &format!("parse panicked: {x}; text {s:?}")),
                    Ok(Ok(d)) => violation("truncated-document-accepted", &format!("only {p} of {} bytes of {t:?} were stored, and {s:?} is accepted as {d}", t.len())),
                    Ok(Err(n)) => result(&n.to_string()),
                }
            }
        })],
    );
}
