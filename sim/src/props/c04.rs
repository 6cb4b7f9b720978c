//! C04: sinks that reject, take part of a chunk or interrupt.
use super::c05::{gen_layout, render, Layout};
use super::*;
use kserd::fmt::Formatter;
use kserd::nav::Navigator;
use kserd::Kserd;
use simrt::{count, ev, nontrivial, result, violation};
use std::fmt;
use std::io;

pub const C04: Prop = Prop {
    id: "C04",
    run,
    quick: 80_000,
    thorough: 3_000_000,
    wall: 30,
    rule: "Each run draws values and damaged texts to report on, 1 to 3 threads writing them to sinks of drawn behaviour (reject at a byte, take part of the chunk, short writes, interruptions, then healthy retries), buffers with earlier content, and the interleaving; non-trivial when a sink rejected output.",
    real: &["kserd Display/Debug of values, numbers, text, bytes, nodes, errors and diagnostics; formatter (unmodified, from /repo)", "std::fmt and io::Write::write_fmt"],
    stub: &["output sinks", "OS scheduler", "OS randomness", "locks (futex)"],
    assume: &["texts up to a few kB", "sampling: a clean batch is evidence, not proof"],
};

#[derive(Clone, Copy, Debug)]
enum Mode {
    /// refuses the whole chunk
    Chunk,
    /// takes the chunk up to the limit, then refuses
    Part,
    /// io: short writes of this size on the way
    Short(usize),
    /// io: interrupted every so many calls
    Interrupted(u64),
    /// io: reports that nothing could be written
    Zero,
    /// refuses once, would take more
    Once,
}
struct Sink {
    got: Vec<u8>,
    limit: usize,
    mode: Mode,
    rejected: bool,
    after: u64,
    calls: u64,
}
impl Sink {
    fn new(limit: usize, mode: Mode) -> Sink {
        Sink { got: vec![], limit, mode, rejected: false, after: 0, calls: 0 }
    }
    fn reject(&mut self) {
        self.rejected = true;
        count("fault.sink-rejected");
        ev!("sink rejects after {} bytes", self.got.len());
    }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        simrt::yield_point("sink");
        if self.rejected {
            // an empty chunk is no output
            self.after += (!s.is_empty()) as u64;
            return match self.mode {
                Mode::Once => Ok(()),
                _ => Err(fmt::Error),
            };
        }
        self.calls += 1;
        if self.got.len() + s.len() > self.limit {
            if !matches!(self.mode, Mode::Chunk) {
                let n = self.limit - self.got.len();
                self.got.extend(&s.as_bytes()[..n]);
            }
            self.reject();
            return Err(fmt::Error);
        }
        self.got.extend(s.as_bytes());
        Ok(())
    }
}
impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        simrt::yield_point("sink");
        if self.rejected {
            self.after += (!b.is_empty()) as u64;
            return match self.mode {
                Mode::Once => Ok(b.len()),
                _ => Err(io::Error::new(io::ErrorKind::Other, "sink is closed")),
            };
        }
        self.calls += 1;
        if let Mode::Interrupted(n) = self.mode {
            if self.calls % n == 1 {
                count("fault.sink-interrupted");
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
        }
        let mut n = b.len();
        if let Mode::Short(k) = self.mode {
            if n > k {
                n = k;
                count("fault.short-write");
            }
        }
        if self.got.len() + n > self.limit {
            n = if matches!(self.mode, Mode::Chunk) { 0 } else { self.limit - self.got.len() };
            if n == 0 {
                self.reject();
                return match self.mode {
                    Mode::Zero => Ok(0),
                    _ => Err(io::Error::new(io::ErrorKind::Other, "sink rejects")),
                };
            }
        }
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Something that is written, and how.
struct Thing<'a> {
    what: String,
    show: Box<dyn Fn(&mut dyn Out) -> Result<(), String> + Send + Sync + 'a>,
}
/// Both kinds of sink take format arguments.
trait Out {
    fn put(&mut self, a: fmt::Arguments) -> Result<(), String>;
}
struct AsFmt<'s>(&'s mut Sink);
impl Out for AsFmt<'_> {
    fn put(&mut self, a: fmt::Arguments) -> Result<(), String> {
        fmt::Write::write_fmt(self.0, a).map_err(|_| "fmt error".to_string())
    }
}
struct AsIo<'s>(&'s mut Sink);
impl Out for AsIo<'_> {
    fn put(&mut self, a: fmt::Arguments) -> Result<(), String> {
        io::Write::write_fmt(self.0, a).map_err(|e| e.to_string())
    }
}
fn thing<'a, T: Send + Sync + 'a>(what: &str, x: T, f: fn(&T, &mut dyn Out) -> Result<(), String>) -> Thing<'a> {
    Thing { what: what.to_string(), show: Box::new(move |o| f(&x, o)) }
}

fn attempts(t: &Thing, plan: &[(u64, u64, u64)], who: usize) {
    let fail = |class: &str, msg: String| violation(class, &format!("writer {who}, {}: {msg}", t.what));
    let complete = |io: bool| {
        let mut s = Sink::new(usize::MAX, Mode::Chunk);
        let r = if io { (t.show)(&mut AsIo(&mut s)) } else { (t.show)(&mut AsFmt(&mut s)) };
        (r, s.got)
    };
    let (r, full) = complete(false);
    if let Err(e) = r {
        return fail("healthy-sink-failed", e);
    }
    result(&String::from_utf8_lossy(&full));
    for (at, mode, io) in plan {
        let limit = *at as usize % (full.len() + 1);
        let io = *io == 1;
        let mode = match mode {
            0 => Mode::Chunk,
            1 => Mode::Part,
            2 => Mode::Once,
            3 => Mode::Short(1 + *at as usize % 7),
            4 => Mode::Interrupted(2 + at % 3),
            _ => Mode::Zero,
        };
        let mut s = Sink::new(limit, mode);
        let r = if io { (t.show)(&mut AsIo(&mut s)) } else { (t.show)(&mut AsFmt(&mut s)) };
        ev!("writer {who}: {} to a sink of {limit} bytes {mode:?} io {io}: {r:?} after {} of {} bytes", t.what, s.got.len(), full.len());
        count("op.attempt");
        let text = |b: &[u8]| cut(&String::from_utf8_lossy(b), 300);
        if !full.starts_with(&s.got) {
            return fail("not-a-prefix", format!("the sink holds {:?} of {:?}", text(&s.got), text(&full)));
        }
        if s.after > 0 {
            return fail("output-after-rejection", format!("{} more chunks after the sink rejected at byte {} of {:?}", s.after, s.got.len(), text(&full)));
        }
        if s.rejected {
            nontrivial();
            if r.is_ok() {
                return fail("failure-not-reported", format!("the sink rejected at byte {} of {:?} and success was reported", s.got.len(), text(&full)));
            }
        } else if r.is_err() {
            return fail("healthy-sink-failed", format!("{r:?} from a sink that took everything"));
        } else if s.got != full {
            return fail("incomplete", format!("success was reported for {:?} of {:?}", text(&s.got), text(&full)));
        }
        // and again, healthy
        let (r, again) = complete(io);
        if r.is_err() || again != full {
            return fail("retry-differs", format!("a retry gave {r:?} {:?}, at first {:?}", text(&again), text(&full)));
        }
    }
}

/// Rendering behind text that is already there.
fn append(k: &Kserd, layout: &Layout, before: &str, who: usize) {
    let go = |b: String| -> String {
        let mut f = Formatter::new(k);
        match layout {
            Layout::Cfg(c) => {
                f.apply_config(*c);
            }
            Layout::Max => {}
            Layout::Session(c, reqs) => {
                if let Some(c) = c {
                    f.apply_config(*c);
                }
                for (op, n) in reqs {
                    let i = (*n as usize) % f.len();
                    let _ = match op {
                        0 => f.inline(i),
                        1 => f.concise(i),
                        2 => f.verbose(i),
                        3 => f.id(i, true),
                        _ => f.id(i, false),
                    };
                }
            }
        }
        f.write_string(b)
    };
    let alone = go(String::new());
    let both = go(before.to_string());
    result(&both);
    count("op.appended");
    if !both.starts_with(before) {
        return violation("buffer-altered", &format!("writer {who}: {before:?} became {:?} ({layout:?})", cut(&both, 400)));
    }
    if both[before.len()..] != alone {
        violation("append-differs", &format!("writer {who}: behind {before:?} came {:?}, alone {:?} ({layout:?})", cut(&both[before.len()..], 400), cut(&alone, 400)));
    }
}

fn run() {
    sizes_up_to(1024);
    let g = Gen::swarm(5, 4);
    let docs: Vec<M> = (0..1 + w(2)).map(|_| if chance(1, 24) { gen_tower(&g, 4 + w(40)) } else { gen(&g, g.depth) }).collect();
    let owned: Vec<Kserd> = docs.iter().map(|m| m.own()).collect();
    let layout = gen_layout();
    let whole: Vec<String> = docs.iter().map(|m| render(m, &layout).unwrap_or_default()).collect();
    let before: Vec<String> = (0..1 + w(3)).map(|_| match w(8) {
        // the document's own name, text or the start of it
        5 => docs[0].id.clone().unwrap_or_else(name),
        6 => whole[w(whole.len() as u64) as usize].clone() + pick(&["", "\n", " "]),
        7 => {
            let mut s = pick(&["", "x ", "\n"]).to_string() + &whole[0];
            let mut i = w(s.len() as u64 + 1) as usize;
            while !s.is_char_boundary(i) {
                i -= 1;
            }
            s.truncate(i);
            s
        }
        4 if chance(1, 4) => "a line of text\n".repeat(big_len() / 4),
        _ => pick(&["x", "", "(", "[", "a = ", "text\n", "{ ", ", ", "\u{1F980}", "\"", "id(", "=", " ", "tail\n\n", "é", "\t", "\r\n", ")", "]", "}", ": ", "<a> ", "    ", ":a\n", "[a]\n"]).to_string(),
    }).collect();
    // a text to be refused: a damaged form of a document
    let mut torn = render(&docs[0], &layout).unwrap_or_default();
    for _ in 0..1 + w(2) {
        let mut i = w(torn.len() as u64 + 1) as usize;
        while !torn.is_char_boundary(i) {
            i -= 1;
        }
        match w(3) {
            0 => torn.truncate(i),
            1 => torn.insert_str(i, pick(&[")", "]", "}", "\"", "=", "(", "[", "\n", "é", "%"])),
            _ => torn.insert_str(i, pick(&["\n\n)", "str#", "\r\n]", "🦀("])),
        }
    }
    let torn = &torn;
    let err = kserd::parse::parse(torn).err();
    let navs: Vec<Navigator> = owned.iter().map(Navigator::new).collect();
    let mut things: Vec<Thing> = vec![];
    for (i, k) in owned.iter().enumerate() {
        let n = navs[i].len();
        let idx = w(n as u64) as usize;
        let sub: &Kserd = navs[i].get(idx).unwrap().kserd();
        things.push(match w(11) {
            9 => thing("value with flags", sub, |x, o| o.put(format_args!("{x:>60}|{x:08}|{x:+.3}"))),
            10 => {
                thing("refusals", (sub, w(40)), |(k, n), o| {
                    let mut f = Formatter::new(k);
                    for i in 0..6 {
                        let at = (*n as usize + i) % (f.len() + 1);
                        if let Err(e) = if i % 2 == 0 { f.verbose(at) } else { f.concise(at) } {
                            o.put(format_args!("{e}{e:?}"))?;
                        }
                        let _ = f.inline(*n as usize % f.len());
                    }
                    if let Err(e) = Kserd::clone(k).decode::<(u8, char)>() {
                        o.put(format_args!("{e}|{e:?}"))?;
                    }
                    if let Err(e) = Kserd::clone(k).decode::<std::collections::BTreeMap<bool, String>>() {
                        o.put(format_args!("{e}"))?;
                    }
                    if let kserd::Value::Num(x) = &k.val {
                        if let Err(e) = x.as_i128().map(drop).and(x.as_u128().map(drop)) {
                            o.put(format_args!("{e}{e:?}"))?;
                        }
                        o.put(format_args!("{x:>45}|{x:+}|{x:050}|{x:.2}"))?;
                    }
                    Ok(())
                })
            }
            0 => thing("value", k, |x, o| o.put(format_args!("{x}"))),
            1 => thing("value debug", k, |x, o| o.put(format_args!("{x:?}"))),
            2 => thing("value alternate debug", k, |x, o| o.put(format_args!("{x:#?}"))),
            3 => thing("contained value debug", sub, |x, o| o.put(format_args!("{:?}", x.val))),
            4 => thing("contained value", sub, |x, o| o.put(format_args!("<{x}>"))),
            5 => match &sub.val {
                kserd::Value::Str(s) => thing("text", s, |x, o| o.put(format_args!("{x}|{x:?}"))),
                kserd::Value::Barr(s) => thing("bytes", s, |x, o| o.put(format_args!("{x:?}"))),
                kserd::Value::Num(s) => thing("number", s, |x, o| o.put(format_args!("{x}|{x:?}"))),
                _ => thing("contained value", sub, |x, o| o.put(format_args!("{x}"))),
            },
            6 => {
                let num = match gen_num(&g) {
                    V::U(x) => kserd::ds::Number::Uint(x),
                    V::I(x) => kserd::ds::Number::Int(x),
                    V::F(x) => kserd::ds::Number::Float(x),
                    _ => unreachable!(),
                };
                thing("number", num, |x, o| o.put(format_args!("{x}")))
            }
            7 => thing("node debug", (&navs[i], idx), |x, o| o.put(format_args!("{:?}", x.0.get(x.1).unwrap()))),
            _ => {
                thing("error texts", k, |k, o| {
                    let mut f = Formatter::new(k);
                    let n = f.len();
                    if let Err(e) = f.verbose(n) {
                        o.put(format_args!("{e}"))?;
                    }
                    if let Err(e) = Kserd::with_id("a b", kserd::Value::Unit) {
                        o.put(format_args!("{e}{e:?}"))?;
                    }
                    match Kserd::new_cntr(vec![("a b", Kserd::new_unit())]) {
                        Err(e) => o.put(format_args!("{e}{e:?}")),
                        Ok(_) => Ok(()),
                    }
                })
            }
        });
    }
    if let Some(e) = &err {
        count("probe.diagnostic");
        things.push(thing("diagnostic", e, |x, o| o.put(format_args!("{x:?}"))));
        if let Some(t) = e.get(w(e.len() as u64) as usize) {
            things.push(thing("diagnostic trace", t, |x, o| o.put(format_args!("{x}|{x:?}"))));
        }
    }
    let n = 1 + w(3);
    let plans: Vec<Vec<(u64, u64, u64)>> = (0..n).map(|_| (0..1 + fl(4)).map(|_| (fl(1 << 20), fl(6), fl(2))).collect()).collect();
    let cfg = sched_cfg(30_000_000 + docs.iter().map(|m| m.digest().len()).sum::<usize>() as u64 * 4000 + docs.iter().map(|m| (m.size() * m.size()) as u64 * 2000).sum::<u64>());
    let (things, before, owned, layout) = (&things, &before, &owned, &layout);
    let tasks: Vec<Box<dyn FnOnce() + Send + '_>> = plans
        .iter()
        .enumerate()
        .map(|(i, plan)| {
            Box::new(move || {
                let r = guard(|| {
                    for (j, t) in things.iter().enumerate() {
                        if (i + j) % n as usize == 0 || j == 0 {
                            attempts(t, plan, i);
                        }
                    }
                    append(&owned[i % owned.len()], layout, &before[i % before.len()], i);
                });
                if let Err(p) = r {
                    violation(&panic_class(&p), &format!("writer {i} panicked: {p}"));
                }
            }) as Box<dyn FnOnce() + Send + '_>
        })
        .collect();
    simrt::run_tasks(cfg, tasks);
}
