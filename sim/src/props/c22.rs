//! C22: however many calls are made, neither memory nor work piles up.
use super::c01::{cells, exec, gen_pool, world, Call, Pool, World, KINDS, REGION};
use super::c05::{render, Layout};
use kserd::fmt::FormattingConfig;
use super::*;
use simrt::{count, ev, nontrivial, result, violation};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Barrier, Mutex};

pub const C22: Prop = Prop {
    id: "C22",
    run,
    quick: 24_000,
    thorough: 800_000,
    wall: 60,
    rule: "Each run draws documents, texts, a pool of calls (those of C01, with failing, panicking and re-entrant callbacks and damaged texts), 1 to 4 threads with scripts of calls, whether every round works on the same arguments or on new ones of the same size, and whether every round has new threads. The scripts are repeated in rounds; between rounds, when no call is under way and all results are dropped, live memory and the steps of the round are read off. When either grew, the rounds go on up to 64 or 256. Non-trivial when every thread made at least one call in every round.",
    real: &["kserd encoder, decoder, formatter, parser, navigator, values, conversions (unmodified, from /repo)", "std collections and locks"],
    stub: &["OS scheduler", "OS randomness (hash seeds)", "locks (futex)", "caller callbacks", "allocator (counted)"],
    assume: &["what a thread keeps until it ends counts as kept", "growth counts when it goes on at every doubling of the number of rounds", "sampling: a clean batch is evidence, not proof"],
};

/// The same document with other texts, names and identities of the same size.
fn turn(x: &M, r: u64, names: bool) -> M {
    let t = |s: &str| format!("{s}{r:04}");
    let one = |x: &M| turn(x, r, names);
    let v = match &x.v {
        V::Tuple(l) => V::Tuple(l.iter().map(one).collect()),
        V::Seq(l) => V::Seq(l.iter().map(one).collect()),
        V::Cntr(l) => V::Cntr(l.iter().map(|(n, x)| (if names { t(n) } else { n.clone() }, one(x))).collect()),
        V::Map(l) => V::Map(l.iter().map(|(k, x)| (one(k), one(x))).collect()),
        V::Str(s) => V::Str(t(s)),
        V::Barr(b) => V::Barr([&b[..], &(r as u32).to_le_bytes()].concat()),
        V::U(x) if *x < 1 << 64 => V::U(1 << 80 | x << 16 | r as u128),
        o => o.clone(),
    };
    M { id: x.id.as_deref().map(t), v }
}
/// A call that brings its own arguments.
fn fresh(c: &Call, ms: &[M], r: u64) -> usize {
    // the field names an encoder is given live for ever
    let has = |c: &Call| c.kind == 0;
    let names = !has(c) && !c.inner.as_deref().is_some_and(has);
    let ms: Vec<M> = ms.iter().map(|m| turn(m, r, names)).collect();
    let mut texts = vec![];
    // other widths too, in no order that could make the rounds dearer and dearer
    let width = Some((r as u8).reverse_bits() as u16);
    let layout = match &c.layout {
        Layout::Cfg(l) if l.width_limit.is_some() => Layout::Cfg(FormattingConfig { width_limit: width, ..*l }),
        o => o.clone(),
    };
    for m in &ms {
        let mut t = render(m, &layout).unwrap_or_default();
        if c.fault == 1 {
            // cut short
            let mut n = t.len() * (c.at as usize + 1) / 13;
            while !t.is_char_boundary(n) {
                n -= 1
            }
            t.truncate(n)
        }
        texts.push(t);
    }
    let w = World { k: ms.iter().map(|m| Some(m.own())).collect(), nav: vec![], fmt: vec![], texts: &texts, ms: &ms, nest: true };
    let fit = |c: &Call| {
        let mut c = c.clone();
        c.kind = if c.kind == 14 { 5 } else { c.kind };
        c.b %= ms.len();
        if let Layout::Cfg(l) = &mut c.layout {
            l.width_limit = l.width_limit.and(width);
        }
        c
    };
    let mut d = fit(c);
    d.inner = d.inner.map(|i| Box::new(fit(&i)));
    exec(&d, &w).len()
}

/// Grows over and over: higher at every doubling of the rounds.
fn memory_grows(l: &[i64]) -> bool {
    let n = l.len();
    n >= 8 && l[n / 4 - 1] < l[n / 2 - 1] && l[n / 2 - 1] < l[n - 1] && (n < 64 || memory_grows(&l[..n / 2]))
}
/// A first hint of that.
fn may_grow(l: &[i64]) -> bool {
    l[l.len() / 2 - 1] < l[l.len() - 1]
}
/// All later rounds cost more than all earlier ones, and clearly so.
fn work_grows(l: &[u64]) -> bool {
    let n = l.len();
    let (min, max) = (|l: &[u64]| *l.iter().min().unwrap(), |l: &[u64]| *l.iter().max().unwrap());
    if n == 8 {
        return min(&l[4..]) > max(&l[1..4]);
    }
    min(&l[n / 2..]) > max(&l[n / 8..n / 4]) && min(&l[n / 4..n / 2]) > max(&l[1..n / 8]) && l[n - 1] > l[1] + l[1] / 50 + 64
}

struct Book {
    live: Vec<i64>,
    work: Vec<u64>,
    /// rounds to be made
    rounds: usize,
}

fn run() {
    plain_maps();
    let region = simrt::sys::mmap_shared(REGION);
    let other = wide() ^ 0x5555;
    let Pool { ms, texts, calls, focus: _, size } = gen_pool(region, other);
    let threads = pick(&[1, 1, 2, 2, 3, 4]);
    let scripts: Vec<Vec<usize>> = (0..threads).map(|_| (0..1 + w(3)).map(|_| w(calls.len() as u64) as usize).collect()).collect();
    let anew = chance(1, 2);
    let own = chance(1, 2);
    let each = chance(1, 6);
    let most = if size * scripts.iter().map(|s| s.len()).sum::<usize>() < 60 { 256 } else { 64 };
    let first = if chance(1, 24) { most } else { 8 };
    ev!("{threads} threads{}, {}, scripts {scripts:?}", if each { " started anew in every round" } else { "" }, if anew { "new arguments in every round" } else { "the same arguments in every round" });
    let need: Vec<(usize, bool)> = (0..ms.len()).map(|i| (i, true)).collect();
    let cfg = sched_cfg(2_000_000_000);
    let world = &world(ms, texts, cells(ms), &need, own, true);
    let calls = &calls;
    let book = &Mutex::new(Book { live: Vec::with_capacity(300), work: Vec::with_capacity(300), rounds: first });
    let work = &AtomicU64::new(0);
    // one thread's part of a round
    let part = &|s: &[usize], round: usize| {
        let before = simrt::own_steps();
        for i in s {
            let c = &calls[*i];
            simrt::yield_point("call");
            let n = if anew { fresh(c, ms, round as u64) } else { exec(c, world).len() };
            let _m = simrt::Mask::new();
            if round == 0 {
                result(&n.to_string());
                count(&format!("op.{}", KINDS[c.kind as usize]));
            }
        }
        work.fetch_add(simrt::own_steps() - before, SeqCst);
        nontrivial();
    };
    // the end of a round; whether another one follows
    let close = &|round: usize| {
        let _m = simrt::Mask::new();
        let mut b = book.lock().unwrap();
        b.live.push(simrt::live_bytes());
        let x = work.swap(0, SeqCst);
        b.work.push(x);
        if round == b.rounds && round < most && (may_grow(&b.live) || work_grows(&b.work)) {
            count("probe.more-rounds");
            b.rounds = most;
        }
    };
    let more = &|round: usize| {
        let _m = simrt::Mask::new();
        let b = book.lock().unwrap();
        round < b.rounds
    };
    if each {
        let mut round = 0;
        while more(round) {
            let tasks = scripts.iter().map(|s| Box::new(move || part(s, round)) as Box<dyn FnOnce() + Send + '_>).collect();
            simrt::run_tasks(cfg, tasks);
            round += 1;
            close(round);
        }
    } else {
        let (meet, leave) = (&Barrier::new(threads), &Barrier::new(threads));
        let tasks: Vec<Box<dyn FnOnce() + Send + '_>> = scripts
            .iter()
            .map(|s| {
                let f = move || {
                    let mut round = 0;
                    while more(round) {
                        part(s, round);
                        round += 1;
                        if meet.wait().is_leader() {
                            close(round);
                        }
                        leave.wait();
                    }
                };
                Box::new(f) as Box<dyn FnOnce() + Send + '_>
            })
            .collect();
        simrt::run_tasks(cfg, tasks);
    }
    let b = book.lock().unwrap();
    count(if anew { "probe.new-arguments" } else { "probe.same-arguments" });
    count(if each { "probe.new-threads" } else { "probe.same-threads" });
    let n = b.rounds;
    simrt::count_n("probe.rounds", n as u64);
    if n < 64 {
        return;
    }
    let at = |i: usize| format!("{} bytes, {} steps", b.live[i - 1] - b.live[0], b.work[i - 1]);
    let said = format!("after the first of {n} rounds: {}; after {}: {}; after {}: {}; after the last: {}", at(1), n / 4, at(n / 4), n / 2, at(n / 2), at(n));
    if memory_grows(&b.live) {
        violation("memory-piles-up", &format!("live memory with no call under way keeps growing: {said}"));
    } else if work_grows(&b.work) {
        violation("work-piles-up", &format!("the same calls keep costing more: {said}"));
    }
}
