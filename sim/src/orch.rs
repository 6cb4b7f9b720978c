//! Batches of runs, minimisation, replay files, evidence.
use crate::props::Prop;
use simrt::{Exit, Shared, Source};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::*};

pub const MAX_RUNS: usize = 4_000_000;

/// Shared by the orchestrator and its workers.
#[repr(C)]
struct Control {
    min_fail: AtomicU64,
    runs: [AtomicU64; 64],
    nontrivial: [AtomicU64; 64],
    steps: [AtomicU64; 64],
    switches: [AtomicU64; 64],
    known: [AtomicU64; 64],
    rechecked: [AtomicU64; 64],
    recheck_bad: [AtomicU64; 64],
    recheck_result_bad: AtomicU64,
    harness: AtomicU64,
    maxsteps: AtomicU64,
    hashes: [u64; MAX_RUNS],
    scheds: [u64; MAX_RUNS],
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Held,
    Broken(String, String),
    Harness(String),
}

pub fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let mut h = simrt::fnv(0xcbf29ce484222325, &seed.to_le_bytes());
    h = simrt::fnv(h, prop.as_bytes());
    h = simrt::fnv(h, &idx.to_le_bytes());
    simrt::Rng::new(h).next()
}

/// One run in a fresh process.
pub fn execute(p: &Prop, src: Source, keep_log: bool, counting: bool) -> Verdict {
    let s = simrt::shared();
    s.reset();
    s.log_keep = keep_log as u32;
    s.counting = counting as u32;
    let f = p.run;
    let e = simrt::in_child(p.wall, || {
        simrt::sys::limits(6 << 30);
        simrt::set_source(src);
        simrt::set_hash_seed(0x1234_5678);
        simrt::enable_steps();
        f();
        let s = simrt::shared();
        if s.status == simrt::RUNNING {
            s.status = simrt::OK;
        }
        0
    });
    let s = simrt::shared();
    match e {
        Exit::Code(0) => match s.status {
            simrt::OK => Verdict::Held,
            simrt::VIOLATION => Verdict::Broken(s.class_str(), s.msg_str()),
            simrt::HARNESS => Verdict::Harness(s.msg_str()),
            _ => Verdict::Harness("run ended without a verdict".into()),
        },
        Exit::Signal(14) => Verdict::Broken("hang".into(), format!("run did not end within {} s of wall clock", p.wall)),
        Exit::Signal(n) => Verdict::Broken(format!("process-died-signal-{n}"), format!("the process was killed by signal {n} (abort, stack overflow or bad memory access)")),
        Exit::Code(c) => Verdict::Harness(format!("run exited with code {c}")),
    }
}

pub struct Found {
    pub idx: u64,
    pub class: String,
    pub msg: String,
    pub tape: Vec<Vec<u64>>,
    pub log: String,
    pub hash: u64,
}

fn try_tape(p: &Prop, t: &[Vec<u64>], class: &str) -> bool {
    matches!(execute(p, Source::Replay(t.to_vec()), false, false), Verdict::Broken(c, _) if c == class)
}

pub fn minimise(p: &Prop, mut t: Vec<Vec<u64>>, class: &str, secs: f64) -> (Vec<Vec<u64>>, u64) {
    let t0 = std::time::Instant::now();
    let over = || t0.elapsed().as_secs_f64() > secs;
    let mut tries = 0u64;
    let mut attempt = |t: &[Vec<u64>]| {
        tries += 1;
        try_tape(p, t, class)
    };
    loop {
        let before = t.clone();
        for st in [simrt::S, simrt::F, simrt::W] {
            // drop everything, then ever smaller chunks
            let mut size = t[st].len().max(1);
            while size >= 1 && !over() {
                let mut at = t[st].len();
                while at > 0 && !over() {
                    let lo = at.saturating_sub(size);
                    let mut c = t.clone();
                    c[st].drain(lo..at);
                    if attempt(&c) {
                        t = c;
                        at = lo.min(t[st].len());
                    } else {
                        at = lo;
                    }
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
            for i in 0..t[st].len() {
                if over() {
                    break;
                }
                for _ in 0..6 {
                    let v = *t[st].get(i).unwrap_or(&0);
                    if v == 0 {
                        break;
                    }
                    let mut hit = false;
                    for nv in [0, v / 2, v - 1] {
                        if nv >= v {
                            continue;
                        }
                        let mut c = t.clone();
                        c[st][i] = nv;
                        if attempt(&c) {
                            t = c;
                            hit = true;
                            break;
                        }
                    }
                    if !hit {
                        break;
                    }
                }
            }
        }
        if t == before || over() {
            break;
        }
    }
    (t, tries)
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Line-oriented replay file; `tape` lines are what is executed, the rest is for readers.
pub fn write_replay(path: &str, p: &Prop, seed: u64, f: &Found) -> std::io::Result<()> {
    let mut o = String::new();
    let _ = writeln!(o, "ksim-replay 1");
    let _ = writeln!(o, "property {}", p.id);
    let _ = writeln!(o, "seed {seed}");
    let _ = writeln!(o, "run {}", f.idx);
    let _ = writeln!(o, "class {}", f.class.replace('\n', " "));
    let _ = writeln!(o, "hash {:016x}", f.hash);
    for (i, t) in f.tape.iter().enumerate() {
        let _ = write!(o, "tape {i}");
        for x in t {
            let _ = write!(o, " {x}");
        }
        let _ = writeln!(o);
    }
    let _ = writeln!(o, "message {}", f.msg.replace('\n', "\\n"));
    let _ = writeln!(o, "trace");
    o.push_str(&f.log);
    std::fs::write(path, o)
}
pub struct ReplayFile {
    pub property: String,
    pub class: String,
    pub hash: u64,
    pub tape: Vec<Vec<u64>>,
}
pub fn read_replay(path: &str) -> Result<ReplayFile, String> {
    let s = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
    let mut r = ReplayFile { property: String::new(), class: String::new(), hash: 0, tape: vec![vec![]; simrt::NSTREAM] };
    for l in s.lines() {
        if l == "trace" {
            break;
        }
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "property" => r.property = v.into(),
            "class" => r.class = v.into(),
            "hash" => r.hash = u64::from_str_radix(v, 16).unwrap_or(0),
            "tape" => {
                let mut it = v.split(' ');
                let i: usize = it.next().unwrap_or("0").parse().unwrap_or(0);
                r.tape[i] = it.filter_map(|x| x.parse().ok()).collect();
            }
            _ => {}
        }
    }
    Ok(r)
}

pub struct Known {
    pub property: String,
    pub class: String,
    pub text: String,
}
pub fn known_findings(dir: &str, prop: &str) -> Vec<Known> {
    let s = std::fs::read_to_string(format!("{dir}/known-findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| {
            let (p, rest) = l.strip_prefix("property=")?.split_once(' ')?;
            let (c, text) = rest.strip_prefix("class=[")?.split_once("] ")?;
            Some(Known { property: p.into(), class: c.into(), text: text.into() })
        })
        .filter(|k| k.property == prop)
        .collect()
}

pub struct Batch {
    pub prop: &'static Prop,
    pub seed: u64,
    pub tier: String,
    pub runs: u64,
    pub workers: usize,
    pub secs: f64,
    pub dir: String,
}

pub fn check(b: Batch) -> i32 {
    let t0 = std::time::Instant::now();
    let p = b.prop;
    println!("seed {} property {} tier {} runs {} workers {}", b.seed, p.id, b.tier, b.runs, b.workers);
    let known = known_findings(&b.dir, p.id);
    simrt::sys::silence_stderr_if(std::env::var("KSIM_STDERR").is_err());
    let ctl: &'static mut Control = unsafe { &mut *(simrt::sys::mmap_shared(std::mem::size_of::<Control>()) as *mut Control) };
    ctl.min_fail.store(u64::MAX, SeqCst);
    let regions: Vec<*mut Shared> = (0..b.workers).map(|_| simrt::new_shared()).collect();
    let mut pids = vec![];
    for wk in 0..b.workers {
        let pid = simrt::sys::fork_raw();
        if pid == 0 {
            simrt::use_shared(regions[wk]);
            worker(&b, ctl, wk, &known, t0);
            simrt::sys::exit_now(0);
        }
        pids.push(pid);
    }
    let mut worker_bad = false;
    for pid in pids {
        if simrt::sys::wait(pid) != Exit::Code(0) {
            worker_bad = true;
        }
    }
    let sum = |a: &[AtomicU64; 64]| a.iter().map(|x| x.load(SeqCst)).sum::<u64>();
    let runs = sum(&ctl.runs);
    let explore_s = t0.elapsed().as_secs_f64();

    let mut violations = 0;
    let mut code = 0;
    simrt::use_shared(regions[0]);
    let fail = ctl.min_fail.load(SeqCst);
    let mut viol_json = String::new();
    if fail != u64::MAX {
        let v = execute(p, Source::Random(run_seed(b.seed, p.id, fail)), true, false);
        match v {
            Verdict::Broken(class, msg) => {
                violations = 1;
                code = 1;
                report(&b, fail, class, msg, &mut viol_json);
            }
            v => {
                // the run failed once and now does not: the code under test is not a function of the seed
                violations = 1;
                code = 1;
                let class = "not-reproducible".to_string();
                let msg = format!("run {fail} failed in the batch but gave {v:?} when repeated");
                report_plain(&b, fail, class, msg, &mut viol_json);
            }
        }
    } else if ctl.recheck_result_bad.load(SeqCst) != 0 {
        let idx = ctl.recheck_result_bad.load(SeqCst) - 1;
        violations = 1;
        code = 1;
        report_plain(&b, idx, "nondeterminism".into(), format!("run {idx} repeated with the same seed gave different results"), &mut viol_json);
    }
    let harness = ctl.harness.load(SeqCst);
    if code == 0 && (harness != 0 || worker_bad) {
        let mut m = String::new();
        for r in &regions {
            let s = unsafe { &**r };
            if s.status == simrt::HARNESS {
                m = s.msg_str();
            }
        }
        println!("HARNESS-ERROR run {} worker_bad {worker_bad}: {m}", harness.wrapping_sub(1));
        code = 2;
    }
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", k.property, k.text);
    }

    // evidence
    let n = (runs as usize).min(MAX_RUNS);
    let _ = n;
    let mut hs: Vec<u64> = ctl.hashes.iter().take(b.runs as usize).copied().filter(|x| *x != 0).collect();
    hs.sort_unstable();
    hs.dedup();
    let mut ss: Vec<u64> = ctl.scheds.iter().take(b.runs as usize).copied().filter(|x| *x != 0).collect();
    ss.sort_unstable();
    ss.dedup();
    let mut ctrs: std::collections::BTreeMap<String, u64> = Default::default();
    let mut cov = vec![0u8; simrt::COV_CAP];
    let mut sites = vec![0u8; simrt::SITE_CAP];
    for r in &regions {
        let s = unsafe { &**r };
        for c in s.ctr.iter() {
            if c.len > 0 {
                *ctrs.entry(String::from_utf8_lossy(&c.name[..c.len]).into_owned()).or_default() += c.n;
            }
        }
        for (a, x) in cov.iter_mut().zip(s.cov.iter()) {
            *a |= *x;
        }
        for (a, x) in sites.iter_mut().zip(s.sites.iter()) {
            *a |= *x;
        }
    }
    let edges = cov.iter().filter(|x| **x != 0).count();
    let nsites = sites.iter().filter(|x| **x != 0).count();
    let mut samples = String::new();
    for k in 0..3u64 {
        let idx = k * (b.runs / 3).max(1);
        let v = execute(p, Source::Random(run_seed(b.seed, p.id, idx)), true, false);
        let s = simrt::shared();
        let log = s.log_str();
        let lines: Vec<&str> = log.lines().take(14).collect();
        if k > 0 {
            samples.push_str(", ");
        }
        let _ = write!(samples, "{{\"run\": {idx}, \"verdict\": {}, \"trace\": {}}}", jstr(&crate::model::cut(&format!("{v:?}"), 200)), jstr(&crate::model::cut(&lines.join("\n"), 1500)));
    }
    let wall = t0.elapsed().as_secs_f64();
    let group = |pre: &str| {
        let mut o = String::from("{");
        let mut first = true;
        for (k, v) in ctrs.iter().filter(|(k, _)| k.starts_with(pre)) {
            if !first {
                o.push_str(", ");
            }
            first = false;
            let _ = write!(o, "{}: {v}", jstr(&k[pre.len()..]));
        }
        o.push('}');
        o
    };
    let list = |l: &[&str]| l.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", ");
    let mut e = String::new();
    let steps = sum(&ctl.steps);
    let _ = write!(
        e,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {runs},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{samples}],\n  \"nontrivial_runs\": {},\n  \"simulated_runs_per_hour\": {},\n  \"simulated_steps\": {steps},\n  \"simulated_seconds\": {:.3},\n  \"longest_run_steps\": {},\n  \"context_switches\": {},\n  \"distinct_interleavings\": {},\n  \"interleaving_measure\": \"distinct hashes of the sequence of (running task, code edge where it was stopped, task resumed)\",\n  \"distinct_switch_sites\": {nsites},\n  \"code_edges_reached\": {edges},\n  \"code_edges_instrumented\": {},\n  \"faults_fired\": {},\n  \"probes\": {},\n  \"operations\": {},\n  \"runs_repeated_for_determinism\": {},\n  \"repeats_that_differed\": {},\n  \"known_finding_runs\": {},\n  \"workers\": {},\n  \"real_code\": [{}],\n  \"stubs\": [{}]{}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {wall:.1},\n \"violations\": {violations}\n}}\n",
        jstr(p.id),
        jstr(&b.tier),
        b.seed,
        hs.len(),
        jstr(p.rule),
        sum(&ctl.nontrivial),
        (runs as f64 / explore_s * 3600.0) as u64,
        steps as f64 / 1e6,
        ctl.maxsteps.load(SeqCst),
        sum(&ctl.switches),
        ss.len(),
        simrt::guards(),
        group("fault."),
        group("probe."),
        group("op."),
        sum(&ctl.rechecked),
        sum(&ctl.recheck_bad),
        sum(&ctl.known),
        b.workers,
        list(p.real),
        list(p.stub),
        viol_json,
        list(p.assume),
    );
    let dir = format!("{}/evidence", b.dir);
    let _ = std::fs::create_dir_all(&dir);
    if let Err(x) = std::fs::write(format!("{dir}/{}.json", p.id), e) {
        println!("HARNESS-ERROR cannot write evidence: {x}");
        if code == 0 {
            code = 2
        }
    }
    println!("runs {runs} distinct {} steps {steps} switches {} interleavings {} edges {edges} wall {wall:.1}s repeats-differing {}", hs.len(), sum(&ctl.switches), ss.len(), sum(&ctl.recheck_bad));
    println!("faults {}", group("fault."));
    println!("probes {}", group("probe."));
    println!("ops {}", group("op."));
    if code == 0 {
        println!("HELD property={}", p.id);
    }
    code
}

fn worker(b: &Batch, ctl: &mut Control, wk: usize, known: &[Known], t0: std::time::Instant) {
    let p = b.prop;
    let mut idx = wk as u64;
    while idx < b.runs {
        if idx > ctl.min_fail.load(SeqCst) || t0.elapsed().as_secs_f64() > b.secs || ctl.harness.load(SeqCst) != 0 {
            break;
        }
        let v = execute(p, Source::Random(run_seed(b.seed, p.id, idx)), false, true);
        let s = simrt::shared();
        ctl.runs[wk].fetch_add(1, SeqCst);
        ctl.steps[wk].fetch_add(s.steps, SeqCst);
        ctl.maxsteps.fetch_max(s.steps, SeqCst);
        ctl.switches[wk].fetch_add(s.switches, SeqCst);
        if s.nontrivial != 0 {
            ctl.nontrivial[wk].fetch_add(1, SeqCst);
            ctl.hashes[idx as usize] = s.trace_hash.max(1);
        }
        if s.switches > 0 {
            ctl.scheds[idx as usize] = s.sched_hash.max(1);
        }
        let (th, rh) = (s.trace_hash, s.result_hash);
        match v {
            Verdict::Held => {
                if idx % 64 == 5 {
                    let v2 = execute(p, Source::Random(run_seed(b.seed, p.id, idx)), false, false);
                    let s = simrt::shared();
                    ctl.rechecked[wk].fetch_add(1, SeqCst);
                    if s.trace_hash != th || v2 != Verdict::Held {
                        ctl.recheck_bad[wk].fetch_add(1, SeqCst);
                    }
                    if s.result_hash != rh {
                        ctl.recheck_result_bad.store(idx + 1, SeqCst);
                    }
                }
            }
            Verdict::Broken(c, _) => {
                if known.iter().any(|k| k.class == c) {
                    ctl.known[wk].fetch_add(1, SeqCst);
                } else {
                    ctl.min_fail.fetch_min(idx, SeqCst);
                }
            }
            Verdict::Harness(_) => {
                ctl.harness.store(idx + 1, SeqCst);
            }
        }
        idx += b.workers as u64;
    }
}

fn report(b: &Batch, idx: u64, class: String, msg: String, vj: &mut String) {
    let p = b.prop;
    let s = simrt::shared();
    let orig = s.tapes();
    let (orig_log, orig_hash) = (s.log_str(), s.trace_hash);
    let secs = if b.tier == "thorough" { 90.0 } else { 40.0 };
    println!("violation in run {idx}: [{class}] {}", crate::model::cut(&msg, 600));
    let (t, tries) = minimise(p, orig.clone(), &class, secs);
    let v = execute(p, Source::Replay(t.clone()), true, false);
    let s = simrt::shared();
    let mut f = match v {
        Verdict::Broken(c, m) if c == class => Found { idx, class: c, msg: m, tape: s.tapes(), log: s.log_str(), hash: s.trace_hash },
        _ => Found { idx, class: class.clone(), msg: msg.clone(), tape: orig.clone(), log: orig_log.clone(), hash: orig_hash },
    };
    let dir = format!("{}/replays", b.dir);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{}-{}.replay", p.id, b.seed, idx);
    let _ = write_replay(&path, p, b.seed, &f);
    // twice, in fresh processes
    let again = |path: &str| {
        let exe = std::env::current_exe().ok()?;
        let o = std::process::Command::new(exe).arg("replay").arg(path).output().ok()?;
        o.status.code()
    };
    let mut repro = again(&path) == Some(1) && again(&path) == Some(1);
    if !repro {
        f = Found { idx, class: class.clone(), msg, tape: orig.clone(), log: orig_log, hash: orig_hash };
        let _ = write_replay(&path, p, b.seed, &f);
        repro = again(&path) == Some(1);
    }
    println!("minimised from {} to {} choices in {tries} tries; replay {}", orig.iter().map(|x| x.len()).sum::<usize>(), f.tape.iter().map(|x| x.len()).sum::<usize>(), if repro { "reproduces exactly" } else { "did NOT reproduce" });
    println!("[{}] {}", f.class, crate::model::cut(&f.msg, 1500));
    for l in f.log.lines().take(60) {
        println!("  | {}", crate::model::cut(l, 300));
    }
    println!("VIOLATION property={} replay={path}", p.id);
    let _ = write!(vj, ",\n  \"violation\": {{\"run\": {idx}, \"class\": {}, \"message\": {}, \"replay\": {}, \"choices_before\": {}, \"choices_after\": {}, \"reproduced\": {repro}}}", jstr(&f.class), jstr(&crate::model::cut(&f.msg, 1000)), jstr(&path), orig.iter().map(|x| x.len()).sum::<usize>(), f.tape.iter().map(|x| x.len()).sum::<usize>());
}
fn report_plain(b: &Batch, idx: u64, class: String, msg: String, vj: &mut String) {
    let p = b.prop;
    let s = simrt::shared();
    let f = Found { idx, class: class.clone(), msg: msg.clone(), tape: s.tapes(), log: s.log_str(), hash: 0 };
    let dir = format!("{}/replays", b.dir);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{}-{}.replay", p.id, b.seed, idx);
    let _ = write_replay(&path, p, b.seed, &f);
    println!("[{class}] {msg}");
    println!("VIOLATION property={} replay={path}", p.id);
    let _ = write!(vj, ",\n  \"violation\": {{\"run\": {idx}, \"class\": {}, \"message\": {}}}", jstr(&class), jstr(&msg));
}

pub fn replay(path: &str, quiet: bool) -> i32 {
    let r = match read_replay(path) {
        Ok(r) => r,
        Err(e) => {
            println!("{e}");
            return 2;
        }
    };
    let Some(p) = crate::props::find(&r.property) else {
        println!("unknown property {}", r.property);
        return 2;
    };
    simrt::use_shared(simrt::new_shared());
    let v = execute(p, Source::Replay(r.tape), true, false);
    let s = simrt::shared();
    if !quiet {
        print!("{}", s.log_str());
    }
    match v {
        Verdict::Broken(c, m) => {
            println!("[{c}] {m}");
            println!("trace hash {:016x} (recorded {:016x})", s.trace_hash, r.hash);
            if c == r.class && s.trace_hash == r.hash {
                println!("VIOLATION property={} replay={path}", p.id);
                1
            } else {
                println!("a different violation or trace than recorded ([{}])", r.class);
                3
            }
        }
        v => {
            println!("{v:?}");
            0
        }
    }
}

/// Many seeds, twice each, at two worker counts; per-run trace hashes must agree.
pub fn selftest(p: &'static Prop, seeds: u64, runs: u64) -> i32 {
    simrt::sys::silence_stderr_if(std::env::var("KSIM_STDERR").is_err());
    let mut bad = 0;
    let mut total = 0;
    for seed in 0..seeds {
        let n = runs as usize;
        let mut tables: Vec<&'static mut [u64]> = vec![];
        for workers in [1usize, 3, 8] {
            let tab: &'static mut [u64] = unsafe { std::slice::from_raw_parts_mut(simrt::sys::mmap_shared(n * 8) as *mut u64, n) };
            let mut pids = vec![];
            for wk in 0..workers {
                let pid = simrt::sys::fork_raw();
                if pid == 0 {
                    simrt::use_shared(simrt::new_shared());
                    let mut i = wk;
                    while i < n {
                        let v = execute(p, Source::Random(run_seed(seed, p.id, i as u64)), false, false);
                        let h = simrt::shared().trace_hash;
                        tab[i] = simrt::fnv(h, format!("{v:?}").as_bytes());
                        i += workers;
                    }
                    simrt::sys::exit_now(0);
                }
                pids.push(pid);
            }
            for q in pids {
                simrt::sys::wait(q);
            }
            tables.push(tab);
        }
        for i in 0..n {
            total += 1;
            if tables[0][i] != tables[1][i] || tables[0][i] != tables[2][i] || tables[0][i] == 0 {
                bad += 1;
                println!("seed {seed} run {i}: {:x} {:x} {:x}", tables[0][i], tables[1][i], tables[2][i]);
            }
        }
    }
    println!("selftest {}: {total} runs, each at 1, 3 and 8 workers, {bad} differed", p.id);
    (bad != 0) as i32
}
