//! C09: navigation of one shared value by several threads, under drawn hash seeds.
use super::*;
use kserd::nav::{Navigator, Node, NodeValue};
use kserd::{Kserd, Value};
use simrt::{count, ev, nontrivial, result, violation};

pub const C09: Prop = Prop {
    id: "C09",
    run,
    quick: 110_000,
    thorough: 3_000_000,
    wall: 30,
    rule: "Each run draws a value, hash-table seeds and an interleaving of 1 to 3 threads that build and query navigators over that one value; non-trivial when the value has at least 4 nodes.",
    real: &["kserd navigator (unmodified, from /repo)", "std HashMap with drawn seeds"],
    stub: &["OS scheduler", "OS randomness (hash seeds)", "locks (futex)"],
    assume: &["values up to a few hundred nodes, depth <= 6 (towers to 90)", "sampling: a clean batch is evidence, not proof"],
};

struct N<'a> {
    k: &'a Kserd<'a>,
    parent: Option<usize>,
    key: bool,
    pos: usize,
    vals: Vec<usize>,
    keys: Vec<usize>,
    /// one past the last index of the subtree
    end: usize,
}
/// The reference: plain recursion over the value.
fn flatten<'a>(k: &'a Kserd<'a>, parent: Option<usize>, key: bool, pos: usize, out: &mut Vec<N<'a>>) -> usize {
    let me = out.len();
    out.push(N { k, parent, key, pos, vals: vec![], keys: vec![], end: 0 });
    let (mut vals, mut keys) = (vec![], vec![]);
    match &k.val {
        Value::Tuple(l) | Value::Seq(l) => {
            for (i, x) in l.iter().enumerate() {
                vals.push(flatten(x, Some(me), false, i, out));
            }
        }
        Value::Cntr(l) => {
            for (i, x) in l.values().enumerate() {
                vals.push(flatten(x, Some(me), false, i, out));
            }
        }
        Value::Map(l) => {
            for (i, (a, b)) in l.iter().enumerate() {
                keys.push(flatten(a, Some(me), true, i, out));
                vals.push(flatten(b, Some(me), false, i, out));
            }
        }
        _ => {}
    }
    let end = out.len();
    out[me].vals = vals;
    out[me].keys = keys;
    out[me].end = end;
    me
}

fn check_node(n: &Node, i: usize, t: &[N], who: usize) -> Result<(), String> {
    let r = &t[i];
    let bad = |what: &str, got: String, want: String| Err(format!("navigator {who}, node {i}: {what} is {got}, the value has {want}"));
    if n.index() != i {
        return bad("index", n.index().to_string(), i.to_string());
    }
    if !std::ptr::eq(n.kserd() as *const Kserd as *const u8, r.k as *const Kserd as *const u8) {
        return bad("contained value", M::of(n.kserd()).digest(), M::of(r.k).digest());
    }
    let p = n.parent().map(|p| p.index());
    if p != r.parent {
        return bad("parent", format!("{p:?}"), format!("{:?}", r.parent));
    }
    if n.is_key() != r.key {
        return bad("is_key", n.is_key().to_string(), r.key.to_string());
    }
    if n.idx_in_parent() != r.pos {
        return bad("position", n.idx_in_parent().to_string(), r.pos.to_string());
    }
    let v: Vec<usize> = n.value_children().map(|x| x.index()).collect();
    if v != r.vals || n.value_children().len() != v.len() || n.value_children().is_empty() != v.is_empty() {
        return bad("value children", format!("{v:?}"), format!("{:?}", r.vals));
    }
    let v: Vec<usize> = n.key_children().map(|x| x.index()).collect();
    if v != r.keys || n.key_children().len() != v.len() || n.key_children().is_empty() != v.is_empty() {
        return bad("key children", format!("{v:?}"), format!("{:?}", r.keys));
    }
    // what an iteration says is left must be what still comes, at every step
    macro_rules! counted {
        ($s:expr, |$x:pat_param| $y:expr) => {{
            let mut s = $s;
            let mut left = vec![];
            let mut v: Vec<(String, usize)> = vec![];
            loop {
                left.push((s.len(), s.is_empty()));
                let Some($x) = s.next() else { break };
                v.push($y);
            }
            let true_left: Vec<(usize, bool)> = (0..=v.len()).rev().map(|n| (n, n == 0)).collect();
            if left != true_left {
                return bad("number of items left at each step", format!("{left:?}"), format!("{true_left:?}"));
            }
            v
        }};
    }
    let (kind, got): (&str, Vec<(String, usize)>) = match n.value() {
        NodeValue::Primitive => ("prim", vec![]),
        NodeValue::Tuple(s) => ("tuple", counted!(s, |x| (String::new(), x.index()))),
        NodeValue::Seq(s) => ("seq", counted!(s, |x| (String::new(), x.index()))),
        NodeValue::Cntr(s) => ("cntr", counted!(s, |(k, x)| (k.as_str().to_string(), x.index()))),
        NodeValue::Map(s) => ("map", counted!(s, |(k, x)| (k.index().to_string(), x.index()))),
    };
    let (wkind, want): (&str, Vec<(String, usize)>) = match &r.k.val {
        Value::Tuple(_) => ("tuple", r.vals.iter().map(|x| (String::new(), *x)).collect()),
        Value::Seq(_) => ("seq", r.vals.iter().map(|x| (String::new(), *x)).collect()),
        Value::Cntr(c) => ("cntr", c.keys().zip(&r.vals).map(|(k, x)| (k.as_str().to_string(), *x)).collect()),
        Value::Map(_) => ("map", r.keys.iter().zip(&r.vals).map(|(k, x)| (k.to_string(), *x)).collect()),
        _ => ("prim", vec![]),
    };
    if kind != wkind || got != want {
        return bad("node value", format!("{kind} {got:?}"), format!("{wkind} {want:?}"));
    }
    Ok(())
}
fn check_desc(n: &Node, i: usize, t: &[N], who: usize) -> Result<(), String> {
    let d: Vec<usize> = n.descendants_depth().iter().map(|x| x.index()).collect();
    let want: Vec<usize> = (i + 1..t[i].end).collect();
    if d != want {
        return Err(format!("navigator {who}, node {i}: descendants depth-first {d:?}, the value has {want:?}"));
    }
    let d: Vec<usize> = n.descendants_breadth().iter().map(|x| x.index()).collect();
    // level by level, and within one node's children its keys before its values
    let mut want = vec![];
    let mut todo = std::collections::VecDeque::from([i]);
    while let Some(x) = todo.pop_front() {
        for c in t[x].keys.iter().chain(&t[x].vals) {
            want.push(*c);
            todo.push_back(*c);
        }
    }
    if d != want {
        return Err(format!("navigator {who}, node {i}: descendants breadth-first {d:?}, the value has {want:?}"));
    }
    Ok(())
}

fn run() {
    sizes_up_to(1024);
    let g = Gen::swarm(6, 6);
    let m = if chance(1, 10) { gen_tower(&g, 4 + w(80)) } else if chance(1, 5) { twins(&g) } else { gen(&g, g.depth) };
    let k = m.own();
    let size = m.size();
    if size >= 4 {
        nontrivial();
    }
    let threads = 1 + w(3);
    let scripts: Vec<Vec<(u64, u64)>> = (0..threads).map(|_| (0..1 + w(8)).map(|_| (w(6), w(1 << 16))).collect()).collect();
    ev!("value of {size} nodes: {}", cut(&m.digest(), 800));
    let cfg = sched_cfg(40_000_000 + size as u64 * 200_000);
    let mut t = vec![];
    flatten(&k, None, false, 0, &mut t);
    let (t, k) = (&t, &k);
    let tasks: Vec<Box<dyn FnOnce() + Send + '_>> = scripts
        .iter()
        .enumerate()
        .map(|(who, s)| {
            let f = move || {
                let r = guard(|| session(k, t, s, who));
                match r {
                    Err(p) => violation(&panic_class(&p), &format!("navigator {who} panicked: {p}")),
                    Ok(Err(e)) => violation("view-differs", &e),
                    Ok(Ok(())) => {}
                }
            };
            Box::new(f) as Box<dyn FnOnce() + Send + '_>
        })
        .collect();
    simrt::run_tasks(cfg, tasks);
}
/// Many equal siblings: nothing but position tells them apart.
fn twins(g: &Gen) -> M {
    let x = gen(g, 1);
    let n = 2 + w(5);
    match w(3) {
        0 => m(V::Tuple(vec![x; n as usize])),
        1 => m(V::Seq(vec![m(V::Seq(vec![x; n as usize])); 1 + w(4) as usize])),
        _ => m(V::Map((0..n as u128).map(|i| (m(V::Tuple(vec![m(V::U(i)), m(V::U(i))])), x.clone())).collect())),
    }
}

fn session<'a>(k: &'a Kserd<'a>, t: &[N<'a>], script: &[(u64, u64)], who: usize) -> Result<(), String> {
    let mut nav = Navigator::new(k);
    count("op.navigator-built");
    for (op, x) in script {
        simrt::yield_point("query");
        let len = t.len();
        let i = *x as usize % len;
        match op {
            0 => {
                if nav.len() != len || nav.is_empty() {
                    return Err(format!("navigator {who} has {} nodes, the value {len}", nav.len()));
                }
                if nav.get(len + *x as usize % 5).is_some() {
                    return Err(format!("navigator {who} answers past its end"));
                }
                let r = nav.root();
                check_node(&r, 0, t, who)?;
            }
            1 => {
                let Some(n) = nav.get(i) else { return Err(format!("navigator {who} has no node {i}")) };
                check_node(&n, i, t, who)?;
                check_desc(&n, i, t, who)?;
            }
            2 => {
                let mut c = 0;
                for (j, n) in nav.nodes().enumerate() {
                    if j >= len {
                        return Err(format!("navigator {who} visits more than {len} nodes"));
                    }
                    check_node(&n, j, t, who)?;
                    c += 1;
                }
                if c != len {
                    return Err(format!("navigator {who} visits {c} of {len} nodes"));
                }
                count("probe.full-walk");
            }
            3 => {
                // walk up
                let mut n = nav.get(i).ok_or(format!("navigator {who} has no node {i}"))?;
                let mut want = t[i].parent;
                while let Some(p) = n.parent() {
                    if Some(p.index()) != want {
                        return Err(format!("navigator {who}: ancestor {} where {want:?} is expected", p.index()));
                    }
                    want = t[p.index()].parent;
                    n = p;
                }
                if want.is_some() {
                    return Err(format!("navigator {who}: no ancestor where {want:?} is expected"));
                }
            }
            4 => {
                nav = Navigator::new(k);
                count("op.navigator-built");
            }
            _ => {
                let r = nav.root();
                check_desc(&r, 0, t, who)?;
            }
        }
        result("ok");
    }
    Ok(())
}
