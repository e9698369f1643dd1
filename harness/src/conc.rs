//! Calls do not influence each other: neither earlier ones nor those that other threads make at the same time.

use crate::engine::{catch, run_case, Outcome, Rng, Src, Stop, R};
use crate::gen::{any_ty, cells, related, show, slice, try_observe, value};
use crate::types::{Ty, V};
use std::sync::Barrier;

/// The properties whose cases are histories to run here
pub fn functional(id: &str) -> bool {
    !matches!(id, "C22" | "C23" | "C24" | "C25" | "C26" | "C27" | "C28")
}

fn outcome(o: Outcome) -> String {
    match o {
        Outcome::Pass => "holds".into(),
        Outcome::Discard(d) => format!("discarded ({})", d),
        Outcome::Fail(m) => format!("fails ({})", m),
        Outcome::HarnessError(m) => panic!("{}", m),
    }
}

/// Runs `f(thread)` on several threads that start together
fn together<T: Send>(n: usize, f: impl Fn(usize) -> T + Sync) -> Vec<T> {
    let gate = Barrier::new(n);
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (f, gate) = (&f, &gate);
                sc.spawn(move || {
                    gate.wait();
                    f(t)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("a thread of the harness")).collect()
    })
}

fn threads(src: &mut Src) -> usize {
    if cfg!(miri) {
        2
    } else {
        2 + src.below(2)
    }
}

fn rounds(src: &mut Src) -> usize {
    if cfg!(miri) {
        1
    } else {
        1 + src.below(12)
    }
}

fn pick(src: &mut Src) -> usize {
    let w: Vec<usize> = crate::PROPS
        .iter()
        .map(|p| match p.id {
            id if !functional(id) => 0,
            "C04" | "C16" => 1,
            _ => 6,
        })
        .collect();
    src.weighted(&w)
}

/// Cases that several threads meet at the same time, without anybody having met them before
fn cold(src: &mut Src) -> R {
    let props = crate::PROPS;
    let k = 1 + src.below(if cfg!(miri) { 2 } else { 6 });
    let list: Vec<(usize, u64)> = (0..k).map(|_| (pick(src), src.upto(u32::MAX as u64))).collect();
    let n = if cfg!(miri) { 2 } else { 2 + src.below(5) };
    for l in &list {
        src.label(props[l.0].id);
    }
    src.label("cold start");
    src.nontrivial = true;
    src.note(|| format!("{} cases ({}) on {} threads at once", k, list.iter().map(|l| props[l.0].id).collect::<Vec<_>>().join(", "), n));
    let once = |i: usize| outcome(run_case(props[list[i].0].f, &mut Src::random(Rng::new(list[i].1))));
    let all = together(n, |_| (0..k).map(once).collect::<Vec<_>>());
    let after: Vec<String> = (0..k).map(once).collect();
    for (t, mine) in all.iter().enumerate() {
        for i in 0..k {
            ensure!(mine[i] == after[i], "a case of {} {} on thread {} of {} and {} afterwards", props[list[i].0].id, mine[i], t + 1, n, after[i]);
        }
    }
    Ok(())
}

/// A short history of cases of the other properties: alone, then on several threads at once, each in an order of its own
fn histories(src: &mut Src) -> R {
    let props = crate::PROPS;
    let k = 1 + src.below(if cfg!(miri) { 2 } else { 3 });
    let mut list: Vec<(usize, Vec<u64>, String)> = Vec::new();
    for i in 0..k {
        // often the same kind of call with other arguments
        let p = if i > 0 && src.chance(1, 2) { list[0].0 } else { pick(src) };
        let (from, labels, nontrivial) = (src.rec.len(), src.labels.len(), src.nontrivial);
        let first = outcome(run_case(props[p].f, src));
        src.labels.truncate(labels);
        src.label(props[p].id);
        src.nontrivial |= nontrivial;
        list.push((p, src.rec[from..].to_vec(), first));
    }
    let n = threads(src);
    let r = rounds(src);
    let turn = src.below(k);
    src.label("histories");
    src.note(|| format!("{} cases ({}) on {} threads, {} times", k, list.iter().map(|l| props[l.0].id).collect::<Vec<_>>().join(", "), n, r));
    let bad = together(n, |t| {
        for round in 0..r {
            for i in 0..k {
                let (p, choices, first) = &list[(i + t * turn + round) % k];
                let mut s = Src::replay(choices);
                let now = outcome(run_case(props[*p].f, &mut s));
                if now != *first {
                    return Some(format!("a case of {} {}, but run again on thread {} of {} it {}", props[*p].id, first, t + 1, n, now));
                }
            }
        }
        None
    });
    match bad.into_iter().flatten().next() {
        Some(m) => Err(Stop::Fail(m)),
        None => Ok(()),
    }
}

/// Lets several threads use one index by reference; the type is known to allow it
struct Shared<'a>(&'a V, &'a V);
unsafe impl Sync for Shared<'_> {}

struct Looks {
    ext: Vec<u8>,
    up: usize,
    depth: usize,
    order: u8,
    target: Option<&'static Ty>,
    skip: usize,
}

const LOOKS: usize = 14;

fn seen(v: Option<V>) -> String {
    match v {
        None => "none".into(),
        Some(v) => match try_observe(&v) {
            Ok(c) => show(&c),
            Err(p) => format!("unreadable: {}", p.msg),
        },
    }
}

fn look(i: usize, v: &V, o: &V, p: &Looks) -> String {
    let f = || match i {
        0 => show(&(0..v.depth()).map(|l| v.get(l)).collect::<Vec<_>>()),
        1 => show(&v.iter()),
        2 => format!("{:x?}", v.hashes()),
        3 => format!("{} {:?} {:?}", v.eq(o.as_ref()), v.cmp(o.as_ref()), v.ops(o.as_ref())),
        4 => seen(v.ancestor(p.up)),
        5 => seen(v.parent()),
        6 => seen(v.with_depth(p.depth)),
        7 => seen(v.descendant(&p.ext)),
        8 => seen(Some(v.inverted())),
        9 => format!("{:x?}", v.to_grid(p.order)),
        10 => format!("{} {}", v.name(0), v.name(1)),
        11 => match p.target.and_then(|t| v.convert(t)) {
            Some(Ok(x)) => seen(Some(x)),
            Some(Err(e)) => format!("{:?}", e),
            None => "none".into(),
        },
        12 => seen(Some(v.dup())),
        _ => format!("{:?}", v.iter_probe(p.skip)),
    };
    match catch(f) {
        Ok(s) => s,
        // an index too large for the coordinates, say
        Err(p) => format!("panic: {}", p.msg),
    }
}

/// One index read by several threads at once
fn sharing(src: &mut Src) -> R {
    let ty = any_ty(src);
    src.label("sharing");
    ensure!(ty.shareable, "{}: indices cannot be sent to or shared with other threads", ty.name);
    let (v, m) = value(src, ty)?;
    if v.depth() > 400 && cfg!(miri) {
        return Err(Stop::Discard("too slow under the interpreter"));
    }
    let other = related(src, ty, &m);
    let o = slice(ty, &other)?;
    let targets = ty.targets(0);
    let left = ty.cap().saturating_sub(m.len());
    let k = src.below(left.min(6) + 1);
    let p = Looks {
        ext: cells(src, ty.dim, k),
        up: 1 + src.below(m.len() + 1),
        depth: src.below(m.len() + 2),
        order: src.below(if ty.dim == 2 { 2 } else { 6 }) as u8,
        target: Some(targets[src.below(targets.len())]),
        skip: src.below(m.len() + 2),
    };
    let n = threads(src);
    let r = rounds(src);
    let stride = [1, 3, 5, 9][src.below(4)];
    src.nontrivial = crate::props::varied(&m);
    src.note(|| format!("{} {} read by {} threads, {} times", ty.name, show(&m), n, r));
    // what a copy shows when nobody else is there
    let (lone, lone_o) = (v.dup(), o.dup());
    let want: Vec<String> = (0..LOOKS).map(|i| look(i, &lone, &lone_o, &p)).collect();
    let shared = Shared(&v, &o);
    let bad = together(n, |t| {
        let shared = &shared;
        for _ in 0..r {
            for i in 0..LOOKS {
                let i = (i * if t == 0 { 1 } else { stride } + 4 * t) % LOOKS;
                let now = look(i, shared.0, shared.1, &p);
                if now != want[i] {
                    return Some(format!("{} {}: look {} shows {} when alone, and {} on thread {} of {}", ty.name, show(&m), i, want[i], now, t + 1, n));
                }
            }
        }
        None
    });
    if let Some(m) = bad.into_iter().flatten().next() {
        return Err(Stop::Fail(m));
    }
    ensure!(v.eq(lone.as_ref()) && seen(Some(v.dup())) == want[12], "{} {}: changed by being read", ty.name, show(&m));
    Ok(())
}

pub fn c24(src: &mut Src) -> R {
    if src.small() {
        return Err(Stop::Discard("not enumerated"));
    }
    match src.below(3) {
        0 => histories(src),
        1 => sharing(src),
        _ => cold(src),
    }
}
