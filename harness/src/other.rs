//! Scenarios about entities, ordering, registration and parallel iteration.
use crate::comps::*;
use crate::model::Rng;
use crate::queries::Fail;
use crate::{phase, trace};
use rayon::iter::{IndexedParallelIterator, ParallelIterator};
use sparsey::component::{ComponentData, GroupLayout};
use sparsey::entity::Version;
use sparsey::query::ParIter;
use sparsey::{Entity, World};
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::num::NonZeroU32;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Out = (usize, Vec<Fail>);
fn fail(f: &mut Vec<Fail>, t: &[&'static str], s: String) {
    f.push((t.to_vec(), s));
}

/// Entity operations only, long histories.
pub fn entities(mut r: Rng) -> Out {
    let mut f = vec![];
    let mut w = World::default();
    let (mut live, mut pending, mut dead): (Vec<Entity>, Vec<Entity>, Vec<Entity>) = (vec![], vec![], vec![]);
    let mut issued: HashSet<Entity> = HashSet::new();
    let steps = 30 + r.below(200);
    let bias = r.below(3);
    for n in 0..steps {
        let x = r.below(20);
        let what;
        match x {
            0..=4 => {
                what = "create";
                phase(&["E01", "E02"], what);
                let es: Vec<Entity> = if x == 4 {
                    w.extend((0..r.below(5)).map(|_| ())).to_vec()
                } else {
                    vec![w.create(())]
                };
                for e in es {
                    if !issued.insert(e) {
                        fail(&mut f, &["E01"], format!("{e:?} is created a second time"));
                    }
                    live.push(e);
                }
            }
            5..=8 => {
                what = "create_atomic";
                phase(&["E03", "E04"], what);
                for _ in 0..1 + r.below(3) {
                    let e = w.create_atomic();
                    if !issued.insert(e) {
                        fail(&mut f, &["E01", "E04"], format!("{e:?} is created a second time (deferred)"));
                    }
                    pending.push(e);
                }
            }
            9..=14 => {
                what = "destroy";
                phase(&["E02"], what);
                let e = if !live.is_empty() && r.chance(5, 6) {
                    match bias {
                        0 => live[live.len() - 1],
                        1 => live[0],
                        _ => *r.pick(&live),
                    }
                } else if !dead.is_empty() && r.chance(1, 2) {
                    *r.pick(&dead)
                } else if !pending.is_empty() {
                    *r.pick(&pending)
                } else {
                    continue;
                };
                let was = live.iter().position(|x| *x == e);
                if let Some(i) = was {
                    live.swap_remove(i);
                    dead.push(e);
                }
                if w.destroy(e) != was.is_some() {
                    let t: &[&'static str] = if was.is_some() { &["E02"] } else { &["E02", "E05"] };
                    fail(&mut f, t, format!("destroy({e:?}) is not {}", was.is_some()));
                }
            }
            15..=17 => {
                what = "maintain";
                phase(&["E03"], what);
                w.maintain();
                live.append(&mut pending);
            }
            18 if r.chance(1, 3) => {
                what = "clear";
                phase(&["C02"], what);
                w.clear();
                dead.append(&mut live);
                dead.append(&mut pending);
            }
            19 if r.chance(1, 4) => {
                what = "reset";
                phase(&["C02"], what);
                w.reset();
                live.clear();
                pending.clear();
                dead.clear();
                issued.clear();
            }
            _ => continue,
        }
        trace(&format!("{n}: {what} live {} pending {}", live.len(), pending.len()));
        let got: BTreeSet<Entity> = w.entities().iter().copied().collect();
        let want: BTreeSet<Entity> = live.iter().copied().collect();
        if got != want || w.entities().len() != want.len() || w.is_empty() != want.is_empty() {
            let mut t = vec!["E02"];
            if ["maintain", "create_atomic"].contains(&what) || pending.iter().any(|e| got.contains(e)) {
                t.push("E03");
            }
            if what == "clear" || what == "reset" {
                t.push("C02");
            }
            f.push((t, format!("after {what}: entities are {:?}, expected {want:?}", w.entities())));
        }
        for e in &live {
            if !w.contains_entity(*e) {
                fail(&mut f, &["E02"], format!("after {what}: live {e:?} is not contained"));
                break;
            }
        }
        for e in dead.iter().chain(&pending) {
            if !want.contains(e) && w.contains_entity(*e) {
                let mut t = vec!["E02", "E05"];
                if what == "maintain" || pending.contains(e) {
                    t.push("E03");
                }
                f.push((t, format!("after {what}: {e:?} is contained although it is not live")));
                break;
            }
        }
        if !f.is_empty() {
            break;
        }
    }
    (steps, f)
}

/// Concurrent deferred creation.
pub fn threads(mut r: Rng) -> Out {
    let mut f = vec![];
    let mut w = World::default();
    let mut issued: HashSet<Entity> = HashSet::new();
    let mut live: BTreeSet<Entity> = BTreeSet::new();
    let rounds = 2 + r.below(5);
    for round in 0..rounds {
        phase(&["E04"], "prepare");
        let n = r.below(120);
        let es: Vec<Entity> = w.extend((0..n).map(|_| ())).to_vec();
        for e in &es {
            if !issued.insert(*e) {
                fail(&mut f, &["E01"], format!("{e:?} is created twice"));
            }
            live.insert(*e);
        }
        if r.chance(1, 2) {
            // leave some deferred entities and direct creations in between
            for _ in 0..r.below(4) {
                let e = w.create_atomic();
                if !issued.insert(e) {
                    fail(&mut f, &["E01", "E04"], format!("{e:?} is created twice"));
                }
            }
            w.clear();
            live.clear();
            let es: Vec<Entity> = w.extend((0..n).map(|_| ())).to_vec();
            for e in &es {
                if !issued.insert(*e) {
                    fail(&mut f, &["E01"], format!("{e:?} is created twice"));
                }
                live.insert(*e);
            }
        }
        for e in live.clone() {
            if r.chance(2, 3) {
                w.destroy(e);
                live.remove(&e);
            }
        }
        phase(&["E04"], "threads");
        let (nt, per) = (2 + r.below(7), 1 + r.below(200));
        let barrier = std::sync::Barrier::new(nt);
        let wr = &w;
        let got: Vec<Option<Vec<Entity>>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..nt)
                .map(|_| {
                    s.spawn(|| {
                        barrier.wait();
                        (0..per).map(|_| wr.create_atomic()).collect::<Vec<_>>()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().ok()).collect()
        });
        let mut fresh: BTreeSet<Entity> = BTreeSet::new();
        for g in &got {
            let Some(g) = g else {
                fail(&mut f, &["E04"], "a concurrent create_atomic panics".into());
                continue;
            };
            for e in g {
                if !issued.insert(*e) {
                    fail(&mut f, &["E04", "E01"], format!("{e:?} is handed out twice"));
                    return (round, f);
                }
                if w.contains_entity(*e) {
                    fail(&mut f, &["E04", "E03"], format!("{e:?} is live before maintain"));
                }
                fresh.insert(*e);
            }
        }
        phase(&["E04", "E03"], "maintain");
        w.maintain();
        live.append(&mut fresh);
        let now: BTreeSet<Entity> = w.entities().iter().copied().collect();
        if now != live || w.entities().len() != live.len() || live.iter().any(|e| !w.contains_entity(*e)) {
            fail(&mut f, &["E04", "E03", "E02"], format!("after maintain {} entities are live, expected {}", w.entities().len(), live.len()));
        }
        if !f.is_empty() {
            break;
        }
    }
    (rounds, f)
}

fn ver(n: u32) -> Version {
    Version(NonZeroU32::new(n.max(1)).unwrap())
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
pub fn order(mut r: Rng) -> Out {
    use std::cmp::Ordering::*;
    let mut f = vec![];
    phase(&["O01"], "order");
    let nums = [0u32, 1, 2, 3, 255, 256, 65535, 65536, 0x7FFF_FFFF, 0x8000_0000, u32::MAX - 1, u32::MAX];
    let mut es = vec![];
    for _ in 0..24 {
        let mut n = || if r.chance(2, 3) { nums[r.below(nums.len())] } else { r.next() as u32 };
        let (i, v) = (n(), n());
        es.push(Entity::new(i, ver(v)));
    }
    es.push(Entity::with_index(7));
    if Entity::with_index(7) != Entity::new(7, ver(1)) || Version::default() != Version::FIRST || Version::FIRST != ver(1) || Version::LAST != ver(u32::MAX) {
        fail(&mut f, &["O01"], "constructors disagree".into());
    }
    for a in &es {
        let nx = a.version.next();
        let want = a.version.0.get().checked_add(1).map(ver);
        if nx != want {
            fail(&mut f, &["O01", "E01"], format!("the successor of version {:?} is {nx:?}", a.version));
        }
        if let Some(nx) = nx {
            if !(a.version < nx) || Entity::new(a.index, nx) == *a {
                fail(&mut f, &["O01"], format!("{:?} does not order before its successor", a.version));
            }
        }
        for b in &es {
            let eq = a.index == b.index && a.version.0 == b.version.0;
            let c = a.cmp(b);
            if (a == b) != eq || (c == Equal) != eq || a.partial_cmp(b) != Some(c) || b.cmp(a) != c.reverse() || (eq && hash(a) != hash(b)) {
                fail(&mut f, &["O01"], format!("{a:?} and {b:?}: eq {} cmp {c:?} reverse {:?}", a == b, b.cmp(a)));
            }
            if (a < b) != (c == Less) || (a >= b) != (c != Less) || a.max(b) != (if c == Greater { a } else { b }) {
                fail(&mut f, &["O01"], format!("{a:?} and {b:?}: operators disagree with cmp"));
            }
            let vc = a.version.cmp(&b.version);
            if vc != a.version.0.cmp(&b.version.0) || (a.version == b.version) != (vc == Equal) {
                fail(&mut f, &["O01"], format!("versions of {a:?} and {b:?} compare {vc:?}"));
            }
            for d in &es {
                if c != Greater && b.cmp(d) != Greater && a.cmp(d) == Greater {
                    fail(&mut f, &["O01"], format!("not transitive: {a:?} {b:?} {d:?}"));
                }
            }
        }
        if !f.is_empty() {
            break;
        }
    }
    (1, f)
}

/// Unregistered types are refused, registered ones accepted, in any order.
pub fn register(mut r: Rng) -> Out {
    let mut f = vec![];
    let mut layout = GroupLayout::default();
    let mut reg: BTreeSet<usize> = BTreeSet::new();
    if r.chance(1, 2) {
        layout.add_group::<(C0, C1)>();
        reg.extend([0, 1]);
        if r.chance(1, 2) {
            layout.add_group::<(C2, C0, C1)>();
            reg.insert(2);
        }
    }
    if r.chance(1, 3) {
        layout.add_group::<(C4, C5)>();
        reg.extend([4, 5]);
    }
    phase(&["R01"], "build");
    let mut b = World::builder();
    b.set_layout(layout.clone());
    for k in 0..8 {
        if r.chance(1, 4) {
            crate::with_comp!(k, C => { if r.chance(1, 2) { b.register::<C>(); } else { b.register_dyn(ComponentData::new::<C>()); } });
            reg.insert(k);
        }
    }
    let mut w = b.build();
    let mut e: Vec<(Entity, BTreeSet<usize>)> = vec![];
    let probe = |w: &World, reg: &BTreeSet<usize>, e: &[(Entity, BTreeSet<usize>)], f: &mut Vec<Fail>, at: &str| {
        for k in 0..NK {
            crate::with_comp!(k, C => {
                let want = reg.contains(&k);
                if w.is_registered::<C>() != want || w.is_registered_dyn(ComponentData::new::<C>().type_id()) != want {
                    fail(f, &["R01"], format!("{at}: type {k} registered is not {want}"));
                }
                let q = catch_unwind(AssertUnwindSafe(|| {
                    w.query_all::<&C>().iter().count()
                }));
                let v = catch_unwind(AssertUnwindSafe(|| w.borrow::<C>().len()));
                let n = e.iter().filter(|x| x.1.contains(&k)).count();
                match (q, v, want) {
                    (Ok(a), Ok(b), true) if a == n && b == n => {}
                    (Err(_), Err(_), false) => {}
                    (a, b, _) => fail(f, &["R01"], format!("{at}: type {k} (registered: {want}) has {a:?}/{b:?} components, expected {n}")),
                }
            });
        }
        for (x, ks) in e {
            for k in reg {
                crate::with_comp!(*k, C => {
                    let got = w.borrow::<C>().get(*x).map(|c| c.val());
                    let want = ks.contains(k).then(|| C::canon(7 + *k as u64));
                    if got != want {
                        fail(f, &["R01"], format!("{at}: component {k} of {x:?} is {got:?}, expected {want:?}"));
                    }
                });
            }
        }
    };
    probe(&w, &reg, &e, &mut f, "built");
    let steps = 4 + r.below(14);
    for _ in 0..steps {
        let k = r.below(NK);
        let op = r.below(5);
        let at;
        match op {
            0 | 1 => {
                at = format!("register {k}");
                phase(&["R01"], &at);
                let got = crate::with_comp!(k, C => if op == 0 { w.register::<C>() } else { w.register_dyn(ComponentData::new::<C>()) });
                if got != reg.insert(k) {
                    fail(&mut f, &["R01"], format!("{at} returned {got}"));
                }
            }
            2 => {
                at = format!("create with {k}");
                phase(&["R01", "C01"], &at);
                let x = catch_unwind(AssertUnwindSafe(|| crate::with_comp!(k, C => w.create((C::make(7 + k as u64),)))));
                match x {
                    Ok(x) if reg.contains(&k) => e.push((x, BTreeSet::from([k]))),
                    Ok(x) => fail(&mut f, &["R01"], format!("{at} (unregistered) returned {x:?}")),
                    Err(_) if reg.contains(&k) => fail(&mut f, &["R01"], format!("{at} panics: {}", crate::panic_msg())),
                    Err(_) => {}
                }
            }
            3 if !e.is_empty() => {
                let i = r.below(e.len());
                at = format!("insert {k}");
                phase(&["R01", "C01"], &at);
                let x = catch_unwind(AssertUnwindSafe(|| crate::with_comp!(k, C => w.insert(e[i].0, (C::make(7 + k as u64),)))));
                match x {
                    Ok(true) if reg.contains(&k) => {
                        e[i].1.insert(k);
                    }
                    Err(_) if !reg.contains(&k) => {}
                    x => fail(&mut f, &["R01"], format!("{at} (registered: {}) gives {x:?}", reg.contains(&k))),
                }
            }
            4 if !e.is_empty() => {
                let i = r.below(e.len());
                at = format!("delete {k}");
                phase(&["R01", "C01"], &at);
                let rem = r.chance(1, 2);
                let x = catch_unwind(AssertUnwindSafe(|| crate::with_comp!(k, C => if rem { drop(w.remove::<(C,)>(e[i].0)) } else { w.delete::<(C,)>(e[i].0) })));
                match x {
                    Ok(()) if reg.contains(&k) => {
                        e[i].1.remove(&k);
                    }
                    Err(_) if !reg.contains(&k) => {}
                    x => fail(&mut f, &["R01"], format!("{at} (registered: {}) gives {x:?}", reg.contains(&k))),
                }
            }
            _ => continue,
        }
        trace(&at);
        probe(&w, &reg, &e, &mut f, &at);
        if !f.is_empty() {
            break;
        }
    }
    (steps, f)
}

/// Parallel iteration over larger populations with every split.
pub fn par(mut r: Rng) -> Out {
    let mut f = vec![];
    phase(&["Q05"], "par");
    let mut b = World::builder();
    if r.chance(2, 3) {
        b.add_group::<(C1, C7)>();
        if r.chance(1, 2) {
            b.add_group::<(C1, C7, C5)>();
        }
    }
    for k in 0..8 {
        crate::with_comp!(k, C => b.register::<C>());
    }
    let mut w = b.build();
    let n = r.below(3000);
    for i in 0..n as u64 {
        match r.below(5) {
            0 => w.create((C1::make(i),)),
            1 => w.create((C7::make(i), C1::make(i))),
            2 => w.create((C1::make(i), C5::make(i), C7::make(i))),
            3 => w.create((C5::make(i), C1::make(i))),
            _ => w.create((C7::make(i), C2::make(i))),
        };
    }
    macro_rules! go {
        ($name:expr, $q:expr, $map:expr) => {{
            let mut q = $q;
            let seq: Vec<_> = q.iter().map($map).collect();
            let mut s = seq.clone();
            s.sort();
            for _ in 0..3 {
                let mut p: Vec<_> = q.par_iter().map($map).collect();
                p.sort();
                if p != s {
                    fail(&mut f, &["Q05"], format!("{}: parallel yields {} items, sequential {}", $name, p.len(), s.len()));
                }
            }
            let c = std::sync::atomic::AtomicUsize::new(0);
            q.par_for_each(|_| {
                c.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            });
            if c.into_inner() != s.len() {
                fail(&mut f, &["Q05"], format!("{}: par_for_each visits another number of items than {}", $name, s.len()));
            }
            if let ParIter::Dense(d) = q.par_iter() {
                let m = 1 + r.below(200);
                let mut v = vec![];
                let l = d.len();
                d.with_min_len(m).map($map).collect_into_vec(&mut v);
                if l != seq.len() || v != seq {
                    fail(&mut f, &["Q05"], format!("{}: indexed parallel iteration differs (length {l})", $name));
                }
                if let ParIter::Dense(d) = q.par_iter() {
                    let v: Vec<_> = d.map($map).skip(m).step_by(3).collect();
                    let x: Vec<_> = seq.iter().skip(m).step_by(3).cloned().collect();
                    if v != x {
                        fail(&mut f, &["Q05"], format!("{}: skipping parallel iteration differs", $name));
                    }
                }
            }
        }};
    }
    go!("(Entity, &C1)", w.query_all::<(Entity, &C1)>(), |(e, c): (Entity, &C1)| (e, c.val()));
    go!("(Entity, &C1, &C7)", w.query_all::<(Entity, &C1, &C7)>(), |(e, c, d): (Entity, &C1, &C7)| (e, c.val(), d.val()));
    go!("(Entity, &C1, &C7) - C5", w.query_all::<(Entity, &C1, &C7)>().exclude::<&C5>(), |(e, c, d): (Entity, &C1, &C7)| (e, c.val(), d.val()));
    go!("(Entity, &C5) + C1", w.query_all::<(Entity, &C5)>().include::<&C1>(), |(e, c): (Entity, &C5)| (e, c.val()));
    go!("(Entity, Option<&C2>, &C7) - C1", w.query_all::<(Entity, Option<&C2>, &C7)>().exclude::<&C1>(), |(e, c, d): (Entity, Option<&C2>, &C7)| (e, c.is_some(), d.val()));
    (1, f)
}
