//! Group layouts: which collections of groups are accepted, and that they then are what was asked for.
use crate::comps::*;
use crate::diff::data;
use crate::model::Rng;
use crate::queries::Fail;
use crate::{phase, trace};
use sparsey::component::{ComponentData, GroupLayout};
use sparsey::{Entity, World};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Set = BTreeSet<usize>;
/// Would the group be accepted, and does it add anything?
fn accepts(groups: &BTreeSet<Set>, g: &Set) -> Option<bool> {
    if g.len() < 2 {
        return Some(false);
    }
    if g.len() > 16 {
        return None;
    }
    for o in groups {
        if !(o.is_disjoint(g) || o.is_subset(g) || g.is_subset(o)) {
            return None;
        }
    }
    // nested groups must form one chain
    let sub: Vec<&Set> = groups.iter().filter(|o| o.is_subset(g)).collect();
    for a in &sub {
        for b in &sub {
            if a.is_disjoint(b) {
                return None;
            }
        }
    }
    // siblings inside the same superset
    for o in groups {
        if g.is_subset(o) && groups.iter().any(|x| x.is_subset(o) && x.is_disjoint(g)) {
            return None;
        }
    }
    Some(!groups.contains(g))
}

macro_rules! subsets {
    ($(($($c:ident $i:literal),*)),* $(,)?) => {
        /// Which of the sets are groups of the world, seen from outside.
        fn grouped(w: &World) -> BTreeSet<Set> {
            let mut out = BTreeSet::new();
            $(
                if w.query_all::<Entity>().include::<($(&$c,)*)>().slice().is_some() {
                    out.insert(BTreeSet::from([$($i),*]));
                }
            )*
            out
        }
    };
}
subsets! {
    (C0 0, C1 1), (C0 0, C2 2), (C0 0, C3 3), (C0 0, C4 4), (C1 1, C2 2), (C1 1, C3 3), (C1 1, C4 4), (C2 2, C3 3), (C2 2, C4 4), (C3 3, C4 4),
    (C0 0, C1 1, C2 2), (C0 0, C1 1, C3 3), (C0 0, C1 1, C4 4), (C0 0, C2 2, C3 3), (C0 0, C2 2, C4 4), (C0 0, C3 3, C4 4),
    (C1 1, C2 2, C3 3), (C1 1, C2 2, C4 4), (C1 1, C3 3, C4 4), (C2 2, C3 3, C4 4),
    (C0 0, C1 1, C2 2, C3 3), (C0 0, C1 1, C2 2, C4 4), (C0 0, C1 1, C3 3, C4 4), (C0 0, C2 2, C3 3, C4 4), (C1 1, C2 2, C3 3, C4 4),
    (C0 0, C1 1, C2 2, C3 3, C4 4),
    (C5 5, C6 6), (C5 5, C7 7), (C6 6, C7 7), (C5 5, C6 6, C7 7),
}

pub fn run(mut r: Rng) -> (usize, Vec<Fail>) {
    let mut f: Vec<Fail> = vec![];
    let mut l = GroupLayout::default();
    let mut groups: BTreeSet<Set> = BTreeSet::new();
    let n = 1 + r.below(6);
    let chains = r.chance(2, 3);
    let mut perm: Vec<usize> = (0..5).collect();
    for i in (1..5).rev() {
        perm.swap(i, r.below(i + 1));
    }
    let mut log = vec![];
    for _ in 0..n {
        let mut g: Vec<usize> = if chains && r.chance(9, 10) {
            if r.chance(1, 4) {
                let p = [6, 7, 5];
                p[..2 + r.below(2)].to_vec()
            } else {
                perm[..1 + r.below(5)].to_vec()
            }
        } else {
            (0..1 + r.below(5)).map(|_| r.below(8)).collect()
        };
        for i in (1..g.len()).rev() {
            g.swap(i, r.below(i + 1));
        }
        if r.chance(1, 4) && !g.is_empty() {
            let x = *r.pick(&g);
            g.push(x);
        }
        let set: Set = g.iter().copied().collect();
        let want = accepts(&groups, &set);
        log.push(format!("{g:?}"));
        trace(&format!("add {g:?}, expected {want:?}"));
        phase(&[if want.is_some() { "L01" } else { "L02" }], "add_group");
        let v: Vec<ComponentData> = g.iter().map(|k| data(*k)).collect();
        let got = catch_unwind(AssertUnwindSafe(|| l.add_group_dyn(&v)));
        match (got, want) {
            (Ok(()), Some(new)) => {
                if new {
                    groups.insert(set);
                }
            }
            (Err(_), None) => {
                // what is left of the layout after the panic is not specified
                l = GroupLayout::default();
                groups.clear();
                log.clear();
            }
            (Ok(()), None) => {
                f.push((vec!["L02"], format!("incompatible group accepted: {}", log.join(" "))));
                break;
            }
            (Err(_), Some(_)) => {
                f.push((vec!["L01"], format!("compatible group rejected: {} ({})", log.join(" "), crate::panic_msg())));
                break;
            }
        }
        phase(&["L01"], "build");
        let b = catch_unwind(AssertUnwindSafe(|| {
            let mut w = World::new(&l);
            for k in 0..8 {
                w.register_dyn(data(k));
            }
            let seen = grouped(&w);
            let reg = l.clone();
            let w2 = World::new(&reg);
            let named: Set = (0..8).filter(|k| crate::with_comp!(*k, C => w2.is_registered::<C>())).collect();
            (seen, named)
        }));
        let all: Set = groups.iter().flatten().copied().collect();
        match b {
            Ok((seen, named)) => {
                let groups: BTreeSet<Set> = groups.iter().filter(|g| g.iter().all(|k| *k < 5) || g.iter().all(|k| *k >= 5)).cloned().collect();
                if seen != groups {
                    let mut t = vec!["L01"];
                    if !seen.is_superset(&groups) {
                        t.push("L02");
                    }
                    f.push((t, format!("the layout {} has groups {seen:?}, expected {groups:?}", log.join(" "))));
                }
                if named != all {
                    f.push((vec!["R01", "L01"], format!("the layout {} registers {named:?}, expected {all:?}", log.join(" "))));
                }
            }
            Err(_) => f.push((vec!["L01"], format!("the layout {} cannot be used: {}", log.join(" "), crate::panic_msg()))),
        }
        if !f.is_empty() {
            break;
        }
    }
    (n, f)
}

fn wide(n: usize) -> Vec<ComponentData> {
    macro_rules! all {
        ($($a:literal $b:literal $c:literal $d:literal),*) => {
            vec![$(ComponentData::new::<N<{ 100 + $a }>>(), ComponentData::new::<N<{ 100 + $b }>>(), ComponentData::new::<N<{ 100 + $c }>>(), ComponentData::new::<N<{ 100 + $d }>>()),*]
        };
    }
    let mut v = all!(
        0 1 2 3, 4 5 6 7, 8 9 10 11, 12 13 14 15, 16 17 18 19, 20 21 22 23, 24 25 26 27, 28 29 30 31, 32 33 34 35, 36 37 38 39,
        40 41 42 43, 44 45 46 47, 48 49 50 51, 52 53 54 55, 56 57 58 59, 60 61 62 63, 64 65 66 67, 68 69 70 71, 72 73 74 75, 76 77 78 79,
        80 81 82 83, 84 85 86 87, 88 89 90 91, 92 93 94 95, 96 97 98 99, 100 101 102 103, 104 105 106 107, 108 109 110 111, 112 113 114 115,
        116 117 118 119, 120 121 122 123, 124 125 126 127
    );
    v.truncate(n);
    v
}

/// The declared limits: 16 components per group, 64 groups.
pub fn limits(mut r: Rng) -> (usize, Vec<Fail>) {
    let mut f: Vec<Fail> = vec![];
    let all = wide(128);
    match r.below(4) {
        0 => {
            let k = 2 + r.below(18);
            phase(&[if k <= 16 { "L01" } else { "L02" }], "wide group");
            let got = catch_unwind(AssertUnwindSafe(|| {
                let mut l = GroupLayout::default();
                l.add_group_dyn(&all[..k]);
                let w = World::new(&l);
                all.iter().filter(|c| w.is_registered_dyn(c.type_id())).count()
            }));
            match got {
                Ok(n) if k <= 16 && n == k => {}
                Err(_) if k > 16 => {}
                x => f.push((vec![if k <= 16 { "L01" } else { "L02" }], format!("a group of {k} components: {:?} {}", x.ok(), crate::panic_msg()))),
            }
        }
        1 => {
            // a chain of 15 nested groups, in some order
            let mut ar: Vec<usize> = (2..=16).collect();
            for i in (1..ar.len()).rev() {
                ar.swap(i, r.below(i + 1));
            }
            phase(&["L01"], "chain");
            let got = catch_unwind(AssertUnwindSafe(|| {
                let mut l = GroupLayout::default();
                for a in &ar {
                    l.add_group_dyn(&all[..*a]);
                }
                World::new(&l).is_empty()
            }));
            if got.is_err() {
                f.push((vec!["L01"], format!("nested groups of sizes {ar:?} are rejected: {}", crate::panic_msg())));
            }
        }
        2 => {
            let n = if r.chance(1, 2) { 64 } else { 50 + r.below(15) };
            phase(&["L01"], "many groups");
            let got = catch_unwind(AssertUnwindSafe(|| {
                let mut l = GroupLayout::default();
                let chains = r.chance(1, 2);
                let mut i = 0;
                let mut k = 0;
                while i < n {
                    l.add_group_dyn(&all[k..k + 2]);
                    i += 1;
                    if chains && i < n && k + 4 <= 128 {
                        l.add_group_dyn(&all[k..k + 3]);
                        i += 1;
                        k += 1;
                    }
                    k += 2;
                }
                let mut w = World::new(&l);
                for c in &all {
                    w.register_dyn(*c);
                }
                probe_last(&mut w)
            }));
            match got {
                Ok(true) => {}
                Ok(false) => f.push((vec!["L01", "G01"], format!("a layout with {n} groups does not group"))),
                Err(_) => f.push((vec!["L01"], format!("a layout with {n} groups is rejected: {}", crate::panic_msg()))),
            }
        }
        _ => {
            // 16 grouped components behave like a group
            phase(&["L01", "G01"], "full group");
            let got = catch_unwind(AssertUnwindSafe(|| {
                let mut l = GroupLayout::default();
                let k = 14 + r.below(3);
                l.add_group_dyn(&(0..k).map(data).collect::<Vec<_>>());
                let mut w = World::new(&l);
                for k in 0..NK {
                    w.register_dyn(data(k));
                }
                let a = w.create((C0::make(1),));
                let b = w.create((
                    C15::make(1), C14::make(1), C13::make(1), C12::make(1), C11::make(1), C10::make(1), C9::make(1), C8::make(1),
                    C7::make(1), C6::make(1), C5::make(1), C4::make(1), C3::make(1), C2::make(1), C1::make(1), C0::make(1),
                ));
                let mut q = w.query_all::<Entity>().include::<(&C0, &C1, &C2, &C3, &C4, &C5, &C6, &C7, &C8, &C9, &C10, &C11, &C12, &C13, &C14, &C15)>();
                let ok = if k == 16 { q.slice() == Some(&[b][..]) } else { q.slice().is_none() };
                let items: Vec<Entity> = q.iter().collect();
                ok && items == [b] && w.contains::<&C0>(a)
            }));
            match got {
                Ok(true) => {}
                Ok(false) => f.push((vec!["L01", "G01"], "a group of 14 to 16 components does not group".into())),
                Err(_) => f.push((vec!["L01"], format!("a group of 16 components panics: {}", crate::panic_msg()))),
            }
        }
    }
    (1, f)
}

/// The last pairs of the list group as well as the first.
fn probe_last(w: &mut World) -> bool {
    type A = N<100>;
    type B = N<101>;
    w.create((A { 0: 1 },));
    let e = w.create((A { 0: 1 }, B { 0: 2 }));
    let ok = w.query_all::<Entity>().include::<(&A, &B)>().slice() == Some(&[e][..]);
    macro_rules! pair {
        ($($a:literal $b:literal),*) => {{
            let mut ok = true;
            $({
                type P = N<$a>;
                type Q = N<$b>;
                let grouped = w.query_all::<Entity>().include::<(&P, &Q)>().slice().is_some();
                let x = w.create((P { 0: 1 },));
                let e = w.create((Q { 0: 1 }, P { 0: 2 }));
                let mut q = w.query_all::<Entity>().include::<(&P, &Q)>();
                let items: Vec<Entity> = q.iter().collect();
                ok &= items == [e];
                if grouped {
                    ok &= q.slice() == Some(&[e][..]);
                }
                drop(q);
                w.destroy(x);
                w.destroy(e);
            })*
            ok
        }};
    }
    ok & pair!(226 227, 224 225, 222 223, 198 199, 196 197, 194 195, 190 191, 102 103)
}
