//! Two real worlds with different group layouts and the model, driven in lockstep.
use crate::bundles::*;
use crate::comps::*;
use crate::model::*;
use crate::queries;
use crate::{phase, trace, with_bundle, with_comp};
use sparsey::component::{ComponentData, GroupLayout};
use sparsey::{Entity, World};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Fails = Vec<queries::Fail>;

pub const LAYOUTS: &[&[&[usize]]] = &[
    &[&[0, 1]],
    &[&[0, 1], &[0, 1, 2]],
    &[&[0, 1], &[0, 1, 2, 3]],
    &[&[0, 1], &[2, 3]],
    &[&[0, 1], &[0, 1, 2], &[0, 1, 2, 3]],
    &[&[4, 5], &[4, 5, 6]],
    &[&[0, 1], &[0, 1, 4], &[2, 3], &[2, 3, 5]],
    &[&[0, 1, 2]],
    &[&[1, 2], &[1, 2, 3]],
    &[&[6, 7], &[6, 7, 5], &[6, 7, 5, 4], &[0, 1], &[0, 1, 2]],
    &[&[0, 1], &[0, 1, 2], &[0, 1, 2, 3], &[0, 1, 2, 3, 4], &[0, 1, 2, 3, 4, 5]],
    &[&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]],
    &[&[0, 4], &[0, 4, 2], &[1, 3], &[1, 3, 5, 7]],
    &[&[2, 6], &[0, 1]],
    &[&[0, 1], &[2, 3], &[2, 3, 5]],
    &[&[0, 1], &[4, 5], &[4, 5, 6]],
    &[&[2, 3], &[0, 1], &[0, 1, 4]],
    &[&[0, 1, 2], &[0, 1, 2, 3]],
    &[&[2, 3], &[0, 1], &[0, 1, 5], &[6, 7], &[6, 7, 4]],
];

pub fn data(k: usize) -> ComponentData {
    with_comp!(k, C => ComponentData::new::<C>())
}
pub fn make_layout(groups: &[Vec<usize>]) -> GroupLayout {
    let mut l = GroupLayout::default();
    for g in groups {
        let v: Vec<ComponentData> = g.iter().map(|k| data(*k)).collect();
        l.add_group_dyn(&v);
    }
    l
}
pub fn random_layout(r: &mut Rng) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![];
    match r.below(10) {
        0 => {}
        1..=6 => out = r.pick(LAYOUTS).iter().map(|g| g.to_vec()).collect(),
        _ => {
            let mut ks: Vec<usize> = (0..NK).collect();
            for i in (1..NK).rev() {
                ks.swap(i, r.below(i + 1));
            }
            let mut at = 0;
            while at + 2 <= 10 {
                let mut len = 2 + r.below(3);
                let fam = ks[at..(at + 6).min(NK)].to_vec();
                while len <= fam.len() {
                    out.push(fam[..len].to_vec());
                    if r.chance(1, 2) {
                        break;
                    }
                    len += 1 + r.below(3);
                }
                at += 6;
            }
        }
    }
    // the order of the components inside a group never matters
    for g in &mut out {
        for i in (1..g.len()).rev() {
            g.swap(i, r.below(i + 1));
        }
    }
    if r.chance(1, 2) {
        for i in (1..out.len()).rev() {
            out.swap(i, r.below(i + 1));
        }
    }
    out
}

pub struct Sut {
    pub w: Option<World>,
    pub layout: Vec<Vec<usize>>,
}

#[derive(Clone, Debug)]
enum Op {
    Create(usize, Vec<u64>),
    Extend(usize, Vec<Vec<u64>>),
    Destroy(Entity),
    Atomic,
    Maintain,
    Insert(Entity, usize, Vec<u64>),
    Remove(Entity, usize),
    Delete(Entity, usize),
    Clear,
    Reset,
    Relayout,
    Mutate(usize, u64, usize),
    ViewSet(Entity, usize, u64),
    SliceSet(usize, u64),
    Register(usize),
}

#[derive(PartialEq, Clone, Debug)]
enum Out {
    None,
    Ent(Entity),
    Ents(Vec<Entity>),
    Bool(bool),
    Vals(Vec<Option<u64>>),
    Panic,
}

fn op_tags(op: &Op, stale: bool) -> Vec<&'static str> {
    let mut v = match op {
        Op::Create(..) | Op::Extend(..) => vec!["C01"],
        Op::Destroy(_) => vec!["C02"],
        Op::Atomic | Op::Maintain => vec!["E03"],
        Op::Insert(..) | Op::Remove(..) | Op::Delete(..) => vec!["C01"],
        Op::Clear | Op::Reset => vec!["C02"],
        Op::Relayout => vec!["L03"],
        Op::Mutate(..) => vec!["Q02"],
        Op::ViewSet(..) | Op::SliceSet(..) => vec!["C01"],
        Op::Register(_) => vec!["R01"],
    };
    if stale {
        v.push("E05");
    }
    v
}

pub struct Diff {
    pub a: Sut,
    pub b: Sut,
    pub m: Model,
    pub rng: Rng,
    pub fails: Fails,
    registered: [bool; NK],
    reset_dead: bool,
    /// a clear or a reset happened
    emptied: bool,
}

fn world_of(layout: &[Vec<usize>], reg: &[usize], how: usize) -> World {
    let l = make_layout(layout);
    match how {
        0 => {
            let mut w = World::new(&l);
            for k in reg {
                w.register_dyn(data(*k));
            }
            w
        }
        1 => {
            let mut b = World::builder();
            b.set_layout(l);
            for k in reg {
                b.register_dyn(data(*k));
            }
            b.build()
        }
        2 => {
            let mut b = World::builder();
            for k in reg {
                b.register_dyn(data(*k));
            }
            for g in layout {
                let v: Vec<ComponentData> = g.iter().map(|k| data(*k)).collect();
                b.add_group_dyn(&v);
            }
            b.build()
        }
        _ => {
            let mut w = World::default();
            for k in reg {
                with_comp!(*k, C => w.register::<C>());
            }
            w.set_layout(&l);
            w
        }
    }
}

impl Diff {
    pub fn new(mut rng: Rng) -> Diff {
        let la = random_layout(&mut rng);
        let lb = if rng.chance(1, 2) { vec![] } else { random_layout(&mut rng) };
        let mut reg: Vec<usize> = (0..NK).collect();
        for i in (1..NK).rev() {
            reg.swap(i, rng.below(i + 1));
        }
        // sometimes leave some types to be registered later
        let n = if rng.chance(1, 4) { 8 + rng.below(8) } else { NK };
        let reg = &reg[..n];
        let (ha, hb) = (rng.below(4), rng.below(4));
        trace(&format!("layouts {la:?} / {lb:?}, registering {reg:?} ({ha}, {hb})"));
        let mut registered = [false; NK];
        for k in reg {
            registered[*k] = true;
        }
        for g in la.iter().chain(&lb) {
            for k in g {
                registered[*k] = true;
            }
        }
        let all: Vec<usize> = (0..NK).filter(|k| registered[*k]).collect();
        let mut order: Vec<usize> = reg.to_vec();
        for k in all {
            if !order.contains(&k) {
                order.push(k);
            }
        }
        phase(&["R01", "L01"], "build");
        let a = world_of(&la, &order, ha);
        let b = world_of(&lb, &order, hb);
        Diff {
            a: Sut { w: Some(a), layout: la },
            b: Sut { w: Some(b), layout: lb },
            m: Model::default(),
            rng,
            fails: vec![],
            registered,
            reset_dead: false,
            emptied: false,
        }
    }
    fn fail(&mut self, tags: &[&'static str], s: String) {
        self.fails.push((tags.to_vec(), s));
    }
    fn some_entity(&mut self) -> Entity {
        let r = &mut self.rng;
        let live: Vec<Entity> = self.m.live.keys().copied().collect();
        match r.below(20) {
            0 | 1 if !self.m.dead.is_empty() => *r.pick(&self.m.dead),
            2 if !self.m.pending.is_empty() => *r.pick(&self.m.pending),
            3 => self.forged(),
            _ if !live.is_empty() => *r.pick(&live),
            _ => self.forged(),
        }
    }
    fn forged(&mut self) -> Entity {
        let r = &mut self.rng;
        let idx: Vec<u32> = self.m.issued.iter().map(|e| e.index).collect();
        let base = if idx.is_empty() { 0 } else { *r.pick(&idx) };
        let ver = |n: u32| sparsey::entity::Version(std::num::NonZeroU32::new(n.max(1)).unwrap());
        let e = match r.below(6) {
            0 => Entity::new(base, ver(1)),
            1 => Entity::new(base, ver(2)),
            2 => Entity::new(base, ver(u32::MAX)),
            3 => Entity::new(base.wrapping_add(1 + r.below(300) as u32), ver(1)),
            4 => Entity::new(u32::MAX, ver(1)),
            _ => Entity::new(base, ver(3)),
        };
        if self.m.live.contains_key(&e) {
            return Entity::new(e.index, ver(u32::MAX - 7));
        }
        e
    }
    fn bundle_ok(&self, b: usize) -> bool {
        let ks: &[usize] = with_bundle!(b, B => <B as Bundle>::KS);
        ks.iter().all(|k| self.registered[*k])
    }
    fn some_bundle(&mut self) -> usize {
        for _ in 0..20 {
            // favour the small and the grouped ones
            let b = self.rng.below(NB);
            if b == NB - 1 && !self.rng.chance(1, 3) {
                continue;
            }
            if self.bundle_ok(b) {
                return b;
            }
        }
        0
    }
    fn vals(&mut self) -> Vec<u64> {
        (0..NK).map(|_| self.rng.next() % 1000).collect()
    }
    fn gen(&mut self, target: usize) -> Op {
        let n = self.m.live.len();
        let full = self.registered.iter().all(|r| *r);
        loop {
            let x = self.rng.below(100);
            return match x {
                0..=15 if n < target => {
                    let b = self.some_bundle();
                    Op::Create(b, self.vals())
                }
                16..=19 if n < target => {
                    let b = self.some_bundle();
                    let c = self.rng.below(9);
                    Op::Extend(b, (0..c).map(|_| self.vals()).collect())
                }
                20..=28 => Op::Destroy(self.some_entity()),
                29..=33 => Op::Atomic,
                34..=36 => Op::Maintain,
                37..=56 => {
                    let b = self.some_bundle();
                    let e = self.some_entity();
                    Op::Insert(e, b, self.vals())
                }
                57..=68 => {
                    let b = self.some_bundle();
                    Op::Remove(self.some_entity(), b)
                }
                69..=78 => {
                    let b = self.some_bundle();
                    Op::Delete(self.some_entity(), b)
                }
                79 if self.rng.chance(1, 4) => Op::Clear,
                80 if self.rng.chance(1, 4) => Op::Reset,
                81 | 82 => Op::Relayout,
                83..=89 if full => Op::Mutate(self.rng.below(queries::NQ), 1 + self.rng.next() % 5, self.rng.below(3)),
                90..=93 => {
                    let k = self.rng.below(NK);
                    if !self.registered[k] {
                        continue;
                    }
                    let e = self.some_entity();
                    Op::ViewSet(e, k, self.rng.next() % 1000)
                }
                94 => {
                    let k = self.rng.below(NK);
                    if !self.registered[k] {
                        continue;
                    }
                    Op::SliceSet(k, self.rng.next() % 7)
                }
                95 | 96 => Op::Register(self.rng.below(NK)),
                _ => continue,
            };
        }
    }
    fn apply(sut: &mut Sut, op: &Op, newlayout: &[Vec<usize>]) -> Out {
        let w = sut.w.as_mut().unwrap();
        match op {
            Op::Create(b, v) => with_bundle!(*b, B => Out::Ent(w.create(<B as Bundle>::make(v)))),
            Op::Extend(b, vs) => {
                with_bundle!(*b, B => Out::Ents(w.extend(vs.iter().map(|v| <B as Bundle>::make(v))).to_vec()))
            }
            Op::Destroy(e) => Out::Bool(w.destroy(*e)),
            Op::Atomic => Out::Ent(w.create_atomic()),
            Op::Maintain => {
                w.maintain();
                Out::None
            }
            Op::Insert(e, b, v) => with_bundle!(*b, B => Out::Bool(w.insert(*e, <B as Bundle>::make(v)))),
            Op::Remove(e, b) => with_bundle!(*b, B => {
                Out::Vals(<B as Bundle>::removed(w.remove::<B>(*e)).into_iter().map(|x| x.map(|(v, ok)| if ok { v } else { u64::MAX })).collect())
            }),
            Op::Delete(e, b) => with_bundle!(*b, B => {
                w.delete::<B>(*e);
                Out::None
            }),
            Op::Clear => {
                w.clear();
                Out::None
            }
            Op::Reset => {
                w.reset();
                Out::None
            }
            Op::Relayout => {
                w.set_layout(&make_layout(newlayout));
                sut.layout = newlayout.to_vec();
                Out::None
            }
            Op::Mutate(q, d, how) => {
                queries::mutate_nth(*q, w, *d, *how);
                Out::None
            }
            Op::ViewSet(e, k, v) => with_comp!(*k, C => {
                let mut view = w.borrow_mut::<C>();
                match view.get_mut(*e) {
                    Some(c) => {
                        let old = c.val();
                        c.set(*v);
                        Out::Vals(vec![Some(old)])
                    }
                    None => Out::Vals(vec![None]),
                }
            }),
            Op::SliceSet(k, d) => with_comp!(*k, C => {
                let mut view = w.borrow_mut::<C>();
                for c in view.as_mut_slice() {
                    let v = (c.val() + d) % 1000;
                    c.set(v);
                }
                Out::None
            }),
            Op::Register(k) => with_comp!(*k, C => Out::Bool(w.register::<C>())),
        }
    }
    /// The expected outcome; `got` resolves what the model leaves open (which handle).
    fn model(&mut self, op: &Op, got: &Out) -> Option<Out> {
        let fresh = |m: &mut Model, e: Entity| {
            let ok = !m.issued.contains(&e) && !m.live.contains_key(&e);
            m.issued.insert(e);
            ok
        };
        let set = |row: &mut Row, ks: &[usize], v: &[u64]| {
            for (i, k) in ks.iter().enumerate() {
                row[*k] = Some(crate::canon(*k, v[i]));
            }
        };
        match op {
            Op::Create(b, v) => {
                let Out::Ent(e) = got else { return None };
                if !fresh(&mut self.m, *e) {
                    self.fail(&["E01"], format!("create returned {e:?} again"));
                    return None;
                }
                let mut row = [None; NK];
                set(&mut row, with_bundle!(*b, B => <B as Bundle>::KS), v);
                self.m.live.insert(*e, row);
                Some(got.clone())
            }
            Op::Extend(b, vs) => {
                let Out::Ents(es) = got else { return None };
                if es.len() != vs.len() {
                    self.fail(&["C01", "E02"], format!("extend of {} returned {} entities", vs.len(), es.len()));
                    return None;
                }
                for (e, v) in es.iter().zip(vs) {
                    if !fresh(&mut self.m, *e) {
                        self.fail(&["E01"], format!("extend returned {e:?} again"));
                        return None;
                    }
                    let mut row = [None; NK];
                    set(&mut row, with_bundle!(*b, B => <B as Bundle>::KS), v);
                    self.m.live.insert(*e, row);
                }
                Some(got.clone())
            }
            Op::Destroy(e) => {
                let was = self.m.live.remove(e).is_some();
                if was {
                    self.m.dead.push(*e);
                }
                Some(Out::Bool(was))
            }
            Op::Atomic => {
                let Out::Ent(e) = got else { return None };
                if !fresh(&mut self.m, *e) {
                    self.fail(&["E01", "E04"], format!("create_atomic returned {e:?} again"));
                    return None;
                }
                self.m.pending.push(*e);
                Some(got.clone())
            }
            Op::Maintain => {
                for e in std::mem::take(&mut self.m.pending) {
                    self.m.live.insert(e, [None; NK]);
                }
                Some(Out::None)
            }
            Op::Insert(e, b, v) => {
                let Some(row) = self.m.live.get_mut(e) else { return Some(Out::Bool(false)) };
                set(row, with_bundle!(*b, B => <B as Bundle>::KS), v);
                Some(Out::Bool(true))
            }
            Op::Remove(e, b) | Op::Delete(e, b) => {
                let ks: &[usize] = with_bundle!(*b, B => <B as Bundle>::KS);
                let vals = match self.m.live.get_mut(e) {
                    Some(row) => ks.iter().map(|k| row[*k].take()).collect(),
                    None => vec![None; ks.len()],
                };
                Some(if matches!(op, Op::Remove(..)) { Out::Vals(vals) } else { Out::None })
            }
            Op::Clear | Op::Reset => {
                let m = &mut self.m;
                m.dead.extend(std::mem::take(&mut m.live).into_keys());
                m.dead.append(&mut m.pending);
                if matches!(op, Op::Reset) {
                    m.issued.clear();
                    m.dead.clear();
                    self.reset_dead = true;
                }
                Some(Out::None)
            }
            Op::Relayout => Some(Out::None),
            Op::Mutate(q, d, _) => {
                queries::mutate_model(&mut self.m, *d, queries::descs(*q));
                Some(Out::None)
            }
            Op::ViewSet(e, k, v) => {
                let old = self.m.live.get_mut(e).and_then(|r| r[*k].as_mut()).map(|x| std::mem::replace(x, crate::canon(*k, *v)));
                Some(Out::Vals(vec![old]))
            }
            Op::SliceSet(k, d) => {
                for r in self.m.live.values_mut() {
                    if let Some(v) = &mut r[*k] {
                        *v = crate::canon(*k, (*v + d) % 1000);
                    }
                }
                Some(Out::None)
            }
            Op::Register(k) => {
                let was = std::mem::replace(&mut self.registered[*k], true);
                Some(Out::Bool(!was))
            }
        }
    }

    pub fn step(&mut self, target: usize) -> bool {
        let op = self.gen(target);
        let (na, nb) = if matches!(op, Op::Relayout) {
            // a layout may only name registered types here, so both worlds stay comparable
            let mut f = |r: &mut Rng, reg: &[bool; NK]| {
                random_layout(r).into_iter().filter(|g| g.iter().all(|k| reg[*k])).collect::<Vec<_>>()
            };
            (f(&mut self.rng, &self.registered), f(&mut self.rng, &self.registered))
        } else {
            (vec![], vec![])
        };
        trace(&format!("{op:?} {}", if matches!(op, Op::Relayout) { format!("{na:?} / {nb:?}") } else { String::new() }));
        let target_e = match &op {
            Op::Destroy(e) | Op::Insert(e, ..) | Op::Remove(e, _) | Op::Delete(e, _) | Op::ViewSet(e, ..) => Some(*e),
            _ => None,
        };
        let stale = target_e.is_some_and(|e| !self.m.live.contains_key(&e));
        let pending_before = self.m.pending.len();
        let tags = op_tags(&op, stale);
        phase(&tags, &format!("{op:?}"));
        let mut outs = vec![];
        for (sut, nl) in [(&mut self.a, &na), (&mut self.b, &nb)] {
            match catch_unwind(AssertUnwindSafe(|| Self::apply(sut, &op, nl))) {
                Ok(o) => outs.push(o),
                Err(_) => outs.push(Out::Panic),
            }
        }
        for (i, o) in outs.iter().enumerate() {
            if *o == Out::Panic {
                let mut t = tags.clone();
                t.extend(crate::panic_tags());
                let other = &outs[1 - i];
                if *other != Out::Panic {
                    t.push("G02");
                }
                self.fails.push((t, format!("{op:?} panics: {}", crate::panic_msg())));
            }
        }
        if !self.fails.is_empty() {
            return false;
        }
        let Some(want) = self.model(&op, &outs[0]) else { return false };
        for i in 0..2 {
            if outs[i] != want {
                let mut t = tags.clone();
                match op {
                    Op::Destroy(_) => t = if stale { vec!["E02", "E05"] } else { vec!["E02", "C02"] },
                    Op::Insert(..) if stale => t = vec!["E05"],
                    Op::Remove(..) if stale => t = vec!["E05"],
                    Op::Create(..) | Op::Extend(..) | Op::Atomic => t = vec!["G02"],
                    Op::ViewSet(..) if stale => t = vec!["E05"],
                    _ => {}
                }
                if i == 1 && outs[0] == want || i == 0 && outs[1] == want {
                    t.push("G02");
                }
                self.fail(&t, format!("{op:?} returned {:?}, the model {want:?}", outs[i]));
                if i == 0 {
                    continue;
                }
            }
        }
        if !self.fails.is_empty() {
            return false;
        }
        self.observe(&op, stale, pending_before);
        self.fails.is_empty()
    }

    fn observe(&mut self, op: &Op, stale: bool, pending_before: usize) {
        let mut per: Vec<Fails> = vec![];
        self.emptied |= matches!(op, Op::Clear | Op::Reset);
        for sut in [&self.a, &self.b] {
            let mut f: Fails = vec![];
            let w = sut.w.as_ref().unwrap();
            let r = catch_unwind(AssertUnwindSafe(|| {
                phase(&["E02"], "entities");
                entities(w, &self.m, op, pending_before, &mut f);
                let mut t = op_tags(op, stale);
                if matches!(op, Op::Mutate(..)) {
                    t = vec!["Q02", "C01"];
                }
                phase(&t, "components");
                let ok = store(w, &self.m, &self.registered, &t, self.emptied, &mut f);
                phase(&["G01"], "groups");
                groups(w, &self.m, &sut.layout, matches!(op, Op::Relayout), &mut f);
                phase(&["R01"], "registered");
                for k in 0..NK {
                    let is = with_comp!(k, C => w.is_registered::<C>());
                    if is != self.registered[k] {
                        f.push((vec!["R01", if matches!(op, Op::Relayout) { "L03" } else { "C02" }], format!("after {op:?}: type {k} registered: {is}")));
                    }
                }
                ok
            }));
            if r.is_err() {
                let mut t = crate::phase_tags();
                t.extend(crate::panic_tags());
                f.push((t, format!("observation after {op:?} panics: {}", crate::panic_msg())));
            }
            per.push(f);
        }
        // value accounting over both worlds
        if let Some(e) = take_err() {
            self.fails.push((vec!["C03"], format!("after {op:?}: {e}")));
        } else {
            let want = 2 * (self.m.count(0) + self.m.count(3) + self.m.count(4));
            if tracked_alive() != want {
                self.fails.push((vec!["C03"], format!("after {op:?}: {} values alive, {want} expected", tracked_alive())));
            }
            let want = 2 * self.m.count(6) as i64;
            if zst_alive() != want {
                self.fails.push((vec!["C03"], format!("after {op:?}: {} zero-sized values alive, {want} expected", zst_alive())));
            }
        }
        self.merge(per);
    }
    fn merge(&mut self, per: Vec<Fails>) {
        let one = per.iter().filter(|f| !f.is_empty()).count() == 1;
        for f in per {
            for (mut t, s) in f {
                if one && self.a.layout != self.b.layout {
                    t.push("G02");
                }
                self.fails.push((t, s));
            }
        }
    }
    pub fn probes(&mut self) -> Vec<Entity> {
        let mut v: Vec<Entity> = self.m.live.keys().copied().collect();
        while v.len() > 12 {
            let i = self.rng.below(v.len());
            v.swap_remove(i);
        }
        v.extend(self.m.dead.iter().rev().take(6));
        v.extend(self.m.pending.iter().take(3));
        for _ in 0..4 {
            v.push(self.forged());
        }
        v
    }
    pub fn query_all(&mut self, deep: bool, some: Option<usize>) {
        if !self.registered.iter().all(|r| *r) {
            return;
        }
        let probes = self.probes();
        let mut per: Vec<Fails> = vec![];
        let seed = self.rng.next();
        for sut in [&self.a, &self.b] {
            let mut f: Fails = vec![];
            let w = sut.w.as_ref().unwrap();
            let mut pick = Rng(seed);
            for i in 0..queries::NQ {
                if some.is_some_and(|n| !pick.chance(n, queries::NQ)) {
                    continue;
                }
                let mut ctx = queries::Ctx { w, m: &self.m, layout: &sut.layout, rng: Rng(seed + i as u64), probes: &probes, fails: vec![], deep };
                let r = catch_unwind(AssertUnwindSafe(|| queries::check_nth(i, &mut ctx)));
                f.append(&mut ctx.fails);
                if r.is_err() {
                    let mut t = crate::phase_tags();
                    t.extend(crate::panic_tags());
                    f.push((t, format!("query {i} panics: {}", crate::panic_msg())));
                }
            }
            per.push(f);
        }
        self.merge(per);
        // queries never change anything
        if let Some(e) = take_err() {
            self.fails.push((vec!["C03"], format!("during queries: {e}")));
        }
    }
    pub fn finish(mut self) -> Fails {
        let mut f = std::mem::take(&mut self.fails);
        phase(&["C03"], "drop");
        let r = catch_unwind(AssertUnwindSafe(|| {
            self.a.w = None;
            self.b.w = None;
        }));
        if r.is_err() {
            f.push((vec!["C03"], format!("dropping the world panics: {}", crate::panic_msg())));
        }
        if f.is_empty() {
            if let Some(e) = take_err() {
                f.push((vec!["C03"], format!("dropping the world: {e}")));
            }
            if tracked_alive() != 0 || zst_alive() != 0 {
                f.push((vec!["C03"], format!("after dropping the world {} values and {} zero-sized values are alive", tracked_alive(), zst_alive())));
            }
        }
        f
    }
}

fn entities(w: &World, m: &Model, op: &Op, pending_before: usize, f: &mut Fails) {
    let es = w.entities();
    let set: BTreeSet<Entity> = es.iter().copied().collect();
    let want: BTreeSet<Entity> = m.live.keys().copied().collect();
    let mut tags = vec!["E02"];
    match op {
        Op::Maintain | Op::Atomic => tags.push("E03"),
        Op::Clear | Op::Reset => {
            tags.push("C02");
            if pending_before > 0 {
                tags.push("E03");
            }
        }
        Op::Relayout => tags.push("L03"),
        Op::Destroy(_) => tags.push("C02"),
        _ => {}
    }
    if m.pending.iter().any(|e| set.contains(e)) && !tags.contains(&"E03") {
        tags.push("E03");
    }
    if set.len() != es.len() || set != want {
        f.push((tags, format!("after {op:?}: entities are {es:?}, the model has {want:?}")));
        return;
    }
    if w.is_empty() != want.is_empty() {
        f.push((vec!["E02"], format!("after {op:?}: is_empty is {}", w.is_empty())));
    }
    for e in &want {
        if !w.contains_entity(*e) {
            f.push((tags.clone(), format!("after {op:?}: live {e:?} is not contained")));
            return;
        }
        for v in [1, 2, 3, e.version.0.get().wrapping_add(1), u32::MAX] {
            let Some(v) = std::num::NonZeroU32::new(v) else { continue };
            let g = Entity::new(e.index, sparsey::entity::Version(v));
            if g != *e && w.contains_entity(g) {
                f.push((vec!["E02", "E05"], format!("after {op:?}: {g:?} is contained, but only {e:?} is live")));
                return;
            }
        }
    }
    for e in m.dead.iter().rev().take(40).chain(&m.pending) {
        if !want.contains(e) && w.contains_entity(*e) {
            tags.push("E05");
            f.push((tags, format!("after {op:?}: {e:?} is contained although it is not live")));
            return;
        }
    }
    let far = Entity::with_index(u32::MAX);
    if !want.contains(&far) && w.contains_entity(far) {
        f.push((vec!["E02"], format!("{far:?} is contained")));
    }
}

fn store(w: &World, m: &Model, reg: &[bool; NK], tags: &[&'static str], emptied: bool, f: &mut Fails) -> bool {
    for k in 0..NK {
        if !reg[k] {
            continue;
        }
        let bad: Option<(bool, String)> = with_comp!(k, C => {
            let view = w.borrow::<C>();
            let want: Vec<(Entity, u64)> = m.live.iter().filter_map(|(e, r)| r[k].map(|v| (*e, v))).collect();
            let mut bad = None;
            if view.len() != want.len() || view.is_empty() != want.is_empty() || view.entities().len() != want.len() || view.as_slice().len() != want.len() {
                bad = Some((false, format!("{} components of type {k}, the model has {}", view.len(), want.len())));
            } else {
                for (e, v) in &want {
                    let got = view.get(*e).map(|c| if c.sane() { c.val() } else { u64::MAX });
                    if got != Some(*v) || !view.contains(*e) || view[*e].val() != *v {
                        bad = Some((false, format!("component {k} of {e:?} is {got:?}, the model has {v}")));
                        break;
                    }
                }
                if bad.is_none() {
                    let mut got: Vec<(Entity, u64)> = view.entities().iter().copied().zip(view.as_slice().iter().map(Comp::val)).collect();
                    got.sort();
                    if got != want {
                        bad = Some((false, format!("the view of type {k} lists {got:?}, the model has {want:?}")));
                    }
                }
                for e in m.dead.iter().rev().take(20).chain(&m.pending) {
                    if !m.live.contains_key(e) && (view.get(*e).is_some() || view.contains(*e)) {
                        bad = Some((true, format!("stale {e:?} has a component of type {k}")));
                    }
                }
                for e in m.live.keys() {
                    for v in [1, 2, e.version.0.get().wrapping_add(1)] {
                        let Some(v) = std::num::NonZeroU32::new(v) else { continue };
                        let g = Entity::new(e.index, sparsey::entity::Version(v));
                        if g != *e && (view.get(g).is_some() || view.contains(g)) {
                            bad = Some((true, format!("forged {g:?} has a component of type {k}")));
                        }
                    }
                    if m.live[e][k].is_none() && (view.get(*e).is_some() || view.contains(*e)) {
                        bad = Some((false, format!("{e:?} has a component of type {k} it should not have")));
                    }
                }
            }
            bad
        });
        if let Some((stale, s)) = bad {
            let mut t = tags.to_vec();
            if stale && !t.contains(&"E05") {
                t = vec!["E05"];
            }
            if emptied && (stale || s.ends_with("it should not have")) && !t.contains(&"C02") {
                t.push("C02");
            }
            f.push((t, s));
            return false;
        }
    }
    true
}

fn groups(w: &World, m: &Model, layout: &[Vec<usize>], relayout: bool, f: &mut Fails) {
    for g in layout {
        let complete: BTreeSet<Entity> = m.live.keys().copied().filter(|e| m.has(*e, g)).collect();
        let n = complete.len();
        let mut first: Option<Vec<Entity>> = None;
        for k in g {
            let bad = with_comp!(*k, C => {
                let view = w.borrow::<C>();
                let es = view.entities();
                let prefix = es[..n.min(es.len())].to_vec();
                let set: BTreeSet<Entity> = prefix.iter().copied().collect();
                let mut bad = None;
                if set != complete {
                    bad = Some(format!("group {g:?}: storage {k} starts with {prefix:?}, the complete entities are {complete:?}"));
                } else if first.as_ref().is_some_and(|f| *f != prefix) {
                    bad = Some(format!("group {g:?}: storage {k} is ordered {prefix:?}, another {first:?}"));
                } else {
                    for (e, c) in prefix.iter().zip(view.as_slice()) {
                        let v = m.live[e][*k].unwrap();
                        if c.val() != v {
                            bad = Some(format!("group {g:?}: storage {k} holds {} at the position of {e:?}, not {v}", c.val()));
                        }
                    }
                }
                if first.is_none() {
                    first = Some(prefix);
                }
                bad
            });
            if let Some(s) = bad {
                f.push((if relayout { vec!["G01", "L03"] } else { vec!["G01"] }, s));
                return;
            }
        }
    }
}
