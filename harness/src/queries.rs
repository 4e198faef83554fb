//! Queries of every shape, checked against the model.
use crate::comps::*;
use crate::model::*;
use rayon::iter::{IndexedParallelIterator, ParallelIterator};
use sparsey::query::*;
use sparsey::{Entity, World};
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Ent,
    Ref,
    Mut,
    Opt,
    OptMut,
}
pub type PD = (Kind, usize);

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum PV {
    E(Entity),
    V(usize, u64),
    O(usize, Option<u64>),
}

pub trait Part: QueryPart {
    const D: PD;
    fn pv(i: &<Self as QueryPart>::Item<'_>) -> PV;
    fn addr(_i: &<Self as QueryPart>::Item<'_>) -> Option<usize> {
        None
    }
    fn mutate(_i: <Self as QueryPart>::Item<'_>, _d: u64) {}
    fn sl(s: <Self as QueryPart>::Slice<'_>) -> Option<Vec<PV>>;
}
impl Part for Entity {
    const D: PD = (Kind::Ent, 99);
    fn pv(i: &Entity) -> PV {
        PV::E(*i)
    }
    fn sl(s: &[Entity]) -> Option<Vec<PV>> {
        Some(s.iter().map(|e| PV::E(*e)).collect())
    }
}
fn rd<T: Comp>(t: &T) -> u64 {
    if t.sane() { t.val() } else { u64::MAX }
}
impl<T: Comp> Part for &'static T {
    const D: PD = (Kind::Ref, T::K);
    fn pv(i: &<Self as QueryPart>::Item<'_>) -> PV {
        PV::V(T::K, rd(*i))
    }
    fn sl(s: <Self as QueryPart>::Slice<'_>) -> Option<Vec<PV>> {
        Some(s.iter().map(|c| PV::V(T::K, rd(c))).collect())
    }
}
impl<T: Comp> Part for &'static mut T {
    const D: PD = (Kind::Mut, T::K);
    fn pv(i: &<Self as QueryPart>::Item<'_>) -> PV {
        PV::V(T::K, rd(&**i))
    }
    fn addr(i: &<Self as QueryPart>::Item<'_>) -> Option<usize> {
        (std::mem::size_of::<T>() > 0).then_some(&**i as *const T as usize)
    }
    fn mutate(i: <Self as QueryPart>::Item<'_>, d: u64) {
        let v = i.val().wrapping_add(d) % 1000;
        i.set(v);
    }
    fn sl(s: <Self as QueryPart>::Slice<'_>) -> Option<Vec<PV>> {
        Some(s.iter().map(|c| PV::V(T::K, rd(c))).collect())
    }
}
impl<T: Comp> Part for Option<&'static T> {
    const D: PD = (Kind::Opt, T::K);
    fn pv(i: &<Self as QueryPart>::Item<'_>) -> PV {
        PV::O(T::K, i.map(rd))
    }
    fn sl((): <Self as QueryPart>::Slice<'_>) -> Option<Vec<PV>> {
        None
    }
}
impl<T: Comp> Part for Option<&'static mut T> {
    const D: PD = (Kind::OptMut, T::K);
    fn pv(i: &<Self as QueryPart>::Item<'_>) -> PV {
        PV::O(T::K, i.as_ref().map(|t| rd(&**t)))
    }
    fn addr(i: &<Self as QueryPart>::Item<'_>) -> Option<usize> {
        if std::mem::size_of::<T>() == 0 {
            return None;
        }
        i.as_ref().map(|t| &**t as *const T as usize)
    }
    fn mutate(i: <Self as QueryPart>::Item<'_>, d: u64) {
        if let Some(i) = i {
            let v = i.val().wrapping_add(d) % 1000;
            i.set(v);
        }
    }
    fn sl((): <Self as QueryPart>::Slice<'_>) -> Option<Vec<PV>> {
        None
    }
}

pub trait Qs: Query {
    fn desc() -> Vec<PD>;
    fn flat(i: &<Self as Query>::Item<'_>) -> Vec<PV>;
    fn addrs(i: &<Self as Query>::Item<'_>) -> Vec<Option<usize>>;
    fn mutate(i: <Self as Query>::Item<'_>, d: u64);
    fn slices(s: <Self as Query>::Slice<'_>) -> Vec<Option<Vec<PV>>>;
}
impl Qs for () {
    fn desc() -> Vec<PD> {
        vec![]
    }
    fn flat((): &()) -> Vec<PV> {
        vec![]
    }
    fn addrs((): &()) -> Vec<Option<usize>> {
        vec![]
    }
    fn mutate((): (), _: u64) {}
    fn slices((): ()) -> Vec<Option<Vec<PV>>> {
        vec![]
    }
}
impl<P: Part> Qs for P {
    fn desc() -> Vec<PD> {
        vec![P::D]
    }
    fn flat(i: &<Self as Query>::Item<'_>) -> Vec<PV> {
        vec![P::pv(i)]
    }
    fn addrs(i: &<Self as Query>::Item<'_>) -> Vec<Option<usize>> {
        vec![P::addr(i)]
    }
    fn mutate(i: <Self as Query>::Item<'_>, d: u64) {
        P::mutate(i, d)
    }
    fn slices(s: <Self as Query>::Slice<'_>) -> Vec<Option<Vec<PV>>> {
        vec![P::sl(s)]
    }
}
macro_rules! tup {
    ($($P:ident $i:tt),*) => {
        impl<$($P: Part),*> Qs for ($($P,)*) {
            fn desc() -> Vec<PD> { vec![$($P::D),*] }
            fn flat(i: &<Self as Query>::Item<'_>) -> Vec<PV> { vec![$($P::pv(&i.$i)),*] }
            fn addrs(i: &<Self as Query>::Item<'_>) -> Vec<Option<usize>> { vec![$($P::addr(&i.$i)),*] }
            fn mutate(i: <Self as Query>::Item<'_>, d: u64) { $($P::mutate(i.$i, d);)* }
            fn slices(s: <Self as Query>::Slice<'_>) -> Vec<Option<Vec<PV>>> { vec![$($P::sl(s.$i)),*] }
        }
    };
}
tup!(A 0);
tup!(A 0, B 1);
tup!(A 0, B 1, C 2);
tup!(A 0, B 1, C 2, D 3);
tup!(A 0, B 1, C 2, D 3, E 4);
tup!(A 0, B 1, C 2, D 3, E 4, F 5);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15);

/// A failed observation: the properties it contradicts, and what was seen.
pub type Fail = (Vec<&'static str>, String);

fn req(d: &[PD]) -> Vec<usize> {
    d.iter().filter(|p| matches!(p.0, Kind::Ref | Kind::Mut)).map(|p| p.1).collect()
}
fn expect(d: &[PD], e: Entity, r: &Row) -> Vec<PV> {
    d.iter()
        .map(|(k, c)| match k {
            Kind::Ent => PV::E(e),
            Kind::Ref | Kind::Mut => PV::V(*c, r[*c].unwrap()),
            Kind::Opt | Kind::OptMut => PV::O(*c, r[*c]),
        })
        .collect()
}
fn sorted(mut v: Vec<Vec<PV>>) -> Vec<Vec<PV>> {
    v.sort();
    v
}

pub struct Ctx<'a> {
    pub w: &'a World,
    pub m: &'a Model,
    pub layout: &'a [Vec<usize>],
    pub rng: Rng,
    pub probes: &'a [Entity],
    pub fails: Vec<Fail>,
    pub deep: bool,
}
impl Ctx<'_> {
    fn fail(&mut self, tags: &[&'static str], s: String) {
        self.fails.push((tags.to_vec(), s));
    }
}

pub fn check<G: Qs + 'static, I: Qs + 'static, E: Qs + 'static>(name: &str, c: &mut Ctx) {
    let (gd, id, ed) = (G::desc(), I::desc(), E::desc());
    let inc: BTreeSet<usize> = req(&gd).into_iter().chain(req(&id)).collect();
    let inc: Vec<usize> = inc.into_iter().collect();
    let exc = req(&ed);
    let matches = |r: &Row| inc.iter().all(|k| r[*k].is_some()) && exc.iter().all(|k| r[*k].is_none());
    let want = sorted(
        c.m.live.iter().filter(|(_, r)| matches(r)).map(|(e, r)| expect(&gd, *e, r)).collect(),
    );
    let w = c.w;
    crate::phase(&["Q01", "Q02"], name);
    let mut q = w.query_all::<G>().include::<I>().exclude::<E>();
    // stepping with next
    let mut got = vec![];
    let mut seen: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); gd.len()];
    let mut hints = vec![];
    let mut dup = false;
    {
        let mut it = q.iter();
        let mut held = vec![];
        loop {
            hints.push(it.size_hint());
            let Some(x) = it.next() else { break };
            got.push(G::flat(&x));
            for (i, a) in G::addrs(&x).into_iter().enumerate() {
                if let Some(a) = a {
                    dup |= !seen[i].insert(a);
                }
            }
            held.push(x);
            if got.len() > 10 * want.len() + 1000 {
                break;
            }
        }
        drop(held);
        if it.next().is_some() || it.next().is_some() {
            c.fail(&["Q06"], format!("{name}: exhausted iterator yields again"));
        }
    }
    let n = got.len();
    let gs = sorted(got.clone());
    if gs != want {
        let hasent = gd.iter().position(|p| p.0 == Kind::Ent);
        let same = match hasent {
            Some(p) => gs.iter().map(|x| &x[p]).collect::<BTreeSet<_>>() == want.iter().map(|x| &x[p]).collect()
                && gs.len() == want.len(),
            None => gs.len() == want.len(),
        };
        let same_set = gd.len() == 1 && hasent.is_none();
        let tags: &[&'static str] = if same { if same_set { &["Q01", "Q02"] } else { &["Q02"] } } else { &["Q01"] };
        c.fail(tags, format!("{name}: iteration yields {got:?}, the model has {want:?}"));
    }
    if dup {
        c.fail(&["Q02"], format!("{name}: two items refer to the same component"));
    }
    for (i, (lo, hi)) in hints.iter().enumerate() {
        let rem = n - i.min(n);
        if *lo > rem || hi.is_some_and(|h| h < rem) {
            c.fail(&["Q06"], format!("{name}: size hint ({lo}, {hi:?}) with {rem} items left"));
            break;
        }
    }
    crate::phase(&["Q06"], name);
    let take = if n == 0 { 0 } else { c.rng.below(n + 1) };
    {
        let mut it = q.iter();
        let mut v: Vec<_> = it.by_ref().take(take).map(|x| G::flat(&x)).collect();
        it.fold((), |(), x| v.push(G::flat(&x)));
        if v != got {
            c.fail(&["Q06"], format!("{name}: {take} next calls then fold yield {v:?}, next alone {got:?}"));
        }
        let mut v = vec![];
        q.for_each(|x| v.push(G::flat(&x)));
        if v != got {
            c.fail(&["Q06"], format!("{name}: for_each yields {v:?}, next {got:?}"));
        }
        if q.iter().count() != n {
            c.fail(&["Q06"], format!("{name}: count is not {n}"));
        }
        match q.iter() {
            Iter::Dense(mut d) => {
                if ExactSizeIterator::len(&d) != n {
                    c.fail(&["Q06"], format!("{name}: exact length {} with {n} items", ExactSizeIterator::len(&d)));
                }
                for _ in 0..take {
                    d.next();
                }
                if ExactSizeIterator::len(&d) != n - take || d.size_hint() != (n - take, Some(n - take)) {
                    c.fail(&["Q06"], format!("{name}: exact length wrong after {take} of {n} items"));
                }
                let mut v: Vec<_> = got[..take].to_vec();
                d.for_each(|x| v.push(G::flat(&x)));
                if v != got {
                    c.fail(&["Q06"], format!("{name}: dense: {take} next calls then fold yield {v:?}, next alone {got:?}"));
                }
            }
            Iter::Sparse(mut s) => {
                for _ in 0..take {
                    s.next();
                }
                let mut v: Vec<_> = got[..take].to_vec();
                s.for_each(|x| v.push(G::flat(&x)));
                if v != got {
                    c.fail(&["Q06"], format!("{name}: sparse: {take} next calls then fold yield {v:?}, next alone {got:?}"));
                }
            }
        }
        let mut v = vec![];
        for x in &mut q {
            v.push(G::flat(&x));
        }
        if v != got {
            c.fail(&["Q06"], format!("{name}: into_iter yields {v:?}, next {got:?}"));
        }
    }
    // parallel
    if c.deep {
        crate::phase(&["Q05"], name);
        let v: Vec<_> = q.par_iter().map(|x| G::flat(&x)).collect();
        if sorted(v.clone()) != gs {
            c.fail(&["Q05"], format!("{name}: parallel iteration yields {v:?}, sequential {got:?}"));
        }
        let out = std::sync::Mutex::new(vec![]);
        q.par_for_each(|x| out.lock().unwrap().push(G::flat(&x)));
        let v = out.into_inner().unwrap();
        if sorted(v.clone()) != gs {
            c.fail(&["Q05"], format!("{name}: par_for_each visits {v:?}, sequential {got:?}"));
        }
        let p = q.par_iter();
        if p.opt_len().is_some_and(|l| l != n) {
            c.fail(&["Q05"], format!("{name}: parallel length is not {n}"));
        }
        if let ParIter::Dense(d) = p {
            if IndexedParallelIterator::len(&d) != n {
                c.fail(&["Q05"], format!("{name}: indexed parallel length is not {n}"));
            } else {
                let mut v = vec![];
                d.with_max_len(1).map(|x| G::flat(&x)).collect_into_vec(&mut v);
                if v != got {
                    c.fail(&["Q05"], format!("{name}: indexed parallel iteration yields {v:?}, sequential {got:?}"));
                }
            }
        }
        if let ParIter::Dense(d) = q.par_iter() {
            let v: Vec<_> = d.rev().map(|x| G::flat(&x)).collect();
            if sorted(v.clone()) != gs {
                c.fail(&["Q05"], format!("{name}: reversed parallel iteration yields {v:?}, sequential {got:?}"));
            }
        }
    }
    // slices
    crate::phase(&["Q03"], name);
    let group_like = exc.is_empty()
        && ed.is_empty()
        && (c.layout.iter().any(|g| {
            let mut g = g.clone();
            g.sort_unstable();
            g == inc
        }) || (inc.len() == 1 && gd.iter().chain(&id).filter(|p| matches!(p.0, Kind::Ref | Kind::Mut)).count() == 1));
    match q.slice() {
        Some(s) => {
            let cols = G::slices(s);
            for (p, col) in cols.iter().enumerate() {
                let Some(col) = col else { continue };
                let it: Vec<PV> = got.iter().map(|x| x[p].clone()).collect();
                let (mut a, mut b) = (col.clone(), it.clone());
                if *col != it {
                    a.sort();
                    b.sort();
                    // the same items in another order are still a mismatch with iteration order
                    c.fail(&["Q03"], format!("{name}: slice {p} is {col:?}, iteration yields {it:?} (same items: {})", a == b));
                }
            }
        }
        None if group_like => c.fail(&["Q03"], format!("{name}: no slices for a grouped query")),
        None => {}
    }
    drop(q);
    // one entity
    crate::phase(&["Q04"], name);
    let mut q = w.query_one::<G>().include::<I>().exclude::<E>();
    for e in c.probes {
        let want = c.m.live.get(e).filter(|r| matches(r)).map(|r| expect(&gd, *e, r));
        let has = q.contains(*e);
        let got = q.get(*e).map(|x| G::flat(&x));
        let mapped = q.map(*e, |x| G::flat(&x));
        if got != want || has != want.is_some() || mapped != want {
            let stale = !c.m.live.contains_key(e);
            let mut t = vec!["Q04"];
            if stale {
                t.push("E05");
            }
            if got.is_some() && want.is_some() {
                t.push("Q02");
            }
            c.fails.push((t, format!("{name}: lookup of {e:?} gives contains={has} get={got:?} map={mapped:?}, the model has {want:?}")));
            break;
        }
    }
    drop(q);
    if id.is_empty() && ed.is_empty() {
        for e in c.probes {
            let want = c.m.live.get(e).is_some_and(matches);
            if w.contains::<G>(*e) != want {
                let t: &[&'static str] = if c.m.live.contains_key(e) { &["Q04"] } else { &["Q04", "E05"] };
                c.fail(t, format!("{name}: World::contains of {e:?} is not {want}"));
                break;
            }
        }
        if !c.deep {
            return;
        }
        crate::phase(&["Q01"], name);
        let mut v = vec![];
        w.for_each::<G>(|x| v.push(G::flat(&x)));
        if v != got {
            c.fail(&["Q01"], format!("{name}: World::for_each yields {v:?}, iteration {got:?}"));
        }
        let out = std::sync::Mutex::new(vec![]);
        w.par_for_each::<G>(|x| out.lock().unwrap().push(G::flat(&x)));
        if sorted(out.into_inner().unwrap()) != gs {
            c.fail(&["Q05"], format!("{name}: World::par_for_each differs from iteration"));
        }
    }
}

/// Adds `d` to every exclusively borrowed component; the model is updated by the caller.
pub fn mutate<G: Qs + 'static, I: Qs + 'static, E: Qs + 'static>(w: &World, d: u64, how: usize) {
    let mut q = w.query_all::<G>().include::<I>().exclude::<E>();
    match how {
        0 => q.for_each(|x| G::mutate(x, d)),
        1 => {
            for x in &mut q {
                G::mutate(x, d);
            }
        }
        _ => q.par_for_each(|x| G::mutate(x, d)),
    }
}
pub fn mutate_model(m: &mut Model, d: u64, (gd, id, ed): (Vec<PD>, Vec<PD>, Vec<PD>)) {
    let inc: Vec<usize> = req(&gd).into_iter().chain(req(&id)).collect();
    let exc = req(&ed);
    for r in m.live.values_mut() {
        if inc.iter().all(|k| r[*k].is_some()) && exc.iter().all(|k| r[*k].is_none()) {
            for (k, c) in &gd {
                if matches!(k, Kind::Mut | Kind::OptMut) {
                    if let Some(v) = &mut r[*c] {
                        *v = crate::canon(*c, v.wrapping_add(d) % 1000);
                    }
                }
            }
        }
    }
}

type R<T> = &'static T;
type M<T> = &'static mut T;
type O<T> = Option<&'static T>;
type OM<T> = Option<&'static mut T>;

macro_rules! queries {
    ($($i:literal: $g:ty; $inc:ty; $e:ty),* $(,)?) => {
        pub const NQ: usize = [$($i),*].len();
        pub fn check_nth(i: usize, c: &mut Ctx) {
            match i {
                $($i => check::<$g, $inc, $e>(concat!(stringify!($g), " include ", stringify!($inc), " exclude ", stringify!($e)), c),)*
                _ => unreachable!(),
            }
        }
        pub fn descs(i: usize) -> (Vec<PD>, Vec<PD>, Vec<PD>) {
            match i {
                $($i => (<$g as Qs>::desc(), <$inc as Qs>::desc(), <$e as Qs>::desc()),)*
                _ => unreachable!(),
            }
        }
        pub fn mutate_nth(i: usize, w: &World, d: u64, how: usize) {
            match i {
                $($i => mutate::<$g, $inc, $e>(w, d, how),)*
                _ => unreachable!(),
            }
        }
    };
}
queries! {
    0: R<C0>; (); (),
    1: (Entity, R<C0>, R<C1>); (); (),
    2: (Entity, M<C0>, M<C1>); (); R<C2>,
    3: (R<C1>, Entity, R<C0>, R<C2>); (); (),
    4: (Entity, R<C0>, R<C1>); (); (R<C2>, R<C3>),
    5: (Entity, R<C0>, M<C1>, O<C2>); (); (),
    6: Entity; (R<C0>, R<C1>); (),
    7: Entity; R<C0>; R<C1>,
    8: (Entity, M<C3>, O<C0>); R<C2>; (),
    9: (M<C2>, R<C3>, Entity); (); R<C0>,
    10: (Entity, R<C0>, R<C1>, R<C2>); (); R<C3>,
    11: (Entity, M<C0>, R<C1>, R<C2>, R<C3>); (); (),
    12: (Entity, R<C4>, M<C5>); (); (),
    13: (Entity, R<C5>); R<C4>; R<C6>,
    14: (Entity, R<C6>, R<C7>); (); (),
    15: (Entity, OM<C0>, OM<C1>, R<C7>); (); (),
    16: (Entity, OM<C1>, R<C0>); R<C4>; R<C3>,
    17: M<C4>; (); R<C0>,
    18: (R<C0>,); R<C1>; (),
    19: (Entity,); (R<C2>, R<C0>, R<C1>); R<C3>,
    20: (Entity, R<C0>, R<C1>, R<C2>, R<C3>, R<C4>); (); R<C5>,
    21: (Entity, O<C0>, O<C1>, O<C2>, R<C3>, O<C4>); (); (),
    22: (R<C8>, R<C9>, R<C10>, R<C11>, R<C12>, R<C13>, R<C14>, R<C15>, Entity); (); (),
    23: (R<C0>, R<C1>, R<C2>, R<C3>, R<C4>, R<C5>, R<C6>, R<C7>, R<C8>, R<C9>, R<C10>, R<C11>, R<C12>, R<C13>, R<C14>, R<C15>); (); (),
    24: Entity; (R<C0>, R<C1>, R<C2>, R<C3>, R<C4>, R<C5>, R<C6>, R<C7>, R<C8>, R<C9>, R<C10>, R<C11>, R<C12>, R<C13>, R<C14>, R<C15>); (),
    25: (Entity, R<C1>); R<C0>; R<C4>,
    26: (Entity, R<C2>, R<C3>); (R<C0>, R<C1>); (),
    27: (Entity, M<C1>, M<C0>, M<C2>); (); R<C5>,
    28: (Entity, R<C0>); (); (R<C1>, R<C2>, R<C3>),
    29: (Entity, R<C5>, R<C4>, R<C6>); (); R<C7>,
    30: (Entity, R<C2>); (); (R<C0>, R<C1>),
    31: (O<C3>, R<C1>, Entity); (R<C0>, R<C2>); (),
    32: (Entity, R<C0>, R<C1>); R<C2>; R<C3>,
    33: (Entity, R<C0>, R<C1>); (); M<C3>,
    34: (M<C0>, M<C1>, M<C2>, M<C3>, Entity, OM<C4>); (); (),
    35: (Entity, R<C3>); (); R<C2>,
    36: O<C1>; R<C0>; (),
    37: (Entity, R<C0>); M<C1>; M<C2>,
    38: (Entity, R<C0>, R<C1>, O<C3>); (); R<C2>,
    39: (Entity, R<C2>, R<C3>); (); R<C5>,
    40: (Entity, R<C0>, R<C0>, R<C1>); (); (),
    41: (R<C0>, R<C1>); (); (R<C2>, R<C2>),
    42: (Entity, R<C6>); (); R<C7>,
    43: (Entity, R<C0>, R<C1>); (); R<C5>,
    44: (Entity, R<C0>, M<C1>); (); R<C6>,
    45: (Entity, R<C2>, R<C3>); (); R<C4>,
    46: (Entity, R<C0>, R<C1>); (); R<C4>,
    47: (Entity, R<C4>, R<C5>); (); R<C6>,
    48: (Entity, R<C6>, R<C7>); R<C4>; (),
    49: (Entity, R<C0>); (); O<C1>,
    50: (Entity, R<C0>, R<C1>); (); (R<C2>, O<C3>),
    51: (Entity, R<C0>, M<C1>); (); Entity,
    52: (Entity, R<C3>); (R<C2>, O<C0>); OM<C1>,
}
