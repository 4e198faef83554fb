//! The oracle: entities, components and groups as plain maps.
use crate::comps::NK;
use sparsey::Entity;
use std::collections::{BTreeMap, BTreeSet};

pub type Row = [Option<u64>; NK];

#[derive(Default, Clone)]
pub struct Model {
    pub live: BTreeMap<Entity, Row>,
    pub pending: Vec<Entity>,
    pub issued: BTreeSet<Entity>,
    /// handles that are not live (any more), most recent last
    pub dead: Vec<Entity>,
}
impl Model {
    pub fn count(&self, k: usize) -> usize {
        self.live.values().filter(|r| r[k].is_some()).count()
    }
    pub fn has(&self, e: Entity, ks: &[usize]) -> bool {
        self.live.get(&e).is_some_and(|r| ks.iter().all(|k| r[*k].is_some()))
    }
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}
