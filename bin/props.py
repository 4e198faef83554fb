"""What decides each property: contract files, verified modules, companion time."""

TRUSTED = {
    "encode": ["a component value is identified by an opaque encoding of it (equal encodings for equal bytes of the same type); a Remove tuple of Option<T> stands for the list of these"],
    "items": ["the iterator given to extend yields a fixed sequence of items (its size hints may be anything)"],
    "clone": ["derived Default, Clone and Copy do what their derives say"],
    "sort": ["contracts of sort_unstable, dedup, sort_by_cached_key (a stable permutation), Vec::from and of TypeId (an opaque totally ordered identity)"],
    "common": [
        "Verus 0.2026.09.13, vstd and Z3",
        "the extraction (bin/rustx.py, bin/extract.py): tokens are copied from /repo/src; attributes, visibilities, Debug and Hash impls are dropped; the rewrite rules of the contract files are applied",
        "memory is not exhausted; usize has 64 bits",
    ],
    "atomics": [
        "the interference of other threads on the two allocation counters is the rely condition of Counter::load/compare_exchange (values only grow, up to the cap, in steps of one)",
        "`&self` of the atomic allocation path is extracted as `&mut self`, which stands for the interior mutability",
    ],
    "heap": [
        "the raw memory of a sparse set is a ghost heap: every read, write, drop, allocation and release of its two arrays is an obligation against it; that a pointer operation of core does to the bytes what the heap says is assumed",
        "layouts (core::alloc::Layout) are sequences of typed parts; the offset of the second part is a function of the parts",
        "the table of function pointers of a sparse set holds the functions its constructor names (checked); calling an entry has the contract of that function (each is verified)",
        "an atomic_refcell cell reached exclusively is its contents; a raw pointer taken from a cell is the place of the cell in the vector",
        "a vector holds at most isize::MAX bytes",
    ],
    "maps": ["contracts of the hash map of metadata and of its entries"],
    "views": [
        "a guard of an atomic_refcell cell is the contents of the cell; an exclusive guard is the contents as they are when it is taken (what is written through it is seen by the contracts of get_mut and as_mut_slice only)",
        "an exclusive reference handed out by a query is its place in the storage; a slice or a reference made from a raw pointer of core is the values at the places it covers, each of which must be initialised (an obligation)",
        "an uninitialised array of views or slices filled part by part is taken as a tuple of its parts",
    ],
    "iters": [
        "slice iterators and raw pointers into the entity list of core are a list and a position; what a closure given to fold, for_each or map does is the relation between its calls and their results",
        "the lifetimes and moves of the extracted file are not checked again (--no-lifetime): the compiler checks them on /repo itself",
    ],
    "rayon": ["rayon calls the consumer with a split of the items of the producer it is given: a parallel iterator over a slice or a range yields each element once, map and filter_map apply their function to each"],
    "iter": ["drain, chain, map and for_each of maintain are taken as consumed at once, which is how the two callers use them"],
}
ENT = {"files": ["prelude", "entity", "thm_entity", "epilogue"], "modules": ["entity", "thm_entity"], "level": "proof", "trusted": ["atomics", "iter"], "seconds": 8}
LAY = {"files": ["prelude", "masks", "layout", "thm_layout", "epilogue"], "modules": ["masks", "layout", "thm_layout"], "level": "proof", "trusted": ["sort"], "seconds": 8}
STO = {"files": ["prelude", "masks", "layout", "entity", "set", "group", "info", "storage", "epilogue"], "modules": ["masks", "layout", "entity", "set", "group", "info", "storage"], "level": "proof", "trusted": ["sort", "heap", "maps"], "seconds": 8}
COMPS = ["comps"] + [f"comps_{i}" for i in range(17)]
WLD = {"files": STO["files"][:-1] + ["sets", "comps", "world", "thm_world", "epilogue"], "modules": STO["modules"] + ["sets"] + COMPS + ["world", "thm_world"], "level": "proof", "trusted": ["sort", "atomics", "iter", "heap", "maps", "encode", "items", "clone"], "seconds": 8}
# the tuples of more than four components are left to the checks of C01 and to the thorough tier
WLQ = dict(WLD, quick_skip=[f"comps_{i}" for i in range(5, 17)])
QRY = {"files": WLD["files"][:-1] + ["range", "view", "query", "queries", "tuples", "one", "iters", "pars", "all", "thm_query", "epilogue"],
       "modules": WLD["modules"] + ["range", "view", "query", "queries"] + [f"queries_{i}" for i in range(1, 17)] + ["one", "iters", "pars", "all", "thm_query"],
       "level": "proof", "trusted": WLD["trusted"] + ["views", "iters", "rayon"], "seconds": 8, "flags": ["--no-lifetime"], "timeout": 700,
       "quick_skip": COMPS[6:] + [f"queries_{i}" for i in range(5, 17)]}
PROPS = {
    "Q01": dict(QRY, note="iter, for_each and into_iter of QueryAll and World::for_each are verified to yield one item for each matching live entity and no other, with the queries of every arity up to 16, dense or sparse"),
    "Q02": dict(QRY, note="every item is verified to be the parts of its own entity: is_item of every part and tuple is in the contract of the iterators, get, map and slice; theorem_q02_own_places: exclusive references of two items are different places"),
    "Q03": dict(QRY, note="slice is verified to offer the slices of the range of the query exactly when it may; theorem_q03_one_order, theorem_q03_slices: the slices and the dense iteration have the same entities in the same order"),
    "Q04": dict(QRY, note="contains, get and map of QueryOne and World::query_one/contains are verified against the same matching relation as iteration (q04_agree)"),
    "Q05": dict(QRY, note="par_iter, par_for_each and the drive functions of the parallel iterators are verified against the same answers as iteration, relative to the contract of rayon's slice, range and adapter iterators (theorem_q05_same)"),
    "Q06": dict(QRY, note="next, fold, size_hint and for_each of the iterators are verified against one list of remaining items, in order"),
    "C01": dict(WLD, note="create, extend, insert, remove and delete of the world, for component sets of every arity up to 16, are verified against the map from entity and type to value"),
    "C02": dict(WLQ, note="destroy, clear and reset of the world are verified against the map from entity and type to value, the live handles, the registrations and the groups"),
    "E05": dict(WLQ, note="every operation of the world is verified for every handle; theorem_e05_no_components: a handle that is not live has no components in any reachable state"),
    "R01": dict(WLQ, note="register, register_dyn, is_registered and the builder are verified; a panic for a missing component is allowed only where the type is not registered; operations that return have all their types registered"),
    "G02": dict(QRY, note="the contracts of the operations of the world speak about handles and values only; thm_world: the same operation on two worlds that differ only in their layouts gives the same result and worlds that differ only in their layouts; thm_query: the answers to a query on the two have the same entities and values"),
    "C03": dict(WLQ, note="every value of a storage is in one heap cell; inserting, removing, deleting, clearing, relocating and releasing are verified to move it out once or to drop it once"),
    "G01": dict(WLQ, note="group, ungroup, ungroup_all, strip, clear and set_layout keep the complete entities of every group packed and aligned"),
    "L03": dict(WLQ, note="set_layout keeps every value, registration and drop count, and leaves exactly the groups of the layout, packed"),
    "L01": dict(LAY, note="try_add_group and add_group_dyn are verified against the sets of components of the groups; panics are obligations: a panic is allowed only where the group is not acceptable; theorem_l01_accepted and l01_any_order cover every order of additions"),
    "L02": dict(LAY, note="add_group_dyn returns only when the group is acceptable (chain with every overlapping group, one family, at most 16 components) and the layout then has exactly one more group; theorem_l02_partial_overlap"),
    "E01": dict(ENT, note="allocate, allocate_atomic, recycle, maintain, reset and the storage operations are verified against may_issue; theorem_e01_never_issued_twice is the induction over histories"),
    "E02": dict(ENT, note="EntityStorage operations are verified against the set of live handles; the list has no duplicates and agrees with the containment test"),
    "E03": dict(ENT, note="pending handles are a function of the allocator state; maintain makes exactly these live and nothing else"),
    "E04": dict(ENT, note="compare-and-swap loops are verified under interference (rely/guarantee); theorem_e04_* turn the per-thread guarantees into global distinctness"),
    "O01": dict(ENT, note="cmp and partial_cmp are verified against a mathematical order; next against the successor"),
}
TODO = "not yet within the contracts: the functions it depends on are not under contract so far"
NOT_APPLICABLE = {
    "F01": "Verus has no semantics for unwinding, so no contract can speak about the state left behind by a caught panic",
    "B01": "exclusion of live views is decided by the external crate atomic_refcell at run time; its code is outside /repo and only a contract on it could be assumed, which would be the property itself",
}
for _p in "E05 C01 C02 C03 R01 G01 G02 Q01 Q02 Q03 Q04 Q05 Q06 L01 L02 L03".split():
    if _p not in PROPS:
        NOT_APPLICABLE[_p] = TODO
