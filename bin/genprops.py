#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=hook)))
EA='src/entity/entity_allocator.rs'; ES='src/entity/entity_storage.rs'; ESS='src/entity/entity_sparse_set.rs'; SV='src/entity/sparse_vec.rs'; EM='src/entity/mod.rs'
CS='src/component/component_set.rs'; CSS='src/component/component_sparse_set.rs'; CST='src/component/component_storage.rs'; CD='src/component/component_data.rs'
GR='src/component/group.rs'; GI='src/component/group_info.rs'; GL='src/component/group_layout.rs'; GM='src/component/group_mask.rs'; SM='src/component/storage_mask.rs'; VW='src/component/view.rs'
W='src/world/mod.rs'; WB='src/world/builder.rs'
Q='src/query/mod.rs'; QA='src/query/query_all.rs'; QO='src/query/query_one.rs'; QP='src/query/query_part.rs'; DI='src/query/iter/dense_iter.rs'; SI='src/query/iter/sparse_iter.rs'; IT='src/query/iter/mod.rs'
PD='src/query/par_iter/dense_par_iter.rs'; PS='src/query/par_iter/sparse_par_iter.rs'; PM='src/query/par_iter/mod.rs'

p('E01','Entity handles are never issued twice',
 'Between two resets of a world, no entity handle (index and version together) is ever returned twice by any of the ways of creating entities, whatever mix of creating, destroying, deferring, maintaining and clearing happens in between. When no unused handle is left, creation panics instead of reusing one.',
 ['histories'],'every finite history of create/extend/create_atomic/maintain/destroy/clear without reset, including histories that exhaust versions or indexes',
 'entities_crud.rs runs one fixed sequence of a few entities; reuse needs particular orders of recycling, deferred creation and maintenance, and exhaustion needs 2^32 steps.',
 [EA,ES,EM,W],[('recycling queue with bumped versions',EA+' EntityAllocator::{allocate,allocate_atomic,recycle}'),('version exhaustion',EM+' Version::next')],
 [('recycled','handles waiting for reuse, last ones already handed out but not maintained',EA)],['World::create','World::extend','World::create_atomic'])
p('E02','The set of live entities is exactly what was created and not destroyed',
 'After any history the world contains exactly the entities that were created (directly, or deferred and then maintained) and have not been destroyed, cleared or reset; the entity list holds each of them once and agrees with the containment test, the emptiness test and the result of destroy. A handle that is not live, including one with a reused index or a forged one, is never reported as contained.',
 ['histories','inputs'],'every history of entity operations and every handle value passed to them',
 'The tests create at most a handful of entities and query only handles they just created.',
 [ESS,ES,SV,W],[('sparse set of entities',ESS),('index growth',SV+' SparseVec::get_mut_or_allocate_at')],
 [('entities','dense list of live entities',ESS),('sparse','dense position and version per index',SV)],['World::entities','World::contains_entity','World::is_empty','World::destroy'])
p('E03','Deferred entities appear exactly at maintenance and nothing is revived',
 'An entity created in deferred mode is not live until the next maintenance, is live right after it unless the world was cleared or reset in between, and maintenance adds no other entity: in particular it never brings back an entity that was destroyed. Clearing or resetting discards what was pending.',
 ['histories'],'every interleaving of create_atomic, create, extend, destroy, maintain, clear and reset',
 'No test mixes direct creation, destruction and deferred creation before a maintenance.',
 [EA,ES,W],[('maintain drains pending handles',EA+' EntityAllocator::maintain'),('clear discards pending handles',ES+' EntityStorage::clear')],
 [('recycled_since_maintain','recycled handles handed out since the last maintenance',EA),('last_maintained_index','first fresh index not yet maintained',EA)],['World::maintain','World::create_atomic','World::contains_entity'])
p('E04','Concurrent deferred creation hands out distinct handles',
 'When any number of threads create entities in deferred mode on a shared world at the same time, all handles returned are pairwise distinct, none of them is live or was returned before, and the next maintenance makes exactly these handles live. No interleaving of the threads makes a call fail while an unused handle is left.',
 ['schedules','histories'],'every interleaving of any number of concurrent create_atomic calls, from every reachable allocator state',
 'No test calls create_atomic from more than one thread.',
 [EA,ES,W],[('compare-and-swap claim of a recycled position',EA+' increment_recycled_since_maintain'),('compare-and-swap claim of a fresh index',EA+' increment_next_index_to_allocate')],
 [('next_index_to_allocate','next fresh index',EA)],['World::create_atomic'])
p('E05','Stale and forged handles never reach another entity\'s components',
 'Every operation given a handle that is not live (destroyed, pending, from before a clear, or made up) behaves as if that entity had no components: inserts report failure, removals and lookups return nothing, deletion and destruction do nothing. None of them reads or changes the components of the entity that now uses the same index.',
 ['histories','inputs'],'every non-live handle value, every world state',
 'Tests use destroyed handles only for containment, and never after the index was reused.',
 [SV,CSS,CS,W,QO,VW],[('version check on lookup',SV+' SparseVec::{get,contains,remove}'),('liveness check before insert',W+' World::insert')],
 [('version','version stored with each index',SV)],['World::{insert,remove,delete,destroy,contains,query_one}','View::get'])
p('C01','Component storage behaves as a map from live entity and type to value',
 'After any history each live entity has, for each component type, exactly the value most recently inserted for it and not since removed: insert overwrites only the given components of that entity, remove returns exactly the stored values, delete discards them, and every other entity and component type keeps its value. Bulk creation gives each new entity the components produced for it, in order.',
 ['histories','inputs'],'every history of create/extend/insert/remove/delete/destroy and mutation through views and queries; any number of entities and component types',
 'components_crud.rs checks two entities with two component types; dense positions moved by swap-removal and growth are not exercised.',
 [CSS,CS,W,VW],[('swap-remove keeps dense arrays and index table in step',CSS+' insert/remove/delete/swap_typed'),('storage growth copies contents',CSS+' grow_typed')],
 [('entities/components','parallel dense arrays',CSS)],['World::{create,extend,insert,remove,delete}','View','query_one'])
p('C02','Destroying, clearing and resetting remove exactly the right components',
 'Destroying an entity removes all of its components of every type and nothing else; clearing or resetting a world removes every entity and every component. Component registrations and the group layout stay as they were, so the world can be used again at once.',
 ['histories'],'every world state and layout',
 'The tests destroy or clear tiny ungrouped worlds and do not look at other entities or reuse the world.',
 [CST,W,GR],[('strip deletes from every storage',CST+' ComponentStorage::strip'),('clear empties storages and groups',CST+' ComponentStorage::clear')],
 [('components','one storage per registered type',CST)],['World::{destroy,clear,reset,is_registered}','View::len'])
p('C03','Every component value is dropped or handed back exactly once',
 'Each component value given to a world is either handed back to the caller once, or dropped once when it is overwritten, deleted, its entity is destroyed, or the world is cleared, reset, relaid out or dropped; it is never dropped twice, leaked or used after being dropped. This includes zero-sized types, types without drop code and over-aligned types.',
 ['histories'],'every history of world operations, for every component type',
 'No test uses component types with destructors.',
 [CSS,CST,CS],[('moves out of and into raw storage',CSS+' insert/remove/delete/clear_typed/drop_typed/grow_typed')],
 [('len','number of initialised slots',CSS)],['Drop of components'])
p('R01','Component registration is idempotent and complete',
 'Registering a type reports true exactly the first time and afterwards the type stays registered; types named by the group layout or the builder are registered when the world is built. Registering never disturbs existing components, and operations on a type that was never registered panic instead of touching other data.',
 ['histories','configurations'],'every order of registrations, layouts and operations',
 'components_register.rs registers two types on an empty world.',
 [CST,W,WB,CD],[('type-id map to storages',CST+' ComponentStorage::register_dyn')],
 [('metadata','storage index and group masks per type id',CST)],['World::{register,is_registered}','WorldBuilder::build'])
p('G01','Groups hold exactly the complete entities, packed and aligned',
 'At every moment between calls, for every group of the layout, the entities that have all the components of the group occupy the first positions of each of the storages of the group, in the same order in all of them, and no other entity lies in that range. Grouped slices and dense iteration therefore see exactly the complete entities.',
 ['histories','configurations'],'every group layout and every history of creations, insertions, removals, destructions and relayouts',
 'iterators.rs builds one layout once and never changes the entities afterwards.',
 [GR,CST,CS,GM],[('grouping after insert',GR+' group'),('ungrouping before removal',GR+' ungroup, ungroup_all'),('masks select affected groups',CST+' set_layout')],
 [('groups','length and storage range of each group',GR)],['QueryAll::slice','View::entities'])
p('G02','Grouping never changes the result of an operation',
 'The same history of operations gives the same entities, components and query results (as sets, and as pairs of entity and value) under every valid group layout, including none; a layout only affects order and whether slices are available.',
 ['configurations','histories'],'every pair of layouts and every history',
 'Each test runs under a single layout.',
 [CST,GR,GI,QA],[('dense path only when masks match exactly',CST+' group_range, include_group_range, exclude_group_range'),('combination of view group information',GI)],
 [('group_info','group interval and storage bit of a type',GI)],['QueryAll::{iter,slice}'])
p('Q01','Iteration yields each matching entity exactly once',
 'Iterating a query that names at least one required component yields one item for each live entity that has all required and included components and none of the excluded ones, and for no other entity, whether the iteration is dense or sparse, and with up to 16 parts. Optional parts do not affect which entities match.',
 ['histories','inputs','configurations'],'every world state, layout and combination of get/include/exclude parts',
 'iterators.rs samples three filters on one fixed population.',
 [Q,QA,QP,SI,DI],[('smallest storage drives sparse iteration',Q+' split_sparse_parts'),('filters',SI+' next'),('group range drives dense iteration',QA+' get_group_range')],
 [],['QueryAll::{iter,for_each,into_iter}','World::for_each'])
p('Q02','Query items are the components of the entity they belong to',
 'In every item produced by a query, every part belongs to the same entity: the handle part is that live entity\'s current handle, each component reference is that entity\'s own component, and an optional part is present exactly when the entity has the component. Exclusive references handed out during one iteration never refer to the same component twice, and writes through them are seen by later reads of that entity only.',
 ['histories','inputs','configurations'],'every world state, layout and combination of parts in every position of the tuple',
 'The tests use entities whose components all carry the same value, in creation order.',
 [QP,Q,DI,SI],[('key lookup per part',QP+' get_sparse_key_raw/get_sparse_raw'),('dense access by position',QP+' get_dense_raw')],
 [],['QueryAll::iter','QueryOne::get'])
p('Q03','Slices match the iteration of the same query',
 'Whenever a query offers slices, all the slices have the same length and order, position i of each of them belongs to the same entity, and together they are exactly the items the iteration of that query yields. Slices are offered whenever the required and included components are exactly those of a group, or a single component without filters, and there is no exclusion.',
 ['histories','configurations'],'every layout, world state and query',
 'iterators.rs does not look at the slices of filtered queries or at their alignment.',
 [QA,QP,CST],[('range of the group',CST+' group_range'),('slices of raw storage',QP+' slice_raw')],
 [],['QueryAll::slice'])
p('Q04','Single-entity queries and containment tests apply the filters exactly',
 'Looking up one entity with a query that names at least one required component succeeds exactly when the entity is live and has every required and included component and none of the excluded ones, in agreement with the containment test of the same query and with what iterating that query yields. World-level containment gives the same answer.',
 ['histories','inputs'],'every handle, world state and combination of parts',
 'The tests look up one entity with one component.',
 [QO,Q,QP,SV],[('filter evaluation',QO+' contains/get'),('none-of test for exclusions',Q+' contains_none')],
 [],['QueryOne::{get,contains,map}','World::contains'])
p('Q05','Parallel iteration visits the same items as sequential iteration',
 'Parallel iteration of any query visits exactly the items that sequential iteration yields, each exactly once, for every way the work is split over threads. Lengths reported by parallel iterators are exact.',
 ['schedules','histories','configurations'],'every split of the work, every world state and query',
 'The tests never compare parallel with sequential iteration.',
 [PD,PS,PM,QA],[('index range split by rayon',PD),('filter-map over entities',PS)],
 [],['QueryAll::{par_iter,par_for_each}','World::par_for_each'])
p('Q06','Iterator adapters agree with stepping one by one',
 'Consuming an iterator internally (fold, for_each, count) at any point, even after some items were taken, produces exactly the items that repeated next calls would have produced, in the same order. Size hints bound the number of remaining items, exact lengths are exact, and an exhausted iterator stays exhausted.',
 ['inputs','histories'],'every query, world state and number of items already taken',
 'The tests only use complete loops.',
 [DI,SI,IT],[('fold specialisations',DI+' and '+SI),('exact size',DI+' len')],
 [],['Iter','DenseIter','SparseIter'])
p('L01','Nested groups are accepted in any order and up to the declared limits',
 'Any collection of groups in which any two groups are either disjoint or nested in a chain is accepted whatever order its groups are added in, up to 16 components per group and 64 groups, and the layout then has exactly these groups. Repeating a group or a component inside a group changes nothing, and groups with fewer than two distinct components are ignored.',
 ['configurations','inputs'],'every order of every compatible collection of groups',
 'The tests add at most three groups, smallest first.',
 [GL,SM,GM,CST],[('insertion into the chain of nested groups',GL+' GroupFamily::try_add_group'),('bit masks of groups and storages',GM+' and '+SM)],
 [('components/arities','chain of nested groups as prefixes of one list',GL)],['GroupLayout::add_group','WorldBuilder::add_group'])
p('L02','Incompatible groups are rejected',
 'Adding a group that overlaps an existing group without one containing the other, that has more than 16 distinct components, or that would join two families of groups panics; it is never accepted silently in a changed form.',
 ['configurations','inputs'],'every layout and every group added to it',
 'No test adds an incompatible group.',
 [GL],[('subset and superset checks',GL+' GroupFamily::try_add_group'),('one family at most',GL+' GroupLayout::add_group_dyn')],
 [],['GroupLayout::add_group'])
p('L03','Changing the layout of a populated world keeps all its data',
 'Setting a new layout on a world in any state keeps every entity, every component value and every registration, registers the types the layout names, and afterwards the groups of the new layout, and no others, hold exactly the complete entities.',
 ['histories','configurations'],'every world state and every old and new layout',
 'No test changes the layout of a world that has entities.',
 [CST,W],[('storages are moved to their new positions',CST+' set_layout, extract_sparse_sets'),('regrouping of all entities',CST+' set_layout')],
 [],['World::set_layout'])
p('O01','Entities are totally ordered, consistently with equality',
 'Entity handles are equal exactly when their indexes and versions are equal, their order is a total order consistent with that equality and with hashing, and a version always orders before its successor. The last version has no successor, and a successor is always the next larger number.',
 ['inputs'],'all pairs and triples of handles',
 'No test compares handles by order.',
 [EM],[('ordering by version then index',EM+' Ord for Entity'),('successor',EM+' Version::next')],
 [],['Ord for Entity','Version::next'])
p('F01','Panics in user code leave the world consistent',
 'If user code called by the world panics (a component destructor, the iterator given to bulk creation, or an operation naming an unregistered type in the middle of a tuple) and the panic is caught, the world can still be used: no value is dropped twice and groups stay correct.',
 ['fault_sequences'],'every point at which user code can panic',
 'No test panics inside a component or an iterator.',
 [CSS,CS],[('order of state updates around user code',CSS+' delete/clear_typed/drop_typed')],
 [],['World'])
p('B01','Live views never alias',
 'While an exclusive view of a component type is alive, every other attempt to borrow that type through the shared world panics, and while shared views are alive an exclusive one does; when all views are gone the type can be borrowed again.',
 ['schedules','histories'],'every sequence and interleaving of borrows and releases',
 'No test holds two views of the same type.',
 [CST,VW],[('run-time borrow checking of each storage',CST+' borrow/borrow_mut')],
 [],['World::{borrow,borrow_mut,query_all,query_one}'])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,x['title']
    n=len([s for s in x['statement'].replace('e.g.','').split('. ') if s.strip()]); assert n<=3,(x['id'],n)
print(len(P))
