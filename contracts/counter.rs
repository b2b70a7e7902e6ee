#![feature(allocator_api)]
#![allow(unused)]
// Unit `counter`: src/ngrams/counter.rs (NgramCounter), instantiated for ${ATOMIC}.
//@claims C01: NgramCounter::new NgramCounter::increment NgramCounter::hash NgramCounter::index_for_hash NgramCounter::theorem_never_undercounts NgramCounter::theorem_exact_without_collision NgramCounter::lemma_history_inc lemma_inc_cell
//@claims C02: NgramCounter::new NgramCounter::decrement NgramCounter::max_count NgramCounter::hash NgramCounter::index_for_hash NgramCounter::theorem_dec_never_above NgramCounter::theorem_dec_exact NgramCounter::theorem_max_never_above NgramCounter::theorem_max_exact NgramCounter::lemma_history_dec lemma_dec_cell
//@claims C04: NgramCounter::new NgramCounter::hash NgramCounter::index_for_hash
//@claims C12: NgramCounter::new NgramCounter::nonzero NgramCounter::increment NgramCounter::hash NgramCounter::index_for_hash NgramCounter::lemma_history_inc NgramCounter::theorem_unique NgramCounter::theorem_unique_exact
//@claims C26: NgramCounter::new
//@variant u8 INT=u8 ATOMIC=AtomicU8
//@variant u32 INT=u32 ATOMIC=AtomicU32
//@variant u64 INT=u64 ATOMIC=AtomicU64
use vstd::prelude::*;
//@include shim_macros.rs
verus! {
global size_of usize == 8;
//@include shim_core.rs
//@include shim_atomic.rs
//@include shim_hash.rs
//@include shim_result.rs

type A = ${ATOMIC};

//@include shim_std.rs

pub assume_specification<T, AL: std::alloc::Allocator> [Vec::<T, AL>::try_reserve_exact] (v: &mut Vec<T, AL>, n: usize) -> (r: core::result::Result<(), std::collections::TryReserveError>)
    ensures final(v)@ == old(v)@;

pub struct NgramCounter {
    pub size: usize,
    pub num_hash_functions: usize,
    pub hash_builders: Vec<RandomState>,
    pub count_array: Vec<A>,
}

// ------------------------------------------------------------------ specification functions
pub open spec fn wrap64(x: int) -> u64 { if x > u64::MAX { (x - u64::MAX - 1) as u64 } else { x as u64 } }
pub open spec fn sat_add(x: int, by: int) -> int { if x + by > MAXV { MAXV } else { x + by } }
pub open spec fn sat_sub(x: int, by: int) -> int { if x - by < 0 { 0 } else { x - by } }
pub open spec fn min2(a: int, b: int) -> int { if b < a { b } else { a } }
pub open spec fn max2(a: int, b: int) -> int { if b > a { b } else { a } }

/// the table after the first n cells of `ix` were each incremented (saturating)
pub open spec fn inc_n(t: Seq<int>, ix: Seq<int>, n: int, by: int) -> Seq<int>
    decreases n
{ if n <= 0 { t } else { let p = inc_n(t, ix, n - 1, by); p.update(ix[n - 1], sat_add(p[ix[n - 1]], by)) } }
pub open spec fn dec_n(t: Seq<int>, ix: Seq<int>, n: int, by: int) -> Seq<int>
    decreases n
{ if n <= 0 { t } else { let p = dec_n(t, ix, n - 1, by); p.update(ix[n - 1], sat_sub(p[ix[n - 1]], by)) } }
/// value returned: minimum over the cells just after each was incremented
pub open spec fn inc_ret(t: Seq<int>, ix: Seq<int>, n: int, by: int) -> int
    decreases n
{ if n <= 0 { MAXV } else { min2(inc_ret(t, ix, n - 1, by), sat_add(inc_n(t, ix, n - 1, by)[ix[n - 1]], by)) } }
pub open spec fn dec_ret(t: Seq<int>, ix: Seq<int>, n: int, by: int) -> int
    decreases n
{ if n <= 0 { 0 } else { max2(dec_ret(t, ix, n - 1, by), sat_sub(dec_n(t, ix, n - 1, by)[ix[n - 1]], by)) } }
pub open spec fn max_ret(t: Seq<int>, ix: Seq<int>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { max2(max_ret(t, ix, n - 1), t[ix[n - 1]]) } }
/// minimum over the cells as they are in `t`
pub open spec fn min_ret(t: Seq<int>, ix: Seq<int>, n: int) -> int
    decreases n
{ if n <= 0 { MAXV } else { min2(min_ret(t, ix, n - 1), t[ix[n - 1]]) } }
pub open spec fn nonzero_n(t: Seq<int>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { nonzero_n(t, n - 1) + if t[n - 1] > 0 { 1int } else { 0 } } }

impl NgramCounter {
    /// representation invariant
    pub open spec fn wf(&self, w: World) -> bool {
        &&& self.size > 0
        &&& self.count_array@.len() == self.size
        &&& self.hash_builders@.len() == self.num_hash_functions
        &&& forall|i: int| 0 <= i < self.size ==> (#[trigger] self.count_array@[i]).live(w)
        &&& forall|i: int, j: int| 0 <= i < j < self.size ==>
                (#[trigger] self.count_array@[i]).id() != (#[trigger] self.count_array@[j]).id()
    }
    pub open spec fn table(&self, w: World) -> Seq<int> {
        Seq::new(self.size as nat, |i: int| self.count_array@[i].at(w))
    }
    pub open spec fn cell_of(&self, ng: Seq<Tok>, i: int) -> int {
        hash_val(self.hash_builders@[i].id(), ng) as int % self.size as int
    }
    pub open spec fn cells_of(&self, ng: Seq<Tok>) -> Seq<int> {
        Seq::new(self.num_hash_functions as nat, |i: int| self.cell_of(ng, i))
    }
    /// nothing outside the table changed
    pub open spec fn frame(&self, w0: World, w1: World) -> bool {
        &&& w0.cells@.dom() =~= w1.cells@.dom()
        &&& forall|id: int| (forall|i: int| 0 <= i < self.size ==> (#[trigger] self.count_array@[i]).id() != id)
                ==> w0.cells@[id] == #[trigger] w1.cells@[id]
    }

    // -------------------------------------------------------------- functions under contract
    pub fn new(size: usize, num_hash_functions: usize, seed: Option<u64>, initial_value: <A as Atomic>::Type, w: &mut World) -> (r: Result<Self>)
        ensures
            size == 0 ==> r is Err, // [C26]
            r is Ok ==> r->Ok_0.wf(*final(w)),
            r is Ok ==> r->Ok_0.size == size && r->Ok_0.num_hash_functions == num_hash_functions,
            r is Ok ==> r->Ok_0.table(*final(w)) == Seq::new(size as nat, |i: int| initial_value as int), // [C01 C02 C12]
            // hashing is a function of the seed alone when one is given
            r is Ok && seed is Some ==> forall|i: int| 0 <= i < num_hash_functions ==>
                (#[trigger] r->Ok_0.hash_builders@[i]).reproducible(), // [C04]
            r is Ok && seed is Some ==> forall|i: int, j: int| 0 <= i < j < num_hash_functions ==>
                (#[trigger] r->Ok_0.hash_builders@[i]).id() != (#[trigger] r->Ok_0.hash_builders@[j]).id(), // [C04]
            // existing atomics are untouched
            forall|id: int| old(w).cells@.dom().contains(id) ==> #[trigger] final(w).cells@.dom().contains(id) && final(w).cells@[id] == old(w).cells@[id],
    {
/*@body
@file src/ngrams/counter.rs
@item NgramCounter::new
@end
    proof {
        broadcast use axiom_seeded_state_inj;
        if __r is Ok && seed is Some {
            let hb = __r->Ok_0.hash_builders@;
            let s = seed->Some_0;
            assert forall|i: int, j: int| 0 <= i < j < num_hash_functions implies
                (#[trigger] hb[i]).id() != (#[trigger] hb[j]).id() by {
                assert(hb[i].id() == seeded_state(wrap64(s + i), s, s, s));
                assert(hb[j].id() == seeded_state(wrap64(s + j), s, s, s));
                assert(wrap64(s + i) != wrap64(s + j));
            }
        }
    }
@params size num_hash_functions seed initial_value
@locals count_array hash_builders i hash_builder
@world A::new
@ty count_array Vec<A>
@ty hash_builders Vec<RandomState>
@loop 0 for
    invariant
        size > 0,
        count_array@.len() == __i0,
        forall|i: int| 0 <= i < __i0 ==> (#[trigger] count_array@[i]).live(*w) && count_array@[i].at(*w) == initial_value as int
            && !old(w).cells@.dom().contains(count_array@[i].id()),
        forall|i: int, j: int| 0 <= i < j < __i0 ==>
                (#[trigger] count_array@[i]).id() != (#[trigger] count_array@[j]).id(),
        forall|id: int| old(w).cells@.dom().contains(id) ==> #[trigger] w.cells@.dom().contains(id) && w.cells@[id] == old(w).cells@[id],
@top 1
    broadcast use axiom_seeded_state_inj;
@loop 1 for
    invariant
        hash_builders@.len() == i, i <= num_hash_functions <= u64::MAX,
        seed is Some ==> forall|j: int| 0 <= j < i ==> (#[trigger] hash_builders@[j]).reproducible(), // [C04]
        seed is Some ==> forall|j: int| 0 <= j < i ==> (#[trigger] hash_builders@[j]).id()
            == seeded_state(wrap64(seed->Some_0 + j), seed->Some_0, seed->Some_0, seed->Some_0), // [C04]
@*/
    }

    pub fn nonzero(&self, w: &mut World) -> (r: u64)
        requires self.wf(*old(w)),
        ensures *final(w) == *old(w), r == nonzero_n(self.table(*old(w)), self.size as int),
    {
/*@body
@file src/ngrams/counter.rs
@item NgramCounter::nonzero
@params self
@locals nonzero_count zero item
@world load fetch_add store fetch_sub fetch_max fetch_min swap
@loop 0 for via vx_vec_iter
    invariant
        self.wf(*w), *w == *old(w), zero == 0,
        __it0.seq() == self.count_array@, 0 <= __it0.pos() <= self.size,
        nonzero_count == nonzero_n(self.table(*w), __it0.pos()),
        nonzero_count <= __it0.pos(),
    ensures
        __it0.pos() == self.size,
    decreases self.size - __it0.pos(),
@*/
    }

    pub fn increment(&self, ngram: &NgramSeq, by: <A as Atomic>::Type, w: &mut World) -> (r: <A as Atomic>::Type)
        requires self.wf(*old(w)),
        ensures
            self.wf(*final(w)), self.frame(*old(w), *final(w)),
            self.table(*final(w)) == inc_n(self.table(*old(w)), self.cells_of(ngram@), self.num_hash_functions as int, by as int),
            // between the smallest value the cells had just after each was incremented, and their
            // minimum afterwards
            r >= inc_ret(self.table(*old(w)), self.cells_of(ngram@), self.num_hash_functions as int, by as int), // [C01]
            r <= min_ret(self.table(*final(w)), self.cells_of(ngram@), self.num_hash_functions as int), // [C01]
    {
/*@body
@file src/ngrams/counter.rs
@item NgramCounter::increment
@sub? .saturating_sub(&by) =>> .saturating_sub(by)
@params self ngram by
@locals min_count i hash index old_count count settled_count
@start
    proof { self.lemma_table(*old(w)); self.lemma_cells_ok(ngram@); }
@end
    proof {
        self.lemma_inc_le_min(self.table(*old(w)), ngram@, self.num_hash_functions as int, by as int);
    }
@world fetch_add store load fetch_sub fetch_max fetch_min swap
@loop 0 for
    invariant
        self.wf(*w), self.frame(*old(w), *w),
        self.table(*w) =~= inc_n(self.table(*old(w)), self.cells_of(ngram@), i as int, by as int),
        min_count == inc_ret(self.table(*old(w)), self.cells_of(ngram@), i as int, by as int), // [C01]
@loop 1 for
    invariant
        self.wf(*w), self.frame(*old(w), *w),
        self.table(*w) =~= inc_n(self.table(*old(w)), self.cells_of(ngram@), self.num_hash_functions as int, by as int),
        settled_count == min_ret(self.table(*w), self.cells_of(ngram@), i as int), // [C01]
@*/
    }

    pub fn decrement(&self, ngram: &NgramSeq, by: <A as Atomic>::Type, w: &mut World) -> (r: <A as Atomic>::Type)
        requires self.wf(*old(w)),
        ensures
            self.wf(*final(w)), self.frame(*old(w), *final(w)),
            self.table(*final(w)) == dec_n(self.table(*old(w)), self.cells_of(ngram@), self.num_hash_functions as int, by as int),
            r <= dec_ret(self.table(*old(w)), self.cells_of(ngram@), self.num_hash_functions as int, by as int),
            r >= max_ret(self.table(*final(w)), self.cells_of(ngram@), self.num_hash_functions as int),
    {
/*@body
@file src/ngrams/counter.rs
@item NgramCounter::decrement
@sub? .saturating_sub(&by) =>> .saturating_sub(by)
@params self ngram by
@locals max_count i hash index old_count count
@start
    proof { self.lemma_table(*old(w)); self.lemma_cells_ok(ngram@); }
@end
    proof {
        self.lemma_dec_ge_max(self.table(*old(w)), ngram@, self.num_hash_functions as int, by as int);
    }
@world fetch_add store load fetch_sub fetch_max fetch_min swap
@loop 0 for
    invariant
        self.wf(*w), self.frame(*old(w), *w),
        self.table(*w) =~= dec_n(self.table(*old(w)), self.cells_of(ngram@), i as int, by as int),
        max_count == dec_ret(self.table(*old(w)), self.cells_of(ngram@), i as int, by as int),
@*/
    }

    pub fn max_count(&self, ngram: &NgramSeq, w: &mut World) -> (r: <A as Atomic>::Type)
        requires self.wf(*old(w)),
        ensures
            *final(w) == *old(w),
            r == max_ret(self.table(*old(w)), self.cells_of(ngram@), self.num_hash_functions as int),
    {
/*@body
@file src/ngrams/counter.rs
@item NgramCounter::max_count
@params self ngram
@locals max_count i hash index count
@world load fetch_add store fetch_sub fetch_max fetch_min swap
@loop 0 for
    invariant
        self.wf(*w), *w == *old(w),
        max_count == max_ret(self.table(*old(w)), self.cells_of(ngram@), i as int),
@*/
    }

    fn hash(&self, ngram: &mut TokIter, hasher: usize) -> (r: usize)
        requires hasher < self.hash_builders@.len(),
        ensures r == hash_val(self.hash_builders@[hasher as int].id(), old(ngram).rest()),
    {
/*@body
@file src/ngrams/counter.rs
@item NgramCounter::hash
@params self ngram hasher
@locals hasher token
@start
    let ghost all = ngram.rest();
    let ghost k = hasher as int;
@loop 0 for via vx_by_ref
    invariant
        hasher.state() == self.hash_builders@[k].id(),
        hasher.fed() + __it0.rest() =~= all,
    ensures
        __it0.rest().len() == 0,
    decreases __it0.rest().len(),
@*/
    }

    fn index_for_hash(&self, hash: usize) -> (r: usize)
        requires self.size > 0,
        ensures r == hash as int % self.size as int, r < self.size,
    {
/*@body
@file src/ngrams/counter.rs
@item NgramCounter::index_for_hash
@params self hash
@*/
    }
}

//@include counter_lemmas.rs
fn main() {}
} // verus!
