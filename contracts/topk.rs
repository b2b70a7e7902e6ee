#![allow(unused)]
// Unit `topk`: src/ngrams/topk.rs (TopKNgrams), instantiated for ${ATOMIC}.
//@claims C05: TopKNgrams::new TopKNgrams::insert TopKNgrams::drain TopKNgrams::min_count theorem_topk_unique theorem_drain_is_best_k theorem_order_independent
//@claims C06: TopKNgrams::new TopKNgrams::insert TopKNgrams::drain TopKNgrams::min_count theorem_filtered_insert_irrelevant
//@claims C10: TopKNgrams::new TopKNgrams::insert TopKNgrams::drain TopKNgrams::min_count
//@claims C11: TopKNgrams::new TopKNgrams::insert TopKNgrams::drain TopKNgrams::min_count
//@variant u8 INT=u8 ATOMIC=AtomicU8
//@variant u32 INT=u32 ATOMIC=AtomicU32
//@variant u64 INT=u64 ATOMIC=AtomicU64
use vstd::prelude::*;
use std::rc::Rc;
use std::sync::Arc;
//@include shim_macros.rs
verus! {
global size_of usize == 8;
//@include shim_std.rs
//@include shim_core.rs
//@include shim_atomic.rs
//@include shim_grams.rs
//@include shim_sorted.rs

type A = ${ATOMIC};
type T = Tok;

pub struct TopKNgrams {
    pub k: usize,
    pub topk: BTreeSet,
    pub ngrams: HashMap,
    pub min_count: <A as Atomic>::Type,
    pub min_count_atomic: Arc<A>,
}

//@include topk_lemmas.rs

impl TopKNgrams {
    /// representation invariant, relative to the insertions so far: `h` is the largest count
    /// inserted for each ngram since the structure was created or drained
    pub open spec fn wf(&self, h: Map<Seq<Tok>, int>, w: World) -> bool {
        &&& self.min_count_atomic.live(w)
        &&& self.min_count_atomic.at(w) == self.min_count
        &&& h.dom().finite()
        &&& forall|g: Seq<Tok>| #[trigger] h.dom().contains(g) ==> h[g] >= 1
        // the map and the ordered set hold the same pairs
        &&& forall|g: Seq<Tok>| #[trigger] self.ngrams@.dom().contains(g) ==> self.topk@.contains((self.ngrams@[g], g))
        &&& forall|p: Pair| #[trigger] self.topk@.contains(p) ==> self.ngrams@.dom().contains(p.1) && self.ngrams@[p.1] == p.0
        // what is held is what should be held
        &&& is_topk(self.topk@, h, self.k as int)
        // the smallest count that can still enter
        &&& self.min_count >= 1
        &&& forall|p: Pair| #[trigger] self.topk@.contains(p) ==> self.min_count <= p.0
        &&& self.topk@.len() < self.k ==> self.min_count == 1
    }

    pub fn new(k: usize, w: &mut World) -> (r: Self)
        ensures
            r.k == k,
            r.topk@ =~= Set::empty(),
            r.min_count == 1,
            r.wf(Map::empty(), *final(w)),
            !old(w).cells@.dom().contains(r.min_count_atomic.id()),
            forall|id: int| old(w).cells@.dom().contains(id) ==> #[trigger] final(w).cells@.dom().contains(id) && final(w).cells@[id] == old(w).cells@[id],
    {
/*@body
@file src/ngrams/topk.rs
@item TopKNgrams::new
@params k
@world A::new Atomic::new
@sub? <A as Atomic>::new =>> A::new
@end
    proof { assert(__r.topk@ =~= Set::empty()); assert(__r.topk@.len() == 0); assert(Map::<Seq<Tok>, int>::empty().dom() =~= Set::empty()); }
@*/
    }

    pub fn min_count(&self) -> (r: Arc<A>)
        ensures r.id() == self.min_count_atomic.id(),
    {
/*@body
@file src/ngrams/topk.rs
@item TopKNgrams::min_count
@params self
@*/
    }

    pub fn insert(&mut self, ngram: Vec<T>, count: <A as Atomic>::Type, w: &mut World, Ghost(h): Ghost<Map<Seq<Tok>, int>>)
        requires
            old(self).wf(h, *old(w)), count >= 1,
        ensures
            final(self).wf(maxed(h, ngram@, count as int), *final(w)), // [C05 C06 C10 C11]
            final(self).k == old(self).k,
            final(self).min_count_atomic == old(self).min_count_atomic,
            // C06
            final(self).min_count >= old(self).min_count, // [C06]
            count < old(self).min_count ==> final(self).topk@ == old(self).topk@ && final(self).min_count == old(self).min_count, // [C06]
            forall|id: int| id != old(self).min_count_atomic.id() ==> (#[trigger] final(w).cells@.dom().contains(id) <==> old(w).cells@.dom().contains(id)) && final(w).cells@[id] == old(w).cells@[id],
    {
/*@body
@file src/ngrams/topk.rs
@item TopKNgrams::insert
@params self ngram count
@locals old_count update_min_count new_min_count
@world store load
@start
    broadcast use axiom_gram_lt;
    let ghost g0 = ngram@;
    let ghost h2 = maxed(h, g0, count as int);
    let ghost s0 = self.topk@;
    let ghost m0 = self.ngrams@;
    proof { lemma_maxed(h, g0, count as int); lemma_min_pair_skip(s0, h, self.k as int, g0, count as int, self.min_count as int); }
@before? return;
 =>> proof {
        assert(m0.dom().contains(g0));
        assert(self.topk@ == s0);
        assert(self.ngrams@ =~= m0);
        lemma_keep_if_not_larger(s0, h, self.k as int, g0, count as int);
    }
@before let mut update_min_count = false;
 =>> let ghost s1 = self.topk@;
    let ghost m1 = self.ngrams@;
    proof {
        if count >= self.min_count {
            if m0.dom().contains(g0) {
                lemma_replace(s0, h, self.k as int, g0, m0[g0], count as int);
                assert(s1 =~= s0.remove((m0[g0], g0)).insert((count as int, g0)));
                assert(m1 =~= m0.insert(g0, count as int));
            } else {
                lemma_add(s0, h, self.k as int, g0, count as int);
                assert(s1 =~= s0.insert((count as int, g0)));
                assert(m1 =~= m0.insert(g0, count as int));
            }
        } else {
            assert(s1 == s0);
        }
    }
@loop 0 while
    invariant
        self.k == old(self).k, self.min_count == old(self).min_count, self.min_count_atomic == old(self).min_count_atomic,
        self.min_count >= 1, *w == *old(w),
        update_min_count ==> self.topk@.len() == self.k && count >= self.min_count,
        !update_min_count ==> self.topk@ == s1 && self.ngrams@ == m1,
        self.topk@.len() <= self.k ==> is_topk(self.topk@, h2, self.k as int),
        self.topk@.len() > self.k ==> self.topk@ == s1,
        self.topk@.subset_of(s1),
        s1.len() <= self.k + 1,
        s1.len() == self.k + 1 ==> pop_ok(s1, h2, self.k as int),
        s1.len() <= self.k ==> is_topk(s1, h2, self.k as int),
        count < self.min_count ==> s1 == s0 && s0.len() <= self.k,
        s1.len() == self.k + 1 ==> count >= self.min_count && !m0.dom().contains(g0),
        forall|g: Seq<Tok>| #[trigger] self.ngrams@.dom().contains(g) ==> self.topk@.contains((self.ngrams@[g], g)),
        forall|p: Pair| #[trigger] self.topk@.contains(p) ==> self.ngrams@.dom().contains(p.1) && self.ngrams@[p.1] == p.0,
        forall|p: Pair| #[trigger] self.topk@.contains(p) ==> self.min_count <= p.0,
    decreases self.topk@.len(),
@end
    proof {
        assert(h2 == maxed(h, g0, count as int));
        assert(self.min_count_atomic.live(*w));
    }
@*/
    }

    pub fn drain(&mut self, w: &mut World, Ghost(h): Ghost<Map<Seq<Tok>, int>>) -> (r: Vec<(Rc<Vec<T>>, <A as Atomic>::Type)>)
        requires old(self).wf(h, *old(w)),
        ensures
            final(self).wf(Map::empty(), *final(w)),
            final(self).topk@ =~= Set::empty(),
            final(self).k == old(self).k,
            final(self).min_count == 1,
            final(self).min_count_atomic == old(self).min_count_atomic,
            descending(pairs_of(r@)), // [C05 C10 C11]
            pairs_of(r@).to_set() =~= old(self).topk@, // [C05 C10 C11]
            is_topk(pairs_of(r@).to_set(), h, old(self).k as int), // [C05 C10 C11]
            forall|id: int| id != old(self).min_count_atomic.id() ==> (#[trigger] final(w).cells@.dom().contains(id) <==> old(w).cells@.dom().contains(id)) && final(w).cells@[id] == old(w).cells@[id],
    {
/*@body
@file src/ngrams/topk.rs
@item TopKNgrams::drain
@params self
@locals out count ngram
@world store load
@start
    broadcast use axiom_gram_lt;
    proof { reveal(descending); }
@loop 0 while
    invariant
        self.k == old(self).k, self.min_count_atomic == old(self).min_count_atomic, *w == *old(w),
        forall|g: Seq<Tok>| #[trigger] self.ngrams@.dom().contains(g) ==> self.topk@.contains((self.ngrams@[g], g)),
        forall|p: Pair| #[trigger] self.topk@.contains(p) ==> self.ngrams@.dom().contains(p.1) && self.ngrams@[p.1] == p.0,
        descending(pairs_of(out@)),
        forall|p: Pair| #[trigger] old(self).topk@.contains(p) <==> self.topk@.contains(p) || pairs_of(out@).contains(p),
        forall|p: Pair, i: int| #[trigger] self.topk@.contains(p) && 0 <= i < out@.len() ==> plt(p, #[trigger] pairs_of(out@)[i]),
        self.min_count_atomic.live(*w),
    ensures
        self.topk@.len() == 0,
    decreases self.topk@.len(),
@top 0
    let ghost ov = out@;
    proof { reveal(descending); }
@bottom 0
    proof { lemma_pairs_push(ov, (ngram, count)); assert(out@ =~= ov.push((ngram, count))); }
@after 0
    proof { assert(self.topk@ =~= Set::empty()); }
@end
    proof {
        assert(pairs_of(__r@).to_set() =~= old(self).topk@);
        assert(Map::<Seq<Tok>, int>::empty().dom() =~= Set::empty());
    }
@*/
    }
}
fn main() {}
} // verus!
