#![feature(allocator_api)]
#![allow(unused)]
// Unit `counter_conc`: src/ngrams/counter.rs (NgramCounter), shared by any number of threads.
// The World is the history of the table: a trace of atomic changes, each marked with the call it belongs to.
// Before every operation on a cell any number of changes by other calls may happen (interference), so a contract
// proved here holds for every interleaving of any number of threads.
//@claims C03: NgramCounter::increment NgramCounter::decrement NgramCounter::hash NgramCounter::index_for_hash NgramCounter::theorem_no_update_lost NgramCounter::theorem_last_sees_all
//@claims C10: NgramCounter::increment NgramCounter::theorem_last_sees_all
//@claims C11: NgramCounter::decrement NgramCounter::max_count NgramCounter::theorem_no_update_lost NgramCounter::theorem_read_after
//@claims C12: NgramCounter::increment NgramCounter::nonzero NgramCounter::theorem_no_update_lost NgramCounter::theorem_touched
//@variant u8 INT=u8 ATOMIC=AtomicU8
//@variant u32 INT=u32 ATOMIC=AtomicU32
//@variant u64 INT=u64 ATOMIC=AtomicU64
use vstd::prelude::*;
//@include shim_macros.rs
verus! {
global size_of usize == 8;
// ------------------------------------------------------------------ the shared table as a history
/// one change of one cell by one call: `d` added to it (atomically), or `d` stored in it
pub ghost struct Ev { pub call: int, pub id: int, pub d: int, pub store: bool }
pub struct World { pub base: Ghost<Map<int, int>>, pub trace: Ghost<Seq<Ev>>, pub me: Ghost<int> }
pub trait Atomic { type Type; }
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
pub trait Zero: Sized { fn zero() -> (r: Self); }
pub trait One: Sized { fn one() -> (r: Self); }
//@if INT=u8
pub type Int = u8;
//@endif
//@if INT=u32
pub type Int = u32;
//@endif
//@if INT=u64
pub type Int = u64;
//@endif
pub spec const MAXV: int = Int::MAX as int;
impl Zero for Int { fn zero() -> (r: Self) ensures r == 0 { 0 } }
impl One for Int { fn one() -> (r: Self) ensures r == 1 { 1 } }
pub assume_specification[ ${INT}::max_value ]() -> (r: ${INT})
    ensures r == ${INT}::MAX;
pub assume_specification[ ${INT}::min_value ]() -> (r: ${INT})
    ensures r == ${INT}::MIN;
#[verifier::external_body]
pub fn vx_nondet() -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_unreached<T>() -> (r: T) requires false { unimplemented!() }
//@include shim_hash.rs
//@include shim_result.rs
//@include shim_std.rs

pub open spec fn wrap(x: int) -> int { if x > MAXV { x - MAXV - 1 } else if x < 0 { x + MAXV + 1 } else { x } }
/// the value of a cell after the changes `t`
pub open spec fn val(base: Map<int, int>, t: Seq<Ev>, id: int) -> int
    decreases t.len()
{
    if t.len() == 0 { base[id] } else {
        let v = val(base, t.drop_last(), id);
        let e = t.last();
        if e.id != id { v } else if e.store { e.d } else { wrap(v + e.d) }
    }
}
/// the k-th change takes a cell to its largest value (or over it), or to its smallest (or under it)
pub open spec fn overflows(base: Map<int, int>, t: Seq<Ev>, k: int) -> bool {
    !t[k].store && reaches(val(base, t.take(k), t[k].id), t[k].d)
}
pub open spec fn reaches(v: int, d: int) -> bool { v + d > MAXV || v + d < 0 || (d >= 0 && v + d == MAXV) || (d <= 0 && v + d == 0) }
pub open spec fn sat(base: Map<int, int>, t: Seq<Ev>) -> bool { exists|k: int| 0 <= k < t.len() && #[trigger] overflows(base, t, k) }
pub open spec fn stores(t: Seq<Ev>) -> bool { exists|k: int| 0 <= k < t.len() && (#[trigger] t[k]).store }
/// what every thread relies on and guarantees: a value is stored over others' changes only once a cell has reached its limit
pub open spec fn rely(base: Map<int, int>, t: Seq<Ev>) -> bool { stores(t) ==> sat(base, t) }
/// from a to b only other calls changed anything
pub open spec fn others(a: World, b: World) -> bool {
    &&& b.base == a.base && b.me == a.me
    &&& a.trace@.len() <= b.trace@.len() && b.trace@.take(a.trace@.len() as int) == a.trace@
    &&& forall|k: int| a.trace@.len() <= k < b.trace@.len() ==> (#[trigger] b.trace@[k]).call != a.me@
    &&& rely(b.base@, b.trace@)
}
/// b is a later point of the same history
pub open spec fn later(a: World, b: World) -> bool {
    &&& b.base == a.base && b.me == a.me
    &&& a.trace@.len() <= b.trace@.len() && b.trace@.take(a.trace@.len() as int) == a.trace@
    &&& rely(b.base@, b.trace@)
}
/// others may have acted, then this call made the change e
pub open spec fn acted(a: World, b: World, e: Ev) -> bool {
    &&& b.trace@.len() > 0 && b.trace@.last() == e
    &&& others(a, before(b)) && b.base == a.base && b.me == a.me
    &&& rely(b.base@, b.trace@)
}
pub open spec fn before(b: World) -> World { World { trace: Ghost(b.trace@.drop_last()), ..b } }

#[verifier::external_body]
pub struct ${ATOMIC} { x: u64 }
impl Atomic for ${ATOMIC} { type Type = ${INT}; }
impl ${ATOMIC} {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, w: &mut World) -> (r: ${INT})
        ensures others(*old(w), *final(w)), r == val(final(w).base@, final(w).trace@, self.id()),
    { unimplemented!() }
    /// overwrites whatever the other threads have made of the cell: only allowed once a cell has reached its limit
    #[verifier::external_body]
    pub fn store(&self, v: ${INT}, o: Ordering, w: &mut World)
        requires sat(old(w).base@, old(w).trace@), // [C03]
        ensures acted(*old(w), *final(w), Ev { call: old(w).me@, id: self.id(), d: v as int, store: true }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_add(&self, v: ${INT}, o: Ordering, w: &mut World) -> (r: ${INT})
        ensures acted(*old(w), *final(w), Ev { call: old(w).me@, id: self.id(), d: v as int, store: false }),
            r == val(final(w).base@, before(*final(w)).trace@, self.id()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_sub(&self, v: ${INT}, o: Ordering, w: &mut World) -> (r: ${INT})
        ensures acted(*old(w), *final(w), Ev { call: old(w).me@, id: self.id(), d: -(v as int), store: false }),
            r == val(final(w).base@, before(*final(w)).trace@, self.id()),
    { unimplemented!() }
}
type A = ${ATOMIC};

// ------------------------------------------------------------------ lemmas about histories
proof fn lemma_take_take(t: Seq<Ev>, j: int, k: int)
    requires 0 <= j <= k <= t.len(),
    ensures t.take(k).take(j) == t.take(j),
{ assert(t.take(k).take(j) =~= t.take(j)); }
proof fn lemma_sat_prefix(base: Map<int, int>, t: Seq<Ev>, n: int)
    requires 0 <= n <= t.len(), sat(base, t.take(n)),
    ensures sat(base, t),
{
    let p = t.take(n);
    let k = choose|k: int| 0 <= k < p.len() && #[trigger] overflows(base, p, k);
    lemma_take_take(t, k, n);
    assert(p[k] == t[k]);
    assert(overflows(base, t, k));
}
/// without overflow and with rely: plain sums
pub open spec fn total(t: Seq<Ev>, id: int) -> int
    decreases t.len()
{ if t.len() == 0 { 0 } else { total(t.drop_last(), id) + if t.last().id == id { t.last().d } else { 0 } } }
pub open spec fn calm(base: Map<int, int>, t: Seq<Ev>) -> bool { !sat(base, t) && rely(base, t) }
proof fn lemma_calm_prefix(base: Map<int, int>, t: Seq<Ev>, n: int)
    requires 0 <= n <= t.len(), calm(base, t),
    ensures calm(base, t.take(n)), !stores(t.take(n)),
{
    if sat(base, t.take(n)) { lemma_sat_prefix(base, t, n); }
    if stores(t.take(n)) {
        let k = choose|k: int| 0 <= k < t.take(n).len() && (#[trigger] t.take(n)[k]).store;
        assert(t[k].store);
    }
}
proof fn lemma_val_total(base: Map<int, int>, t: Seq<Ev>, id: int)
    requires calm(base, t),
    ensures val(base, t, id) == base[id] + total(t, id),
    decreases t.len(),
{
    if t.len() > 0 {
        let n = t.len() - 1;
        lemma_calm_prefix(base, t, n);
        assert(t.take(n) =~= t.drop_last());
        lemma_val_total(base, t.drop_last(), id);
        assert(!overflows(base, t, n));
        assert(!t.last().store) by { if t[n].store { assert(stores(t)); } }
    }
}
/// what call `c` added to cell `id`
pub open spec fn own(t: Seq<Ev>, c: int, id: int) -> int
    decreases t.len()
{ if t.len() == 0 { 0 } else { own(t.drop_last(), c, id) + if t.last().id == id && t.last().call == c && !t.last().store { t.last().d } else { 0 } } }
proof fn lemma_own_others(a: Seq<Ev>, b: Seq<Ev>, c: int, id: int)
    requires a.len() <= b.len(), b.take(a.len() as int) == a, forall|k: int| a.len() <= k < b.len() ==> (#[trigger] b[k]).call != c,
    ensures own(b, c, id) == own(a, c, id),
    decreases b.len(),
{
    if b.len() > a.len() {
        let p = b.drop_last();
        assert(p.take(a.len() as int) =~= b.take(a.len() as int));
        assert forall|k: int| a.len() <= k < p.len() implies (#[trigger] p[k]).call != c by { assert(p[k] == b[k]); }
        lemma_own_others(a, p, c, id);
    } else { assert(b =~= a); }
}
/// the changes only ever go up (from index s on)
pub open spec fn ups(t: Seq<Ev>, s: int) -> bool { forall|k: int| s <= k < t.len() ==> (#[trigger] t[k]).d >= 0 }
pub open spec fn downs(t: Seq<Ev>, s: int) -> bool { forall|k: int| s <= k < t.len() ==> (#[trigger] t[k]).d <= 0 }
proof fn lemma_mono(base: Map<int, int>, t: Seq<Ev>, j: int, id: int)
    requires calm(base, t), 0 <= j <= t.len(),
    ensures
        ups(t, j) ==> val(base, t.take(j), id) <= val(base, t, id),
        downs(t, j) ==> val(base, t.take(j), id) >= val(base, t, id),
    decreases t.len(),
{
    assert(t.take(t.len() as int) =~= t);
    if j < t.len() {
        let n = t.len() - 1;
        lemma_calm_prefix(base, t, n);
        assert(t.take(n) =~= t.drop_last());
        lemma_take_take(t, j, n);
        lemma_mono(base, t.drop_last(), j, id);
        assert(!overflows(base, t, n));
        assert(!t.last().store) by { if t[n].store { assert(stores(t)); } }
        if ups(t, j) { assert(t[n].d >= 0); assert(ups(t.drop_last(), j)); }
        if downs(t, j) { assert(t[n].d <= 0); assert(downs(t.drop_last(), j)); }
    }
}
pub open spec fn min2(a: int, b: int) -> int { if b < a { b } else { a } }
pub open spec fn max2(a: int, b: int) -> int { if b > a { b } else { a } }
/// smallest / largest value of the first n cells of `ids`
pub open spec fn minv(base: Map<int, int>, t: Seq<Ev>, ids: Seq<int>, n: int) -> int
    decreases n
{ if n <= 0 { MAXV } else { min2(minv(base, t, ids, n - 1), val(base, t, ids[n - 1])) } }
pub open spec fn maxv(base: Map<int, int>, t: Seq<Ev>, ids: Seq<int>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { max2(maxv(base, t, ids, n - 1), val(base, t, ids[n - 1])) } }
proof fn lemma_min_mono(base: Map<int, int>, t: Seq<Ev>, j: int, ids: Seq<int>, n: int)
    requires calm(base, t), 0 <= j <= t.len(), n <= ids.len(),
    ensures
        ups(t, j) ==> minv(base, t.take(j), ids, n) <= minv(base, t, ids, n),
        downs(t, j) ==> maxv(base, t.take(j), ids, n) >= maxv(base, t, ids, n),
    decreases n,
{
    if n > 0 { lemma_min_mono(base, t, j, ids, n - 1); lemma_mono(base, t, j, ids[n - 1]); }
}
proof fn lemma_calm_later(a: World, b: World)
    requires later(a, b), calm(b.base@, b.trace@),
    ensures calm(a.base@, a.trace@),
{ lemma_calm_prefix(b.base@, b.trace@, a.trace@.len() as int); }
/// from one point of the history to a later one
proof fn lemma_step(a: World, b: World, s: int, ids: Seq<int>, n: int)
    requires later(a, b), 0 <= s <= a.trace@.len(), 0 <= n <= ids.len(),
    ensures
        ups(b.trace@, s) ==> ups(a.trace@, s),
        downs(b.trace@, s) ==> downs(a.trace@, s),
        calm(b.base@, b.trace@) ==> calm(a.base@, a.trace@),
        calm(b.base@, b.trace@) && ups(b.trace@, s) ==> minv(a.base@, a.trace@, ids, n) <= minv(b.base@, b.trace@, ids, n),
        calm(b.base@, b.trace@) && downs(b.trace@, s) ==> maxv(a.base@, a.trace@, ids, n) >= maxv(b.base@, b.trace@, ids, n),
{
    let j = a.trace@.len() as int;
    assert forall|k: int| 0 <= k < j implies #[trigger] a.trace@[k] == b.trace@[k] by { assert(b.trace@.take(j)[k] == b.trace@[k]); }
    if calm(b.base@, b.trace@) {
        lemma_calm_later(a, b);
        lemma_min_mono(b.base@, b.trace@, j, ids, n);
        if ups(b.trace@, s) { assert(ups(b.trace@, j)); }
        if downs(b.trace@, s) { assert(downs(b.trace@, j)); }
    }
}
proof fn lemma_later_trans(a: World, b: World, c: World)
    requires later(a, b), later(b, c),
    ensures later(a, c),
{ lemma_take_take(c.trace@, a.trace@.len() as int, b.trace@.len() as int); }
proof fn lemma_acted(a: World, b: World, e: Ev)
    requires acted(a, b, e), e.call == a.me@,
    ensures later(a, b), later(before(b), b), later(a, before(b)),
        forall|id: int| #[trigger] own(b.trace@, a.me@, id) == own(a.trace@, a.me@, id) + if e.id == id && !e.store { e.d } else { 0 },
        !e.store && reaches(val(b.base@, before(b).trace@, e.id), e.d) ==> sat(b.base@, b.trace@),
        forall|id: int| #[trigger] val(b.base@, b.trace@, id) == if e.id != id { val(b.base@, before(b).trace@, id) } else if e.store { e.d } else { wrap(val(b.base@, before(b).trace@, id) + e.d) },
{
    let n = b.trace@.len() - 1;
    assert(b.trace@.take(n) =~= b.trace@.drop_last());
    lemma_take_take(b.trace@, a.trace@.len() as int, n);
    assert forall|id: int| #[trigger] own(b.trace@, a.me@, id) == own(a.trace@, a.me@, id) + if e.id == id && !e.store { e.d } else { 0 } by {
        lemma_own_others(a.trace@, before(b).trace@, a.me@, id);
    }
    if !e.store && reaches(val(b.base@, before(b).trace@, e.id), e.d) { assert(overflows(b.base@, b.trace@, n)); }
}
broadcast proof fn lemma_acted_b(a: World, b: World, e: Ev)
    requires #[trigger] acted(a, b, e), e.call == a.me@,
    ensures later(a, b),
        forall|id: int| #[trigger] own(b.trace@, a.me@, id) == own(a.trace@, a.me@, id) + if e.id == id && !e.store { e.d } else { 0 },
        !e.store && reaches(val(b.base@, before(b).trace@, e.id), e.d) ==> sat(b.base@, b.trace@),
        forall|id: int| #[trigger] val(b.base@, b.trace@, id) == if e.id != id { val(b.base@, before(b).trace@, id) } else if e.store { e.d } else { wrap(val(b.base@, before(b).trace@, id) + e.d) },
{ lemma_acted(a, b, e); }
broadcast proof fn lemma_others_b(a: World, b: World)
    requires #[trigger] others(a, b),
    ensures later(a, b), forall|id: int| #[trigger] own(b.trace@, a.me@, id) == own(a.trace@, a.me@, id),
{ assert forall|id: int| #[trigger] own(b.trace@, a.me@, id) == own(a.trace@, a.me@, id) by { lemma_own_others(a.trace@, b.trace@, a.me@, id); } }
broadcast proof fn lemma_later_b(a: World, b: World, c: World)
    requires #[trigger] later(a, b), #[trigger] later(b, c),
    ensures later(a, c), sat(b.base@, b.trace@) ==> sat(c.base@, c.trace@),
{ lemma_later_trans(a, b, c); if sat(b.base@, b.trace@) { lemma_sat_prefix(c.base@, c.trace@, b.trace@.len() as int); } }
pub broadcast group group_hist { lemma_acted_b, lemma_others_b, lemma_later_b }
proof fn lemma_others_trans(a: World, b: World, c: World)
    requires others(a, b), others(b, c),
    ensures others(a, c),
{
    lemma_take_take(c.trace@, a.trace@.len() as int, b.trace@.len() as int);
    assert forall|k: int| a.trace@.len() <= k < c.trace@.len() implies (#[trigger] c.trace@[k]).call != a.me@ by {
        if k < b.trace@.len() { assert(c.trace@.take(b.trace@.len() as int)[k] == c.trace@[k]); }
    }
}
/// between m and the end this call changed nothing any more
pub open spec fn settled(a: World, m: World, b: World) -> bool { later(a, m) && others(m, b) }
proof fn lemma_min_at_later(a: World, b: World, s: int, id: int)
    requires later(a, b), 0 <= s <= a.trace@.len(), calm(b.base@, b.trace@),
    ensures ups(b.trace@, s) ==> val(a.base@, a.trace@, id) <= val(b.base@, b.trace@, id),
        downs(b.trace@, s) ==> val(a.base@, a.trace@, id) >= val(b.base@, b.trace@, id),
{
    let j = a.trace@.len() as int;
    lemma_mono(b.base@, b.trace@, j, id);
    if ups(b.trace@, s) { assert(ups(b.trace@, j)); }
    if downs(b.trace@, s) { assert(downs(b.trace@, j)); }
}
proof fn lemma_round(ids: Seq<int>, i: int, id: int, by: int, o: int)
    requires 0 <= i < ids.len(),
    ensures o + by * mult(ids, i + 1, id) == o + by * mult(ids, i, id) + if ids[i] == id { by } else { 0 },
{ let x = mult(ids, i, id); assert(by * (x + 1) == by * x + by) by (nonlinear_arith); }
/// how often `id` is among the first n of `ids`
pub open spec fn mult(ids: Seq<int>, n: int, id: int) -> int
    decreases n
{ if n <= 0 { 0 } else { mult(ids, n - 1, id) + if ids[n - 1] == id { 1int } else { 0 } } }

/// a call of increment (d > 0) or decrement (d < 0): its cells, the point `m` of the history by which it had changed them all,
/// what it returned
pub ghost struct Call { pub who: int, pub ids: Seq<int>, pub d: int, pub m: int, pub r: int }
pub open spec fn distinct(calls: Seq<Call>) -> bool { forall|i: int, j: int| 0 <= i < j < calls.len() ==> (#[trigger] calls[i]).who != (#[trigger] calls[j]).who }
pub open spec fn among(calls: Seq<Call>, who: int) -> bool { exists|c: int| 0 <= c < calls.len() && (#[trigger] calls[c]).who == who }
pub open spec fn owns(t: Seq<Ev>, calls: Seq<Call>, id: int) -> int
    decreases calls.len()
{ if calls.len() == 0 { 0 } else { owns(t, calls.drop_last(), id) + own(t, calls.last().who, id) } }
pub open spec fn sum_by(calls: Seq<Call>) -> int
    decreases calls.len()
{ if calls.len() == 0 { 0 } else { sum_by(calls.drop_last()) + calls.last().d } }
/// the contract of `increment`, for a call that is over
pub open spec fn incremented(base: Map<int, int>, t: Seq<Ev>, c: Call, ids: Seq<int>) -> bool {
    &&& c.ids == ids && c.d >= 0 && 0 <= c.m <= t.len()
    &&& forall|id: int| #[trigger] own(t, c.who, id) == c.d * mult(ids, ids.len() as int, id)
    &&& forall|k: int| c.m <= k < t.len() ==> (#[trigger] t[k]).call != c.who
    &&& minv(base, t.take(c.m), ids, ids.len() as int) <= c.r
}
pub open spec fn is_latest(calls: Seq<Call>, j: int) -> bool { 0 <= j < calls.len() && forall|x: int| 0 <= x < calls.len() ==> (#[trigger] calls[x]).m <= calls[j].m }
proof fn latest(calls: Seq<Call>) -> (j: int)
    requires calls.len() > 0,
    ensures is_latest(calls, j),
    decreases calls.len(),
{
    if calls.len() == 1 { 0 } else {
        let p = calls.drop_last();
        let j = latest(p);
        assert forall|x: int| 0 <= x < p.len() implies (#[trigger] calls[x]).m <= calls[j].m by { assert(p[x] == calls[x]); assert(p[j] == calls[j]); }
        if calls.last().m > calls[j].m { calls.len() - 1 } else { j }
    }
}
proof fn lemma_mult_pos(ids: Seq<int>, n: int, i: int)
    requires 0 <= i < n <= ids.len(),
    ensures mult(ids, n, ids[i]) >= 1,
    decreases n,
{ lemma_mult_nonneg(ids, n - 1, ids[i]); if i < n - 1 { lemma_mult_pos(ids, n - 1, i); } }
proof fn lemma_mult_nonneg(ids: Seq<int>, n: int, id: int)
    ensures mult(ids, n, id) >= 0,
    decreases n,
{ if n > 0 { lemma_mult_nonneg(ids, n - 1, id); } }
proof fn lemma_minv_ge(base: Map<int, int>, p: Seq<Ev>, ids: Seq<int>, n: int, s: int)
    requires 0 <= n <= ids.len(), forall|i: int| 0 <= i < n ==> val(base, p, #[trigger] ids[i]) >= base[ids[i]] + s,
    ensures minv(base, p, ids, n) >= min2(minv(base, Seq::empty(), ids, n) + s, MAXV),
    decreases n,
{ if n > 0 { lemma_minv_ge(base, p, ids, n - 1, s); assert(val(base, p, ids[n - 1]) >= base[ids[n - 1]] + s); } }
proof fn lemma_owns_ge(p: Seq<Ev>, calls: Seq<Call>, id: int)
    requires forall|x: int| 0 <= x < calls.len() ==> own(p, (#[trigger] calls[x]).who, id) >= calls[x].d,
    ensures owns(p, calls, id) >= sum_by(calls),
    decreases calls.len(),
{
    if calls.len() > 0 {
        let q = calls.drop_last();
        assert forall|x: int| 0 <= x < q.len() implies own(p, (#[trigger] q[x]).who, id) >= q[x].d by { assert(q[x] == calls[x]); }
        lemma_owns_ge(p, q, id);
        assert(calls[calls.len() - 1] == calls.last());
    }
}
/// one more change adds to the calls' sum iff it is by one of them
proof fn lemma_owns_push(t: Seq<Ev>, calls: Seq<Call>, id: int)
    requires t.len() > 0, distinct(calls),
    ensures owns(t, calls, id) == owns(t.drop_last(), calls, id)
        + if among(calls, t.last().call) && t.last().id == id && !t.last().store { t.last().d } else { 0 },
    decreases calls.len(),
{
    if calls.len() > 0 {
        let q = calls.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).who != (#[trigger] q[j]).who by { assert(q[i] == calls[i]); assert(q[j] == calls[j]); }
        lemma_owns_push(t, q, id);
        let z = calls.len() - 1;
        assert(calls[z] == calls.last());
        if among(q, t.last().call) {
            let c = choose|c: int| 0 <= c < q.len() && (#[trigger] q[c]).who == t.last().call;
            assert(calls[c] == q[c]);
            assert(calls[c].who != calls[z].who);
            assert(among(calls, t.last().call));
        } else if among(calls, t.last().call) {
            let c = choose|c: int| 0 <= c < calls.len() && (#[trigger] calls[c]).who == t.last().call;
            if c < z { assert(q[c] == calls[c]); }
        }
    }
}
proof fn lemma_total_owns(t: Seq<Ev>, calls: Seq<Call>, id: int)
    requires distinct(calls), !stores(t),
    ensures
        (forall|k: int| 0 <= k < t.len() ==> among(calls, (#[trigger] t[k]).call)) ==> total(t, id) == owns(t, calls, id),
        (forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k]).d >= 0) ==> total(t, id) >= owns(t, calls, id),
    decreases t.len(),
{
    if t.len() > 0 {
        let p = t.drop_last();
        assert(!stores(p)) by { if stores(p) { let k = choose|k: int| 0 <= k < p.len() && (#[trigger] p[k]).store; assert(t[k].store); } }
        lemma_total_owns(p, calls, id);
        lemma_owns_push(t, calls, id);
        let z = t.len() - 1;
        assert(t[z] == t.last());
        assert(!t.last().store);
        if forall|k: int| 0 <= k < t.len() ==> among(calls, (#[trigger] t[k]).call) {
            assert forall|k: int| 0 <= k < p.len() implies among(calls, (#[trigger] p[k]).call) by { assert(p[k] == t[k]); }
        }
        if forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k]).d >= 0 {
            assert forall|k: int| 0 <= k < p.len() implies (#[trigger] p[k]).d >= 0 by { assert(p[k] == t[k]); }
        }
    } else { lemma_owns_empty(t, calls, id); }
}
proof fn lemma_owns_empty(t: Seq<Ev>, calls: Seq<Call>, id: int)
    requires t.len() == 0,
    ensures owns(t, calls, id) == 0,
    decreases calls.len(),
{ if calls.len() > 0 { lemma_owns_empty(t, calls.drop_last(), id); } }

/// how many of the first n cells of `ids` are not zero
pub open spec fn nz(base: Map<int, int>, t: Seq<Ev>, ids: Seq<int>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { nz(base, t, ids, n - 1) + if val(base, t, ids[n - 1]) > 0 { 1int } else { 0 } } }
proof fn lemma_nz_step(a: World, b: World, s: int, ids: Seq<int>, n: int)
    requires later(a, b), 0 <= s <= a.trace@.len(), 0 <= n <= ids.len(),
    ensures
        ups(b.trace@, s) ==> ups(a.trace@, s),
        calm(b.base@, b.trace@) ==> calm(a.base@, a.trace@),
        calm(b.base@, b.trace@) && ups(b.trace@, s) ==> nz(a.base@, a.trace@, ids, n) <= nz(b.base@, b.trace@, ids, n),
    decreases n,
{
    lemma_step(a, b, s, ids, 0);
    if n > 0 { lemma_nz_step(a, b, s, ids, n - 1); if calm(b.base@, b.trace@) { lemma_min_at_later(a, b, s, ids[n - 1]); } }
}
proof fn lemma_mult_contains(ids: Seq<int>, n: int, id: int)
    requires 0 <= n <= ids.len(), !ids.contains(id),
    ensures mult(ids, n, id) == 0,
    decreases n,
{ if n > 0 { assert(ids[n - 1] != id); lemma_mult_contains(ids, n - 1, id); } }
pub struct NgramCounter {
    pub size: usize,
    pub num_hash_functions: usize,
    pub hash_builders: Vec<RandomState>,
    pub count_array: Vec<A>,
}
impl NgramCounter {
    pub open spec fn wf(&self) -> bool {
        &&& self.size > 0
        &&& self.count_array@.len() == self.size
        &&& self.hash_builders@.len() == self.num_hash_functions
        &&& forall|i: int, j: int| 0 <= i < j < self.size ==>
                (#[trigger] self.count_array@[i]).id() != (#[trigger] self.count_array@[j]).id()
    }
    /// the cells of an ngram, one per hash function (the atomics' identities)
    pub open spec fn cells(&self, ng: Seq<Tok>) -> Seq<int> {
        Seq::new(self.num_hash_functions as nat, |i: int| self.count_array@[hash_val(self.hash_builders@[i].id(), ng) as int % self.size as int].id())
    }
    /// all cells, in order
    pub open spec fn all(&self) -> Seq<int> { self.count_array@.map_values(|a: A| a.id()) }
    pub open spec fn n(&self) -> int { self.num_hash_functions as int }

    pub fn increment(&self, ngram: &NgramSeq, by: <A as Atomic>::Type, w: &mut World) -> (r: <A as Atomic>::Type)
        requires self.wf(), rely(old(w).base@, old(w).trace@),
        ensures
            later(*old(w), *final(w)),
            // the call added `by` to each of its cells, whatever the other threads did in between
            forall|id: int| #[trigger] own(final(w).trace@, old(w).me@, id) == own(old(w).trace@, old(w).me@, id) + by * mult(self.cells(ngram@), self.n(), id), // [C03]
            // and once all of that is in the table, what is returned is no less than the cells' minimum
            exists|m: World| #[trigger] settled(*old(w), m, *final(w)) && (calm(final(w).base@, final(w).trace@) && ups(final(w).trace@, old(w).trace@.len() as int) ==>
                minv(m.base@, m.trace@, self.cells(ngram@), self.n()) <= r <= minv(final(w).base@, final(w).trace@, self.cells(ngram@), self.n())), // [C10]
    {
/*@body
@file src/ngrams/counter.rs
@item NgramCounter::increment
@sub? .saturating_sub(&by) =>> .saturating_sub(by)
@params self ngram by
@locals min_count i hash index old_count count settled_count
@world fetch_add store load fetch_sub fetch_max fetch_min swap
@start
    broadcast use group_hist;
    let ghost w0 = *w;
    let ghost s = w.trace@.len() as int;
    let ghost ids = self.cells(ngram@);
    let ghost mut m = *w;
    proof { assert(w.trace@.take(s) =~= w.trace@); }
@top 0
    broadcast use group_hist;
    let ghost wa = *w;
@bottom 0
    proof {
        lemma_step(wa, *w, s, ids, i as int);
        assert forall|id: int| #[trigger] own(w.trace@, w0.me@, id) == own(w0.trace@, w0.me@, id) + by * mult(ids, i + 1, id) by {
            lemma_round(ids, i as int, id, by as int, own(w0.trace@, w0.me@, id));
        }
    }
@loop 0 for
    invariant
        self.wf(), ids == self.cells(ngram@), s == w0.trace@.len(), later(w0, *w), w0 == *old(w),
        forall|id: int| #[trigger] own(w.trace@, w0.me@, id) == own(w0.trace@, w0.me@, id) + by * mult(ids, i as int, id), // [C03]
        calm(w.base@, w.trace@) && ups(w.trace@, s) ==> min_count <= minv(w.base@, w.trace@, ids, i as int), // [C10]
@pre 1
    proof { m = *w; assert(w.trace@.take(w.trace@.len() as int) =~= w.trace@); }
@top 1
    broadcast use group_hist;
    let ghost wa = *w;
@bottom 1
    proof {
        lemma_step(wa, *w, s, ids, i as int);
        lemma_step(wa, *w, s, ids, self.n());
        lemma_step(m, *w, s, ids, i as int + 1);
        if calm(w.base@, w.trace@) { lemma_min_at_later(m, *w, s, ids[i as int]); }
        lemma_others_trans(m, wa, *w);
    }
@loop 1 for
    invariant
        self.wf(), ids == self.cells(ngram@), s == w0.trace@.len(), later(w0, *w), w0 == *old(w), later(w0, m), others(m, *w),
        forall|id: int| #[trigger] own(w.trace@, w0.me@, id) == own(w0.trace@, w0.me@, id) + by * mult(ids, self.n(), id), // [C03]
        calm(w.base@, w.trace@) && ups(w.trace@, s) ==> min_count <= minv(w.base@, w.trace@, ids, self.n()), // [C10]
        calm(w.base@, w.trace@) && ups(w.trace@, s) ==> minv(m.base@, m.trace@, ids, i as int) <= settled_count <= minv(w.base@, w.trace@, ids, i as int), // [C10]
@end
    proof { assert(settled(*old(w), m, *w)); }
@*/
    }

    pub fn decrement(&self, ngram: &NgramSeq, by: <A as Atomic>::Type, w: &mut World) -> (r: <A as Atomic>::Type)
        requires self.wf(), rely(old(w).base@, old(w).trace@),
        ensures
            later(*old(w), *final(w)),
            forall|id: int| #[trigger] own(final(w).trace@, old(w).me@, id) == own(old(w).trace@, old(w).me@, id) - by * mult(self.cells(ngram@), self.n(), id), // [C03 C11]
            calm(final(w).base@, final(w).trace@) && downs(final(w).trace@, old(w).trace@.len() as int) ==>
                maxv(final(w).base@, final(w).trace@, self.cells(ngram@), self.n()) <= r, // [C02]
    {
/*@body
@file src/ngrams/counter.rs
@item NgramCounter::decrement
@sub? .saturating_sub(&by) =>> .saturating_sub(by)
@params self ngram by
@locals max_count i hash index old_count count
@world fetch_add store load fetch_sub fetch_max fetch_min swap
@start
    broadcast use group_hist;
    let ghost w0 = *w;
    let ghost s = w.trace@.len() as int;
    let ghost ids = self.cells(ngram@);
    proof { assert(w.trace@.take(s) =~= w.trace@); }
@top 0
    broadcast use group_hist;
    let ghost wa = *w;
@bottom 0
    proof {
        lemma_step(wa, *w, s, ids, i as int);
        assert forall|id: int| #[trigger] own(w.trace@, w0.me@, id) == own(w0.trace@, w0.me@, id) - by * mult(ids, i + 1, id) by {
            lemma_round(ids, i as int, id, by as int, 0);
        }
    }
@loop 0 for
    invariant
        self.wf(), ids == self.cells(ngram@), s == w0.trace@.len(), later(w0, *w), w0 == *old(w),
        forall|id: int| #[trigger] own(w.trace@, w0.me@, id) == own(w0.trace@, w0.me@, id) - by * mult(ids, i as int, id), // [C03 C11]
        calm(w.base@, w.trace@) && downs(w.trace@, s) ==> max_count >= maxv(w.base@, w.trace@, ids, i as int), // [C02]
@*/
    }

    pub fn max_count(&self, ngram: &NgramSeq, w: &mut World) -> (r: <A as Atomic>::Type)
        requires self.wf(), rely(old(w).base@, old(w).trace@),
        ensures
            // reads only
            others(*old(w), *final(w)),
            calm(final(w).base@, final(w).trace@) && downs(final(w).trace@, old(w).trace@.len() as int) ==>
                maxv(final(w).base@, final(w).trace@, self.cells(ngram@), self.n()) <= r <= maxv(old(w).base@, old(w).trace@, self.cells(ngram@), self.n()), // [C11]
    {
/*@body
@file src/ngrams/counter.rs
@item NgramCounter::max_count
@params self ngram
@locals max_count i hash index count
@world load fetch_add store fetch_sub fetch_max fetch_min swap
@start
    broadcast use group_hist;
    let ghost w0 = *w;
    let ghost s = w.trace@.len() as int;
    let ghost ids = self.cells(ngram@);
    proof { assert(w.trace@.take(s) =~= w.trace@); }
@top 0
    broadcast use group_hist;
    let ghost wa = *w;
@bottom 0
    proof {
        lemma_step(wa, *w, s, ids, i as int);
        lemma_step(w0, *w, s, ids, i as int + 1);
        if calm(w.base@, w.trace@) { lemma_min_at_later(w0, *w, s, ids[i as int]); }
        lemma_others_trans(w0, wa, *w);
    }
@loop 0 for
    invariant
        self.wf(), ids == self.cells(ngram@), s == w0.trace@.len(), others(w0, *w), w0 == *old(w),
        calm(w.base@, w.trace@) && downs(w.trace@, s) ==> maxv(w.base@, w.trace@, ids, i as int) <= max_count <= maxv(w0.base@, w0.trace@, ids, i as int), // [C11]
@*/
    }

    pub fn nonzero(&self, w: &mut World) -> (r: u64)
        requires self.wf(), rely(old(w).base@, old(w).trace@),
        ensures
            // reads only
            others(*old(w), *final(w)),
            calm(final(w).base@, final(w).trace@) && ups(final(w).trace@, old(w).trace@.len() as int) ==>
                nz(old(w).base@, old(w).trace@, self.all(), self.size as int) <= r <= nz(final(w).base@, final(w).trace@, self.all(), self.size as int), // [C12]
    {
/*@body
@file src/ngrams/counter.rs
@item NgramCounter::nonzero
@params self
@locals nonzero_count zero item
@world load fetch_add store fetch_sub fetch_max fetch_min swap
@start
    broadcast use group_hist;
    let ghost w0 = *w;
    let ghost s = w.trace@.len() as int;
    let ghost ids = self.all();
    proof { assert(w.trace@.take(s) =~= w.trace@); }
@top 0
    broadcast use group_hist;
    let ghost wa = *w;
@bottom 0
    proof {
        let k = __it0.pos() - 1;
        lemma_nz_step(wa, *w, s, ids, k);
        if calm(w.base@, w.trace@) { lemma_min_at_later(w0, *w, s, ids[k]); }
        lemma_others_trans(w0, wa, *w);
    }
@loop 0 for via vx_vec_iter
    invariant
        self.wf(), ids == self.all(), s == w0.trace@.len(), others(w0, *w), w0 == *old(w), zero == 0,
        __it0.seq() == self.count_array@, 0 <= __it0.pos() <= self.size,
        nonzero_count <= __it0.pos(),
        calm(w.base@, w.trace@) && ups(w.trace@, s) ==>
            nz(w0.base@, w0.trace@, ids, __it0.pos()) <= nonzero_count <= nz(w.base@, w.trace@, ids, __it0.pos()), // [C12]
    ensures
        __it0.pos() == self.size,
    decreases self.size - __it0.pos(),
@*/
    }
    /// After any number of concurrent increments, the cells that are not zero are those of the ngrams counted.
    proof fn theorem_touched(base: Map<int, int>, t: Seq<Ev>, calls: Seq<Call>, id: int)
        requires
            calm(base, t), distinct(calls), base[id] == 0,
            forall|k: int| 0 <= k < t.len() ==> exists|c: int| 0 <= c < calls.len() && (#[trigger] calls[c]).who == (#[trigger] t[k]).call,
            forall|c: int| 0 <= c < calls.len() ==> own(t, (#[trigger] calls[c]).who, id) == calls[c].d * mult(calls[c].ids, calls[c].ids.len() as int, id) && calls[c].d >= 1,
        ensures val(base, t, id) > 0 <==> exists|c: int| 0 <= c < calls.len() && (#[trigger] calls[c]).ids.contains(id),
    {
        Self::theorem_no_update_lost(base, t, calls, id);
        Self::lemma_asked_pos(calls, id);
    }
    proof fn lemma_asked_pos(calls: Seq<Call>, id: int)
        requires forall|c: int| 0 <= c < calls.len() ==> (#[trigger] calls[c]).d >= 1,
        ensures Self::asked(calls, id) >= 0,
            Self::asked(calls, id) > 0 <==> exists|c: int| 0 <= c < calls.len() && (#[trigger] calls[c]).ids.contains(id),
        decreases calls.len(),
    {
        if calls.len() > 0 {
            let p = calls.drop_last(); let z = calls.len() - 1; let e = calls[z];
            assert forall|c: int| 0 <= c < p.len() implies (#[trigger] p[c]).d >= 1 by { assert(p[c] == calls[c]); }
            Self::lemma_asked_pos(p, id);
            let q = mult(e.ids, e.ids.len() as int, id);
            lemma_mult_nonneg(e.ids, e.ids.len() as int, id);
            if !e.ids.contains(id) { lemma_mult_contains(e.ids, e.ids.len() as int, id); }
            let d = e.d;
            assert(d * q >= q && (q == 0 ==> d * q == 0)) by (nonlinear_arith) requires d >= 1, q >= 0;
            if e.ids.contains(id) { let i = choose|i: int| 0 <= i < e.ids.len() && e.ids[i] == id; lemma_mult_pos(e.ids, e.ids.len() as int, i); }
            if exists|c: int| 0 <= c < p.len() && (#[trigger] p[c]).ids.contains(id) {
                let c = choose|c: int| 0 <= c < p.len() && (#[trigger] p[c]).ids.contains(id);
                assert(calls[c] == p[c]);
            }
            if exists|c: int| 0 <= c < calls.len() && (#[trigger] calls[c]).ids.contains(id) {
                let c = choose|c: int| 0 <= c < calls.len() && (#[trigger] calls[c]).ids.contains(id);
                if c < z { assert(p[c] == calls[c]); }
            }
        }
    }

    // -------------------------------------------------------------- any number of calls, any interleaving
    /// what the calls together ask for
    pub open spec fn asked(calls: Seq<Call>, id: int) -> int
        decreases calls.len()
    { if calls.len() == 0 { 0 } else { Self::asked(calls.drop_last(), id) + calls.last().d * mult(calls.last().ids, calls.last().ids.len() as int, id) } }
    /// No interleaving loses or duplicates an update: if the history consists of the changes of these calls and no cell
    /// reached its limit, every cell holds what it started with plus everything the calls ask for, in whatever order they ran.
    proof fn theorem_no_update_lost(base: Map<int, int>, t: Seq<Ev>, calls: Seq<Call>, id: int)
        requires
            calm(base, t), distinct(calls),
            forall|k: int| 0 <= k < t.len() ==> exists|c: int| 0 <= c < calls.len() && (#[trigger] calls[c]).who == (#[trigger] t[k]).call,
            forall|c: int| 0 <= c < calls.len() ==> own(t, (#[trigger] calls[c]).who, id) == calls[c].d * mult(calls[c].ids, calls[c].ids.len() as int, id),
        ensures val(base, t, id) == base[id] + Self::asked(calls, id),
    {
        lemma_val_total(base, t, id);
        lemma_calm_prefix(base, t, t.len() as int);
        assert(t.take(t.len() as int) =~= t);
        lemma_total_owns(t, calls, id);
        assert forall|k: int| 0 <= k < t.len() implies among(calls, (#[trigger] t[k]).call) by {
            let c = choose|c: int| 0 <= c < calls.len() && (#[trigger] calls[c]).who == t[k].call;
        }
        Self::lemma_asked(t, calls, id);
    }
    proof fn lemma_asked(t: Seq<Ev>, calls: Seq<Call>, id: int)
        requires forall|c: int| 0 <= c < calls.len() ==> own(t, (#[trigger] calls[c]).who, id) == calls[c].d * mult(calls[c].ids, calls[c].ids.len() as int, id),
        ensures owns(t, calls, id) == Self::asked(calls, id),
        decreases calls.len(),
    {
        if calls.len() > 0 {
            let p = calls.drop_last();
            assert forall|c: int| 0 <= c < p.len() implies own(t, (#[trigger] p[c]).who, id) == p[c].d * mult(p[c].ids, p[c].ids.len() as int, id) by { assert(p[c] == calls[c]); }
            Self::lemma_asked(t, p, id);
            assert(calls[calls.len() - 1] == calls.last());
        }
    }
    /// Concurrent `increment`s of one ngram: one of the calls (the last to have changed all its cells) returns at least
    /// everything they added together, on top of the smallest of the cells before.
    proof fn theorem_last_sees_all(base: Map<int, int>, t: Seq<Ev>, calls: Seq<Call>, ids: Seq<int>) -> (j: int)
        requires
            calm(base, t), ups(t, 0), distinct(calls), calls.len() > 0, ids.len() > 0,
            // what the contract of `increment` says of each call
            forall|c: int| 0 <= c < calls.len() ==> incremented(base, t, #[trigger] calls[c], ids),
        ensures
            0 <= j < calls.len(),
            calls[j].r >= min2(minv(base, Seq::empty(), ids, ids.len() as int) + sum_by(calls), MAXV),
    {
        let j = latest(calls);
        let c = calls[j];
        assert(incremented(base, t, c, ids));
        let p = t.take(c.m);
        let n = ids.len() as int;
        lemma_calm_prefix(base, t, c.m);
        assert forall|i: int| 0 <= i < n implies val(base, p, #[trigger] ids[i]) >= base[ids[i]] + sum_by(calls) by {
            let id = ids[i];
            lemma_mult_pos(ids, n, i);
            lemma_val_total(base, p, id);
            assert forall|k: int| 0 <= k < p.len() implies (#[trigger] p[k]).d >= 0 by { assert(p[k] == t[k]); }
            lemma_total_owns(p, calls, id);
            assert forall|x: int| 0 <= x < calls.len() implies own(p, (#[trigger] calls[x]).who, id) >= calls[x].d by {
                let y = calls[x];
                assert(incremented(base, t, y, ids));
                lemma_take_take(t, y.m, c.m);
                assert forall|k: int| y.m <= k < p.len() implies (#[trigger] p[k]).call != y.who by { assert(p[k] == t[k]); }
                lemma_own_others(t.take(y.m), p, y.who, id);
                lemma_own_others(t.take(y.m), t, y.who, id);
                let q = mult(ids, n, id);
                let d = y.d;
                assert(d * q >= d) by (nonlinear_arith) requires d >= 0, q >= 1;
            }
            lemma_owns_ge(p, calls, id);
        }
        lemma_minv_ge(base, p, ids, n, sum_by(calls));
        j
    }
    /// Nothing changes the table any more: a later look at it sees exactly what the calls before left there.
    proof fn theorem_read_after(a: World, b: World, ids: Seq<int>, n: int, r: int)
        requires
            others(a, b), b.trace@.len() == a.trace@.len(),
            calm(b.base@, b.trace@) && downs(b.trace@, a.trace@.len() as int) ==> maxv(b.base@, b.trace@, ids, n) <= r <= maxv(a.base@, a.trace@, ids, n),
            calm(a.base@, a.trace@),
        ensures r == maxv(a.base@, a.trace@, ids, n),
    { assert(b.trace@.take(a.trace@.len() as int) =~= b.trace@); }

    fn hash(&self, ngram: &mut TokIter, hasher: usize) -> (r: usize)
        requires hasher < self.hash_builders@.len(),
        ensures r == hash_val(self.hash_builders@[hasher as int].id(), old(ngram).rest()),
    {
/*@body
@file src/ngrams/counter.rs
@item NgramCounter::hash
@params self ngram hasher
@locals hasher token
@start
    let ghost all = ngram.rest();
    let ghost k = hasher as int;
@loop 0 for via vx_by_ref
    invariant
        hasher.state() == self.hash_builders@[k].id(),
        hasher.fed() + __it0.rest() =~= all,
    ensures
        __it0.rest().len() == 0,
    decreases __it0.rest().len(),
@*/
    }
    fn index_for_hash(&self, hash: usize) -> (r: usize)
        requires self.size > 0,
        ensures r == hash as int % self.size as int, r < self.size,
    {
/*@body
@file src/ngrams/counter.rs
@item NgramCounter::index_for_hash
@params self hash
@*/
    }
}
fn main() {}
}
