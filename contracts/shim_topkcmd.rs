// ---------------------------------------------------------------------------------------------
// shim_topkcmd: what topk and botk work with, by contract: the shared ngram table (unit `counter`),
// TopKNgrams (unit `topk`), the channel to the collecting thread, the jobs.
// ---------------------------------------------------------------------------------------------
//@if INT=u32
pub type Int = u32;
pub type AtomicInt = AtomicU32;
//@endif
//@if INT=u64
pub type Int = u64;
pub type AtomicInt = AtomicU64;
//@endif
pub spec const MAXV: int = Int::MAX as int;
pub trait Zero: Sized { fn zero() -> (r: Self); }
impl Zero for Int { fn zero() -> (r: Self) ensures r == 0 { 0 } }
pub trait NumCast: Sized { fn cast(x: u32) -> (r: Option<Self>); }
impl NumCast for Int { fn cast(x: u32) -> (r: Option<Self>) ensures r == Some(x as Int) { Some(x as Int) } }
pub assume_specification[ ${INT}::max_value ]() -> (r: ${INT})
    ensures r == ${INT}::MAX;

/// one call of `increment` (by > 0) or `max_count` (by == 0): what it returned
pub ghost struct Ev { pub table: int, pub g: Gram, pub c: int, pub by: int }
pub ghost struct Ext {
    // a worker's view
    pub log: Seq<Ev>, pub sent: Seq<Ins>,
    // the main thread's view
    pub got: Seq<Ins>,                  // received so far, in order
    pub open: int,                      // sending ends the main thread itself still holds
    pub active: bool, pub closed: bool, // there is a channel; recv has reported that no more can come
    pub base: Map<int, int>,            // what a table's cells started with
    pub fed: Map<int, Multiset<Gram>>,  // ngrams taken from a table by jobs joined so far
}
pub open spec fn may_join(e: Ext) -> bool { e.active ==> e.closed }
pub open spec fn same_but_ext(a: World, b: World) -> bool { a.out == b.out && a.fs == b.fs && a.cells == b.cells && a.jobs == b.jobs && a.joined == b.joined }
pub open spec fn min2(a: int, b: int) -> int { if a < b { a } else { b } }

// ------------------------------------------------------------------ the table
pub uninterp spec fn no_collisions(table: int) -> bool;
/// no cell of the table ever reaches the end of the count type's range
pub uninterp spec fn in_range(table: int) -> bool;
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct NgramCounter<A> { a: Option<A>, x: u64 }
impl<A: Atomic> NgramCounter<A> {
    pub uninterp spec fn id(&self) -> int;
}
impl NgramCounter<AtomicInt> {
    #[verifier::external_body]
    pub fn new(size: usize, hashes: usize, seed: Option<u64>, init: Int, w: &mut World) -> (r: Result<NgramCounter<AtomicInt>>)
        ensures same_but_ext(*old(w), *final(w)),
            size == 0 ==> r is Err,
            r is Ok ==> final(w).ext@ == (Ext { base: old(w).ext@.base.insert(r->Ok_0.id(), init as int),
                fed: old(w).ext@.fed.insert(r->Ok_0.id(), Multiset::empty()), ..old(w).ext@ }),
            r is Err ==> final(w).ext == old(w).ext { unimplemented!() }
    #[verifier::external_body]
    pub fn increment(&self, g: &VecDeque<Tok>, by: Int, w: &mut World) -> (r: Int)
        ensures same_but_ext(*old(w), *final(w)),
            final(w).ext@ == (Ext { log: old(w).ext@.log.push(Ev { table: self.id(), g: g@, c: r as int, by: by as int }), ..old(w).ext@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn decrement(&self, g: &VecDeque<Tok>, by: Int, w: &mut World) -> (r: Int)
        ensures same_but_ext(*old(w), *final(w)),
            final(w).ext@ == (Ext { log: old(w).ext@.log.push(Ev { table: self.id(), g: g@, c: r as int, by: -(by as int) }), ..old(w).ext@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn max_count(&self, g: &VecDeque<Tok>, w: &mut World) -> (r: Int)
        ensures same_but_ext(*old(w), *final(w)),
            final(w).ext@ == (Ext { log: old(w).ext@.log.push(Ev { table: self.id(), g: g@, c: r as int, by: 0 }), ..old(w).ext@ }) { unimplemented!() }
}
/// the largest value published through this cell before its structure is drained
pub uninterp spec fn final_min(cell: int) -> int;
impl AtomicInt {
    pub uninterp spec fn id(&self) -> int;
    /// what is published only grows until the structure is drained (unit `topk`, C06)
    #[verifier::external_body]
    pub fn load(&self, o: Ordering) -> (r: Int) ensures r <= final_min(self.id()) { unimplemented!() }
}

// ------------------------------------------------------------------ TopKNgrams (unit `topk`)
#[verifier::external_body]
pub struct Opaque { x: u64 }
pub struct TopKNgrams { pub k: usize, pub min_count: Int, pub rest: Opaque }
impl TopKNgrams {
    pub uninterp spec fn held(&self) -> Set<Pair>;
    pub uninterp spec fn cell(&self) -> int;
    /// not drained so far
    pub uninterp spec fn fresh(&self) -> bool;
    /// relative to the insertions so far: `h` is the largest count inserted for each ngram
    pub open spec fn wf(&self, h: Map<Gram, int>) -> bool {
        &&& is_topk(self.held(), h, self.k as int)
        &&& h.dom().finite()
        &&& forall|g: Gram| #[trigger] h.dom().contains(g) ==> h[g] >= 1
        &&& self.min_count >= 1
        &&& forall|p: Pair| #[trigger] self.held().contains(p) ==> self.min_count <= p.0
        &&& self.held().len() < self.k ==> self.min_count == 1
    }
    #[verifier::external_body]
    pub fn new(k: usize) -> (r: TopKNgrams) ensures r.k == k, r.min_count == 1, r.fresh(), r.wf(Map::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn min_count(&self) -> (r: Arc<AtomicInt>) ensures r.id() == self.cell() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, g: Vec<Tok>, c: Int)
        requires c >= 1,
        ensures final(self).k == old(self).k, final(self).cell() == old(self).cell(), final(self).fresh() == old(self).fresh(),
            forall|h: Map<Gram, int>| #[trigger] old(self).wf(h) ==> final(self).wf(maxed(h, g@, c as int)) { unimplemented!() }
    /// everything held, largest first; once no worker reads the published minimum any more, its final value is known
    #[verifier::external_body]
    pub fn drain(&mut self, w: &mut World) -> (r: Ranked)
        ensures *final(w) == *old(w), descending(r@), r@.to_set() == old(self).held(), r@.len() < usize::MAX,
            forall|p: Pair| #[trigger] r@.contains(p) ==> old(self).held().contains(p) && p.0 <= MAXV,
            old(self).fresh() && old(w).ext@.closed ==> final_min(old(self).cell()) == old(self).min_count { unimplemented!() }
}
/// Vec<(Rc<Vec<String>>, count)>
#[verifier::external_body]
pub struct Ranked { x: u64 }
impl Ranked {
    pub uninterp spec fn view(&self) -> Seq<Pair>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: RankIter<'a>) ensures r.all() == self@, r.pos() == 0 { unimplemented!() }
}
#[verifier::external_body]
pub struct RankIter<'a> { x: &'a u64 }
impl<'a> RankIter<'a> {
    pub uninterp spec fn all(&self) -> Seq<Pair>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a Rc<Vec<Tok>>, &'a Int)>)
        ensures final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> r is Some && (*r->Some_0.1 as int, (*r->Some_0.0)@) == old(self).all()[old(self).pos()]
                && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos() { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: RankEnum<'a>) ensures r.all() == self.all(), r.pos() == self.pos() { unimplemented!() }
}
#[verifier::external_body]
pub struct RankEnum<'a> { x: &'a u64 }
impl<'a> RankEnum<'a> {
    pub uninterp spec fn all(&self) -> Seq<Pair>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, (&'a Rc<Vec<Tok>>, &'a Int))>)
        ensures final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> r is Some && (*r->Some_0.1.1 as int, (*r->Some_0.1.0)@) == old(self).all()[old(self).pos()]
                && final(self).pos() == old(self).pos() + 1 && r->Some_0.0 == old(self).pos() && old(self).pos() >= 0,
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos() { unimplemented!() }
}
#[verifier::external_body]
pub struct RankInto { x: u64 }
impl RankInto {
    pub uninterp spec fn all(&self) -> Seq<Pair>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(Rc<Vec<Tok>>, Int)>)
        ensures final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> r is Some && (r->Some_0.1 as int, r->Some_0.0@) == old(self).all()[old(self).pos()]
                && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos() { unimplemented!() }
}
impl VxInto for Ranked {
    type It = RankInto;
    open spec fn begins(self, r: RankInto) -> bool { r.all() == self@ && r.pos() == 0 }
    #[verifier::external_body]
    fn vx_into(self) -> (r: RankInto) { unimplemented!() }
}
impl<'a> VxInto for RankEnum<'a> {
    type It = RankEnum<'a>;
    open spec fn begins(self, r: RankEnum<'a>) -> bool { r == self }
    fn vx_into(self) -> (r: RankEnum<'a>) { self }
}
impl<'a> VxInto for RankIter<'a> {
    type It = RankIter<'a>;
    open spec fn begins(self, r: RankIter<'a>) -> bool { r == self }
    fn vx_into(self) -> (r: RankIter<'a>) { self }
}
pub trait ToVec { spec fn words_of(&self) -> Gram; fn to_vec(&self) -> (r: Vec<Tok>) ensures r@ == self.words_of(); }
impl ToVec for Rc<Vec<Tok>> {
    open spec fn words_of(&self) -> Gram { self@ }
    #[verifier::external_body]
    fn to_vec(&self) -> (r: Vec<Tok>) { unimplemented!() }
}
/// `deque.iter().cloned().collect()`
impl<'b> DequeIter<'b, Tok> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: TokIter) ensures self.pos() == 0 ==> r.rest() == self.all() { unimplemented!() }
}
impl TokIter {
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<Tok>) ensures r@ == self.rest() { unimplemented!() }
}

// ------------------------------------------------------------------ the channel
#[verifier::external_body]
pub struct Sender { x: u64 }
#[verifier::external_body]
pub struct Receiver { x: u64 }
#[verifier::external_body]
pub fn sync_channel(n: usize, w: &mut World) -> (r: (Sender, Receiver))
    requires !old(w).ext@.active,
    ensures same_but_ext(*old(w), *final(w)), final(w).ext@ == (Ext { open: 1, active: true, closed: false, got: Seq::empty(), ..old(w).ext@ }) { unimplemented!() }
impl Sender {
    #[verifier::external_body]
    pub fn clone(&self, w: &mut World) -> (r: Sender)
        ensures same_but_ext(*old(w), *final(w)), final(w).ext@ == (Ext { open: old(w).ext@.open + 1, ..old(w).ext@ }) { unimplemented!() }
    /// waits for room; an error means the collecting thread is gone
    #[verifier::external_body]
    pub fn send(&self, x: (Vec<Tok>, Int), w: &mut World) -> (r: Result<()>)
        requires x.1 >= 1,
        ensures same_but_ext(*old(w), *final(w)),
            r is Ok ==> final(w).ext@ == (Ext { sent: old(w).ext@.sent.push(Ins { g: x.0@, c: x.1 as int }), ..old(w).ext@ }),
            r is Err ==> final(w).ext == old(w).ext { unimplemented!() }
    /// may find no room, and then drops nothing but sends nothing
    #[verifier::external_body]
    pub fn try_send(&self, x: (Vec<Tok>, Int), w: &mut World) -> (r: Result<()>)
        requires x.1 >= 1,
        ensures same_but_ext(*old(w), *final(w)),
            r is Ok ==> final(w).ext@ == (Ext { sent: old(w).ext@.sent.push(Ins { g: x.0@, c: x.1 as int }), ..old(w).ext@ }),
            r is Err ==> final(w).ext == old(w).ext { unimplemented!() }
}
#[verifier::external_body]
pub fn drop(tx: Sender, w: &mut World)
    ensures same_but_ext(*old(w), *final(w)), final(w).ext@ == (Ext { open: old(w).ext@.open - 1, ..old(w).ext@ }) { unimplemented!() }
/// how many messages are still to come: finitely many, as every job ends (unit `exec`)
pub uninterp spec fn to_come(got: Seq<Ins>) -> nat;
pub open spec fn received(a: Ext, b: Ext, r: Result<(Vec<Tok>, Int)>) -> bool {
    r is Ok && r->Ok_0.1 >= 1 && to_come(b.got) < to_come(a.got) && b.got.drop_last() == a.got && b == (Ext { got: a.got.push(Ins { g: r->Ok_0.0@, c: r->Ok_0.1 as int }), ..a })
}
impl Receiver {
    /// waits for a message; an error means that every sending end is gone and nothing is left.
    /// While the receiving thread holds a sending end itself it could wait forever.
    #[verifier::external_body]
    pub fn recv(&self, w: &mut World) -> (r: Result<(Vec<Tok>, Int)>)
        requires old(w).ext@.open == 0, // [C21]
        ensures same_but_ext(*old(w), *final(w)),
            r is Ok ==> received(old(w).ext@, final(w).ext@, r),
            r is Err ==> final(w).ext@ == (Ext { closed: true, ..old(w).ext@ }) { unimplemented!() }
    /// an error may also mean that nothing is there yet
    #[verifier::external_body]
    pub fn try_recv(&self, w: &mut World) -> (r: Result<(Vec<Tok>, Int)>)
        ensures same_but_ext(*old(w), *final(w)),
            r is Ok ==> received(old(w).ext@, final(w).ext@, r),
            r is Err ==> final(w).ext == old(w).ext { unimplemented!() }
}

// ------------------------------------------------------------------ a job
pub ghost struct JobSpec {
    pub path: int, pub limit: Option<usize>, pub tok: Tk, pub n: int, pub table: int, pub by: int,
    pub thr: int, pub cell: int, pub k: int, pub cthr: int, pub ccell: int, pub all: bool,
}
/// what a job did: its table operations, the largest count per ngram it saw, what it kept, what it sent
pub ghost struct JobOut { pub log: Seq<Ev>, pub h: Map<Gram, int>, pub held: Set<Pair>, pub sent: Seq<Ins> }
pub open spec fn job_effect(j: JobSpec, v: int, c: int) -> int { v }
pub open spec fn grams_of(log: Seq<Ev>) -> Seq<Gram> { log.map_values(|e: Ev| e.g) }
pub open spec fn ops(log: Seq<Ev>, table: int, by: int) -> bool { forall|i: int| 0 <= i < log.len() ==> (#[trigger] log[i]).table == table && log[i].by == by }
pub open spec fn logged(log: Seq<Ev>, g: Gram, c: int) -> bool { exists|i: int| 0 <= i < log.len() && (#[trigger] log[i]).g == g && log[i].c == c }
/// `h` holds counts above the threshold that were seen, and (`all`) none seen at or above `m` is missing
pub open spec fn covered(h: Map<Gram, int>, log: Seq<Ev>, thr: int, m: int, all: bool) -> bool {
    &&& forall|g: Gram| #[trigger] h.dom().contains(g) ==> h[g] > thr && logged(log, g, h[g])
    &&& all ==> forall|i: int| 0 <= i < log.len() && (#[trigger] log[i]).c > thr && log[i].c >= m ==> h.dom().contains(log[i].g) && h[log[i].g] >= log[i].c
}
proof fn lemma_cover(h: Map<Gram, int>, log: Seq<Ev>, e: Ev, thr: int, m: int, all: bool)
    requires covered(h, log, thr, m, all), h.dom().finite(),
    ensures
        e.c > thr ==> covered(maxed(h, e.g, e.c), log.push(e), thr, m, all),
        !all || e.c <= thr || e.c < m ==> covered(h, log.push(e), thr, m, all),
{
    let l = log.push(e);
    assert forall|g: Gram, c: int| logged(log, g, c) implies #[trigger] logged(l, g, c) by {
        let i = choose|i: int| 0 <= i < log.len() && (#[trigger] log[i]).g == g && log[i].c == c;
        assert(l[i] == log[i]);
    }
    assert(l[log.len() as int] == e);
    assert(logged(l, e.g, e.c));
    lemma_maxed(h, e.g, e.c);
    if e.c > thr {
        let h2 = maxed(h, e.g, e.c);
        assert forall|g: Gram| #[trigger] h2.dom().contains(g) implies h2[g] > thr && logged(l, g, h2[g]) by {
            if g != e.g { assert(h.dom().contains(g)); } else if h.dom().contains(g) { }
        }
        if all {
            assert forall|i: int| 0 <= i < l.len() && (#[trigger] l[i]).c > thr && l[i].c >= m implies h2.dom().contains(l[i].g) && h2[l[i].g] >= l[i].c by {
                if i < log.len() { assert(l[i] == log[i]); }
            }
        }
    }
    if !all || e.c <= thr || e.c < m {
        if all {
            assert forall|i: int| 0 <= i < l.len() && (#[trigger] l[i]).c > thr && l[i].c >= m implies h.dom().contains(l[i].g) && h[l[i].g] >= l[i].c by {
                assert(i < log.len()); assert(l[i] == log[i]);
            }
        }
    }
}
/// what has to be sent was sent, and nothing else
pub open spec fn sent_right(held: Set<Pair>, sent: Seq<Ins>, thr: int, m: int) -> bool {
    &&& forall|p: Pair| #[trigger] held.contains(p) && p.0 > thr && p.0 >= m ==> sent.contains(Ins { g: p.1, c: p.0 })
    &&& forall|x: Ins| #[trigger] sent.contains(x) ==> held.contains((x.c, x.g))
}
pub open spec fn job_out(j: JobSpec, o: JobOut) -> bool {
    &&& grams_of(o.log) == docs_wins(documents(j.path, j.limit), j.tok, j.n)
    &&& ops(o.log, j.table, j.by)
    &&& covered(o.h, o.log, j.thr, final_min(j.cell), j.all)
    &&& is_topk(o.held, o.h, j.k)
    &&& o.h.dom().finite()
    &&& sent_right(o.held, o.sent, j.cthr, final_min(j.ccell))
}
pub open spec fn all_sent(outs: Seq<JobOut>) -> Multiset<Ins>
    decreases outs.len()
{ if outs.len() == 0 { Multiset::empty() } else { all_sent(outs.drop_last()).add(outs.last().sent.to_multiset()) } }
pub open spec fn job_feeds(j: JobSpec) -> Multiset<Gram> { docs_wins(documents(j.path, j.limit), j.tok, j.n).to_multiset() }
pub open spec fn fed_by(jobs: Seq<JobSpec>, table: int, by: int) -> Multiset<Gram>
    decreases jobs.len()
{ if jobs.len() == 0 { Multiset::empty() } else { let m = fed_by(jobs.drop_last(), table, by); if jobs.last().table == table && jobs.last().by == by { m.add(job_feeds(jobs.last())) } else { m } } }
pub open spec fn evented(outs: Seq<JobOut>, table: int, g: Gram, c: int) -> bool {
    exists|i: int, k: int| 0 <= i < outs.len() && 0 <= k < outs[i].log.len() && #[trigger] outs[i].log[k] == (Ev { table, g, c, by: outs[i].log[k].by })
}
/// every job did its work, and everything sent was received exactly once
pub open spec fn finished(jobs: Seq<JobSpec>, outs: Seq<JobOut>, got: Seq<Ins>) -> bool {
    &&& outs.len() == jobs.len()
    &&& forall|i: int| 0 <= i < jobs.len() ==> job_out(#[trigger] jobs[i], outs[i])
    &&& got.to_multiset() == all_sent(outs)
}
proof fn lemma_received(outs: Seq<JobOut>, got: Seq<Ins>)
    requires got.to_multiset() == all_sent(outs),
    ensures forall|x: Ins| #[trigger] got.contains(x) <==> exists|i: int| 0 <= i < outs.len() && #[trigger] outs[i].sent.contains(x),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    lemma_all_sent(outs);
    assert forall|x: Ins| #[trigger] got.contains(x) <==> exists|i: int| 0 <= i < outs.len() && #[trigger] outs[i].sent.contains(x) by {
        assert(got.contains(x) <==> got.to_multiset().count(x) > 0);
    }
}
proof fn lemma_all_sent(outs: Seq<JobOut>)
    ensures forall|x: Ins| #[trigger] all_sent(outs).count(x) > 0 <==> exists|i: int| 0 <= i < outs.len() && #[trigger] outs[i].sent.contains(x),
    decreases outs.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if outs.len() > 0 {
        let o = outs.drop_last();
        lemma_all_sent(o);
        assert forall|x: Ins| #[trigger] all_sent(outs).count(x) > 0 <==> exists|i: int| 0 <= i < outs.len() && #[trigger] outs[i].sent.contains(x) by {
            assert(outs.last().sent.contains(x) <==> outs.last().sent.to_multiset().count(x) > 0);
            if all_sent(o).count(x) > 0 {
                let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i].sent.contains(x);
                assert(outs[i].sent.contains(x));
            }
            if outs.last().sent.contains(x) { assert(outs[outs.len() - 1].sent.contains(x)); }
            if exists|i: int| 0 <= i < outs.len() && #[trigger] outs[i].sent.contains(x) {
                let i = choose|i: int| 0 <= i < outs.len() && #[trigger] outs[i].sent.contains(x);
                if i < o.len() { assert(o[i].sent.contains(x)); assert(all_sent(o).count(x) > 0); }
            }
        }
    }
}

// ------------------------------------------------------------------ what ends up selected
pub open spec fn uniform(jobs: Seq<JobSpec>, table: int, thr: int, cell: int, k: int, all: bool) -> bool {
    forall|i: int| 0 <= i < jobs.len() ==> (#[trigger] jobs[i]).table == table && jobs[i].thr == thr && jobs[i].cthr == thr
        && jobs[i].cell == cell && jobs[i].ccell == cell && jobs[i].k == k && jobs[i].all == all
}
pub open spec fn has_at_least(r: Set<Pair>, g: Gram, c: int) -> bool { exists|p: Pair| #[trigger] r.contains(p) && p.1 == g && p.0 >= c }
pub open spec fn full_above(r: Set<Pair>, k: int, c: int) -> bool { r.len() == k && forall|p: Pair| #[trigger] r.contains(p) ==> p.0 >= c }
proof fn theorem_select(jobs: Seq<JobSpec>, outs: Seq<JobOut>, got: Seq<Ins>, r: Set<Pair>, table: int, thr: int, cell: int, k: int, all: bool)
    requires
        finished(jobs, outs, got), uniform(jobs, table, thr, cell, k, all), k >= 0,
        is_topk(r, best(got), k),
        forall|p: Pair| #[trigger] r.contains(p) ==> final_min(cell) <= p.0,
        r.len() < k ==> final_min(cell) == 1,
        thr >= 0,
    ensures
        forall|p: Pair| #[trigger] r.contains(p) ==> p.0 > thr && evented(outs, table, p.1, p.0),
        all ==> forall|g: Gram, c: int| #[trigger] evented(outs, table, g, c) && c > thr ==> has_at_least(r, g, c) || full_above(r, k, c),
{
    lemma_received(outs, got);
    lemma_best(got);
    let b = best(got);
    assert forall|p: Pair| #[trigger] r.contains(p) implies p.0 > thr && evented(outs, table, p.1, p.0) by {
        assert(in_pairs(b, p));
        let i = choose|i: int| 0 <= i < got.len() && (#[trigger] got[i]).g == p.1 && got[i].c == b[p.1];
        let x = got[i];
        assert(got.contains(x));
        let j = choose|j: int| 0 <= j < outs.len() && #[trigger] outs[j].sent.contains(x);
        let o = outs[j];
        assert(job_out(jobs[j], o));
        assert(o.held.contains((x.c, x.g)));
        assert(in_pairs(o.h, (x.c, x.g)));
        assert(o.h.dom().contains(x.g));
        assert(logged(o.log, x.g, x.c));
        let q = choose|q: int| 0 <= q < o.log.len() && (#[trigger] o.log[q]).g == x.g && o.log[q].c == x.c;
        assert(outs[j].log[q] == (Ev { table, g: p.1, c: p.0, by: outs[j].log[q].by }));
    }
    if all {
        assert forall|g: Gram, c: int| #[trigger] evented(outs, table, g, c) && c > thr implies has_at_least(r, g, c) || full_above(r, k, c) by {
            let (j, q) = choose|i: int, q: int| 0 <= i < outs.len() && 0 <= q < outs[i].log.len() && #[trigger] outs[i].log[q] == (Ev { table, g, c, by: outs[i].log[q].by });
            assert(job_out(jobs[j], outs[j]));
            if c < final_min(cell) {
                assert(final_min(cell) != 1);
                assert(r.len() == k);
            } else {
                lemma_select_one(outs[j], got, r, thr, final_min(cell), k, g, c, q);
            }
        }
    }
}
/// the same ngrams, with the counts of b
pub open spec fn renamed(s: Set<Pair>, b: Map<Gram, int>) -> Set<Pair> { s.map(|p: Pair| (b[p.1], p.1)) }
proof fn lemma_renamed(s: Set<Pair>, h: Map<Gram, int>, b: Map<Gram, int>)
    requires forall|p: Pair| #[trigger] s.contains(p) ==> in_pairs(h, p),
    ensures renamed(s, b).len() == s.len(),
        forall|x: Pair| #[trigger] renamed(s, b).contains(x) <==> exists|y: Pair| #[trigger] s.contains(y) && (b[y.1], y.1) == x,
    decreases s.len(),
{
    if s.len() == 0 {
        assert(s =~= Set::empty());
        assert(renamed(s, b) =~= Set::empty());
    } else {
        let x = s.choose();
        assert(s.contains(x));
        let t = s.remove(x);
        lemma_renamed(t, h, b);
        let fx = (b[x.1], x.1);
        assert(renamed(s, b) =~= renamed(t, b).insert(fx)) by {
            assert forall|z: Pair| renamed(s, b).contains(z) <==> renamed(t, b).insert(fx).contains(z) by {
                if renamed(t, b).contains(z) { let y = choose|y: Pair| #[trigger] t.contains(y) && (b[y.1], y.1) == z; assert(s.contains(y)); }
                if renamed(s, b).contains(z) && z != fx { let y = choose|y: Pair| s.contains(y) && (b[y.1], y.1) == z; assert(t.contains(y)); }
            }
        }
        assert(!renamed(t, b).contains(fx)) by {
            if renamed(t, b).contains(fx) {
                let y = choose|y: Pair| #[trigger] t.contains(y) && (b[y.1], y.1) == fx;
                assert(s.contains(y)); assert(in_pairs(h, y)); assert(in_pairs(h, x));
            }
        }
    }
}
/// one event at or above the final minimum
proof fn lemma_select_one(o: JobOut, got: Seq<Ins>, r: Set<Pair>, thr: int, m: int, k: int, g: Gram, c: int, q: int)
    requires
        covered(o.h, o.log, thr, m, true), is_topk(o.held, o.h, k), sent_right(o.held, o.sent, thr, m), o.h.dom().finite(), k >= 0,
        forall|x: Ins| #[trigger] o.sent.contains(x) ==> got.contains(x),
        is_topk(r, best(got), k),
        0 <= q < o.log.len(), o.log[q].g == g, o.log[q].c == c, c > thr, c >= m,
    ensures has_at_least(r, g, c) || full_above(r, k, c),
{
    lemma_best(got);
    let b = best(got);
    assert forall|p: Pair| #[trigger] o.held.contains(p) && p.0 > thr && p.0 >= m implies b.dom().contains(p.1) && b[p.1] >= p.0 by {
        let x = Ins { g: p.1, c: p.0 };
        assert(o.sent.contains(x));
        assert(got.contains(x));
        let i = choose|i: int| 0 <= i < got.len() && got[i] == x;
        assert(got[i].g == p.1);
    }
    let d = o.h[g];
    assert(o.h.dom().contains(g) && d >= c);
    if o.held.contains((d, g)) {
        assert(b.dom().contains(g) && b[g] >= d);
        if r.contains((b[g], g)) { }
        else {
            assert forall|p: Pair| #[trigger] r.contains(p) implies p.0 >= c by { assert(plt((b[g], g), p)); }
        }
    } else {
        assert(o.held.len() == k);
        assert forall|p: Pair| #[trigger] o.held.contains(p) implies p.0 >= d by { assert(plt((d, g), p)); }
        let s = renamed(o.held, b);
        lemma_renamed(o.held, o.h, b);
        assert(s.len() == k);
        if exists|p: Pair| #[trigger] r.contains(p) && p.0 < c {
            let p = choose|p: Pair| #[trigger] r.contains(p) && p.0 < c;
            assert forall|x: Pair| #[trigger] s.contains(x) implies r.contains(x) by {
                let y = choose|y: Pair| #[trigger] o.held.contains(y) && (b[y.1], y.1) == x;
                assert(b.dom().contains(y.1) && b[y.1] >= y.0);
                if !r.contains(x) { assert(plt((b[y.1], y.1), p)); }
            }
            assert(s.insert(p).subset_of(r));
            assert(!s.contains(p)) by {
                if s.contains(p) { let y = choose|y: Pair| #[trigger] o.held.contains(y) && (b[y.1], y.1) == p; assert(b[y.1] >= y.0); }
            }
            vstd::set_lib::lemma_len_subset(s.insert(p), r);
        } else if r.len() < k {
            assert forall|x: Pair| #[trigger] s.contains(x) implies r.contains(x) by {
                let y = choose|y: Pair| #[trigger] o.held.contains(y) && (b[y.1], y.1) == x;
                assert(b.dom().contains(y.1));
                if !r.contains(x) { assert(r.len() == k); }
            }
            vstd::set_lib::lemma_len_subset(s, r);
        }
    }
}

// ------------------------------------------------------------------ what a job amounts to
pub open spec fn doc_list(path: int, limit: Option<usize>) -> Seq<Data> { documents(path, limit) }
/// the documents of an input as the executor hands them over (unit `exec`: each once, in order)
#[verifier::external_body]
pub struct Docs { x: u64 }
impl Docs {
    pub uninterp spec fn all(&self) -> Seq<Data>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Data>)
        ensures final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> r == Some(old(self).all()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos() { unimplemented!() }
}
/// an event of a job is about an ngram of its documents
proof fn lemma_evented_occurs(jobs: Seq<JobSpec>, outs: Seq<JobOut>, table: int, by: int, g: Gram, c: int)
    requires outs.len() == jobs.len(), forall|i: int| 0 <= i < jobs.len() ==> job_out(#[trigger] jobs[i], outs[i]) && jobs[i].by == by && jobs[i].table == table,
        evented(outs, table, g, c),
    ensures fed_by(jobs, table, by).count(g) > 0,
    decreases jobs.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let (i, k) = choose|i: int, k: int| 0 <= i < outs.len() && 0 <= k < outs[i].log.len() && #[trigger] outs[i].log[k] == (Ev { table, g, c, by: outs[i].log[k].by });
    let j = jobs.drop_last(); let o = outs.drop_last();
    if i < o.len() {
        assert(o[i] == outs[i]);
        assert(o[i].log[k] == (Ev { table, g, c, by: o[i].log[k].by }));
        assert forall|q: int| 0 <= q < j.len() implies job_out(#[trigger] j[q], o[q]) && j[q].by == by && j[q].table == table by { assert(j[q] == jobs[q]); assert(o[q] == outs[q]); }
        lemma_evented_occurs(j, o, table, by, g, c);
    } else {
        assert(job_out(jobs[i], outs[i]));
        let w = docs_wins(documents(jobs[i].path, jobs[i].limit), jobs[i].tok, jobs[i].n);
        assert(grams_of(outs[i].log)[k] == g);
        assert(w.contains(g));
        assert(w.to_multiset().count(g) > 0);
    }
}
