#![allow(unused)]
// Unit `stats`: src/cmd/stats.rs.
//@claims C16: stats_doc sync_stats stats_main LocalStats::default Stats::default new_local one_job theorem_totals
//@claims C17: stats_doc sync_stats stats_main Stats::prune_documents LocalStats::default Stats::default new_local one_job theorem_extremes
//@claims C19: stats_main
//@claims C20: stats_doc sync_stats new_local one_job ~stats_main
//@claims C22: stats_main get_output_file
//@claims C23: stats_main
//@claims C26: stats_main
use vstd::prelude::*;
use std::sync::Arc;
//@include shim_macros.rs
verus! {
global size_of usize == 8;
//@include shim_std.rs
#[verifier::external_body]
pub fn vx_nondet() -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_unreached<T>() -> (r: T) requires false { unimplemented!() }
//@include shim_result.rs
//@include shim_cmd.rs
pub struct Data { pub text: Option<Text> }
pub type DataInstance = Data;
impl PathBuf {
    #[verifier::external_body]
    pub fn into(&self) -> (r: PathBuf) ensures r.id() == self.id() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r.id() == self.id() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: PathBuf) ensures r.id() == self.id() { unimplemented!() }
}

// ------------------------------------------------------------------ tokens
pub ghost enum Tk { Unicode, Pretrained(int) }
/// how many tokens a text has (unit `tokens`, tokenizers crate)
pub uninterp spec fn token_count(tok: Tk, t: Chars) -> nat;
#[verifier::external_body]
pub struct Toks { x: u64 }
impl Toks {
    pub uninterp spec fn all(&self) -> int;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Text>)
        ensures final(self).all() == old(self).all(),
            old(self).pos() < old(self).all() ==> r is Some && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).all() ==> r is None && final(self).pos() == old(self).pos() { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self.all() - self.pos() { unimplemented!() }
}
impl VxInto for Toks {
    type It = Toks;
    open spec fn begins(self, r: Toks) -> bool { r == self }
    fn vx_into(self) -> (r: Toks) { self }
}
#[verifier::external_body]
pub fn tokenize(t: &Text) -> (r: Toks) ensures r.pos() == 0, r.all() == token_count(Tk::Unicode, t@), 0 <= r.all() <= usize::MAX { unimplemented!() }
#[verifier::external_body]
pub struct PretrainedTokenizer { x: u64 }
pub uninterp spec fn tokenizer_named(name: Chars) -> int;
impl PretrainedTokenizer {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(name: &Text) -> (r: Result<PretrainedTokenizer>) ensures r is Ok ==> r->Ok_0.id() == tokenizer_named(name@) { unimplemented!() }
    #[verifier::external_body]
    pub fn tokenize(&self, t: &Text) -> (r: Result<Vec<Text>>) ensures r is Ok ==> r->Ok_0@.len() == token_count(Tk::Pretrained(self.id()), t@) { unimplemented!() }
}
pub open spec fn tk_of(t: Option<PretrainedTokenizer>) -> Tk { match t { Some(t) => Tk::Pretrained(t.id()), None => Tk::Unicode } }
impl Clone for PretrainedTokenizer {
    #[verifier::external_body]
    fn clone(&self) -> (r: PretrainedTokenizer) ensures r.id() == self.id() { unimplemented!() }
}

// ------------------------------------------------------------------ document pointers
pub ghost struct Ptr { pub path: int, pub line: int, pub n: int }
pub struct DocumentPointer { pub path: PathBuf, pub line: usize, pub num_tokens: usize }
pub open spec fn ptr_of(p: DocumentPointer) -> Ptr { Ptr { path: p.path.id(), line: p.line as int, n: p.num_tokens as int } }
pub open spec fn ptrs_of(v: Seq<DocumentPointer>) -> Seq<Ptr> { v.map_values(|p: DocumentPointer| ptr_of(p)) }
/// the documents with a text: file, line counting from 1, number of tokens
pub open spec fn pointers(tok: Tk, path: int, docs: Seq<Data>) -> Seq<Ptr>
    decreases docs.len()
{
    if docs.len() == 0 { Seq::empty() } else {
        let p = pointers(tok, path, docs.drop_last());
        match docs.last().text { Some(t) => p.push(Ptr { path, line: docs.len() as int, n: token_count(tok, t@) as int }), None => p }
    }
}
pub open spec fn sum_n(s: Seq<Ptr>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { sum_n(s.drop_last()) + s.last().n } }
pub open spec fn max2(a: int, b: int) -> int { if a < b { b } else { a } }
pub open spec fn min2(a: int, b: int) -> int { if a > b { b } else { a } }
/// the largest token count (0 without documents), the smallest (2^64 - 1 without documents)
pub open spec fn top(s: Seq<Ptr>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { max2(top(s.drop_last()), s.last().n) } }
pub open spec fn bot(s: Seq<Ptr>) -> int
    decreases s.len()
{ if s.len() == 0 { usize::MAX as int } else { min2(bot(s.drop_last()), s.last().n) } }
pub open spec fn sub(s: Seq<Ptr>, keep: spec_fn(Ptr) -> bool) -> Seq<Ptr>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { let r = sub(s.drop_last(), keep); if keep(s.last()) { r.push(s.last()) } else { r } } }
pub open spec fn has_n(n: int) -> spec_fn(Ptr) -> bool { |p: Ptr| p.n == n }
proof fn lemma_sub_add(a: Seq<Ptr>, b: Seq<Ptr>, keep: spec_fn(Ptr) -> bool)
    ensures sub(a + b, keep) == sub(a, keep) + sub(b, keep),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(sub(a, keep) + sub(b, keep) =~= sub(a, keep)); } else {
        lemma_sub_add(a, b.drop_last(), keep);
        assert((a + b).drop_last() =~= a + b.drop_last());
        if keep(b.last()) { assert(sub(a + b, keep) =~= sub(a, keep) + sub(b, keep)); }
    }
}
proof fn lemma_sub_push(a: Seq<Ptr>, x: Ptr, keep: spec_fn(Ptr) -> bool)
    ensures sub(a.push(x), keep) == if keep(x) { sub(a, keep).push(x) } else { sub(a, keep) },
{ assert(a.push(x).drop_last() =~= a); }
proof fn lemma_sub_in(s: Seq<Ptr>, keep: spec_fn(Ptr) -> bool)
    ensures forall|x: Ptr| #[trigger] sub(s, keep).contains(x) ==> s.contains(x) && keep(x),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_sub_in(s.drop_last(), keep);
        assert forall|x: Ptr| #[trigger] sub(s, keep).contains(x) implies s.contains(x) && keep(x) by {
            let i = choose|i: int| 0 <= i < sub(s, keep).len() && sub(s, keep)[i] == x;
            if keep(s.last()) && i == sub(s, keep).len() - 1 { assert(s[s.len() - 1] == x); } else {
                assert(sub(s.drop_last(), keep)[i] == x);
                assert(sub(s.drop_last(), keep).contains(x));
                let k = choose|k: int| 0 <= k < s.drop_last().len() && s.drop_last()[k] == x;
                assert(s[k] == x);
            }
        }
    }
}
/// keeping first what keep1 accepts changes nothing when keep1 accepts whatever keep2 accepts
proof fn lemma_sub_sub(s: Seq<Ptr>, keep1: spec_fn(Ptr) -> bool, keep2: spec_fn(Ptr) -> bool)
    requires forall|x: Ptr| s.contains(x) && #[trigger] keep2(x) ==> keep1(x),
    ensures sub(sub(s, keep1), keep2) == sub(s, keep2),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|x: Ptr| d.contains(x) && #[trigger] keep2(x) implies keep1(x) by { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(s[i] == x); }
        lemma_sub_sub(d, keep1, keep2);
        assert(s.contains(s.last())) by { assert(s[s.len() - 1] == s.last()); }
        if keep1(s.last()) { lemma_sub_push(sub(d, keep1), s.last(), keep2); }
    }
}
proof fn lemma_sub_all(s: Seq<Ptr>, keep: spec_fn(Ptr) -> bool)
    requires forall|x: Ptr| #[trigger] s.contains(x) ==> keep(x),
    ensures sub(s, keep) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|x: Ptr| #[trigger] d.contains(x) implies keep(x) by { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(s[i] == x); assert(s.contains(x)); }
        lemma_sub_all(d, keep);
        assert(s.contains(s.last())) by { assert(s[s.len() - 1] == s.last()); }
        assert(s =~= d.push(s.last()));
    } else { assert(sub(s, keep) =~= s); }
}
proof fn lemma_sub_same(s: Seq<Ptr>, k1: spec_fn(Ptr) -> bool, k2: spec_fn(Ptr) -> bool)
    requires forall|x: Ptr| #[trigger] s.contains(x) ==> k1(x) == k2(x),
    ensures sub(s, k1) == sub(s, k2),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|x: Ptr| #[trigger] d.contains(x) implies k1(x) == k2(x) by { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(s[i] == x); assert(s.contains(x)); }
        lemma_sub_same(d, k1, k2);
        assert(s.contains(s.last())) by { assert(s[s.len() - 1] == s.last()); }
    }
}
proof fn lemma_bounds(s: Seq<Ptr>)
    ensures top(s) >= 0, bot(s) <= usize::MAX, forall|x: Ptr| #[trigger] s.contains(x) ==> bot(s) <= x.n <= top(s),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_bounds(d);
        assert forall|x: Ptr| #[trigger] s.contains(x) implies bot(s) <= x.n <= top(s) by {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
            if i < d.len() { assert(d[i] == x); assert(d.contains(x)); }
        }
    }
}
proof fn lemma_add_parts(a: Seq<Ptr>, b: Seq<Ptr>)
    ensures sum_n(a + b) == sum_n(a) + sum_n(b), top(a + b) == max2(top(a), top(b)), bot(a + b) == min2(bot(a), bot(b)),
    decreases b.len(),
{
    lemma_bounds(a);
    if b.len() == 0 { assert(a + b =~= a); } else {
        lemma_add_parts(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
proof fn lemma_pointers_step(tok: Tk, path: int, docs: Seq<Data>, d: Data)
    ensures ({
        let (a, b) = (pointers(tok, path, docs), pointers(tok, path, docs.push(d)));
        match d.text {
            None => b == a,
            Some(t) => {
                let n = token_count(tok, t@) as int;
                b == a.push(Ptr { path, line: docs.len() as int + 1, n }) && sum_n(b) == sum_n(a) + n && top(b) == max2(top(a), n) && bot(b) == min2(bot(a), n)
            }
        }
    }),
{
    let a = pointers(tok, path, docs);
    assert(docs.push(d).drop_last() =~= docs);
    if d.text is Some { let b = pointers(tok, path, docs.push(d)); assert(b.drop_last() =~= a); }
}
/// the pointers of the first k documents: no larger sum, no further extremes
proof fn lemma_prefix(tok: Tk, path: int, docs: Seq<Data>, k: int)
    requires 0 <= k <= docs.len(),
    ensures
        0 <= sum_n(pointers(tok, path, docs.take(k))) <= sum_n(pointers(tok, path, docs)),
        top(pointers(tok, path, docs.take(k))) <= top(pointers(tok, path, docs)), bot(pointers(tok, path, docs)) <= bot(pointers(tok, path, docs.take(k))),
    decreases docs.len(),
{
    if docs.len() == 0 { assert(docs.take(k) =~= docs); } else {
        let d = docs.drop_last();
        assert(docs =~= d.push(docs.last()));
        lemma_pointers_step(tok, path, d, docs.last());
        if k < docs.len() { lemma_prefix(tok, path, d, k); assert(docs.take(k) =~= d.take(k)); }
        else { lemma_prefix(tok, path, d, d.len() as int); assert(d.take(d.len() as int) =~= d); assert(docs.take(k) =~= docs); }
    }
}

// ------------------------------------------------------------------ what the workers share
pub ghost struct Ext {
    pub lists: Map<int, Seq<Ptr>>,   // the lists behind the locks
    pub gave: Map<int, Seq<Ptr>>,    // what this worker put into them
    // ghost: what the counters never exceed / fall below while jobs run, and which entries of a list must not be removed
    pub most: Map<int, int>, pub least: Map<int, int>, pub target: Map<int, int>,
    pub at_join: Map<int, Seq<Ptr>>,  // ghost: the lists when the last job was done
}
pub open spec fn ext_same(a: Ext, b: Ext) -> bool { a.most == b.most && a.least == b.least && a.target == b.target }
pub open spec fn may_join(e: Ext) -> bool { true }
/// AtomicUsize (another type than AtomicUsize of shim_cmd, as it obeys its bounds while jobs run)
#[verifier::external_body]
pub struct Tally { x: u64 }
impl Tally {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(v: usize, w: &mut World) -> (r: Tally)
        ensures same_but_cells(*old(w), *final(w)), !old(w).cells@.dom().contains(r.id()), final(w).cells@ == old(w).cells@.insert(r.id(), v as int) { unimplemented!() }
    /// assumption: counters do not reach 2^64
    #[verifier::external_body]
    pub fn fetch_add(&self, v: usize, o: Ordering, w: &mut World) -> (r: usize)
        ensures same_but_cells(*old(w), *final(w)), final(w).cells@ == old(w).cells@.insert(self.id(), old(w).cells@[self.id()] + v) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_max(&self, v: usize, o: Ordering, w: &mut World) -> (r: usize)
        requires !old(w).joined@ && old(w).ext@.most.dom().contains(self.id()) ==> v <= old(w).ext@.most[self.id()],  // [C17]
        ensures same_but_cells(*old(w), *final(w)),
            final(w).cells@ == old(w).cells@.insert(self.id(), max2(old(w).cells@[self.id()], v as int)) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_min(&self, v: usize, o: Ordering, w: &mut World) -> (r: usize)
        requires !old(w).joined@ && old(w).ext@.least.dom().contains(self.id()) ==> v >= old(w).ext@.least[self.id()],  // [C17]
        ensures same_but_cells(*old(w), *final(w)),
            final(w).cells@ == old(w).cells@.insert(self.id(), min2(old(w).cells@[self.id()], v as int)) { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, v: usize, o: Ordering, w: &mut World)
        ensures same_but_cells(*old(w), *final(w)), final(w).cells@ == old(w).cells@.insert(self.id(), v as int) { unimplemented!() }
    /// exact once every job is done; before that anything within the bounds
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, w: &mut World) -> (r: usize)
        ensures *final(w) == *old(w), old(w).joined@ ==> r == old(w).cells@[self.id()],
            !old(w).joined@ && old(w).ext@.most.dom().contains(self.id()) ==> r <= old(w).ext@.most[self.id()],
            !old(w).joined@ && old(w).ext@.least.dom().contains(self.id()) ==> r >= old(w).ext@.least[self.id()] { unimplemented!() }
}
/// Arc<Mutex<VecDeque<DocumentPointer>>>
#[verifier::external_body]
pub struct PtrList { x: u64 }
#[verifier::external_body]
pub struct PoisonError { x: u64 }
#[verifier::external_body]
pub struct Guard { x: u64 }
pub open spec fn same_but_ext(a: World, b: World) -> bool { a.out == b.out && a.fs == b.fs && a.cells == b.cells && a.jobs == b.jobs && a.joined == b.joined }
impl PtrList {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(w: &mut World) -> (r: PtrList)
        ensures same_but_ext(*old(w), *final(w)), final(w).ext@ == (Ext { lists: old(w).ext@.lists.insert(r.id(), Seq::empty()), ..old(w).ext@ }),
            !old(w).ext@.lists.dom().contains(r.id()) { unimplemented!() }
    /// never poisoned: nothing panics while holding the lock. While jobs run others change the list.
    #[verifier::external_body]
    pub fn lock(&self, w: &mut World) -> (r: core::result::Result<Guard, PoisonError>)
        ensures r is Ok, r->Ok_0.id() == self.id(), same_but_ext(*old(w), *final(w)),
            final(w).ext@ == (Ext { lists: final(w).ext@.lists, ..old(w).ext@ }), final(w).ext@.lists.dom() == old(w).ext@.lists.dom(),
            old(w).joined@ ==> final(w).ext == old(w).ext { unimplemented!() }
}
impl Guard {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn push_back(&mut self, p: DocumentPointer, w: &mut World)
        ensures final(self).id() == old(self).id(), same_but_ext(*old(w), *final(w)),
            final(w).ext@ == (Ext {
                lists: old(w).ext@.lists.insert(old(self).id(), old(w).ext@.lists[old(self).id()].push(ptr_of(p))),
                gave: old(w).ext@.gave.insert(old(self).id(), old(w).ext@.gave[old(self).id()].push(ptr_of(p))), ..old(w).ext@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn retain<F: Fn(&DocumentPointer) -> bool>(&mut self, f: F, w: &mut World)
        requires
            forall|d: &DocumentPointer| #[trigger] f.requires((d,)),
            // while jobs run, what has to be listed in the end is not removed
            !old(w).joined@ ==> forall|d: &DocumentPointer, b: bool| #[trigger] f.ensures((d,), b) && ptr_of(*d).n == old(w).ext@.target[old(self).id()] ==> b,  // [C17]
        ensures final(self).id() == old(self).id(), same_but_ext(*old(w), *final(w)),
            exists|keep: spec_fn(Ptr) -> bool| final(w).ext@ == (Ext {
                    lists: old(w).ext@.lists.insert(old(self).id(), #[trigger] sub(old(w).ext@.lists[old(self).id()], keep)), ..old(w).ext@ })
                && forall|x: Ptr| #[trigger] old(w).ext@.lists[old(self).id()].contains(x) ==>
                    exists|d: &DocumentPointer, b: bool| ptr_of(*d) == x && #[trigger] f.ensures((d,), b) && b == keep(x) { unimplemented!() }
}
#[verifier::external_body]
pub struct GuardIter<'a> { x: &'a u64 }
impl<'a> GuardIter<'a> {
    pub uninterp spec fn left(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a DocumentPointer>) ensures r is Some ==> final(self).left() < old(self).left() { unimplemented!() }
}
impl<'a> VxInto for &'a Guard {
    type It = GuardIter<'a>;
    open spec fn begins(self, r: GuardIter<'a>) -> bool { true }
    #[verifier::external_body]
    fn vx_into(self) -> (r: GuardIter<'a>) { unimplemented!() }
}
// Vec<DocumentPointer>::drain(..), into_iter
pub struct VecInto { pub v: Vec<DocumentPointer>, pub i: usize, pub all: Ghost<Seq<DocumentPointer>> }
impl VecInto {
    pub open spec fn pos(&self) -> int { self.i as int }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<DocumentPointer>)
        ensures final(self).all == old(self).all,
            old(self).i < old(self).all@.len() ==> r is Some && r->Some_0 == old(self).all@[old(self).i as int] && final(self).i == old(self).i + 1,
            old(self).i >= old(self).all@.len() ==> r is None && final(self).i == old(self).i { unimplemented!() }
}
pub trait VxDrain { fn vx_drain(&mut self) -> (r: VecInto); }
impl VxDrain for Vec<DocumentPointer> {
    #[verifier::external_body]
    fn vx_drain(&mut self) -> (r: VecInto) ensures r.i == 0, r.all@ == old(self)@, final(self)@.len() == 0 { unimplemented!() }
}
impl VxInto for VecInto {
    type It = VecInto;
    open spec fn begins(self, r: VecInto) -> bool { r == self }
    fn vx_into(self) -> (r: VecInto) { self }
}
impl VxInto for Vec<DocumentPointer> {
    type It = VecInto;
    open spec fn begins(self, r: VecInto) -> bool { r.i == 0 && r.all@ == self@ }
    #[verifier::external_body]
    fn vx_into(self) -> (r: VecInto) { unimplemented!() }
}

// ------------------------------------------------------------------ the records
pub trait Default: Sized { spec fn dflt(r: Self) -> bool; fn default() -> (r: Self) ensures Self::dflt(r); }
pub struct LocalStats {
    pub total_tokens: usize, pub total_documents: usize, pub document_max_tokens: usize, pub document_min_tokens: usize,
    pub max_token_documents: Vec<DocumentPointer>, pub min_token_documents: Vec<DocumentPointer>,
}
impl Default for LocalStats {
    open spec fn dflt(r: LocalStats) -> bool {
        r.total_tokens == 0 && r.total_documents == 0 && r.document_max_tokens == 0 && r.document_min_tokens == usize::MAX
            && r.max_token_documents@.len() == 0 && r.min_token_documents@.len() == 0
    }
    fn default() -> (r: LocalStats)
    {
/*@body
@file src/cmd/stats.rs
@item Default for LocalStats::default
@params
@*/
    }
}
pub ghost struct Ids { pub tokens: int, pub docs: int, pub bytes: int, pub max: int, pub min: int, pub maxl: int, pub minl: int }
pub struct Stats {
    pub total_tokens: Arc<Tally>, pub total_documents: Arc<Tally>, pub total_bytes: Arc<Tally>, pub document_max_tokens: Arc<Tally>, pub document_min_tokens: Arc<Tally>,
    pub max_token_documents: Arc<PtrList>, pub min_token_documents: Arc<PtrList>,
}
pub open spec fn distinct(s: Ids) -> bool {
    &&& s.tokens != s.docs && s.tokens != s.bytes && s.tokens != s.max && s.tokens != s.min
    &&& s.docs != s.bytes && s.docs != s.max && s.docs != s.min && s.bytes != s.max && s.bytes != s.min && s.max != s.min
    &&& s.maxl != s.minl
}
impl Stats {
    pub open spec fn ids(&self) -> Ids {
        Ids { tokens: self.total_tokens.id(), docs: self.total_documents.id(), bytes: self.total_bytes.id(), max: self.document_max_tokens.id(),
            min: self.document_min_tokens.id(), maxl: self.max_token_documents.id(), minl: self.min_token_documents.id() }
    }
    fn default(w: &mut World) -> (r: Stats)
        requires !old(w).joined@,
        ensures
            same_but_cells(World { ext: final(w).ext, ..*old(w) }, *final(w)), final(w).ext@ == (Ext { lists: final(w).ext@.lists, ..old(w).ext@ }),
            distinct(r.ids()),
            final(w).cells@.dom().contains(r.ids().tokens) && final(w).cells@[r.ids().tokens] == 0,
            final(w).cells@.dom().contains(r.ids().docs) && final(w).cells@[r.ids().docs] == 0,
            final(w).cells@.dom().contains(r.ids().max) && final(w).cells@[r.ids().max] == 0,
            final(w).cells@.dom().contains(r.ids().min) && final(w).cells@[r.ids().min] == usize::MAX,
            final(w).cells@.dom().contains(r.ids().bytes),
            final(w).ext@.lists[r.ids().maxl].len() == 0 && final(w).ext@.lists[r.ids().minl].len() == 0,
    {
/*@body
@file src/cmd/stats.rs
@item Default for Stats::default
@params
@world AtomicUsize::new PtrList::new
@sub? AtomicUsize::new =>> Tally::new
@sub? Arc::new(Mutex::new(VecDeque::new())) =>> Arc::new(PtrList::new(w))
@*/
    }
    fn prune_documents(&self, w: &mut World) -> (r: Result<()>)
        requires distinct(self.ids()), guarded(old(w).ext@, self.ids()),
        ensures
            r is Ok, same_but_ext(*old(w), *final(w)), final(w).ext@ == (Ext { lists: final(w).ext@.lists, ..old(w).ext@ }),
            // once every job is done: what is listed are the entries at or beyond the extremes
            old(w).joined@ ==> {
                &&& final(w).ext@.lists[self.ids().maxl] == sub(old(w).ext@.lists[self.ids().maxl], |p: Ptr| p.n >= old(w).cells@[self.ids().max])  // [C17]
                &&& final(w).ext@.lists[self.ids().minl] == sub(old(w).ext@.lists[self.ids().minl], |p: Ptr| p.n <= old(w).cells@[self.ids().min])  // [C17]
            },
    {
        let ghost w0 = *w;
/*@body
@file src/cmd/stats.rs
@item Stats::prune_documents
@params self
@locals current_max max_token_documents current_min min_token_documents
@world load lock retain
@sub? (*max_token_documents) =>> max_token_documents
@sub? (*min_token_documents) =>> min_token_documents
@pure 0 &DocumentPointer
@pure 1 &DocumentPointer
@end
        proof {
            if w0.joined@ {
                let (i, e) = (self.ids(), w0.ext@);
                let hi = |p: Ptr| p.n >= w0.cells@[i.max];
                let lo = |p: Ptr| p.n <= w0.cells@[i.min];
                let k1 = choose|k: spec_fn(Ptr) -> bool| w.ext@.lists[i.maxl] == #[trigger] sub(e.lists[i.maxl], k) && forall|x: Ptr| #[trigger] e.lists[i.maxl].contains(x) ==> k(x) == hi(x);
                lemma_sub_same(e.lists[i.maxl], k1, hi);
                let k2 = choose|k: spec_fn(Ptr) -> bool| w.ext@.lists[i.minl] == #[trigger] sub(e.lists[i.minl], k) && forall|x: Ptr| #[trigger] e.lists[i.minl].contains(x) ==> k(x) == lo(x);
                lemma_sub_same(e.lists[i.minl], k2, lo);
            }
        }
@*/
    }
}
impl Clone for Stats {
    #[verifier::external_body]
    fn clone(&self) -> (r: Stats) ensures r == *self { unimplemented!() }
}
/// while jobs run the extremes stay within the bounds, and the entries at the bound stay listed
pub open spec fn guarded(e: Ext, s: Ids) -> bool {
    &&& e.most.dom().contains(s.max) && e.least.dom().contains(s.min)
    &&& e.target[s.maxl] == e.most[s.max] && e.target[s.minl] == e.least[s.min]
    &&& e.most[s.max] >= 0 && e.least[s.min] <= usize::MAX
}
// ------------------------------------------------------------------ a job
pub ghost struct JobSpec { pub path: int, pub limit: Option<usize>, pub tok: Tk, pub st: Ids }
pub open spec fn job_ptrs(j: JobSpec) -> Seq<Ptr> { pointers(j.tok, j.path, documents(j.path, j.limit)) }
pub open spec fn job_effect(j: JobSpec, v: int, c: int) -> int {
    if c == j.st.tokens { v + sum_n(job_ptrs(j)) }
    else if c == j.st.docs { v + documents(j.path, j.limit).len() }
    else if c == j.st.max { max2(v, top(job_ptrs(j))) }
    else if c == j.st.min { min2(v, bot(job_ptrs(j))) }
    else { v }
}
/// of the pointers `all` some are given to a list, those with n tokens each once
pub open spec fn gives(g: Seq<Ptr>, all: Seq<Ptr>, n: int) -> bool {
    (forall|x: Ptr| #[trigger] g.contains(x) ==> all.contains(x)) && sub(g, has_n(n)).to_multiset() == sub(all, has_n(n)).to_multiset()
}
pub open spec fn job_out(j: JobSpec, gave: Map<int, Seq<Ptr>>, e: Ext) -> bool {
    gives(gave[j.st.maxl], job_ptrs(j), e.target[j.st.maxl]) && gives(gave[j.st.minl], job_ptrs(j), e.target[j.st.minl])
}
pub open spec fn all_gave(outs: Seq<Map<int, Seq<Ptr>>>, l: int) -> Seq<Ptr>
    decreases outs.len()
{ if outs.len() == 0 { Seq::empty() } else { all_gave(outs.drop_last(), l) + outs.last()[l] } }
/// join returned Ok. The list l holds what was put in, less what was removed, which was nothing that had to stay.
pub open spec fn ran_with(jobs: Seq<JobSpec>, outs: Seq<Map<int, Seq<Ptr>>>, a: Ext, b: Ext) -> bool {
    &&& outs.len() == jobs.len()
    &&& forall|i: int| 0 <= i < jobs.len() ==> job_out(#[trigger] jobs[i], outs[i], a)
    &&& forall|l: int| #[trigger] a.target.dom().contains(l) && a.lists[l].len() == 0 ==>
            (forall|x: Ptr| #[trigger] b.lists[l].contains(x) ==> all_gave(outs, l).contains(x))
            && sub(b.lists[l], has_n(a.target[l])).to_multiset() == sub(all_gave(outs, l), has_n(a.target[l])).to_multiset()
}
pub open spec fn ext_ran(jobs: Seq<JobSpec>, a: Ext, b: Ext) -> bool {
    b == (Ext { lists: b.lists, at_join: b.lists, ..a }) && b.lists.dom() == a.lists.dom() && exists|outs: Seq<Map<int, Seq<Ptr>>>| #[trigger] ran_with(jobs, outs, a, b)
}

/// the job's own record after some documents with the pointers `all`
pub open spec fn local_is(l: LocalStats, all: Seq<Ptr>, docs: int, hi: int, lo: int) -> bool {
    &&& l.total_tokens == sum_n(all) && l.total_documents == docs  // C16
    &&& top(all) <= l.document_max_tokens <= hi && lo <= l.document_min_tokens <= bot(all)
    &&& forall|x: Ptr| #[trigger] ptrs_of(l.max_token_documents@).contains(x) ==> all.contains(x)
    &&& forall|x: Ptr| #[trigger] ptrs_of(l.min_token_documents@).contains(x) ==> all.contains(x)
    &&& sub(ptrs_of(l.max_token_documents@), has_n(hi)) == sub(all, has_n(hi))
    &&& sub(ptrs_of(l.min_token_documents@), has_n(lo)) == sub(all, has_n(lo))
}
fn new_local(stats: Stats, w: &mut World) -> (r: Result<LocalStats>)
    requires guarded(old(w).ext@, stats.ids()), !old(w).joined@,
    ensures
        *final(w) == *old(w),  // [C20]
        r is Ok ==> local_is(r->Ok_0, Seq::empty(), 0, old(w).ext@.most[stats.ids().max], old(w).ext@.least[stats.ids().min]),
{
/*@body
@file src/cmd/stats.rs
@item main@execute_with_callback#0.2
@params
@known stats
@world load
@end
    proof {
        let l = __r->Ok_0;
        assert(ptrs_of(l.max_token_documents@) =~= Seq::<Ptr>::empty());
        assert(ptrs_of(l.min_token_documents@) =~= Seq::<Ptr>::empty());
    }
@*/
}
proof fn lemma_listed(v: Seq<DocumentPointer>, v2: Seq<DocumentPointer>, all: Seq<Ptr>, x: Ptr, n: int)
    requires
        forall|x: Ptr| #[trigger] ptrs_of(v).contains(x) ==> all.contains(x), sub(ptrs_of(v), has_n(n)) == sub(all, has_n(n)),
        v2 == v && x.n != n || ptrs_of(v2) == ptrs_of(v).push(x),
    ensures
        forall|y: Ptr| #[trigger] ptrs_of(v2).contains(y) ==> all.push(x).contains(y), sub(ptrs_of(v2), has_n(n)) == sub(all.push(x), has_n(n)),
{
    lemma_sub_push(all, x, has_n(n));
    lemma_sub_push(ptrs_of(v), x, has_n(n));
    assert forall|y: Ptr| #[trigger] ptrs_of(v2).contains(y) implies all.push(x).contains(y) by {
        if y == x { assert(all.push(x)[all.len() as int] == y); } else {
            let i = choose|i: int| 0 <= i < ptrs_of(v2).len() && ptrs_of(v2)[i] == y;
            assert(ptrs_of(v).contains(y)) by { assert(ptrs_of(v)[i] == y); }
            let k = choose|k: int| 0 <= k < all.len() && all[k] == y;
            assert(all.push(x)[k] == y);
        }
    }
}
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
fn stats_doc(data: Data, path: &Path, line_num: usize, local_stats: &mut LocalStats, tokenizer: Option<PretrainedTokenizer>, stats: Stats,
             docs: Ghost<Seq<Data>>, hi: Ghost<int>, lo: Ghost<int>, w: &mut World) -> (r: Result<()>)
    requires
        line_num == docs@.len() + 1, docs@.len() < usize::MAX, sum_n(pointers(tk_of(tokenizer), path.id(), docs@)) >= 0,
        sum_n(pointers(tk_of(tokenizer), path.id(), docs@.push(data))) <= usize::MAX,
        top(pointers(tk_of(tokenizer), path.id(), docs@.push(data))) <= hi@, lo@ <= bot(pointers(tk_of(tokenizer), path.id(), docs@.push(data))),
        local_is(*old(local_stats), pointers(tk_of(tokenizer), path.id(), docs@), docs@.len() as int, hi@, lo@),
    ensures
        // a job that fails and is tried again has changed nothing others can see
        *final(w) == *old(w),  // [C20]
        r is Ok ==> local_is(*final(local_stats), pointers(tk_of(tokenizer), path.id(), docs@.push(data)), docs@.len() as int + 1, hi@, lo@),  // [C16 C17]
{
    let ghost d = data;
    let ghost l0 = *local_stats;
    let ghost tok = tk_of(tokenizer);
    let ghost all = pointers(tok, path.id(), docs@);
    let ghost x = Ptr { path: path.id(), line: docs@.len() as int + 1, n: if d.text is Some { token_count(tok, d.text->Some_0@) as int } else { 0 } };
    proof { lemma_pointers_step(tok, path.id(), docs@, d); lemma_bounds(all); }
/*@body
@file src/cmd/stats.rs
@item main@execute_with_callback#0.1
@params data path line_num local_stats
@locals text num_tokens tokens
@known tokenizer stats
@world fetch_add fetch_max fetch_min load store
@loop 0 for
    invariant
        0 <= __it0.pos() <= __it0.all(), __it0.all() == token_count(tok, text@), __it0.all() <= usize::MAX,
        num_tokens == __it0.pos(),  // [C16 C17]
    ensures
        __it0.pos() == __it0.all(),
    decreases __it0.all() - __it0.pos(),
@end
    proof {
        let l = *local_stats;
        assert(l.total_documents == l0.total_documents + 1);  // [C16]
        if d.text is Some {
            assert(l.total_tokens == l0.total_tokens + x.n);  // [C16]
            let (v, v2) = (l0.max_token_documents@, l.max_token_documents@);
            if v2 != v { assert(ptrs_of(v2) =~= ptrs_of(v).push(x)); }  // [C17]
            lemma_listed(v, v2, all, x, hi@);  // [C17]
            let (u, u2) = (l0.min_token_documents@, l.min_token_documents@);
            if u2 != u { assert(ptrs_of(u2) =~= ptrs_of(u).push(x)); }  // [C17]
            lemma_listed(u, u2, all, x, lo@);  // [C17]
        }
    }
@*/
}
pub open spec fn synced(a: World, b: World, s: Ids, all: Seq<Ptr>, docs: int) -> bool {
    &&& b.cells@.dom() == a.cells@.dom()
    &&& b.cells@[s.tokens] == a.cells@[s.tokens] + sum_n(all)
    &&& b.cells@[s.docs] == a.cells@[s.docs] + docs
    // any value between this job's extreme and the overall one: the order of the jobs does not matter (theorem_extremes)
    &&& max2(a.cells@[s.max], top(all)) <= b.cells@[s.max] <= max2(a.cells@[s.max], a.ext@.most[s.max])
    &&& min2(a.cells@[s.min], a.ext@.least[s.min]) <= b.cells@[s.min] <= min2(a.cells@[s.min], bot(all))
    &&& forall|c: int| c != s.tokens && c != s.docs && c != s.max && c != s.min ==> #[trigger] b.cells@[c] == a.cells@[c]
}
pub open spec fn handing(m: Map<int, Seq<Ptr>>, l: int, other: int, v: Seq<Ptr>, k: int, n: int) -> bool {
    (forall|x: Ptr| #[trigger] m[l].contains(x) ==> v.take(k).contains(x)) && sub(m[l], has_n(n)) == sub(v.take(k), has_n(n))
}
proof fn lemma_handing(m: Map<int, Seq<Ptr>>, m2: Map<int, Seq<Ptr>>, l: int, other: int, v: Seq<Ptr>, k: int, n: int)
    requires 0 <= k < v.len(), handing(m, l, other, v, k, n), m2[l] == m[l].push(v[k]) || m2[l] == m[l] && v[k].n != n,
    ensures handing(m2, l, other, v, k + 1, n),
{
    assert(v.take(k + 1) =~= v.take(k).push(v[k]));
    lemma_sub_push(v.take(k), v[k], has_n(n));
    lemma_sub_push(m[l], v[k], has_n(n));
    assert forall|x: Ptr| #[trigger] m2[l].contains(x) implies v.take(k + 1).contains(x) by {
        let i = choose|i: int| 0 <= i < m2[l].len() && m2[l][i] == x;
        if i < m[l].len() {
            assert(m[l][i] == x); assert(m[l].contains(x));
            let q = choose|q: int| 0 <= q < v.take(k).len() && v.take(k)[q] == x;
            assert(v.take(k + 1)[q] == x);
        } else { assert(v.take(k + 1)[k] == x); }
    }
}
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
fn sync_stats(mut local_stats: LocalStats, stats: Stats, all: Ghost<Seq<Ptr>>, docs: Ghost<int>, w: &mut World) -> (r: Result<()>)
    requires
        !old(w).joined@, distinct(stats.ids()), guarded(old(w).ext@, stats.ids()),
        local_is(local_stats, all@, docs@, old(w).ext@.most[stats.ids().max], old(w).ext@.least[stats.ids().min]),
        old(w).ext@.gave[stats.ids().maxl].len() == 0, old(w).ext@.gave[stats.ids().minl].len() == 0,
        old(w).cells@.dom().contains(stats.ids().tokens), old(w).cells@.dom().contains(stats.ids().docs),
        old(w).cells@.dom().contains(stats.ids().max), old(w).cells@.dom().contains(stats.ids().min),
        stats.ids().max == stats.document_max_tokens.id(),
    ensures
        // what has been counted stays counted, so another attempt must not follow
        r is Err ==> *final(w) == *old(w),  // [C20]
        final(w).out == old(w).out && final(w).fs == old(w).fs && final(w).jobs == old(w).jobs && final(w).joined == old(w).joined,
        ext_same(final(w).ext@, old(w).ext@),
        r is Ok ==> synced(*old(w), *final(w), stats.ids(), all@, docs@),  // [C16 C17]
        r is Ok ==> gives(final(w).ext@.gave[stats.ids().maxl], all@, old(w).ext@.most[stats.ids().max]),  // [C17]
        r is Ok ==> gives(final(w).ext@.gave[stats.ids().minl], all@, old(w).ext@.least[stats.ids().min]),  // [C17]
{
    let ghost w0 = *w;
    let ghost ids = stats.ids();
    let ghost hi = w.ext@.most[ids.max];
    let ghost lo = w.ext@.least[ids.min];
    let ghost vmax = ptrs_of(local_stats.max_token_documents@);
    let ghost vmin = ptrs_of(local_stats.min_token_documents@);
    let ghost mut cells = w.cells@;
    let ghost mut g1 = w.ext@.gave;
    let ghost mut first = true;
/*@body
@file src/cmd/stats.rs
@item main@execute_with_callback#0.3
@params local_stats
@locals current_max max_token_documents doc_pointer current_min min_token_documents
@known stats
@world fetch_add fetch_max fetch_min load store lock stats.prune_documents push_back
@sub? (*max_token_documents) =>> max_token_documents
@sub? (*min_token_documents) =>> min_token_documents
@sub? .drain(0..) =>> .vx_drain()
@sub? .drain(..) =>> .vx_drain()
@pre 0
    proof { cells = w.cells@; assert(vmax.take(0) =~= Seq::<Ptr>::empty()); assert(sub(w.ext@.gave[ids.maxl], has_n(hi)) =~= Seq::<Ptr>::empty()); }
@top 0
    let ghost m1 = w.ext@.gave;
    let ghost x = ptr_of(doc_pointer);
@bottom 0
    proof { assert(x == vmax[__it0.pos() - 1]); lemma_handing(m1, w.ext@.gave, ids.maxl, ids.minl, vmax, __it0.pos() - 1, hi); }  // [C17]
@loop 0 for
    invariant
        0 <= __it0.pos() <= vmax.len(), ptrs_of(__it0.all@) == vmax, max_token_documents.id() == ids.maxl,
        same_but_ext(World { cells: Ghost(cells), ..w0 }, *w), ext_same(w.ext@, w0.ext@),
        handing(w.ext@.gave, ids.maxl, ids.minl, vmax, __it0.pos(), hi),  // [C17]
        w.ext@.gave[ids.minl] == w0.ext@.gave[ids.minl],
    ensures
        __it0.pos() == vmax.len(),
    decreases vmax.len() - __it0.pos(),
@pre 1
    proof {
        cells = w.cells@; g1 = w.ext@.gave;
        assert(vmin.take(0) =~= Seq::<Ptr>::empty()); assert(sub(w.ext@.gave[ids.minl], has_n(lo)) =~= Seq::<Ptr>::empty());
    }
@top 1
    let ghost m1 = w.ext@.gave;
    let ghost x = ptr_of(doc_pointer);
@bottom 1
    proof { assert(x == vmin[__it1.pos() - 1]); lemma_handing(m1, w.ext@.gave, ids.minl, ids.maxl, vmin, __it1.pos() - 1, lo); }  // [C17]
@loop 1 for
    invariant
        0 <= __it1.pos() <= vmin.len(), ptrs_of(__it1.all@) == vmin, min_token_documents.id() == ids.minl,
        same_but_ext(World { cells: Ghost(cells), ..w0 }, *w), ext_same(w.ext@, w0.ext@),
        handing(w.ext@.gave, ids.minl, ids.maxl, vmin, __it1.pos(), lo),  // [C17]
        w.ext@.gave[ids.maxl] == g1[ids.maxl],
    ensures
        __it1.pos() == vmin.len(),
    decreases vmin.len() - __it1.pos(),
@end
    proof {
        assert(vmax.take(vmax.len() as int) =~= vmax);
        assert(vmin.take(vmin.len() as int) =~= vmin);
        assert(w.cells@.dom() =~= w0.cells@.dom());
    }
@*/
}


// ------------------------------------------------------------------ the whole job
/// the documents of a file, one after the other, with their line numbers
#[verifier::external_body]
pub struct Docs { x: u64 }
impl Docs {
    pub uninterp spec fn all(&self) -> Seq<Data>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(Data, usize)>)
        ensures final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> r is Some && r->Some_0.0 == old(self).all()[old(self).pos()] && final(self).pos() == old(self).pos() + 1
                && r->Some_0.1 == old(self).pos() + 1,
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos() { unimplemented!() }
}
pub struct SyncJob { pub stats: Stats }
pub struct FactoryJob { pub stats: Stats }
pub struct StatsJob { pub tokenizer: Option<PretrainedTokenizer> }
/// no document of the file lies beyond the bounds
pub open spec fn within(e: Ext, s: Ids, all: Seq<Ptr>) -> bool { top(all) <= e.most[s.max] && e.least[s.min] <= bot(all) }
impl Task3<FactoryJob, SyncJob> for StatsJob {
    open spec fn ready3(&self, f: FactoryJob, c: SyncJob, path: int, limit: Option<usize>, e: Ext) -> bool {
        &&& f.stats.ids() == c.stats.ids()
        &&& distinct(c.stats.ids()) && guarded(e, c.stats.ids()) && within(e, c.stats.ids(), job_ptrs(self.spec3(f, c, path, limit)))
    }
    open spec fn repeatable(&self) -> bool { true }  // one_job
    open spec fn spec3(&self, f: FactoryJob, c: SyncJob, path: int, limit: Option<usize>) -> JobSpec {
        JobSpec { path, limit, tok: tk_of(self.tokenizer), st: c.stats.ids() }
    }
    open spec fn handed(&self, f: FactoryJob, c: SyncJob, a: Ext, b: Ext) -> bool { a == b }
}
/// what the executor does with the three closures (unit `exec`: context, every document in order with its line number, callback)
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
fn one_job(mut docs: Docs, path: &Path, limit: Ghost<Option<usize>>, tokenizer: Option<PretrainedTokenizer>, stats: Stats, j: Ghost<JobSpec>, w: &mut World) -> (r: Result<()>)
    requires
        docs.all() == documents(path.id(), limit@), docs.pos() == 0, docs.all().len() < usize::MAX,
        j@ == (JobSpec { path: path.id(), limit: limit@, tok: tk_of(tokenizer), st: stats.ids() }),
        // assumption: the tokens of a file can be counted in 64 bits
        sum_n(job_ptrs(j@)) <= usize::MAX,
        !old(w).joined@, distinct(stats.ids()), guarded(old(w).ext@, stats.ids()), within(old(w).ext@, stats.ids(), job_ptrs(j@)),
        old(w).ext@.gave[stats.ids().maxl].len() == 0, old(w).ext@.gave[stats.ids().minl].len() == 0,
        old(w).cells@.dom().contains(stats.ids().tokens), old(w).cells@.dom().contains(stats.ids().docs),
        old(w).cells@.dom().contains(stats.ids().max), old(w).cells@.dom().contains(stats.ids().min),
    ensures
        // a failed attempt leaves nothing behind (repeatable)
        r is Err ==> *final(w) == *old(w),  // [C20]
        r is Ok ==> synced(*old(w), *final(w), stats.ids(), job_ptrs(j@), documents(j@.path, j@.limit).len() as int),  // [C16 C17]
        r is Ok ==> job_out(j@, final(w).ext@.gave, old(w).ext@),  // [C17]
{
    let ghost all = docs.all();
    let ghost tok = tk_of(tokenizer);
    let ghost ids = stats.ids();
    let ghost hi = w.ext@.most[ids.max];
    let ghost lo = w.ext@.least[ids.min];
    let ghost w0 = *w;
    let mut local = new_local(stats.clone(), w)?;
    proof { assert(all.take(0) =~= Seq::<Data>::empty()); }
    loop
        invariant
            0 <= docs.pos() <= all.len(), docs.all() == all, *w == w0,
            local_is(local, pointers(tok, path.id(), all.take(docs.pos())), docs.pos(), hi, lo),
        ensures docs.pos() == all.len(),
        decreases all.len() - docs.pos(),
    {
        let ghost p = docs.pos();
        match docs.next() {
            None => break,
            Some((d, line)) => {
                let ghost t = all.take(p);
                proof {
                    assert(all.take(p + 1) =~= t.push(d));
                    lemma_prefix(tok, path.id(), all, p);
                    lemma_prefix(tok, path.id(), all, p + 1);
                }
                let tk = match &tokenizer { Some(x) => Some(x.clone()), None => None };
                stats_doc(d, path, line, &mut local, tk, stats.clone(), Ghost(t), Ghost(hi), Ghost(lo), w)?;
            }
        }
    }
    proof { assert(all.take(all.len() as int) =~= all); }
    sync_stats(local, stats, Ghost(pointers(tok, path.id(), all)), Ghost(all.len() as int), w)
}

// ------------------------------------------------------------------ all jobs
pub open spec fn all_ptrs(tok: Tk, paths: Seq<int>, limit: Option<usize>) -> Seq<Ptr>
    decreases paths.len()
{ if paths.len() == 0 { Seq::empty() } else { all_ptrs(tok, paths.drop_last(), limit) + pointers(tok, paths.last(), documents(paths.last(), limit)) } }
pub open spec fn doc_count(paths: Seq<int>, limit: Option<usize>) -> int
    decreases paths.len()
{ if paths.len() == 0 { 0 } else { doc_count(paths.drop_last(), limit) + documents(paths.last(), limit).len() } }
pub open spec fn byte_count(paths: Seq<int>, limit: Option<usize>) -> int
    decreases paths.len()
{ if paths.len() == 0 { 0 } else { byte_count(paths.drop_last(), limit) + input_bytes(paths.last(), limit) } }
pub open spec fn jobs_for(tok: Tk, st: Ids, paths: Seq<int>, limit: Option<usize>) -> Seq<JobSpec> {
    paths.map_values(|p: int| JobSpec { path: p, limit, tok, st })
}
proof fn theorem_totals(tok: Tk, st: Ids, paths: Seq<int>, limit: Option<usize>)
    requires distinct(st),
    ensures
        ran(jobs_for(tok, st, paths, limit), 0, st.tokens) == sum_n(all_ptrs(tok, paths, limit)),
        ran(jobs_for(tok, st, paths, limit), 0, st.docs) == doc_count(paths, limit),
        ran(jobs_for(tok, st, paths, limit), 0, st.max) == top(all_ptrs(tok, paths, limit)),
        ran(jobs_for(tok, st, paths, limit), usize::MAX as int, st.min) == bot(all_ptrs(tok, paths, limit)),
        bytes_read(jobs_for(tok, st, paths, limit)) == byte_count(paths, limit),
    decreases paths.len(),
{
    let jobs = jobs_for(tok, st, paths, limit);
    if paths.len() > 0 {
        theorem_totals(tok, st, paths.drop_last(), limit);
        assert(jobs.drop_last() =~= jobs_for(tok, st, paths.drop_last(), limit));
        lemma_add_parts(all_ptrs(tok, paths.drop_last(), limit), pointers(tok, paths.last(), documents(paths.last(), limit)));
    }
}
/// `synced` lets a job put any value between its own extreme and the overall one: after all jobs it is the overall one,
/// whatever they put, as the maximum over jobs of what `job_effect` says is. (The same for the minimum.)
pub open spec fn fold_max(xs: Seq<int>, base: int) -> int
    decreases xs.len()
{ if xs.len() == 0 { base } else { max2(fold_max(xs.drop_last(), base), xs.last()) } }
pub open spec fn fold_min(xs: Seq<int>, base: int) -> int
    decreases xs.len()
{ if xs.len() == 0 { base } else { min2(fold_min(xs.drop_last(), base), xs.last()) } }
proof fn lemma_extremes(tok: Tk, paths: Seq<int>, limit: Option<usize>, xs: Seq<int>, ys: Seq<int>, hi: int, lo: int)
    requires
        xs.len() == paths.len(), ys.len() == paths.len(), hi >= 0, lo <= usize::MAX,
        forall|i: int| 0 <= i < xs.len() ==> top(pointers(tok, paths[i], documents(paths[i], limit))) <= #[trigger] xs[i] <= hi,
        forall|i: int| 0 <= i < ys.len() ==> lo <= #[trigger] ys[i] <= bot(pointers(tok, paths[i], documents(paths[i], limit))),
    ensures
        top(all_ptrs(tok, paths, limit)) <= fold_max(xs, 0) <= hi,
        lo <= fold_min(ys, usize::MAX as int) <= bot(all_ptrs(tok, paths, limit)),
    decreases paths.len(),
{
    if paths.len() > 0 {
        let p = paths.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies top(pointers(tok, p[i], documents(p[i], limit))) <= #[trigger] xs.drop_last()[i] <= hi by { assert(xs[i] == xs.drop_last()[i]); }
        assert forall|i: int| 0 <= i < p.len() implies lo <= #[trigger] ys.drop_last()[i] <= bot(pointers(tok, p[i], documents(p[i], limit))) by { assert(ys[i] == ys.drop_last()[i]); }
        lemma_extremes(tok, p, limit, xs.drop_last(), ys.drop_last(), hi, lo);
        lemma_add_parts(all_ptrs(tok, p, limit), pointers(tok, paths.last(), documents(paths.last(), limit)));
        assert(xs[xs.len() - 1] == xs.last() && ys[ys.len() - 1] == ys.last());
    }
}
proof fn theorem_extremes(tok: Tk, st: Ids, paths: Seq<int>, limit: Option<usize>, xs: Seq<int>, ys: Seq<int>)
    requires
        distinct(st), xs.len() == paths.len(), ys.len() == paths.len(),
        forall|i: int| 0 <= i < xs.len() ==> top(pointers(tok, paths[i], documents(paths[i], limit))) <= #[trigger] xs[i] <= top(all_ptrs(tok, paths, limit)),
        forall|i: int| 0 <= i < ys.len() ==> bot(all_ptrs(tok, paths, limit)) <= #[trigger] ys[i] <= bot(pointers(tok, paths[i], documents(paths[i], limit))),
    ensures
        fold_max(xs, 0) == ran(jobs_for(tok, st, paths, limit), 0, st.max),
        fold_min(ys, usize::MAX as int) == ran(jobs_for(tok, st, paths, limit), usize::MAX as int, st.min),
{
    lemma_bounds(all_ptrs(tok, paths, limit));
    lemma_extremes(tok, paths, limit, xs, ys, top(all_ptrs(tok, paths, limit)), bot(all_ptrs(tok, paths, limit)));
    theorem_totals(tok, st, paths, limit);
}
proof fn lemma_part_bounds(tok: Tk, paths: Seq<int>, limit: Option<usize>, i: int)
    requires 0 <= i < paths.len(),
    ensures
        top(pointers(tok, paths[i], documents(paths[i], limit))) <= top(all_ptrs(tok, paths, limit)),
        bot(all_ptrs(tok, paths, limit)) <= bot(pointers(tok, paths[i], documents(paths[i], limit))),
    decreases paths.len(),
{
    let p = paths.drop_last();
    lemma_add_parts(all_ptrs(tok, p, limit), pointers(tok, paths.last(), documents(paths.last(), limit)));
    if i < p.len() { lemma_part_bounds(tok, p, limit, i); assert(p[i] == paths[i]); }
}
proof fn lemma_all_gave(tok: Tk, st: Ids, paths: Seq<int>, limit: Option<usize>, outs: Seq<Map<int, Seq<Ptr>>>, e: Ext)
    requires
        outs.len() == paths.len(),
        forall|i: int| 0 <= i < outs.len() ==> job_out(#[trigger] jobs_for(tok, st, paths, limit)[i], outs[i], e),
    ensures
        gives(all_gave(outs, st.maxl), all_ptrs(tok, paths, limit), e.target[st.maxl]),
        gives(all_gave(outs, st.minl), all_ptrs(tok, paths, limit), e.target[st.minl]),
    decreases paths.len(),
{
    let jobs = jobs_for(tok, st, paths, limit);
    if paths.len() > 0 {
        let (p, o) = (paths.drop_last(), outs.drop_last());
        assert(jobs_for(tok, st, p, limit) =~= jobs.drop_last());
        assert forall|i: int| 0 <= i < o.len() implies job_out(#[trigger] jobs_for(tok, st, p, limit)[i], o[i], e) by { assert(jobs[i] == jobs_for(tok, st, p, limit)[i]); }
        lemma_all_gave(tok, st, p, limit, o, e);
        assert(job_out(jobs[paths.len() - 1], outs.last(), e));
        let (a, b) = (all_ptrs(tok, p, limit), pointers(tok, paths.last(), documents(paths.last(), limit)));
        lemma_gives_add(all_gave(o, st.maxl), outs.last()[st.maxl], a, b, e.target[st.maxl]);
        lemma_gives_add(all_gave(o, st.minl), outs.last()[st.minl], a, b, e.target[st.minl]);
    }
}
proof fn lemma_gives_add(g1: Seq<Ptr>, g2: Seq<Ptr>, a: Seq<Ptr>, b: Seq<Ptr>, n: int)
    requires gives(g1, a, n), gives(g2, b, n),
    ensures gives(g1 + g2, a + b, n),
{
    lemma_sub_add(g1, g2, has_n(n));
    lemma_sub_add(a, b, has_n(n));
    vstd::seq_lib::lemma_multiset_commutative(sub(g1, has_n(n)), sub(g2, has_n(n)));
    vstd::seq_lib::lemma_multiset_commutative(sub(a, has_n(n)), sub(b, has_n(n)));
    assert forall|x: Ptr| #[trigger] (g1 + g2).contains(x) implies (a + b).contains(x) by {
        let i = choose|i: int| 0 <= i < (g1 + g2).len() && (g1 + g2)[i] == x;
        if i < g1.len() {
            assert(g1[i] == x); assert(g1.contains(x));
            let k = choose|k: int| 0 <= k < a.len() && a[k] == x;
            assert((a + b)[k] == x);
        } else {
            assert(g2[i - g1.len()] == x); assert(g2.contains(x));
            let k = choose|k: int| 0 <= k < b.len() && b[k] == x;
            assert((a + b)[a.len() + k] == x);
        }
    }
}
/// exactly the documents with that many tokens, each once
pub open spec fn exactly(v: Seq<Ptr>, all: Seq<Ptr>, n: int) -> bool { v.to_multiset() == sub(all, has_n(n)).to_multiset() }
/// after the last pruning the lists are right
proof fn theorem_lists(tok: Tk, st: Ids, paths: Seq<int>, limit: Option<usize>, outs: Seq<Map<int, Seq<Ptr>>>, a: Ext, b: Ext)
    requires
        ran_with(jobs_for(tok, st, paths, limit), outs, a, b), a.lists[st.maxl].len() == 0, a.lists[st.minl].len() == 0,
        a.target.dom().contains(st.maxl), a.target.dom().contains(st.minl),
        a.target[st.maxl] == top(all_ptrs(tok, paths, limit)), a.target[st.minl] == bot(all_ptrs(tok, paths, limit)),
    ensures
        exactly(sub(b.lists[st.maxl], |p: Ptr| p.n >= top(all_ptrs(tok, paths, limit))), all_ptrs(tok, paths, limit), top(all_ptrs(tok, paths, limit))),
        exactly(sub(b.lists[st.minl], |p: Ptr| p.n <= bot(all_ptrs(tok, paths, limit))), all_ptrs(tok, paths, limit), bot(all_ptrs(tok, paths, limit))),
{
    let all = all_ptrs(tok, paths, limit);
    lemma_all_gave(tok, st, paths, limit, outs, a);
    lemma_bounds(all);
    let hi = |p: Ptr| p.n >= top(all);
    let lo = |p: Ptr| p.n <= bot(all);
    assert forall|x: Ptr| #[trigger] b.lists[st.maxl].contains(x) implies hi(x) == has_n(top(all))(x) by { assert(all_gave(outs, st.maxl).contains(x)); assert(all.contains(x)); }
    assert forall|x: Ptr| #[trigger] b.lists[st.minl].contains(x) implies lo(x) == has_n(bot(all))(x) by { assert(all_gave(outs, st.minl).contains(x)); assert(all.contains(x)); }
    lemma_sub_same(b.lists[st.maxl], hi, has_n(top(all)));
    lemma_sub_same(b.lists[st.minl], lo, has_n(bot(all)));
}

// ------------------------------------------------------------------ the command
pub struct Opt {
    pub path: Vec<PathBuf>, pub limit: Option<usize>, pub file_limit: Option<usize>, pub workers: Option<usize>,
    pub out: Option<PathBuf>, pub quiet: bool, pub json: bool, pub force: bool, pub tokenizer: Text,
}
fn get_output_file(opt: &Opt, w: &mut World) -> (r: Result<Option<(File, PathBuf)>>)
    ensures
        opt.out is None ==> r is Ok && r->Ok_0 is None && *final(w) == *old(w),
        opt.out is Some && dir_there(opt.out->Some_0.id()) ==> r is Err && *final(w) == *old(w),
        opt.out is Some && file_there(opt.out->Some_0.id()) && !opt.force ==> r is Err && *final(w) == *old(w),
        same_but_fs(*old(w), *final(w)),
        r is Err ==> *final(w) == *old(w),
        opt.out is Some && r is Ok ==> r->Ok_0 is Some && r->Ok_0->Some_0.0.path() == opt.out->Some_0.id()
            && final(w).fs@ == old(w).fs@.insert(r->Ok_0->Some_0.0.id(), Seq::<OutLine>::empty()),
{
/*@body
@file src/cmd/stats.rs
@item get_output_file
@params opt
@locals path
@world util::get_output_file
@*/
}
pub uninterp spec fn path_text(path: int) -> Chars;
pub open spec fn ptr_js(p: Ptr) -> JV {
    JV::Obj(Seq::<(Chars, JV)>::empty().push(("path"@, JV::Str(path_text(p.path)))).push(("line"@, JV::Num(p.line))).push(("num_tokens"@, JV::Num(p.n))))
}
/// what serde makes of the record (derived from the field names; the concrete check compares it)
pub open spec fn record(tokens: int, docs: int, bytes: int, max: int, min: int, maxl: Seq<Ptr>, minl: Seq<Ptr>) -> JV {
    JV::Obj(Seq::<(Chars, JV)>::empty().push(("total_tokens"@, JV::Num(tokens))).push(("total_documents"@, JV::Num(docs))).push(("total_bytes"@, JV::Num(bytes)))
        .push(("document_max_tokens"@, JV::Num(max))).push(("document_min_tokens"@, JV::Num(min)))
        .push(("max_token_documents"@, JV::Arr(maxl.map_values(|p: Ptr| ptr_js(p))))).push(("min_token_documents"@, JV::Arr(minl.map_values(|p: Ptr| ptr_js(p))))))
}
pub mod serde_json {
    use super::*;
    #[verifier::external_body]
    pub fn to_string(s: &Stats, w: &mut World) -> (r: Result<Json>)
        ensures *final(w) == *old(w),
            r is Ok && old(w).joined@ ==> r->Ok_0.js() == record(old(w).cells@[s.ids().tokens], old(w).cells@[s.ids().docs], old(w).cells@[s.ids().bytes],
                old(w).cells@[s.ids().max], old(w).cells@[s.ids().min], old(w).ext@.lists[s.ids().maxl], old(w).ext@.lists[s.ids().minl]) { unimplemented!() }
}
#[verifier::external_body]
pub struct Values { x: u64 }
impl Values {
    pub uninterp spec fn left(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(Text, Text)>) ensures r is Some ==> final(self).left() < old(self).left() { unimplemented!() }
}
impl VxInto for Values {
    type It = Values;
    open spec fn begins(self, r: Values) -> bool { r == self }
    fn vx_into(self) -> (r: Values) { self }
}
impl Stats {
    /// the lines for people: not specified
    #[verifier::external_body]
    pub fn get_display_values(&self) -> (r: Values) { unimplemented!() }
}
pub open spec fn tok_of(opt: Opt) -> Tk { if opt.tokenizer@ == "unicode"@ { Tk::Unicode } else { Tk::Pretrained(tokenizer_named(opt.tokenizer@)) } }
pub open spec fn paths_of(opt: Opt) -> Seq<int> {
    let e = expanded(ids(opt.path@));
    match opt.file_limit { Some(n) => if n < e.len() { e.take(n as int) } else { e }, None => e }
}
pub open spec fn ptrs_for(opt: Opt) -> Seq<Ptr> { all_ptrs(tok_of(opt), paths_of(opt), opt.limit) }
/// the record the command has to report, for some order of the two lists
pub open spec fn right(opt: Opt, v: JV, maxl: Seq<Ptr>, minl: Seq<Ptr>) -> bool {
    &&& v == record(sum_n(ptrs_for(opt)), doc_count(paths_of(opt), opt.limit), byte_count(paths_of(opt), opt.limit), top(ptrs_for(opt)), bot(ptrs_for(opt)), maxl, minl)
    &&& exactly(maxl, ptrs_for(opt), top(ptrs_for(opt))) && exactly(minl, ptrs_for(opt), bot(ptrs_for(opt)))
}
pub open spec fn totals_in(opt: Opt, v: JV) -> bool {
    let f = v->Obj_0;
    &&& v is Obj && f.len() == 7
    &&& f[0] == ("total_tokens"@, JV::Num(sum_n(ptrs_for(opt)))) && f[1] == ("total_documents"@, JV::Num(doc_count(paths_of(opt), opt.limit)))
    &&& f[2] == ("total_bytes"@, JV::Num(byte_count(paths_of(opt), opt.limit)))
}
pub open spec fn others(a: Seq<OutLine>, b: Seq<OutLine>) -> bool {
    a.len() <= b.len() && (forall|i: int| 0 <= i < a.len() ==> a[i] == b[i]) && (forall|i: int| a.len() <= i < b.len() ==> #[trigger] b[i] is Other)
}
pub open spec fn blocked(opt: Opt) -> bool {
    opt.out is Some && (dir_there(opt.out->Some_0.id()) || file_there(opt.out->Some_0.id()) && !opt.force)
}
pub open spec fn no_rows(opt: Opt, a: World, b: World) -> bool {
    b.fs@ == a.fs@ || (opt.out is Some && exists|fid: int| handle_path(fid) == opt.out->Some_0.id() && b.fs@ == #[trigger] a.fs@.insert(fid, Seq::<OutLine>::empty()))
}
/// standard output and the file hold exactly this record
pub open spec fn reported(opt: Opt, a: World, b: World, v: JV, fid: int) -> bool {
    &&& opt.json ==> b.out@ == a.out@.push(OutLine::Json(v))
    &&& !opt.json ==> others(a.out@, b.out@)
    &&& !opt.json && opt.quiet ==> b.out@ == a.out@
    &&& opt.out is Some ==> b.fs@ == a.fs@.insert(fid, Seq::<OutLine>::empty().push(OutLine::Json(v))) && handle_path(fid) == opt.out->Some_0.id()
    &&& opt.out is None ==> b.fs@ == a.fs@
}
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
fn stats_main(mut opt: Opt, w: &mut World) -> (r: Result<()>)
    requires old(w).jobs@.len() == 0, !old(w).joined@, old(w).ext@.gave.dom() =~= Set::<int>::empty(),
    ensures
        // C23: one record is reported, the same one everywhere
        r is Ok ==> exists|v: JV, fid: int| #[trigger] reported(opt, *old(w), *final(w), v, fid) && totals_in(opt, v) && exists|a: Seq<Ptr>, b: Seq<Ptr>| #[trigger] right(opt, v, a, b),  // [C16 C17 C22 C23]
        blocked(opt) ==> r is Err && final(w).fs@ == old(w).fs@ && final(w).jobs@.len() == 0,  // [C22]
        r is Ok ==> final(w).joined@,  // [C19]
        !final(w).joined@ ==> final(w).out@ == old(w).out@ && no_rows(opt, *old(w), *final(w)),  // [C19]
        expanded(ids(opt.path@)).len() == 0 ==> r is Err && final(w).jobs@.len() == 0,  // [C26]
{
    let ghost opt0 = opt;
    let ghost tok = tok_of(opt);
    let ghost paths = paths_of(opt);
    let ghost all = ptrs_for(opt);
    let ghost mut st = Ids { tokens: 0, docs: 0, bytes: 0, max: 0, min: 0, maxl: 0, minl: 0 };
    let ghost mut cells = w.cells@;
    let ghost mut fs = w.fs@;
    let ghost mut e0 = w.ext@;
    let ghost mut w1 = *w;
/*@body
@file src/cmd/stats.rs
@item main
@params opt
@locals file_limit tokenizer out_file out_path stats executor path sync_stats_callback local_stats_factory json_out name value max_token_documents doc_pointer min_token_documents file
@world Stats::default DataExecutor::new executor.execute_with_callback executor.join load store lock prune_documents serde_json::to_string get_output_file
@eq
@io
@sub? Stats<Arc<AtomicUsize>> =>> Stats
@sub? (*max_token_documents) =>> max_token_documents
@sub? (*min_token_documents) =>> min_token_documents
@closure 0
SyncJob { stats }
@closure 1
FactoryJob { stats }
@closure 2
StatsJob { tokenizer }
@pre 0
    proof {
        assert(ids(opt.path@) =~= paths_of(opt0));
        assert(tk_of(tokenizer) == tok);
        st = stats.ids();
        lemma_bounds(all);
        w.ext@ = Ext { most: Map::<int, int>::empty().insert(st.max, top(all)), least: Map::<int, int>::empty().insert(st.min, bot(all)),
            target: Map::<int, int>::empty().insert(st.maxl, top(all)).insert(st.minl, bot(all)), ..w.ext@ };
        cells = w.cells@; fs = w.fs@; e0 = w.ext@;
        assert(!blocked(opt0)); // [C22]
        assert(w.jobs@ =~= jobs_for(tok, st, paths.take(0), opt0.limit));
    }
@top 0
        proof { lemma_part_bounds(tok, paths, opt0.limit, __it0.pos() - 1); assert(path.id() == paths[__it0.pos() - 1]); }
@bottom 0
        proof {
            let n = __it0.pos();
            assert(paths.take(n) =~= paths.take(n - 1).push(paths[n - 1]));
            assert(w.jobs@ =~= jobs_for(tok, st, paths.take(n), opt0.limit));  // [C16 C17]
        }
@loop 0 for
    invariant
        __it0.v == &opt.path, 0 <= __it0.i <= __it0.v@.len(),
        w.out == old(w).out, w.fs@ == fs, w.cells@ == cells, !w.joined@, w.ext@ == e0, stats.ids() == st,
        w.jobs@ == jobs_for(tok, st, paths.take(__it0.pos()), opt0.limit),  // [C16 C17]
    ensures
        __it0.pos() == paths.len(),
    decreases __it0.v@.len() - __it0.pos(),
@after 0
    proof { assert(paths.take(paths.len() as int) =~= paths); }
@pre 1
    proof { w1 = *w; }
@pre 2
    proof { w1 = *w; }
@pre 3
    proof { w1 = *w; }
@loop 1 for
    invariant
        others(old(w).out@, w.out@), same_but_out(w1, *w),  // [C23]
    decreases __it1.left(),
@loop 2 for
    invariant
        others(old(w).out@, w.out@), same_but_out(w1, *w),  // [C23]
    decreases __it2.left(),
@loop 3 for
    invariant
        others(old(w).out@, w.out@), same_but_out(w1, *w),  // [C23]
    decreases __it3.left(),
@end
    proof {
        let v = json_out.js();
        let fid = if out_file is Some { out_file->Some_0.id() } else { 0 };
        theorem_totals(tok, st, paths, opt0.limit);
        let b = Ext { lists: w.ext@.at_join, at_join: w.ext@.at_join, ..e0 };
        let outs = choose|outs: Seq<Map<int, Seq<Ptr>>>| #[trigger] ran_with(w.jobs@, outs, e0, b);
        assert(ran_with(w.jobs@, outs, e0, b));  // [C17]
        theorem_lists(tok, st, paths, opt0.limit, outs, e0, b);
        let hi = |p: Ptr| p.n >= w.cells@[st.max];
        let lo = |p: Ptr| p.n <= w.cells@[st.min];
        let (maxl, minl) = (sub(b.lists[st.maxl], hi), sub(b.lists[st.minl], lo));
        lemma_sub_same(b.lists[st.maxl], hi, |p: Ptr| p.n >= top(all));
        lemma_sub_same(b.lists[st.minl], lo, |p: Ptr| p.n <= bot(all));
        assert(totals_in(opt0, v));  // [C16]
        assert(right(opt0, v, maxl, minl));  // [C17]
        assert(opt0.json ==> w.out@ =~= old(w).out@.push(OutLine::Json(v)));
        assert(!opt0.json ==> others(old(w).out@, w.out@));
        assert(opt0.out is Some ==> w.fs@ =~= old(w).fs@.insert(fid, Seq::<OutLine>::empty().push(OutLine::Json(v))));
        assert(opt0.out is None ==> w.fs@ == old(w).fs@);
        assert(reported(opt0, *old(w), *w, v, fid));  // [C16 C22 C23]
    }
@*/
}

} // verus!
fn main() {}
