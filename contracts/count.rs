#![allow(unused)]
// Unit `count`: src/cmd/count.rs.
//@claims C13: count_occurences count_with_tokenizer count_unicode count_main theorem_occurrences
//@claims C19: count_main
//@claims C22: count_main get_output_file
//@claims C20: ~count_main
//@claims C23: count_main
//@claims C26: count_main
use vstd::prelude::*;
use std::sync::Arc;
//@include shim_macros.rs
macro_rules! json { ({ $($k:literal : $v:expr),* $(,)? }) => { Json::object()$(.with($k, &$v))* } }
verus! {
global size_of usize == 8;
//@include shim_std.rs
#[verifier::external_body]
pub fn vx_nondet() -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_unreached<T>() -> (r: T) requires false { unimplemented!() }
//@include shim_result.rs
//@include shim_cmd.rs
pub ghost struct Ext {}
pub open spec fn ext_ran(jobs: Seq<JobSpec>, a: Ext, b: Ext) -> bool { true }
pub open spec fn may_join(e: Ext) -> bool { true }

// ------------------------------------------------------------------ tokens
/// a token (String or &str): one value per text, so equality is equality of text
#[verifier::external_body]
pub struct Word { s: String }
impl Word { pub uninterp spec fn view(&self) -> Chars; }
impl ToJson for Word { open spec fn js(&self) -> JV { JV::Str(self@) } }
pub type Tokens = Seq<Word>;
pub open spec fn same_tokens(a: Tokens, b: Tokens) -> bool { a.len() == b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> a[i] == b[i] }
impl VxView for Vec<Word> { type V = Tokens; open spec fn vx(&self) -> Tokens { self@ } open spec fn same(a: Tokens, b: Tokens) -> bool { same_tokens(a, b) } }
impl VxView for [Word] { type V = Tokens; open spec fn vx(&self) -> Tokens { self@ } open spec fn same(a: Tokens, b: Tokens) -> bool { same_tokens(a, b) } }
/// the basic tokenizer (unit `tokens`)
pub uninterp spec fn unicode_tokens(t: Chars) -> Tokens;
pub uninterp spec fn pretrained_tokens(tok: int, t: Chars) -> Tokens;
pub uninterp spec fn decoded(tok: int, v: Tokens) -> Chars;
pub uninterp spec fn joined_by(v: Tokens, sep: Chars) -> Chars;
#[verifier::external_body]
pub struct Toks { x: u64 }
pub struct Into_;
impl Toks {
    pub uninterp spec fn view(&self) -> Tokens;
    #[verifier::external_body]
    pub fn map(self, f: Into_) -> (r: Toks) ensures r@ == self@ { unimplemented!() }
    /// a vector has at most isize::MAX elements
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<Word>) ensures r@ == self@, r@.len() < usize::MAX { unimplemented!() }
}
#[verifier::external_body]
pub fn tokenize(t: &Text) -> (r: Toks) ensures r@ == unicode_tokens(t@) { unimplemented!() }
#[verifier::external_body]
pub struct PretrainedTokenizer { x: u64 }
pub uninterp spec fn tokenizer_named(name: Chars) -> int;
impl PretrainedTokenizer {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(name: &Text) -> (r: Result<PretrainedTokenizer>) ensures r is Ok ==> r->Ok_0.id() == tokenizer_named(name@) { unimplemented!() }
    #[verifier::external_body]
    pub fn tokenize(&self, t: &Text) -> (r: Result<Vec<Word>>)
        ensures r is Ok ==> r->Ok_0@ == pretrained_tokens(self.id(), t@) && r->Ok_0@.len() < usize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn decode(&self, v: &Vec<Word>) -> (r: Result<Text>) ensures r is Ok ==> r->Ok_0@ == decoded(self.id(), v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: PretrainedTokenizer) ensures r.id() == self.id() { unimplemented!() }
}
pub trait JoinWords { spec fn words(&self) -> Tokens; fn join(&self, sep: &str) -> (r: Text) ensures r@ == joined_by(self.words(), sep@); }
impl JoinWords for Vec<Word> {
    open spec fn words(&self) -> Tokens { self@ }
    #[verifier::external_body]
    fn join(&self, sep: &str) -> (r: Text) { unimplemented!() }
}
/// which tokenizer a run uses
pub ghost enum Tok { Unicode, Pretrained(int) }
pub open spec fn toks(k: Tok, t: Chars) -> Tokens {
    match k { Tok::Unicode => unicode_tokens(t), Tok::Pretrained(id) => pretrained_tokens(id, t) }
}
pub struct Data { pub text: Option<Text> }
pub type DataInstance = Data;

// ------------------------------------------------------------------ HashMap<Vec<String>, Arc<AtomicUsize>, RandomState>
#[verifier::external_body]
pub struct Counts { x: u64 }
pub type HashMap = Counts;
pub struct Entry<'a> { pub key: &'a Vec<Word>, pub cell: &'a Arc<AtomicUsize> }
impl Counts {
    pub uninterp spec fn view(&self) -> Map<Tokens, int>;
    #[verifier::external_body]
    pub fn with_capacity_and_hasher(n: usize, s: RandomState) -> (r: Counts) ensures r@ == Map::<Tokens, int>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Vec<Word>, c: Arc<AtomicUsize>) ensures final(self)@ == old(self)@.insert(k@, c.id()) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Counts) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) { unimplemented!() }
    /// the entries, each once, in some order
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: CountsIter<'a>) ensures r.pos() == 0, lists(r.all(), self@) { unimplemented!() }
}
/// the sequence of keys lists the map's domain without repetition
pub open spec fn lists(all: Seq<(Tokens, int)>, m: Map<Tokens, int>) -> bool {
    &&& forall|i: int| 0 <= i < all.len() ==> m.dom().contains(#[trigger] all[i].0) && m[all[i].0] == all[i].1
    &&& forall|i: int, j: int| 0 <= i < j < all.len() ==> #[trigger] all[i].0 != #[trigger] all[j].0
    &&& forall|k: Tokens| m.dom().contains(k) ==> exists|i: int| 0 <= i < all.len() && #[trigger] all[i].0 == k
}
#[verifier::external_body]
pub struct CountsIter<'a> { x: &'a u64 }
impl<'a> CountsIter<'a> {
    pub uninterp spec fn all(&self) -> Seq<(Tokens, int)>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a Vec<Word>, &'a Arc<AtomicUsize>)>)
        ensures final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> r is Some && r->Some_0.0@ == old(self).all()[old(self).pos()].0
                && r->Some_0.1.id() == old(self).all()[old(self).pos()].1 && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos() { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: Enumerated<'a>) ensures r.all() == self.all(), r.pos() == self.pos() { unimplemented!() }
}
#[verifier::external_body]
pub struct Enumerated<'a> { x: &'a u64 }
impl<'a> Enumerated<'a> {
    pub uninterp spec fn all(&self) -> Seq<(Tokens, int)>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, (&'a Vec<Word>, &'a Arc<AtomicUsize>))>)
        ensures final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> r is Some && r->Some_0.1.0@ == old(self).all()[old(self).pos()].0
                && r->Some_0.1.1.id() == old(self).all()[old(self).pos()].1 && final(self).pos() == old(self).pos() + 1
                && r->Some_0.0 == old(self).pos(),
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos() { unimplemented!() }
}
impl<'a> VxInto for CountsIter<'a> {
    type It = CountsIter<'a>;
    open spec fn begins(self, r: CountsIter<'a>) -> bool { r == self }
    fn vx_into(self) -> (r: CountsIter<'a>) { self }
}
impl<'a> VxInto for Enumerated<'a> {
    type It = Enumerated<'a>;
    open spec fn begins(self, r: Enumerated<'a>) -> bool { r == self }
    fn vx_into(self) -> (r: Enumerated<'a>) { self }
}
impl<'a> VxInto for &'a Counts {
    type It = CountsIter<'a>;
    open spec fn begins(self, r: CountsIter<'a>) -> bool { r.pos() == 0 && lists(r.all(), self@) }
    fn vx_into(self) -> (r: CountsIter<'a>) { self.iter() }
}

// ------------------------------------------------------------------ occurrences
pub open spec fn at(s: Tokens, t: Tokens, p: int) -> bool { 0 <= p && p + s.len() <= t.len() && t.subrange(p, p + s.len()) == s }
/// how many positions below k start an occurrence of s in t
pub open spec fn starts(s: Tokens, t: Tokens, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { starts(s, t, k - 1) + (if at(s, t, k - 1) { 1int } else { 0 }) } }
/// how many positions of t start an occurrence of s (overlaps count)
pub open spec fn occ(s: Tokens, t: Tokens) -> int { starts(s, t, t.len() as int + 1) }

proof fn lemma_starts_past(s: Tokens, t: Tokens, k: int, m: int)
    requires k <= m, t.len() - s.len() + 1 <= k,
    ensures starts(s, t, m) == starts(s, t, k),
    decreases m - k,
{ if k < m { lemma_starts_past(s, t, k, m - 1); } }
/// `occ` is the number of positions at which an occurrence starts
proof fn theorem_occurrences(s: Tokens, t: Tokens)
    ensures
        (Set::<int>::range(0, t.len() as int + 1).filter(|p: int| at(s, t, p))).len() == occ(s, t),
{
    lemma_positions(s, t, t.len() as int + 1);
}
proof fn lemma_positions(s: Tokens, t: Tokens, k: int)
    requires 0 <= k,
    ensures Set::<int>::range(0, k).filter(|p: int| at(s, t, p)).len() == starts(s, t, k),
    decreases k,
{
    let f = |p: int| at(s, t, p);
    if k > 0 {
        lemma_positions(s, t, k - 1);
        let a = Set::<int>::range(0, k - 1).filter(f);
        let b = Set::<int>::range(0, k).filter(f);
        if at(s, t, k - 1) { assert(b =~= a.insert(k - 1)); assert(!a.contains(k - 1)); } else { assert(b =~= a); }
    } else {
        assert(Set::<int>::range(0, k).filter(f) =~= Set::<int>::empty());
    }
}

/// cells and keys correspond one to one
pub open spec fn one_to_one(m: Map<Tokens, int>) -> bool {
    forall|a: Tokens, b: Tokens| m.dom().contains(a) && m.dom().contains(b) && a != b ==> #[trigger] m[a] != #[trigger] m[b]
}
pub open spec fn no_shorter(m: Map<Tokens, int>, min: int) -> bool { forall|k: Tokens| #[trigger] m.dom().contains(k) ==> k.len() >= min }
/// every key's cell grew by the key's number of occurrences, nothing else changed
pub open spec fn added_occ(a: Map<int, int>, b: Map<int, int>, m: Map<Tokens, int>, t: Tokens) -> bool {
    &&& b.dom() == a.dom()
    &&& forall|k: Tokens| m.dom().contains(k) ==> #[trigger] b[m[k]] == a[m[k]] + occ(k, t)
    &&& forall|c: int| !(exists|k: Tokens| m.dom().contains(k) && #[trigger] m[k] == c) ==> #[trigger] b[c] == a[c]
}
pub open spec fn cells_exist(m: Map<Tokens, int>, cells: Map<int, int>) -> bool {
    forall|k: Tokens| #[trigger] m.dom().contains(k) ==> cells.dom().contains(m[k])
}
pub open spec fn is_key_cell(m: Map<Tokens, int>, c: int) -> bool { exists|k: Tokens| m.dom().contains(k) && #[trigger] m[k] == c }
/// start positions considered once all ends below `e` have been looked at
pub open spec fn upto(k: Tokens, e: int) -> int { e - k.len() }
/// the inner loop stands before entry `pos` of end position `e`
pub open spec fn going(a: Map<int, int>, b: Map<int, int>, m: Map<Tokens, int>, all: Seq<(Tokens, int)>, pos: int, e: int, t: Tokens) -> bool {
    &&& b.dom() == a.dom()
    &&& forall|i: int| 0 <= i < pos ==> b[(#[trigger] all[i]).1] == a[all[i].1] + starts(all[i].0, t, upto(all[i].0, e + 1))
    &&& forall|i: int| pos <= i < all.len() ==> b[(#[trigger] all[i]).1] == a[all[i].1] + starts(all[i].0, t, upto(all[i].0, e))
    &&& forall|c: int| !is_key_cell(m, c) ==> #[trigger] b[c] == a[c]
}
pub open spec fn between(a: Map<int, int>, b: Map<int, int>, m: Map<Tokens, int>, e: int, t: Tokens) -> bool {
    &&& b.dom() == a.dom()
    &&& forall|k: Tokens| m.dom().contains(k) ==> #[trigger] b[m[k]] == a[m[k]] + starts(k, t, upto(k, e))
    &&& forall|c: int| !is_key_cell(m, c) ==> #[trigger] b[c] == a[c]
}

proof fn lemma_first(a: Map<int, int>, b: Map<int, int>, m: Map<Tokens, int>, min: int, t: Tokens)
    requires a == b, no_shorter(m, min),
    ensures forall|e: int| e <= min ==> #[trigger] between(a, b, m, e, t),
{
    assert forall|e: int| e <= min implies #[trigger] between(a, b, m, e, t) by {
        assert forall|k: Tokens| m.dom().contains(k) implies #[trigger] b[m[k]] == a[m[k]] + starts(k, t, upto(k, e)) by { assert(k.len() >= min); }
    }
}
/// one entry of the map at end position `e`
proof fn lemma_inner(a: Map<int, int>, b0: Map<int, int>, b: Map<int, int>, m: Map<Tokens, int>, all: Seq<(Tokens, int)>, p: int, e: int, t: Tokens)
    requires going(a, b0, m, all, p, e, t), 0 <= p < all.len(), lists(all, m), one_to_one(m), 0 <= e <= t.len(), cells_exist(m, a),
        ({ let (k, c) = all[p];
           if e >= k.len() && same_tokens(t.subrange(e - k.len(), e), k) { b == b0.insert(c, b0[c] + 1) } else { b == b0 } }),
    ensures going(a, b, m, all, p + 1, e, t),
{
    let (k, c) = all[p];
    if e >= k.len() { let x = t.subrange(e - k.len(), e); if same_tokens(x, k) { assert(x =~= k); } }
    assert(m.dom().contains(k) && m[k] == c && a.dom().contains(c));
    assert(upto(k, e + 1) - 1 == upto(k, e));
    if e >= k.len() { assert(at(k, t, e - k.len()) <==> t.subrange(e - k.len(), e) == k); }
    assert(starts(k, t, upto(k, e + 1)) == starts(k, t, upto(k, e)) + (if e >= k.len() && t.subrange(e - k.len(), e) == k { 1int } else { 0 }));
    assert forall|i: int| 0 <= i < all.len() && i != p implies (#[trigger] all[i]).1 != c by {
        assert(m.dom().contains(all[i].0) && m[all[i].0] == all[i].1);
        if i < p { assert(all[i].0 != all[p].0); } else { assert(all[p].0 != all[i].0); }
    }
    assert(is_key_cell(m, c));
    assert(b.dom() =~= a.dom());
}
proof fn lemma_row(a: Map<int, int>, b: Map<int, int>, m: Map<Tokens, int>, all: Seq<(Tokens, int)>, e: int, t: Tokens)
    requires lists(all, m), going(a, b, m, all, all.len() as int, e, t),
    ensures between(a, b, m, e + 1, t),
{
    assert forall|k: Tokens| m.dom().contains(k) implies #[trigger] b[m[k]] == a[m[k]] + starts(k, t, upto(k, e + 1)) by {
        let i = choose|i: int| 0 <= i < all.len() && #[trigger] all[i].0 == k;
        assert(b[all[i].1] == a[all[i].1] + starts(all[i].0, t, upto(all[i].0, e + 1)));
    }
}
proof fn lemma_begin_row(a: Map<int, int>, b: Map<int, int>, m: Map<Tokens, int>, all: Seq<(Tokens, int)>, e: int, t: Tokens)
    requires lists(all, m), between(a, b, m, e, t),
    ensures going(a, b, m, all, 0, e, t),
{
    assert forall|i: int| 0 <= i < all.len() implies b[(#[trigger] all[i]).1] == a[all[i].1] + starts(all[i].0, t, upto(all[i].0, e)) by {
        assert(m.dom().contains(all[i].0));
        assert(b[m[all[i].0]] == a[m[all[i].0]] + starts(all[i].0, t, upto(all[i].0, e)));
    }
}
proof fn lemma_last(a: Map<int, int>, b: Map<int, int>, m: Map<Tokens, int>, e: int, t: Tokens)
    requires between(a, b, m, e, t), e > t.len(),
    ensures added_occ(a, b, m, t),
{
    assert forall|k: Tokens| m.dom().contains(k) implies #[trigger] b[m[k]] == a[m[k]] + occ(k, t) by {
        if upto(k, e) <= t.len() + 1 { lemma_starts_past(k, t, upto(k, e), t.len() as int + 1); } else { lemma_starts_past(k, t, t.len() as int + 1, upto(k, e)); }
    }
    assert forall|c: int| !(exists|k: Tokens| m.dom().contains(k) && #[trigger] m[k] == c) implies #[trigger] b[c] == a[c] by { assert(!is_key_cell(m, c)); }
}

fn count_occurences(min_search_length: usize, tokens: Vec<Word>, counts: &Counts, w: &mut World)
    requires tokens@.len() < usize::MAX, one_to_one(counts@), cells_exist(counts@, old(w).cells@), no_shorter(counts@, min_search_length as int),
    ensures same_but_cells(*old(w), *final(w)), added_occ(old(w).cells@, final(w).cells@, counts@, tokens@),
{
/*@body
@file src/cmd/count.rs
@item count_occurences
@params min_search_length tokens counts
@locals index search count slice
@world fetch_add
@eq
@start
    let ghost a = w.cells@;
    let ghost m = counts@;
    proof { lemma_first(a, w.cells@, m, min_search_length as int, tokens@); assert(between(a, w.cells@, m, min_search_length as int, tokens@)); }
@after 0
    proof { lemma_last(a, w.cells@, m, __it0.cur as int, tokens@); }
@loop 0 for via vx_range
    invariant
        __it0.end == tokens@.len() + 1, __it0.cur >= min_search_length,
        a == old(w).cells@, m == counts@, tokens@.len() < usize::MAX, one_to_one(m), cells_exist(m, a), no_shorter(m, min_search_length as int),
        same_but_cells(*old(w), *w),
        between(a, w.cells@, m, __it0.cur as int, tokens@),
    ensures
        __it0.cur >= __it0.end,
    decreases __it0.end - __it0.cur,
@pre 1
        proof { lemma_begin_row(a, w.cells@, m, __it1.all(), index as int, tokens@); }
@top 1
        let ghost b0 = w.cells@;
        let ghost e = index as int;
        let ghost p0 = __it1.pos() - 1;
@bottom 1
        proof { lemma_inner(a, b0, w.cells@, m, __it1.all(), p0, e, tokens@); }
@after 1
        proof { lemma_row(a, w.cells@, m, __it1.all(), index as int, tokens@); }
@loop 1 for
        invariant
            a == old(w).cells@, m == counts@, tokens@.len() < usize::MAX, one_to_one(m), cells_exist(m, a), no_shorter(m, min_search_length as int),
            same_but_cells(*old(w), *w), index <= tokens@.len(),
            lists(__it1.all(), m), 0 <= __it1.pos() <= __it1.all().len(),
            going(a, w.cells@, m, __it1.all(), __it1.pos(), index as int, tokens@),
        ensures
            __it1.pos() == __it1.all().len(),
        decreases __it1.all().len() - __it1.pos(),
@*/
}

/// what the data function of a job adds to a cell for one document
pub open spec fn doc_adds(j: JobSpec, d: Data, c: int) -> int {
    if d.text is Some && is_key_cell(j.counts, c) {
        occ(choose|k: Tokens| j.counts.dom().contains(k) && #[trigger] j.counts[k] == c, toks(j.tok, d.text->Some_0@))
    } else { 0 }
}
pub open spec fn docs_add(j: JobSpec, docs: Seq<Data>, c: int) -> int
    decreases docs.len()
{ if docs.len() == 0 { 0 } else { docs_add(j, docs.drop_last(), c) + doc_adds(j, docs.last(), c) } }
pub ghost struct JobSpec { pub path: int, pub limit: Option<usize>, pub tok: Tok, pub counts: Map<Tokens, int> }
pub open spec fn job_effect(j: JobSpec, v: int, c: int) -> int { v + docs_add(j, documents(j.path, j.limit), c) }

/// the two data functions, with what they capture
pub struct UnicodeJob { pub min_search_length: usize, pub counts: Counts }
impl Task for UnicodeJob {
    open spec fn ready(&self) -> bool { one_to_one(self.counts@) && no_shorter(self.counts@, self.min_search_length as int) }
    open spec fn spec(&self, path: int, limit: Option<usize>) -> JobSpec { JobSpec { path, limit, tok: Tok::Unicode, counts: self.counts@ } }
}
pub struct PretrainedJob { pub tokenizer: PretrainedTokenizer, pub min_search_length: usize, pub counts: Counts }
impl Task for PretrainedJob {
    open spec fn ready(&self) -> bool { one_to_one(self.counts@) && no_shorter(self.counts@, self.min_search_length as int) }
    open spec fn spec(&self, path: int, limit: Option<usize>) -> JobSpec { JobSpec { path, limit, tok: Tok::Pretrained(self.tokenizer.id()), counts: self.counts@ } }
}
/// the contract both keep: every cell grows by what `doc_adds` says
pub open spec fn processed(a: Map<int, int>, b: Map<int, int>, j: JobSpec, d: Data) -> bool {
    b.dom() == a.dom() && forall|c: int| #[trigger] b[c] == a[c] + doc_adds(j, d, c)
}
proof fn lemma_processed(a: Map<int, int>, b: Map<int, int>, j: JobSpec, d: Data)
    requires one_to_one(j.counts), d.text is Some, added_occ(a, b, j.counts, toks(j.tok, d.text->Some_0@)),
    ensures processed(a, b, j, d),
{
    assert forall|c: int| #[trigger] b[c] == a[c] + doc_adds(j, d, c) by {
        if is_key_cell(j.counts, c) {
            let k = choose|k: Tokens| j.counts.dom().contains(k) && #[trigger] j.counts[k] == c;
            assert(b[j.counts[k]] == a[j.counts[k]] + occ(k, toks(j.tok, d.text->Some_0@)));
        }
    }
}
fn count_unicode(data: Data, min_search_length: usize, counts: &Counts, w: &mut World) -> (r: Result<()>)
    requires one_to_one(counts@), cells_exist(counts@, old(w).cells@), no_shorter(counts@, min_search_length as int),
    ensures same_but_cells(*old(w), *final(w)),
        r is Ok ==> processed(old(w).cells@, final(w).cells@, JobSpec { path: 0, limit: None, tok: Tok::Unicode, counts: counts@ }, data),
{
    let ghost a = w.cells@;
    let ghost j = JobSpec { path: 0, limit: None, tok: Tok::Unicode, counts: counts@ };
    let ghost d = data;
/*@body
@file src/cmd/count.rs
@item main@execute#1.1
@params data _ _
@locals text tokens
@known counts min_search_length
@world count_occurences
@sub? Vec<&str> =>> Vec<Word>
@sub? Vec<String> =>> Vec<Word>
@eq
@end
    proof { if d.text is Some { lemma_processed(a, w.cells@, j, d); } }
@*/
}
fn count_with_tokenizer(data: Data, tokenizer: &PretrainedTokenizer, min_search_length: usize, counts: &Counts, w: &mut World) -> (r: Result<()>)
    requires one_to_one(counts@), cells_exist(counts@, old(w).cells@), no_shorter(counts@, min_search_length as int),
    ensures same_but_cells(*old(w), *final(w)),
        r is Ok ==> processed(old(w).cells@, final(w).cells@, JobSpec { path: 0, limit: None, tok: Tok::Pretrained(tokenizer.id()), counts: counts@ }, data),
{
    let ghost a = w.cells@;
    let ghost j = JobSpec { path: 0, limit: None, tok: Tok::Pretrained(tokenizer.id()), counts: counts@ };
    let ghost d = data;
/*@body
@file src/cmd/count.rs
@item main@execute#0.1
@params data _ _
@locals text tokens
@known counts min_search_length tokenizer
@world count_occurences
@sub? Vec<&str> =>> Vec<Word>
@sub? Vec<String> =>> Vec<Word>
@eq
@end
    proof { if d.text is Some { lemma_processed(a, w.cells@, j, d); } }
@*/
}

// ------------------------------------------------------------------ the command
pub struct Opt {
    pub path: Vec<PathBuf>, pub search: Vec<Text>, pub limit: Option<usize>, pub file_limit: Option<usize>, pub workers: Option<usize>,
    pub out: Option<PathBuf>, pub quiet: bool, pub json: bool, pub force: bool, pub tokenizer: Text,
}
fn get_output_file(opt: &Opt, w: &mut World) -> (r: Result<Option<(File, PathBuf)>>)
    ensures
        opt.out is None ==> r is Ok && r->Ok_0 is None && *final(w) == *old(w),
        opt.out is Some && dir_there(opt.out->Some_0.id()) ==> r is Err && *final(w) == *old(w),
        opt.out is Some && file_there(opt.out->Some_0.id()) && !opt.force ==> r is Err && *final(w) == *old(w),
        same_but_fs(*old(w), *final(w)),
        r is Err ==> *final(w) == *old(w),
        opt.out is Some && r is Ok ==> r->Ok_0 is Some && r->Ok_0->Some_0.0.path() == opt.out->Some_0.id()
            && final(w).fs@ == old(w).fs@.insert(r->Ok_0->Some_0.0.id(), Seq::<OutLine>::empty()),
{
/*@body
@file src/cmd/count.rs
@item get_output_file
@params opt
@locals path
@world util::get_output_file
@*/
}

/// the documents of a path holding k: how often, over all of them
pub open spec fn docs_occ(k: Tokens, tok: Tok, docs: Seq<Data>) -> int
    decreases docs.len()
{
    if docs.len() == 0 { 0 } else {
        docs_occ(k, tok, docs.drop_last()) + (if docs.last().text is Some { occ(k, toks(tok, docs.last().text->Some_0@)) } else { 0 })
    }
}
/// what `count` has to report for the token sequence k
pub open spec fn total(k: Tokens, tok: Tok, paths: Seq<int>, limit: Option<usize>) -> int
    decreases paths.len()
{ if paths.len() == 0 { 0 } else { total(k, tok, paths.drop_last(), limit) + docs_occ(k, tok, documents(paths.last(), limit)) } }
pub open spec fn jobs_for(tok: Tok, m: Map<Tokens, int>, paths: Seq<int>, limit: Option<usize>) -> Seq<JobSpec> {
    paths.map_values(|p: int| JobSpec { path: p, limit, tok, counts: m })
}
proof fn lemma_docs(k: Tokens, j: JobSpec, docs: Seq<Data>)
    requires one_to_one(j.counts), j.counts.dom().contains(k),
    ensures docs_add(j, docs, j.counts[k]) == docs_occ(k, j.tok, docs),
    decreases docs.len(),
{
    if docs.len() > 0 {
        lemma_docs(k, j, docs.drop_last());
        let c = j.counts[k];
        assert(is_key_cell(j.counts, c));
    }
}
proof fn lemma_total(k: Tokens, tok: Tok, m: Map<Tokens, int>, paths: Seq<int>, limit: Option<usize>)
    requires one_to_one(m), m.dom().contains(k),
    ensures ran(jobs_for(tok, m, paths, limit), 0, m[k]) == total(k, tok, paths, limit),
    decreases paths.len(),
{
    let jobs = jobs_for(tok, m, paths, limit);
    if paths.len() > 0 {
        lemma_total(k, tok, m, paths.drop_last(), limit);
        assert(jobs.drop_last() =~= jobs_for(tok, m, paths.drop_last(), limit));
        lemma_docs(k, jobs.last(), documents(paths.last(), limit));
    }
}
pub open spec fn tok_of(opt: Opt) -> Tok { if opt.tokenizer@ == "unicode"@ { Tok::Unicode } else { Tok::Pretrained(tokenizer_named(opt.tokenizer@)) } }
pub open spec fn paths_of(opt: Opt) -> Seq<int> {
    let e = expanded(ids(opt.path@));
    match opt.file_limit { Some(n) => if n < e.len() { e.take(n as int) } else { e }, None => e }
}
/// the token sequences asked for
pub open spec fn asked(opt: Opt, n: int, k: Tokens) -> bool { exists|i: int| 0 <= i < n && k == toks(tok_of(opt), #[trigger] opt.search@[i]@) }
pub open spec fn string_of(tok: Tok, k: Tokens) -> Chars { match tok { Tok::Unicode => joined_by(k, " "@), Tok::Pretrained(id) => decoded(id, k) } }
pub open spec fn row(tok: Tok, k: Tokens, n: int) -> OutLine {
    OutLine::Json(JV::Obj(seq![
        ("tokens"@, JV::Arr(k.map_values(|x: Word| x.js()))), ("string"@, JV::Str(string_of(tok, k))), ("count"@, JV::Num(n))]))
}
/// the keys, each once
pub open spec fn keys_of(opt: Opt, keys: Seq<Tokens>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < keys.len() ==> #[trigger] keys[i] != #[trigger] keys[j]
    &&& forall|k: Tokens| keys.contains(k) <==> asked(opt, opt.search@.len() as int, k)
}
pub open spec fn rows(opt: Opt, keys: Seq<Tokens>) -> Seq<OutLine> {
    keys.map_values(|k: Tokens| row(tok_of(opt), k, total(k, tok_of(opt), paths_of(opt), opt.limit)))
}
pub open spec fn others(a: Seq<OutLine>, b: Seq<OutLine>) -> bool {
    a.len() <= b.len() && (forall|i: int| 0 <= i < a.len() ==> a[i] == b[i]) && (forall|i: int| a.len() <= i < b.len() ==> #[trigger] b[i] is Other)
}
pub open spec fn rejected(opt: Opt) -> bool {
    ||| opt.search@.len() == 0
    ||| opt.file_limit == Some(0usize)
    ||| paths_of(opt).len() == 0
}
/// the output file may not be written
pub open spec fn blocked(opt: Opt) -> bool {
    opt.out is Some && (dir_there(opt.out->Some_0.id()) || file_there(opt.out->Some_0.id()) && !opt.force)
}
/// no row went to a file
pub open spec fn no_rows(opt: Opt, a: World, b: World) -> bool {
    b.fs@ == a.fs@ || (opt.out is Some && exists|fid: int| handle_path(fid) == opt.out->Some_0.id() && b.fs@ == #[trigger] a.fs@.insert(fid, Seq::<OutLine>::empty()))
}
/// standard output and the file hold exactly the rows of these keys
pub open spec fn reported(opt: Opt, a: World, b: World, keys: Seq<Tokens>, fid: int) -> bool {
    &&& opt.json ==> b.out@ == a.out@ + rows(opt, keys)
    &&& !opt.json ==> others(a.out@, b.out@)
    &&& !opt.json && opt.quiet ==> b.out@ == a.out@
    &&& opt.out is Some ==> b.fs@ == a.fs@.insert(fid, rows(opt, keys)) && handle_path(fid) == opt.out->Some_0.id()
    &&& opt.out is None ==> b.fs@ == a.fs@
}

#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
fn count_main(mut opt: Opt, w: &mut World) -> (r: Result<()>)
    requires old(w).jobs@.len() == 0, !old(w).joined@,
    ensures
        // C13, C23: every distinct token sequence asked for is reported once, with its number of occurrences
        r is Ok ==> exists|keys: Seq<Tokens>, fid: int| keys_of(opt, keys) && #[trigger] reported(opt, *old(w), *final(w), keys, fid),  // [C13 C23 C22]
        // C22: nothing happens to a file that may not be written, and nothing is processed
        blocked(opt) ==> r is Err && final(w).fs@ == old(w).fs@ && final(w).jobs@.len() == 0,  // [C22]
        // C19: rows only when every job is done without failure
        r is Ok ==> final(w).joined@,  // [C19]
        !final(w).joined@ ==> final(w).out@ == old(w).out@ && no_rows(opt, *old(w), *final(w)),  // [C19]
        // C26
        rejected(opt) ==> r is Err && final(w).jobs@.len() == 0,  // [C26]
{
    let ghost opt0 = opt;
    let ghost tok = tok_of(opt);
    let ghost paths = paths_of(opt);
    let ghost mut m = Map::<Tokens, int>::empty();
    let ghost mut cells = w.cells@;
    let ghost mut fs = w.fs@;
/*@body
@file src/cmd/count.rs
@item main
@params opt
@locals file_limit tokenizer counts min_search_length search search_tokens out_file out_path out executor path i count search_str json_out file
@world AtomicUsize::new DataExecutor::new executor.execute executor.join count.load get_output_file
@eq
@io
@sub? Vec<String> =>> Vec<Word>
@sub? HashMap<Vec<Word>, Arc<AtomicUsize>, RandomState> =>> Counts
@sub? HashMap<Vec<String>, Arc<AtomicUsize>, RandomState> =>> Counts
@closure 0 == |t| t.into() OR |t| t.to_string() OR |t| t.to_owned() OR |t| String::from(t)
Into_
@closure 1
PretrainedJob { tokenizer, min_search_length, counts }
@closure 2
UnicodeJob { min_search_length, counts }
@pre 0
    proof {
        assert(ids(opt.path@) =~= paths_of(opt0));
        assert(tokenizer is None ==> tok == Tok::Unicode);
        assert(tokenizer is Some ==> tok == Tok::Pretrained(tokenizer->Some_0.id()));
    }
@top 0
        let ghost n = __it0.pos() - 1;
        let ghost mb = counts@;
        let ghost cb = w.cells@;
@bottom 0
        proof {
            let k = toks(tok, search@);
            assert(search@ == opt0.search@[n]@);
            assert(counts@.dom() =~= mb.dom().insert(k));
            assert forall|q: Tokens| counts@.dom().contains(q) <==> asked(opt0, n + 1, q) by {
                if asked(opt0, n + 1, q) && !asked(opt0, n, q) { assert(q == k); }
                if asked(opt0, n, q) { let i = choose|i: int| 0 <= i < n && q == toks(tok_of(opt0), #[trigger] opt0.search@[i]@); assert(asked(opt0, n + 1, q)); }
            }
            assert forall|q: Tokens| #[trigger] counts@.dom().contains(q) implies w.cells@.dom().contains(counts@[q]) && w.cells@[counts@[q]] == 0 by {
                if q != k { assert(mb.dom().contains(q)); }
            }
            assert forall|q: Tokens| #[trigger] counts@.dom().contains(q) implies q.len() >= min_search_length by {
                if q != k { assert(mb.dom().contains(q)); }
            }
            assert forall|a: Tokens, b: Tokens| counts@.dom().contains(a) && counts@.dom().contains(b) && a != b implies #[trigger] counts@[a] != #[trigger] counts@[b] by {
                if a != k { assert(mb.dom().contains(a)); }
                if b != k { assert(mb.dom().contains(b)); }
            }
        }
@loop 0 for
    invariant
        __it0.v == &opt.search, 0 <= __it0.i <= __it0.v@.len(),
        same_but_cells(*old(w), *w),
        one_to_one(counts@), cells_exist(counts@, w.cells@), no_shorter(counts@, min_search_length as int),  // [C13]
        forall|k: Tokens| #[trigger] counts@.dom().contains(k) ==> w.cells@[counts@[k]] == 0,
        forall|k: Tokens| #[trigger] counts@.dom().contains(k) <==> asked(opt0, __it0.pos(), k),  // [C13]
    ensures
        __it0.pos() == opt0.search@.len(),
    decreases __it0.v@.len() - __it0.pos(),
@pre 1
    proof { m = counts@; cells = w.cells@; fs = w.fs@; assert(!blocked(opt0)); // [C22]
 assert(!rejected(opt0)); // [C26]
 assert(w.jobs@ =~= jobs_for(tok, m, paths.take(0), opt0.limit)); }
@bottom 1
        proof {
            let n = __it1.pos();
            assert(paths.take(n) =~= paths.take(n - 1).push(path.id()));
            assert(w.jobs@ =~= jobs_for(tok, m, paths.take(n), opt0.limit));  // [C13]
        }
@loop 1 for
    invariant
        __it1.v == &opt.path, 0 <= __it1.i <= __it1.v@.len(),
        w.out == old(w).out, w.fs@ == fs, w.cells@ == cells,
        w.jobs@ == jobs_for(tok, m, paths.take(__it1.pos()), opt0.limit),  // [C13]
    ensures
        __it1.pos() == paths.len(),
    decreases __it1.v@.len() - __it1.pos(),
@pre 2
    let ghost all = __it2.all();
    let ghost keys = Seq::new(all.len(), |i: int| all[i].0);
    let ghost fid = if out_file is Some { out_file->Some_0.id() } else { 0 };
    let ghost fs0 = old(w).fs@;
    proof {
        assert(paths.take(paths.len() as int) =~= paths);
        assert forall|k: Tokens| keys.contains(k) <==> asked(opt0, opt0.search@.len() as int, k) by {
            if keys.contains(k) { let i = choose|i: int| 0 <= i < keys.len() && keys[i] == k; assert(m.dom().contains(all[i].0)); }
            if asked(opt0, opt0.search@.len() as int, k) { assert(m.dom().contains(k)); let i = choose|i: int| 0 <= i < all.len() && #[trigger] all[i].0 == k; assert(keys[i] == k); }
        }
        assert(keys_of(opt0, keys));
        assert(rows(opt0, keys.take(0)) =~= Seq::<OutLine>::empty());
        assert(w.out@ =~= old(w).out@ + rows(opt0, keys.take(0)));
        assert(out_file is Some ==> w.fs@ =~= fs0.insert(fid, rows(opt0, keys.take(0))));
    }
@top 2
        let ghost n = __it2.pos() - 1;
        let ghost out1 = w.out@;
        let ghost fs1 = w.fs@;
        proof {
            assert(m.dom().contains(all[n].0));
            lemma_total(all[n].0, tok, m, paths, opt0.limit);
        }
@bottom 2
        proof {
            let k = all[n].0;
            let line = row(tok, k, total(k, tok, paths_of(opt0), opt0.limit));
            assert(keys.take(n + 1) =~= keys.take(n).push(k));
            assert(rows(opt0, keys.take(n + 1)) =~= rows(opt0, keys.take(n)).push(line));
            assert(search.js() == JV::Arr(search@.map_values(|x: Word| x.js())));
            assert(search.js()->Arr_0 =~= k.map_values(|x: Word| x.js()));
            assert(count as int == total(k, tok, paths_of(opt0), opt0.limit));  // [C13]
            assert(search_str@ == string_of(tok, k));  // [C13 C23]
            assert(json_out.js()->Obj_0 =~= seq![("tokens"@, search.js()), ("string"@, search_str.js()), ("count"@, count.js())]);
            assert(OutLine::Json(json_out.js()) == line);
            if opt0.json { assert(w.out@ =~= old(w).out@ + rows(opt0, keys.take(n + 1))); }  // [C13 C23]
            if out_file is Some { assert(w.fs@ =~= fs0.insert(fid, rows(opt0, keys.take(n + 1)))); }  // [C22 C23]
        }
@loop 2 for
    invariant
        __it2.all() == all, 0 <= __it2.pos() <= all.len(), lists(all, m),
        w.joined@, w.jobs@ == jobs_for(tok, m, paths, opt0.limit),
        forall|c: int| cells.dom().contains(c) ==> #[trigger] w.cells@[c] == ran(w.jobs@, cells[c], c),
        opt0.json ==> w.out@ == old(w).out@ + rows(opt0, keys.take(__it2.pos())),  // [C13 C23]
        !opt0.json ==> others(old(w).out@, w.out@),  // [C23]
        !opt0.json && opt0.quiet ==> w.out@ == old(w).out@,  // [C23]
        out_file is Some <==> opt0.out is Some,
        out_file is Some ==> out_file->Some_0.id() == fid && handle_path(fid) == opt0.out->Some_0.id()
            && w.fs@ == fs0.insert(fid, rows(opt0, keys.take(__it2.pos()))),  // [C22 C23]
        out_file is None ==> w.fs@ == fs0,  // [C22 C23]
    ensures
        __it2.pos() == all.len(),
    decreases all.len() - __it2.pos(),
@after 2
    proof {
        assert(keys.take(keys.len() as int) =~= keys);
        assert(reported(opt0, *old(w), *w, keys, fid));
    }
@*/
}

} // verus!
fn main() {}
