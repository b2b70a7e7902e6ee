#![allow(unused)]
// Unit `search`: src/cmd/search.rs.
//@claims C14: search_doc one_job search_main theorem_total
//@claims C15: search_doc send_local new_local one_job search_main theorem_locations theorem_no_limit
//@claims C19: search_main
//@claims C21: send_local search_main
//@claims C22: search_main get_output_file
//@claims C20: ~search_main
//@claims C23: search_main
//@claims C26: search_main
use vstd::prelude::*;
use vstd::multiset::Multiset;
use std::sync::Arc;
//@include shim_macros.rs
macro_rules! json { ({ $($k:literal : $v:expr),* $(,)? }) => { Json::object()$(.with($k, &$v))* } }
verus! {
global size_of usize == 8;
//@include shim_std.rs
#[verifier::external_body]
pub fn vx_nondet() -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_unreached<T>() -> (r: T) requires false { unimplemented!() }
//@include shim_result.rs
//@include shim_cmd.rs
//@include shim_map.rs
impl Text {
    #[verifier::external_body]
    pub fn into(&self) -> (r: Text) ensures r@ == self@ { unimplemented!() }
}
pub struct Data { pub text: Option<Text> }
pub type DataInstance = Data;

// ------------------------------------------------------------------ regex
/// the non-overlapping leftmost matches of a pattern, as byte ranges, in order (regex crate)
pub uninterp spec fn found(re: int, t: Chars) -> Seq<(int, int)>;
pub uninterp spec fn regex_of(pattern: Chars) -> int;
#[verifier::external_body]
pub struct Regex { x: u64 }
impl Regex {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(p: &Text) -> (r: Result<Regex>) ensures r is Ok ==> r->Ok_0.id() == regex_of(p@) { unimplemented!() }
    #[verifier::external_body]
    pub fn find_iter(&self, t: &Text) -> (r: FindIter) ensures r.pos() == 0, r.all() == found(self.id(), t@) { unimplemented!() }
}
#[verifier::external_body]
pub struct FindIter { x: u64 }
impl FindIter {
    pub uninterp spec fn all(&self) -> Seq<(int, int)>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Match>)
        ensures final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> r is Some && r->Some_0@ == old(self).all()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos() { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self.all().len() - self.pos() { unimplemented!() }
}
impl VxInto for FindIter {
    type It = FindIter;
    open spec fn begins(self, r: FindIter) -> bool { r == self }
    fn vx_into(self) -> (r: FindIter) { self }
}
#[verifier::external_body]
pub struct Match { x: u64 }
impl Match {
    pub uninterp spec fn view(&self) -> (int, int);
    #[verifier::external_body]
    pub fn start(&self) -> (r: usize) ensures r == self@.0 { unimplemented!() }
    #[verifier::external_body]
    pub fn end(&self) -> (r: usize) ensures r == self@.1 { unimplemented!() }
}

// ------------------------------------------------------------------ locations
pub struct SubMatch { pub start_col: usize, pub end_col: usize }
pub struct MatchLocation { pub text: Text, pub line_num: usize, pub submatches: Vec<SubMatch> }
pub type MatchLocationsPerPath = HashMap<PathBuf, Vec<MatchLocation>, RandomState>;
pub ghost struct Loc { pub text: Chars, pub line: int, pub subs: Seq<(int, int)> }
pub open spec fn subs_of(v: Seq<SubMatch>) -> Seq<(int, int)> { v.map_values(|s: SubMatch| (s.start_col as int, s.end_col as int)) }
pub open spec fn loc_of(m: MatchLocation) -> Loc { Loc { text: m.text@, line: m.line_num as int, subs: subs_of(m.submatches@) } }
pub open spec fn locs_of(v: Seq<MatchLocation>) -> Seq<Loc> { v.map_values(|m: MatchLocation| loc_of(m)) }
pub type PerFile = Map<int, Seq<Loc>>;
pub open spec fn per_file(m: Map<int, Vec<MatchLocation>>) -> PerFile { m.map_values(|v: Vec<MatchLocation>| locs_of(v@)) }
/// serde's rendering: an object with one entry per file, a list of {text, line_num, submatches: [{start_col, end_col}]}
pub uninterp spec fn per_file_js(m: PerFile) -> JV;
impl ToJson for MatchLocationsPerPath { open spec fn js(&self) -> JV { per_file_js(per_file(self@)) } }

// ------------------------------------------------------------------ the counters
pub ghost struct Msg { pub pattern: Chars, pub path: int, pub locs: Seq<Loc> }
pub ghost struct Ext {
    // a worker's view
    pub tickets: Map<int, Seq<int>>,    // what adding 1 to a counter returned, in order
    pub sent: Seq<Msg>,
    // the main thread's view
    pub got: Seq<Msg>, pub open: int, pub active: bool, pub closed: bool,
}
pub open spec fn may_join(e: Ext) -> bool { e.active ==> e.closed }
pub open spec fn same_but_ext(a: World, b: World) -> bool { a.out == b.out && a.fs == b.fs && a.cells == b.cells && a.jobs == b.jobs && a.joined == b.joined }
pub open spec fn only_counted(a: World, b: World) -> bool {
    a.out == b.out && a.fs == b.fs && a.jobs == b.jobs && a.joined == b.joined && b.ext@ == (Ext { tickets: b.ext@.tickets, ..a.ext@ })
}
/// AtomicUsize, shared by all workers: other threads may add in between, so what is returned is only known to grow
#[verifier::external_body]
pub struct Tally { x: u64 }
impl Tally {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(v: usize, w: &mut World) -> (r: Tally)
        ensures same_but_cells(*old(w), *final(w)), !old(w).cells@.dom().contains(r.id()),
            final(w).cells@ == old(w).cells@.insert(r.id(), v as int), v == 0 ==> started_at_zero(r.id()) { unimplemented!() }
    /// assumption: counters do not reach 2^64
    #[verifier::external_body]
    pub fn fetch_add(&self, v: usize, o: Ordering, w: &mut World) -> (r: usize)
        ensures only_counted(*old(w), *final(w)),
            final(w).cells@ == old(w).cells@.insert(self.id(), old(w).cells@[self.id()] + v),
            forall|i: int| 0 <= i < old(w).ext@.tickets[self.id()].len() ==> (#[trigger] old(w).ext@.tickets[self.id()][i]) < r,
            v == 1 ==> final(w).ext@.tickets == old(w).ext@.tickets.insert(self.id(), old(w).ext@.tickets[self.id()].push(r as int)),
            v != 1 ==> final(w).ext@.tickets == old(w).ext@.tickets { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, w: &mut World) -> (r: usize)
        ensures *final(w) == *old(w), old(w).joined@ ==> r == old(w).cells@[self.id()] { unimplemented!() }
}

// ------------------------------------------------------------------ what is listed
pub open spec fn admits(lim: Option<usize>, ticket: int) -> bool { lim is Some ==> ticket < lim->Some_0 }
/// of the matches of a line those whose ticket is below the limit
pub open spec fn kept(hits: Seq<(int, int)>, tk: Seq<int>, lim: Option<usize>) -> Seq<(int, int)>
    decreases hits.len()
{
    if hits.len() == 0 { Seq::empty() } else {
        let k = kept(hits.drop_last(), tk, lim);
        if admits(lim, tk[hits.len() - 1]) { k.push(hits.last()) } else { k }
    }
}
pub open spec fn line_locs(t: Chars, line: int, hits: Seq<(int, int)>, tk: Seq<int>, lim: Option<usize>) -> Seq<Loc> {
    let s = kept(hits, tk, lim);
    if s.len() == 0 { Seq::empty() } else { seq![Loc { text: t, line, subs: s }] }
}
pub open spec fn doc_hits(d: Data, re: int) -> Seq<(int, int)> { if d.text is Some { found(re, d.text->Some_0@) } else { Seq::empty() } }
pub open spec fn doc_locs(d: Data, line: int, re: int, tk: Seq<int>, lim: Option<usize>) -> Seq<Loc> {
    if d.text is Some { line_locs(d.text->Some_0@, line, doc_hits(d, re), tk, lim) } else { Seq::empty() }
}
/// the number of matches in documents
pub open spec fn docs_hits(docs: Seq<Data>, re: int) -> int
    decreases docs.len()
{ if docs.len() == 0 { 0 } else { docs_hits(docs.drop_last(), re) + doc_hits(docs.last(), re).len() } }
/// the locations of the matches in documents whose tickets (numbered over all of them) are below the limit; lines count from 1
pub open spec fn docs_locs(docs: Seq<Data>, re: int, tk: Seq<int>, lim: Option<usize>) -> Seq<Loc>
    decreases docs.len()
{
    if docs.len() == 0 { Seq::empty() } else {
        let b = docs_hits(docs.drop_last(), re);
        docs_locs(docs.drop_last(), re, tk, lim) + doc_locs(docs.last(), docs.len() as int, re, tk.subrange(b, b + doc_hits(docs.last(), re).len()), lim)
    }
}
pub open spec fn no_tickets(n: int) -> Seq<int> { Seq::new(n as nat, |i: int| 0int) }
/// every match of the documents, listed
pub open spec fn all_locs(docs: Seq<Data>, re: int) -> Seq<Loc> { docs_locs(docs, re, no_tickets(docs_hits(docs, re)), None) }
/// how many matches a list of locations lists
pub open spec fn listed(v: Seq<Loc>) -> int
    decreases v.len()
{ if v.len() == 0 { 0 } else { listed(v.drop_last()) + v.last().subs.len() } }
pub open spec fn below(tk: Seq<int>, lim: Option<usize>) -> int
    decreases tk.len()
{ if tk.len() == 0 { 0 } else { below(tk.drop_last(), lim) + (if admits(lim, tk.last()) { 1int } else { 0 }) } }

proof fn lemma_docs_hits_pos(docs: Seq<Data>, re: int)
    ensures docs_hits(docs, re) >= 0,
    decreases docs.len(),
{ if docs.len() > 0 { lemma_docs_hits_pos(docs.drop_last(), re); } }
proof fn lemma_listed_add(a: Seq<Loc>, b: Seq<Loc>)
    ensures listed(a + b) == listed(a) + listed(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        lemma_listed_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
proof fn lemma_below_add(a: Seq<int>, b: Seq<int>, lim: Option<usize>)
    ensures below(a + b, lim) == below(a, lim) + below(b, lim),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        lemma_below_add(a, b.drop_last(), lim);
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
proof fn lemma_kept_len(hits: Seq<(int, int)>, tk: Seq<int>, lim: Option<usize>)
    requires tk.len() == hits.len(),
    ensures kept(hits, tk, lim).len() == below(tk, lim), lim is None ==> kept(hits, tk, lim) == hits,
    decreases hits.len(),
{
    if hits.len() > 0 {
        lemma_kept_len(hits.drop_last(), tk.drop_last(), lim);
        lemma_kept_cut(hits.drop_last(), tk, tk.drop_last(), lim);
        if lim is None { assert(hits =~= hits.drop_last().push(hits.last())); }
    }
}
proof fn lemma_kept_cut(hits: Seq<(int, int)>, a: Seq<int>, b: Seq<int>, lim: Option<usize>)
    requires a.len() >= hits.len(), b.len() >= hits.len(), forall|i: int| 0 <= i < hits.len() ==> a[i] == b[i],
    ensures kept(hits, a, lim) == kept(hits, b, lim),
    decreases hits.len(),
{ if hits.len() > 0 { lemma_kept_cut(hits.drop_last(), a, b, lim); } }
/// the tickets a job drew decide how many matches it lists; without limit it lists all
proof fn lemma_docs_locs(docs: Seq<Data>, re: int, tk: Seq<int>, lim: Option<usize>)
    requires tk.len() == docs_hits(docs, re),
    ensures listed(docs_locs(docs, re, tk, lim)) == below(tk, lim), lim is None ==> docs_locs(docs, re, tk, lim) == all_locs(docs, re),
    decreases docs.len(),
{
    lemma_docs_hits_pos(docs, re);
    if docs.len() > 0 {
        let p = docs.drop_last();
        lemma_docs_hits_pos(p, re);
        let b = docs_hits(p, re);
        let h = doc_hits(docs.last(), re);
        let n = docs.len() as int;
        let zs = no_tickets(docs_hits(docs, re));
        lemma_docs_locs(p, re, tk.take(b), lim);
        lemma_locs_cut(p, re, tk, tk.take(b), lim);
        lemma_locs_cut(p, re, zs, no_tickets(b), None);
        lemma_kept_len(h, tk.subrange(b, b + h.len()), lim);
        lemma_kept_len(h, zs.subrange(b, b + h.len()), None);
        let dl = doc_locs(docs.last(), n, re, tk.subrange(b, b + h.len()), lim);
        lemma_listed_add(docs_locs(p, re, tk, lim), dl);
        lemma_below_add(tk.take(b), tk.subrange(b, b + h.len()), lim);
        assert(tk =~= tk.take(b) + tk.subrange(b, b + h.len()));
        assert(listed(dl) == below(tk.subrange(b, b + h.len()), lim)) by {
            if dl.len() == 1 { assert(dl.drop_last() =~= Seq::<Loc>::empty()); assert(listed(dl.drop_last()) == 0); }
        }
    } else { assert(tk =~= Seq::<int>::empty()); }
}
proof fn lemma_locs_cut(docs: Seq<Data>, re: int, a: Seq<int>, b: Seq<int>, lim: Option<usize>)
    requires a.len() >= docs_hits(docs, re), b.len() >= docs_hits(docs, re), forall|i: int| 0 <= i < docs_hits(docs, re) ==> a[i] == b[i],
    ensures docs_locs(docs, re, a, lim) == docs_locs(docs, re, b, lim),
    decreases docs.len(),
{
    if docs.len() > 0 {
        lemma_docs_hits_pos(docs.drop_last(), re);
        lemma_locs_cut(docs.drop_last(), re, a, b, lim);
        let n = docs_hits(docs.drop_last(), re);
        let h = doc_hits(docs.last(), re).len();
        assert(a.subrange(n, n + h) =~= b.subrange(n, n + h));
    }
}

// ------------------------------------------------------------------ a job
pub ghost struct JobSpec {
    pub path: int, pub cpath: int, pub limit: Option<usize>, pub cells: Map<Chars, int>, pub res: Map<Chars, int>, pub collect: bool, pub lim: Option<usize>,
}
pub open spec fn one_to_one(m: Map<Chars, int>) -> bool {
    forall|a: Chars, b: Chars| m.dom().contains(a) && m.dom().contains(b) && a != b ==> #[trigger] m[a] != #[trigger] m[b]
}
pub open spec fn is_cell(m: Map<Chars, int>, c: int) -> bool { exists|k: Chars| m.dom().contains(k) && #[trigger] m[k] == c }
pub open spec fn key_of(m: Map<Chars, int>, c: int) -> Chars { choose|k: Chars| m.dom().contains(k) && #[trigger] m[k] == c }
/// what a job adds to a counter: the matches of its pattern in every document
pub open spec fn job_adds(j: JobSpec, docs: Seq<Data>, c: int) -> int { if is_cell(j.cells, c) { docs_hits(docs, j.res[key_of(j.cells, c)]) } else { 0 } }
pub open spec fn job_effect(j: JobSpec, v: int, c: int) -> int { v + job_adds(j, documents(j.path, j.limit), c) }
proof fn lemma_key_of(m: Map<Chars, int>, k: Chars)
    requires one_to_one(m), m.dom().contains(k),
    ensures is_cell(m, m[k]), key_of(m, m[k]) == k,
{ assert(is_cell(m, m[k])); let q = key_of(m, m[k]); if q != k { assert(m[q] != m[k]); } }
/// what a job did: the tickets it drew, what it sent
pub ghost struct JobOut { pub tickets: Map<int, Seq<int>>, pub sent: Seq<Msg> }
pub open spec fn job_locs(j: JobSpec, o: JobOut, k: Chars) -> Seq<Loc> { docs_locs(documents(j.path, j.limit), j.res[k], o.tickets[j.cells[k]], j.lim) }
/// one message per pattern at most, with all the pattern's locations in the job's file; only empty ones may be missing
pub open spec fn sent_right(locs: Map<Chars, Seq<Loc>>, path: int, sent: Seq<Msg>) -> bool {
    &&& forall|i: int| 0 <= i < sent.len() ==> locs.dom().contains((#[trigger] sent[i]).pattern) && sent[i].path == path && sent[i].locs == locs[sent[i].pattern]
    &&& forall|i: int, j: int| 0 <= i < j < sent.len() ==> (#[trigger] sent[i]).pattern != (#[trigger] sent[j]).pattern
    &&& forall|k: Chars| locs.dom().contains(k) && (#[trigger] locs[k]).len() > 0 ==> exists|i: int| 0 <= i < sent.len() && (#[trigger] sent[i]).pattern == k
}
pub open spec fn job_out(j: JobSpec, o: JobOut) -> bool {
    &&& forall|k: Chars| #[trigger] j.cells.dom().contains(k) ==> o.tickets[j.cells[k]].len() == docs_hits(documents(j.path, j.limit), j.res[k])
    &&& sent_right(Map::new(j.cells.dom(), |k: Chars| job_locs(j, o, k)), j.cpath, o.sent)
}
pub open spec fn all_sent(outs: Seq<JobOut>) -> Seq<Msg>
    decreases outs.len()
{ if outs.len() == 0 { Seq::empty() } else { all_sent(outs.drop_last()) + outs.last().sent } }
pub open spec fn all_tickets(outs: Seq<JobOut>, c: int) -> Seq<int>
    decreases outs.len()
{ if outs.len() == 0 { Seq::empty() } else { all_tickets(outs.drop_last(), c) + outs.last().tickets[c] } }
/// 0, 1, 2, ... in some order
pub open spec fn numbers(s: Seq<int>) -> bool { s.no_duplicates() && forall|x: int| #[trigger] s.contains(x) <==> 0 <= x < s.len() }
/// join returned Ok: what was received is what was sent; adding 1 to a counter starting at 0 handed out 0, 1, 2, ... once each
pub open spec fn ran_with(jobs: Seq<JobSpec>, outs: Seq<JobOut>, e: Ext) -> bool {
    &&& outs.len() == jobs.len()
    &&& forall|i: int| 0 <= i < jobs.len() && (#[trigger] jobs[i]).collect ==> job_out(jobs[i], outs[i])
    &&& e.closed ==> e.got.to_multiset() == all_sent(outs).to_multiset()
    &&& forall|c: int| #[trigger] started_at_zero(c) ==> numbers(all_tickets(outs, c))
}
pub uninterp spec fn started_at_zero(c: int) -> bool;
pub open spec fn ext_ran(jobs: Seq<JobSpec>, a: Ext, b: Ext) -> bool { b == a && exists|outs: Seq<JobOut>| #[trigger] ran_with(jobs, outs, a) }

// ------------------------------------------------------------------ a worker
pub struct Opt {
    pub path: Vec<PathBuf>, pub pattern: Vec<Text>, pub with_locations: bool, pub locations_limit: Option<usize>, pub limit: Option<usize>,
    pub file_limit: Option<usize>, pub workers: Option<usize>, pub out: Option<PathBuf>, pub quiet: bool, pub json: bool, pub force: bool,
}
impl Clone for Opt {
    #[verifier::external_body]
    fn clone(&self) -> (r: Opt) ensures r == *self { unimplemented!() }
}
pub type Counts = HashMap<Text, Arc<Tally>, RandomState>;
pub type Patterns = HashMap<Text, Regex, RandomState>;
pub type Local = HashMap<Text, Vec<MatchLocation>, RandomState>;
pub open spec fn cells_of(m: Map<Chars, Arc<Tally>>) -> Map<Chars, int> { m.map_values(|t: Arc<Tally>| t.id()) }
pub open spec fn res_of(m: Map<Chars, Regex>) -> Map<Chars, int> { m.map_values(|t: Regex| t.id()) }
pub open spec fn local_of(m: Map<Chars, Vec<MatchLocation>>) -> Map<Chars, Seq<Loc>> { m.map_values(|v: Vec<MatchLocation>| locs_of(v@)) }
/// pattern k has been applied to the document: its counter grew by the matches, one ticket each, and the admitted ones are listed
pub open spec fn applied(a: World, b: World, la: Option<Local>, lb: Option<Local>, k: Chars, c: int, re: int, d: Data, line: int, lim: Option<usize>) -> bool {
    let h = doc_hits(d, re);
    let n = a.ext@.tickets[c].len() as int;
    &&& b.cells@[c] == a.cells@[c] + h.len()
    &&& la is Some ==> {
        &&& b.ext@.tickets[c].len() == n + h.len()
        &&& b.ext@.tickets[c].take(n) == a.ext@.tickets[c]
        &&& local_of(lb->Some_0@)[k] == local_of(la->Some_0@)[k] + doc_locs(d, line, re, b.ext@.tickets[c].skip(n), lim)
    }
}
pub open spec fn untouched(a: World, b: World, la: Option<Local>, lb: Option<Local>, k: Chars, c: int) -> bool {
    &&& b.cells@[c] == a.cells@[c] && b.ext@.tickets[c] == a.ext@.tickets[c]
    &&& la is Some ==> lb->Some_0@[k] == la->Some_0@[k]
}
/// the state before entry `pos`
pub open spec fn going(a: World, b: World, la: Option<Local>, lb: Option<Local>, all: Seq<(Chars, Regex)>, cells: Map<Chars, int>, pos: int, d: Data, line: int, lim: Option<usize>) -> bool {
    &&& only_counted(a, World { cells: a.cells, ..b })
    &&& b.cells@.dom() == a.cells@.dom()
    &&& (la is Some <==> lb is Some)
    &&& la is Some ==> lb->Some_0@.dom() == la->Some_0@.dom()
    &&& forall|i: int| 0 <= i < pos ==> applied(a, b, la, lb, (#[trigger] all[i]).0, cells[all[i].0], all[i].1.id(), d, line, lim)
    &&& forall|i: int| pos <= i < all.len() ==> untouched(a, b, la, lb, (#[trigger] all[i]).0, cells[all[i].0])
    &&& forall|c: int| !is_cell(cells, c) ==> #[trigger] b.cells@[c] == a.cells@[c]
}
pub open spec fn fits(counts: Map<Chars, int>, patterns: Map<Chars, int>, w: World) -> bool {
    &&& counts.dom() == patterns.dom()
    &&& one_to_one(counts)
    &&& forall|k: Chars| #[trigger] counts.dom().contains(k) ==> w.cells@.dom().contains(counts[k])
}
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
#[verifier::spinoff_prover]
fn search_doc(data: Data, line_num: usize, local_match_locations: &mut Option<Local>, patterns: Patterns, counts: Counts, opt: Opt, w: &mut World) -> (r: Result<()>)
    requires
        fits(cells_of(counts@), res_of(patterns@), *old(w)),
        (*old(local_match_locations)) is Some ==> (*old(local_match_locations))->Some_0@.dom() == counts@.dom(),
    ensures
        only_counted(*old(w), World { cells: old(w).cells, ..*final(w) }), final(w).cells@.dom() == old(w).cells@.dom(),
        (*old(local_match_locations)) is Some <==> (*final(local_match_locations)) is Some,
        (*old(local_match_locations)) is Some ==> (*final(local_match_locations))->Some_0@.dom() == counts@.dom(),
        r is Ok ==> {
            &&& forall|k: Chars| #[trigger] counts@.dom().contains(k) ==> applied(*old(w), *final(w), *old(local_match_locations), *final(local_match_locations),
                    k, counts@[k].id(), patterns@[k].id(), data, line_num as int, opt.locations_limit)
            &&& forall|c: int| !is_cell(cells_of(counts@), c) ==> #[trigger] final(w).cells@[c] == old(w).cells@[c]
        },
{
    let ghost d = data;
    let ghost w0 = *w;
    let ghost l0 = *local_match_locations;
    let ghost lim = opt.locations_limit;
    let ghost cells = cells_of(counts@);
    let ghost mut all: Seq<(Chars, Regex)> = Seq::empty();
    let ghost mut hits: Seq<(int, int)> = Seq::empty();
    let ghost mut w1 = *w;
    let ghost mut l1 = *local_match_locations;
    let ghost mut c = 0int;
    let ghost mut n = 0int;
/*@body
@file src/cmd/search.rs
@item main@execute_with_callback#0.1
@params data _ line_num local_match_locations
@locals text pattern regex collect_matches submatches m count locations_limit locations match_location
@known patterns counts opt
@world fetch_add
@pre 0
    proof { all = __it0.all(); }
@top 0
    proof {
        w1 = *w;
        l1 = *local_match_locations;
        c = cells[all[__it0.pos() - 1].0];
        n = w.ext@.tickets[c].len() as int;
    }
@bottom 0
    proof {
        let p = __it0.pos() - 1;
        let key = all[p].0;
        let lb = *local_match_locations;
        assert(cells.dom().contains(key));
        assert(applied(w0, *w, l0, lb, key, c, all[p].1.id(), d, line_num as int, lim)) by {
            if l0 is Some {
                let tk = w.ext@.tickets[c];
                assert(untouched(w0, w1, l0, l1, key, c));
                assert(tk.skip(n).len() == hits.len());
                let dl = doc_locs(d, line_num as int, all[p].1.id(), tk.skip(n), lim);
                assert(local_of(lb->Some_0@)[key] =~= local_of(l0->Some_0@)[key] + dl);  // [C15]
            }
        }
        assert forall|i: int| 0 <= i < all.len() && i != p implies #[trigger] cells[all[i].0] != c && all[i].0 != key by {
            assert(cells.dom().contains(all[i].0));
            if i < p { assert(all[i].0 != all[p].0); } else { assert(all[p].0 != all[i].0); }
        }
        assert forall|i: int| 0 <= i < p implies applied(w0, *w, l0, lb, (#[trigger] all[i]).0, cells[all[i].0], all[i].1.id(), d, line_num as int, lim) by {
            assert(applied(w0, w1, l0, l1, all[i].0, cells[all[i].0], all[i].1.id(), d, line_num as int, lim));
            assert(cells[all[i].0] != c);
        }
        assert forall|i: int| p < i < all.len() implies untouched(w0, *w, l0, lb, (#[trigger] all[i]).0, cells[all[i].0]) by {
            assert(untouched(w0, w1, l0, l1, all[i].0, cells[all[i].0]));
            assert(cells[all[i].0] != c);
        }
        assert(is_cell(cells, c));
        if l0 is Some { assert(lb->Some_0@.dom() =~= l0->Some_0@.dom()); }
    }
@loop 0 for
    invariant
        __it0.all() == all, 0 <= __it0.pos() <= all.len(), lists(all, patterns@),
        going(w0, *w, l0, *local_match_locations, all, cells, __it0.pos(), d, line_num as int, lim),  // [C14 C15]
    ensures
        __it0.pos() == all.len(),
    decreases all.len() - __it0.pos(),
@pre 1
    proof { hits = __it1.all(); }
@top 1
    let ghost tk1 = w.ext@.tickets[c];
    let ghost s1 = submatches;
@bottom 1
    proof {
        let i = __it1.pos() - 1;
        let tk = w.ext@.tickets[c];
        assert(hits.take(i + 1).drop_last() =~= hits.take(i));
        if l1 is Some {
            assert(tk =~= tk1.push(count as int));
            assert(tk.take(n) =~= w1.ext@.tickets[c]);
            lemma_kept_cut(hits.take(i), tk1.skip(n), tk.skip(n), lim);
            if submatches->Some_0@.len() > s1->Some_0@.len() {
                assert(subs_of(submatches->Some_0@) =~= subs_of(s1->Some_0@).push(hits[i]));
            }
            assert(subs_of(submatches->Some_0@) == kept(hits.take(i + 1), tk.skip(n), lim));  // [C15]
        }
    }
@loop 1 for
    invariant
        __it1.all() == hits, 0 <= __it1.pos() <= hits.len(),
        only_counted(w1, World { cells: w1.cells, ..*w }), *local_match_locations == l1,
        w.cells@.dom() == w1.cells@.dom(), w.cells@[c] == w1.cells@[c] + __it1.pos(),  // [C14]
        forall|x: int| x != c ==> #[trigger] w.cells@[x] == w1.cells@[x],
        forall|x: int| x != c ==> #[trigger] w.ext@.tickets[x] == w1.ext@.tickets[x],
        submatches is Some <==> l1 is Some,
        l1 is Some ==> {
            &&& w.ext@.tickets[c].len() == n + __it1.pos()
            &&& w.ext@.tickets[c].take(n) == w1.ext@.tickets[c]
            &&& subs_of(submatches->Some_0@) == kept(hits.take(__it1.pos()), w.ext@.tickets[c].skip(n), lim)  // [C15]
            &&& collect_matches || lim is Some && exists|i: int| n <= i < n + __it1.pos() && #[trigger] w.ext@.tickets[c][i] >= lim->Some_0
        },
        l1 is None ==> !collect_matches,
    ensures
        __it1.pos() == hits.len(),
    decreases hits.len() - __it1.pos(),
@after 1
    proof { assert(hits.take(hits.len() as int) =~= hits); }
@end
    proof {
        let lb = *local_match_locations;
        assert forall|k: Chars| #[trigger] counts@.dom().contains(k) implies applied(w0, *w, l0, lb, k, counts@[k].id(), patterns@[k].id(), d, line_num as int, lim) by {
            assert(cells.dom().contains(k));
            if d.text is Some {
                assert(patterns@.dom().contains(k));
                let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0 == k;
                assert(applied(w0, *w, l0, lb, all[i].0, cells[all[i].0], all[i].1.id(), d, line_num as int, lim));
            } else if l0 is Some {
                assert(w.ext@.tickets[counts@[k].id()].take(w0.ext@.tickets[counts@[k].id()].len() as int) =~= w0.ext@.tickets[counts@[k].id()]);
                assert(local_of(lb->Some_0@)[k] =~= local_of(l0->Some_0@)[k] + Seq::<Loc>::empty());
            }
        }
    }
@*/
}

// ------------------------------------------------------------------ the channel
#[verifier::external_body]
pub struct Sender { x: u64 }
#[verifier::external_body]
pub struct Receiver { x: u64 }
pub open spec fn msg_of(x: (Text, PathBuf, Vec<MatchLocation>)) -> Msg { Msg { pattern: x.0@, path: x.1.id(), locs: locs_of(x.2@) } }
#[verifier::external_body]
pub fn sync_channel(n: usize, w: &mut World) -> (r: (Sender, Receiver))
    requires !old(w).ext@.active,
    ensures same_but_ext(*old(w), *final(w)), final(w).ext@ == (Ext { open: 1, active: true, closed: false, got: Seq::empty(), ..old(w).ext@ }) { unimplemented!() }
impl Sender {
    /// waits for room; an error means the collecting thread is gone
    #[verifier::external_body]
    pub fn send(&self, x: (Text, PathBuf, Vec<MatchLocation>), w: &mut World) -> (r: Result<()>)
        ensures same_but_ext(*old(w), *final(w)),
            r is Ok ==> final(w).ext@ == (Ext { sent: old(w).ext@.sent.push(msg_of(x)), ..old(w).ext@ }),
            r is Err ==> final(w).ext == old(w).ext { unimplemented!() }
    /// may find no room
    #[verifier::external_body]
    pub fn try_send(&self, x: (Text, PathBuf, Vec<MatchLocation>), w: &mut World) -> (r: Result<()>)
        ensures same_but_ext(*old(w), *final(w)),
            r is Ok ==> final(w).ext@ == (Ext { sent: old(w).ext@.sent.push(msg_of(x)), ..old(w).ext@ }),
            r is Err ==> final(w).ext == old(w).ext { unimplemented!() }
}
pub open spec fn ends(t: Option<Sender>) -> int { if t is Some { 1 } else { 0 } }
pub trait CloneTx: Sized { fn clone(&self, w: &mut World) -> (r: Self); }
impl CloneTx for Option<Sender> {
    #[verifier::external_body]
    fn clone(&self, w: &mut World) -> (r: Option<Sender>)
        ensures same_but_ext(*old(w), *final(w)), (r is Some <==> (*self) is Some), final(w).ext@ == (Ext { open: old(w).ext@.open + ends(*self), ..old(w).ext@ }) { unimplemented!() }
}
#[verifier::external_body]
pub fn drop(tx: Option<Sender>, w: &mut World)
    ensures same_but_ext(*old(w), *final(w)), final(w).ext@ == (Ext { open: old(w).ext@.open - ends(tx), ..old(w).ext@ }) { unimplemented!() }
/// how many messages are still to come: finitely many, as every job ends (unit `exec`)
pub uninterp spec fn to_come(got: Seq<Msg>) -> nat;
pub open spec fn received(a: Ext, b: Ext, r: Result<(Text, PathBuf, Vec<MatchLocation>)>) -> bool {
    r is Ok && to_come(b.got) < to_come(a.got) && b.got.drop_last() == a.got && b == (Ext { got: a.got.push(msg_of(r->Ok_0)), ..a })
}
impl Receiver {
    /// waits for a message; an error means that every sending end is gone and nothing is left.
    /// While the receiving thread holds a sending end itself it could wait forever.
    #[verifier::external_body]
    pub fn recv(&self, w: &mut World) -> (r: Result<(Text, PathBuf, Vec<MatchLocation>)>)
        requires old(w).ext@.open == 0, // [C21]
        ensures same_but_ext(*old(w), *final(w)),
            r is Ok ==> received(old(w).ext@, final(w).ext@, r),
            // what a worker sends is one of the patterns searched for
            r is Ok ==> exists|i: int| 0 <= i < old(w).jobs@.len() && (#[trigger] old(w).jobs@[i]).cells.dom().contains(r->Ok_0.0@),
            r is Err ==> final(w).ext@ == (Ext { closed: true, ..old(w).ext@ }) { unimplemented!() }
    /// an error may also mean that nothing is there yet
    #[verifier::external_body]
    pub fn try_recv(&self, w: &mut World) -> (r: Result<(Text, PathBuf, Vec<MatchLocation>)>)
        ensures same_but_ext(*old(w), *final(w)),
            r is Ok ==> received(old(w).ext@, final(w).ext@, r),
            r is Ok ==> exists|i: int| 0 <= i < old(w).jobs@.len() && (#[trigger] old(w).jobs@[i]).cells.dom().contains(r->Ok_0.0@),
            r is Err ==> final(w).ext == old(w).ext { unimplemented!() }
}
fn send_local(local_match_locations: Option<Local>, tx: Option<Sender>, path: PathBuf, w: &mut World) -> (r: Result<()>)
    requires old(w).ext@.sent.len() == 0, local_match_locations is Some ==> tx is Some,
    ensures
        final(w).ext@ == (Ext { sent: final(w).ext@.sent, ..old(w).ext@ }), same_but_ext(*old(w), *final(w)),
        r is Ok && local_match_locations is Some ==> sent_right(local_of(local_match_locations->Some_0@), path.id(), final(w).ext@.sent),  // [C15 C21]
{
    let ghost tx0 = tx;
    let ghost mut all: Seq<(Chars, Vec<MatchLocation>)> = Seq::empty();
    let ghost mut m: Map<Chars, Seq<Loc>> = Map::empty();
    let ghost some = local_match_locations is Some;
    proof { if some { m = local_of(local_match_locations->Some_0@); } }
/*@body
@file src/cmd/search.rs
@item main@execute_with_callback#0.3
@params local_match_locations
@locals tx pattern matches
@known path tx
@world tx.send tx.try_send
@pre 0
    proof { all = __it0.all(); }
@top 0
    let ghost s1 = w.ext@.sent;
    let ghost x = Msg { pattern: pattern@, path: path.id(), locs: locs_of(matches@) };
@bottom 0
    proof {
        let s2 = w.ext@.sent;
        let p = __it0.pos() - 1;
        assert(s2 == s1 || s2 == s1.push(x));
        assert(m.dom().contains(all[p].0));
        assert forall|i: int| 0 <= i < p implies (#[trigger] all[i]).0 != all[p].0 by { }
        if s2 == s1.push(x) {
            assert(x.locs == m[x.pattern]);
            assert forall|i: int, j: int| 0 <= i < j < s2.len() implies (#[trigger] s2[i]).pattern != (#[trigger] s2[j]).pattern by {
                if j == s1.len() { assert(among(all, p, s1[i].pattern)); let q = choose|q: int| 0 <= q < p && (#[trigger] all[q]).0 == s1[i].pattern; assert(all[q].0 != all[p].0); }
            }
            assert forall|i: int| 0 <= i < s2.len() implies #[trigger] among(all, p + 1, s2[i].pattern) by {
                if i < s1.len() { assert(among(all, p, s1[i].pattern)); let q = choose|q: int| 0 <= q < p && (#[trigger] all[q]).0 == s1[i].pattern; }
                else { assert(all[p].0 == s2[i].pattern); }
            }
        }
        assert forall|i: int| 0 <= i < p + 1 && locs_of((#[trigger] all[i]).1@).len() > 0 implies for_pattern(s2, all[i].0) by {
            if i < p { assert(for_pattern(s1, all[i].0)); let j = choose|j: int| 0 <= j < s1.len() && (#[trigger] s1[j]).pattern == all[i].0; assert(s2[j].pattern == all[i].0); }
            else { assert(s2[s1.len() as int].pattern == all[p].0); }  // [C15 C21]
        }
    }
@loop 0 for
    invariant
        __it0.all() == all, 0 <= __it0.pos() <= all.len(), some,
        forall|i: int| 0 <= i < all.len() ==> m.dom().contains((#[trigger] all[i]).0) && m[all[i].0] == locs_of(all[i].1@),
        forall|i: int, j: int| 0 <= i < j < all.len() ==> (#[trigger] all[i]).0 != (#[trigger] all[j]).0,
        forall|k: Chars| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0 == k,
        w.ext@ == (Ext { sent: w.ext@.sent, ..old(w).ext@ }), same_but_ext(*old(w), *w),
        forall|i: int| 0 <= i < w.ext@.sent.len() ==> #[trigger] among(all, __it0.pos(), w.ext@.sent[i].pattern),
        forall|i: int| 0 <= i < w.ext@.sent.len() ==> m.dom().contains((#[trigger] w.ext@.sent[i]).pattern)
            && w.ext@.sent[i].path == path.id() && w.ext@.sent[i].locs == m[w.ext@.sent[i].pattern],
        forall|i: int, j: int| 0 <= i < j < w.ext@.sent.len() ==> (#[trigger] w.ext@.sent[i]).pattern != (#[trigger] w.ext@.sent[j]).pattern,
        forall|i: int| 0 <= i < __it0.pos() && locs_of((#[trigger] all[i]).1@).len() > 0 ==> for_pattern(w.ext@.sent, all[i].0),
    ensures
        __it0.pos() == all.len(),
    decreases all.len() - __it0.pos(),
@end
    proof {
        if some {
            assert forall|k: Chars| m.dom().contains(k) && (#[trigger] m[k]).len() > 0 implies exists|i: int| 0 <= i < w.ext@.sent.len() && (#[trigger] w.ext@.sent[i]).pattern == k by {
                let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0 == k;
                assert(for_pattern(w.ext@.sent, all[i].0));
            }
        }
    }
@*/
}
pub open spec fn among(all: Seq<(Chars, Vec<MatchLocation>)>, p: int, k: Chars) -> bool { exists|q: int| 0 <= q < p && (#[trigger] all[q]).0 == k }
pub open spec fn for_pattern(s: Seq<Msg>, k: Chars) -> bool { exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).pattern == k }
proof fn lemma_push_set(s: Seq<Chars>, x: Chars)
    ensures s.push(x).to_set() == s.to_set().insert(x),
{
    assert forall|y: Chars| #[trigger] s.push(x).to_set().contains(y) <==> s.to_set().insert(x).contains(y) by {
        if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
        if y == x { assert(s.push(x)[s.len() as int] == y); }
        if s.push(x).contains(y) && y != x { let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == y; assert(s[i] == y); }
    }
    assert(s.push(x).to_set() =~= s.to_set().insert(x));
}
pub open spec fn texts(v: Seq<Text>) -> Set<Chars> { v.map_values(|t: Text| t@).to_set() }
fn new_local(opt: Opt) -> (r: Result<Option<Local>>)
    ensures r is Ok ==> (r->Ok_0 is Some <==> opt.with_locations)
        && (opt.with_locations ==> local_of(r->Ok_0->Some_0@) == Map::new(texts(opt.pattern@), |k: Chars| Seq::<Loc>::empty())),
{
    let ghost ts = opt.pattern@.map_values(|t: Text| t@);
/*@body
@file src/cmd/search.rs
@item main@execute_with_callback#0.2
@params
@locals local_match_locations pattern
@known opt
@sub? HashMap<String, Vec<MatchLocation>, RandomState> =>> Local
@pre 0
    proof { assert(local_of(local_match_locations->Some_0@) =~= Map::new(ts.take(0).to_set(), |k: Chars| Seq::<Loc>::empty())); }
@top 0
    let ghost b = local_of(local_match_locations->Some_0@);
@bottom 0
    proof {
        let n = __it0.pos();
        assert(ts.take(n) =~= ts.take(n - 1).push(pattern@));
        lemma_push_set(ts.take(n - 1), pattern@);
        let m = local_of(local_match_locations->Some_0@);
        assert(m[pattern@] =~= Seq::<Loc>::empty());
        assert(m =~= b.insert(pattern@, Seq::<Loc>::empty()));
        assert(m =~= Map::new(ts.take(n).to_set(), |k: Chars| Seq::<Loc>::empty()));
    }
@loop 0 for
    invariant
        __it0.v == &opt.pattern, 0 <= __it0.i <= __it0.v@.len(), ts == opt.pattern@.map_values(|t: Text| t@),
        local_match_locations is Some,
        local_of(local_match_locations->Some_0@) == Map::new(ts.take(__it0.pos()).to_set(), |k: Chars| Seq::<Loc>::empty()),
    ensures
        __it0.pos() == ts.len(),
    decreases __it0.v@.len() - __it0.pos(),
@after 0
    proof { assert(ts.take(ts.len() as int) =~= ts); }
@*/
}

pub struct SearchJob { pub counts: Counts, pub patterns: Patterns, pub lim: Option<usize> }
pub struct NewJob { pub with: bool, pub patterns: Vec<Text> }
pub struct SendJob { pub tx: Option<Sender>, pub path: PathBuf }
impl Task3<NewJob, SendJob> for SearchJob {
    open spec fn ready3(&self, f: NewJob, c: SendJob, path: int, limit: Option<usize>, e: Ext) -> bool {
        &&& self.counts@.dom() == self.patterns@.dom() && one_to_one(cells_of(self.counts@))
        &&& f.with ==> texts(f.patterns@) == self.counts@.dom() && c.tx is Some
    }
    open spec fn repeatable(&self) -> bool { false }
    open spec fn spec3(&self, f: NewJob, c: SendJob, path: int, limit: Option<usize>) -> JobSpec {
        JobSpec { path, cpath: c.path.id(), limit, cells: cells_of(self.counts@), res: res_of(self.patterns@), collect: f.with, lim: self.lim }
    }
    open spec fn handed(&self, f: NewJob, c: SendJob, a: Ext, b: Ext) -> bool { b == (Ext { open: a.open - ends(c.tx), ..a }) }
}
/// the documents of a file, one after the other
#[verifier::external_body]
pub struct Docs { x: u64 }
impl Docs {
    pub uninterp spec fn all(&self) -> Seq<Data>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(Data, usize)>)
        ensures final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> r is Some && r->Some_0.0 == old(self).all()[old(self).pos()] && final(self).pos() == old(self).pos() + 1
                && r->Some_0.1 == old(self).pos() + 1,
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos() { unimplemented!() }
}
pub open spec fn job_spec(j: SearchJob, f: NewJob, c: SendJob, path: int, limit: Option<usize>) -> JobSpec { j.spec3(f, c, path, limit) }
/// what the executor does with the three closures (unit `exec`: context, every document in order with its line number, callback)
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
#[verifier::spinoff_prover]
fn one_job(mut docs: Docs, path: Ghost<int>, limit: Ghost<Option<usize>>, patterns: Patterns, counts: Counts, opt: Opt, opt2: Opt, tx: Option<Sender>, cpath: PathBuf,
           j: Ghost<JobSpec>, w: &mut World) -> (r: Result<()>)
    requires
        docs.all() == documents(path@, limit@), docs.pos() == 0, fits(cells_of(counts@), res_of(patterns@), *old(w)), old(w).ext@.sent.len() == 0,
        forall|k: Chars| #[trigger] counts@.dom().contains(k) ==> old(w).ext@.tickets[counts@[k].id()].len() == 0,
        opt2.with_locations ==> texts(opt2.pattern@) == counts@.dom() && tx is Some,
        j@ == (JobSpec { path: path@, cpath: cpath.id(), limit: limit@, cells: cells_of(counts@), res: res_of(patterns@), collect: opt2.with_locations, lim: opt.locations_limit }),
    ensures
        r is Ok ==> {
            &&& forall|c: int| #[trigger] old(w).cells@.dom().contains(c) ==> final(w).cells@[c] == job_effect(j@, old(w).cells@[c], c)
            &&& j@.collect ==> exists|o: JobOut| o.tickets == final(w).ext@.tickets && o.sent == final(w).ext@.sent && #[trigger] job_out(j@, o)
        },
{
    let ghost lim = opt.locations_limit;
    let ghost cells = cells_of(counts@);
    let ghost res = res_of(patterns@);
    let ghost with = opt2.with_locations;
    let ghost w0 = *w;
    let ghost all = docs.all();
    let mut local = new_local(opt2)?;
    proof {
        assert forall|k: Chars| #[trigger] cells.dom().contains(k) && with implies local_of(local->Some_0@)[k] == docs_locs(all.take(0), res[k], w.ext@.tickets[cells[k]], lim) by {
            assert(counts@.dom().contains(k));
            assert(texts(opt2.pattern@).contains(k));
            let m = Map::new(texts(opt2.pattern@), |k: Chars| Seq::<Loc>::empty());
            assert(m[k] == Seq::<Loc>::empty());
        }
        if with { assert(local->Some_0@.dom() =~= local_of(local->Some_0@).dom()); }
    }
    loop
        invariant
            0 <= docs.pos() <= all.len(), docs.all() == all,
            w.cells@.dom() == w0.cells@.dom(), local is Some <==> with, with ==> local->Some_0@.dom() == counts@.dom(),
            w.ext@.sent == w0.ext@.sent,
            forall|k: Chars| #[trigger] cells.dom().contains(k) ==> w.cells@[cells[k]] == w0.cells@[cells[k]] + docs_hits(all.take(docs.pos()), res[k]),
            forall|c: int| !is_cell(cells, c) ==> #[trigger] w.cells@[c] == w0.cells@[c],
            with ==> forall|k: Chars| #[trigger] cells.dom().contains(k) ==> {
                &&& w.ext@.tickets[cells[k]].len() == docs_hits(all.take(docs.pos()), res[k])
                &&& local_of(local->Some_0@)[k] == docs_locs(all.take(docs.pos()), res[k], w.ext@.tickets[cells[k]], lim)
            },
        ensures docs.pos() == all.len(),
        decreases all.len() - docs.pos(),
    {
        let ghost p = docs.pos();
        let ghost w1 = *w;
        let ghost l1 = local;
        match docs.next() {
            None => break,
            Some((d, line)) => {
                search_doc(d, line, &mut local, patterns.clone(), counts.clone(), opt.clone(), w)?;
                proof {
                    let t = all.take(p + 1);
                    assert(t.drop_last() =~= all.take(p));
                    assert(t.last() == d);
                    assert forall|k: Chars| #[trigger] cells.dom().contains(k) implies w.cells@[cells[k]] == w0.cells@[cells[k]] + docs_hits(t, res[k]) by {
                        assert(counts@.dom().contains(k));
                        assert(applied(w1, *w, l1, local, k, counts@[k].id(), patterns@[k].id(), d, line as int, lim));
                    }
                    if with {
                        assert forall|k: Chars| #[trigger] cells.dom().contains(k) implies w.ext@.tickets[cells[k]].len() == docs_hits(t, res[k])
                            && local_of(local->Some_0@)[k] == docs_locs(t, res[k], w.ext@.tickets[cells[k]], lim) by {
                            assert(counts@.dom().contains(k));
                            assert(applied(w1, *w, l1, local, k, counts@[k].id(), patterns@[k].id(), d, line as int, lim));
                            let tk = w.ext@.tickets[cells[k]];
                            let n = docs_hits(all.take(p), res[k]);
                            lemma_docs_hits_pos(all.take(p), res[k]);
                            assert forall|i: int| 0 <= i < n implies w1.ext@.tickets[cells[k]][i] == tk[i] by { assert(tk.take(n)[i] == tk[i]); }
                            lemma_locs_cut(all.take(p), res[k], w1.ext@.tickets[cells[k]], tk, lim);
                            assert(tk.skip(n) =~= tk.subrange(n, n + doc_hits(d, res[k]).len()));
                        }
                    }
                }
            }
        }
    }
    let ghost tk = w.ext@.tickets;
    let ghost loc = if with { local_of(local->Some_0@) } else { Map::empty() };
    proof {
        assert(all.take(all.len() as int) =~= all);
        assert forall|c: int| #[trigger] w0.cells@.dom().contains(c) implies w.cells@[c] == job_effect(j@, w0.cells@[c], c) by {
            if is_cell(cells, c) { let k = key_of(cells, c); assert(cells.dom().contains(k) && cells[k] == c); }
        }
    }
    send_local(local, tx, cpath, w)?;
    proof {
        if with {
            let o = JobOut { tickets: tk, sent: w.ext@.sent };
            assert(Map::new(j@.cells.dom(), |k: Chars| job_locs(j@, o, k)) =~= loc);
            assert(job_out(j@, o));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ what has to be reported
pub open spec fn most(lim: Option<usize>, n: int) -> int { match lim { Some(l) => if l < n { l as int } else { n }, None => n } }
/// how often pattern k matches in all files
pub open spec fn total(re: int, paths: Seq<int>, limit: Option<usize>) -> int
    decreases paths.len()
{ if paths.len() == 0 { 0 } else { total(re, paths.drop_last(), limit) + docs_hits(documents(paths.last(), limit), re) } }
pub open spec fn times(paths: Seq<int>, f: int) -> nat
    decreases paths.len()
{ if paths.len() == 0 { 0 } else { times(paths.drop_last(), f) + (if paths.last() == f { 1nat } else { 0 }) } }
/// n passes over the documents, one after the other, each listing its matches with admitted tickets
pub open spec fn passes(v: Seq<Loc>, docs: Seq<Data>, re: int, lim: Option<usize>, n: nat) -> bool
    decreases n
{
    if n == 0 { v.len() == 0 } else {
        exists|tk: Seq<int>, u: Seq<Loc>| #[trigger] last_pass(v, u, tk, docs, re, lim) && passes(u, docs, re, lim, (n - 1) as nat)
    }
}
pub open spec fn last_pass(v: Seq<Loc>, u: Seq<Loc>, tk: Seq<int>, docs: Seq<Data>, re: int, lim: Option<usize>) -> bool {
    tk.len() == docs_hits(docs, re) && v == u + docs_locs(docs, re, tk, lim)
}
pub open spec fn get(m: PerFile, f: int) -> Seq<Loc> { if m.dom().contains(f) { m[f] } else { Seq::empty() } }
pub open spec fn sum_listed(m: PerFile, fs: Seq<int>) -> int
    decreases fs.len()
{ if fs.len() == 0 { 0 } else { sum_listed(m, fs.drop_last()) + listed(get(m, fs.last())) } }
pub open spec fn covers(fs: Seq<int>, m: PerFile) -> bool { fs.no_duplicates() && forall|f: int| #[trigger] m.dom().contains(f) ==> fs.contains(f) }
/// C15 for one pattern
#[verifier::opaque]
pub open spec fn locations_right(re: int, paths: Seq<int>, limit: Option<usize>, lim: Option<usize>, m: PerFile) -> bool {
    // only files given, and only with matches
    &&& forall|f: int| #[trigger] m.dom().contains(f) ==> m[f].len() > 0 && times(paths, f) > 0
    // for every file as many passes as it was given times: real matches, in order, with their lines
    &&& forall|f: int| #[trigger] times(paths, f) > 0 ==> passes(get(m, f), documents(f, limit), re, lim, times(paths, f))
    // as many as there are, or the limit
    &&& forall|fs: Seq<int>| #[trigger] covers(fs, m) ==> sum_listed(m, fs) == most(lim, total(re, paths, limit))
}
pub open spec fn repeated(v: Seq<Loc>, n: nat) -> Seq<Loc>
    decreases n
{ if n == 0 { Seq::empty() } else { repeated(v, (n - 1) as nat) + v } }
/// without a limit: every match of the file, once for every time the file was given
proof fn theorem_no_limit(v: Seq<Loc>, docs: Seq<Data>, re: int, n: nat)
    requires passes(v, docs, re, None, n),
    ensures v == repeated(all_locs(docs, re), n),
    decreases n,
{
    if n > 0 {
        let (tk, u) = choose|tk: Seq<int>, u: Seq<Loc>| #[trigger] last_pass(v, u, tk, docs, re, None) && passes(u, docs, re, None, (n - 1) as nat);
        theorem_no_limit(u, docs, re, (n - 1) as nat);
        lemma_docs_locs(docs, re, tk, None);
    } else { assert(v =~= Seq::empty()); }
}
/// what the receiving loop builds for pattern k
pub open spec fn merged(got: Seq<Msg>, k: Chars) -> PerFile
    decreases got.len()
{
    if got.len() == 0 { Map::empty() } else {
        let m = merged(got.drop_last(), k);
        let x = got.last();
        if x.pattern == k && x.locs.len() > 0 { m.insert(x.path, get(m, x.path) + x.locs) } else { m }
    }
}

// sums over messages do not depend on their order
pub open spec fn sum_of(s: Seq<Msg>, g: spec_fn(Msg) -> int) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { sum_of(s.drop_last(), g) + g(s.last()) } }
proof fn lemma_sum_add(a: Seq<Msg>, b: Seq<Msg>, g: spec_fn(Msg) -> int)
    ensures sum_of(a + b, g) == sum_of(a, g) + sum_of(b, g),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        lemma_sum_add(a, b.drop_last(), g);
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
proof fn lemma_sum_remove(s: Seq<Msg>, i: int, g: spec_fn(Msg) -> int)
    requires 0 <= i < s.len(),
    ensures sum_of(s, g) == sum_of(s.remove(i), g) + g(s[i]),
    decreases s.len(),
{
    if i == s.len() - 1 { assert(s.remove(i) =~= s.drop_last()); } else {
        lemma_sum_remove(s.drop_last(), i, g);
        assert(s.remove(i).drop_last() =~= s.drop_last().remove(i));
        assert(s.remove(i).last() == s.last());
    }
}
proof fn lemma_sum_perm(a: Seq<Msg>, b: Seq<Msg>, g: spec_fn(Msg) -> int)
    requires a.to_multiset() == b.to_multiset(),
    ensures sum_of(a, g) == sum_of(b, g),
    decreases a.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.len() == a.to_multiset().len() && b.len() == b.to_multiset().len());
    if a.len() > 0 {
        let x = a.last();
        assert(a.contains(x)) by { assert(a[a.len() - 1] == x); }
        assert(a.to_multiset().count(x) > 0);
        assert(b.contains(x));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
        lemma_sum_remove(b, i, g);
        assert(a.remove(a.len() - 1) =~= a.drop_last());
        assert(a.drop_last().to_multiset() =~= b.remove(i).to_multiset());
        lemma_sum_perm(a.drop_last(), b.remove(i), g);
    }
}
pub open spec fn g_listed(k: Chars) -> spec_fn(Msg) -> int { |m: Msg| if m.pattern == k { listed(m.locs) } else { 0 } }
pub open spec fn g_count(k: Chars, f: int) -> spec_fn(Msg) -> int { |m: Msg| if m.pattern == k && m.path == f { 1int } else { 0 } }
/// of messages with distinct patterns at most one counts
proof fn lemma_sum_one(s: Seq<Msg>, k: Chars, g: spec_fn(Msg) -> int)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).pattern != (#[trigger] s[j]).pattern,
        forall|m: Msg| m.pattern != k ==> #[trigger] g(m) == 0,
    ensures
        (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).pattern != k) ==> sum_of(s, g) == 0,
        forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).pattern == k ==> sum_of(s, g) == g(s[i]),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).pattern != (#[trigger] d[j]).pattern by { assert(s[i].pattern != s[j].pattern); }
        lemma_sum_one(d, k, g);
        let n = s.len() - 1;
        if s[n].pattern == k {
            assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).pattern != k by { assert(s[i].pattern != s[n].pattern); }
        }
        assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).pattern == k implies sum_of(s, g) == g(s[i]) by {
            if i < n { assert(d[i].pattern == k); assert(s[i].pattern != s[n].pattern); }
        }
        if forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).pattern != k {
            assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).pattern != k by { assert(s[i].pattern != k); }
            assert(s[n].pattern != k);
        }
    }
}
pub open spec fn job_like(j: JobSpec, f: int, limit: Option<usize>, cells: Map<Chars, int>, res: Map<Chars, int>, lim: Option<usize>) -> bool {
    j == (JobSpec { path: f, cpath: f, limit, cells, res, collect: true, lim })
}
/// one job's share
proof fn lemma_job(j: JobSpec, o: JobOut, k: Chars, f: int)
    requires job_out(j, o), j.cells.dom().contains(k), j.cpath == j.path,
    ensures
        sum_of(o.sent, g_listed(k)) == below(o.tickets[j.cells[k]], j.lim),
        o.tickets[j.cells[k]].len() == docs_hits(documents(j.path, j.limit), j.res[k]),
        0 <= sum_of(o.sent, g_count(k, f)) <= (if j.path == f { 1int } else { 0 }),
        j.path == f && sum_of(o.sent, g_count(k, f)) == 0 ==> job_locs(j, o, k).len() == 0,
{
    let locs = Map::new(j.cells.dom(), |k: Chars| job_locs(j, o, k));
    let docs = documents(j.path, j.limit);
    lemma_docs_locs(docs, j.res[k], o.tickets[j.cells[k]], j.lim);
    lemma_sum_one(o.sent, k, g_listed(k));
    lemma_sum_one(o.sent, k, g_count(k, f));
    assert(locs[k] == job_locs(j, o, k));
    if exists|i: int| 0 <= i < o.sent.len() && (#[trigger] o.sent[i]).pattern == k {
        let i = choose|i: int| 0 <= i < o.sent.len() && (#[trigger] o.sent[i]).pattern == k;
        assert(o.sent[i].locs == locs[k]);
    } else {
        if locs[k].len() > 0 { let i = choose|i: int| 0 <= i < o.sent.len() && (#[trigger] o.sent[i]).pattern == k; assert(o.sent[i].pattern == k); }
        assert(listed(locs[k]) == 0);
    }
}
proof fn lemma_jobs(jobs: Seq<JobSpec>, outs: Seq<JobOut>, paths: Seq<int>, limit: Option<usize>, cells: Map<Chars, int>, res: Map<Chars, int>, lim: Option<usize>, k: Chars, f: int)
    requires jobs.len() == paths.len(), outs.len() == jobs.len(), cells.dom().contains(k),
        forall|i: int| 0 <= i < jobs.len() ==> job_like(#[trigger] jobs[i], paths[i], limit, cells, res, lim) && job_out(jobs[i], outs[i]),
    ensures
        sum_of(all_sent(outs), g_listed(k)) == below(all_tickets(outs, cells[k]), lim),
        all_tickets(outs, cells[k]).len() == total(res[k], paths, limit),
        0 <= sum_of(all_sent(outs), g_count(k, f)) <= times(paths, f),
        sum_of(all_sent(outs), g_count(k, f)) < times(paths, f) ==> exists|tk: Seq<int>| tk.len() == docs_hits(documents(f, limit), res[k])
            && #[trigger] docs_locs(documents(f, limit), res[k], tk, lim).len() == 0,
        forall|x: Msg| #[trigger] all_sent(outs).contains(x) && x.pattern == k ==> times(paths, x.path) > 0 && exists|tk: Seq<int>|
            tk.len() == docs_hits(documents(x.path, limit), res[k]) && x.locs == #[trigger] docs_locs(documents(x.path, limit), res[k], tk, lim),
    decreases jobs.len(),
{
    if jobs.len() > 0 {
        let n = jobs.len() - 1;
        let (js, os, ps) = (jobs.drop_last(), outs.drop_last(), paths.drop_last());
        assert forall|i: int| 0 <= i < js.len() implies job_like(#[trigger] js[i], ps[i], limit, cells, res, lim) && job_out(js[i], os[i]) by { assert(js[i] == jobs[i]); }
        lemma_jobs(js, os, ps, limit, cells, res, lim, k, f);
        let (j, o) = (jobs[n], outs[n]);
        assert(job_like(j, paths[n], limit, cells, res, lim) && job_out(j, o));
        lemma_job(j, o, k, f);
        lemma_sum_add(all_sent(os), o.sent, g_listed(k));
        lemma_sum_add(all_sent(os), o.sent, g_count(k, f));
        lemma_below_add(all_tickets(os, cells[k]), o.tickets[cells[k]], lim);
        if j.path == f && sum_of(o.sent, g_count(k, f)) == 0 {
            let tk = o.tickets[cells[k]];
            assert(docs_locs(documents(f, limit), res[k], tk, lim).len() == 0);
        }
        assert forall|x: Msg| #[trigger] all_sent(outs).contains(x) && x.pattern == k implies times(paths, x.path) > 0 && exists|tk: Seq<int>|
            tk.len() == docs_hits(documents(x.path, limit), res[k]) && x.locs == #[trigger] docs_locs(documents(x.path, limit), res[k], tk, lim) by {
            let i = choose|i: int| 0 <= i < all_sent(outs).len() && all_sent(outs)[i] == x;
            if i < all_sent(os).len() { assert(all_sent(os)[i] == x); assert(all_sent(os).contains(x)); } else {
                let q = i - all_sent(os).len();
                assert(o.sent[q] == x);
                let locs = Map::new(j.cells.dom(), |k: Chars| job_locs(j, o, k));
                assert(locs[k] == job_locs(j, o, k));
                let tk = o.tickets[cells[k]];
                assert(x.locs == docs_locs(documents(x.path, limit), res[k], tk, lim));
            }
        }
    }
}
/// of 0, 1, 2, ..., n - 1 the ones below the limit
proof fn lemma_numbers(s: Seq<int>, lim: Option<usize>)
    requires numbers(s),
    ensures below(s, lim) == most(lim, s.len() as int),
{
    let n = s.len() as int;
    let m = most(lim, n);
    lemma_below_set(s, lim);
    let a = s.to_set().filter(|x: int| admits(lim, x));
    let b = Set::<int>::range(0, m);
    vstd::set_lib::lemma_int_range(0, m);
    assert forall|x: int| a.contains(x) <==> b.contains(x) by { assert(s.contains(x) <==> 0 <= x < s.len()); }
    assert(a =~= b);
}
proof fn lemma_below_set(s: Seq<int>, lim: Option<usize>)
    requires s.no_duplicates(),
    ensures s.to_set().filter(|x: int| admits(lim, x)).len() == below(s, lim), s.to_set().finite(),
    decreases s.len(),
{
    let f = |x: int| admits(lim, x);
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_below_set(d, lim);
        let x = s.last();
        assert(s =~= d.push(x));
        assert(!d.contains(x)) by { if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(s[i] == s[s.len() - 1]); } }
        assert forall|y: int| s.to_set().contains(y) <==> d.to_set().insert(x).contains(y) by {
            if d.contains(y) { let i = choose|i: int| 0 <= i < d.len() && d[i] == y; assert(s[i] == y); }
            if y == x { assert(s[s.len() - 1] == y); }
            if s.contains(y) && y != x { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(d[i] == y); }
        }
        if f(x) { assert(s.to_set().filter(f) =~= d.to_set().filter(f).insert(x)); } else { assert(s.to_set().filter(f) =~= d.to_set().filter(f)); }
    } else { assert(s.to_set().filter(f) =~= Set::<int>::empty()); }
}
proof fn lemma_sum_listed_same(a: PerFile, b: PerFile, fs: Seq<int>, f: int)
    requires forall|x: int| x != f ==> get(a, x) == get(b, x), fs.no_duplicates(),
    ensures sum_listed(b, fs) == sum_listed(a, fs) + (if fs.contains(f) { listed(get(b, f)) - listed(get(a, f)) } else { 0 }),
    decreases fs.len(),
{
    if fs.len() > 0 {
        let d = fs.drop_last();
        lemma_sum_listed_same(a, b, d, f);
        let n = fs.len() - 1;
        if fs[n] == f {
            assert(fs.contains(f));
            assert(!d.contains(f)) by { if d.contains(f) { let i = choose|i: int| 0 <= i < d.len() && d[i] == f; assert(fs[i] == fs[n]); } }
        } else if d.contains(f) { let i = choose|i: int| 0 <= i < d.len() && d[i] == f; assert(fs[i] == f); }
        else if fs.contains(f) { let i = choose|i: int| 0 <= i < fs.len() && fs[i] == f; assert(d[i] == f); }
    }
}
proof fn lemma_merged(got: Seq<Msg>, k: Chars, fs: Seq<int>)
    requires covers(fs, merged(got, k)),
    ensures sum_listed(merged(got, k), fs) == sum_of(got, g_listed(k)),
        forall|f: int| #[trigger] merged(got, k).dom().contains(f) ==> merged(got, k)[f].len() > 0,
    decreases got.len(),
{
    let m = merged(got, k);
    if got.len() > 0 {
        let p = merged(got.drop_last(), k);
        assert forall|f: int| #[trigger] p.dom().contains(f) implies fs.contains(f) by { assert(m.dom().contains(f)); }
        assert(covers(fs, p));
        lemma_merged(got.drop_last(), k, fs);
        let x = got.last();
        if x.pattern == k && x.locs.len() > 0 {
            lemma_sum_listed_same(p, m, fs, x.path);
            lemma_listed_add(get(p, x.path), x.locs);
            assert(m.dom().contains(x.path));
        } else if x.pattern == k { assert(listed(x.locs) == 0); }
    } else {
        lemma_sum_none(m, fs);
    }
}
proof fn lemma_sum_none(m: PerFile, fs: Seq<int>)
    requires m == Map::<int, Seq<Loc>>::empty(),
    ensures sum_listed(m, fs) == 0,
    decreases fs.len(),
{ if fs.len() > 0 { lemma_sum_none(m, fs.drop_last()); } }
proof fn lemma_sum_count_nonneg(s: Seq<Msg>, k: Chars, f: int)
    ensures sum_of(s, g_count(k, f)) >= 0,
    decreases s.len(),
{ if s.len() > 0 { lemma_sum_count_nonneg(s.drop_last(), k, f); } }
proof fn lemma_passes(got: Seq<Msg>, k: Chars, f: int, docs: Seq<Data>, re: int, lim: Option<usize>)
    requires forall|i: int| 0 <= i < got.len() && (#[trigger] got[i]).pattern == k && got[i].path == f ==> exists|tk: Seq<int>|
            tk.len() == docs_hits(docs, re) && got[i].locs == #[trigger] docs_locs(docs, re, tk, lim),
    ensures sum_of(got, g_count(k, f)) >= 0, passes(get(merged(got, k), f), docs, re, lim, sum_of(got, g_count(k, f)) as nat),
    decreases got.len(),
{
    lemma_sum_count_nonneg(got, k, f);
    if got.len() > 0 {
        let d = got.drop_last();
        let x = got.last();
        assert forall|i: int| 0 <= i < d.len() && (#[trigger] d[i]).pattern == k && d[i].path == f implies exists|tk: Seq<int>|
            tk.len() == docs_hits(docs, re) && d[i].locs == #[trigger] docs_locs(docs, re, tk, lim) by { assert(d[i] == got[i]); }
        lemma_passes(d, k, f, docs, re, lim);
        if x.pattern == k && x.path == f {
            let tk = choose|tk: Seq<int>| tk.len() == docs_hits(docs, re) && x.locs == #[trigger] docs_locs(docs, re, tk, lim);
            let u = get(merged(d, k), f);
            let n = sum_of(d, g_count(k, f)) as nat;
            assert(get(merged(got, k), f) =~= u + docs_locs(docs, re, tk, lim));
            assert(passes(u, docs, re, lim, n));
            assert(last_pass(get(merged(got, k), f), u, tk, docs, re, lim));
            assert(sum_of(got, g_count(k, f)) as nat == n + 1);
        }
    }
}
proof fn lemma_pad(v: Seq<Loc>, docs: Seq<Data>, re: int, lim: Option<usize>, a: nat, b: nat, tk: Seq<int>)
    requires passes(v, docs, re, lim, a), a <= b, tk.len() == docs_hits(docs, re), docs_locs(docs, re, tk, lim).len() == 0,
    ensures passes(v, docs, re, lim, b),
    decreases b - a,
{
    if a < b {
        lemma_pad(v, docs, re, lim, a, (b - 1) as nat, tk);
        assert(v =~= v + docs_locs(docs, re, tk, lim));
        assert(last_pass(v, v, tk, docs, re, lim));
    }
}
/// C15 from what the jobs did and what was received
proof fn theorem_locations(jobs: Seq<JobSpec>, outs: Seq<JobOut>, e: Ext, paths: Seq<int>, limit: Option<usize>, cells: Map<Chars, int>, res: Map<Chars, int>, lim: Option<usize>, k: Chars)
    requires
        ran_with(jobs, outs, e), e.closed, jobs.len() == paths.len(), cells.dom().contains(k), started_at_zero(cells[k]),
        forall|i: int| 0 <= i < jobs.len() ==> job_like(#[trigger] jobs[i], paths[i], limit, cells, res, lim),
    ensures locations_right(res[k], paths, limit, lim, merged(e.got, k)),
{
    reveal(locations_right);
    let m = merged(e.got, k);
    let re = res[k];
    let sent = all_sent(outs);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    lemma_numbers(all_tickets(outs, cells[k]), lim);
    lemma_jobs(jobs, outs, paths, limit, cells, res, lim, k, 0);
    assert forall|x: Msg| #[trigger] e.got.contains(x) implies sent.contains(x) by {
        assert(e.got.to_multiset().count(x) > 0);
    }
    assert forall|fs: Seq<int>| #[trigger] covers(fs, m) implies sum_listed(m, fs) == most(lim, total(re, paths, limit)) by {
        lemma_merged(e.got, k, fs);
        lemma_sum_perm(e.got, sent, g_listed(k));
    }
    assert forall|f: int| #[trigger] times(paths, f) > 0 implies passes(get(m, f), documents(f, limit), re, lim, times(paths, f)) by {
        lemma_jobs(jobs, outs, paths, limit, cells, res, lim, k, f);
        let docs = documents(f, limit);
        assert forall|i: int| 0 <= i < e.got.len() && (#[trigger] e.got[i]).pattern == k && e.got[i].path == f implies exists|tk: Seq<int>|
            tk.len() == docs_hits(docs, re) && e.got[i].locs == #[trigger] docs_locs(docs, re, tk, lim) by { assert(e.got.contains(e.got[i])); assert(sent.contains(e.got[i])); }
        lemma_passes(e.got, k, f, docs, re, lim);
        lemma_sum_perm(e.got, sent, g_count(k, f));
        let c = sum_of(sent, g_count(k, f)) as nat;
        if c < times(paths, f) {
            let tk = choose|tk: Seq<int>| tk.len() == docs_hits(documents(f, limit), res[k]) && #[trigger] docs_locs(documents(f, limit), res[k], tk, lim).len() == 0;
            lemma_pad(get(m, f), docs, re, lim, c, times(paths, f), tk);
        }
    }
    assert forall|f: int| #[trigger] m.dom().contains(f) implies m[f].len() > 0 && times(paths, f) > 0 by {
        lemma_merged_dom(e.got, k, f);
        let i = choose|i: int| 0 <= i < e.got.len() && (#[trigger] e.got[i]).pattern == k && e.got[i].path == f;
        assert(e.got.contains(e.got[i]));
        assert(sent.contains(e.got[i]));
    }
}
proof fn lemma_merged_dom(got: Seq<Msg>, k: Chars, f: int)
    requires merged(got, k).dom().contains(f),
    ensures merged(got, k)[f].len() > 0, exists|i: int| 0 <= i < got.len() && (#[trigger] got[i]).pattern == k && got[i].path == f,
    decreases got.len(),
{
    let d = got.drop_last();
    let x = got.last();
    if merged(d, k).dom().contains(f) {
        lemma_merged_dom(d, k, f);
        let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).pattern == k && d[i].path == f;
        assert(got[i].pattern == k && got[i].path == f);
    } else { assert(got[got.len() - 1] == x); }
}
pub open spec fn jobs_for(paths: Seq<int>, limit: Option<usize>, cells: Map<Chars, int>, res: Map<Chars, int>, collect: bool, lim: Option<usize>) -> Seq<JobSpec> {
    paths.map_values(|p: int| JobSpec { path: p, cpath: p, limit, cells, res, collect, lim })
}
/// C14: a counter ends at the number of matches
proof fn theorem_total(k: Chars, paths: Seq<int>, limit: Option<usize>, cells: Map<Chars, int>, res: Map<Chars, int>, collect: bool, lim: Option<usize>)
    requires one_to_one(cells), cells.dom().contains(k),
    ensures ran(jobs_for(paths, limit, cells, res, collect, lim), 0, cells[k]) == total(res[k], paths, limit),
    decreases paths.len(),
{
    let jobs = jobs_for(paths, limit, cells, res, collect, lim);
    if paths.len() > 0 {
        theorem_total(k, paths.drop_last(), limit, cells, res, collect, lim);
        assert(jobs.drop_last() =~= jobs_for(paths.drop_last(), limit, cells, res, collect, lim));
        lemma_key_of(cells, k);
    }
}

// ------------------------------------------------------------------ the command
fn get_output_file(opt: &Opt, w: &mut World) -> (r: Result<Option<(File, PathBuf)>>)
    ensures
        opt.out is None ==> r is Ok && r->Ok_0 is None && *final(w) == *old(w),
        opt.out is Some && dir_there(opt.out->Some_0.id()) ==> r is Err && *final(w) == *old(w),
        opt.out is Some && file_there(opt.out->Some_0.id()) && !opt.force ==> r is Err && *final(w) == *old(w),
        same_but_fs(*old(w), *final(w)),
        r is Err ==> *final(w) == *old(w),
        opt.out is Some && r is Ok ==> r->Ok_0 is Some && r->Ok_0->Some_0.0.path() == opt.out->Some_0.id()
            && final(w).fs@ == old(w).fs@.insert(r->Ok_0->Some_0.0.id(), Seq::<OutLine>::empty()),
{
/*@body
@file src/cmd/search.rs
@item get_output_file
@params opt
@locals path
@world util::get_output_file
@*/
}
pub open spec fn paths_of(opt: Opt) -> Seq<int> {
    let e = expanded(ids(opt.path@));
    match opt.file_limit { Some(n) => if n < e.len() { e.take(n as int) } else { e }, None => e }
}
pub open spec fn count_of(opt: Opt, k: Chars) -> int { total(regex_of(k), paths_of(opt), opt.limit) }
/// one line per pattern; with locations also what was found in each file
pub open spec fn row(opt: Opt, k: Chars, m: PerFile) -> OutLine {
    let s = Seq::<(Chars, JV)>::empty().push(("pattern"@, JV::Str(k))).push(("count"@, JV::Num(count_of(opt, k))));
    OutLine::Json(JV::Obj(if opt.with_locations { s.push(("matches"@, per_file_js(m))) } else { s }))
}
/// the patterns, each once
pub open spec fn keys_of(opt: Opt, keys: Seq<Chars>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < keys.len() ==> #[trigger] keys[i] != #[trigger] keys[j]
    &&& forall|k: Chars| keys.contains(k) <==> texts(opt.pattern@).contains(k)
}
pub open spec fn rows(opt: Opt, keys: Seq<Chars>, m: spec_fn(Chars) -> PerFile) -> Seq<OutLine> { keys.map_values(|k: Chars| row(opt, k, m(k))) }
pub open spec fn others(a: Seq<OutLine>, b: Seq<OutLine>) -> bool {
    a.len() <= b.len() && (forall|i: int| 0 <= i < a.len() ==> a[i] == b[i]) && (forall|i: int| a.len() <= i < b.len() ==> #[trigger] b[i] is Other)
}
pub open spec fn rejected(opt: Opt) -> bool {
    ||| opt.pattern@.len() == 0
    ||| opt.file_limit == Some(0usize)
    ||| paths_of(opt).len() == 0
    ||| opt.locations_limit is Some && !opt.with_locations
}
pub open spec fn blocked(opt: Opt) -> bool {
    opt.out is Some && (dir_there(opt.out->Some_0.id()) || file_there(opt.out->Some_0.id()) && !opt.force)
}
pub open spec fn no_rows(opt: Opt, a: World, b: World) -> bool {
    b.fs@ == a.fs@ || (opt.out is Some && exists|fid: int| handle_path(fid) == opt.out->Some_0.id() && b.fs@ == #[trigger] a.fs@.insert(fid, Seq::<OutLine>::empty()))
}
pub open spec fn reported(opt: Opt, a: World, b: World, keys: Seq<Chars>, m: spec_fn(Chars) -> PerFile, fid: int) -> bool {
    &&& opt.json ==> b.out@ == a.out@ + rows(opt, keys, m)
    &&& !opt.json ==> others(a.out@, b.out@)
    &&& !opt.json && opt.quiet ==> b.out@ == a.out@
    &&& opt.out is Some ==> b.fs@ == a.fs@.insert(fid, rows(opt, keys, m)) && handle_path(fid) == opt.out->Some_0.id()
    &&& opt.out is None ==> b.fs@ == a.fs@
}
/// C15 for all patterns
pub open spec fn all_right(opt: Opt, m: spec_fn(Chars) -> PerFile) -> bool {
    forall|k: Chars| texts(opt.pattern@).contains(k) ==> locations_right(regex_of(k), paths_of(opt), opt.limit, opt.locations_limit, #[trigger] m(k))
}
pub open spec fn cells_zero(cells: Map<Chars, int>, w: World) -> bool {
    forall|k: Chars| #[trigger] cells.dom().contains(k) ==> w.cells@.dom().contains(cells[k]) && w.cells@[cells[k]] == 0 && started_at_zero(cells[k])
}
pub open spec fn gathered(m: Map<Chars, MatchLocationsPerPath>, got: Seq<Msg>) -> bool {
    forall|k: Chars| #[trigger] m.dom().contains(k) ==> per_file(m[k]@) == merged(got, k)
}

#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
fn search_main(mut opt: Opt, w: &mut World) -> (r: Result<()>)
    requires old(w).jobs@.len() == 0, !old(w).joined@, !old(w).ext@.active,
    ensures
        // C14, C23: every distinct pattern is reported once, with its number of matches; C15: and with the locations asked for
        r is Ok ==> exists|keys: Seq<Chars>, m: spec_fn(Chars) -> PerFile, fid: int| keys_of(opt, keys) && (opt.with_locations ==> all_right(opt, m))
            && #[trigger] reported(opt, *old(w), *final(w), keys, m, fid),  // [C14 C15 C23 C22]
        // C21: every message has been received
        r is Ok && opt.with_locations ==> final(w).ext@.closed,  // [C21]
        // C22
        blocked(opt) ==> r is Err && final(w).fs@ == old(w).fs@ && final(w).jobs@.len() == 0,  // [C22]
        // C19: rows only when every job is done without failure
        r is Ok ==> final(w).joined@,  // [C19]
        !final(w).joined@ ==> final(w).out@ == old(w).out@ && no_rows(opt, *old(w), *final(w)),  // [C19]
        // C26
        rejected(opt) ==> r is Err && final(w).jobs@.len() == 0,  // [C26]
{
    let ghost opt0 = opt;
    let ghost ts = opt.pattern@.map_values(|t: Text| t@);
    let ghost paths = paths_of(opt);
    let ghost with = opt.with_locations;
    let ghost lim = opt.locations_limit;
    let ghost mut cells = Map::<Chars, int>::empty();
    let ghost mut res = Map::<Chars, int>::empty();
    let ghost mut held = w.cells@;
    let ghost mut fs = w.fs@;
    let ghost mut e0 = w.ext@;
    let ghost mut pf: spec_fn(Chars) -> PerFile = |k: Chars| Map::<int, Seq<Loc>>::empty();
/*@body
@file src/cmd/search.rs
@item main
@params opt
@locals file_limit counts patterns match_locations tx rx tx_ rx_ pattern locations out_file out_path out executor path matches matches_for_pattern i count json_out file locs loc
@world AtomicUsize::new sync_channel tx.clone drop rx.recv rx.try_recv DataExecutor::new executor.execute_with_callback executor.join count.load get_output_file
@eq
@io
@optmap
@sub? Arc::new(AtomicUsize::new( =>> Arc::new(Tally::new(
@sub? HashMap<String, Arc<AtomicUsize>, RandomState> =>> Counts
@sub? HashMap<String, Regex, RandomState> =>> Patterns
@sub? HashMap<String, MatchLocationsPerPath, RandomState> =>> HashMap<Text, MatchLocationsPerPath, RandomState>
@sub? sync_channel::<(String, PathBuf, Vec<MatchLocation>)> =>> sync_channel
@sub? SyncSender<(String, PathBuf, Vec<MatchLocation>)> =>> Sender
@sub? Receiver<(String, PathBuf, Vec<MatchLocation>)> =>> Receiver
@sub? ahash::RandomState =>> RandomState
@sub? .extend(matches) =>> .vx_extend(matches)
@closure 0
SendJob { tx, path }
@closure 1
NewJob { with: opt.with_locations, patterns: opt.pattern }
@closure 2
SearchJob { counts, patterns, lim: opt.locations_limit }
@pre 0
    proof {
        assert(ids(opt.path@) =~= paths_of(opt0));
        e0 = w.ext@;
        assert(cells_of(counts@).dom() =~= ts.take(0).to_set());
        assert(patterns@.dom() =~= ts.take(0).to_set());
        if with { assert(match_locations->Some_0@.dom() =~= ts.take(0).to_set()); }
    }
@top 0
        let ghost n = __it0.pos() - 1;
        let ghost cb = counts@;
        let ghost lb = match_locations;
        let ghost wb = *w;
@bottom 0
        proof {
            let k = pattern@;
            assert(ts.take(n + 1) =~= ts.take(n).push(k));
            lemma_push_set(ts.take(n), k);
            let ca = cells_of(cb);
            let cn = cells_of(counts@);
            assert(cn.dom() =~= ca.dom().insert(k));
            assert forall|q: Chars| #[trigger] cn.dom().contains(q) implies w.cells@.dom().contains(cn[q]) && w.cells@[cn[q]] == 0 && started_at_zero(cn[q]) by {
                if q != k { assert(ca.dom().contains(q)); assert(cn[q] == ca[q]); }
            }
            assert forall|a: Chars, b: Chars| cn.dom().contains(a) && cn.dom().contains(b) && a != b implies #[trigger] cn[a] != #[trigger] cn[b] by {
                if a != k { assert(ca.dom().contains(a)); assert(cn[a] == ca[a]); }
                if b != k { assert(ca.dom().contains(b)); assert(cn[b] == ca[b]); }
            }
            assert(patterns@.dom() =~= ts.take(n + 1).to_set());
            if with {
                assert(match_locations->Some_0@.dom() =~= ts.take(n + 1).to_set());
                assert forall|q: Chars| #[trigger] match_locations->Some_0@.dom().contains(q) implies per_file(match_locations->Some_0@[q]@) == Map::<int, Seq<Loc>>::empty() by {
                    if q == k { assert(per_file(match_locations->Some_0@[q]@) =~= Map::<int, Seq<Loc>>::empty()); } else { assert(lb->Some_0@.dom().contains(q)); }
                }
            }
        }
@loop 0 for
    invariant
        __it0.v == &opt.pattern, 0 <= __it0.i <= __it0.v@.len(),
        same_but_cells(World { ext: w.ext, ..*old(w) }, *w), w.ext@ == e0,
        cells_of(counts@).dom() == ts.take(__it0.pos()).to_set(), patterns@.dom() == ts.take(__it0.pos()).to_set(),
        one_to_one(cells_of(counts@)), cells_zero(cells_of(counts@), *w),  // [C14 C15]
        forall|k: Chars| #[trigger] patterns@.dom().contains(k) ==> patterns@[k].id() == regex_of(k),  // [C14 C15]
        match_locations is Some <==> with,
        with ==> match_locations->Some_0@.dom() == ts.take(__it0.pos()).to_set()
            && forall|k: Chars| #[trigger] match_locations->Some_0@.dom().contains(k) ==> per_file(match_locations->Some_0@[k]@) == Map::<int, Seq<Loc>>::empty(),  // [C15]
    ensures
        __it0.pos() == ts.len(),
    decreases __it0.v@.len() - __it0.pos(),
@after 0
    proof { assert(ts.take(ts.len() as int) =~= ts); }
@pre 1
    proof {
        cells = cells_of(counts@); res = res_of(patterns@); held = w.cells@; fs = w.fs@; e0 = w.ext@;
        assert(!blocked(opt0)); // [C22]
        assert(!rejected(opt0)); // [C26]
        assert(w.jobs@ =~= jobs_for(paths.take(0), opt0.limit, cells, res, with, lim));
        assert(cells.dom() =~= counts@.dom());
    }
@bottom 1
        proof {
            let n = __it1.pos();
            assert(paths.take(n) =~= paths.take(n - 1).push(path.id()));
            assert(w.jobs@ =~= jobs_for(paths.take(n), opt0.limit, cells, res, with, lim));  // [C14 C15]
        }
@loop 1 for
    invariant
        __it1.v == &opt.path, 0 <= __it1.i <= __it1.v@.len(),
        w.out == old(w).out, w.fs@ == fs, w.cells@ == held, !w.joined@,
        w.ext@ == e0,  // [C21]
        w.jobs@ == jobs_for(paths.take(__it1.pos()), opt0.limit, cells, res, with, lim),  // [C14 C15]
    ensures
        __it1.pos() == paths.len(),
    decreases __it1.v@.len() - __it1.pos(),
@after 1
    proof {
        assert(paths.take(paths.len() as int) =~= paths);
    }
@top 2
    let ghost got = w.ext@.got;
    let ghost m0 = match_locations->Some_0@;
    let ghost ms = matches@;
    let ghost (pk, pp) = (pattern@, path.id());
    proof { assert(gathered(m0, got.drop_last())); assert(m0.dom().contains(pk)); }
@bottom 2
    proof {
        let m1 = match_locations->Some_0@;
        assert(m1.dom() =~= m0.dom());
        assert forall|k: Chars| #[trigger] m1.dom().contains(k) implies per_file(m1[k]@) == merged(got, k) by {
            assert(m0.dom().contains(k));
            if k == pk {
                let (h0, h1) = (m0[k]@, m1[k]@);
                assert(per_file(h0) == merged(got.drop_last(), k));
                if ms.len() > 0 {
                    assert(locs_of(h1[pp]@) =~= get(per_file(h0), pp) + locs_of(ms));  // [C15]
                    assert(per_file(h1) =~= per_file(h0).insert(pp, get(per_file(h0), pp) + locs_of(ms)));  // [C15]
                }
            }
        }
    }
@loop 2 while
    invariant
        with, match_locations is Some, match_locations->Some_0@.dom() == cells.dom(),
        w.out == old(w).out, w.fs@ == fs, !w.joined@, w.jobs@ == jobs_for(paths, opt0.limit, cells, res, with, lim), w.cells@ == held,
        gathered(match_locations->Some_0@, w.ext@.got),  // [C15 C21]
        w.ext@ == (Ext { got: w.ext@.got, open: 0, ..e0 }),  // [C21]
    ensures
        w.ext@.closed,  // [C21]
        w.ext@ == (Ext { got: w.ext@.got, open: 0, closed: true, ..e0 }),  // [C21]
    decreases to_come(w.ext@.got),
@pre 3
    let ghost all = __it3.all();
    let ghost keys = Seq::new(all.len(), |i: int| all[i].0);
    let ghost fid = if out_file is Some { out_file->Some_0.id() } else { 0 };
    let ghost fs0 = old(w).fs@;
    let ghost ml = match_locations;
    proof {
        if with {
            pf = |k: Chars| per_file(ml->Some_0@[k]@);
            let outs = choose|outs: Seq<JobOut>| #[trigger] ran_with(w.jobs@, outs, w.ext@);
            assert forall|k: Chars| ts.to_set().contains(k) implies locations_right(regex_of(k), paths, opt0.limit, lim, #[trigger] pf(k)) by {
                assert(cells.dom().contains(k));
                theorem_locations(w.jobs@, outs, w.ext@, paths, opt0.limit, cells, res, lim, k);
                assert(ml->Some_0@.dom().contains(k));
            }
        }
        assert forall|k: Chars| keys.contains(k) <==> ts.to_set().contains(k) by {
            if keys.contains(k) { let i = choose|i: int| 0 <= i < keys.len() && keys[i] == k; assert(counts@.dom().contains(all[i].0)); }
            if ts.to_set().contains(k) { assert(cells.dom().contains(k)); assert(counts@.dom().contains(k)); let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0 == k; assert(keys[i] == k); }
        }
        assert(keys_of(opt0, keys));
        assert(rows(opt0, keys.take(0), pf) =~= Seq::<OutLine>::empty());
        assert(w.out@ =~= old(w).out@ + rows(opt0, keys.take(0), pf));
        assert(out_file is Some ==> w.fs@ =~= fs0.insert(fid, rows(opt0, keys.take(0), pf)));
    }
@top 3
        broadcast use lemma_insert_twice;
        let ghost n = __it3.pos() - 1;
        proof {
            assert(counts@.dom().contains(all[n].0));
            assert(cells.dom().contains(all[n].0));
            theorem_total(all[n].0, paths, opt0.limit, cells, res, with, lim);
        }
@bottom 3
        proof {
            let k = all[n].0;
            let line = row(opt0, k, pf(k));
            assert(keys.take(n + 1) =~= keys.take(n).push(k));
            assert(rows(opt0, keys.take(n + 1), pf) =~= rows(opt0, keys.take(n), pf).push(line));
            assert(count as int == count_of(opt0, k));  // [C14]
            assert(OutLine::Json(json_out.js()) == line);  // [C14 C15 C23]
            if opt0.json { assert(w.out@ =~= old(w).out@ + rows(opt0, keys.take(n + 1), pf)); }  // [C14 C23]
            if out_file is Some { assert(w.fs@ =~= fs0.insert(fid, rows(opt0, keys.take(n + 1), pf))); }  // [C22 C23]
        }
@loop 3 for
    invariant
        __it3.all() == all, 0 <= __it3.pos() <= all.len(), lists(all, counts@), match_locations == ml,
        w.joined@, w.jobs@ == jobs_for(paths, opt0.limit, cells, res, with, lim), with ==> w.ext@.closed,
        forall|c: int| held.dom().contains(c) ==> #[trigger] w.cells@[c] == ran(w.jobs@, held[c], c),
        opt0.json ==> w.out@ == old(w).out@ + rows(opt0, keys.take(__it3.pos()), pf),  // [C14 C23]
        !opt0.json ==> others(old(w).out@, w.out@),  // [C23]
        !opt0.json && opt0.quiet ==> w.out@ == old(w).out@,  // [C23]
        out_file is Some <==> opt0.out is Some,
        out_file is Some ==> out_file->Some_0.id() == fid && handle_path(fid) == opt0.out->Some_0.id()
            && w.fs@ == fs0.insert(fid, rows(opt0, keys.take(__it3.pos()), pf)),  // [C22 C23]
        out_file is None ==> w.fs@ == fs0,  // [C22 C23]
    ensures
        __it3.pos() == all.len(),
    decreases all.len() - __it3.pos(),
@after 3
    proof {
        assert(keys.take(keys.len() as int) =~= keys);
        assert(all_right(opt0, pf) || !with);
        assert(reported(opt0, *old(w), *w, keys, pf, fid));
    }
@loop 4 for
    invariant
        0 <= __it4.pos() <= __it4.all().len(),
        !opt0.json && !opt0.quiet, others(old(w).out@, w.out@),
        same_but_out(w3, *w),
    decreases __it4.all().len() - __it4.pos(),
@pre 4
    let ghost w3 = *w;
@loop 5 for
    invariant
        0 <= __it5.i <= __it5.v@.len(),
        others(old(w).out@, w.out@), same_but_out(w3, *w),
    decreases __it5.v@.len() - __it5.i,
@*/
}

} // verus!
fn main() {}
