#![allow(unused)]
// Unit `unique`: src/cmd/unique.rs.
//@claims C12: collect_ngrams unique_main theorem_windows theorem_cells
//@claims C19: unique_main
//@claims C20: ~unique_main
//@claims C23: unique_main
//@claims C26: unique_main
use vstd::prelude::*;
use vstd::multiset::Multiset;
use std::sync::Arc;
//@include shim_macros.rs
macro_rules! json { ({ $($k:literal : $v:expr),* $(,)? }) => { Json::object()$(.with($k, &$v))* } }
verus! {
global size_of usize == 8;
//@include shim_std.rs
#[verifier::external_body]
pub fn vx_nondet() -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_unreached<T>() -> (r: T) requires false { unimplemented!() }
//@include shim_result.rs
//@include shim_cmd.rs
//@include shim_grams.rs
//@include shim_deque.rs
//@include shim_ngcmd.rs

// ------------------------------------------------------------------ the table: which ngrams were added to it
pub ghost struct Ext { pub fed: Map<int, Multiset<Gram>> }
pub uninterp spec fn cell_of(table: int, g: Gram, i: int) -> int;
/// the cells of the ngrams (unit `counter`, theorem_unique: this is what `nonzero` counts)
pub open spec fn touched(table: int, size: int, hashes: int, grams: Multiset<Gram>) -> Set<int> {
    Set::<int>::range(0, size).filter(|c: int| exists|g: Gram, i: int| grams.count(g) > 0 && 0 <= i < hashes && #[trigger] cell_of(table, g, i) == c)
}
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct NgramCounter<A> { a: Option<A>, x: u64 }
impl<A: Atomic> NgramCounter<A> {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn size(&self) -> int;
    pub uninterp spec fn hashes(&self) -> int;
    #[verifier::external_body]
    pub fn new(size: usize, hashes: usize, seed: Option<u64>, init: A::Type, w: &mut World) -> (r: Result<NgramCounter<A>>)
        ensures final(w).out == old(w).out, final(w).fs == old(w).fs, final(w).cells == old(w).cells, final(w).jobs == old(w).jobs, final(w).joined == old(w).joined,
            size == 0 ==> r is Err,
            r is Ok ==> r->Ok_0.size() == size && r->Ok_0.hashes() == hashes
                && final(w).ext@.fed == old(w).ext@.fed.insert(r->Ok_0.id(), Multiset::empty()),
            r is Err ==> final(w).ext == old(w).ext { unimplemented!() }
    /// `by` must not be zero: adding nothing touches no cell
    #[verifier::external_body]
    pub fn increment(&self, g: &VecDeque<Tok>, by: A::Type, w: &mut World) -> (r: A::Type)
        ensures final(w).out == old(w).out, final(w).fs == old(w).fs, final(w).cells == old(w).cells, final(w).jobs == old(w).jobs, final(w).joined == old(w).joined,
            Self::positive(by) ==> final(w).ext@.fed == old(w).ext@.fed.insert(self.id(), old(w).ext@.fed[self.id()].insert(g@)) { unimplemented!() }
    pub uninterp spec fn positive(by: A::Type) -> bool;
    #[verifier::external_body]
    pub fn nonzero(&self, w: &mut World) -> (r: u64)
        ensures *final(w) == *old(w),
            old(w).joined@ ==> r == touched(self.id(), self.size(), self.hashes(), old(w).ext@.fed[self.id()]).len() { unimplemented!() }
}
pub broadcast axiom fn axiom_positive(by: u8) ensures #[trigger] NgramCounter::<AtomicU8>::positive(by) <==> by > 0;
pub broadcast axiom fn axiom_positive32(by: u32) ensures #[trigger] NgramCounter::<AtomicU32>::positive(by) <==> by > 0;
pub broadcast axiom fn axiom_positive64(by: u64) ensures #[trigger] NgramCounter::<AtomicU64>::positive(by) <==> by > 0;

/// the number reported: zero exactly when there is no ngram, at most the table size
proof fn theorem_cells(table: int, size: int, hashes: int, grams: Multiset<Gram>)
    requires size >= 0, hashes >= 1,
        forall|g: Gram, i: int| 0 <= i < hashes ==> 0 <= #[trigger] cell_of(table, g, i) < size,
    ensures touched(table, size, hashes, grams).len() <= size,
        touched(table, size, hashes, grams).len() == 0 <==> grams.len() == 0,
{
    let t = touched(table, size, hashes, grams);
    let all = Set::<int>::range(0, size);
    vstd::set_lib::lemma_int_range(0, size);
    assert(t.subset_of(all));
    vstd::set_lib::lemma_len_subset(t, all);
    if grams.len() == 0 {
        assert forall|c: int| !t.contains(c) by {
            if t.contains(c) { let (g, i) = choose|g: Gram, i: int| grams.count(g) > 0 && 0 <= i < hashes && #[trigger] cell_of(table, g, i) == c; }
        }
        assert(t =~= Set::empty());
    } else {
        let g = grams.choose();
        assert(grams.count(g) > 0) by { }
        assert(t.contains(cell_of(table, g, 0)));
        if t.len() == 0 { assert(t =~= Set::empty()); }
    }
}

// ------------------------------------------------------------------ a job
pub ghost struct JobSpec { pub path: int, pub limit: Option<usize>, pub tok: Tk, pub n: int, pub table: int }
pub open spec fn job_effect(j: JobSpec, v: int, c: int) -> int { v }
pub open spec fn job_feeds(j: JobSpec) -> Multiset<Gram> { docs_wins(documents(j.path, j.limit), j.tok, j.n).to_multiset() }
pub open spec fn fed_by(jobs: Seq<JobSpec>, table: int) -> Multiset<Gram>
    decreases jobs.len()
{ if jobs.len() == 0 { Multiset::empty() } else { let m = fed_by(jobs.drop_last(), table); if jobs.last().table == table { m.add(job_feeds(jobs.last())) } else { m } } }
/// every job done: each fed the ngrams of its documents to its table, once
pub open spec fn ext_ran(jobs: Seq<JobSpec>, a: Ext, b: Ext) -> bool {
    forall|t: int| #[trigger] b.fed[t] == a.fed[t].add(fed_by(jobs, t))
}
pub open spec fn may_join(e: Ext) -> bool { true }
pub struct UniqueJob { pub tokenizer: Option<PretrainedTokenizer>, pub ngram_counts: Arc<NgramCounter<AtomicU8>>, pub ngram: usize }
impl Task for UniqueJob {
    open spec fn ready(&self) -> bool { self.ngram >= 1 }
    open spec fn spec(&self, path: int, limit: Option<usize>) -> JobSpec {
        JobSpec { path, limit, tok: tk_of(self.tokenizer), n: self.ngram as int, table: self.ngram_counts.id() }
    }
}
pub struct Opt {
    pub path: Vec<PathBuf>, pub ngram: usize, pub limit: Option<usize>, pub file_limit: Option<usize>, pub workers: Option<usize>,
    pub size: u64, pub hashes: u8, pub seed: Option<u64>, pub quiet: bool, pub json: bool, pub tokenizer: Text,
}
proof fn lemma_no_grams()
    ensures Seq::<Gram>::empty().to_multiset() == Multiset::<Gram>::empty(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(Seq::<Gram>::empty().to_multiset() =~= Multiset::<Gram>::empty());
}
fn collect_ngrams(data: Data, tokenizer: &Option<PretrainedTokenizer>, ngram_counts: &Arc<NgramCounter<AtomicU8>>, opt: &Opt, w: &mut World) -> (r: Result<()>)
    requires opt.ngram >= 1,
    ensures final(w).out == old(w).out, final(w).fs == old(w).fs, final(w).jobs == old(w).jobs,
        // exactly the ngrams of the document, each as often as it occurs
        r is Ok ==> forall|t: int| #[trigger] final(w).ext@.fed[t] == (if t == ngram_counts.id() {
            old(w).ext@.fed[t].add(doc_wins(data, tk_of(*tokenizer), opt.ngram as int).to_multiset()) } else { old(w).ext@.fed[t] }),
{
    let ghost d = data;
    let ghost f0 = w.ext@.fed;
    let ghost id = ngram_counts.id();
    let ghost n = opt.ngram as int;
    let ghost mut all: Tokens = Seq::empty();
/*@body
@file src/cmd/unique.rs
@item main@execute#0.1
@params data _ _
@locals text tokens ngram_deque token
@known tokenizer ngram_counts opt
@world increment
@sub? Box<dyn Iterator<Item = String>> =>> TokIter
@sub? VecDeque<String> =>> VecDeque<Tok>
@closure 0 == |s| s.to_string() OR |s| s.into() OR |s| s.to_owned() OR |s| String::from(s)
Into_
@pre 0
    proof {
        lemma_no_grams();
        all = __it0.rest();
        assert(all == toks(tk_of(*tokenizer), text@));
        assert(all.take(0) =~= Seq::<Tok>::empty());
        assert(all.skip(0) =~= all);
        assert(f0[id].add(wins(all.take(0), n).to_multiset()) =~= f0[id]);
    }
    let ghost mut fed = false;
@top 0
    broadcast use axiom_positive, axiom_positive32, axiom_positive64;
    let ghost done = all.take(all.len() - __it0.rest().len() - 1);
    proof {
        assert(token == all[done.len() as int]);
        lemma_slide(done, token, n);
        assert(all.take(done.len() as int + 1) =~= done.push(token));
    }
@bottom 0
    proof {
        assert(__it0.rest() =~= all.skip(done.len() as int + 1));
        if done.len() + 1 >= n {
            vstd::seq_lib::to_multiset_build(wins(done, n), window_of(done.push(token), n));
        }
        assert(w.ext@.fed[id] =~= f0[id].add(wins(done.push(token), n).to_multiset()));
    }
@loop 0 for
    invariant
        n == opt.ngram, n >= 1, id == ngram_counts.id(),
        w.out == old(w).out, w.fs == old(w).fs, w.jobs == old(w).jobs,
        __it0.rest().len() <= all.len(),
        __it0.rest() == all.skip(all.len() - __it0.rest().len()),
        ngram_deque@ == window_of(all.take(all.len() - __it0.rest().len()), n),
        w.ext@.fed[id] == f0[id].add(wins(all.take(all.len() - __it0.rest().len()), n).to_multiset()),
        forall|t: int| t != id ==> #[trigger] w.ext@.fed[t] == f0[t],
    ensures
        __it0.rest().len() == 0,
    decreases __it0.rest().len(),
@end
    proof {
        lemma_no_grams();
        if d.text is Some { assert(all.take(all.len() as int) =~= all); }
        else { assert forall|t: int| t == id implies #[trigger] f0[t] == f0[t].add(doc_wins(d, tk_of(*tokenizer), n).to_multiset()) by {
            assert(f0[t].add(doc_wins(d, tk_of(*tokenizer), n).to_multiset()) =~= f0[t]);
        } }
    }
@*/
}

// ------------------------------------------------------------------ the command
pub open spec fn tok_of(opt: Opt) -> Tk { if opt.tokenizer@ == "unicode"@ { Tk::Unicode } else { Tk::Pretrained(tokenizer_named(opt.tokenizer@)) } }
pub open spec fn paths_of(opt: Opt) -> Seq<int> {
    let e = expanded(ids(opt.path@));
    match opt.file_limit { Some(n) => if n < e.len() { e.take(n as int) } else { e }, None => e }
}
pub open spec fn jobs_for(opt: Opt, table: int, paths: Seq<int>) -> Seq<JobSpec> {
    paths.map_values(|p: int| JobSpec { path: p, limit: opt.limit, tok: tok_of(opt), n: opt.ngram as int, table })
}
proof fn lemma_fed(opt: Opt, table: int, paths: Seq<int>)
    ensures fed_by(jobs_for(opt, table, paths), table) == all_grams(paths, opt.limit, tok_of(opt), opt.ngram as int),
    decreases paths.len(),
{
    if paths.len() > 0 {
        lemma_fed(opt, table, paths.drop_last());
        assert(jobs_for(opt, table, paths).drop_last() =~= jobs_for(opt, table, paths.drop_last()));
    }
}
pub open spec fn rejected(opt: Opt) -> bool {
    ||| expanded(ids(opt.path@)).len() == 0
    ||| opt.size == 0
    ||| opt.hashes == 0
    ||| opt.ngram == 0
}
pub open spec fn line(n: int) -> OutLine { OutLine::Json(JV::Obj(Seq::<(Chars, JV)>::empty().push(("unique_count"@, JV::Num(n))))) }

#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
fn unique_main(mut opt: Opt, w: &mut World) -> (r: Result<()>)
    requires old(w).jobs@.len() == 0, !old(w).joined@,
    ensures
        // C12: the number of cells of a table of the given size that the ngrams of the processed documents touch
        r is Ok && opt.json ==> exists|table: int| final(w).out@ == old(w).out@.push(line(
            #[trigger] touched(table, opt.size as int, opt.hashes as int, all_grams(paths_of(opt), opt.limit, tok_of(opt), opt.ngram as int)).len() as int)),  // [C12 C23]
        r is Ok && !opt.json ==> final(w).out@ == old(w).out@.push(OutLine::Other),  // [C23]
        final(w).fs == old(w).fs,
        // C19: a row only when every job is done without failure
        r is Ok ==> final(w).joined@,  // [C19]
        r is Err ==> final(w).out@ == old(w).out@,  // [C19]
        // C26
        rejected(opt) ==> r is Err && final(w).jobs@.len() == 0,  // [C26]
{
    let ghost opt0 = opt;
    let ghost tok = tok_of(opt);
    let ghost paths = paths_of(opt);
    let ghost mut id = 0int;
/*@body
@file src/cmd/unique.rs
@item main
@params opt
@locals tokenizer counter_size ngram_counts executor path collect_ngrams unique_count
@world NgramCounter::new DataExecutor::new executor.execute executor.join nonzero
@eq
@io
@closure 0
UniqueJob { tokenizer, ngram_counts, ngram: opt.ngram }
@pre 0
    proof {
        id = ngram_counts.id();
        assert(ids(opt.path@) =~= paths_of(opt0));
        assert(tk_of(tokenizer) == tok);
        assert(!rejected(opt0)); // [C26]
        assert(w.jobs@ =~= jobs_for(opt0, id, paths.take(0)));
    }
@bottom 0
        proof {
            let n = __it0.pos();
            assert(paths.take(n) =~= paths.take(n - 1).push(path.id()));
            assert(w.jobs@ =~= jobs_for(opt0, id, paths.take(n)));  // [C12]
        }
@loop 0 for
    invariant
        __it0.v == &opt.path, 0 <= __it0.i <= __it0.v@.len(),
        w.out == old(w).out, w.fs == old(w).fs, !w.joined@,
        w.ext@.fed[id] == Multiset::<Gram>::empty(),
        w.jobs@ == jobs_for(opt0, id, paths.take(__it0.pos())),  // [C12]
    ensures
        __it0.pos() == paths.len(),
    decreases __it0.v@.len() - __it0.pos(),
@after 0
    proof {
        assert(paths.take(paths.len() as int) =~= paths);
        lemma_fed(opt0, id, paths);
        assert(Multiset::<Gram>::empty().add(fed_by(w.jobs@, id)) =~= fed_by(w.jobs@, id));
    }
@*/
}
} // verus!
fn main() {}
