#![allow(unused)]
// Unit `botk_cmd`: src/cmd/botk.rs.
//@claims C11: count_down collect_ngrams send_local new_local one_job botk_main theorem_select theorem_windows theorem_botk_rows
//@claims C19: botk_main
//@claims C21: send_local botk_main theorem_select
//@claims C22: get_output_file botk_main
//@claims C20: ~botk_main
//@claims C23: botk_main
//@claims C26: botk_main
//@variant u32 INT=u32 ATOMIC=AtomicU32
use vstd::prelude::*;
use vstd::multiset::Multiset;
use std::rc::Rc;
use vstd::std_specs::cmp::*;
use std::sync::Arc;
//@include shim_macros.rs
macro_rules! json { ({ $($k:literal : $v:expr),* $(,)? }) => { Json::object()$(.with($k, &$v))* } }
// the text of a generated file name is left open
macro_rules! format { ($($t:tt)*) => { vx_some_text() } }
verus! {
global size_of usize == 8;
//@include shim_std.rs
#[verifier::external_body]
pub fn vx_nondet() -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_unreached<T>() -> (r: T) requires false { unimplemented!() }
//@include shim_result.rs
//@include shim_cmd.rs
#[verifier::external_body]
pub fn vx_some_text() -> (r: Text) { unimplemented!() }
//@include shim_grams.rs
//@include shim_deque.rs
//@include shim_ngcmd.rs
//@include shim_topkcmd.rs
//@include topk_lemmas.rs
type A = ${ATOMIC};

/// the probability given with --p-keep (f32); random() draws one
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Prob { x: f32 }
pub uninterp spec fn prob_cmp(p: Prob, x: f32) -> Option<core::cmp::Ordering>;
impl PartialEq<f32> for Prob { #[verifier::external_body] fn eq(&self, o: &f32) -> (r: bool) { unimplemented!() } }
impl PartialOrd<f32> for Prob { #[verifier::external_body] fn partial_cmp(&self, o: &f32) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl PartialEqSpecImpl<f32> for Prob { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &f32) -> bool { prob_cmp(*self, *o) == Some(core::cmp::Ordering::Equal) } }
impl PartialOrdSpecImpl<f32> for Prob { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &f32) -> Option<core::cmp::Ordering> { prob_cmp(*self, *o) } }
impl PartialEq for Prob { #[verifier::external_body] fn eq(&self, o: &Prob) -> (r: bool) { unimplemented!() } }
impl PartialOrd for Prob { #[verifier::external_body] fn partial_cmp(&self, o: &Prob) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
/// above 0 and at most 1 (so not NaN)
pub open spec fn in_unit(p: Prob) -> bool {
    prob_cmp(p, 0.0f32) == Some(core::cmp::Ordering::Greater)
    && (prob_cmp(p, 1.0f32) == Some(core::cmp::Ordering::Less) || prob_cmp(p, 1.0f32) == Some(core::cmp::Ordering::Equal))
}
#[verifier::external_body]
pub fn random<T>() -> (r: T) { unimplemented!() }
#[verifier::external_body]
pub struct StdRng { x: u64 }
impl StdRng {
    #[verifier::external_body]
    pub fn seed_from_u64(s: u64) -> (r: StdRng) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_entropy() -> (r: StdRng) { unimplemented!() }
}
pub open spec fn reordered(a: Seq<int>, b: Seq<int>) -> bool { a.to_multiset() == b.to_multiset() }
impl SliceRandom for Vec<PathBuf> {
    #[verifier::external_body]
    fn shuffle(&mut self, rng: &mut StdRng) { unimplemented!() }
}
pub trait SliceRandom: Sized + View<V = Seq<PathBuf>> {
    fn shuffle(&mut self, rng: &mut StdRng) ensures final(self)@.len() == old(self)@.len(), forall|s: Seq<int>| s =~= ids(old(self)@) ==> #[trigger] reordered(s, ids(final(self)@));
}

/// what a count read from a table says whose cells started at the maximum and were decremented once per occurrence in `fed`,
/// and which no running job changes (units `counter_conc`: `theorem_no_update_lost`, `theorem_read_after`, and `counter`: C02)
pub open spec fn read_ok(table: int, fed: Multiset<Gram>, g: Gram, c: int) -> bool {
    &&& 0 <= c <= MAXV
    &&& in_range(table) ==> c <= MAXV - min2(fed.count(g) as int, MAXV)
    &&& in_range(table) && no_collisions(table) ==> c == MAXV - min2(fed.count(g) as int, MAXV)
}
/// join returned Ok
pub open spec fn ext_ran(jobs: Seq<JobSpec>, a: Ext, b: Ext) -> bool {
    &&& b == (Ext { fed: b.fed, ..a })
    &&& forall|t: int| #[trigger] b.fed[t] == a.fed[t].add(fed_by(jobs, t, -1))
    // jobs that only read
    &&& a.active && (forall|i: int| 0 <= i < jobs.len() ==> (#[trigger] jobs[i]).by == 0) ==> exists|outs: Seq<JobOut>| #[trigger] ran_with(jobs, outs, b)
}
pub open spec fn ran_with(jobs: Seq<JobSpec>, outs: Seq<JobOut>, e: Ext) -> bool {
    &&& finished(jobs, outs, e.got)
    &&& forall|t: int, g: Gram, c: int| #[trigger] evented(outs, t, g, c) && e.base[t] == MAXV ==> read_ok(t, e.fed[t], g, c)
}
/// the first pass
pub struct CountJob { pub tokenizer: Option<PretrainedTokenizer>, pub ngram_counts: Arc<NgramCounter<A>>, pub ngram: usize }
impl Task for CountJob {
    open spec fn ready(&self) -> bool { self.ngram >= 1 }
    open spec fn spec(&self, path: int, limit: Option<usize>) -> JobSpec {
        JobSpec { path, limit, tok: tk_of(self.tokenizer), n: self.ngram as int, table: self.ngram_counts.id(), by: -1, thr: 0, cell: 0, k: 0, cthr: 0, ccell: 0, all: false }
    }
}
/// the second pass
pub struct CollectJob { pub tokenizer: Option<PretrainedTokenizer>, pub ngram_counts: Arc<NgramCounter<A>>, pub min_count: Arc<A>, pub threshold: Int, pub ngram: usize, pub p_keep: Option<Prob> }
pub struct SendJob { pub min_count: Arc<A>, pub threshold: Int, pub tx: Sender }
pub struct NewJob { pub k: usize }
impl Task3<NewJob, SendJob> for CollectJob {
    open spec fn ready3(&self, f: NewJob, c: SendJob, path: int, limit: Option<usize>, e: Ext) -> bool { self.ngram >= 1 }
    open spec fn repeatable(&self) -> bool { false }
    open spec fn spec3(&self, f: NewJob, c: SendJob, path: int, limit: Option<usize>) -> JobSpec {
        JobSpec { path, limit, tok: tk_of(self.tokenizer), n: self.ngram as int, table: self.ngram_counts.id(), by: 0, thr: self.threshold as int,
            cell: self.min_count.id(), k: f.k as int, cthr: c.threshold as int, ccell: c.min_count.id(), all: self.p_keep is None }
    }
    open spec fn handed(&self, f: NewJob, c: SendJob, a: Ext, b: Ext) -> bool { b == (Ext { open: a.open - 1, ..a }) }
}
pub struct Opt {
    pub path: Vec<PathBuf>, pub ngram: usize, pub limit: Option<usize>, pub file_limit: Option<usize>, pub workers: Option<usize>, pub k: usize,
    pub size: u64, pub hashes: u8, pub seed: Option<u64>, pub out: Option<PathBuf>, pub quiet: bool, pub json: bool, pub force: bool,
    pub tokenizer: Text, pub threshold: u32, pub p_keep: Option<Prob>,
}
/// first pass: every ngram of the document is taken off the table, once per occurrence
fn count_down(data: Data, tokenizer: &Option<PretrainedTokenizer>, ngram_counts: &Arc<NgramCounter<A>>, opt: &Opt, w: &mut World) -> (r: Result<()>)
    requires opt.ngram >= 1, ops(old(w).ext@.log, ngram_counts.id(), -1),
    ensures
        final(w).ext@ == (Ext { log: final(w).ext@.log, ..old(w).ext@ }), same_but_ext(*old(w), *final(w)),
        r is Ok ==> grams_of(final(w).ext@.log) == grams_of(old(w).ext@.log) + doc_wins(data, tk_of(*tokenizer), opt.ngram as int)
            && ops(final(w).ext@.log, ngram_counts.id(), -1),
{
    let ghost d = data;
    let ghost l0 = w.ext@.log;
    let ghost n = opt.ngram as int;
    let ghost mut all: Tokens = Seq::empty();
/*@body
@file src/cmd/botk.rs
@item main@execute#0.1
@params data _ _
@locals text tokens ngram_deque token
@known tokenizer ngram_counts opt
@world decrement
@sub? Box<dyn Iterator<Item = String>> =>> TokIter
@sub? VecDeque<String> =>> VecDeque<Tok>
@closure 0 == |s| s.to_string() OR |s| s.into() OR |s| s.to_owned() OR |s| String::from(s)
Into_
@pre 0
    proof {
        all = __it0.rest();
        assert(all == toks(tk_of(*tokenizer), text@));
        assert(all.take(0) =~= Seq::<Tok>::empty());
        assert(all.skip(0) =~= all);
        assert(grams_of(l0) + wins(all.take(0), n) =~= grams_of(l0));
    }
@top 0
    let ghost done = all.take(all.len() - __it0.rest().len() - 1);
    let ghost l1 = w.ext@.log;
    proof {
        assert(token == all[done.len() as int]);
        lemma_slide(done, token, n);
        assert(all.take(done.len() as int + 1) =~= done.push(token));
    }
@bottom 0
    proof {
        assert(__it0.rest() =~= all.skip(done.len() as int + 1));
        if done.len() + 1 >= n {
            let e = w.ext@.log.last();
            assert(w.ext@.log =~= l1.push(e));
            assert(e.g == window_of(done.push(token), n));
            assert(grams_of(w.ext@.log) =~= grams_of(l1).push(e.g));
            assert(grams_of(l0) + wins(done.push(token), n) =~= grams_of(l1).push(e.g));
        }
    }
@loop 0 for
    invariant
        n == opt.ngram, n >= 1,
        w.ext@ == (Ext { log: w.ext@.log, ..old(w).ext@ }), same_but_ext(*old(w), *w),
        __it0.rest().len() <= all.len(),
        __it0.rest() == all.skip(all.len() - __it0.rest().len()),
        ngram_deque@ == window_of(all.take(all.len() - __it0.rest().len()), n),
        grams_of(w.ext@.log) == grams_of(l0) + wins(all.take(all.len() - __it0.rest().len()), n),
        ops(w.ext@.log, ngram_counts.id(), -1),
    ensures
        __it0.rest().len() == 0,
    decreases __it0.rest().len(),
@end
    proof {
        if d.text is Some { assert(all.take(all.len() as int) =~= all); }
        else { assert(grams_of(l0) + doc_wins(d, tk_of(*tokenizer), n) =~= grams_of(l0)); }
    }
@*/
}
// ------------------------------------------------------------------ a worker
fn collect_ngrams(data: Data, tokenizer: &Option<PretrainedTokenizer>, ngram_counts: &Arc<NgramCounter<A>>, min_count: &Arc<A>, threshold: Int, opt: &Opt,
                  local_topk: &mut TopKNgrams, w: &mut World, Ghost(h0): Ghost<Map<Gram, int>>) -> (r: Result<()>)
    requires
        opt.ngram >= 1, old(local_topk).wf(h0), covered(h0, old(w).ext@.log, threshold as int, final_min(min_count.id()), opt.p_keep is None),
        ops(old(w).ext@.log, ngram_counts.id(), 0),
    ensures
        final(local_topk).k == old(local_topk).k, final(local_topk).fresh() == old(local_topk).fresh(),
        final(w).ext@ == (Ext { log: final(w).ext@.log, ..old(w).ext@ }), same_but_ext(*old(w), *final(w)),
        // exactly the ngrams of the document are looked up, each once per occurrence; of those above the threshold only
        // such are left out of the local structure that cannot end up in the result
        r is Ok ==> grams_of(final(w).ext@.log) == grams_of(old(w).ext@.log) + doc_wins(data, tk_of(*tokenizer), opt.ngram as int)
            && ops(final(w).ext@.log, ngram_counts.id(), 0)
            && exists|h: Map<Gram, int>| #[trigger] final(local_topk).wf(h) && covered(h, final(w).ext@.log, threshold as int, final_min(min_count.id()), opt.p_keep is None),
{
    let ghost d = data;
    let ghost l0 = w.ext@.log;
    let ghost n = opt.ngram as int;
    let ghost m = final_min(min_count.id());
    let ghost mut all: Tokens = Seq::empty();
    let ghost mut h = h0;
/*@body
@file src/cmd/botk.rs
@item main@execute_with_callback#0.1
@params data _ _ local_topk
@locals text tokens ngram_deque token inverse_count p_keep ngram
@known tokenizer ngram_counts opt threshold min_count
@world max_count
@sub? Box<dyn Iterator<Item = String>> =>> TokIter
@sub? VecDeque<String> =>> VecDeque<Tok>
@sub? Vec<String> =>> Vec<Tok>
@sub? f32 =>> Prob
@closure 0 == |s| s.to_string() OR |s| s.into() OR |s| s.to_owned() OR |s| String::from(s)
Into_
@pre 0
    proof {
        all = __it0.rest();
        assert(all == toks(tk_of(*tokenizer), text@));
        assert(all.take(0) =~= Seq::<Tok>::empty());
        assert(all.skip(0) =~= all);
        assert(grams_of(l0) + wins(all.take(0), n) =~= grams_of(l0));
    }
@top 0
    let ghost done = all.take(all.len() - __it0.rest().len() - 1);
    let ghost lt = *local_topk;
    let ghost l1 = w.ext@.log;
    proof {
        assert(token == all[done.len() as int]);
        lemma_slide(done, token, n);
        assert(all.take(done.len() as int + 1) =~= done.push(token));
    }
@before? continue;
 =>>
    proof {
        assert(__it0.rest() =~= all.skip(done.len() as int + 1));
        if done.len() + 1 >= n {
            let e = w.ext@.log.last();
            assert(w.ext@.log =~= l1.push(e));
            assert(e.g == window_of(done.push(token), n));
            assert(grams_of(w.ext@.log) =~= grams_of(l1).push(e.g));
            assert(grams_of(l0) + wins(done.push(token), n) =~= grams_of(l1).push(e.g));
            lemma_cover(h, l1, e, threshold as int, m, opt.p_keep is None);
            if e.c >= 1 { lemma_min_pair_skip(lt.held(), h, lt.k as int, e.g, e.c, lt.min_count as int); lemma_maxed(h, e.g, e.c); }
            if e.c > threshold && local_topk.wf(maxed(h, e.g, e.c)) { h = maxed(h, e.g, e.c); }
            assert(covered(h, w.ext@.log, threshold as int, m, opt.p_keep is None));  // [C10]
        }
    }
@bottom 0
    proof {
        assert(__it0.rest() =~= all.skip(done.len() as int + 1));
        if done.len() + 1 >= n {
            let e = w.ext@.log.last();
            assert(w.ext@.log =~= l1.push(e));
            assert(e.g == window_of(done.push(token), n));
            assert(grams_of(w.ext@.log) =~= grams_of(l1).push(e.g));
            assert(grams_of(l0) + wins(done.push(token), n) =~= grams_of(l1).push(e.g));
            lemma_cover(h, l1, e, threshold as int, m, opt.p_keep is None);
            if e.c >= 1 { lemma_min_pair_skip(lt.held(), h, lt.k as int, e.g, e.c, lt.min_count as int); lemma_maxed(h, e.g, e.c); }
            if e.c > threshold && local_topk.wf(maxed(h, e.g, e.c)) { h = maxed(h, e.g, e.c); }
            assert(covered(h, w.ext@.log, threshold as int, m, opt.p_keep is None));  // [C10]
        }
    }
@loop 0 for
    invariant
        n == opt.ngram, n >= 1, m == final_min(min_count.id()),
        local_topk.k == old(local_topk).k, local_topk.fresh() == old(local_topk).fresh(),
        w.ext@ == (Ext { log: w.ext@.log, ..old(w).ext@ }), same_but_ext(*old(w), *w),
        __it0.rest().len() <= all.len(),
        __it0.rest() == all.skip(all.len() - __it0.rest().len()),
        ngram_deque@ == window_of(all.take(all.len() - __it0.rest().len()), n),
        grams_of(w.ext@.log) == grams_of(l0) + wins(all.take(all.len() - __it0.rest().len()), n),
        ops(w.ext@.log, ngram_counts.id(), 0),
        local_topk.wf(h), covered(h, w.ext@.log, threshold as int, m, opt.p_keep is None),
    ensures
        __it0.rest().len() == 0,
    decreases __it0.rest().len(),
@end
    proof {
        if d.text is Some { assert(all.take(all.len() as int) =~= all); }
        else { assert(grams_of(l0) + doc_wins(d, tk_of(*tokenizer), n) =~= grams_of(l0)); }
        assert(local_topk.wf(h) && covered(h, w.ext@.log, threshold as int, m, opt.p_keep is None));
    }
@*/
}
fn send_local(mut local_topk: TopKNgrams, min_count: &Arc<A>, threshold: Int, tx: &Sender, w: &mut World) -> (r: Result<()>)
    requires old(w).ext@.sent.len() == 0, forall|p: Pair| #[trigger] local_topk.held().contains(p) ==> p.0 >= 1,
    ensures
        final(w).ext@ == (Ext { sent: final(w).ext@.sent, ..old(w).ext@ }), same_but_ext(*old(w), *final(w)),
        r is Ok ==> sent_right(local_topk.held(), final(w).ext@.sent, threshold as int, final_min(min_count.id())),  // [C10 C21]
{
    let ghost held = local_topk.held();
    let ghost m = final_min(min_count.id());
/*@body
@file src/cmd/botk.rs
@item main@execute_with_callback#0.3
@params local_topk
@locals ngram inverse_count
@known min_count threshold tx
@world drain tx.send tx.try_send
@top 0
    let ghost s1 = w.ext@.sent;
    let ghost x = Ins { g: ngram@, c: inverse_count as int };
    proof { assert(__it0.all().contains(__it0.all()[__it0.pos() - 1])); }
@bottom 0
    proof {
        let s2 = w.ext@.sent;
        assert(s2 == s1 || s2 == s1.push(x));
        assert forall|y: Ins| #[trigger] s2.contains(y) <==> s1.contains(y) || s2 != s1 && y == x by {
            if s2 != s1 {
                if s1.contains(y) { let i = choose|i: int| 0 <= i < s1.len() && s1[i] == y; assert(s2[i] == y); }
                if y == x { assert(s2[s1.len() as int] == x); }
            }
        }
        assert forall|i: int| 0 <= i < __it0.pos() && (#[trigger] __it0.all()[i]).0 > threshold && __it0.all()[i].0 >= m implies
            s2.contains(Ins { g: __it0.all()[i].1, c: __it0.all()[i].0 }) by {
            if i == __it0.pos() - 1 { assert(s2.contains(x)); }  // [C10 C21]
        }
    }
@loop 0 for
    invariant
        w.ext@ == (Ext { sent: w.ext@.sent, ..old(w).ext@ }), same_but_ext(*old(w), *w),
        m == final_min(min_count.id()),
        0 <= __it0.pos() <= __it0.all().len(), __it0.all().to_set() == held,
        forall|p: Pair| #[trigger] __it0.all().contains(p) ==> p.0 >= 1 && held.contains(p),
        forall|i: int| 0 <= i < __it0.pos() && (#[trigger] __it0.all()[i]).0 > threshold && __it0.all()[i].0 >= m ==>
            w.ext@.sent.contains(Ins { g: __it0.all()[i].1, c: __it0.all()[i].0 }),
        forall|y: Ins| #[trigger] w.ext@.sent.contains(y) ==> held.contains((y.c, y.g)),
    ensures
        __it0.pos() == __it0.all().len(),
    decreases __it0.all().len() - __it0.pos(),
@after 0
    proof { assert(sent_right(held, w.ext@.sent, threshold as int, m)); }
@*/
}
fn new_local(opt: &Opt) -> (r: Result<TopKNgrams>)
    ensures r is Ok ==> r->Ok_0.k == opt.k && r->Ok_0.wf(Map::empty()) && r->Ok_0.fresh(),
{
/*@body
@file src/cmd/botk.rs
@item main@execute_with_callback#0.2
@params
@locals topk
@known opt
@sub? TopKNgrams<String, AtomicU32> =>> TopKNgrams
@*/
}
/// what the executor does with the three closures (unit `exec`: context, every document in order, callback): a `job_out`
fn one_job(mut docs: Docs, path: Ghost<int>, limit: Ghost<Option<usize>>, tokenizer: &Option<PretrainedTokenizer>, ngram_counts: &Arc<NgramCounter<A>>,
           min_count: &Arc<A>, threshold: Int, opt: &Opt, min_count2: &Arc<A>, threshold2: Int, tx: &Sender, w: &mut World) -> (r: Result<()>)
    requires opt.ngram >= 1, docs.all() == documents(path@, limit@), docs.pos() == 0, old(w).ext@.log.len() == 0, old(w).ext@.sent.len() == 0,
    ensures r is Ok ==> exists|o: JobOut| o.log == final(w).ext@.log && o.sent == final(w).ext@.sent
        && #[trigger] job_out(JobSpec { path: path@, limit: limit@, tok: tk_of(*tokenizer), n: opt.ngram as int, table: ngram_counts.id(), by: 0, thr: threshold as int,
            cell: min_count.id(), k: opt.k as int, cthr: threshold2 as int, ccell: min_count2.id(), all: opt.p_keep is None }, o),
{
    let ghost m = final_min(min_count.id());
    let mut local = new_local(opt)?;
    let ghost mut h = Map::<Gram, int>::empty();
    proof { assert(grams_of(w.ext@.log) =~= docs_wins(docs.all().take(0), tk_of(*tokenizer), opt.ngram as int)); }
    loop
        invariant
            opt.ngram >= 1, m == final_min(min_count.id()), 0 <= docs.pos() <= docs.all().len(), docs.all() == documents(path@, limit@),
            local.k == opt.k, local.wf(h), covered(h, w.ext@.log, threshold as int, m, opt.p_keep is None), ops(w.ext@.log, ngram_counts.id(), 0),
            grams_of(w.ext@.log) == docs_wins(docs.all().take(docs.pos()), tk_of(*tokenizer), opt.ngram as int),
            w.ext@.sent.len() == 0,
        ensures docs.pos() == docs.all().len(),
        decreases docs.all().len() - docs.pos(),
    {
        let ghost p = docs.pos();
        match docs.next() {
            None => break,
            Some(d) => {
                collect_ngrams(d, tokenizer, ngram_counts, min_count, threshold, opt, &mut local, w, Ghost(h))?;
                proof {
                    h = choose|h: Map<Gram, int>| #[trigger] local.wf(h) && covered(h, w.ext@.log, threshold as int, m, opt.p_keep is None);
                    let t = docs.all().take(p + 1);
                    assert(t.drop_last() =~= docs.all().take(p));
                    assert(t.last() == d);
                }
            }
        }
    }
    let ghost held = local.held();
    proof {
        assert(docs.all().take(docs.all().len() as int) =~= docs.all());
        assert forall|p: Pair| #[trigger] held.contains(p) implies p.0 >= 1 by { assert(in_pairs(h, p)); assert(h.dom().contains(p.1)); }
    }
    send_local(local, min_count2, threshold2, tx, w)?;
    proof {
        let o = JobOut { log: w.ext@.log, h, held, sent: w.ext@.sent };
        assert(job_out(JobSpec { path: path@, limit: limit@, tok: tk_of(*tokenizer), n: opt.ngram as int, table: ngram_counts.id(), by: 0, thr: threshold as int,
            cell: min_count.id(), k: opt.k as int, cthr: threshold2 as int, ccell: min_count2.id(), all: opt.p_keep is None }, o));
    }
    Ok(())
}

// ------------------------------------------------------------------ the command
pub open spec fn tok_of(opt: Opt) -> Tk { if opt.tokenizer@ == "unicode"@ { Tk::Unicode } else { Tk::Pretrained(tokenizer_named(opt.tokenizer@)) } }
pub open spec fn used_paths(opt: Opt) -> Seq<int> {
    let e = expanded(ids(opt.path@));
    match opt.file_limit { Some(n) => if n < e.len() { e.take(n as int) } else { e }, None => e }
}
/// the ngrams of all processed documents, each as often as it occurs
pub open spec fn grams(opt: Opt) -> Multiset<Gram> { all_grams(used_paths(opt), opt.limit, tok_of(opt), opt.ngram as int) }
pub open spec fn in_rows(rows: Seq<Pair>, g: Gram) -> bool { exists|i: int| 0 <= i < rows.len() && (#[trigger] rows[i]).1 == g }
/// `rows`: how much is left of the maximum, and the ngram
#[verifier::opaque]
pub open spec fn botk_right(opt: Opt, table: int, rows: Seq<Pair>) -> bool {
    &&& rows.len() <= opt.k
    // ascending by count
    &&& descending(rows)
    &&& forall|i: int, j: int| 0 <= i < j < rows.len() ==> (#[trigger] rows[i]).1 != (#[trigger] rows[j]).1
    // below the threshold, an ngram of the data, never undercounted
    &&& forall|i: int| 0 <= i < rows.len() ==> MAXV - (#[trigger] rows[i]).0 < opt.threshold && rows[i].0 <= MAXV && grams(opt).count(rows[i].1) > 0
            && (in_range(table) ==> MAXV - rows[i].0 >= min2(grams(opt).count(rows[i].1) as int, MAXV))
    // exact, and (unless dropped at random) the smallest, without collisions
    &&& in_range(table) && no_collisions(table) ==> {
        &&& forall|i: int| 0 <= i < rows.len() ==> MAXV - (#[trigger] rows[i]).0 == min2(grams(opt).count(rows[i].1) as int, MAXV)
        &&& opt.p_keep is None ==> forall|g: Gram| #[trigger] grams(opt).count(g) > 0 && min2(grams(opt).count(g) as int, MAXV) < opt.threshold ==>
                in_rows(rows, g) || rows.len() == opt.k && forall|i: int| 0 <= i < rows.len() ==> MAXV - (#[trigger] rows[i]).0 <= min2(grams(opt).count(g) as int, MAXV)
    }
}
proof fn lemma_fed(jobs: Seq<JobSpec>, paths: Seq<int>, limit: Option<usize>, tok: Tk, n: int, table: int, by: int)
    requires jobs.len() == paths.len(),
        forall|i: int| 0 <= i < jobs.len() ==> (#[trigger] jobs[i]).path == paths[i] && jobs[i].limit == limit && jobs[i].tok == tok && jobs[i].n == n && jobs[i].table == table && jobs[i].by == by,
    ensures fed_by(jobs, table, by) == all_grams(paths, limit, tok, n),
    decreases jobs.len(),
{
    if jobs.len() > 0 {
        let j = jobs.drop_last();
        assert forall|i: int| 0 <= i < j.len() implies (#[trigger] j[i]).path == paths.drop_last()[i] && j[i].limit == limit && j[i].tok == tok && j[i].n == n && j[i].table == table && j[i].by == by by { assert(j[i] == jobs[i]); }
        lemma_fed(j, paths.drop_last(), limit, tok, n, table, by);
    }
}
/// the order of the inputs does not matter
proof fn lemma_without(a: Seq<int>, i: int, limit: Option<usize>, tok: Tk, n: int)
    requires 0 <= i < a.len(),
    ensures all_grams(a, limit, tok, n) =~= all_grams(a.remove(i), limit, tok, n).add(docs_wins(documents(a[i], limit), tok, n).to_multiset()),
    decreases a.len(),
{
    if i == a.len() - 1 { assert(a.remove(i) =~= a.drop_last()); }
    else {
        lemma_without(a.drop_last(), i, limit, tok, n);
        assert(a.remove(i).drop_last() =~= a.drop_last().remove(i));
        assert(a.remove(i).last() == a.last());
    }
}
proof fn lemma_order(a: Seq<int>, b: Seq<int>, limit: Option<usize>, tok: Tk, n: int)
    requires reordered(a, b),
    ensures all_grams(a, limit, tok, n) == all_grams(b, limit, tok, n),
    decreases a.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.len() == a.to_multiset().len() && b.len() == b.to_multiset().len());
    if a.len() > 0 {
        let x = b.last();
        assert(b.contains(x));
        assert(b.to_multiset().count(x) > 0);
        assert(a.contains(x));
        let i = choose|i: int| 0 <= i < a.len() && a[i] == x;
        lemma_without(a, i, limit, tok, n);
        assert(a.remove(i).to_multiset() =~= a.to_multiset().remove(x));
        assert(b.drop_last() =~= b.remove(b.len() - 1));
        assert(b.drop_last().to_multiset() =~= b.to_multiset().remove(x));
        lemma_order(a.remove(i), b.drop_last(), limit, tok, n);
    }
}
/// an ngram of the documents was looked up
proof fn lemma_occurs_evented(jobs: Seq<JobSpec>, outs: Seq<JobOut>, table: int, by: int, g: Gram)
    requires outs.len() == jobs.len(), forall|i: int| 0 <= i < jobs.len() ==> job_out(#[trigger] jobs[i], outs[i]) && jobs[i].by == by && jobs[i].table == table,
        fed_by(jobs, table, by).count(g) > 0,
    ensures exists|c: int| #[trigger] evented(outs, table, g, c),
    decreases jobs.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if jobs.len() > 0 {
        let j = jobs.drop_last(); let o = outs.drop_last();
        let l = jobs.len() - 1;
        assert(job_out(jobs[l], outs[l]));
        let w = docs_wins(documents(jobs[l].path, jobs[l].limit), jobs[l].tok, jobs[l].n);
        if w.to_multiset().count(g) > 0 {
            assert(w.contains(g));
            let k = choose|k: int| 0 <= k < w.len() && w[k] == g;
            assert(grams_of(outs[l].log)[k] == g);
            assert(outs[l].log[k] == (Ev { table, g, c: outs[l].log[k].c, by: outs[l].log[k].by }));
            assert(evented(outs, table, g, outs[l].log[k].c));
        } else {
            assert forall|q: int| 0 <= q < j.len() implies job_out(#[trigger] j[q], o[q]) && j[q].by == by && j[q].table == table by { assert(j[q] == jobs[q]); assert(o[q] == outs[q]); }
            lemma_occurs_evented(j, o, table, by, g);
            let c = choose|c: int| #[trigger] evented(o, table, g, c);
            let (i, k) = choose|i: int, k: int| 0 <= i < o.len() && 0 <= k < o[i].log.len() && #[trigger] o[i].log[k] == (Ev { table, g, c, by: o[i].log[k].by });
            assert(outs[i].log[k] == (Ev { table, g, c, by: outs[i].log[k].by }));
            assert(evented(outs, table, g, c));
        }
    }
}
pub open spec fn count_job(opt: Opt, path: int, table: int) -> JobSpec {
    JobSpec { path, limit: opt.limit, tok: tok_of(opt), n: opt.ngram as int, table, by: -1, thr: 0, cell: 0, k: 0, cthr: 0, ccell: 0, all: false }
}
pub open spec fn collect_job(opt: Opt, path: int, table: int, cell: int) -> JobSpec {
    JobSpec { path, limit: opt.limit, tok: tok_of(opt), n: opt.ngram as int, table, by: 0, thr: MAXV - opt.threshold, cell, k: opt.k as int,
        cthr: MAXV - opt.threshold, ccell: cell, all: opt.p_keep is None }
}
#[verifier::opaque]
pub open spec fn count_jobs(opt: Opt, paths: Seq<int>, table: int) -> Seq<JobSpec> { paths.map_values(|p: int| count_job(opt, p, table)) }
#[verifier::opaque]
pub open spec fn collect_jobs(opt: Opt, paths: Seq<int>, table: int, cell: int) -> Seq<JobSpec> { paths.map_values(|p: int| collect_job(opt, p, table, cell)) }
proof fn lemma_jobs_start(opt: Opt, paths: Seq<int>, table: int, cell: int)
    ensures count_jobs(opt, paths.take(0), table) == Seq::<JobSpec>::empty(), collect_jobs(opt, paths.take(0), table, cell) == Seq::<JobSpec>::empty(),
        paths.take(paths.len() as int) == paths,
{
    reveal(count_jobs); reveal(collect_jobs);
    assert(count_jobs(opt, paths.take(0), table) =~= Seq::empty());
    assert(collect_jobs(opt, paths.take(0), table, cell) =~= Seq::empty());
    assert(paths.take(paths.len() as int) =~= paths);
}
proof fn lemma_jobs_step(opt: Opt, paths: Seq<int>, n: int, table: int, cell: int)
    requires 0 < n <= paths.len(),
    ensures count_jobs(opt, paths.take(n), table) == count_jobs(opt, paths.take(n - 1), table).push(count_job(opt, paths[n - 1], table)),
        collect_jobs(opt, paths.take(n), table, cell) == collect_jobs(opt, paths.take(n - 1), table, cell).push(collect_job(opt, paths[n - 1], table, cell)),
{
    reveal(count_jobs); reveal(collect_jobs);
    assert(paths.take(n) =~= paths.take(n - 1).push(paths[n - 1]));
    assert(count_jobs(opt, paths.take(n), table) =~= count_jobs(opt, paths.take(n - 1), table).push(count_job(opt, paths[n - 1], table)));
    assert(collect_jobs(opt, paths.take(n), table, cell) =~= collect_jobs(opt, paths.take(n - 1), table, cell).push(collect_job(opt, paths[n - 1], table, cell)));
}
/// C11 from what the jobs did and what was received
proof fn theorem_botk_rows(opt: Opt, paths: Seq<int>, jobs: Seq<JobSpec>, outs: Seq<JobOut>, e: Ext, rows: Seq<Pair>, table: int, cell: int)
    requires
        reordered(used_paths(opt), paths),
        jobs == collect_jobs(opt, paths, table, cell),
        ran_with(jobs, outs, e), e.base[table] == MAXV, e.fed[table] == fed_by(count_jobs(opt, paths, table), table, -1),
        is_topk(rows.to_set(), best(e.got), opt.k as int), descending(rows),
        forall|p: Pair| #[trigger] rows.contains(p) ==> final_min(cell) <= p.0 <= MAXV,
        rows.to_set().len() < opt.k ==> final_min(cell) == 1,
    ensures botk_right(opt, table, rows),
{
    reveal(botk_right); reveal(descending); reveal(count_jobs); reveal(collect_jobs);
    let got = e.got;
    let r = rows.to_set();
    let k = opt.k as int;
    let thr = MAXV - opt.threshold;
    let all = opt.p_keep is None;
    lemma_fed(count_jobs(opt, paths, table), paths, opt.limit, tok_of(opt), opt.ngram as int, table, -1);
    lemma_fed(jobs, paths, opt.limit, tok_of(opt), opt.ngram as int, table, 0);
    lemma_order(used_paths(opt), paths, opt.limit, tok_of(opt), opt.ngram as int);
    assert(rows.no_duplicates()) by {
        broadcast use axiom_gram_lt;
        assert forall|i: int, j: int| 0 <= i < rows.len() && 0 <= j < rows.len() && i != j implies rows[i] != rows[j] by {
            if i < j { assert(plt(rows[j], rows[i])); } else { assert(plt(rows[i], rows[j])); }
        }
    }
    rows.unique_seq_to_set();
    assert(forall|p: Pair| #[trigger] r.contains(p) ==> rows.contains(p));
    theorem_select(jobs, outs, got, r, table, thr, cell, k, all);
    let gs = grams(opt);
    assert(e.fed[table] == gs);
    assert forall|i: int, j: int| 0 <= i < j < rows.len() implies (#[trigger] rows[i]).1 != (#[trigger] rows[j]).1 by {
        assert(r.contains(rows[i]) && r.contains(rows[j]));
        assert(in_pairs(best(got), rows[i]) && in_pairs(best(got), rows[j]));
        assert(rows[i] != rows[j]);
    }
    assert forall|i: int| 0 <= i < rows.len() implies MAXV - (#[trigger] rows[i]).0 < opt.threshold && rows[i].0 <= MAXV && gs.count(rows[i].1) > 0
            && (in_range(table) ==> MAXV - rows[i].0 >= min2(gs.count(rows[i].1) as int, MAXV))
            && (in_range(table) && no_collisions(table) ==> MAXV - rows[i].0 == min2(gs.count(rows[i].1) as int, MAXV)) by {
        let p = rows[i];
        assert(r.contains(p) && rows.contains(p));
        assert(evented(outs, table, p.1, p.0));
        lemma_evented_occurs(jobs, outs, table, 0, p.1, p.0);
        assert(read_ok(table, e.fed[table], p.1, p.0));
    }
    if in_range(table) && no_collisions(table) && all {
        assert forall|g: Gram| #[trigger] gs.count(g) > 0 && min2(gs.count(g) as int, MAXV) < opt.threshold implies
            in_rows(rows, g) || rows.len() == k && forall|i: int| 0 <= i < rows.len() ==> MAXV - (#[trigger] rows[i]).0 <= min2(gs.count(g) as int, MAXV) by {
            lemma_occurs_evented(jobs, outs, table, 0, g);
            let c = choose|c: int| #[trigger] evented(outs, table, g, c);
            assert(read_ok(table, e.fed[table], g, c));
            if has_at_least(r, g, c) {
                let q = choose|q: Pair| #[trigger] r.contains(q) && q.1 == g && q.0 >= c;
                let i = choose|i: int| 0 <= i < rows.len() && rows[i] == q;
                assert(rows[i].1 == g);
            } else {
                assert(full_above(r, k, c));
                assert forall|i: int| 0 <= i < rows.len() implies (#[trigger] rows[i]).0 >= c by { assert(r.contains(rows[i])); }
            }
        }
    }
}
pub open spec fn string_of(tok: Tk, k: Gram) -> Chars { match tok { Tk::Unicode => joined_by(k, " "@), Tk::Pretrained(id) => decoded(id, k) } }
pub open spec fn row(tok: Tk, p: Pair, rank: int) -> OutLine {
    OutLine::Json(JV::Obj(Seq::<(Chars, JV)>::empty().push(("tokens"@, JV::Arr(p.1.map_values(|t: Tok| t.js())))).push(("string"@, JV::Str(string_of(tok, p.1))))
        .push(("count"@, JV::Num(MAXV - p.0))).push(("rank"@, JV::Num(rank)))))
}
/// one row per ngram, with ranks 1, 2, 3, ...
pub open spec fn table_rows(tok: Tk, rows: Seq<Pair>) -> Seq<OutLine> { Seq::new(rows.len(), |i: int| row(tok, rows[i], i + 1)) }
/// the first n of them
#[verifier::opaque]
pub open spec fn first_rows(tok: Tk, rows: Seq<Pair>, n: int) -> Seq<OutLine> { table_rows(tok, rows.take(n)) }
proof fn lemma_rows_start(tok: Tk, rows: Seq<Pair>, out: Seq<OutLine>)
    ensures first_rows(tok, rows, 0) == Seq::<OutLine>::empty(), first_rows(tok, rows, rows.len() as int) == table_rows(tok, rows), out + first_rows(tok, rows, 0) == out
{
    reveal(first_rows);
    assert(first_rows(tok, rows, 0) =~= Seq::<OutLine>::empty());
    assert(rows.take(rows.len() as int) =~= rows);
    assert(out + Seq::<OutLine>::empty() =~= out);
}
proof fn lemma_rows_step(tok: Tk, rows: Seq<Pair>, n: int, out: Seq<OutLine>)
    requires 0 <= n < rows.len(),
    ensures first_rows(tok, rows, n + 1) == first_rows(tok, rows, n).push(row(tok, rows[n], n + 1)),
        out + first_rows(tok, rows, n + 1) == (out + first_rows(tok, rows, n)).push(row(tok, rows[n], n + 1)),
{
    reveal(first_rows);
    assert(first_rows(tok, rows, n + 1) =~= first_rows(tok, rows, n).push(row(tok, rows[n], n + 1)));
    assert(out + first_rows(tok, rows, n + 1) =~= (out + first_rows(tok, rows, n)).push(row(tok, rows[n], n + 1)));
}
pub open spec fn others(a: Seq<OutLine>, b: Seq<OutLine>) -> bool {
    a.len() <= b.len() && (forall|i: int| 0 <= i < a.len() ==> a[i] == b[i]) && (forall|i: int| a.len() <= i < b.len() ==> #[trigger] b[i] is Other)
}
/// where the output goes: the path itself, or a new name in the directory
pub open spec fn is_target(out: PathBuf, p: int) -> bool {
    if dir_there(out.id()) || !has_extension(out.id()) { exists|name: Chars| #[trigger] child(out.id(), name) == p } else { p == out.id() }
}
/// a file that may be written
pub open spec fn allowed(opt: Opt, p: int) -> bool { opt.out is Some && is_target(opt.out->Some_0, p) && (!file_there(p) || opt.force) }
pub open spec fn reported(opt: Opt, a: World, b: World, rows: Seq<Pair>, fid: int) -> bool {
    let lines = table_rows(tok_of(opt), rows);
    &&& opt.json ==> b.out@ == a.out@ + lines
    &&& !opt.json ==> others(a.out@, b.out@)
    &&& !opt.json && opt.out is Some ==> b.out@ == a.out@
    &&& opt.out is Some ==> b.fs@ == a.fs@.insert(fid, lines) && allowed(opt, handle_path(fid))
    &&& opt.out is None ==> b.fs@ == a.fs@
}
pub open spec fn only_file(opt: Opt, a: World, b: World) -> bool {
    b.fs@ == a.fs@ || exists|fid: int, lines: Seq<OutLine>| allowed(opt, handle_path(fid)) && b.fs@ == #[trigger] a.fs@.insert(fid, lines)
}
pub open spec fn no_rows(opt: Opt, a: World, b: World) -> bool {
    b.fs@ == a.fs@ || exists|fid: int| allowed(opt, handle_path(fid)) && b.fs@ == #[trigger] a.fs@.insert(fid, Seq::<OutLine>::empty())
}
fn get_output_file(opt: &Opt, w: &mut World) -> (r: Result<Option<(File, PathBuf)>>)
    ensures
        opt.out is None ==> r is Ok && r->Ok_0 is None && *final(w) == *old(w),
        r is Err ==> *final(w) == *old(w),
        same_but_fs(*old(w), *final(w)),
        opt.out is Some && r is Ok ==> r->Ok_0 is Some && allowed(*opt, r->Ok_0->Some_0.0.path())
            && final(w).fs@ == old(w).fs@.insert(r->Ok_0->Some_0.0.id(), Seq::<OutLine>::empty()),
{
/*@body
@file src/cmd/botk.rs
@item get_output_file
@params opt
@locals path parts limit seed
@world util::get_output_file
@*/
}

pub open spec fn rejected(opt: Opt) -> bool {
    ||| expanded(ids(opt.path@)).len() == 0
    ||| opt.k == 0
    ||| opt.size < 4
    ||| opt.hashes == 0
    ||| opt.ngram == 0
    ||| opt.p_keep is Some && !in_unit(opt.p_keep->Some_0)
}
pub open spec fn botk_post(opt: Opt, a: World, b: World, r: Result<()>) -> bool {
    r is Ok ==> exists|rows: Seq<Pair>, fid: int, table: int| #[trigger] botk_right(opt, table, rows) && #[trigger] reported(opt, a, b, rows, fid)
}
proof fn lemma_rows(opt: Opt, paths: Seq<int>, jobs: Seq<JobSpec>, e1: Ext, e2: Ext, e: Ext, rows: Seq<Pair>, table: int, cell: int)
    requires
        reordered(used_paths(opt), paths), jobs == collect_jobs(opt, paths, table, cell),
        e1.base[table] == MAXV, e1.fed[table] == fed_by(count_jobs(opt, paths, table), table, -1),
        e1.active, e2 == (Ext { got: e2.got, open: 0, closed: true, ..e1 }), ext_ran(jobs, e2, e),
        is_topk(rows.to_set(), best(e2.got), opt.k as int), descending(rows),
        forall|p: Pair| #[trigger] rows.contains(p) ==> final_min(cell) <= p.0 <= MAXV,
        rows.to_set().len() < opt.k ==> final_min(cell) == 1,
    ensures botk_right(opt, table, rows),
{
    assert forall|i: int| 0 <= i < jobs.len() implies (#[trigger] jobs[i]).by == 0 by { reveal(collect_jobs); }
    lemma_only_reads(jobs, table);
    let outs = choose|outs: Seq<JobOut>| #[trigger] ran_with(jobs, outs, e);
    assert(e.fed[table] =~= e1.fed[table]);
    theorem_botk_rows(opt, paths, jobs, outs, e, rows, table, cell);
}
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
fn botk_main(mut opt: Opt, w: &mut World) -> (r: Result<()>)
    requires old(w).jobs@.len() == 0, !old(w).joined@, !old(w).ext@.active,
    ensures
        // C11, C23: the right rows, ranked, are reported
        botk_post(opt, *old(w), *final(w), r),  // [C11 C21 C22 C23]
        // C19: rows only when every job of both passes is done without failure
        r is Ok ==> final(w).joined@,  // [C19]
        !final(w).joined@ ==> final(w).out@ == old(w).out@ && no_rows(opt, *old(w), *final(w)),  // [C19]
        // C22
        only_file(opt, *old(w), *final(w)),  // [C22]
        // C26
        rejected(opt) ==> r is Err && final(w).jobs@.len() == 0,  // [C26]
{
    let ghost opt0 = opt;
    let ghost tok = tok_of(opt);
    let ghost mut paths = Seq::<int>::empty();
    let ghost mut id = 0int;
    let ghost mut cell = 0int;
    let ghost mut fs = w.fs@;
    let ghost mut e0 = w.ext@;
    let ghost mut e1 = w.ext@;
    let ghost mut e2 = w.ext@;
    let ghost mut has_file = false;
    let ghost mut fid = 0int;
/*@body
@file src/cmd/botk.rs
@item main
@params opt
@locals file_limit p_keep tokenizer out_file out_path out rng seed counter_size ngram_counts executor path collect_ngrams executor topk tx rx path collect_ngrams min_count threshold sync_local_topk local_topk_factory ngram count bottom_k_final i inverse_count ngram_str json_out file
@world sync_channel NgramCounter::new DataExecutor::new executor.execute executor.execute_with_callback executor.join get_output_file tx.clone drop topk.drain rx.recv rx.try_recv
@eq
@io
@sub? TopKNgrams<String, AtomicU32> =>> TopKNgrams
@sub? u32::MAX - inverse_count =>> u32::MAX - *inverse_count
@closure 0
CountJob { tokenizer, ngram_counts, ngram: opt.ngram }
@closure 1
CollectJob { tokenizer, ngram_counts, min_count, threshold, ngram: opt.ngram, p_keep: opt.p_keep }
@closure 2
SendJob { min_count, threshold, tx }
@closure 3
NewJob { k: opt.k }
@pre 0
    proof {
        paths = ids(opt.path@);
        id = ngram_counts.id();
        fs = w.fs@;
        e0 = w.ext@;
        has_file = out_file is Some;
        fid = if out_file is Some { out_file->Some_0.id() } else { 0 };
        assert(reordered(used_paths(opt0), paths));  // [C11]
        assert(tk_of(tokenizer) == tok);
        lemma_jobs_start(opt0, paths, id, 0);
        assert(w.jobs@ =~= count_jobs(opt0, paths.take(0), id));
        assert(!rejected(opt0));  // [C26]
    }
@bottom 0
        proof {
            let n = __it0.pos();
            assert(paths[n - 1] == path.id());
            lemma_jobs_step(opt0, paths, n, id, cell);
            assert(w.jobs@ =~= count_jobs(opt0, paths.take(n), id));  // [C11]
        }
@loop 0 for
    invariant
        __it0.v == &opt.path, 0 <= __it0.i <= __it0.v@.len(),
        w.out == old(w).out, w.fs@ == fs, !w.joined@,
        w.ext@ == e0,
        w.jobs@ == count_jobs(opt0, paths.take(__it0.pos()), id),  // [C11]
    ensures
        __it0.pos() == paths.len(),
    decreases __it0.v@.len() - __it0.pos(),
@after 0
    proof { lemma_jobs_start(opt0, paths, id, cell); }
@pre 1
    proof {
        cell = topk.cell();
        e1 = w.ext@;
        lemma_jobs_start(opt0, paths, id, cell);
        assert(w.jobs@ =~= collect_jobs(opt0, paths.take(0), id, cell));
        assert(e1.base[id] == MAXV);  // [C11]
        assert(e1.fed[id] =~= fed_by(count_jobs(opt0, paths, id), id, -1));  // [C11]
    }
@bottom 1
        proof {
            let n = __it1.pos();
            assert(paths[n - 1] == path.id());
            lemma_jobs_step(opt0, paths, n, id, cell);
            assert(w.jobs@ =~= collect_jobs(opt0, paths.take(n), id, cell));  // [C11]
        }
@loop 1 for
    invariant
        __it1.v == &opt.path, 0 <= __it1.i <= __it1.v@.len(),
        w.out == old(w).out, w.fs@ == fs, !w.joined@,
        w.ext@ == e1,  // [C21]
        w.jobs@ == collect_jobs(opt0, paths.take(__it1.pos()), id, cell),  // [C11]
    ensures
        __it1.pos() == paths.len(),
    decreases __it1.v@.len() - __it1.pos(),
@after 1
    proof {
        lemma_jobs_start(opt0, paths, id, cell);
        assert(best(w.ext@.got) == Map::<Gram, int>::empty());
    }
@loop 2 while
    invariant
        w.out == old(w).out, w.fs@ == fs, !w.joined@, w.jobs@ == collect_jobs(opt0, paths, id, cell),
        topk.k == opt0.k, topk.cell() == cell, topk.fresh(),
        topk.wf(best(w.ext@.got)),  // [C11 C21]
        w.ext@ == (Ext { got: w.ext@.got, open: 0, ..e1 }),  // [C21]
    ensures
        w.ext@.closed,  // [C21]
        w.ext@ == (Ext { got: w.ext@.got, open: 0, closed: true, ..e1 }),  // [C21]
    decreases to_come(w.ext@.got),
@after 2
    proof { e2 = w.ext@; }
@pre 3
    let ghost all = __it3.all();
    let ghost fs0 = old(w).fs@;
    proof {
        lemma_rows(opt0, paths, w.jobs@, e1, e2, w.ext@, all, id, cell);
        lemma_rows_start(tok, all, old(w).out@);
    }
@top 3
        broadcast use lemma_insert_twice;
        proof { assert(all.contains(all[__it3.pos() - 1])); }
@bottom 3
        proof {
            let n = __it3.pos() - 1;
            let line = row(tok, all[n], n + 1);
            lemma_rows_step(tok, all, n, old(w).out@);
            assert(OutLine::Json(json_out.js()) == line);  // [C11 C23]
            if opt0.json { assert(w.out@ =~= old(w).out@ + first_rows(tok, all, n + 1)); }  // [C11 C23]
            if has_file { assert(w.fs@ =~= fs0.insert(fid, first_rows(tok, all, n + 1))); }  // [C22 C23]
        }
@loop 3 for
    invariant
        __it3.all() == all, 0 <= __it3.pos() <= all.len(), w.joined@,
        forall|p: Pair| #[trigger] all.contains(p) ==> p.0 <= MAXV,
        opt0.json ==> w.out@ == old(w).out@ + first_rows(tok, all, __it3.pos()),  // [C11 C23]
        !opt0.json ==> others(old(w).out@, w.out@),  // [C23]
        !opt0.json && opt0.out is Some ==> w.out@ == old(w).out@,  // [C23]
        out_file is Some <==> has_file,
        out_file is Some ==> out_file->Some_0.id() == fid && w.fs@ == fs0.insert(fid, first_rows(tok, all, __it3.pos())),  // [C22 C23]
        out_file is None ==> w.fs@ == fs0,  // [C22 C23]
    ensures
        __it3.pos() == all.len(),
    decreases all.len() - __it3.pos(),
@after 3
    proof {
        lemma_rows_start(tok, all, old(w).out@);
        assert(botk_right(opt0, id, all) && reported(opt0, *old(w), *w, all, fid));
    }
@*/
}
proof fn lemma_only_reads(jobs: Seq<JobSpec>, t: int)
    requires forall|i: int| 0 <= i < jobs.len() ==> (#[trigger] jobs[i]).by == 0,
    ensures fed_by(jobs, t, -1) == Multiset::<Gram>::empty(),
    decreases jobs.len(),
{ if jobs.len() > 0 { let j = jobs.drop_last(); assert forall|i: int| 0 <= i < j.len() implies (#[trigger] j[i]).by == 0 by { assert(j[i] == jobs[i]); } lemma_only_reads(j, t); } }

} // verus!
fn main() {}
