#![allow(unused)]
// Unit `topk_cmd`: src/cmd/topk.rs, instantiated for ${ATOMIC}.
//@claims C10: collect_ngrams send_local new_local one_job topk_run topk_main theorem_select theorem_windows theorem_topk_rows
//@claims C19: topk_run topk_main
//@claims C21: send_local topk_run theorem_select
//@claims C22: get_output_file topk_run topk_main
//@claims C20: ~topk_run
//@claims C23: topk_run
//@claims C26: topk_run topk_main
//@variant u32 INT=u32 ATOMIC=AtomicU32
//@variant u64 INT=u64 ATOMIC=AtomicU64
use vstd::prelude::*;
use vstd::multiset::Multiset;
use std::rc::Rc;
use std::sync::Arc;
//@include shim_macros.rs
macro_rules! json { ({ $($k:literal : $v:expr),* $(,)? }) => { Json::object()$(.with($k, &$v))* } }
// the text of a generated file name is left open
macro_rules! format { ($($t:tt)*) => { vx_some_text() } }
verus! {
global size_of usize == 8;
//@include shim_std.rs
#[verifier::external_body]
pub fn vx_nondet() -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_unreached<T>() -> (r: T) requires false { unimplemented!() }
//@include shim_result.rs
//@include shim_cmd.rs
#[verifier::external_body]
pub fn vx_some_text() -> (r: Text) { unimplemented!() }
//@include shim_grams.rs
//@include shim_deque.rs
//@include shim_ngcmd.rs
//@include shim_topkcmd.rs
//@include topk_lemmas.rs
type A = ${ATOMIC};

/// a table no job has touched before, fed by `increment(.., 1)`: for every ngram some call returned at least its number of
/// occurrences (the last one to change all its cells: `theorem_last_sees_all` in unit `counter_conc`), and without collisions
/// none returned more (`increment` there: no more than the cells hold, and `theorem_no_update_lost`)
pub open spec fn counted(table: int, fed: Multiset<Gram>, outs: Seq<JobOut>) -> bool {
    &&& in_range(table) ==> forall|g: Gram| #[trigger] fed.count(g) > 0 ==> exists|c: int| #[trigger] evented(outs, table, g, c) && c >= min2(fed.count(g) as int, MAXV)
    &&& in_range(table) && no_collisions(table) ==> forall|g: Gram, c: int| #[trigger] evented(outs, table, g, c) ==> c <= fed.count(g)
}
/// join returned Ok
pub open spec fn ext_ran(jobs: Seq<JobSpec>, a: Ext, b: Ext) -> bool { b == a && exists|outs: Seq<JobOut>| #[trigger] ran_with(jobs, outs, a) }
pub open spec fn ran_with(jobs: Seq<JobSpec>, outs: Seq<JobOut>, e: Ext) -> bool {
    &&& finished(jobs, outs, e.got)
    &&& forall|t: int| #[trigger] e.base[t] == 0 && e.fed[t] == Multiset::<Gram>::empty() ==> counted(t, fed_by(jobs, t, 1), outs)
}
pub struct CollectJob { pub tokenizer: Option<PretrainedTokenizer>, pub ngram_counts: Arc<NgramCounter<A>>, pub min_count: Arc<A>, pub threshold: Int, pub ngram: usize }
pub struct SendJob { pub min_count: Arc<A>, pub threshold: Int, pub tx: Sender }
pub struct NewJob { pub k: usize }
impl Task3<NewJob, SendJob> for CollectJob {
    open spec fn ready3(&self, f: NewJob, c: SendJob, path: int, limit: Option<usize>, e: Ext) -> bool { self.ngram >= 1 }
    open spec fn repeatable(&self) -> bool { false }
    open spec fn spec3(&self, f: NewJob, c: SendJob, path: int, limit: Option<usize>) -> JobSpec {
        JobSpec { path, limit, tok: tk_of(self.tokenizer), n: self.ngram as int, table: self.ngram_counts.id(), by: 1, thr: self.threshold as int,
            cell: self.min_count.id(), k: f.k as int, cthr: c.threshold as int, ccell: c.min_count.id(), all: true }
    }
    open spec fn handed(&self, f: NewJob, c: SendJob, a: Ext, b: Ext) -> bool { b == (Ext { open: a.open - 1, ..a }) }
}
pub struct Opt {
    pub path: Vec<PathBuf>, pub ngram: usize, pub limit: Option<usize>, pub file_limit: Option<usize>, pub workers: Option<usize>, pub topk: usize,
    pub size: u64, pub hashes: u8, pub seed: Option<u64>, pub out: Option<PathBuf>, pub quiet: bool, pub json: bool, pub force: bool,
    pub tokenizer: Text, pub threshold: u32, pub use_u64: bool,
}

// ------------------------------------------------------------------ a worker
fn collect_ngrams(data: Data, tokenizer: &Option<PretrainedTokenizer>, ngram_counts: &Arc<NgramCounter<A>>, min_count: &Arc<A>, threshold: Int, opt: &Opt,
                  local_topk: &mut TopKNgrams, w: &mut World, Ghost(h0): Ghost<Map<Gram, int>>) -> (r: Result<()>)
    requires
        opt.ngram >= 1, old(local_topk).wf(h0), covered(h0, old(w).ext@.log, threshold as int, final_min(min_count.id()), true),
        ops(old(w).ext@.log, ngram_counts.id(), 1),
    ensures
        final(local_topk).k == old(local_topk).k, final(local_topk).fresh() == old(local_topk).fresh(),
        final(w).ext@ == (Ext { log: final(w).ext@.log, ..old(w).ext@ }), same_but_ext(*old(w), *final(w)),
        // exactly the ngrams of the document go to the table, each once per occurrence; of those above the threshold only
        // such are left out of the local structure that cannot end up in the result
        r is Ok ==> grams_of(final(w).ext@.log) == grams_of(old(w).ext@.log) + doc_wins(data, tk_of(*tokenizer), opt.ngram as int)
            && ops(final(w).ext@.log, ngram_counts.id(), 1)
            && exists|h: Map<Gram, int>| #[trigger] final(local_topk).wf(h) && covered(h, final(w).ext@.log, threshold as int, final_min(min_count.id()), true),
{
    let ghost d = data;
    let ghost l0 = w.ext@.log;
    let ghost n = opt.ngram as int;
    let ghost m = final_min(min_count.id());
    let ghost mut all: Tokens = Seq::empty();
    let ghost mut h = h0;
/*@body
@file src/cmd/topk.rs
@item topk@execute_with_callback#0.1
@params data _ _ local_topk
@locals text tokens ngram_deque token count ngram
@known tokenizer ngram_counts opt threshold min_count
@world increment
@sub? Box<dyn Iterator<Item = String>> =>> TokIter
@sub? VecDeque<String> =>> VecDeque<Tok>
@sub? Vec<String> =>> Vec<Tok>
@closure 0 == |s| s.to_string() OR |s| s.into() OR |s| s.to_owned() OR |s| String::from(s)
Into_
@pre 0
    proof {
        all = __it0.rest();
        assert(all == toks(tk_of(*tokenizer), text@));
        assert(all.take(0) =~= Seq::<Tok>::empty());
        assert(all.skip(0) =~= all);
        assert(grams_of(l0) + wins(all.take(0), n) =~= grams_of(l0));
    }
@top 0
    let ghost done = all.take(all.len() - __it0.rest().len() - 1);
    let ghost lt = *local_topk;
    let ghost l1 = w.ext@.log;
    proof {
        assert(token == all[done.len() as int]);
        lemma_slide(done, token, n);
        assert(all.take(done.len() as int + 1) =~= done.push(token));
    }
@bottom 0
    proof {
        assert(__it0.rest() =~= all.skip(done.len() as int + 1));
        if done.len() + 1 >= n {
            let e = w.ext@.log.last();
            assert(w.ext@.log =~= l1.push(e));
            assert(e.g == window_of(done.push(token), n));
            assert(grams_of(w.ext@.log) =~= grams_of(l1).push(e.g));
            assert(grams_of(l0) + wins(done.push(token), n) =~= grams_of(l1).push(e.g));
            lemma_cover(h, l1, e, threshold as int, m, true);
            if e.c >= 1 { lemma_min_pair_skip(lt.held(), h, lt.k as int, e.g, e.c, lt.min_count as int); lemma_maxed(h, e.g, e.c); }
            if e.c > threshold && local_topk.wf(maxed(h, e.g, e.c)) { h = maxed(h, e.g, e.c); }
            assert(covered(h, w.ext@.log, threshold as int, m, true));  // [C10]
        }
    }
@loop 0 for
    invariant
        n == opt.ngram, n >= 1, m == final_min(min_count.id()),
        local_topk.k == old(local_topk).k, local_topk.fresh() == old(local_topk).fresh(),
        w.ext@ == (Ext { log: w.ext@.log, ..old(w).ext@ }), same_but_ext(*old(w), *w),
        __it0.rest().len() <= all.len(),
        __it0.rest() == all.skip(all.len() - __it0.rest().len()),
        ngram_deque@ == window_of(all.take(all.len() - __it0.rest().len()), n),
        grams_of(w.ext@.log) == grams_of(l0) + wins(all.take(all.len() - __it0.rest().len()), n),
        ops(w.ext@.log, ngram_counts.id(), 1),
        local_topk.wf(h), covered(h, w.ext@.log, threshold as int, m, true),
    ensures
        __it0.rest().len() == 0,
    decreases __it0.rest().len(),
@end
    proof {
        if d.text is Some { assert(all.take(all.len() as int) =~= all); }
        else { assert(grams_of(l0) + doc_wins(d, tk_of(*tokenizer), n) =~= grams_of(l0)); }
        assert(local_topk.wf(h) && covered(h, w.ext@.log, threshold as int, m, true));
    }
@*/
}
fn send_local(mut local_topk: TopKNgrams, min_count: &Arc<A>, threshold: Int, tx: &Sender, w: &mut World) -> (r: Result<()>)
    requires old(w).ext@.sent.len() == 0, forall|p: Pair| #[trigger] local_topk.held().contains(p) ==> p.0 >= 1,
    ensures
        final(w).ext@ == (Ext { sent: final(w).ext@.sent, ..old(w).ext@ }), same_but_ext(*old(w), *final(w)),
        r is Ok ==> sent_right(local_topk.held(), final(w).ext@.sent, threshold as int, final_min(min_count.id())),  // [C10 C21]
{
    let ghost held = local_topk.held();
    let ghost m = final_min(min_count.id());
/*@body
@file src/cmd/topk.rs
@item topk@execute_with_callback#0.3
@params local_topk
@locals ngram count
@known min_count threshold tx
@world drain tx.send tx.try_send
@top 0
    let ghost s1 = w.ext@.sent;
    let ghost x = Ins { g: ngram@, c: count as int };
    proof { assert(__it0.all().contains(__it0.all()[__it0.pos() - 1])); }
@bottom 0
    proof {
        let s2 = w.ext@.sent;
        assert(s2 == s1 || s2 == s1.push(x));
        assert forall|y: Ins| #[trigger] s2.contains(y) <==> s1.contains(y) || s2 != s1 && y == x by {
            if s2 != s1 {
                if s1.contains(y) { let i = choose|i: int| 0 <= i < s1.len() && s1[i] == y; assert(s2[i] == y); }
                if y == x { assert(s2[s1.len() as int] == x); }
            }
        }
        assert forall|i: int| 0 <= i < __it0.pos() && (#[trigger] __it0.all()[i]).0 > threshold && __it0.all()[i].0 >= m implies
            s2.contains(Ins { g: __it0.all()[i].1, c: __it0.all()[i].0 }) by {
            if i == __it0.pos() - 1 { assert(s2.contains(x)); }  // [C10 C21]
        }
    }
@loop 0 for
    invariant
        w.ext@ == (Ext { sent: w.ext@.sent, ..old(w).ext@ }), same_but_ext(*old(w), *w),
        m == final_min(min_count.id()),
        0 <= __it0.pos() <= __it0.all().len(), __it0.all().to_set() == held,
        forall|p: Pair| #[trigger] __it0.all().contains(p) ==> p.0 >= 1 && held.contains(p),
        forall|i: int| 0 <= i < __it0.pos() && (#[trigger] __it0.all()[i]).0 > threshold && __it0.all()[i].0 >= m ==>
            w.ext@.sent.contains(Ins { g: __it0.all()[i].1, c: __it0.all()[i].0 }),
        forall|y: Ins| #[trigger] w.ext@.sent.contains(y) ==> held.contains((y.c, y.g)),
    ensures
        __it0.pos() == __it0.all().len(),
    decreases __it0.all().len() - __it0.pos(),
@after 0
    proof { assert(sent_right(held, w.ext@.sent, threshold as int, m)); }
@*/
}
fn new_local(opt: &Opt) -> (r: Result<TopKNgrams>)
    ensures r is Ok ==> r->Ok_0.k == opt.topk && r->Ok_0.wf(Map::empty()) && r->Ok_0.fresh(),
{
/*@body
@file src/cmd/topk.rs
@item topk@execute_with_callback#0.2
@params
@locals topk
@known opt
@sub? TopKNgrams<String, A> =>> TopKNgrams
@*/
}
/// what the executor does with the three closures (unit `exec`: context, every document in order, callback): a `job_out`
fn one_job(mut docs: Docs, path: Ghost<int>, limit: Ghost<Option<usize>>, tokenizer: &Option<PretrainedTokenizer>, ngram_counts: &Arc<NgramCounter<A>>,
           min_count: &Arc<A>, threshold: Int, opt: &Opt, min_count2: &Arc<A>, threshold2: Int, tx: &Sender, w: &mut World) -> (r: Result<()>)
    requires opt.ngram >= 1, docs.all() == documents(path@, limit@), docs.pos() == 0, old(w).ext@.log.len() == 0, old(w).ext@.sent.len() == 0,
    ensures r is Ok ==> exists|o: JobOut| o.log == final(w).ext@.log && o.sent == final(w).ext@.sent
        && #[trigger] job_out(JobSpec { path: path@, limit: limit@, tok: tk_of(*tokenizer), n: opt.ngram as int, table: ngram_counts.id(), by: 1, thr: threshold as int,
            cell: min_count.id(), k: opt.topk as int, cthr: threshold2 as int, ccell: min_count2.id(), all: true }, o),
{
    let ghost m = final_min(min_count.id());
    let mut local = new_local(opt)?;
    let ghost mut h = Map::<Gram, int>::empty();
    proof { assert(grams_of(w.ext@.log) =~= docs_wins(docs.all().take(0), tk_of(*tokenizer), opt.ngram as int)); }
    loop
        invariant
            opt.ngram >= 1, m == final_min(min_count.id()), 0 <= docs.pos() <= docs.all().len(), docs.all() == documents(path@, limit@),
            local.k == opt.topk, local.wf(h), covered(h, w.ext@.log, threshold as int, m, true), ops(w.ext@.log, ngram_counts.id(), 1),
            grams_of(w.ext@.log) == docs_wins(docs.all().take(docs.pos()), tk_of(*tokenizer), opt.ngram as int),
            w.ext@.sent.len() == 0,
        ensures docs.pos() == docs.all().len(),
        decreases docs.all().len() - docs.pos(),
    {
        let ghost p = docs.pos();
        match docs.next() {
            None => break,
            Some(d) => {
                collect_ngrams(d, tokenizer, ngram_counts, min_count, threshold, opt, &mut local, w, Ghost(h))?;
                proof {
                    h = choose|h: Map<Gram, int>| #[trigger] local.wf(h) && covered(h, w.ext@.log, threshold as int, m, true);
                    let t = docs.all().take(p + 1);
                    assert(t.drop_last() =~= docs.all().take(p));
                    assert(t.last() == d);
                }
            }
        }
    }
    let ghost held = local.held();
    proof {
        assert(docs.all().take(docs.all().len() as int) =~= docs.all());
        assert forall|p: Pair| #[trigger] held.contains(p) implies p.0 >= 1 by { assert(in_pairs(h, p)); assert(h.dom().contains(p.1)); }
    }
    send_local(local, min_count2, threshold2, tx, w)?;
    proof {
        let o = JobOut { log: w.ext@.log, h, held, sent: w.ext@.sent };
        assert(job_out(JobSpec { path: path@, limit: limit@, tok: tk_of(*tokenizer), n: opt.ngram as int, table: ngram_counts.id(), by: 1, thr: threshold as int,
            cell: min_count.id(), k: opt.topk as int, cthr: threshold2 as int, ccell: min_count2.id(), all: true }, o));
    }
    Ok(())
}

// ------------------------------------------------------------------ the command
pub open spec fn tok_of(opt: Opt) -> Tk { if opt.tokenizer@ == "unicode"@ { Tk::Unicode } else { Tk::Pretrained(tokenizer_named(opt.tokenizer@)) } }
pub open spec fn paths_of(opt: Opt) -> Seq<int> { ids(opt.path@) }
/// the ngrams of all processed documents, each as often as it occurs
pub open spec fn grams(opt: Opt) -> Multiset<Gram> { all_grams(paths_of(opt), opt.limit, tok_of(opt), opt.ngram as int) }
pub open spec fn in_rows(rows: Seq<Pair>, g: Gram) -> bool { exists|i: int| 0 <= i < rows.len() && (#[trigger] rows[i]).1 == g }
#[verifier::opaque]
pub open spec fn topk_right(opt: Opt, maxv: int, table: int, rows: Seq<Pair>) -> bool {
    &&& rows.len() <= opt.topk
    &&& descending(rows)
    &&& forall|i: int, j: int| 0 <= i < j < rows.len() ==> (#[trigger] rows[i]).1 != (#[trigger] rows[j]).1
    // above the threshold, an ngram of the data, never undercounted
    &&& forall|i: int| 0 <= i < rows.len() ==> (#[trigger] rows[i]).0 > opt.threshold && grams(opt).count(rows[i].1) > 0
            && (in_range(table) ==> rows[i].0 >= min2(grams(opt).count(rows[i].1) as int, maxv))
    // exact, and the largest, without collisions
    &&& in_range(table) && no_collisions(table) ==> {
        &&& forall|i: int| 0 <= i < rows.len() ==> (#[trigger] rows[i]).0 == min2(grams(opt).count(rows[i].1) as int, maxv)
        &&& forall|g: Gram| #[trigger] grams(opt).count(g) > 0 && min2(grams(opt).count(g) as int, maxv) > opt.threshold ==>
                in_rows(rows, g) || rows.len() == opt.topk && forall|i: int| 0 <= i < rows.len() ==> (#[trigger] rows[i]).0 >= min2(grams(opt).count(g) as int, maxv)
    }
}
proof fn lemma_fed(jobs: Seq<JobSpec>, paths: Seq<int>, limit: Option<usize>, tok: Tk, n: int, table: int)
    requires jobs.len() == paths.len(),
        forall|i: int| 0 <= i < jobs.len() ==> (#[trigger] jobs[i]).path == paths[i] && jobs[i].limit == limit && jobs[i].tok == tok && jobs[i].n == n && jobs[i].table == table && jobs[i].by == 1,
    ensures fed_by(jobs, table, 1) == all_grams(paths, limit, tok, n),
    decreases jobs.len(),
{
    if jobs.len() > 0 {
        let j = jobs.drop_last();
        assert forall|i: int| 0 <= i < j.len() implies (#[trigger] j[i]).path == paths.drop_last()[i] && j[i].limit == limit && j[i].tok == tok && j[i].n == n && j[i].table == table && j[i].by == 1 by { assert(j[i] == jobs[i]); }
        lemma_fed(j, paths.drop_last(), limit, tok, n, table);
    }
}
/// C10 from what the jobs did and what was received
proof fn theorem_topk_rows(opt: Opt, jobs: Seq<JobSpec>, outs: Seq<JobOut>, got: Seq<Ins>, rows: Seq<Pair>, table: int, cell: int)
    requires
        finished(jobs, outs, got), jobs.len() == paths_of(opt).len(), opt.topk >= 0,
        forall|i: int| 0 <= i < jobs.len() ==> #[trigger] jobs[i] == job_of(opt, paths_of(opt)[i], table, cell),
        is_topk(rows.to_set(), best(got), opt.topk as int), descending(rows),
        forall|p: Pair| #[trigger] rows.contains(p) ==> final_min(cell) <= p.0 <= MAXV,
        rows.to_set().len() < opt.topk ==> final_min(cell) == 1,
        counted(table, fed_by(jobs, table, 1), outs),
    ensures topk_right(opt, MAXV, table, rows),
{
    reveal(topk_right); reveal(descending);
    let r = rows.to_set();
    let k = opt.topk as int;
    let thr = opt.threshold as int;
    lemma_fed(jobs, paths_of(opt), opt.limit, tok_of(opt), opt.ngram as int, table);
    assert(rows.no_duplicates()) by {
        broadcast use axiom_gram_lt;
        assert forall|i: int, j: int| 0 <= i < rows.len() && 0 <= j < rows.len() && i != j implies rows[i] != rows[j] by {
            if i < j { assert(plt(rows[j], rows[i])); } else { assert(plt(rows[i], rows[j])); }
        }
    }
    rows.unique_seq_to_set();
    assert(forall|p: Pair| #[trigger] r.contains(p) ==> rows.contains(p));
    theorem_select(jobs, outs, got, r, table, thr, cell, k, true);
    let gs = grams(opt);
    assert forall|i: int, j: int| 0 <= i < j < rows.len() implies (#[trigger] rows[i]).1 != (#[trigger] rows[j]).1 by {
        assert(r.contains(rows[i]) && r.contains(rows[j]));
        assert(in_pairs(best(got), rows[i]) && in_pairs(best(got), rows[j]));
        assert(rows[i] != rows[j]);
    }
    assert forall|g: Gram| in_range(table) && #[trigger] gs.count(g) > 0 && min2(gs.count(g) as int, MAXV) > thr implies
            has_at_least(r, g, min2(gs.count(g) as int, MAXV)) || full_above(r, k, min2(gs.count(g) as int, MAXV)) by {
        let c = choose|c: int| #[trigger] evented(outs, table, g, c) && c >= min2(gs.count(g) as int, MAXV);
        assert(has_at_least(r, g, c) || full_above(r, k, c));
    }
    assert forall|i: int| 0 <= i < rows.len() implies (#[trigger] rows[i]).0 > thr && gs.count(rows[i].1) > 0
            && (in_range(table) ==> rows[i].0 >= min2(gs.count(rows[i].1) as int, MAXV)) by {
        let p = rows[i];
        assert(r.contains(p));
        assert(evented(outs, table, p.1, p.0));
        lemma_evented_occurs(jobs, outs, table, 1, p.1, p.0);
        let c = min2(gs.count(p.1) as int, MAXV);
        if in_range(table) && c > thr && has_at_least(r, p.1, c) {
            let q = choose|q: Pair| #[trigger] r.contains(q) && q.1 == p.1 && q.0 >= c;
            assert(in_pairs(best(got), p) && in_pairs(best(got), q));
        }
    }
    if in_range(table) && no_collisions(table) {
        assert forall|i: int| 0 <= i < rows.len() implies (#[trigger] rows[i]).0 == min2(gs.count(rows[i].1) as int, MAXV) by {
            assert(r.contains(rows[i]));
            assert(evented(outs, table, rows[i].1, rows[i].0));
            assert(rows.contains(rows[i]));
        }
        assert forall|g: Gram| #[trigger] gs.count(g) > 0 && min2(gs.count(g) as int, MAXV) > thr implies
            in_rows(rows, g) || rows.len() == k && forall|i: int| 0 <= i < rows.len() ==> (#[trigger] rows[i]).0 >= min2(gs.count(g) as int, MAXV) by {
            let c = min2(gs.count(g) as int, MAXV);
            if has_at_least(r, g, c) {
                let q = choose|q: Pair| #[trigger] r.contains(q) && q.1 == g && q.0 >= c;
                let i = choose|i: int| 0 <= i < rows.len() && rows[i] == q;
                assert(rows[i].1 == g);
            } else {
                assert(full_above(r, k, c));
                assert forall|i: int| 0 <= i < rows.len() implies (#[trigger] rows[i]).0 >= c by { assert(r.contains(rows[i])); }
            }
        }
    }
}
pub open spec fn job_of(opt: Opt, path: int, table: int, cell: int) -> JobSpec {
    JobSpec { path, limit: opt.limit, tok: tok_of(opt), n: opt.ngram as int, table, by: 1, thr: opt.threshold as int, cell, k: opt.topk as int,
        cthr: opt.threshold as int, ccell: cell, all: true }
}
pub open spec fn jobs_for(opt: Opt, paths: Seq<int>, table: int, cell: int) -> Seq<JobSpec> { paths.map_values(|p: int| job_of(opt, p, table, cell)) }
pub open spec fn string_of(tok: Tk, k: Gram) -> Chars { match tok { Tk::Unicode => joined_by(k, " "@), Tk::Pretrained(id) => decoded(id, k) } }
pub open spec fn row(tok: Tk, p: Pair, rank: int) -> OutLine {
    OutLine::Json(JV::Obj(Seq::<(Chars, JV)>::empty().push(("tokens"@, JV::Arr(p.1.map_values(|t: Tok| t.js())))).push(("string"@, JV::Str(string_of(tok, p.1))))
        .push(("count"@, JV::Num(p.0))).push(("rank"@, JV::Num(rank)))))
}
/// one row per ngram, with ranks 1, 2, 3, ...
pub open spec fn table_rows(tok: Tk, rows: Seq<Pair>) -> Seq<OutLine> { Seq::new(rows.len(), |i: int| row(tok, rows[i], i + 1)) }
pub open spec fn others(a: Seq<OutLine>, b: Seq<OutLine>) -> bool {
    a.len() <= b.len() && (forall|i: int| 0 <= i < a.len() ==> a[i] == b[i]) && (forall|i: int| a.len() <= i < b.len() ==> #[trigger] b[i] is Other)
}
/// where the output goes: the path itself, or a new name in the directory
pub open spec fn is_target(out: PathBuf, p: int) -> bool {
    if dir_there(out.id()) || !has_extension(out.id()) { exists|name: Chars| #[trigger] child(out.id(), name) == p } else { p == out.id() }
}
/// a file that may be written
pub open spec fn allowed(opt: Opt, p: int) -> bool { opt.out is Some && is_target(opt.out->Some_0, p) && (!file_there(p) || opt.force) }
pub open spec fn reported(opt: Opt, a: World, b: World, rows: Seq<Pair>, fid: int) -> bool {
    let lines = table_rows(tok_of(opt), rows);
    &&& opt.json ==> b.out@ == a.out@ + lines
    &&& !opt.json ==> others(a.out@, b.out@)
    &&& !opt.json && opt.out is Some ==> b.out@ == a.out@
    &&& opt.out is Some ==> b.fs@ == a.fs@.insert(fid, lines) && allowed(opt, handle_path(fid))
    &&& opt.out is None ==> b.fs@ == a.fs@
}
pub open spec fn only_file(opt: Opt, a: World, b: World) -> bool {
    b.fs@ == a.fs@ || exists|fid: int, lines: Seq<OutLine>| allowed(opt, handle_path(fid)) && b.fs@ == #[trigger] a.fs@.insert(fid, lines)
}
pub open spec fn no_rows(opt: Opt, a: World, b: World) -> bool {
    b.fs@ == a.fs@ || exists|fid: int| allowed(opt, handle_path(fid)) && b.fs@ == #[trigger] a.fs@.insert(fid, Seq::<OutLine>::empty())
}
fn get_output_file(opt: &Opt, w: &mut World) -> (r: Result<Option<(File, PathBuf)>>)
    ensures
        opt.out is None ==> r is Ok && r->Ok_0 is None && *final(w) == *old(w),
        r is Err ==> *final(w) == *old(w),
        same_but_fs(*old(w), *final(w)),
        opt.out is Some && r is Ok ==> r->Ok_0 is Some && allowed(*opt, r->Ok_0->Some_0.0.path())
            && final(w).fs@ == old(w).fs@.insert(r->Ok_0->Some_0.0.id(), Seq::<OutLine>::empty()),
{
/*@body
@file src/cmd/topk.rs
@item get_output_file
@params opt
@locals path parts limit seed
@world util::get_output_file
@*/
}

pub open spec fn topk_post(opt: Opt, maxv: int, a: World, b: World, r: Result<()>) -> bool {
    r is Ok ==> exists|rows: Seq<Pair>, fid: int, table: int| #[trigger] topk_right(opt, maxv, table, rows) && #[trigger] reported(opt, a, b, rows, fid)
}
pub open spec fn cell_bytes(opt: Opt) -> int { if opt.use_u64 { 8 } else { 4 } }

#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
#[verifier::spinoff_prover]
#[verifier::rlimit(40)]
fn topk_run(opt: Opt, w: &mut World) -> (r: Result<()>)
    requires old(w).jobs@.len() == 0, !old(w).joined@, !old(w).ext@.active, opt.ngram >= 1, opt.topk >= 1,
    ensures
        // C10, C23: the right rows, ranked, are reported
        topk_post(opt, MAXV, *old(w), *final(w), r),  // [C10 C21 C22 C23]
        // C19: rows only when every job is done without failure
        r is Ok ==> final(w).joined@,  // [C19]
        !final(w).joined@ ==> final(w).out@ == old(w).out@ && no_rows(opt, *old(w), *final(w)),  // [C19]
        // C22
        only_file(opt, *old(w), *final(w)),  // [C22]
        // C26: a table too small for one cell
        opt.size < cell_bytes(opt) ==> r is Err && final(w).jobs@.len() == 0,  // [C26]
{
    let ghost opt0 = opt;
    let ghost tok = tok_of(opt);
    let ghost paths = paths_of(opt);
    let ghost mut id = 0int;
    let ghost mut cell = 0int;
    let ghost mut fs = w.fs@;
    let ghost mut e0 = w.ext@;
    let ghost mut has_file = false;
    let ghost mut fid = 0int;
/*@body
@file src/cmd/topk.rs
@item topk
@params opt
@locals topk tx rx tokenizer out_file out_path out counter_size ngram_counts executor path collect_ngrams sync_local_topk_callback local_topk_factory ngram count warn_about_overflows topk_final i ngram_str json_out file min_count threshold
@world sync_channel NgramCounter::new DataExecutor::new executor.execute_with_callback executor.join get_output_file tx.clone drop topk.drain rx.recv rx.try_recv
@eq
@io
@sub? TopKNgrams<String, A> =>> TopKNgrams
@sub? sync_channel::<(Vec<String>, <A as Atomic>::Type)> =>> sync_channel
@sub? NumCast>::from( =>> NumCast>::cast(
@closure 0
CollectJob { tokenizer, ngram_counts, min_count, threshold, ngram: opt.ngram }
@closure 1
SendJob { min_count, threshold, tx }
@closure 2
NewJob { k: opt.topk }
@pre 0
    proof {
        id = ngram_counts.id();
        cell = topk.cell();
        fs = w.fs@;
        e0 = w.ext@;
        has_file = out_file is Some;
        fid = if out_file is Some { out_file->Some_0.id() } else { 0 };
        assert(tk_of(tokenizer) == tok);
        assert(w.jobs@ =~= jobs_for(opt0, paths.take(0), id, cell));
        assert(e0.base[id] == 0);  // [C10]
    }
@bottom 0
        proof {
            let n = __it0.pos();
            assert(paths.take(n) =~= paths.take(n - 1).push(path.id()));
            assert(w.jobs@ =~= jobs_for(opt0, paths.take(n), id, cell));  // [C10]
        }
@loop 0 for
    invariant
        __it0.v == &opt.path, 0 <= __it0.i <= __it0.v@.len(),
        w.out == old(w).out, w.fs@ == fs, !w.joined@,
        w.ext@ == e0,  // [C21]
        w.jobs@ == jobs_for(opt0, paths.take(__it0.pos()), id, cell),  // [C10]
    ensures
        __it0.pos() == paths.len(),
    decreases __it0.v@.len() - __it0.pos(),
@after 0
    proof {
        assert(paths.take(paths.len() as int) =~= paths);
        assert(best(w.ext@.got) == Map::<Gram, int>::empty());
    }
@loop 1 while
    invariant
        w.out == old(w).out, w.fs@ == fs, !w.joined@, w.jobs@ == jobs_for(opt0, paths, id, cell),
        topk.k == opt0.topk, topk.cell() == cell, topk.fresh(),
        topk.wf(best(w.ext@.got)),  // [C10 C21]
        w.ext@ == (Ext { got: w.ext@.got, open: 0, ..e0 }),  // [C21]
    ensures
        w.ext@.closed,  // [C21]
        w.ext@ == (Ext { got: w.ext@.got, open: 0, closed: true, ..e0 }),  // [C21]
    decreases to_come(w.ext@.got),
@pre 2
    let ghost all = __it2.all();
    let ghost fs0 = old(w).fs@;
    proof {
        let outs = choose|outs: Seq<JobOut>| #[trigger] ran_with(w.jobs@, outs, w.ext@);
        assert(w.ext@.base[id] == 0 && w.ext@.fed[id] == Multiset::<Gram>::empty());
        assert(counted(id, fed_by(w.jobs@, id, 1), outs));
        theorem_topk_rows(opt0, w.jobs@, outs, w.ext@.got, all, id, cell);
        assert(table_rows(tok, all.take(0)) =~= Seq::<OutLine>::empty());
        assert(w.out@ =~= old(w).out@ + table_rows(tok, all.take(0)));
    }
@top 2
        broadcast use lemma_insert_twice;
@bottom 2
        proof {
            let n = __it2.pos() - 1;
            let line = row(tok, all[n], n + 1);
            assert(table_rows(tok, all.take(n + 1)) =~= table_rows(tok, all.take(n)).push(line));
            assert(OutLine::Json(json_out.js()) == line);
            if opt0.json { assert(w.out@ =~= old(w).out@ + table_rows(tok, all.take(n + 1))); }  // [C10 C23]
            if has_file { assert(w.fs@ =~= fs0.insert(fid, table_rows(tok, all.take(n + 1)))); }  // [C22 C23]
        }
@loop 2 for
    invariant
        __it2.all() == all, 0 <= __it2.pos() <= all.len(), w.joined@,
        opt0.json ==> w.out@ == old(w).out@ + table_rows(tok, all.take(__it2.pos())),  // [C10 C23]
        !opt0.json ==> others(old(w).out@, w.out@),  // [C23]
        !opt0.json && opt0.out is Some ==> w.out@ == old(w).out@,  // [C23]
        out_file is Some <==> has_file,
        out_file is Some ==> out_file->Some_0.id() == fid && w.fs@ == fs0.insert(fid, table_rows(tok, all.take(__it2.pos()))),  // [C22 C23]
        out_file is None ==> w.fs@ == fs0,  // [C22 C23]
    ensures
        __it2.pos() == all.len(),
    decreases all.len() - __it2.pos(),
@after 2
    proof {
        assert(all.take(all.len() as int) =~= all);
        assert(topk_right(opt0, MAXV, id, all) && reported(opt0, *old(w), *w, all, fid));
    }
@*/
}

// ------------------------------------------------------------------ main: arguments, and the choice of the counter type
pub trait Width { spec fn maxv() -> int; }
impl Width for AtomicU32 { open spec fn maxv() -> int { 0xffff_ffff } }
impl Width for AtomicU64 { open spec fn maxv() -> int { 0xffff_ffff_ffff_ffff } }
/// the contract of `topk_run`, which is verified for both types
#[verifier::external_body]
pub fn topk<B: Width>(opt: Opt, w: &mut World) -> (r: Result<()>)
    requires old(w).jobs@.len() == 0, !old(w).joined@, !old(w).ext@.active, opt.ngram >= 1, opt.topk >= 1,
    ensures
        topk_post(opt, B::maxv(), *old(w), *final(w), r),
        r is Ok ==> final(w).joined@,
        !final(w).joined@ ==> final(w).out@ == old(w).out@ && no_rows(opt, *old(w), *final(w)),
        only_file(opt, *old(w), *final(w)),
        opt.size < cell_bytes(opt) ==> r is Err && final(w).jobs@.len() == 0,
{ unimplemented!() }
pub open spec fn rejected(opt: Opt) -> bool {
    ||| expanded(ids(opt.path@)).len() == 0
    ||| opt.topk == 0
    ||| opt.size < cell_bytes(opt)
    ||| opt.hashes == 0
    ||| opt.ngram == 0
}
pub open spec fn used_paths(opt: Opt) -> Seq<int> {
    let e = expanded(ids(opt.path@));
    match opt.file_limit { Some(n) => if n < e.len() { e.take(n as int) } else { e }, None => e }
}
/// the options as the workers see them: the paths expanded and cut to the file limit
pub open spec fn resolved(a: Opt, b: Opt) -> bool {
    &&& b == (Opt { path: b.path, ..a })
    &&& ids(b.path@) =~= used_paths(a)
}
pub open spec fn count_max(opt: Opt) -> int { if opt.use_u64 { 0xffff_ffff_ffff_ffff } else { 0xffff_ffff } }
fn topk_main(mut opt: Opt, w: &mut World) -> (r: Result<()>)
    requires old(w).jobs@.len() == 0, !old(w).joined@, !old(w).ext@.active,
    ensures
        r is Ok ==> exists|o: Opt| #[trigger] resolved(opt, o) && topk_post(o, count_max(opt), *old(w), *final(w), r),  // [C10]
        r is Ok ==> final(w).joined@,  // [C19]
        !final(w).joined@ ==> final(w).out@ == old(w).out@,  // [C19]
        rejected(opt) ==> r is Err && final(w).jobs@.len() == 0,  // [C26]
        r is Err ==> final(w).fs@ == old(w).fs@ || exists|o: Opt| #[trigger] resolved(opt, o) && only_file(o, *old(w), *final(w)),  // [C22]
{
    let ghost opt0 = opt;
/*@body
@file src/cmd/topk.rs
@item main
@params opt
@locals file_limit
@world topk
@end
    proof { assert(ids(opt.path@) =~= used_paths(opt0)); assert(resolved(opt0, opt)); }
@*/
}
} // verus!
fn main() {}
