#![allow(unused)]
// Unit `exec`: src/cmd/util.rs (process_file and the data executor).
//@claims C18: process_file process_line execute_data_adapter
//@claims C19: process_file process_line worker_job panic_flag_drop DataExecutor::execute_with_callback DataExecutor::join theorem_success_is_complete execute_data_adapter execute_callback_adapter execute_context_adapter
//@claims C20: process_file process_line worker_job execute_data_adapter execute_callback_adapter execute_context_adapter
//@claims C26: DataExecutor::new
//@claims C16: process_file process_line worker_job DataExecutor::new DataExecutor::execute_with_callback theorem_success_is_complete
use vstd::prelude::*;
use std::sync::Arc;
use std::path::PathBuf;
//@include shim_macros.rs
verus! {
global size_of usize == 8;
//@include shim_std.rs
#[verifier::external_body]
pub fn vx_nondet() -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_unreached<T>() -> (r: T) requires false { unimplemented!() }
//@include shim_result.rs
//@include shim_exec.rs

// ------------------------------------------------------------------ process_file
pub open spec fn the_call(line: Line, path: int, n: int) -> Call { Call { data: parse(line)->Some_0, path, line: n } }
/// what handling one line successfully amounts to: handed over once with its number and counted, or, after a
/// stop from outside, left alone
pub open spec fn handled(w1: World, w: World, line: Line, n1: int, n: int, b1: int, b: int, t1: Seq<Call>, t: Seq<Call>, path: int, flag: int) -> bool {
    ||| w.flag(flag) && w.calls@ == w1.calls@ && n == n1 && b == b1
    ||| parse(line) is Some && n == n1 + 1 && b == b1 + line.bytes() && w.calls@ == w1.calls@.push(the_call(line, path, n))
        && t == t1.push(the_call(line, path, n)) && !w1.flag(flag)
}
/// one line of the file: counted, parsed and handed over with its number, or an error
fn process_line(line: &Line, early_exit: &Arc<AtomicBool>, total_lines: &mut usize, total_bytes: &mut usize,
                data_func: &mut DataFunc, path: &PathRef, context: &mut Context, w: &mut World) -> (r: Result<()>)
    requires
        !old(w).flag(early_exit.id()) ==> *old(total_lines) < usize::MAX && *old(total_bytes) + line.bytes() <= usize::MAX,
    ensures
        flags_up(*old(w), *final(w)), final(w).sent == old(w).sent, final(w).attempts == old(w).attempts, final(w).added == old(w).added, final(w).armed == old(w).armed,
        r is Ok ==> handled(*old(w), *final(w), *line, *old(total_lines) as int, *final(total_lines) as int, *old(total_bytes) as int,
            *final(total_bytes) as int, old(context).trace(), final(context).trace(), path.id(), early_exit.id()),
        // stopped from outside: the line is left alone
        old(w).flag(early_exit.id()) ==> final(w).calls@ == old(w).calls@,
        // whatever happens, no other call than this one is made
        final(w).calls@ == old(w).calls@
        || final(w).calls@ == old(w).calls@.push(the_call(*line, path.id(), *old(total_lines) + 1)) && parse(*line) is Some,
{
/*@body
@file src/cmd/util.rs
@item process_file@let:process_line
@params line
@deref total_lines total_bytes context
@world load data_func
@sub data_func( =>> data_func.call(
@locals io_err
@*/
}

/// how many lines are due
pub open spec fn cut(items: Seq<Item>, limit: Option<usize>) -> int {
    match limit { Some(l) => if l < items.len() { l as int } else { items.len() as int }, None => items.len() as int }
}
pub open spec fn good(i: Item) -> bool { i is Good && parse(i->Good_0) is Some }
pub open spec fn all_good(items: Seq<Item>, k: int) -> bool { forall|i: int| 0 <= i < k ==> good(#[trigger] items[i]) }
/// the calls for the first k lines: in order, numbered from 1
pub open spec fn calls_of(items: Seq<Item>, path: int, k: int) -> Seq<Call> {
    Seq::new(k as nat, |i: int| Call { data: parse(items[i]->Good_0)->Some_0, path, line: i + 1 })
}
pub open spec fn prefix_of(items: Seq<Item>, k: int, limit: Option<usize>) -> bool { 0 <= k <= cut(items, limit) && all_good(items, k) }
/// the state between two lines
pub open spec fn running(w0: World, w: World, items: Seq<Item>, limit: Option<usize>, rest: Seq<Item>, n: int, b: int,
                         trace: Seq<Call>, path: int, flag: int) -> bool {
    let m = cut(items, limit);
    let pos = m - rest.len();
    &&& flags_up(w0, w) && w.sent == w0.sent && w.added == w0.added && w.armed == w0.armed && w.attempts@ == w0.attempts@ + 1
    &&& readable(path, items) && items.len() < usize::MAX
    &&& (forall|k: int| 0 <= k <= items.len() ==> 0 <= #[trigger] bytes_of(items, k) <= usize::MAX)
    &&& 0 <= pos && rest == items.subrange(pos, m)
    &&& 0 <= n <= pos && 0 <= b <= bytes_of(items, n)
    &&& prefix_of(items, n, limit) && w.calls@ == w0.calls@ + calls_of(items, path, n)
    &&& !w.flag(flag) ==> n == pos && b == bytes_of(items, n) && trace == calls_of(items, path, n)
}
proof fn lemma_step(w0: World, w: World, items: Seq<Item>, limit: Option<usize>, rest: Seq<Item>, n: int, b: int,
                    trace: Seq<Call>, path: int, flag: int)
    requires running(w0, w, items, limit, rest, n, b, trace, path, flag), rest.len() > 0,
    ensures
        n < usize::MAX, n + 1 <= cut(items, limit),
        bytes_of(items, n + 1) <= usize::MAX,
        rest[0] == items[cut(items, limit) - rest.len()],
        bytes_of(items, n) <= bytes_of(items, n + 1),
        good(items[n]) ==> prefix_of(items, n + 1, limit),
        bytes_of(items, n + 1) == bytes_of(items, n) + (match items[n] { Item::Good(l) => l.bytes() as int, Item::Bad => 0int }),
        rest.skip(1) == items.subrange(cut(items, limit) - rest.len() + 1, cut(items, limit)),
        calls_of(items, path, n + 1) == calls_of(items, path, n).push(the_call(items[n]->Good_0, path, n + 1)),
{
    let m = cut(items, limit);
    assert(rest.skip(1) =~= items.subrange(m - rest.len() + 1, m));
    assert(calls_of(items, path, n + 1) =~= calls_of(items, path, n).push(the_call(items[n]->Good_0, path, n + 1)));
}
proof fn lemma_advance(w0: World, w1: World, w: World, items: Seq<Item>, limit: Option<usize>, rest: Seq<Item>, line: Line, n1: int, n: int, b1: int, b: int,
                    t1: Seq<Call>, t: Seq<Call>, path: int, flag: int)
    requires running(w0, w1, items, limit, rest, n1, b1, t1, path, flag), rest.len() > 0, rest[0] == Item::Good(line),
        flags_up(w1, w), w.sent == w1.sent, w.attempts == w1.attempts, w.added == w1.added, w.armed == w1.armed,
        handled(w1, w, line, n1, n, b1, b, t1, t, path, flag),
    ensures running(w0, w, items, limit, rest.skip(1), n, b, t, path, flag),
{
    lemma_step(w0, w1, items, limit, rest, n1, b1, t1, path, flag);
    let m = cut(items, limit);
    if w.calls@ != w1.calls@ {
        assert(w.calls@ =~= w0.calls@ + calls_of(items, path, n));
    }
}
proof fn lemma_begin(w0: World, w: World, items: Seq<Item>, limit: Option<usize>, rest: Seq<Item>, trace: Seq<Call>, path: int, flag: int)
    requires flags_up(w0, w), w.sent == w0.sent, w.added == w0.added, w.armed == w0.armed, w.attempts@ == w0.attempts@ + 1, w.calls == w0.calls,
        readable(path, items), items.len() < usize::MAX, trace == Seq::<Call>::empty(),
        forall|k: int| 0 <= k <= items.len() ==> 0 <= #[trigger] bytes_of(items, k) <= usize::MAX,
        rest == items.take(cut(items, limit)) || limit is None && rest == items || cut(items, limit) == items.len() && rest == items,
    ensures running(w0, w, items, limit, rest, 0, 0, trace, path, flag),
{
    assert(rest =~= items.subrange(0, cut(items, limit)));
    assert(bytes_of(items, 0) == 0);
    assert(w.calls@ =~= w0.calls@ + calls_of(items, path, 0));
    assert(trace =~= calls_of(items, path, 0));
    assert(prefix_of(items, 0, limit));
}

#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
fn process_file(mut data_func: DataFunc, context: ContextFactory, mut callback: Callback, progress: Option<ProgressBar>,
                path: &PathRef, limit: Option<usize>, early_exit: Arc<AtomicBool>, w: &mut World) -> (r: Result<(usize, usize)>)
    requires
        // a panic in here raises the flag
        old(w).armed@.contains(early_exit.id()),                                                       // [C19]
    ensures
        flags_up(*old(w), *final(w)), final(w).added == old(w).added, final(w).armed == old(w).armed,
        final(w).attempts@ == old(w).attempts@ + 1,
        // nothing but the lines of one reading, in order and numbered from 1, is ever handed over
        final(w).calls@ == old(w).calls@ || exists|items: Seq<Item>, k: int| #[trigger] prefix_of(items, k, limit)
            && final(w).calls@ == old(w).calls@ + calls_of(items, path.id(), k) && readable(path.id(), items),
        r is Err ==> final(w).sent == old(w).sent,
        // success: every line up to the limit was handed over once, and what they made of the fresh context is delivered once
        r is Ok && !final(w).flag(early_exit.id()) ==>
            exists|items: Seq<Item>| #[trigger] complete(items, path.id(), limit)
                && final(w).calls@ == old(w).calls@ + calls_of(items, path.id(), cut(items, limit))
                && final(w).sent@ == old(w).sent@.push(calls_of(items, path.id(), cut(items, limit)))
                && r->Ok_0.0 == cut(items, limit)
                && r->Ok_0.1 == bytes_of(items, cut(items, limit)),
{
    let ghost w0 = *w;
    proof { w.attempts@ = w.attempts@ + 1; }
/*@body
@file src/cmd/util.rs
@item process_file
@params data_func context callback progress path limit early_exit
@lift process_line process_line &early_exit, &mut total_lines, &mut total_bytes, &mut data_func, path, &mut context, w
@world GzBufReader::open
@sub context()? =>> context.make()?
@sub callback(context) =>> callback.call(context, w)
@before if let Some(limit) = limit =>>
    let ghost items = reader.rest(); let ghost lim = limit;
@end
    proof { if !w.flag(early_exit.id()) { assert(complete(items, path.id(), lim)); } }
@loop 0 for
    invariant
        w0 == *old(w),
        running(w0, *w, items, lim, __it0.rest(), total_lines as int, total_bytes as int, context.trace(), path.id(), early_exit.id()),
    ensures
        !w.flag(early_exit.id()) ==> total_lines == cut(items, lim),
        running(w0, *w, items, lim, Seq::empty(), total_lines as int, total_bytes as int, context.trace(), path.id(), early_exit.id()),
    decreases __it0.rest().len(),
@top 0
    let ghost w1 = *w; let ghost n1 = total_lines as int; let ghost b1 = total_bytes as int; let ghost t1 = context.trace(); let ghost line1 = line->Ok_0;
    let ghost rest1 = items.subrange(cut(items, lim) - __it0.rest().len() - 1, cut(items, lim));
    proof { lemma_step(w0, *w, items, lim, rest1, total_lines as int, total_bytes as int, context.trace(), path.id(), early_exit.id()); }
@bottom 0
    proof { lemma_advance(w0, w1, *w, items, lim, rest1, line1, n1, total_lines as int, b1, total_bytes as int, t1, context.trace(), path.id(), early_exit.id()); }
@pre 0
    proof { lemma_begin(w0, *w, items, lim, __it0.rest(), context.trace(), path.id(), early_exit.id()); }
@loop 1 for
    invariant
        w0 == *old(w),
        running(w0, *w, items, lim, __it1.rest(), total_lines as int, total_bytes as int, context.trace(), path.id(), early_exit.id()),
    ensures
        !w.flag(early_exit.id()) ==> total_lines == cut(items, lim),
        running(w0, *w, items, lim, Seq::empty(), total_lines as int, total_bytes as int, context.trace(), path.id(), early_exit.id()),
    decreases __it1.rest().len(),
@top 1
    let ghost w1 = *w; let ghost n1 = total_lines as int; let ghost b1 = total_bytes as int; let ghost t1 = context.trace(); let ghost line1 = line->Ok_0;
    let ghost rest1 = items.subrange(cut(items, lim) - __it1.rest().len() - 1, cut(items, lim));
    proof { lemma_step(w0, *w, items, lim, rest1, total_lines as int, total_bytes as int, context.trace(), path.id(), early_exit.id()); }
@bottom 1
    proof { lemma_advance(w0, w1, *w, items, lim, rest1, line1, n1, total_lines as int, b1, total_bytes as int, t1, context.trace(), path.id(), early_exit.id()); }
@pre 1
    proof { lemma_begin(w0, *w, items, lim, __it1.rest(), context.trace(), path.id(), early_exit.id()); }
@loop 2 for
    invariant
        w0 == *old(w),
        running(w0, *w, items, lim, __it2.rest(), total_lines as int, total_bytes as int, context.trace(), path.id(), early_exit.id()),
    ensures
        !w.flag(early_exit.id()) ==> total_lines == cut(items, lim),
        running(w0, *w, items, lim, Seq::empty(), total_lines as int, total_bytes as int, context.trace(), path.id(), early_exit.id()),
    decreases __it2.rest().len(),
@top 2
    let ghost w1 = *w; let ghost n1 = total_lines as int; let ghost b1 = total_bytes as int; let ghost t1 = context.trace(); let ghost line1 = line->Ok_0;
    let ghost rest1 = items.subrange(cut(items, lim) - __it2.rest().len() - 1, cut(items, lim));
    proof { lemma_step(w0, *w, items, lim, rest1, total_lines as int, total_bytes as int, context.trace(), path.id(), early_exit.id()); }
@bottom 2
    proof { lemma_advance(w0, w1, *w, items, lim, rest1, line1, n1, total_lines as int, b1, total_bytes as int, t1, context.trace(), path.id(), early_exit.id()); }
@pre 2
    proof { lemma_begin(w0, *w, items, lim, __it2.rest(), context.trace(), path.id(), early_exit.id()); }
@loop 3 for
    invariant
        w0 == *old(w),
        running(w0, *w, items, lim, __it3.rest(), total_lines as int, total_bytes as int, context.trace(), path.id(), early_exit.id()),
    ensures
        !w.flag(early_exit.id()) ==> total_lines == cut(items, lim),
        running(w0, *w, items, lim, Seq::empty(), total_lines as int, total_bytes as int, context.trace(), path.id(), early_exit.id()),
    decreases __it3.rest().len(),
@top 3
    let ghost w1 = *w; let ghost n1 = total_lines as int; let ghost b1 = total_bytes as int; let ghost t1 = context.trace(); let ghost line1 = line->Ok_0;
    let ghost rest1 = items.subrange(cut(items, lim) - __it3.rest().len() - 1, cut(items, lim));
    proof { lemma_step(w0, *w, items, lim, rest1, total_lines as int, total_bytes as int, context.trace(), path.id(), early_exit.id()); }
@bottom 3
    proof { lemma_advance(w0, w1, *w, items, lim, rest1, line1, n1, total_lines as int, b1, total_bytes as int, t1, context.trace(), path.id(), early_exit.id()); }
@pre 3
    proof { lemma_begin(w0, *w, items, lim, __it3.rest(), context.trace(), path.id(), early_exit.id()); }
@*/
}
/// one reading of the file that is good up to the limit
pub open spec fn complete(items: Seq<Item>, path: int, limit: Option<usize>) -> bool {
    readable(path, items) && prefix_of(items, cut(items, limit), limit)
}

// ------------------------------------------------------------------ one job of the pool
/// the job is over and the command has not been stopped: exactly one complete reading of the file was
/// delivered, counted once, and no more attempts were made than allowed
pub open spec fn job_done(w0: World, w: World, path: int, limit: Option<usize>, max_retries: int, total_lines: int, total_bytes: int, items: Seq<Item>) -> bool {
    &&& complete(items, path, limit)
    &&& w.sent@ == w0.sent@.push(calls_of(items, path, cut(items, limit)))
    &&& w.added@[total_lines] == w0.added@[total_lines] + cut(items, limit)
    &&& w.added@[total_bytes] == w0.added@[total_bytes] + bytes_of(items, cut(items, limit))
}
fn worker_job(data_func: DataFunc, context: ContextFactory, callback: Callback, progress: Option<ProgressBar>, path: PathRef,
              limit: Option<usize>, early_exit: Arc<AtomicBool>, total_lines: Arc<AtomicUsize>, total_bytes: Arc<AtomicUsize>,
              file_progress: ProgressBar, error: ErrorCell, max_retries: usize, error_count: Arc<AtomicUsize>, w: &mut World)
    requires
        total_lines.id() != total_bytes.id(), error_count.id() != total_lines.id(), error_count.id() != total_bytes.id(),
        max_retries < usize::MAX,
    ensures
        flags_up(*old(w), *final(w)),
        // attempts: at most one more than the retries allowed
        final(w).attempts@ <= old(w).attempts@ + max_retries + 1,                                    // [C20]
        // nothing of a failed attempt is delivered, nothing twice
        !final(w).flag(early_exit.id()) ==> exists|items: Seq<Item>| #[trigger] complete(items, path.id(), limit) &&
            job_done(*old(w), *final(w), path.id(), limit, max_retries as int, total_lines.id(), total_bytes.id(), items),
{
    let ghost w0 = *w;
/*@body
@file src/cmd/util.rs
@item DataExecutor::execute_with_callback@execute#0.0
@world process_file fetch_add store
@locals retries
@sub? let _ = PanicFlag(early_exit.clone()); =>> let _ = PanicFlag::dropped(early_exit.clone(), w);
@sub? PanicFlag(early_exit.clone()) =>> PanicFlag::arm(early_exit.clone(), w)
@sub? if let Ok(ref mut error) = error.try_lock() { **error = Some(format!("{err:?} encounted while processing {path:?}")); } =>> error.set(&err);
@sub? if let Ok(ref mut error) = error.try_lock() { **error = Some(format!("{err:?} encounted while processing {path:?}")) } =>> error.set(&err);
@loop 0 loop
    invariant_except_break
        w.attempts@ == w0.attempts@ + retries,
        w.sent == w0.sent, w.added@[total_lines.id()] == w0.added@[total_lines.id()], w.added@[total_bytes.id()] == w0.added@[total_bytes.id()],
    invariant
        w0 == *old(w), retries <= max_retries, max_retries < usize::MAX,
        total_lines.id() != total_bytes.id(), error_count.id() != total_lines.id(), error_count.id() != total_bytes.id(),
        flags_up(w0, *w), w.armed@.contains(early_exit.id()),
    ensures
        flags_up(w0, *w), w.attempts@ <= w0.attempts@ + max_retries + 1,
        !w.flag(early_exit.id()) ==> exists|items: Seq<Item>| #[trigger] complete(items, path.id(), limit) &&
            job_done(w0, *w, path.id(), limit, max_retries as int, total_lines.id(), total_bytes.id(), items),
    decreases max_retries - retries,
@*/
}

/// what happens to the guard when the job is over: a panic raises the flag
fn panic_flag_drop(f: Arc<AtomicBool>, w: &mut World)
    ensures flags_up(*old(w), *final(w)), thread::panics() ==> final(w).flag(f.id()),
{
/*@body
@file src/cmd/util.rs
@item Drop for PanicFlag::drop
@params self
@world store
@sub self.0 =>> f
@sub? std::thread::panicking( =>> thread::panicking(
@*/
}
pub mod thread {
    use super::*;
    /// this thread is unwinding
    pub uninterp spec fn panics() -> bool;
    #[verifier::external_body]
    pub fn panicking() -> (r: bool) ensures r == panics() { unimplemented!() }
}

// ------------------------------------------------------------------ the executor
pub struct DataExecutor {
    pub all_progress: MultiProgress,
    pub file_progress: ProgressBar,
    pub total_lines: Arc<AtomicUsize>,
    pub total_bytes: Arc<AtomicUsize>,
    pub limit: Option<usize>,
    pub pool: ThreadPool,
    pub early_exit: Arc<AtomicBool>,
    pub start: Instant,
    pub error: ErrorCell,
    pub max_retries: usize,
    pub error_count: Arc<AtomicUsize>,
    pub max_workers: usize,
    pub quiet: bool,
}
impl DataExecutor {
    pub open spec fn wf(&self) -> bool {
        &&& self.pool.workers() >= 1
        &&& self.total_lines.id() != self.total_bytes.id() && self.error_count.id() != self.total_lines.id() && self.error_count.id() != self.total_bytes.id()
    }
    /// the job that processes one file
    pub open spec fn job(&self, path: int) -> JobSpec {
        JobSpec { path, limit: self.limit, flag: self.early_exit.id(), lines: self.total_lines.id(), bytes: self.total_bytes.id(),
            errors: self.error_count.id(), retries: self.max_retries as int }
    }

    pub fn new(paths: &Paths, max_workers: Option<usize>, limit: Option<usize>, description: &'static str, quiet: bool, w: &mut World) -> (r: Result<DataExecutor>)
        ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.limit == limit && r->Ok_0.max_retries == 0
            // counting starts at zero, and the flag is down
            && final(w).added@[r->Ok_0.total_lines.id()] == 0 && final(w).added@[r->Ok_0.total_bytes.id()] == 0
            && !final(w).flag(r->Ok_0.early_exit.id()) && !old(w).seen@.contains(r->Ok_0.early_exit.id()),
    {
/*@body
@file src/cmd/util.rs
@item DataExecutor::new
@params paths max_workers limit description quiet
@world AtomicUsize::new AtomicBool::new
@sub unwrap_or_else(|| std::cmp::min(64, num_cpus::get())) =>> unwrap_or(std::cmp::min(64, num_cpus::get()))
@sub? "wimbd-worker".to_string() =>> "wimbd-worker"
@sub? Arc::new(Mutex::new(None)) =>> ErrorCell::new()
@*/
    }

    pub fn execute_with_callback(&self, path: &PathRef, data_func: DataFunc, context: ContextFactory, callback: Callback, w: &mut World) -> (r: Result<()>)
        requires self.wf(),
        ensures
            final(w).calls == old(w).calls, final(w).sent == old(w).sent, final(w).added == old(w).added,
            // exactly one job for exactly this file, with this executor's limit, flag, counters and retries
            r is Ok ==> final(w).jobs@ == old(w).jobs@.push(self.job(path.id())),
            r is Err ==> final(w).jobs@ == old(w).jobs@,
    {
/*@body
@file src/cmd/util.rs
@item DataExecutor::execute_with_callback
@params self path data_func context callback
@world store
@known execute
@closure 0
Job { data_func, context, callback, progress, path, limit, early_exit, total_lines, total_bytes, file_progress, error, max_retries, error_count }
@sub self.pool.execute( =>> self.pool.submit(w,
@*/
    }

    pub fn join(&self, w: &mut World) -> (r: Result<()>)
        ensures
            final(w).calls == old(w).calls, final(w).sent == old(w).sent, final(w).added == old(w).added,
            r is Ok ==> final(w).joined@ && final(w).flag_clear@.contains(self.early_exit.id()),
    {
/*@body
@file src/cmd/util.rs
@item DataExecutor::join
@params self
@world join load panic_count
@sub? if let Ok(ref error) = self.error.try_lock() { if let Some(ref err) = **error { bail!("{err}"); } } =>> if self.error.is_set() { bail!("{err}"); }
@sub? if let Ok(ref error) = self.error.try_lock() { if let Some(ref err) = **error { log::warn!("Last error encountered: {err:.180}..."); } } =>>
@*/
    }
}
// ------------------------------------------------------------------ execute: no context, no callback
fn execute_data_adapter(data: Data, path: &PathRef, line_num: usize, context: &mut Option<bool>, data_func: &mut PlainFunc, w: &mut World) -> (r: Result<()>)
    ensures final(w).calls@ == old(w).calls@.push(Call { data, path: path.id(), line: line_num as int }),
        r is Ok ==> final(data_func).ok(),
{
/*@body
@file src/cmd/util.rs
@item DataExecutor::execute@execute_with_callback#0.1
@params data path line_num context
@world data_func
@sub data_func( =>> data_func.call(
@*/
}
fn execute_context_adapter() -> (r: Result<Option<bool>>)
    ensures r is Ok,
{
/*@body
@file src/cmd/util.rs
@item DataExecutor::execute@execute_with_callback#0.2
@*/
}
fn execute_callback_adapter(context: Option<bool>) -> (r: Result<()>)
    ensures r is Ok,
{
/*@body
@file src/cmd/util.rs
@item DataExecutor::execute@execute_with_callback#0.3
@*/
}

// ------------------------------------------------------------------ property-level theorem
pub open spec fn total_lines_of(js: Seq<JobSpec>, read: Seq<Seq<Item>>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { total_lines_of(js, read, n - 1) + cut(read[n - 1], js[n - 1].limit) } }
pub open spec fn total_bytes_of(js: Seq<JobSpec>, read: Seq<Seq<Item>>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { total_bytes_of(js, read, n - 1) + bytes_of(read[n - 1], cut(read[n - 1], js[n - 1].limit)) } }
/// a worker's part of a counter: what it added from the start of its job to its end
pub open spec fn part(a: World, b: World, id: int) -> int { b.added@[id] - a.added@[id] }
pub open spec fn sum_parts(a: Seq<World>, b: Seq<World>, id: int, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { sum_parts(a, b, id, n - 1) + part(a[n - 1], b[n - 1], id) } }
/// If the executor's join succeeds (the flag is down once every job is over), then every submitted job delivered
/// exactly one complete reading of its file, and the counters are the sums over all files.
proof fn theorem_success_is_complete(js: Seq<JobSpec>, a: Seq<World>, b: Seq<World>, fin: World, ex: DataExecutor) -> (read: Seq<Seq<Item>>)
    requires
        a.len() == js.len(), b.len() == js.len(),
        forall|i: int| 0 <= i < js.len() ==> (#[trigger] js[i]) == ex.job(js[i].path) && flags_up(b[i], fin)
            // what worker_job guarantees
            && (!b[i].flag(js[i].flag) ==> exists|items: Seq<Item>| #[trigger] complete(items, js[i].path, js[i].limit)
                    && job_done(a[i], b[i], js[i].path, js[i].limit, js[i].retries, js[i].lines, js[i].bytes, items)),
        // what join found
        !fin.flag(ex.early_exit.id()),
    ensures
        read.len() == js.len(),
        forall|i: int| 0 <= i < js.len() ==> complete(#[trigger] read[i], js[i].path, js[i].limit)
            && b[i].sent@ == a[i].sent@.push(calls_of(read[i], js[i].path, cut(read[i], js[i].limit))),
        sum_parts(a, b, ex.total_lines.id(), js.len() as int) == total_lines_of(js, read, js.len() as int),
        sum_parts(a, b, ex.total_bytes.id(), js.len() as int) == total_bytes_of(js, read, js.len() as int),
{
    let read = Seq::new(js.len(), |i: int| choose|items: Seq<Item>| #[trigger] complete(items, js[i].path, js[i].limit)
        && job_done(a[i], b[i], js[i].path, js[i].limit, js[i].retries, js[i].lines, js[i].bytes, items));
    assert forall|i: int| 0 <= i < js.len() implies complete(#[trigger] read[i], js[i].path, js[i].limit)
        && job_done(a[i], b[i], js[i].path, js[i].limit, js[i].retries, js[i].lines, js[i].bytes, read[i]) by {
        let j = js[i];
        assert(!b[i].flag(js[i].flag)) by { if b[i].flags@[js[i].flag] { assert(fin.flags@[js[i].flag]); } }
    }
    lemma_sums(js, a, b, ex, read, js.len() as int);
    read
}
proof fn lemma_sums(js: Seq<JobSpec>, a: Seq<World>, b: Seq<World>, ex: DataExecutor, read: Seq<Seq<Item>>, n: int)
    requires
        0 <= n <= js.len(), read.len() == js.len(),
        forall|i: int| 0 <= i < js.len() ==> (#[trigger] js[i]) == ex.job(js[i].path),
        forall|i: int| 0 <= i < js.len() ==> job_done(a[i], b[i], js[i].path, js[i].limit, js[i].retries, js[i].lines, js[i].bytes, #[trigger] read[i]),
    ensures
        sum_parts(a, b, ex.total_lines.id(), n) == total_lines_of(js, read, n),
        sum_parts(a, b, ex.total_bytes.id(), n) == total_bytes_of(js, read, n),
    decreases n
{
    if n > 0 {
        lemma_sums(js, a, b, ex, read, n - 1);
        let r = read[n - 1];
        assert(js[n - 1] == ex.job(js[n - 1].path));
    }
}
fn main() {}
} // verus!
