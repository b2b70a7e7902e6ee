// ---------------------------------------------------------------------------------------------
// shim_exec: files, lines, parsing, flags and the closures a command hands to the executor, by
// contract.  The World is what one thread sees and does: flags that any thread may raise (and no
// thread ever lowers: interference is built into every operation), the calls this thread made of the
// command's data function, the contexts it delivered to the callback, and what it added to counters.
// ---------------------------------------------------------------------------------------------
pub struct Call { pub data: Data, pub path: int, pub line: int }
pub struct World {
    pub flags: Ghost<Map<int, bool>>,
    pub calls: Ghost<Seq<Call>>,
    pub sent: Ghost<Seq<Seq<Call>>>,
    pub added: Ghost<Map<int, int>>,
    pub attempts: Ghost<int>,
    pub seen: Ghost<Set<int>>,      // atomics in existence
    pub jobs: Ghost<Seq<JobSpec>>,
    pub joined: Ghost<bool>,        // the pool has been joined: no job is running any more
    pub flag_clear: Ghost<Set<int>>,  // flags found down after joining
    pub armed: Ghost<Set<int>>,     // flags that a panic of this thread raises from now on
}
impl World { pub open spec fn flag(&self, id: int) -> bool { self.flags@[id] } }
/// other threads only ever raise flags
pub open spec fn flags_up(a: World, b: World) -> bool {
    forall|id: int| #[trigger] a.flags@[id] ==> b.flags@[id]
}
/// nothing but flags changed
pub open spec fn same_else(a: World, b: World) -> bool {
    &&& flags_up(a, b) && a.calls == b.calls && a.sent == b.sent && a.added == b.added && a.attempts == b.attempts
    &&& a.jobs == b.jobs && a.joined == b.joined && a.seen == b.seen && a.armed == b.armed
}

pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
#[verifier::external_body]
pub struct AtomicBool { x: u64 }
impl AtomicBool {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(v: bool, w: &mut World) -> (r: AtomicBool)
        ensures final(w).flags@ == old(w).flags@.insert(r.id(), v), final(w).calls == old(w).calls, final(w).sent == old(w).sent,
            final(w).added == old(w).added, final(w).jobs == old(w).jobs,
            !old(w).seen@.contains(r.id()), final(w).seen@ == old(w).seen@.insert(r.id()) { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, w: &mut World) -> (r: bool)
        ensures same_else(*old(w), *final(w)), r == final(w).flag(self.id()),
            final(w).flag_clear@ == (if !r && old(w).joined@ { old(w).flag_clear@.insert(self.id()) } else { old(w).flag_clear@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, v: bool, o: Ordering, w: &mut World)
        requires v, // a flag is only ever raised
        ensures same_else(*old(w), *final(w)), final(w).flag(self.id()),
            final(w).flag_clear@ == old(w).flag_clear@.remove(self.id()) { unimplemented!() }
}
/// the guard of a job, whose Drop (under contract as panic_flag_drop) runs when a panic unwinds the job
pub struct PanicFlag { pub f: Arc<AtomicBool> }
impl PanicFlag {
    #[verifier::external_body]
    pub fn arm(f: Arc<AtomicBool>, w: &mut World) -> (r: PanicFlag)
        ensures same_else(*old(w), World { armed: old(w).armed, ..*final(w) }), final(w).armed@ == old(w).armed@.insert(f.id()),
            final(w).flag_clear == old(w).flag_clear { unimplemented!() }
    /// dropped at once
    #[verifier::external_body]
    pub fn dropped(f: Arc<AtomicBool>, w: &mut World) -> (r: PanicFlag)
        ensures same_else(*old(w), *final(w)), final(w).flag_clear == old(w).flag_clear { unimplemented!() }
}
#[verifier::external_body]
pub struct AtomicUsize { x: u64 }
impl AtomicUsize {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(v: usize, w: &mut World) -> (r: AtomicUsize)
        ensures final(w).flags == old(w).flags, final(w).calls == old(w).calls, final(w).sent == old(w).sent, final(w).jobs == old(w).jobs,
            !old(w).seen@.contains(r.id()), final(w).seen@ == old(w).seen@.insert(r.id()),
            final(w).added@ == old(w).added@.insert(r.id(), v as int) { unimplemented!() }
    /// what this thread added is logged; the value read is whatever the other threads made of it
    #[verifier::external_body]
    pub fn fetch_add(&self, v: usize, o: Ordering, w: &mut World) -> (r: usize)
        ensures flags_up(*old(w), *final(w)), final(w).calls == old(w).calls, final(w).sent == old(w).sent,
            final(w).attempts == old(w).attempts, final(w).seen == old(w).seen, final(w).armed == old(w).armed,
            final(w).jobs == old(w).jobs, final(w).joined == old(w).joined,
            final(w).added@ == old(w).added@.insert(self.id(), old(w).added@[self.id()] + v) { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, w: &mut World) -> (r: usize)
        ensures *final(w) == *old(w) { unimplemented!() }
}

// ------------------------------------------------------------------ paths
pub trait AsPath { spec fn pid(&self) -> int; }
#[verifier::external_body]
pub struct PathRef { x: u64 }
impl PathRef {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &PathRef) ensures r.id() == self.id() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) { unimplemented!() }
}
impl Clone for PathRef {
    #[verifier::external_body]
    fn clone(&self) -> (r: PathRef) ensures r.id() == self.id() { unimplemented!() }
}
impl AsPath for PathRef { open spec fn pid(&self) -> int { self.id() } }
impl<T: AsPath> AsPath for &T { open spec fn pid(&self) -> int { (**self).pid() } }

// ------------------------------------------------------------------ lines
#[verifier::external_body]
pub struct Line { x: u64 }
impl Line {
    pub uninterp spec fn bytes(&self) -> nat;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.bytes() { unimplemented!() }
}
/// what the line reader yields: a line, or an error (damaged archive, invalid UTF-8, I/O)
pub enum Item { Good(Line), Bad }
/// what one reading of the file may give
pub uninterp spec fn readable(path: int, items: Seq<Item>) -> bool;
pub open spec fn bytes_of(items: Seq<Item>, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { bytes_of(items, k - 1) + (match items[k - 1] { Item::Good(l) => l.bytes() as int, Item::Bad => 0int }) } }

/// GzBufReader and the adapters over it (take, progress_with), with io::Error already turned into anyhow::Error
#[verifier::external_body]
pub struct GzBufReader { x: u64 }
impl GzBufReader {
    pub uninterp spec fn rest(&self) -> Seq<Item>;
    /// assumption: the lengths of all lines of a file add up to at most usize::MAX
    #[verifier::external_body]
    pub fn open<P: AsPath>(p: &P, w: &mut World) -> (r: Result<GzBufReader>)
        ensures *final(w) == *old(w),
            r is Ok ==> readable(p.pid(), r->Ok_0.rest()) && r->Ok_0.rest().len() < usize::MAX
                && (forall|k: int| 0 <= k <= r->Ok_0.rest().len() ==> 0 <= #[trigger] bytes_of(r->Ok_0.rest(), k) <= usize::MAX) { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: GzBufReader)
        ensures r.rest() == (if n < self.rest().len() { self.rest().take(n as int) } else { self.rest() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn progress_with(self, p: ProgressBar) -> (r: GzBufReader) ensures r.rest() == self.rest() { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<Line>>)
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> final(self).rest() == old(self).rest().skip(1) && r is Some
                && (old(self).rest()[0] is Good ==> r->Some_0 is Ok && r->Some_0->Ok_0 == old(self).rest()[0]->Good_0)
                && (old(self).rest()[0] is Bad ==> r->Some_0 is Err) { unimplemented!() }
}
pub fn vx_into_iter(r: GzBufReader) -> (o: GzBufReader) ensures o == r { r }

// ------------------------------------------------------------------ parsing
#[verifier::external_body]
pub struct Data { x: u64 }
pub type DataInstance = Data;
/// the document a line holds, if it is one
pub uninterp spec fn parse(l: Line) -> Option<Data>;
#[verifier::external_body]
pub struct JsonError { x: u64 }
#[verifier::external_body]
pub struct ErrorKind { x: u64 }
impl JsonError {
    #[verifier::external_body]
    pub fn io_error_kind(&self) -> (r: Option<ErrorKind>) { unimplemented!() }
}
pub mod serde_json {
    use super::*;
    #[verifier::external_body]
    pub fn from_str(l: &Line) -> (r: core::result::Result<Data, JsonError>)
        ensures r is Ok <==> parse(*l) is Some, r is Ok ==> parse(*l) == Some(r->Ok_0) { unimplemented!() }
}
pub mod io {
    use super::*;
    #[verifier::external_body]
    pub struct Error { x: u64 }
    impl Error {
        #[verifier::external_body]
        pub fn new(k: ErrorKind, e: JsonError) -> (r: Error) { unimplemented!() }
        #[verifier::external_body]
        pub fn into(self) -> (r: super::Error) { unimplemented!() }
    }
}

// ------------------------------------------------------------------ the command's closures
#[verifier::external_body]
pub struct Context { x: u64 }
impl Context { pub uninterp spec fn trace(&self) -> Seq<Call>; }
#[verifier::external_body]
pub struct DataFunc { x: u64 }
impl DataFunc {
    #[verifier::external_body]
    pub fn call(&mut self, data: Data, path: &PathRef, line: usize, c: &mut Context, w: &mut World) -> (r: Result<()>)
        ensures flags_up(*old(w), *final(w)), final(w).sent == old(w).sent, final(w).added == old(w).added,
            final(w).attempts == old(w).attempts, final(w).seen == old(w).seen, final(w).armed == old(w).armed,
            final(w).jobs == old(w).jobs, final(w).joined == old(w).joined,
            final(w).calls@ == old(w).calls@.push(Call { data, path: path.id(), line: line as int }),
            r is Ok ==> final(c).trace() == old(c).trace().push(Call { data, path: path.id(), line: line as int }) { unimplemented!() }
}
impl Clone for DataFunc {
    #[verifier::external_body]
    fn clone(&self) -> (r: DataFunc) { unimplemented!() }
}
#[verifier::external_body]
pub struct ContextFactory { x: u64 }
impl ContextFactory {
    #[verifier::external_body]
    pub fn make(&self) -> (r: Result<Context>) ensures r is Ok ==> r->Ok_0.trace() == Seq::<Call>::empty() { unimplemented!() }
}
impl Clone for ContextFactory {
    #[verifier::external_body]
    fn clone(&self) -> (r: ContextFactory) { unimplemented!() }
}
#[verifier::external_body]
pub struct Callback { x: u64 }
impl Callback {
    /// assumption: a callback that fails delivers nothing (or the command fails anyway, see DESIGN.md)
    #[verifier::external_body]
    pub fn call(&mut self, c: Context, w: &mut World) -> (r: Result<()>)
        ensures flags_up(*old(w), *final(w)), final(w).calls == old(w).calls, final(w).added == old(w).added,
            final(w).attempts == old(w).attempts, final(w).seen == old(w).seen, final(w).armed == old(w).armed,
            final(w).jobs == old(w).jobs, final(w).joined == old(w).joined,
            r is Ok ==> final(w).sent@ == old(w).sent@.push(c.trace()),
            r is Err ==> final(w).sent == old(w).sent { unimplemented!() }
}
impl Clone for Callback {
    #[verifier::external_body]
    fn clone(&self) -> (r: Callback) { unimplemented!() }
}

// ------------------------------------------------------------------ progress bars (no effect on results)
#[verifier::external_body]
pub struct ProgressBar { x: u64 }
impl ProgressBar {
    #[verifier::external_body]
    pub fn inc(&self, n: u64) { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&self) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&self) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish_and_clear(&self) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_position(&self, n: u64) { unimplemented!() }
}
impl Clone for ProgressBar {
    #[verifier::external_body]
    fn clone(&self) -> (r: ProgressBar) { unimplemented!() }
}

/// Arc<Mutex<Option<String>>> holding the last error message; only the message depends on it
#[verifier::external_body]
pub struct ErrorCell { x: u64 }
impl ErrorCell {
    #[verifier::external_body]
    pub fn set(&self, e: &Error) { unimplemented!() }
}
impl ErrorCell {
    #[verifier::external_body]
    pub fn new() -> (r: ErrorCell) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_set(&self) -> (r: bool) { unimplemented!() }
}
impl Clone for ErrorCell {
    #[verifier::external_body]
    fn clone(&self) -> (r: ErrorCell) { unimplemented!() }
}
pub struct JobSpec { pub path: int, pub limit: Option<usize>, pub flag: int, pub lines: int, pub bytes: int, pub errors: int, pub retries: int }

#[verifier::external_body]
pub struct MultiProgress { x: u64 }
impl MultiProgress {
    #[verifier::external_body]
    pub fn add(&self, p: ProgressBar) -> (r: ProgressBar) { unimplemented!() }
}
#[verifier::external_body]
pub fn get_multi_progress_bar(hidden: bool) -> (r: MultiProgress) { unimplemented!() }
#[verifier::external_body]
pub fn get_file_progress_bar(msg: &'static str, n: usize, hidden: bool) -> (r: Result<ProgressBar>) { unimplemented!() }
#[verifier::external_body]
pub fn get_progress_bar<P: AsPath>(path: &P, limit: Option<usize>, hidden: bool) -> (r: Result<ProgressBar>) { unimplemented!() }
#[verifier::external_body]
pub struct Instant { x: u64 }
impl Instant {
    #[verifier::external_body]
    pub fn now() -> (r: Instant) { unimplemented!() }
}
#[verifier::external_body]
pub struct Paths { x: u64 }
impl Paths {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) { unimplemented!() }
}
pub mod num_cpus {
    use super::*;
    #[verifier::external_body]
    pub fn get() -> (r: usize) ensures r >= 1 { unimplemented!() }
}
/// the closure given to the pool: what it captures
pub struct Job {
    pub data_func: DataFunc, pub context: ContextFactory, pub callback: Callback, pub progress: Option<ProgressBar>, pub path: PathRef,
    pub limit: Option<usize>, pub early_exit: Arc<AtomicBool>, pub total_lines: Arc<AtomicUsize>, pub total_bytes: Arc<AtomicUsize>,
    pub file_progress: ProgressBar, pub error: ErrorCell, pub max_retries: usize, pub error_count: Arc<AtomicUsize>,
}
impl Job {
    pub open spec fn spec(&self) -> JobSpec {
        JobSpec { path: self.path.id(), limit: self.limit, flag: self.early_exit.id(), lines: self.total_lines.id(), bytes: self.total_bytes.id(),
            errors: self.error_count.id(), retries: self.max_retries as int }
    }
}
/// threadpool::ThreadPool: every submitted job is run once, on one of the workers; join waits for all of them
#[verifier::external_body]
pub struct ThreadPool { x: u64 }
impl ThreadPool {
    pub uninterp spec fn workers(&self) -> int;
    #[verifier::external_body]
    pub fn with_name(name: &'static str, n: usize) -> (r: ThreadPool)
        requires n >= 1,
        ensures r.workers() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn submit(&self, w: &mut World, job: Job)
        ensures flags_up(*old(w), *final(w)), final(w).calls == old(w).calls, final(w).sent == old(w).sent, final(w).added == old(w).added,
            final(w).jobs@ == old(w).jobs@.push(job.spec()) { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, w: &mut World)
        ensures flags_up(*old(w), *final(w)), final(w).calls == old(w).calls, final(w).sent == old(w).sent, final(w).added == old(w).added,
            final(w).jobs == old(w).jobs, final(w).joined@, final(w).flag_clear@ == Set::<int>::empty() { unimplemented!() }
    /// says nothing: a job that panicked may be reported as finished before its panic is counted
    #[verifier::external_body]
    pub fn panic_count(&self, w: &mut World) -> (r: usize)
        ensures same_else(*old(w), *final(w)), final(w).flag_clear == old(w).flag_clear { unimplemented!() }
}

/// the data function of a command without context
#[verifier::external_body]
pub struct PlainFunc { x: u64 }
impl PlainFunc {
    pub uninterp spec fn ok(&self) -> bool;
    #[verifier::external_body]
    pub fn call(&mut self, data: Data, path: &PathRef, line: usize, w: &mut World) -> (r: Result<()>)
        ensures final(w).calls@ == old(w).calls@.push(Call { data, path: path.id(), line: line as int }), r is Ok <==> final(self).ok() { unimplemented!() }
}
