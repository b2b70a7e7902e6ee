// ---------------------------------------------------------------------------------------------
// shim_cmd: what the `main` of a command works with, by contract: paths, output files, standard
// output, JSON values, and the data executor (whose own code is verified in unit `exec`).
// The World is the command's view of everything shared or external.
// ---------------------------------------------------------------------------------------------
pub struct World {
    pub cells: Ghost<Map<int, int>>,    // counters; exact once no job is running any more
    pub jobs: Ghost<Seq<JobSpec>>,      // what was handed to the executor
    pub joined: Ghost<bool>,            // every job is done and none failed
    pub out: Ghost<Seq<OutLine>>,       // standard output
    pub fs: Ghost<Map<int, Seq<OutLine>>>, // output files by handle
    pub ext: Ghost<Ext>,                // whatever else the unit's workers share (Ext, ext_ran: defined by the unit)
}
pub open spec fn same_but_out(a: World, b: World) -> bool { a.cells == b.cells && a.jobs == b.jobs && a.joined == b.joined && a.fs == b.fs && a.ext == b.ext }
pub open spec fn same_but_fs(a: World, b: World) -> bool { a.cells == b.cells && a.jobs == b.jobs && a.joined == b.joined && a.out == b.out && a.ext == b.ext }
pub open spec fn same_but_cells(a: World, b: World) -> bool { a.out == b.out && a.jobs == b.jobs && a.joined == b.joined && a.fs == b.fs && a.ext == b.ext }

pub type Chars = Seq<char>;
/// a string (String, &str): the contracts only need its characters
#[verifier::external_body]
pub struct Text { s: String }
impl Text {
    pub uninterp spec fn view(&self) -> Chars;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: Text) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Text) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &Text) ensures r@ == self@ { unimplemented!() }
}
/// equality of the values `==` is applied to
pub trait VxView { type V; spec fn vx(&self) -> Self::V; spec fn same(a: Self::V, b: Self::V) -> bool; }
impl VxView for usize { type V = int; open spec fn vx(&self) -> int { *self as int } open spec fn same(a: int, b: int) -> bool { a == b } }
impl VxView for u64 { type V = int; open spec fn vx(&self) -> int { *self as int } open spec fn same(a: int, b: int) -> bool { a == b } }
impl VxView for u32 { type V = int; open spec fn vx(&self) -> int { *self as int } open spec fn same(a: int, b: int) -> bool { a == b } }
impl VxView for Text { type V = Chars; open spec fn vx(&self) -> Chars { self@ } open spec fn same(a: Chars, b: Chars) -> bool { a =~= b } }
impl VxView for str { type V = Chars; open spec fn vx(&self) -> Chars { self@ } open spec fn same(a: Chars, b: Chars) -> bool { a =~= b } }
impl<T: VxView + ?Sized> VxView for &T { type V = T::V; open spec fn vx(&self) -> T::V { (**self).vx() } open spec fn same(a: T::V, b: T::V) -> bool { T::same(a, b) } }
#[verifier::external_body]
pub fn vx_eq<A: VxView + ?Sized, B: VxView<V = A::V> + ?Sized>(a: &A, b: &B) -> (r: bool)
    ensures r == A::same(a.vx(), b.vx()) { unimplemented!() }

// ------------------------------------------------------------------ paths and files
#[verifier::external_body]
pub struct PathBuf { x: u64 }
pub type Path = PathBuf;
impl PathBuf {
    pub uninterp spec fn id(&self) -> int;
    /// the answer of the file system when asked
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r == dir_there(self.id()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) ensures r == file_there(self.id()) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: PathBuf) ensures r.id() == self.id() { unimplemented!() }
}
pub trait IsPath { spec fn pid(&self) -> int; }
impl IsPath for PathBuf { open spec fn pid(&self) -> int { self.id() } }
impl<T: IsPath> IsPath for &T { open spec fn pid(&self) -> int { (**self).pid() } }
pub uninterp spec fn has_extension(path: int) -> bool;
/// the entry of that name in a directory
pub uninterp spec fn child(path: int, name: Chars) -> int;
impl PathBuf {
    #[verifier::external_body]
    pub fn extension(&self) -> (r: Option<Text>) ensures r is Some <==> has_extension(self.id()) { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, name: Text) -> (r: PathBuf) ensures r.id() == child(self.id(), name@) { unimplemented!() }
}
pub trait JoinTexts { fn join(&self, sep: &str) -> (r: Text); }
impl JoinTexts for Vec<Text> {
    #[verifier::external_body]
    fn join(&self, sep: &str) -> (r: Text) { unimplemented!() }
}
pub uninterp spec fn dir_there(path: int) -> bool;
pub uninterp spec fn file_there(path: int) -> bool;
pub open spec fn ids(v: Seq<PathBuf>) -> Seq<int> { v.map_values(|p: PathBuf| p.id()) }
/// what the path arguments stand for (C24)
pub uninterp spec fn expanded(paths: Seq<int>) -> Seq<int>;
#[verifier::external_body]
pub fn expand_dirs(paths: &Vec<PathBuf>) -> (r: Result<Vec<PathBuf>>)
    ensures r is Ok ==> ids(r->Ok_0@) == expanded(ids(paths@)) { unimplemented!() }

#[verifier::external_body]
pub struct IoError { x: u64 }
pub broadcast proof fn lemma_insert_twice(m: Map<int, Seq<OutLine>>, k: int, a: Seq<OutLine>, b: Seq<OutLine>)
    ensures #[trigger] m.insert(k, a).insert(k, b) == m.insert(k, b),
{ assert(m.insert(k, a).insert(k, b) =~= m.insert(k, b)); }
/// the file a handle was opened for
pub uninterp spec fn handle_path(id: int) -> int;
#[verifier::external_body]
pub struct File { x: u64 }
impl File {
    pub uninterp spec fn id(&self) -> int;
    pub open spec fn path(&self) -> int { handle_path(self.id()) }
    /// one write: all of it is in the file, or an error is reported
    #[verifier::external_body]
    pub fn vx_write_line<T: ToJson>(&mut self, t: &T, w: &mut World) -> (r: Result<()>)
        ensures final(self).id() == old(self).id(), final(self).path() == old(self).path(), same_but_fs(*old(w), *final(w)),
            r is Ok ==> final(w).fs@ == old(w).fs@.insert(old(self).id(), old(w).fs@[old(self).id()].push(OutLine::Json(t.js()))),
            r is Err ==> final(w).fs@ == old(w).fs@.insert(old(self).id(), final(w).fs@[old(self).id()]) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_write_other(&mut self, w: &mut World) -> (r: Result<()>)
        ensures final(self).id() == old(self).id(), final(self).path() == old(self).path(), same_but_fs(*old(w), *final(w)),
            r is Ok ==> final(w).fs@ == old(w).fs@.insert(old(self).id(), old(w).fs@[old(self).id()].push(OutLine::Other)),
            r is Err ==> final(w).fs@ == old(w).fs@.insert(old(self).id(), final(w).fs@[old(self).id()]) { unimplemented!() }
}
pub mod util {
    use super::*;
    /// contract of util::get_output_file (verified in unit `util`): an existing file only with force; empty afterwards
    #[verifier::external_body]
    pub fn get_output_file<P: IsPath>(path: P, force: bool, w: &mut World) -> (r: Result<(File, PathBuf)>)
        ensures
            file_there(path.pid()) && !force ==> r is Err && *final(w) == *old(w),
            r is Ok ==> same_but_fs(*old(w), *final(w)) && r->Ok_0.0.path() == path.pid() && r->Ok_0.1.id() == path.pid()
                && final(w).fs@ == old(w).fs@.insert(r->Ok_0.0.id(), Seq::<OutLine>::empty()),
            r is Err ==> *final(w) == *old(w),
    { unimplemented!() }
}

// ------------------------------------------------------------------ JSON and standard output
pub ghost enum JV { Null, Bool(bool), Num(int), Str(Chars), Arr(Seq<JV>), Obj(Seq<(Chars, JV)>) }
pub ghost enum OutLine { Json(JV), Other }
pub trait ToJson { spec fn js(&self) -> JV; }
impl ToJson for usize { open spec fn js(&self) -> JV { JV::Num(*self as int) } }
impl ToJson for u64 { open spec fn js(&self) -> JV { JV::Num(*self as int) } }
impl ToJson for u32 { open spec fn js(&self) -> JV { JV::Num(*self as int) } }
impl ToJson for Text { open spec fn js(&self) -> JV { JV::Str(self@) } }
impl<T: ToJson> ToJson for &T { open spec fn js(&self) -> JV { (**self).js() } }
impl<T: ToJson> ToJson for Vec<T> { open spec fn js(&self) -> JV { JV::Arr(self@.map_values(|t: T| t.js())) } }
pub struct Json { pub v: Ghost<JV> }
impl Json {
    #[verifier::external_body]
    pub fn object() -> (r: Json) ensures r.js() == JV::Obj(Seq::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn with<T: ToJson>(self, k: &'static str, t: &T) -> (r: Json)
        ensures self.js() is Obj ==> r.js() == JV::Obj(self.js()->Obj_0.push((k@, t.js()))) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: Json) ensures r.js() == self.js() { unimplemented!() }
}
impl ToJson for Json { open spec fn js(&self) -> JV { self.v@ } }
#[verifier::external_body]
pub fn vx_print_line<T: ToJson>(t: &T, w: &mut World)
    ensures same_but_out(*old(w), *final(w)), final(w).out@ == old(w).out@.push(OutLine::Json(t.js())) { unimplemented!() }
#[verifier::external_body]
pub fn vx_print_other(w: &mut World)
    ensures same_but_out(*old(w), *final(w)), final(w).out@ == old(w).out@.push(OutLine::Other) { unimplemented!() }

// ------------------------------------------------------------------ counters
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
#[verifier::external_body]
pub struct AtomicUsize { x: u64 }
impl AtomicUsize {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(v: usize, w: &mut World) -> (r: AtomicUsize)
        ensures same_but_cells(*old(w), *final(w)), !old(w).cells@.dom().contains(r.id()),
            final(w).cells@ == old(w).cells@.insert(r.id(), v as int) { unimplemented!() }
    /// assumption: counters do not reach 2^64
    #[verifier::external_body]
    pub fn fetch_add(&self, v: usize, o: Ordering, w: &mut World) -> (r: usize)
        ensures same_but_cells(*old(w), *final(w)),
            final(w).cells@ == old(w).cells@.insert(self.id(), old(w).cells@[self.id()] + v) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_max(&self, v: usize, o: Ordering, w: &mut World) -> (r: usize)
        ensures same_but_cells(*old(w), *final(w)),
            final(w).cells@ == old(w).cells@.insert(self.id(), if old(w).cells@[self.id()] < v { v as int } else { old(w).cells@[self.id()] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_min(&self, v: usize, o: Ordering, w: &mut World) -> (r: usize)
        ensures same_but_cells(*old(w), *final(w)),
            final(w).cells@ == old(w).cells@.insert(self.id(), if old(w).cells@[self.id()] > v { v as int } else { old(w).cells@[self.id()] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, v: usize, o: Ordering, w: &mut World)
        ensures same_but_cells(*old(w), *final(w)), final(w).cells@ == old(w).cells@.insert(self.id(), v as int) { unimplemented!() }
    /// exact once every job is done; anything before
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, w: &mut World) -> (r: usize)
        ensures *final(w) == *old(w), old(w).joined@ ==> r == old(w).cells@[self.id()] { unimplemented!() }
}

// ------------------------------------------------------------------ the executor
/// a command's data closure with what it captures
pub trait Task {
    /// what must hold of the captures for the closure's own contract to apply
    spec fn ready(&self) -> bool;
    spec fn spec(&self, path: int, limit: Option<usize>) -> JobSpec;
}
/// what a cell holds after all jobs of the sequence ran, each processing every document of its input once (unit `exec`)
pub open spec fn ran(jobs: Seq<JobSpec>, base: int, cell: int) -> int
    decreases jobs.len()
{ if jobs.len() == 0 { base } else { job_effect(jobs.last(), ran(jobs.drop_last(), base, cell), cell) } }
pub struct DataExecutor { pub limit: Option<usize>, pub max_retries: usize, pub total_bytes: BytesRead }
/// the bytes of all lines processed so far
#[verifier::external_body]
pub struct BytesRead { x: u64 }
pub uninterp spec fn input_bytes(path: int, limit: Option<usize>) -> int;
pub open spec fn bytes_read(jobs: Seq<JobSpec>) -> int
    decreases jobs.len()
{ if jobs.len() == 0 { 0 } else { bytes_read(jobs.drop_last()) + input_bytes(jobs.last().path, jobs.last().limit) } }
impl BytesRead {
    /// (unit `exec`)
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, w: &mut World) -> (r: usize)
        ensures *final(w) == *old(w), old(w).joined@ ==> r == bytes_read(old(w).jobs@) { unimplemented!() }
}
impl DataExecutor {
    /// a new executor has no jobs yet; the previous one (if any) must be done
    #[verifier::external_body]
    pub fn new(paths: &Vec<PathBuf>, workers: Option<usize>, limit: Option<usize>, msg: &'static str, quiet: bool, w: &mut World) -> (r: Result<DataExecutor>)
        requires old(w).jobs@.len() == 0 || old(w).joined@,
        ensures final(w).out == old(w).out, final(w).fs == old(w).fs, final(w).cells == old(w).cells, final(w).ext == old(w).ext,
            final(w).jobs@.len() == 0, !final(w).joined@,
            r is Ok ==> r->Ok_0.limit == limit && r->Ok_0.max_retries == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn execute<J: Task>(&self, path: &PathBuf, job: J, w: &mut World) -> (r: Result<()>)
        requires
            job.ready(),
            // a failed attempt leaves behind what it counted: no second one
            self.max_retries == 0,  // [C20]
        ensures final(w).out == old(w).out, final(w).fs == old(w).fs, final(w).cells == old(w).cells, final(w).joined == old(w).joined,
            final(w).ext == old(w).ext,
            r is Ok ==> final(w).jobs@ == old(w).jobs@.push(job.spec(path.id(), self.limit)) { unimplemented!() }
    /// Ok: every job handed over is done, and has processed every document of its input exactly once
    #[verifier::external_body]
    pub fn join(&self, w: &mut World) -> (r: Result<()>)
        requires may_join(old(w).ext@),
        ensures final(w).out == old(w).out, final(w).fs == old(w).fs, final(w).jobs == old(w).jobs,
            !old(w).joined@ && r is Err ==> !final(w).joined@,
            r is Ok ==> final(w).joined@ && ext_ran(old(w).jobs@, old(w).ext@, final(w).ext@) && final(w).cells@.dom() == old(w).cells@.dom()
                && forall|c: int| old(w).cells@.dom().contains(c) ==> #[trigger] final(w).cells@[c] == ran(old(w).jobs@, old(w).cells@[c], c) { unimplemented!() }
}
/// jobs with a context and a callback: the data closure, with the factory and the callback handed over with it
pub trait Task3<F, C> {
    spec fn ready3(&self, f: F, c: C, path: int, limit: Option<usize>, e: Ext) -> bool;
    /// an attempt that fails changes nothing, so another may follow
    spec fn repeatable(&self) -> bool;
    spec fn spec3(&self, f: F, c: C, path: int, limit: Option<usize>) -> JobSpec;
    /// what handing the job over changes (channel ends move to the job)
    spec fn handed(&self, f: F, c: C, a: Ext, b: Ext) -> bool;
}
impl DataExecutor {
    #[verifier::external_body]
    pub fn execute_with_callback<F, C, J: Task3<F, C>>(&self, path: &PathBuf, job: J, f: F, c: C, w: &mut World) -> (r: Result<()>)
        requires
            job.ready3(f, c, path.id(), self.limit, old(w).ext@),
            self.max_retries == 0 || job.repeatable(),  // [C20]
        ensures final(w).out == old(w).out, final(w).fs == old(w).fs, final(w).cells == old(w).cells, final(w).joined == old(w).joined,
            job.handed(f, c, old(w).ext@, final(w).ext@),
            r is Ok ==> final(w).jobs@ == old(w).jobs@.push(job.spec3(f, c, path.id(), self.limit)) { unimplemented!() }
}
/// the documents of an input, in order (up to the line limit)
pub uninterp spec fn documents(path: int, limit: Option<usize>) -> Seq<Data>;
#[verifier::external_body]
pub struct RandomState { x: u64 }
impl RandomState {
    #[verifier::external_body]
    pub fn new() -> (r: RandomState) { unimplemented!() }
}
/// what a `for` loop iterates over
pub trait VxInto: Sized {
    type It;
    spec fn begins(self, r: Self::It) -> bool;
    fn vx_into(self) -> (r: Self::It) ensures self.begins(r);
}
pub fn vx_into_iter<T: VxInto>(t: T) -> (r: T::It) ensures t.begins(r) { t.vx_into() }
impl<'a, T> VxInto for &'a Vec<T> {
    type It = VecIter<'a, T>;
    open spec fn begins(self, r: VecIter<'a, T>) -> bool { r.v == self && r.i == 0 }
    fn vx_into(self) -> (r: VecIter<'a, T>) { vx_vec_iter(self) }
}
pub trait VxRef { fn vx_ref(&self) -> (r: &Self) ensures r == self; }
impl<T> VxRef for T { fn vx_ref(&self) -> (r: &Self) { self } }
pub struct RangeIt { pub cur: usize, pub end: usize }
pub fn vx_range(r: core::ops::Range<usize>) -> (o: RangeIt) ensures o.cur == r.start, o.end == r.end { RangeIt { cur: r.start, end: r.end } }
impl RangeIt {
    pub fn next(&mut self) -> (r: Option<usize>)
        ensures final(self).end == old(self).end,
            old(self).cur < old(self).end ==> r == Some(old(self).cur) && final(self).cur == old(self).cur + 1,
            old(self).cur >= old(self).end ==> r is None && final(self).cur == old(self).cur,
    { if self.cur < self.end { let x = self.cur; self.cur = self.cur + 1; Some(x) } else { None } }
}
