// Filtering documents against a blocklist of text digests (C32).
//@claims C32: write_doc process_shard worker_initializer main_ theorem_one_kept theorem_all_dropped
//@include shim_py.rs
//@include py_count_lemmas.rs
/// one worker process.  `seen` is the array all workers share: position k is true once the first document with the
/// k-th listed text was claimed, `mine` and `theirs` tell by whom; between acquire and release it is this worker's
/// alone, and otherwise nothing is known about it.
pub struct Ext {
    pub outpath: int, pub keep_first: bool, pub attrs: bool,
    pub bl: int, pub seen: int, pub n: int,
    pub locked: bool, pub seen0: Seq<PV>, pub mine: Seq<bool>, pub theirs: Seq<bool>,
    /// a file is the sequence of the lines it was written from
    pub files: Map<int, Seq<int>>,
    /// the documents of the shard; a nested value is one opaque value (no operation here can reach into it)
    pub shard: int, pub docs: Seq<Doc>, pub pos: int,
    /// the main process: the list's file, the shards, the workers' pool with the list given to it, the tasks handed to
    /// it, and what they return
    pub blockfile: int, pub shards: int, pub pool: Option<Map<PV, PV>>, pub open: bool, pub tasks: Seq<int>, pub res: Seq<(int, Seq<Rec>)>,
}
pub type Doc = (Seq<PV>, Map<PV, PV>);
pub open spec fn G_DATA() -> int { 20 }
pub open spec fn G_LOCK() -> int { 21 }
pub open spec fn G_ARGS() -> int { 26 }
pub open spec fn G_POOL() -> int { 22 }
pub open spec fn G_WORK() -> int { 23 }
pub open spec fn G_INIT() -> int { 24 }
pub open spec fn G_BOOL() -> int { 25 }
pub open spec fn G_TASK() -> int { 27 }
pub open spec fn lazy_iter(w: PW, v: PV) -> bool { v == PV::Glob(G_DATA()) || is_file(w, v) }
pub open spec fn lazy_step(o: PW, n: PW, v: PV, r: Result<Option<V>, Exc>) -> bool {
    if is_file(o, v) {
        let (f, p) = (fnm(o, v), o.heap[v->Ref_0]->fpos);
        r is Ok ==> if p < o.ext.files[f].len() { r->Ok_0 is Some && r->Ok_0->Some_0@ == PV::Str(o.ext.files[f][p]) && n == put(o, v, Obj::File { fname: f, fpos: p + 1 }) }
            else { r->Ok_0 is None && n == o }
    } else { r is Ok ==> if o.ext.pos < o.ext.docs.len() {
        r->Ok_0 is Some && fresh(PW { ext: Ext { pos: o.ext.pos + 1, ..o.ext }, ..o }, n, r->Ok_0->Some_0@,
            Obj::Dict { ks: o.ext.docs[o.ext.pos].0, m: o.ext.docs[o.ext.pos].1, dflt: PV::None })
    } else { r->Ok_0 is None && n == o } }
}
// ------------------------------------------------------------------ options, files
#[verifier::external_body] pub fn a_outpath(a: &V, w: &mut World) -> (r: R) ensures a@ == PV::Glob(G_ARGS()) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Str(old(w)@.ext.outpath) { unimplemented!() }
#[verifier::external_body] pub fn a_keep_first_occurrence(a: &V, w: &mut World) -> (r: R) ensures a@ == PV::Glob(G_ARGS()) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Bool(old(w)@.ext.keep_first) { unimplemented!() }
#[verifier::external_body] pub fn a_just_write_attributes(a: &V, w: &mut World) -> (r: R) ensures a@ == PV::Glob(G_ARGS()) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Bool(old(w)@.ext.attrs) { unimplemented!() }
#[verifier::external_body] pub fn c_read_jsonl_smart_open_file_1(f: &V, w: &mut World) -> (r: R)
    ensures f@ == PV::Str(old(w)@.ext.shard) ==> r is Ok && final(w)@ == (PW { ext: Ext { pos: 0, ..old(w)@.ext }, ..old(w)@ }) && r->Ok_0@ == PV::Glob(G_DATA()) { unimplemented!() }
pub uninterp spec fn path_of(a: int, b: int) -> int;
pub uninterp spec fn base_of(a: int) -> int;
#[verifier::external_body] pub fn c_os_path_join_2(a: &V, b: &V, w: &mut World) -> (r: R) ensures a@ is Str && b@ is Str && r is Ok ==> final(w)@ == old(w)@ && r->Ok_0@ == PV::Str(path_of(a@->Str_0, b@->Str_0)) { unimplemented!() }
#[verifier::external_body] pub fn c_os_path_basename_1(a: &V, w: &mut World) -> (r: R) ensures a@ is Str && r is Ok ==> final(w)@ == old(w)@ && r->Ok_0@ == PV::Str(base_of(a@->Str_0)) { unimplemented!() }
pub open spec fn is_file(w: PW, v: PV) -> bool { v is Ref && w.heap.dom().contains(v->Ref_0) && w.heap[v->Ref_0] is File }
pub open spec fn fnm(w: PW, v: PV) -> int { w.heap[v->Ref_0]->fname }
pub open spec fn with_file(w: PW, f: int, s: Seq<int>) -> PW { PW { ext: Ext { files: w.ext.files.insert(f, s), ..w.ext }, ..w } }
#[verifier::external_body] pub fn c_smart_open_open_2(f: &V, m: &V, w: &mut World) -> (r: R)
    ensures f@ is Str && m@ == S"wt" && r is Ok ==> fresh(with_file(old(w)@, f@->Str_0, Seq::empty()), final(w)@, r->Ok_0@, Obj::File { fname: f@->Str_0, fpos: 0 }) { unimplemented!() }
/// `with`: a file is its own context, entering a lock is acquiring it
#[verifier::external_body] pub fn op_enter(f: &V, w: &mut World) -> (r: R)
    ensures is_file(old(w)@, f@) || f@ == PV::Glob(G_POOL()) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == f@,
        f@ == PV::Glob(G_LOCK()) && !old(w)@.ext.locked ==> r is Ok && acquired(old(w)@, final(w)@) { unimplemented!() }
#[verifier::external_body] pub fn op_exit(f: &V, w: &mut World) -> (r: R)
    ensures is_file(old(w)@, f@) && r is Ok ==> final(w)@ == old(w)@,
        f@ == PV::Glob(G_POOL()) && r is Ok ==> final(w)@ == closed(old(w)@),
        f@ == PV::Glob(G_LOCK()) && old(w)@.ext.locked ==> r is Ok && released(old(w)@, final(w)@) { unimplemented!() }
#[verifier::external_body] pub fn m_write_1(f: &V, x: &V, w: &mut World) -> (r: R)
    ensures is_file(old(w)@, f@) && x@ is Str && r is Ok ==> final(w)@ == with_file(old(w)@, fnm(old(w)@, f@), old(w)@.ext.files[fnm(old(w)@, f@)].push(x@->Str_0)) { unimplemented!() }
// ------------------------------------------------------------------ digests
pub uninterp spec fn utf8(t: int) -> int;
pub uninterp spec fn md5hex(b: int) -> int;
pub open spec fn bytes(t: int) -> PV { PV::Tup(seq![PV::Glob(30), PV::Str(t)]) }
#[verifier::external_body] pub fn m_encode_0(s: &V, w: &mut World) -> (r: R)
    ensures s@ is Str && r is Ok ==> final(w)@ == old(w)@ && r->Ok_0@ == bytes(utf8(s@->Str_0)) { unimplemented!() }
#[verifier::external_body] pub fn c_hashlib_md5_0(w: &mut World) -> (r: R) ensures r is Ok ==> fresh(old(w)@, final(w)@, r->Ok_0@, Obj::Hash(0)) { unimplemented!() }
#[verifier::external_body] pub fn c_hashlib_md5_1(b: &V, w: &mut World) -> (r: R)
    ensures forall|t: int| b@ == #[trigger] bytes(t) && r is Ok ==> fresh(old(w)@, final(w)@, r->Ok_0@, Obj::Hash(t)) { unimplemented!() }
pub open spec fn is_hash(w: PW, v: PV) -> bool { v is Ref && w.heap.dom().contains(v->Ref_0) && w.heap[v->Ref_0] is Hash }
#[verifier::external_body] pub fn m_update_1(h: &V, b: &V, w: &mut World) -> (r: R)
    ensures forall|t: int| is_hash(old(w)@, h@) && b@ == #[trigger] bytes(t) ==> r is Ok && final(w)@ == put(old(w)@, h@, Obj::Hash(cat(old(w)@.heap[h@->Ref_0]->Hash_0, t))) { unimplemented!() }
#[verifier::external_body] pub fn m_hexdigest_0(h: &V, w: &mut World) -> (r: R)
    ensures is_hash(old(w)@, h@) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Str(md5hex(old(w)@.heap[h@->Ref_0]->Hash_0)) { unimplemented!() }
// ------------------------------------------------------------------ what the workers share
#[verifier::external_body] pub fn gv_blocklist(w: &mut World) -> (r: V) ensures final(w)@ == old(w)@, r@ == PV::Ref(old(w)@.ext.bl) { unimplemented!() }
#[verifier::external_body] pub fn gv_seen_array(w: &mut World) -> (r: V) ensures final(w)@ == old(w)@, r@ == PV::Ref(old(w)@.ext.seen) { unimplemented!() }
#[verifier::external_body] pub fn gv_lock(w: &mut World) -> (r: V) ensures final(w)@ == old(w)@, r@ == PV::Glob(G_LOCK()) { unimplemented!() }
pub open spec fn either(a: Seq<bool>, b: Seq<bool>, k: int) -> bool { a[k] || b[k] }
pub open spec fn more(a: Seq<bool>, b: Seq<bool>) -> bool { a.len() == b.len() && forall|k: int| 0 <= k < a.len() && a[k] ==> #[trigger] b[k] }
/// the array is mine alone now: true where someone, I or another, has claimed the place; others may have claimed more
/// meanwhile, but nothing of mine
pub open spec fn acquired(o: PW, n: PW) -> bool {
    let s = n.heap[o.ext.seen]->List_0;
    &&& n == (PW { heap: o.heap.insert(o.ext.seen, Obj::List(s)), ext: Ext { locked: true, seen0: s, theirs: n.ext.theirs, ..o.ext }, ..o })
    &&& s.len() == o.ext.n && more(o.ext.theirs, n.ext.theirs)
    &&& forall|k: int| 0 <= k < o.ext.n ==> (#[trigger] s[k]) == PV::Bool(either(o.ext.mine, n.ext.theirs, k))
    &&& forall|k: int| 0 <= k < o.ext.n ==> !(#[trigger] o.ext.mine[k] && n.ext.theirs[k])
}
/// giving it back: what is true now and was not when I took it is claimed by me.  Nothing may have been reset: no
/// other worker could tell then who has claimed it.
pub open spec fn kept_up(s0: Seq<PV>, s: Seq<PV>) -> bool {
    s.len() == s0.len() && forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]) is Bool && (s0[k] == PV::Bool(true) ==> s[k] == PV::Bool(true))
}
pub open spec fn released(o: PW, n: PW) -> bool {
    o.heap[o.ext.seen] is List && kept_up(o.ext.seen0, o.heap[o.ext.seen]->List_0) ==> {
        let s = o.heap[o.ext.seen]->List_0;
        n == (PW { heap: o.heap.insert(o.ext.seen, Obj::Shared), ext: Ext { locked: false,
            mine: Seq::new(o.ext.mine.len(), |k: int| o.ext.mine[k] || (s[k] == PV::Bool(true) && o.ext.seen0[k] != PV::Bool(true))), ..o.ext }, ..o })
    }
}
#[verifier::external_body] pub fn m_acquire_0(l: &V, w: &mut World) -> (r: R) ensures l@ == PV::Glob(G_LOCK()) && !old(w)@.ext.locked ==> r is Ok && acquired(old(w)@, final(w)@) { unimplemented!() }
#[verifier::external_body] pub fn m_release_0(l: &V, w: &mut World) -> (r: R) ensures l@ == PV::Glob(G_LOCK()) && old(w)@.ext.locked ==> r is Ok && released(old(w)@, final(w)@) { unimplemented!() }

// ------------------------------------------------------------------ what has to happen to a document
pub enum Dec { Skip, Keep, Drop }
pub open spec fn key_of(d: Doc) -> PV { PV::Str(md5hex(utf8(d.1[S"text"]->Str_0))) }
pub open spec fn has_text(d: Doc) -> bool { d.1[S"text"] is Str }
pub open spec fn listed(bl: Map<PV, PV>, d: Doc) -> bool { has_text(d) && bl.dom().contains(key_of(d)) }
/// the place of the document's text in the shared array
pub open spec fn place(bl: Map<PV, PV>, d: Doc) -> int { bl[key_of(d)]->Int_0 }
/// dropped if listed, and if not only the first is to be kept; kept if not listed
pub open spec fn dec_ok(bl: Map<PV, PV>, first: bool, d: Doc, x: Dec) -> bool {
    if !has_text(d) { x is Skip } else if !listed(bl, d) { x is Keep } else if !first { x is Drop } else { x is Keep || x is Drop }
}
pub open spec fn line_of(d: Doc, x: Dec, attrs: bool) -> Seq<int> {
    if x is Skip || !attrs && x is Drop { Seq::empty() }
    else if attrs { seq![cat(json_text(Map::empty().insert(S"id", d.1[S"id"]).insert(S"source", d.1[S"source"]).insert(S"contaminated", PV::Bool(x is Drop))), S"\n"->Str_0)] }
    else { seq![cat(json_text(d.1), S"\n"->Str_0)] }
}
pub open spec fn lines(s: Seq<Doc>, x: Seq<Dec>, attrs: bool) -> Seq<int> decreases x.len() {
    if x.len() == 0 { Seq::empty() } else { lines(s, x.drop_last(), attrs) + line_of(s[x.len() - 1], x.last(), attrs) }
}
/// documents kept with the text at place k of the list, and documents dropped
pub open spec fn kept_at(bl: Map<PV, PV>, s: Seq<Doc>, x: Seq<Dec>, k: int) -> int decreases x.len() {
    if x.len() == 0 { 0 } else { kept_at(bl, s, x.drop_last(), k) + (if x.last() is Keep && listed(bl, s[x.len() - 1]) && place(bl, s[x.len() - 1]) == k { 1int } else { 0 }) }
}
pub open spec fn dropped(x: Seq<Dec>) -> int decreases x.len() {
    if x.len() == 0 { 0 } else { dropped(x.drop_last()) + (if x.last() is Drop { 1int } else { 0 }) }
}
pub open spec fn src_of(d: Doc) -> int { if d.1.dom().contains(S"source") { d.1[S"source"]->Str_0 } else { S"no_source"->Str_0 } }
pub open spec fn src_rec(d: Doc, x: Dec) -> Rec { if x is Drop { Some((src_of(d), 1)) } else { None } }
pub open spec fn src_recs(s: Seq<Doc>, x: Seq<Dec>) -> Seq<Rec> { Seq::new(x.len(), |i: int| src_rec(s[i], x[i])) }
/// a document with a text (or none), and maybe a source
pub open spec fn doc_ok(d: Doc) -> bool {
    d.1.dom().contains(S"text") && (d.1[S"text"] is Str || d.1[S"text"] is None) && (d.1.dom().contains(S"source") ==> d.1[S"source"] is Str) && shallow(d.1)
}
/// the list gives every digest a place of its own
pub open spec fn bl_ok(bl: Map<PV, PV>, n: int) -> bool {
    &&& forall|k: PV| #[trigger] bl.dom().contains(k) ==> k is Str && bl[k] is Int && 0 <= bl[k]->Int_0 < n
    &&& forall|j: PV, k: PV| #[trigger] bl.dom().contains(j) && #[trigger] bl.dom().contains(k) && bl[j] == bl[k] ==> j == k
}
pub open spec fn worker_ok(w: PW) -> bool {
    &&& w.heap.dom().contains(w.ext.bl) && w.heap[w.ext.bl] is Dict && w.heap[w.ext.bl]->dflt is None && bl_ok(w.heap[w.ext.bl]->m, w.ext.n)
    &&& w.heap.dom().contains(w.ext.seen) && w.heap[w.ext.seen] is Shared && !w.ext.locked
    &&& w.ext.mine.len() == w.ext.n && w.ext.theirs.len() == w.ext.n
    &&& forall|i: int| 0 <= i < w.ext.docs.len() ==> doc_ok(#[trigger] w.ext.docs[i])
}
/// what a run did: `a` and `b` are what was claimed by it before and after, `t` what was claimed by others after
pub open spec fn run_ok(bl: Map<PV, PV>, first: bool, s: Seq<Doc>, x: Seq<Dec>, a: Seq<bool>, b: Seq<bool>, t: Seq<bool>) -> bool {
    &&& x.len() <= s.len() && more(a, b) && t.len() == a.len()
    &&& forall|i: int| 0 <= i < x.len() ==> dec_ok(bl, first, s[i], #[trigger] x[i])
    // a listed text is kept once by the worker that claims it, and never without a claim
    &&& first ==> forall|k: int| 0 <= k < a.len() ==> #[trigger] kept_at(bl, s, x, k) == (if b[k] && !a[k] { 1int } else { 0 })
    // nothing is dropped before someone has claimed it
    &&& first ==> forall|i: int| 0 <= i < x.len() && (#[trigger] x[i]) is Drop ==> either(b, t, place(bl, s[i]))
}
pub proof fn lemma_kept_push(bl: Map<PV, PV>, s: Seq<Doc>, x: Seq<Dec>, d: Dec)
    ensures forall|k: int| #[trigger] kept_at(bl, s, x.push(d), k) == kept_at(bl, s, x, k) + (if d is Keep && listed(bl, s[x.len() as int]) && place(bl, s[x.len() as int]) == k { 1int } else { 0 }),
        dropped(x.push(d)) == dropped(x) + (if d is Drop { 1int } else { 0 }),
        src_recs(s, x.push(d)) =~= src_recs(s, x).push(src_rec(s[x.len() as int], d)),
        forall|at: bool| #[trigger] lines(s, x.push(d), at) == lines(s, x, at) + line_of(s[x.len() as int], d, at)
{ assert(x.push(d).drop_last() =~= x); }
pub open spec fn grown(a: Map<int, Obj>, b: Map<int, Obj>) -> bool { forall|i: int| #![trigger a.dom().contains(i)] #![trigger b.dom().contains(i)] #![trigger b[i]] a.dom().contains(i) ==> b.dom().contains(i) && b[i] == a[i] }

pub fn write_doc(doc: &V, fout: &V, contaminated: &V, just_write_attributes: &V, w: &mut World) -> (r: R)
    requires is_dict(old(w)@, doc@), shallow(dm(old(w)@, doc@)), dd(old(w)@, doc@) is None, is_file(old(w)@, fout@), contaminated@ is Bool, just_write_attributes@ is Bool
    ensures r is Ok ==> written(old(w)@, final(w)@, doc@, fout@, contaminated@->Bool_0, just_write_attributes@->Bool_0), // [C32]
{
/*@pybody
@file wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
@item process_shard.write_doc
@params doc fout contaminated just_write_attributes
@kwargs contaminated just_write_attributes
@locals
@start
    let ghost g_w = w@;
    let ghost g_l = line_of((dks(w@, doc@), dm(w@, doc@)), if contaminated@->Bool_0 { Dec::Drop } else { Dec::Keep }, just_write_attributes@->Bool_0);
@end
    proof {
        let s = g_w.ext.files[fnm(g_w, fout@)];
        if g_l.len() > 0 { assert(s + g_l =~= s.push(g_l[0])); } else { assert(s + g_l =~= s); }
    }
@*/
}
pub open spec fn written(o: PW, n: PW, doc: PV, f: PV, dropped: bool, attrs: bool) -> bool {
    let d = (dks(o, doc), dm(o, doc));
    let s = o.ext.files[fnm(o, f)] + line_of(d, if dropped { Dec::Drop } else { Dec::Keep }, attrs);
    &&& grown(o.heap, n.heap)
    &&& n.ext.files =~= (if dropped && !attrs { o.ext.files } else { o.ext.files.insert(fnm(o, f), s) })
    &&& n == (PW { heap: n.heap, ext: Ext { files: n.ext.files, ..o.ext }, ..o })
}
pub fn c_write_doc_2__contaminated_just_write_attributes(doc: &V, fout: &V, contaminated: &V, just_write_attributes: &V, w: &mut World) -> (r: R)
    requires is_dict(old(w)@, doc@), shallow(dm(old(w)@, doc@)), dd(old(w)@, doc@) is None, is_file(old(w)@, fout@), contaminated@ is Bool, just_write_attributes@ is Bool
    ensures r is Ok ==> written(old(w)@, final(w)@, doc@, fout@, contaminated@->Bool_0, just_write_attributes@->Bool_0)
{ write_doc(doc, fout, contaminated, just_write_attributes, w) }
/// the totals a run returns: the documents it dropped, and how many of each source
pub open spec fn totals(w: PW, r: PV, s: Seq<Doc>, x: Seq<Dec>) -> bool {
    &&& r is Tup && r->Tup_0.len() == 2 && r->Tup_0[0] == PV::Int(dropped(x))
    &&& is_dict(w, r->Tup_0[1]) && counted(dks(w, r->Tup_0[1]), dm(w, r->Tup_0[1]), src_recs(s, x))
}
pub open spec fn out_of(w: PW) -> int { path_of(w.ext.outpath, base_of(w.ext.shard)) }
/// a whole run
pub open spec fn ran(o: PW, n: PW, r: PV, x: Seq<Dec>) -> bool {
    let bl = o.heap[o.ext.bl]->m;
    &&& x.len() == o.ext.docs.len() && run_ok(bl, o.ext.keep_first, o.ext.docs, x, o.ext.mine, n.ext.mine, n.ext.theirs)
    &&& n.ext.files =~= o.ext.files.insert(out_of(o), lines(o.ext.docs, x, o.ext.attrs))
    &&& totals(n, r, o.ext.docs, x)
}
pub open spec fn some_run(o: PW, n: PW, r: PV) -> bool { exists|x: Seq<Dec>| #[trigger] ran(o, n, r, x) }
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(60)]
pub fn process_shard(shard: &V, args: &V, w: &mut World) -> (r: R)
    requires worker_ok(old(w)@), shard@ == PV::Str(old(w)@.ext.shard), args@ == PV::Glob(G_ARGS())
    ensures
        r is Ok ==> some_run(old(w)@, final(w)@, r->Ok_0@), // [C32]
        // the lock is given back
        r is Ok ==> !final(w)@.ext.locked, // [C32]
{
/*@pybody
@file wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
@item process_shard
@params shard args
@locals data duplicates_removed duplicates_per_source fout doc h hash
@start
    broadcast use group_text;
    let ghost g_w = w@;
    let ghost g_docs = w@.ext.docs;
    let ghost g_bl = w@.heap[w@.ext.bl]->m;
    let ghost g_first = w@.ext.keep_first;
    let ghost g_attrs = w@.ext.attrs;
    let ghost g_out = out_of(w@);
    let ghost mut g_x: Seq<Dec> = Seq::empty();
@pre 0
    let ghost g_p = duplicates_per_source@->Ref_0;
    let ghost g_f = fout@->Ref_0;
    proof {
        assert(src_recs(g_docs, g_x) =~= Seq::empty());
        assert(counted(dks(w@, duplicates_per_source@), dm(w@, duplicates_per_source@), src_recs(g_docs, g_x)));
    }
@loop 0
    invariant
        __it0@ == PV::Glob(G_DATA()), w@.ext == (Ext { pos: w@.ext.pos, mine: w@.ext.mine, theirs: w@.ext.theirs, files: w@.ext.files, seen0: w@.ext.seen0, ..g_w.ext }),
        0 <= w@.ext.pos <= g_docs.len(), g_x.len() == w@.ext.pos,
        shard@ == PV::Str(g_w.ext.shard), args@ == PV::Glob(G_ARGS()),
        w@.heap.dom().contains(g_w.ext.bl), w@.heap[g_w.ext.bl] == g_w.heap[g_w.ext.bl], w@.heap.dom().contains(g_w.ext.seen), w@.heap[g_w.ext.seen] is Shared,
        is_file(w@, fout@), fout@ == PV::Ref(g_f), fnm(w@, fout@) == g_out,
        is_dict(w@, duplicates_per_source@), duplicates_per_source@ == PV::Ref(g_p), dd(w@, duplicates_per_source@) == PV::Glob(G_INT()), g_p != g_w.ext.bl,
        counted(dks(w@, duplicates_per_source@), dm(w@, duplicates_per_source@), src_recs(g_docs, g_x)),
        duplicates_removed@ == PV::Int(dropped(g_x)),
        run_ok(g_bl, g_first, g_docs, g_x, g_w.ext.mine, w@.ext.mine, w@.ext.theirs),
        w@.ext.mine.len() == g_w.ext.n, w@.ext.theirs.len() == g_w.ext.n,
        w@.ext.files =~= g_w.ext.files.insert(g_out, lines(g_docs, g_x, g_attrs)),
    ensures w@.ext.pos == g_docs.len()
    decreases g_docs.len() - w@.ext.pos
@head 0
    let ghost g_a = w@;
@top 0
    broadcast use group_text;
    let ghost g_d = g_docs[g_a.ext.pos];
    proof { assert(doc_ok(g_d)); }
@bottom 0
    proof {
        let d = if !has_text(g_d) { Dec::Skip } else if duplicates_removed@->Int_0 != dropped(g_x) { Dec::Drop } else { Dec::Keep };
        lemma_kept_push(g_bl, g_docs, g_x, d);
        let r = src_rec(g_d, d);
        if r is Some { lemma_counted_step(g_a.heap[g_p], w@.heap[g_p], src_recs(g_docs, g_x), r); }
        else { lemma_counted_skip(g_a.heap[g_p], src_recs(g_docs, g_x)); }
        g_x = g_x.push(d);
    }
@end
    proof {
        let t = PV::Tup(seq![duplicates_removed@, duplicates_per_source@]);
        assert(t->Tup_0 == seq![duplicates_removed@, duplicates_per_source@]);
        assert(totals(w@, t, g_docs, g_x));
        assert(run_ok(g_bl, g_first, g_docs, g_x, g_w.ext.mine, w@.ext.mine, w@.ext.theirs));
        assert(w@.ext.files =~= g_w.ext.files.insert(g_out, lines(g_docs, g_x, g_attrs)));
        assert(ran(g_w, w@, t, g_x));
        assert(some_run(g_w, w@, t));
    }
@*/
}
#[verifier::loop_isolation(false)]
pub fn worker_initializer(l: &V, block: &V, seen: &V, w: &mut World) -> (r: R)
{
/*@pybody
@file wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
@item worker_initializer
@params l block seen
@global blocklist lock seen_array
@locals lock blocklist seen_array
@start
    let ghost (g_l, g_b, g_s) = (l@, block@, seen@);
@end
    assert(lock@ == g_l && blocklist@ == g_b && seen_array@ == g_s); // [C32]
@*/
}
// ------------------------------------------------------------------ the main process
#[verifier::external_body] pub fn a_blocklist(a: &V, w: &mut World) -> (r: R) ensures a@ == PV::Glob(G_ARGS()) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Str(old(w)@.ext.blockfile) { unimplemented!() }
#[verifier::external_body] pub fn a_shards(a: &V, w: &mut World) -> (r: R) ensures a@ == PV::Glob(G_ARGS()) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Ref(old(w)@.ext.shards) { unimplemented!() }
#[verifier::external_body] pub fn a_num_processes(a: &V, w: &mut World) -> (r: R) ensures a@ == PV::Glob(G_ARGS()) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ is Int { unimplemented!() }
#[verifier::external_body] pub fn gv_process_shard(w: &mut World) -> (r: V) ensures final(w)@ == old(w)@, r@ == PV::Glob(G_WORK()) { unimplemented!() }
#[verifier::external_body] pub fn gv_worker_initializer(w: &mut World) -> (r: V) ensures final(w)@ == old(w)@, r@ == PV::Glob(G_INIT()) { unimplemented!() }
#[verifier::external_body] pub fn gv_bool(w: &mut World) -> (r: V) ensures final(w)@ == old(w)@, r@ == PV::Glob(G_BOOL()) { unimplemented!() }
#[verifier::external_body] pub fn c_mp_Lock_0(w: &mut World) -> (r: R) ensures r is Ok ==> final(w)@ == old(w)@ && r->Ok_0@ == PV::Glob(G_LOCK()) { unimplemented!() }
#[verifier::external_body] pub fn c_dict_0(w: &mut World) -> (r: R) ensures r is Ok && fresh(old(w)@, final(w)@, r->Ok_0@, Obj::Dict { ks: Seq::empty(), m: Map::empty(), dflt: PV::None }) { unimplemented!() }
#[verifier::external_body] pub fn c_open_2(f: &V, m: &V, w: &mut World) -> (r: R)
    ensures f@ is Str && (m@ == S"rt" || m@ == S"r") && r is Ok ==> fresh(old(w)@, final(w)@, r->Ok_0@, Obj::File { fname: f@->Str_0, fpos: 0 }) { unimplemented!() }
#[verifier::external_body] pub fn c_tqdm_1__desc(x: &V, d: &V, w: &mut World) -> (r: R) ensures r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == x@ { unimplemented!() }
#[verifier::external_body] pub fn m_setdefault_2(d: &V, k: &V, v: &V, w: &mut World) -> (r: R)
    ensures is_dict(old(w)@, d@) && keyable(k@) ==> r is Ok && (if dm(old(w)@, d@).dom().contains(k@) { final(w)@ == old(w)@ && r->Ok_0@ == dm(old(w)@, d@)[k@] }
        else { final(w)@ == put(old(w)@, d@, dput(old(w)@.heap[d@->Ref_0], k@, v@)) && r->Ok_0@ == v@ }) { unimplemented!() }
/// a new file of n zeros, shared
#[verifier::external_body] pub fn c_np_memmap_1__dtype_mode_shape(f: &V, t: &V, m: &V, n: &V, w: &mut World) -> (r: R)
    ensures f@ is Str && t@ == PV::Glob(G_BOOL()) && m@ == S"w+" && n@ is Int && r is Ok ==> fresh(old(w)@, PW { ext: Ext { seen: old(w)@.ext.seen, n: old(w)@.ext.n, ..final(w)@.ext }, ..final(w)@ }, r->Ok_0@, Obj::Shared)
        && final(w)@.ext.seen == r->Ok_0@->Ref_0 && final(w)@.ext.n == n@->Int_0 { unimplemented!() }
pub open spec fn closed(w: PW) -> PW { PW { ext: Ext { open: false, ..w.ext }, ..w } }
/// workers, each with this lock, this list and this array for its own
#[verifier::external_body] pub fn c_mp_Pool_0__initargs_initializer_processes(a: &V, i: &V, n: &V, w: &mut World) -> (r: R)
    ensures i@ == PV::Glob(G_INIT()) && a@ is Tup && a@->Tup_0.len() == 3 && a@->Tup_0[0] == PV::Glob(G_LOCK()) && is_dict(old(w)@, a@->Tup_0[1]) && a@->Tup_0[2] == PV::Ref(old(w)@.ext.seen)
        && bl_ok(dm(old(w)@, a@->Tup_0[1]), old(w)@.ext.n) && r is Ok ==> r->Ok_0@ == PV::Glob(G_POOL())
        && final(w)@ == (PW { ext: Ext { pool: Some(dm(old(w)@, a@->Tup_0[1])), open: true, tasks: Seq::empty(), ..old(w)@.ext }, ..old(w)@ }) { unimplemented!() }
/// one more task: process_shard on this shard
#[verifier::external_body] pub fn m_apply_async_1__args(p: &V, f: &V, a: &V, w: &mut World) -> (r: R)
    ensures p@ == PV::Glob(G_POOL()) && old(w)@.ext.open && f@ == PV::Glob(G_WORK()) && a@ is Tup && a@->Tup_0.len() == 2 && a@->Tup_0[0] is Str && a@->Tup_0[1] == PV::Glob(G_ARGS()) && r is Ok ==>
        final(w)@ == (PW { ext: Ext { tasks: old(w)@.ext.tasks.push(a@->Tup_0[0]->Str_0), ..old(w)@.ext }, ..old(w)@ }) && r->Ok_0@ == PV::Tup(seq![PV::Glob(G_TASK()), PV::Int(old(w)@.ext.tasks.len() as int)]) { unimplemented!() }
/// what the task returned: its totals, in a dict of this process
#[verifier::external_body] pub fn m_get_0(t: &V, w: &mut World) -> (r: R)
    ensures t@ is Tup && t@->Tup_0.len() == 2 && t@->Tup_0[0] == PV::Glob(G_TASK()) && old(w)@.ext.open && t@->Tup_0[1] is Int && 0 <= t@->Tup_0[1]->Int_0 < old(w)@.ext.tasks.len() && r is Ok ==> {
        let d = r->Ok_0@->Tup_0[1]->Ref_0;
        let x = old(w)@.ext.res[t@->Tup_0[1]->Int_0];
        &&& r->Ok_0@ == PV::Tup(seq![PV::Int(x.0), PV::Ref(d)])
        &&& !old(w)@.heap.dom().contains(d) && final(w)@ == (PW { heap: old(w)@.heap.insert(d, final(w)@.heap[d]), ..old(w)@ })
        &&& final(w)@.heap[d] is Dict && counted(final(w)@.heap[d]->ks, final(w)@.heap[d]->m, x.1)
    } { unimplemented!() }
#[verifier::external_body] pub fn m_close_0(p: &V, w: &mut World) -> (r: R) ensures p@ == PV::Glob(G_POOL()) && r is Ok ==> final(w)@ == old(w)@ { unimplemented!() }
#[verifier::external_body] pub fn m_join_0(p: &V, w: &mut World) -> (r: R) ensures p@ == PV::Glob(G_POOL()) && r is Ok ==> final(w)@ == old(w)@ { unimplemented!() }
#[verifier::external_body] pub fn c_zip_2(a: &V, b: &V, w: &mut World) -> (r: R)
    ensures is_list(old(w)@, a@) && is_list(old(w)@, b@) ==> r is Ok && fresh(old(w)@, final(w)@, r->Ok_0@, Obj::List(zipped(lst(old(w)@, a@), lst(old(w)@, b@)))) { unimplemented!() }
pub open spec fn zipped(a: Seq<PV>, b: Seq<PV>) -> Seq<PV> { Seq::new(if a.len() < b.len() { a.len() } else { b.len() }, |i: int| PV::Tup(seq![a[i], b[i]])) }

/// the list: every line of the file, without blanks around it, and nothing else
pub open spec fn list_of(bl: Map<PV, PV>, lines: Seq<int>) -> bool {
    &&& forall|i: int| 0 <= i < lines.len() ==> bl.dom().contains(PV::Str(stripped(#[trigger] lines[i])))
    &&& forall|k: PV| #[trigger] bl.dom().contains(k) ==> exists|i: int| 0 <= i < lines.len() && k == PV::Str(stripped(#[trigger] lines[i]))
}
pub open spec fn item_recs(ks: Seq<PV>, m: Map<PV, PV>, n: int) -> Seq<Rec> { Seq::new(n as nat, |i: int| Some((ks[i]->Str_0, m[ks[i]]->Int_0))) }
/// the totals of all runs
pub open spec fn sum_removed(res: Seq<(int, Seq<Rec>)>) -> int decreases res.len() { if res.len() == 0 { 0 } else { sum_removed(res.drop_last()) + res.last().0 } }
pub open spec fn sum_source(res: Seq<(int, Seq<Rec>)>, k: int) -> int decreases res.len() { if res.len() == 0 { 0 } else { sum_source(res.drop_last(), k) + total(res.last().1, k) } }
pub open spec fn any_source(res: Seq<(int, Seq<Rec>)>, k: int) -> bool { exists|i: int| 0 <= i < res.len() && has_key((#[trigger] res[i]).1, k) }
/// `s` has the keys and totals of all runs
pub open spec fn merged(s: Seq<Rec>, res: Seq<(int, Seq<Rec>)>) -> bool { forall|k: int| #![trigger total(s, k)] #![trigger has_key(s, k)] total(s, k) == sum_source(res, k) && has_key(s, k) == any_source(res, k) }
pub open spec fn shard_row(c: int, f: int) -> Seq<PV> { seq![PV::Str(cat(int_text(c), cat(S" documents matched in "->Str_0, f)))] }
pub open spec fn source_row(c: PV, k: PV) -> Seq<PV> { seq![PV::Str(cat(int_text(c->Int_0), cat(S" documents were matched from "->Str_0, k->Str_0)))] }
pub open spec fn total_row(c: int) -> Seq<PV> { seq![PV::Str(cat(S"A total of "->Str_0, cat(int_text(c), S" documents were matched"->Str_0)))] }
pub open spec fn shard_rows(res: Seq<(int, Seq<Rec>)>, f: Seq<int>, n: int) -> Seq<Seq<PV>> { Seq::new(n as nat, |i: int| shard_row(res[i].0, f[i])) }
pub open spec fn source_rows(ks: Seq<PV>, m: Map<PV, PV>, n: int) -> Seq<Seq<PV>> { Seq::new(n as nat, |i: int| source_row(m[ks[i]], ks[i])) }
/// what is printed: a line per shard, a line per source that had documents dropped, and the total
pub open spec fn report(out: Seq<Seq<PV>>, f: Seq<int>, res: Seq<(int, Seq<Rec>)>) -> bool {
    exists|ks: Seq<PV>, m: Map<PV, PV>, s: Seq<Rec>| #[trigger] counted(ks, m, s) && merged(s, res)
        && out =~= shard_rows(res, f, f.len() as int) + source_rows(ks, m, ks.len() as int) + seq![total_row(sum_removed(res))]
}
/// a run's totals, taken item by item, are its totals
pub proof fn lemma_items(ks: Seq<PV>, m: Map<PV, PV>, s: Seq<Rec>, n: int, k: int)
    requires counted(ks, m, s), 0 <= n <= ks.len()
    ensures
        total(item_recs(ks, m, n), k) == (if ks.take(n).contains(PV::Str(k)) { total(s, k) } else { 0 }),
        has_key(item_recs(ks, m, n), k) == ks.take(n).contains(PV::Str(k)),
    decreases n
{
    if n > 0 {
        lemma_items(ks, m, s, n - 1, k);
        let x = item_recs(ks, m, n - 1);
        let r: Rec = Some((ks[n - 1]->Str_0, m[ks[n - 1]]->Int_0));
        assert(item_recs(ks, m, n) =~= x.push(r));
        lemma_total_push(x, r);
        assert(total(x.push(r), k) == total(x, k) + (if is_key(r, k) { r->Some_0.1 } else { 0 }));
        assert(has_key(x.push(r), k) == (has_key(x, k) || is_key(r, k)));
        assert(ks[n - 1] is Str);
        assert(ks.take(n) =~= ks.take(n - 1).push(ks[n - 1]));
        lemma_push_has(ks.take(n - 1), ks[n - 1], PV::Str(k));
        if is_key(r, k) && ks.take(n - 1).contains(PV::Str(k)) {
            let j = choose|j: int| 0 <= j < n - 1 && #[trigger] ks.take(n - 1)[j] == PV::Str(k);
            assert(ks[j] == ks[n - 1]);
        }
    } else {
        assert(!ks.take(0).contains(PV::Str(k)));
    }
}
pub proof fn lemma_total_cat(a: Seq<Rec>, b: Seq<Rec>, k: int)
    ensures total(a + b, k) == total(a, k) + total(b, k), has_key(a + b, k) == (has_key(a, k) || has_key(b, k))
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(!has_key(b, k)); }
    else {
        lemma_total_cat(a, b.drop_last(), k);
        assert(a + b =~= (a + b.drop_last()).push(b.last()));
        assert(b =~= b.drop_last().push(b.last()));
        lemma_total_push(a + b.drop_last(), b.last());
        lemma_total_push(b.drop_last(), b.last());
        assert(total((a + b.drop_last()).push(b.last()), k) == total(a + b.drop_last(), k) + (if is_key(b.last(), k) { b.last()->Some_0.1 } else { 0 }));
        assert(has_key((a + b.drop_last()).push(b.last()), k) == (has_key(a + b.drop_last(), k) || is_key(b.last(), k)));
        assert(has_key(b.drop_last().push(b.last()), k) == (has_key(b.drop_last(), k) || is_key(b.last(), k)));
    }
}
pub proof fn lemma_merge(s: Seq<Rec>, res: Seq<(int, Seq<Rec>)>, ks: Seq<PV>, m: Map<PV, PV>, n: int)
    requires 0 <= n < res.len(), merged(s, res.take(n)), counted(ks, m, res[n].1)
    ensures merged(s + item_recs(ks, m, ks.len() as int), res.take(n + 1)), sum_removed(res.take(n + 1)) == sum_removed(res.take(n)) + res[n].0
{
    let t = res.take(n + 1);
    assert(t.drop_last() =~= res.take(n));
    let b = item_recs(ks, m, ks.len() as int);
    assert forall|k: int| #![trigger total(s + b, k)] #![trigger has_key(s + b, k)] total(s + b, k) == sum_source(t, k) && has_key(s + b, k) == any_source(t, k) by {
        lemma_total_cat(s, b, k);
        lemma_items(ks, m, res[n].1, ks.len() as int, k);
        assert(ks.take(ks.len() as int) =~= ks);
        assert(total(s, k) == sum_source(res.take(n), k));
        if !ks.contains(PV::Str(k)) {
            if has_key(res[n].1, k) { assert(m.dom().contains(PV::Str(k))); }
            lemma_no_key(res[n].1, k);
        } else { let j = choose|j: int| 0 <= j < ks.len() && #[trigger] ks[j] == PV::Str(k); assert(has_key(res[n].1, ks[j]->Str_0)); }
        assert(has_key(res[n].1, k) == ks.contains(PV::Str(k)));
        assert(has_key(s, k) == any_source(res.take(n), k));
        if any_source(res.take(n), k) { let i = choose|i: int| 0 <= i < n && has_key((#[trigger] res.take(n)[i]).1, k); assert(has_key(t[i].1, k)); }
        if has_key(res[n].1, k) { assert(has_key(t[n].1, k)); }
        if any_source(t, k) && !has_key(res[n].1, k) { let i = choose|i: int| 0 <= i < t.len() && has_key((#[trigger] t[i]).1, k); assert(has_key(res.take(n)[i].1, k)); }
    }
}
/// unchanged but for two objects
pub open spec fn but2(a: Map<int, Obj>, b: Map<int, Obj>, x: int, y: int) -> bool {
    forall|i: int| #![trigger a.dom().contains(i)] #![trigger b.dom().contains(i)] #![trigger b[i]] a.dom().contains(i) && i != x && i != y ==> b.dom().contains(i) && b[i] == a[i]
}
pub open spec fn handles(n: int) -> Seq<PV> { Seq::new(n as nat, |i: int| PV::Tup(seq![PV::Glob(G_TASK()), PV::Int(i)])) }
pub open spec fn result_at(h: Map<int, Obj>, v: PV, x: (int, Seq<Rec>)) -> bool {
    &&& v == PV::Tup(seq![PV::Int(x.0), PV::Ref(v->Tup_0[1]->Ref_0)]) && h.dom().contains(v->Tup_0[1]->Ref_0)
    &&& h[v->Tup_0[1]->Ref_0] is Dict && counted(h[v->Tup_0[1]->Ref_0]->ks, h[v->Tup_0[1]->Ref_0]->m, x.1)
}
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(80)]
pub fn main_(args: &V, w: &mut World) -> (r: R)
    requires
        args@ == PV::Glob(G_ARGS()), is_list(old(w)@, PV::Ref(old(w)@.ext.shards)), lst(old(w)@, PV::Ref(old(w)@.ext.shards)) == strs(names(old(w)@)),
        old(w)@.ext.res.len() == names(old(w)@).len(), old(w)@.ext.files.dom().contains(old(w)@.ext.blockfile),
    ensures
        // the workers got the whole list and nothing else, every text with a place of its own in the array
        r is Ok ==> final(w)@.ext.pool is Some && list_of(final(w)@.ext.pool->0, old(w)@.ext.files[old(w)@.ext.blockfile]) && bl_ok(final(w)@.ext.pool->0, final(w)@.ext.n), // [C32]
        // every shard is processed, once
        r is Ok ==> final(w)@.ext.tasks =~= names(old(w)@), // [C32]
        r is Ok ==> old(w)@.out.len() <= final(w)@.out.len() && final(w)@.out.take(old(w)@.out.len() as int) =~= old(w)@.out
            && report(final(w)@.out.skip(old(w)@.out.len() as int), names(old(w)@), old(w)@.ext.res), // [C32]
{
/*@pybody
@file wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
@item main
@params args
@locals blocklist lock fin hash seen_array pool results removed_counts total_removed_by_source total_removed shard removed_count removed_by_source source count
@start
    broadcast use group_text;
    let ghost g_w = w@;
    let ghost g_ls = w@.ext.files[w@.ext.blockfile];
    let ghost g_ns = names(w@);
    let ghost g_sh = w@.ext.shards;
    let ghost g_res = w@.ext.res;
@pre 0
    let ghost g_b = blocklist@->Ref_0;
    let ghost g_f = __it0@->Ref_0;
    let ghost g_w0 = w@;
@loop 0
    invariant
        __it0@ == PV::Ref(g_f), blocklist@ == PV::Ref(g_b), g_f != g_b, g_f != g_sh, g_b != g_sh, args@ == PV::Glob(G_ARGS()), lock@ == PV::Glob(G_LOCK()),
        is_file(w@, PV::Ref(g_f)), fnm(w@, PV::Ref(g_f)) == g_w.ext.blockfile, 0 <= w@.heap[g_f]->fpos <= g_ls.len(),
        is_dict(w@, PV::Ref(g_b)), bl_ok(dm(w@, PV::Ref(g_b)), dks(w@, PV::Ref(g_b)).len() as int), list_of(dm(w@, PV::Ref(g_b)), g_ls.take(w@.heap[g_f]->fpos)),
        w@.heap.dom().contains(g_sh), w@.heap[g_sh] == g_w.heap[g_sh], w@ == (PW { heap: w@.heap, ..g_w }),
    ensures w@.heap[g_f]->fpos == g_ls.len()
    decreases g_ls.len() - w@.heap[g_f]->fpos
@head 0
    let ghost g_a = w@;
    let ghost g_p = w@.heap[g_f]->fpos;
@bottom 0
    proof {
        let (m0, m1) = (dm(g_a, PV::Ref(g_b)), dm(w@, PV::Ref(g_b)));
        let k = PV::Str(stripped(g_ls[g_p]));
        assert forall|i: int| 0 <= i < g_p + 1 implies m1.dom().contains(PV::Str(stripped(#[trigger] g_ls.take(g_p + 1)[i]))) by {
            if i < g_p { assert(m0.dom().contains(PV::Str(stripped(g_ls.take(g_p)[i])))); }
        }
        assert forall|q: PV| #[trigger] m1.dom().contains(q) implies exists|i: int| 0 <= i < g_p + 1 && q == PV::Str(stripped(#[trigger] g_ls.take(g_p + 1)[i])) by {
            if q == k { assert(q == PV::Str(stripped(g_ls.take(g_p + 1)[g_p]))); }
            else { assert(m0.dom().contains(q)); let i = choose|i: int| 0 <= i < g_p && q == PV::Str(stripped(#[trigger] g_ls.take(g_p)[i])); assert(q == PV::Str(stripped(g_ls.take(g_p + 1)[i]))); }
        }
    }
@post 0
    proof { assert(g_ls.take(g_ls.len() as int) =~= g_ls); }
@pre 1
    let ghost g_i1 = __it1@->Ref_0;
    let ghost g_a1 = __acc1@->Ref_0;
    let ghost g_w1 = w@;
    proof { assert(g_ns.take(0) =~= Seq::empty()); assert(handles(0) =~= Seq::empty()); }
@loop 1
    invariant
        __it1@ == PV::Ref(g_i1), __acc1@ == PV::Ref(g_a1), g_i1 != g_a1, g_a1 != g_sh, g_i1 != g_sh, is_iter(w@, PV::Ref(g_i1)), w@.heap[g_i1]->src == g_sh, 0 <= w@.heap[g_i1]->pos <= g_ns.len(),
        w@.heap.dom().contains(g_sh), w@.heap[g_sh] == g_w.heap[g_sh], args@ == PV::Glob(G_ARGS()), pool@ == PV::Glob(G_POOL()),
        is_list(w@, PV::Ref(g_a1)), lst(w@, PV::Ref(g_a1)) =~= handles(w@.heap[g_i1]->pos), w@.ext.tasks =~= g_ns.take(w@.heap[g_i1]->pos),
        w@ == (PW { heap: w@.heap, ext: Ext { tasks: w@.ext.tasks, ..g_w1.ext }, ..g_w1 }),
    ensures w@.heap[g_i1]->pos == g_ns.len()
    decreases g_ns.len() - w@.heap[g_i1]->pos
@post 1
    proof { assert(g_ns.take(g_ns.len() as int) =~= g_ns); }
@pre 2
    let ghost g_i2 = __it2@->Ref_0;
    let ghost g_a2 = __acc2@->Ref_0;
    let ghost g_w2 = w@;
    let ghost g_n = g_ns.len() as int;
@loop 2
    invariant
        __it2@ == PV::Ref(g_i2), __acc2@ == PV::Ref(g_a2), g_i2 != g_a2, g_a2 != g_sh, g_i2 != g_sh, g_a1 != g_a2, g_a1 != g_i2, is_iter(w@, PV::Ref(g_i2)), w@.heap[g_i2]->src == g_a1, 0 <= w@.heap[g_i2]->pos <= g_n,
        w@.heap.dom().contains(g_sh), w@.heap[g_sh] == g_w.heap[g_sh], is_list(w@, PV::Ref(g_a1)), lst(w@, PV::Ref(g_a1)) =~= handles(g_n), pool@ == PV::Glob(G_POOL()), args@ == PV::Glob(G_ARGS()),
        is_list(w@, PV::Ref(g_a2)), lst(w@, PV::Ref(g_a2)).len() == w@.heap[g_i2]->pos,
        forall|j: int| 0 <= j < w@.heap[g_i2]->pos ==> result_at(w@.heap, #[trigger] lst(w@, PV::Ref(g_a2))[j], g_res[j]),
        w@ == (PW { heap: w@.heap, ..g_w2 }),
    ensures w@.heap[g_i2]->pos == g_n
    decreases g_n - w@.heap[g_i2]->pos
@head 2
    let ghost g_c = w@;
    let ghost g_l = lst(w@, PV::Ref(g_a2));
    let ghost g_p = w@.heap[g_i2]->pos;
@bottom 2
    proof {
        let l = lst(w@, PV::Ref(g_a2));
        assert(l =~= g_l.push(l.last()));
        assert forall|j: int| 0 <= j < g_p + 1 implies result_at(w@.heap, #[trigger] l[j], g_res[j]) by { if j < g_p { assert(l[j] == g_l[j]); assert(result_at(g_c.heap, g_l[j], g_res[j])); } }
    }
@pre 3
    let ghost g_i3 = __it3@->Ref_0;
    let ghost g_z = w@.heap[g_i3]->src;
    let ghost g_t = total_removed_by_source@->Ref_0;
    let ghost g_w3 = w@;
    let ghost g_rs = lst(w@, PV::Ref(g_a2));
    let ghost mut g_s: Seq<Rec> = Seq::empty();
    proof {
        assert(g_res.take(0) =~= Seq::empty());
        assert(merged(g_s, g_res.take(0)));
        assert(shard_rows(g_res, g_ns, 0) =~= Seq::empty());
        assert(forall|j: int| 0 <= j < g_n ==> result_at(g_w3.heap, #[trigger] g_rs[j], g_res[j]));
    }
@loop 3
    invariant
        __it3@ == PV::Ref(g_i3), total_removed_by_source@ == PV::Ref(g_t), g_i3 != g_t, g_z != g_i3, g_z != g_t, is_iter(w@, PV::Ref(g_i3)), w@.heap[g_i3]->src == g_z, 0 <= w@.heap[g_i3]->pos <= g_n,
        but2(g_w3.heap, w@.heap, g_i3, g_t),
        is_dict(w@, PV::Ref(g_t)), dd(w@, PV::Ref(g_t)) == PV::Glob(G_INT()), counted(dks(w@, PV::Ref(g_t)), dm(w@, PV::Ref(g_t)), g_s), merged(g_s, g_res.take(w@.heap[g_i3]->pos)),
        total_removed@ == PV::Int(sum_removed(g_res.take(w@.heap[g_i3]->pos))),
        w@.out =~= g_w3.out + shard_rows(g_res, g_ns, w@.heap[g_i3]->pos),
        w@ == (PW { heap: w@.heap, out: w@.out, ..g_w3 }),
    ensures w@.heap[g_i3]->pos == g_n
    decreases g_n - w@.heap[g_i3]->pos
@head 3
    let ghost g_e = w@;
    let ghost g_p = w@.heap[g_i3]->pos;
@top 3
    let ghost g_r = g_res[g_p];
    let ghost g_d = g_rs[g_p]->Tup_0[1]->Ref_0;
    proof { assert(g_w3.heap[g_z]->List_0 =~= zipped(strs(g_ns), g_rs)); assert(result_at(g_w3.heap, g_rs[g_p], g_r)); assert(g_d != g_t && g_d != g_i3); }
@pre 4
    let ghost g_i4 = __it4@->Ref_0;
    let ghost g_x = w@.heap[g_i4]->src;
    let ghost g_ks = g_w3.heap[g_d]->ks;
    let ghost g_m = g_w3.heap[g_d]->m;
    let ghost g_s0 = g_s;
    let ghost g_w4 = w@;
    proof { assert(item_recs(g_ks, g_m, 0) =~= Seq::empty()); assert(g_s0 + item_recs(g_ks, g_m, 0) =~= g_s0); }
@loop 4
    invariant
        __it4@ == PV::Ref(g_i4), is_iter(w@, PV::Ref(g_i4)), w@.heap[g_i4]->src == g_x, w@.heap[g_i4]->len == g_ks.len(), 0 <= w@.heap[g_i4]->pos <= g_ks.len(),
        g_x != g_i4, g_x != g_t, g_i4 != g_t, g_i3 != g_i4, g_i3 != g_x, w@.heap.dom().contains(g_x), w@.heap[g_x] == Obj::Items(g_d), g_d != g_i4,
        !g_w3.heap.dom().contains(g_i4), !g_w3.heap.dom().contains(g_x), is_iter(w@, PV::Ref(g_i3)), w@.heap[g_i3] == g_w4.heap[g_i3],
        but2(g_w3.heap, w@.heap, g_i3, g_t),
        is_dict(w@, PV::Ref(g_t)), dd(w@, PV::Ref(g_t)) == PV::Glob(G_INT()), g_s == g_s0 + item_recs(g_ks, g_m, w@.heap[g_i4]->pos), counted(dks(w@, PV::Ref(g_t)), dm(w@, PV::Ref(g_t)), g_s),
        w@ == (PW { heap: w@.heap, ..g_w4 }),
    ensures w@.heap[g_i4]->pos == g_ks.len()
    decreases g_ks.len() - w@.heap[g_i4]->pos
@head 4
    let ghost g_y = w@;
    let ghost g_q = w@.heap[g_i4]->pos;
@bottom 4
    proof {
        let r: Rec = Some((g_ks[g_q]->Str_0, g_m[g_ks[g_q]]->Int_0));
        assert(g_ks[g_q] is Str && g_m[g_ks[g_q]] is Int);
        lemma_counted_step(g_y.heap[g_t], w@.heap[g_t], g_s, r);
        assert(g_s.push(r) =~= g_s0 + item_recs(g_ks, g_m, g_q + 1));
        g_s = g_s0 + item_recs(g_ks, g_m, g_q + 1);
    }
@bottom 3
    proof {
        lemma_merge(g_s0, g_res, g_ks, g_m, g_p);
        assert(shard_rows(g_res, g_ns, g_p + 1) =~= shard_rows(g_res, g_ns, g_p).push(shard_row(g_r.0, g_ns[g_p])));
    }
@pre 5
    let ghost g_i5 = __it5@->Ref_0;
    let ghost g_x5 = w@.heap[g_i5]->src;
    let ghost g_ks5 = dks(w@, PV::Ref(g_t));
    let ghost g_m5 = dm(w@, PV::Ref(g_t));
    let ghost g_w5 = w@;
    proof { assert(g_res.take(g_n) =~= g_res); assert(source_rows(g_ks5, g_m5, 0) =~= Seq::empty()); }
@loop 5
    invariant
        __it5@ == PV::Ref(g_i5), is_iter(w@, PV::Ref(g_i5)), w@.heap[g_i5]->src == g_x5, w@.heap[g_i5]->len == g_ks5.len(), 0 <= w@.heap[g_i5]->pos <= g_ks5.len(), g_x5 != g_i5, g_t != g_i5, g_t != g_x5,
        w@.heap.dom().contains(g_x5), w@.heap[g_x5] == Obj::Items(g_t), is_dict(w@, PV::Ref(g_t)), w@.heap[g_t] == g_w5.heap[g_t], total_removed@ == PV::Int(sum_removed(g_res)),
        w@.out =~= g_w5.out + source_rows(g_ks5, g_m5, w@.heap[g_i5]->pos), w@.ext == g_w5.ext,
    ensures w@.heap[g_i5]->pos == g_ks5.len()
    decreases g_ks5.len() - w@.heap[g_i5]->pos
@head 5
    let ghost g_q = w@.heap[g_i5]->pos;
@bottom 5
    proof { assert(source_rows(g_ks5, g_m5, g_q + 1) =~= source_rows(g_ks5, g_m5, g_q).push(source_row(g_m5[g_ks5[g_q]], g_ks5[g_q]))); assert(g_ks5[g_q] is Str && g_m5[g_ks5[g_q]] is Int); }
@end
    proof {
        let o = w@.out.skip(g_w.out.len() as int);
        assert(o =~= shard_rows(g_res, g_ns, g_ns.len() as int) + source_rows(g_ks5, g_m5, g_ks5.len() as int) + seq![total_row(sum_removed(g_res))]);
        assert(counted(g_ks5, g_m5, g_s) && merged(g_s, g_res));
        assert(report(o, g_ns, g_res));
    }
@*/
}
pub open spec fn names(w: PW) -> Seq<int> { Seq::new(w.heap[w.ext.shards]->List_0.len(), |i: int| w.heap[w.ext.shards]->List_0[i]->Str_0) }
// ------------------------------------------------------------------ all workers together
/// what one call of process_shard did, as run_ok tells it
pub struct Run { pub docs: Seq<Doc>, pub x: Seq<Dec>, pub a: Seq<bool>, pub b: Seq<bool>, pub t: Seq<bool> }
pub open spec fn claims(r: Run, k: int) -> bool { r.b[k] && !r.a[k] }
pub open spec fn some_claims(rs: Seq<Run>, k: int) -> bool { exists|j: int| 0 <= j < rs.len() && claims(#[trigger] rs[j], k) }
/// all calls over all shards: each is as process_shard's contract says, no text is claimed twice (the lock and the
/// array: `acquired` and `released`), and what a worker finds claimed before, or by others, was claimed by one of the calls
pub open spec fn fleet(bl: Map<PV, PV>, n: int, rs: Seq<Run>) -> bool {
    &&& forall|i: int| 0 <= i < rs.len() ==> run_ok(bl, true, (#[trigger] rs[i]).docs, rs[i].x, rs[i].a, rs[i].b, rs[i].t) && rs[i].x.len() == rs[i].docs.len() && rs[i].a.len() == n
    &&& forall|i: int, j: int, k: int| 0 <= i < rs.len() && 0 <= j < rs.len() && i != j && 0 <= k < n && #[trigger] claims(rs[i], k) ==> !#[trigger] claims(rs[j], k)
    &&& forall|i: int, k: int| 0 <= i < rs.len() && 0 <= k < n && #[trigger] either(rs[i].a, rs[i].t, k) ==> some_claims(rs, k)
}
pub open spec fn kept_in_all(bl: Map<PV, PV>, rs: Seq<Run>, k: int) -> int decreases rs.len() {
    if rs.len() == 0 { 0 } else { kept_in_all(bl, rs.drop_last(), k) + kept_at(bl, rs.last().docs, rs.last().x, k) }
}
pub proof fn lemma_kept_has(bl: Map<PV, PV>, s: Seq<Doc>, x: Seq<Dec>, i: int)
    requires 0 <= i < x.len() <= s.len(), x[i] is Keep, listed(bl, s[i])
    ensures kept_at(bl, s, x, place(bl, s[i])) >= 1
    decreases x.len()
{
    let k = place(bl, s[i]);
    lemma_kept_nat(bl, s, x.drop_last(), k);
    if i < x.len() - 1 { assert(x.drop_last()[i] == x[i]); lemma_kept_has(bl, s, x.drop_last(), i); }
}
pub proof fn lemma_kept_nat(bl: Map<PV, PV>, s: Seq<Doc>, x: Seq<Dec>, k: int)
    ensures kept_at(bl, s, x, k) >= 0
    decreases x.len()
{
    if x.len() > 0 { lemma_kept_nat(bl, s, x.drop_last(), k); }
}
/// at most one call claims a text, so no more than one keeps it
pub proof fn lemma_kept_all(bl: Map<PV, PV>, n: int, rs: Seq<Run>, k: int)
    requires
        forall|i: int| 0 <= i < rs.len() ==> run_ok(bl, true, (#[trigger] rs[i]).docs, rs[i].x, rs[i].a, rs[i].b, rs[i].t) && rs[i].a.len() == n,
        forall|i: int, j: int, q: int| 0 <= i < rs.len() && 0 <= j < rs.len() && i != j && 0 <= q < n && #[trigger] claims(rs[i], q) ==> !#[trigger] claims(rs[j], q),
        0 <= k < n,
    ensures kept_in_all(bl, rs, k) == (if some_claims(rs, k) { 1int } else { 0 })
    decreases rs.len()
{
    if rs.len() > 0 {
        let p = rs.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies run_ok(bl, true, (#[trigger] p[i]).docs, p[i].x, p[i].a, p[i].b, p[i].t) && p[i].a.len() == n by { assert(p[i] == rs[i]); }
        assert forall|i: int, j: int, q: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j && 0 <= q < n && #[trigger] claims(p[i], q) implies !#[trigger] claims(p[j], q) by {
            assert(p[i] == rs[i] && p[j] == rs[j]); assert(claims(rs[i], q)); }
        lemma_kept_all(bl, n, p, k);
        let l = rs.len() - 1;
        assert(rs[l] == rs.last());
        assert(kept_at(bl, rs[l].docs, rs[l].x, k) == (if claims(rs[l], k) { 1int } else { 0 }));
        if some_claims(p, k) { let j = choose|j: int| 0 <= j < p.len() && claims(#[trigger] p[j], k); assert(claims(rs[j], k)); assert(!claims(rs[l], k)); }
        if some_claims(rs, k) && !claims(rs[l], k) { let j = choose|j: int| 0 <= j < rs.len() && claims(#[trigger] rs[j], k); assert(p[j] == rs[j]); assert(claims(p[j], k)); }
    }
}
/// with the first occurrence kept: of all documents, in all shards, that carry a listed text, exactly one is kept
pub proof fn theorem_one_kept(bl: Map<PV, PV>, n: int, rs: Seq<Run>, i: int, d: int)
    requires bl_ok(bl, n), fleet(bl, n, rs), 0 <= i < rs.len(), 0 <= d < rs[i].docs.len(), listed(bl, rs[i].docs[d])
    ensures kept_in_all(bl, rs, place(bl, rs[i].docs[d])) == 1 // [C32]
{
    let r = rs[i];
    let k = place(bl, r.docs[d]);
    assert(dec_ok(bl, true, r.docs[d], r.x[d]));
    assert(kept_at(bl, r.docs, r.x, k) == (if r.b[k] && !r.a[k] { 1int } else { 0 }));
    if r.x[d] is Keep { lemma_kept_has(bl, r.docs, r.x, d); assert(claims(rs[i], k)); }
    else { assert(either(r.b, r.t, k)); if !claims(rs[i], k) { assert(either(rs[i].a, rs[i].t, k)); } }
    assert(some_claims(rs, k));
    lemma_kept_all(bl, n, rs, k);
}
/// without it, none is
pub proof fn theorem_all_dropped(bl: Map<PV, PV>, r: Run, d: int)
    requires run_ok(bl, false, r.docs, r.x, r.a, r.b, r.t), r.x.len() == r.docs.len(), 0 <= d < r.docs.len(), has_text(r.docs[d])
    ensures r.x[d] is Drop <==> listed(bl, r.docs[d]), r.x[d] is Keep <==> !listed(bl, r.docs[d]) // [C32]
{
    assert(dec_ok(bl, false, r.docs[d], r.x[d]));
}
//@literals
} // verus!
fn main() {}
