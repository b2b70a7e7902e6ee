// Splitting a data file (C37).
//@claims C37: file_split split_files theorem_parts theorem_class
//@include shim_py.rs
/// a file is the sequence of the lines (pieces of text) it was written from, or that reading it gives
pub struct Ext {
    pub in_folder: int, pub n: int, pub names: Seq<int>, pub files: Map<int, Seq<int>>,
    pub in_file: int, pub out_prefix: int,
    /// the rows of the input file; a nested value is one opaque value (no operation here can reach into it)
    pub docs: Seq<(Seq<PV>, Map<PV, PV>)>, pub pos: int,
}
pub open spec fn G_DATA() -> int { 20 }
pub open spec fn G_PARSER() -> int { 25 }
pub open spec fn G_ARGS() -> int { 26 }
pub open spec fn lazy_iter(w: PW, v: PV) -> bool { v == PV::Glob(G_DATA()) }
pub open spec fn lazy_step(o: PW, n: PW, v: PV, r: Result<Option<V>, Exc>) -> bool {
    r is Ok ==> if o.ext.pos < o.ext.docs.len() {
        r->Ok_0 is Some && fresh(PW { ext: Ext { pos: o.ext.pos + 1, ..o.ext }, ..o }, n, r->Ok_0->Some_0@,
            Obj::Dict { ks: o.ext.docs[o.ext.pos].0, m: o.ext.docs[o.ext.pos].1, dflt: PV::None })
    } else { r->Ok_0 is None && n == o }
}
// ------------------------------------------------------------------ options
#[verifier::external_body] pub fn c_argparse_ArgumentParser_1(x: &V, w: &mut World) -> (r: R) ensures r is Ok ==> final(w)@ == old(w)@ && r->Ok_0@ == PV::Glob(G_PARSER()) { unimplemented!() }
#[verifier::external_body] pub fn m_add_argument_1__type(p: &V, n: &V, t: &V, w: &mut World) -> (r: R) ensures r is Ok && p@ == PV::Glob(G_PARSER()) ==> final(w)@ == old(w)@ { unimplemented!() }
#[verifier::external_body] pub fn m_add_argument_1__default_type(p: &V, n: &V, d: &V, t: &V, w: &mut World) -> (r: R) ensures r is Ok && p@ == PV::Glob(G_PARSER()) ==> final(w)@ == old(w)@ { unimplemented!() }
#[verifier::external_body] pub fn m_parse_args_0(p: &V, w: &mut World) -> (r: R) ensures r is Ok && p@ == PV::Glob(G_PARSER()) ==> final(w)@ == old(w)@ && r->Ok_0@ == PV::Glob(G_ARGS()) { unimplemented!() }
#[verifier::external_body] pub fn a_in_folder(a: &V, w: &mut World) -> (r: R) ensures a@ == PV::Glob(G_ARGS()) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Str(old(w)@.ext.in_folder) { unimplemented!() }
#[verifier::external_body] pub fn a_n(a: &V, w: &mut World) -> (r: R) ensures a@ == PV::Glob(G_ARGS()) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Int(old(w)@.ext.n) { unimplemented!() }
#[verifier::external_body] pub fn a_in_file(a: &V, w: &mut World) -> (r: R) ensures a@ == PV::Glob(G_ARGS()) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Str(old(w)@.ext.in_file) { unimplemented!() }
#[verifier::external_body] pub fn a_out_prefix(a: &V, w: &mut World) -> (r: R) ensures a@ == PV::Glob(G_ARGS()) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Str(old(w)@.ext.out_prefix) { unimplemented!() }
#[verifier::external_body] pub fn gv_args(w: &mut World) -> (r: V) ensures final(w)@ == old(w)@, r@ == PV::Glob(G_ARGS()) { unimplemented!() }
#[verifier::external_body] pub fn gv_args_in_file(w: &mut World) -> (r: V) ensures final(w)@ == old(w)@, r@ == PV::Str(old(w)@.ext.in_file) { unimplemented!() }
#[verifier::external_body] pub fn gv_args_out_prefix(w: &mut World) -> (r: V) ensures final(w)@ == old(w)@, r@ == PV::Str(old(w)@.ext.out_prefix) { unimplemented!() }
#[verifier::external_body] pub fn gv_str(w: &mut World) -> (r: V) ensures final(w)@ == old(w)@ { unimplemented!() }

// ------------------------------------------------------------------ files
pub open spec fn is_file(w: PW, v: PV) -> bool { v is Ref && w.heap.dom().contains(v->Ref_0) && w.heap[v->Ref_0] is File }
pub open spec fn fnm(w: PW, v: PV) -> int { w.heap[v->Ref_0]->fname }
pub open spec fn with_file(w: PW, f: int, s: Seq<int>) -> PW { PW { ext: Ext { files: w.ext.files.insert(f, s), ..w.ext }, ..w } }
pub open spec fn open_ok(o: PW, n: PW, f: PV, m: PV, r: Result<V, Exc>) -> bool {
    &&& f is Str && m == S"rt" && r is Ok ==> o.ext.files.dom().contains(f->Str_0) && fresh(o, n, r->Ok_0@, Obj::File { fname: f->Str_0, fpos: 0 })
    // opening for writing empties the file
    &&& f is Str && m == S"wt" && r is Ok ==> fresh(with_file(o, f->Str_0, Seq::empty()), n, r->Ok_0@, Obj::File { fname: f->Str_0, fpos: 0 })
}
#[verifier::external_body] pub fn c_gzip_open_2(f: &V, m: &V, w: &mut World) -> (r: R) ensures open_ok(old(w)@, final(w)@, f@, m@, r) { unimplemented!() }
#[verifier::external_body] pub fn c_gzip_open_2__encoding(f: &V, m: &V, e: &V, w: &mut World) -> (r: R) ensures open_ok(old(w)@, final(w)@, f@, m@, r) { unimplemented!() }
#[verifier::external_body] pub fn op_enter(f: &V, w: &mut World) -> (r: R) ensures is_file(old(w)@, f@) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == f@ { unimplemented!() }
#[verifier::external_body] pub fn op_exit(f: &V, w: &mut World) -> (r: R) ensures is_file(old(w)@, f@) && r is Ok ==> final(w)@ == old(w)@ { unimplemented!() }
#[verifier::external_body] pub fn m_close_0(f: &V, w: &mut World) -> (r: R) ensures is_file(old(w)@, f@) && r is Ok ==> final(w)@ == old(w)@ { unimplemented!() }
/// all lines, from the start; the reading position moves to the end
#[verifier::external_body] pub fn m_readlines_0(f: &V, w: &mut World) -> (r: R)
    ensures is_file(old(w)@, f@) && old(w)@.heap[f@->Ref_0]->fpos == 0 && r is Ok ==> {
        let s = old(w)@.ext.files[fnm(old(w)@, f@)];
        fresh(put(old(w)@, f@, Obj::File { fname: fnm(old(w)@, f@), fpos: s.len() as int }), final(w)@, r->Ok_0@, Obj::List(strs(s)))
    } { unimplemented!() }
pub open spec fn texts(s: Seq<PV>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i]->Str_0) }
pub open spec fn all_str(s: Seq<PV>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Str }
pub open spec fn wrote(o: PW, n: PW, f: PV, s: Seq<int>) -> bool { n == with_file(o, fnm(o, f), o.ext.files[fnm(o, f)] + s) }
#[verifier::external_body] pub fn m_writelines_1(f: &V, l: &V, w: &mut World) -> (r: R)
    ensures is_file(old(w)@, f@) && is_list(old(w)@, l@) && all_str(lst(old(w)@, l@)) && r is Ok ==> wrote(old(w)@, final(w)@, f@, texts(lst(old(w)@, l@))) { unimplemented!() }
#[verifier::external_body] pub fn m_write_1(f: &V, x: &V, w: &mut World) -> (r: R)
    ensures is_file(old(w)@, f@) && x@ is Str && r is Ok ==> wrote(old(w)@, final(w)@, f@, seq![x@->Str_0]) { unimplemented!() }
#[verifier::external_body] pub fn c_glob_1(p: &V, w: &mut World) -> (r: R)
    ensures p@ == PV::Str(cat(old(w)@.ext.in_folder, S"/*.jsonl.gz"->Str_0)) && r is Ok ==> fresh(old(w)@, final(w)@, r->Ok_0@, Obj::List(strs(old(w)@.ext.names))) { unimplemented!() }

// ------------------------------------------------------------------ names
pub uninterp spec fn cut_suffix(s: int, t: int) -> int;
#[verifier::external_body] pub fn m_removesuffix_1(s: &V, t: &V, w: &mut World) -> (r: R)
    ensures s@ is Str && t@ is Str ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Str(cut_suffix(s@->Str_0, t@->Str_0)) { unimplemented!() }
pub open spec fn stem(f: int) -> int { cut_suffix(f, S".jsonl.gz"->Str_0) }
/// STEM_I.json.gz
pub open spec fn part_name(f: int, i: int) -> int { cat(stem(f), cat(S"_"->Str_0, cat(int_text(i), S".json.gz"->Str_0))) }
/// this is a name the pattern *.jsonl.gz finds
pub uninterp spec fn input_name(f: int) -> bool;
/// two such names, or two numbers, never give the same part, and no part is such a name: what follows the last
/// underscore of a part's name is the number and .json.gz
#[verifier::external_body] pub broadcast proof fn axiom_part_names(f: int, i: int, g: int, j: int)
    ensures #![trigger part_name(f, i), part_name(g, j)] input_name(f) && input_name(g) && i >= 0 && j >= 0 && part_name(f, i) == part_name(g, j) ==> f == g && i == j {}
#[verifier::external_body] pub broadcast proof fn axiom_part_is_no_input(f: int, i: int)
    ensures #![trigger part_name(f, i)] !input_name(part_name(f, i)) {}

/// the parts 0..k of a file, one after the other
pub open spec fn parts(files: Map<int, Seq<int>>, f: int, k: int) -> Seq<int> decreases k {
    if k <= 0 { Seq::empty() } else { parts(files, f, k - 1) + files[part_name(f, k - 1)] }
}
pub proof fn lemma_parts_frame(a: Map<int, Seq<int>>, b: Map<int, Seq<int>>, f: int, k: int)
    requires forall|j: int| 0 <= j < k ==> #[trigger] a[part_name(f, j)] == b[part_name(f, j)]
    ensures parts(a, f, k) == parts(b, f, k)
    decreases k
{ if k > 0 { lemma_parts_frame(a, b, f, k - 1); assert(a[part_name(f, k - 1)] == b[part_name(f, k - 1)]); } }
/// nothing but parts of these files with these numbers was written
pub open spec fn only_parts(a: Map<int, Seq<int>>, b: Map<int, Seq<int>>, names: Seq<int>, n: int) -> bool {
    &&& forall|g: int| #![trigger b.dom().contains(g)] #![trigger b[g]] a.dom().contains(g) && !is_part(names, n, g) ==> b.dom().contains(g) && b[g] == a[g]
    &&& forall|g: int| #[trigger] b.dom().contains(g) && !is_part(names, n, g) ==> a.dom().contains(g)
}
pub open spec fn is_part(names: Seq<int>, n: int, g: int) -> bool { exists|q: int, j: int| 0 <= q < names.len() && 0 <= j < n && g == #[trigger] part_name(names[q], j) }
/// every line of the file is in exactly one of its n parts, and in order; the file itself is as it was
pub open spec fn partitioned(a: Map<int, Seq<int>>, b: Map<int, Seq<int>>, f: int, n: int) -> bool {
    &&& parts(b, f, n) =~= a[f]
    &&& b[f] == a[f]
    &&& forall|j: int| 0 <= j < n ==> b.dom().contains(#[trigger] part_name(f, j))
}
pub proof fn lemma_chunk(i: int, n: int, len: int)
    requires 0 <= i < n, 0 <= len
    ensures 0 <= i * (len / n), i * (len / n) <= len, i + 1 < n ==> (i + 1) * (len / n) <= len, i * (len / n) <= (i + 1) * (len / n), (i + 1) * (len / n) == i * (len / n) + len / n, 0 <= len / n
{
    let c = len / n;
    assert(c >= 0 && n * c <= len) by (nonlinear_arith) requires c == len / n, n > 0, len >= 0;
    assert(i * c >= 0) by (nonlinear_arith) requires c >= 0, i >= 0;
    assert((i + 1) * c == i * c + c) by (nonlinear_arith);
    assert((i + 1) * c <= n * c) by (nonlinear_arith) requires c >= 0, i + 1 <= n;
}
/// a line of the input is the line of one place of one part, and the parts have no other lines
pub proof fn theorem_parts(a: Map<int, Seq<int>>, b: Map<int, Seq<int>>, f: int, n: int, k: int)
    requires partitioned(a, b, f, n), 0 <= k < a[f].len(), n >= 1
    ensures
        exists|j: int, p: int| 0 <= j < n && 0 <= p < b[part_name(f, j)].len() && parts(b, f, j).len() + p == k && #[trigger] b[part_name(f, j)][p] == a[f][k], // [C37]
        parts(b, f, n).len() == a[f].len() // [C37]
{ lemma_find(b, f, n, k); }
pub proof fn lemma_find(b: Map<int, Seq<int>>, f: int, n: int, k: int)
    requires 0 <= k < parts(b, f, n).len()
    ensures exists|j: int, p: int| 0 <= j < n && 0 <= p < b[part_name(f, j)].len() && parts(b, f, j).len() + p == k && #[trigger] b[part_name(f, j)][p] == parts(b, f, n)[k]
    decreases n
{
    if n > 0 {
        let h = parts(b, f, n - 1);
        if k < h.len() {
            lemma_find(b, f, n - 1, k);
            assert(parts(b, f, n)[k] == h[k]);
        } else {
            let p = k - h.len();
            assert(parts(b, f, n)[k] == b[part_name(f, n - 1)][p]);
        }
    }
}

#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(60)]
pub fn file_split(w: &mut World) -> (r: R)
    requires
        old(w)@.ext.n >= 1, old(w)@.ext.names.no_duplicates(),
        forall|q: int| 0 <= q < old(w)@.ext.names.len() ==> #[trigger] input_name(old(w)@.ext.names[q]),
    ensures
        r is Ok ==> forall|q: int| 0 <= q < old(w)@.ext.names.len() ==> partitioned(old(w)@.ext.files, final(w)@.ext.files, #[trigger] old(w)@.ext.names[q], old(w)@.ext.n), // [C37]
        r is Ok ==> only_parts(old(w)@.ext.files, final(w)@.ext.files, old(w)@.ext.names, old(w)@.ext.n), // [C37]
{
/*@pybody
@file wimbd/utils/file_split.py
@item main
@locals parse args file f data n chunks i file_split
@start
    broadcast use group_text;
    let ghost g_fs = w@.ext.files;
    let ghost g_n = w@.ext.n;
    let ghost g_names = w@.ext.names;
@pre 0
    let ghost g_it = __it0@->Ref_0;
    let ghost g_src = w@.heap[g_it]->src;
@loop 0
    invariant
        is_iter(w@, __it0@), __it0@ == PV::Ref(g_it), w@.heap[g_it]->src == g_src, w@.heap.dom().contains(g_src), w@.heap[g_src] == Obj::List(strs(g_names)),
        0 <= w@.heap[g_it]->pos <= g_names.len(), args@ == PV::Glob(G_ARGS()), w@.ext.n == g_n, w@.ext.names == g_names,
        forall|q: int| 0 <= q < w@.heap[g_it]->pos ==> partitioned(g_fs, w@.ext.files, #[trigger] g_names[q], g_n),
        forall|q: int| 0 <= q < w@.heap[g_it]->pos ==> g_fs.dom().contains(#[trigger] g_names[q]),
        only_parts(g_fs, w@.ext.files, g_names.take(w@.heap[g_it]->pos), g_n),
    ensures w@.heap[g_it]->pos == g_names.len()
    decreases g_names.len() - w@.heap[g_it]->pos
@top 0
    broadcast use {group_text, axiom_part_names, axiom_part_is_no_input};
    let ghost g_q = w@.heap[g_it]->pos - 1;
    let ghost g_f = g_names[g_q];
    let ghost g_c = w@.ext.files;
    proof {
        assert(input_name(g_f));
        assert(!is_part(g_names.take(g_q), g_n, g_f)) by {
            if is_part(g_names.take(g_q), g_n, g_f) { let (a, b) = choose|a: int, b: int| 0 <= a < g_names.take(g_q).len() && 0 <= b < g_n && g_f == #[trigger] part_name(g_names.take(g_q)[a], b); assert(!input_name(part_name(g_names.take(g_q)[a], b))); }
        }
    }
@pre 1
    let ghost g_l = lst(w@, data@);
    let ghost g_t = texts(g_l);
    let ghost g_k = chunks@->Int_0;
    let ghost g_i1 = __it1@->Ref_0;
    let ghost g_s1 = w@.heap[g_i1]->src;
    proof {
        assert(texts(strs(g_c[g_f])) =~= g_c[g_f]);
        assert(g_t =~= g_fs[g_f]);
        assert(0 * g_k == 0) by (nonlinear_arith);
        assert(parts(w@.ext.files, g_f, 0) =~= g_t.take(0 * g_k));
    }
@loop 1
    invariant
        is_iter(w@, __it1@), __it1@ == PV::Ref(g_i1), w@.heap[g_i1]->src == g_s1, w@.heap.dom().contains(g_s1), w@.heap[g_s1] == Obj::List(ints(0, g_n - 1)),
        0 <= w@.heap[g_i1]->pos <= ints(0, g_n - 1).len(),
        is_iter(w@, __it0@), w@.heap[g_it] == (Obj::Iter { src: g_src, pos: g_q + 1, len: w@.heap[g_it]->len }), w@.heap.dom().contains(g_src), w@.heap[g_src] == Obj::List(strs(g_names)),
        w@.ext.n == g_n, w@.ext.names == g_names, n@ == PV::Int(g_n), chunks@ == PV::Int(g_k), file@ == PV::Str(g_f), args@ == PV::Glob(G_ARGS()),
        is_list(w@, data@), lst(w@, data@) == g_l,
        g_k == g_l.len() / g_n as nat, g_l == strs(g_fs[g_f]),
        parts(w@.ext.files, g_f, w@.heap[g_i1]->pos) =~= g_t.take(w@.heap[g_i1]->pos * g_k),
        only_parts(g_c, w@.ext.files, seq![g_f], w@.heap[g_i1]->pos),
        forall|j: int| 0 <= j < w@.heap[g_i1]->pos ==> w@.ext.files.dom().contains(#[trigger] part_name(g_f, j)),
    ensures w@.heap[g_i1]->pos == g_n - 1
    decreases g_n - w@.heap[g_i1]->pos
@top 1
    broadcast use {group_text, axiom_part_names, axiom_part_is_no_input};
    let ghost g_j = w@.heap[g_i1]->pos - 1;
    let ghost g_d = w@.ext.files;
    proof { lemma_chunk(g_j, g_n, g_l.len() as int); }
@bottom 1
    proof {
        let e = w@.ext.files;
        let s = g_t.subrange(g_j * g_k, (g_j + 1) * g_k);
        assert(slice_of(g_l, PV::Int(g_j * g_k), PV::Int((g_j + 1) * g_k)) =~= g_l.subrange(g_j * g_k, (g_j + 1) * g_k));
        assert(texts(g_l.subrange(g_j * g_k, (g_j + 1) * g_k)) =~= s);
        assert(e[part_name(g_f, g_j)] =~= s);
        lemma_parts_frame(g_d, e, g_f, g_j);
        lemma_only_parts_step(g_c, g_d, e, g_f, g_j);
        assert(g_t.take(g_j * g_k) + s =~= g_t.take((g_j + 1) * g_k));
    }
@post 1
    let ghost g_d = w@.ext.files;
    proof { lemma_chunk(g_n - 1, g_n, g_l.len() as int); }
@bottom 0
    proof {
        let e = w@.ext.files;
        let s = g_t.skip((g_n - 1) * g_k);
        assert(slice_of(g_l, PV::Int((g_n - 1) * g_k), PV::None) =~= g_l.skip((g_n - 1) * g_k));
        assert(texts(g_l.skip((g_n - 1) * g_k)) =~= s);
        assert(e[part_name(g_f, g_n - 1)] =~= s);
        lemma_parts_frame(g_d, e, g_f, g_n - 1);
        lemma_only_parts_step(g_c, g_d, e, g_f, g_n - 1);
        assert(g_t.take((g_n - 1) * g_k) + s =~= g_t);
        assert(parts(e, g_f, g_n) =~= g_t);
        lemma_only_parts_file(g_fs, g_c, e, g_names, g_q, g_n);
    }
@end
    proof { assert(g_names.take(g_names.len() as int) =~= g_names); }
@*/
}
pub proof fn lemma_only_parts_step(a: Map<int, Seq<int>>, b: Map<int, Seq<int>>, c: Map<int, Seq<int>>, f: int, j: int)
    requires only_parts(a, b, seq![f], j), j >= 0, c.dom().contains(part_name(f, j)), c =~= b.insert(part_name(f, j), c[part_name(f, j)])
    ensures only_parts(a, c, seq![f], j + 1)
{
    assert(seq![f][0] == f);
    assert forall|g: int| is_part(seq![f], j, g) implies is_part(seq![f], j + 1, g) by {
        let (x, y) = choose|x: int, y: int| 0 <= x < seq![f].len() && 0 <= y < j && g == #[trigger] part_name(seq![f][x], y);
        assert(g == part_name(seq![f][x], y));
    }
    assert(is_part(seq![f], j + 1, part_name(f, j))) by { assert(part_name(f, j) == part_name(seq![f][0], j)); }
    assert forall|g: int| #![trigger c.dom().contains(g)] #![trigger c[g]] a.dom().contains(g) && !is_part(seq![f], j + 1, g) implies c.dom().contains(g) && c[g] == a[g] by {
        assert(b.dom().contains(g) && b[g] == a[g]);
    }
    assert forall|g: int| #[trigger] c.dom().contains(g) && !is_part(seq![f], j + 1, g) implies a.dom().contains(g) by { assert(b.dom().contains(g)); }
}
/// one more file split: the files before it and the inputs are as they were
pub proof fn lemma_only_parts_file(a: Map<int, Seq<int>>, b: Map<int, Seq<int>>, c: Map<int, Seq<int>>, names: Seq<int>, q: int, n: int)
    requires
        0 <= q < names.len(), names.no_duplicates(), n >= 1, forall|x: int| 0 <= x < names.len() ==> #[trigger] input_name(names[x]),
        forall|x: int| 0 <= x < q ==> partitioned(a, b, #[trigger] names[x], n), only_parts(a, b, names.take(q), n), only_parts(b, c, seq![names[q]], n),
        parts(c, names[q], n) =~= a[names[q]], a.dom().contains(names[q]), forall|j: int| 0 <= j < n ==> c.dom().contains(#[trigger] part_name(names[q], j)),
        forall|x: int| 0 <= x < q ==> a.dom().contains(#[trigger] names[x]), b[names[q]] == a[names[q]], b.dom().contains(names[q]),
    ensures forall|x: int| 0 <= x < q + 1 ==> partitioned(a, c, #[trigger] names[x], n), only_parts(a, c, names.take(q + 1), n)
{
    broadcast use {axiom_part_names, axiom_part_is_no_input};
    assert(seq![names[q]][0] == names[q]);
    assert forall|g: int| is_part(seq![names[q]], n, g) implies is_part(names.take(q + 1), n, g) by {
        let (x, y) = choose|x: int, y: int| 0 <= x < seq![names[q]].len() && 0 <= y < n && g == #[trigger] part_name(seq![names[q]][x], y);
        assert(g == part_name(names.take(q + 1)[q], y));
    }
    assert forall|g: int| is_part(names.take(q), n, g) implies is_part(names.take(q + 1), n, g) by {
        let (x, y) = choose|x: int, y: int| 0 <= x < names.take(q).len() && 0 <= y < n && g == #[trigger] part_name(names.take(q)[x], y);
        assert(g == part_name(names.take(q + 1)[x], y));
    }
    assert forall|x: int| 0 <= x < names.len() implies !is_part(seq![names[q]], n, #[trigger] names[x]) by {
        if is_part(seq![names[q]], n, names[x]) {
            let (u, v) = choose|u: int, v: int| 0 <= u < seq![names[q]].len() && 0 <= v < n && names[x] == #[trigger] part_name(seq![names[q]][u], v);
            assert(!input_name(part_name(seq![names[q]][u], v)));
        }
    }
    assert forall|x: int| 0 <= x < q + 1 implies partitioned(a, c, #[trigger] names[x], n) by {
        assert(input_name(names[x]));
        assert(!is_part(seq![names[q]], n, names[x]));
        if x < q {
            assert(partitioned(a, b, names[x], n));
            assert(b[names[x]] == a[names[x]]);
            assert forall|j: int| 0 <= j < n implies c.dom().contains(#[trigger] part_name(names[x], j)) && b[part_name(names[x], j)] == c[part_name(names[x], j)] by {
                let g = part_name(names[x], j);
                assert(b.dom().contains(g));
                if is_part(seq![names[q]], n, g) {
                    let (u, v) = choose|u: int, v: int| 0 <= u < seq![names[q]].len() && 0 <= v < n && g == #[trigger] part_name(seq![names[q]][u], v);
                    assert(input_name(names[q]));
                    assert(part_name(names[q], v) == part_name(names[x], j));
                    assert(names[x] == names[q]);
                }
            }
            lemma_parts_frame(b, c, names[x], n);
            assert(b.dom().contains(names[x])) by {
                assert(a.dom().contains(names[x]));
                if is_part(names.take(q), n, names[x]) {
                    let (u, v) = choose|u: int, v: int| 0 <= u < names.take(q).len() && 0 <= v < n && names[x] == #[trigger] part_name(names.take(q)[u], v);
                    assert(!input_name(part_name(names.take(q)[u], v)));
                }
            }
            assert(c[names[x]] == b[names[x]]);
        }
    }
    assert forall|g: int| #![trigger c.dom().contains(g)] #![trigger c[g]] a.dom().contains(g) && !is_part(names.take(q + 1), n, g) implies c.dom().contains(g) && c[g] == a[g] by {
        assert(!is_part(names.take(q), n, g) && !is_part(seq![names[q]], n, g));
        assert(b.dom().contains(g) && b[g] == a[g]);
    }
    assert forall|g: int| #[trigger] c.dom().contains(g) && !is_part(names.take(q + 1), n, g) implies a.dom().contains(g) by { assert(b.dom().contains(g)); }
}

// ------------------------------------------------------------------ train, valid, test
/// bytes, and a digest object
pub open spec fn bytes(t: int) -> PV { PV::Tup(seq![PV::Glob(30), PV::Str(t)]) }
pub open spec fn digest(t: int) -> PV { PV::Tup(seq![PV::Glob(31), PV::Str(t)]) }
pub uninterp spec fn sha1hex(t: int) -> int;
/// what is no text has no encode
#[verifier::external_body] pub fn m_encode_1(s: &V, e: &V, w: &mut World) -> (r: R)
    ensures final(w)@ == old(w)@, r is Ok ==> s@ is Str, r is Ok && e@ == S"utf-8" ==> r->Ok_0@ == bytes(s@->Str_0) { unimplemented!() }
#[verifier::external_body] pub fn c_hashlib_sha1_1(b: &V, w: &mut World) -> (r: R)
    ensures final(w)@ == old(w)@, forall|t: int| b@ == #[trigger] bytes(t) && r is Ok ==> r->Ok_0@ == digest(t) { unimplemented!() }
#[verifier::external_body] pub fn m_hexdigest_0(d: &V, w: &mut World) -> (r: R)
    ensures final(w)@ == old(w)@, forall|t: int| d@ == #[trigger] digest(t) && r is Ok ==> r->Ok_0@ == PV::Str(sha1hex(t)) { unimplemented!() }
#[verifier::external_body] pub fn c_os_path_join_2(a: &V, b: &V, w: &mut World) -> (r: R) ensures a@ is Str && b@ is Str && r is Ok ==> final(w)@ == old(w)@ && r->Ok_0@ is Str { unimplemented!() }
#[verifier::external_body] pub fn c_os_path_dirname_1(a: &V, w: &mut World) -> (r: R) ensures a@ is Str && r is Ok ==> final(w)@ == old(w)@ && r->Ok_0@ is Str { unimplemented!() }
#[verifier::external_body] pub fn c_os_path_exists_1(a: &V, w: &mut World) -> (r: R) ensures a@ is Str && r is Ok ==> final(w)@ == old(w)@ && r->Ok_0@ is Bool { unimplemented!() }
/// makes directories, no files
#[verifier::external_body] pub fn c_os_makedirs_1(a: &V, w: &mut World) -> (r: R) ensures a@ is Str && r is Ok ==> final(w)@ == old(w)@ { unimplemented!() }
#[verifier::external_body] pub fn m_replace_2(s: &V, a: &V, b: &V, w: &mut World) -> (r: R) ensures s@ is Str && a@ is Str && b@ is Str ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ is Str { unimplemented!() }
#[verifier::external_body] pub fn c_read_json_gz_file_1(f: &V, w: &mut World) -> (r: R)
    ensures f@ == PV::Str(old(w)@.ext.in_file) ==> r is Ok && final(w)@ == (PW { ext: Ext { pos: 0, ..old(w)@.ext }, ..old(w)@ }) && r->Ok_0@ == PV::Glob(G_DATA()) { unimplemented!() }

pub type Doc = (Seq<PV>, Map<PV, PV>);
/// the text of a row (no text counts as empty text), its id, and its class: 0 test, 1 valid, 2 train
pub open spec fn text_of(d: Doc) -> int { if d.1[S"text"] is None { 0 } else { d.1[S"text"]->Str_0 } }
pub open spec fn class_of(t: int) -> int {
    let p = str_slice(sha1hex(t), PV::None, PV::Int(3));
    if p == S"fff"->Str_0 || p == S"ffe"->Str_0 { 0 } else if p == S"ffd"->Str_0 || p == S"ffc"->Str_0 { 1 } else { 2 }
}
/// the line a row becomes: the row with its id added
pub open spec fn line_of(d: Doc) -> int { cat(json_text(d.1.insert(S"id", PV::Str(sha1hex(text_of(d))))), S"\n"->Str_0) }
pub open spec fn rows(s: Seq<Doc>, c: int) -> Seq<int> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if class_of(text_of(s.last())) == c { rows(s.drop_last(), c).push(line_of(s.last())) } else { rows(s.drop_last(), c) }
}
pub open spec fn out_name(b: int, c: int) -> int { cat(b, if c == 0 { S".test.jsonl.gz"->Str_0 } else if c == 1 { S".valid.jsonl.gz"->Str_0 } else { S".train.jsonl.gz"->Str_0 }) }
pub open spec fn three(files: Map<int, Seq<int>>, b: int, s: Seq<Doc>) -> bool {
    &&& files.dom().contains(out_name(b, 0)) && files[out_name(b, 0)] == rows(s, 0)
    &&& files.dom().contains(out_name(b, 1)) && files[out_name(b, 1)] == rows(s, 1)
    &&& files.dom().contains(out_name(b, 2)) && files[out_name(b, 2)] == rows(s, 2)
    &&& out_name(b, 0) != out_name(b, 1) && out_name(b, 1) != out_name(b, 2) && out_name(b, 0) != out_name(b, 2)
}
pub open spec fn had_no_id(s: Seq<Doc>) -> bool { forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i]).1.dom().contains(S"id") }
/// rows with the same text are in the same part, every row is in one part and only one
pub proof fn theorem_class(s: Seq<Doc>, i: int, j: int)
    requires 0 <= i < s.len(), 0 <= j < s.len()
    ensures
        text_of(s[i]) == text_of(s[j]) ==> class_of(text_of(s[i])) == class_of(text_of(s[j])), // [C37]
        rows(s, class_of(text_of(s[i]))).contains(line_of(s[i])), // [C37]
        rows(s, 0).len() + rows(s, 1).len() + rows(s, 2).len() == s.len() // [C37]
{ lemma_rows(s, i); lemma_rows_len(s); }
pub proof fn lemma_rows_len(s: Seq<Doc>)
    ensures rows(s, 0).len() + rows(s, 1).len() + rows(s, 2).len() == s.len()
    decreases s.len()
{ if s.len() > 0 { lemma_rows_len(s.drop_last()); let c = class_of(text_of(s.last())); assert(c == 0 || c == 1 || c == 2); } }
pub proof fn lemma_rows(s: Seq<Doc>, i: int)
    requires 0 <= i < s.len()
    ensures rows(s, class_of(text_of(s[i]))).contains(line_of(s[i]))
    decreases s.len()
{
    let c = class_of(text_of(s[i]));
    let h = s.drop_last();
    if i < s.len() - 1 {
        lemma_rows(h, i);
        assert(h[i] == s[i]);
        let p = choose|p: int| 0 <= p < rows(h, c).len() && rows(h, c)[p] == line_of(s[i]);
        assert(rows(s, c)[p] == line_of(s[i]));
    } else {
        assert(rows(s, c)[rows(h, c).len() as int] == line_of(s[i]));
    }
}
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(60)]
pub fn split_files(w: &mut World) -> (r: R)
    requires forall|i: int| 0 <= i < old(w)@.ext.docs.len() ==> shallow(#[trigger] old(w)@.ext.docs[i].1)
    ensures
        r is Ok ==> had_no_id(old(w)@.ext.docs), // [C37]
        r is Ok ==> exists|b: int| #[trigger] three(final(w)@.ext.files, b, old(w)@.ext.docs), // [C37]
{
/*@pybody
@file wimbd/utils/split_files.py
@item main
@locals data out_path test_stream valid_stream train_stream row text
@start
    broadcast use group_text;
    let ghost g_docs = w@.ext.docs;
@pre 0
    let ghost g_b = out_path@->Str_0;
    let ghost g_s0 = test_stream@->Ref_0;
    let ghost g_s1 = valid_stream@->Ref_0;
    let ghost g_s2 = train_stream@->Ref_0;
    proof {
        if out_name(g_b, 0) == out_name(g_b, 1) { axiom_cat_cancel(g_b, S".test.jsonl.gz"->Str_0, S".valid.jsonl.gz"->Str_0); }
        if out_name(g_b, 0) == out_name(g_b, 2) { axiom_cat_cancel(g_b, S".test.jsonl.gz"->Str_0, S".train.jsonl.gz"->Str_0); }
        if out_name(g_b, 1) == out_name(g_b, 2) { axiom_cat_cancel(g_b, S".valid.jsonl.gz"->Str_0, S".train.jsonl.gz"->Str_0); }
        assert(g_docs.take(0) =~= Seq::empty());
    }
@loop 0
    invariant
        __it0@ == PV::Glob(G_DATA()), w@.ext.docs == g_docs, 0 <= w@.ext.pos <= g_docs.len(),
        w@.heap.dom().contains(g_s0), w@.heap[g_s0] is File, w@.heap[g_s0]->fname == out_name(g_b, 0), test_stream@ == PV::Ref(g_s0),
        w@.heap.dom().contains(g_s1), w@.heap[g_s1] is File, w@.heap[g_s1]->fname == out_name(g_b, 1), valid_stream@ == PV::Ref(g_s1),
        w@.heap.dom().contains(g_s2), w@.heap[g_s2] is File, w@.heap[g_s2]->fname == out_name(g_b, 2), train_stream@ == PV::Ref(g_s2),
        three(w@.ext.files, g_b, g_docs.take(w@.ext.pos)), had_no_id(g_docs.take(w@.ext.pos)),
    ensures w@.ext.pos == g_docs.len()
    decreases g_docs.len() - w@.ext.pos
@top 0
    broadcast use {group_text, group_has};
    let ghost g_n = w@.ext.pos - 1;
    let ghost g_row = g_docs[g_n].1;
    let ghost g_old = w@.ext.files;
    proof { assert(shallow(g_docs[g_n].1)); assert(g_docs.take(g_n + 1).drop_last() =~= g_docs.take(g_n)); }
@bottom 0
    proof { 
        assert(g_docs.take(g_n + 1).last() == g_docs[g_n]);
        let c = class_of(text_of(g_docs[g_n]));
        assert(c == 0 || c == 1 || c == 2);
        let l = line_of(g_docs[g_n]);
        assert(w@.ext.files =~= g_old.insert(out_name(g_b, c), g_old[out_name(g_b, c)] + seq![l]));
        assert(g_old[out_name(g_b, c)] + seq![l] =~= g_old[out_name(g_b, c)].push(l));
        assert(!g_row.dom().contains(S"id"));
        assert forall|i: int| 0 <= i < g_n + 1 implies !(#[trigger] g_docs.take(g_n + 1)[i]).1.dom().contains(S"id") by { if i < g_n { assert(g_docs.take(g_n)[i] == g_docs[i]); } }
    }
@end
    proof { assert(g_docs.take(g_docs.len() as int) =~= g_docs); assert(three(w@.ext.files, g_b, g_docs)); }
@*/
}
//@literals
} // verus!
fn main() {}
