// The batched map steps: language, profanity, sentiment (C33).
//@claims C33: read_gz language_classify language_main profanity_classify profanity_taxonomy profanity_main sentiment_main theorem_batch_size
//@include shim_py.rs
//@include py_count_lemmas.rs
pub struct Ext {
    /// the options, and the lines of the input file, parsed on reading: `pos` of them so far
    pub in_file: int, pub bs: int, pub per_sentence: bool, pub taxonomy: bool,
    pub docs: Seq<(Seq<PV>, Map<PV, PV>)>, pub pos: int,
    /// the batches handed to the classifier
    pub calls: Seq<Seq<int>>,
    /// where the profanity labels are kept
    pub pdict: int,
    /// raw lines and what a generator yielded
    pub lines: Seq<int>, pub lpos: int, pub yielded: Seq<PV>,
}
pub open spec fn G_DATA() -> int { 20 }
pub open spec fn G_FILE() -> int { 21 }
pub open spec fn G_MC() -> int { 22 }
pub open spec fn G_NLP() -> int { 23 }
pub open spec fn G_RE(k: int) -> int { 100 + k }
pub open spec fn G_TAXO() -> int { 24 }
pub open spec fn G_PARSER() -> int { 25 }
pub open spec fn G_ARGS() -> int { 26 }
pub open spec fn lazy_iter(w: PW, v: PV) -> bool { v == PV::Glob(G_DATA()) || v == PV::Glob(G_FILE()) }
pub open spec fn lazy_step(o: PW, n: PW, v: PV, r: Result<Option<V>, Exc>) -> bool {
    if v == PV::Glob(G_DATA()) {
        // reading and parsing may fail; a document is a dict of its own
        r is Ok ==> if o.ext.pos < o.ext.docs.len() {
            r->Ok_0 is Some && fresh(PW { ext: Ext { pos: o.ext.pos + 1, ..o.ext }, ..o }, n, r->Ok_0->Some_0@,
                Obj::Dict { ks: o.ext.docs[o.ext.pos].0, m: o.ext.docs[o.ext.pos].1, dflt: PV::None })
        } else { r->Ok_0 is None && n == o }
    } else {
        r is Ok ==> if o.ext.lpos < o.ext.lines.len() {
            r->Ok_0 is Some && n == (PW { ext: Ext { lpos: o.ext.lpos + 1, ..o.ext }, ..o }) && r->Ok_0->Some_0@ == PV::Str(o.ext.lines[o.ext.lpos])
        } else { r->Ok_0 is None && n == o }
    }
}

// ------------------------------------------------------------------ reading
pub uninterp spec fn json_of(line: int) -> PV;
#[verifier::external_body] pub fn c_gzip_open_2__encoding(f: &V, m: &V, e: &V, w: &mut World) -> (r: R)
    ensures r is Ok && f@ == PV::Str(old(w)@.ext.in_file) && m@ == S"rt" ==> final(w)@ == (PW { ext: Ext { lpos: 0, ..old(w)@.ext }, ..old(w)@ }) && r->Ok_0@ == PV::Glob(G_FILE()) { unimplemented!() }
#[verifier::external_body] pub fn c_open_2(f: &V, m: &V, w: &mut World) -> (r: R)
    ensures r is Ok && f@ == PV::Str(old(w)@.ext.in_file) && m@ == S"r" ==> final(w)@ == (PW { ext: Ext { lpos: 0, ..old(w)@.ext }, ..old(w)@ }) && r->Ok_0@ == PV::Glob(G_FILE()) { unimplemented!() }
#[verifier::external_body] pub fn op_enter(f: &V, w: &mut World) -> (r: R)
    ensures f@ == PV::Glob(G_FILE()) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == f@ { unimplemented!() }
#[verifier::external_body] pub fn op_exit(f: &V, w: &mut World) -> (r: R)
    ensures f@ == PV::Glob(G_FILE()) ==> r is Ok && final(w)@ == old(w)@ { unimplemented!() }
#[verifier::external_body] pub fn c_json_loads_1(s: &V, w: &mut World) -> (r: R)
    ensures s@ is Str && r is Ok ==> final(w)@ == old(w)@ && r->Ok_0@ == json_of(s@->Str_0) { unimplemented!() }
#[verifier::external_body] pub fn op_yield(x: &V, w: &mut World) -> (r: R)
    ensures r is Ok ==> final(w)@ == (PW { ext: Ext { yielded: old(w)@.ext.yielded.push(x@), ..old(w)@.ext }, ..old(w)@ }) { unimplemented!() }

/// one value per line, in order, each line parsed
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
pub fn read_gz(in_file: &V, w: &mut World) -> (r: R)
    requires in_file@ == PV::Str(old(w)@.ext.in_file), old(w)@.ext.yielded.len() == 0
    ensures r is Ok ==> final(w)@.ext.yielded =~= Seq::new(old(w)@.ext.lines.len(), |i: int| json_of(old(w)@.ext.lines[i])), // [C33]
{
/*@pybody
@file wimbd/utils/utils.py
@item read_json_gz_file
@params in_file
@generator
@locals f line
@start
    let ghost g_lines = w@.ext.lines;
@loop 0
    invariant __it0@ == PV::Glob(G_FILE()), w@.ext.lines == g_lines, 0 <= w@.ext.lpos <= g_lines.len(), f@ == PV::Glob(G_FILE()),
        w@.ext.yielded =~= Seq::new(w@.ext.lpos as nat, |i: int| json_of(g_lines[i])),
    ensures w@.ext.lpos == g_lines.len()
    decreases g_lines.len() - w@.ext.lpos
@*/
}

// ------------------------------------------------------------------ documents and predictions
/// a document as the map steps see it: its text
pub open spec fn text_of(d: (Seq<PV>, Map<PV, PV>)) -> PV { d.1[S"text"] }
pub open spec fn doc_ok(d: (Seq<PV>, Map<PV, PV>)) -> bool { d.1.dom().contains(S"text") && (text_of(d) is None || text_of(d) is Str) }
pub open spec fn blank(d: (Seq<PV>, Map<PV, PV>)) -> bool { text_of(d) is None || text_of(d)->Str_0 == 0 || stripped(text_of(d)->Str_0) == 0 }
pub open spec fn long(d: (Seq<PV>, Map<PV, PV>)) -> bool { !blank(d) && str_len(text_of(d)->Str_0) > 99999 }
pub type Docs = Seq<(Seq<PV>, Map<PV, PV>)>;
/// the texts that have to reach the classifier, in order
pub open spec fn elig(s: Docs) -> Seq<int> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if blank(s.last()) || long(s.last()) { elig(s.drop_last()) } else { elig(s.drop_last()).push(text_of(s.last())->Str_0) }
}
/// one record for every document that is too long
pub open spec fn longs(s: Docs) -> Seq<Rec> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if long(s.last()) { longs(s.drop_last()).push(Some((S"long"->Str_0, 1))) } else { longs(s.drop_last()) }
}
pub type Pred = spec_fn(int) -> Seq<int>;
/// the predictions for these texts, one text after the other
pub open spec fn preds_of(f: Pred, s: Seq<int>) -> Seq<int> decreases s.len() { if s.len() == 0 { Seq::empty() } else { preds_of(f, s.drop_last()) + f(s.last()) } }
pub open spec fn ones(s: Seq<int>) -> Seq<Rec> { Seq::new(s.len(), |i: int| Some((s[i], 1))) }
pub open spec fn concat(c: Seq<Seq<int>>) -> Seq<int> decreases c.len() { if c.len() == 0 { Seq::empty() } else { concat(c.drop_last()) + c.last() } }
/// every record that has to be counted
pub open spec fn doc_recs(f: Pred, s: Docs) -> Seq<Rec> { longs(s) + ones(preds_of(f, elig(s))) }
pub open spec fn texts(s: Seq<PV>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i]->Str_0) }
pub open spec fn all_str(s: Seq<PV>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Str }
/// the same keys and the same totals
pub open spec fn same_counts(a: Seq<Rec>, b: Seq<Rec>) -> bool {
    &&& forall|k: int| #[trigger] total(a, k) == total(b, k)
    &&& forall|k: int| #[trigger] has_key(a, k) == has_key(b, k)
}
pub open spec fn pairs(ks: Seq<PV>, m: Map<PV, PV>, n: int) -> Seq<Seq<PV>> { Seq::new(n as nat, |i: int| seq![ks[i], m[ks[i]]]) }
/// the printed lines `p` are one line for every key of the records, with its total
pub open spec fn listed(p: Seq<Seq<PV>>, s: Seq<Rec>) -> bool {
    exists|ks: Seq<PV>, m: Map<PV, PV>, t: Seq<Rec>| #[trigger] counted(ks, m, t) && #[trigger] same_counts(t, s) && p =~= pairs(ks, m, ks.len() as int)
}
pub open spec fn printed(a: Seq<Seq<PV>>, b: Seq<Seq<PV>>, s: Seq<Rec>) -> bool {
    a.len() <= b.len() && b.take(a.len() as int) =~= a && listed(b.skip(a.len() as int), s)
}
/// nothing but new objects
pub open spec fn grown(a: Map<int, Obj>, b: Map<int, Obj>) -> bool { forall|i: int| #![trigger a.dom().contains(i)] #![trigger b.dom().contains(i)] #![trigger b[i]] a.dom().contains(i) ==> b.dom().contains(i) && b[i] == a[i] }
/// nothing but new objects, and changes of these two
pub open spec fn grown_but(a: Map<int, Obj>, b: Map<int, Obj>, x: int, y: int) -> bool {
    forall|i: int| #![trigger a.dom().contains(i)] #![trigger b.dom().contains(i)] #![trigger b[i]] a.dom().contains(i) && i != x && i != y ==> b.dom().contains(i) && b[i] == a[i]
}

// ------------------------------------------------------------------ lemmas
pub proof fn lemma_preds_add(f: Pred, a: Seq<int>, b: Seq<int>)
    ensures preds_of(f, a + b) =~= preds_of(f, a) + preds_of(f, b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); lemma_preds_add(f, a, b.drop_last()); }
}
pub proof fn lemma_total_add(a: Seq<Rec>, b: Seq<Rec>)
    ensures forall|k: int| #[trigger] total(a + b, k) == total(a, k) + total(b, k), forall|k: int| #[trigger] has_key(a + b, k) == (has_key(a, k) || has_key(b, k))
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert forall|k: int| !has_key(b, k) by {}
    } else {
        lemma_total_add(a, b.drop_last());
        lemma_total_push(a + b.drop_last(), b.last());
        lemma_total_push(b.drop_last(), b.last());
        assert((a + b.drop_last()).push(b.last()) =~= a + b);
        assert(b.drop_last().push(b.last()) =~= b);
    }
}
/// the records of the batches so far and of the long documents so far, counted in whatever order they came
pub open spec fn upto(t: Seq<Rec>, f: Pred, d: Docs, done: Seq<int>) -> bool { same_counts(t, longs(d) + ones(preds_of(f, done))) }
pub proof fn lemma_upto_batch(t: Seq<Rec>, f: Pred, d: Docs, done: Seq<int>, b: Seq<int>)
    requires upto(t, f, d, done)
    ensures upto(t + ones(preds_of(f, b)), f, d, done + b)
{
    lemma_preds_add(f, done, b);
    assert(ones(preds_of(f, done + b)) =~= ones(preds_of(f, done)) + ones(preds_of(f, b)));
    assert(longs(d) + ones(preds_of(f, done + b)) =~= (longs(d) + ones(preds_of(f, done))) + ones(preds_of(f, b)));
    lemma_total_add(t, ones(preds_of(f, b)));
    lemma_total_add(longs(d) + ones(preds_of(f, done)), ones(preds_of(f, b)));
}
pub proof fn lemma_upto_doc(t: Seq<Rec>, f: Pred, ds: Docs, n: int, done: Seq<int>)
    requires upto(t, f, ds.take(n), done), 0 <= n < ds.len()
    ensures
        long(ds[n]) ==> upto(t.push(Some((S"long"->Str_0, 1))), f, ds.take(n + 1), done),
        !long(ds[n]) ==> upto(t, f, ds.take(n + 1), done),
        elig(ds.take(n + 1)) == (if blank(ds[n]) || long(ds[n]) { elig(ds.take(n)) } else { elig(ds.take(n)).push(text_of(ds[n])->Str_0) }),
{
    assert(ds.take(n + 1).drop_last() =~= ds.take(n));
    let r: Rec = Some((S"long"->Str_0, 1));
    lemma_total_push(t, r);
    lemma_total_push(longs(ds.take(n)), r);
    lemma_total_add(longs(ds.take(n)), ones(preds_of(f, done)));
    lemma_total_add(longs(ds.take(n)).push(r), ones(preds_of(f, done)));
}
pub proof fn lemma_concat_push(c: Seq<Seq<int>>, x: Seq<int>)
    ensures concat(c.push(x)) == concat(c) + x { assert(c.push(x).drop_last() =~= c); }
/// what is counted is settled by the documents: two batch sizes print the same keys with the same totals
pub proof fn theorem_batch_size(p: Seq<Seq<PV>>, q: Seq<Seq<PV>>, s: Seq<Rec>, k: int)
    requires listed(p, s), listed(q, s), has_key(s, k)
    ensures
        exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == seq![PV::Str(k), PV::Int(total(s, k))],
        exists|i: int| 0 <= i < q.len() && #[trigger] q[i] == seq![PV::Str(k), PV::Int(total(s, k))],
{
    lemma_listed(p, s, k);
    lemma_listed(q, s, k);
}
pub proof fn lemma_listed(p: Seq<Seq<PV>>, s: Seq<Rec>, k: int)
    requires listed(p, s), has_key(s, k)
    ensures exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == seq![PV::Str(k), PV::Int(total(s, k))]
{
    let (ks, m, t) = choose|ks: Seq<PV>, m: Map<PV, PV>, t: Seq<Rec>| #[trigger] counted(ks, m, t) && #[trigger] same_counts(t, s) && p =~= pairs(ks, m, ks.len() as int);
    assert(has_key(t, k));
    assert(m.dom().contains(PV::Str(k)));
    assert(ks.contains(PV::Str(k)));
    let i = choose|i: int| 0 <= i < ks.len() && ks[i] == PV::Str(k);
    assert(total(t, k) == total(s, k));
    assert(p[i] == seq![PV::Str(k), PV::Int(total(s, k))]);
}

// ------------------------------------------------------------------ options
#[verifier::external_body] pub fn c_argparse_ArgumentParser_1(x: &V, w: &mut World) -> (r: R) ensures r is Ok ==> final(w)@ == old(w)@ && r->Ok_0@ == PV::Glob(G_PARSER()) { unimplemented!() }
#[verifier::external_body] pub fn m_add_argument_1__type(p: &V, n: &V, t: &V, w: &mut World) -> (r: R) ensures r is Ok && p@ == PV::Glob(G_PARSER()) ==> final(w)@ == old(w)@ { unimplemented!() }
#[verifier::external_body] pub fn m_add_argument_1__default_type(p: &V, n: &V, d: &V, t: &V, w: &mut World) -> (r: R) ensures r is Ok && p@ == PV::Glob(G_PARSER()) ==> final(w)@ == old(w)@ { unimplemented!() }
#[verifier::external_body] pub fn m_add_argument_1__choices_default_type(p: &V, n: &V, c: &V, d: &V, t: &V, w: &mut World) -> (r: R) ensures r is Ok && p@ == PV::Glob(G_PARSER()) ==> final(w)@ == old(w)@ { unimplemented!() }
#[verifier::external_body] pub fn m_add_argument_1__action_default(p: &V, n: &V, a: &V, d: &V, w: &mut World) -> (r: R) ensures r is Ok && p@ == PV::Glob(G_PARSER()) ==> final(w)@ == old(w)@ { unimplemented!() }
#[verifier::external_body] pub fn m_parse_args_0(p: &V, w: &mut World) -> (r: R) ensures r is Ok && p@ == PV::Glob(G_PARSER()) ==> final(w)@ == old(w)@ && r->Ok_0@ == PV::Glob(G_ARGS()) { unimplemented!() }
#[verifier::external_body] pub fn a_in_file(a: &V, w: &mut World) -> (r: R) ensures a@ == PV::Glob(G_ARGS()) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Str(old(w)@.ext.in_file) { unimplemented!() }
#[verifier::external_body] pub fn a_bs(a: &V, w: &mut World) -> (r: R) ensures a@ == PV::Glob(G_ARGS()) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Int(old(w)@.ext.bs) { unimplemented!() }
#[verifier::external_body] pub fn a_per_sentence(a: &V, w: &mut World) -> (r: R) ensures a@ == PV::Glob(G_ARGS()) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Bool(old(w)@.ext.per_sentence) { unimplemented!() }
#[verifier::external_body] pub fn a_model(a: &V, w: &mut World) -> (r: R) ensures a@ == PV::Glob(G_ARGS()) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == (if old(w)@.ext.taxonomy { S"taxonomy" } else { S"model" }) { unimplemented!() }
#[verifier::external_body] pub fn gv_str(w: &mut World) -> (r: V) ensures final(w)@ == old(w)@ { unimplemented!() }
#[verifier::external_body] pub fn gv_argparse_BooleanOptionalAction(w: &mut World) -> (r: V) ensures final(w)@ == old(w)@ { unimplemented!() }
#[verifier::external_body] pub fn c_read_json_gz_file_1(f: &V, w: &mut World) -> (r: R)
    ensures f@ == PV::Str(old(w)@.ext.in_file) ==> r is Ok && final(w)@ == (PW { ext: Ext { pos: 0, ..old(w)@.ext }, ..old(w)@ }) && r->Ok_0@ == PV::Glob(G_DATA()) { unimplemented!() }
#[verifier::external_body] pub fn gv_model_classification(w: &mut World) -> (r: V) ensures final(w)@ == old(w)@, r@ == PV::Glob(G_MC()) { unimplemented!() }

// ------------------------------------------------------------------ the classifiers
pub open spec fn lang_pred() -> Pred { |t: int| language_of(t) }
/// what cld2 says: reliable or not, and the name of the first language; None where it refuses the text
pub uninterp spec fn detected(t: int) -> Option<(bool, int)>;
pub open spec fn language_of(t: int) -> Seq<int> {
    if detected(t) is None { Seq::empty() } else if detected(t)->Some_0.0 { seq![detected(t)->Some_0.1] } else { seq![S"un"->Str_0] }
}
#[verifier::external_body] pub fn c_cld2_detect_1(t: &V, w: &mut World) -> (r: R)
    ensures t@ is Str ==> final(w)@ == old(w)@
        && (r is Err && exc_sub(r->Err_0@, X"cld2.error") ==> detected(t@->Str_0) is None)
        && (r is Ok ==> detected(t@->Str_0) is Some && detection(r->Ok_0@, detected(t@->Str_0)->Some_0)) { unimplemented!() }
pub open spec fn detection(v: PV, d: (bool, int)) -> bool {
    v is Tup && v->Tup_0.len() == 3 && v->Tup_0[0] == PV::Bool(d.0) && v->Tup_0[2] is Tup && v->Tup_0[2]->Tup_0.len() >= 1
        && v->Tup_0[2]->Tup_0[0] is Tup && v->Tup_0[2]->Tup_0[0]->Tup_0.len() >= 2 && v->Tup_0[2]->Tup_0[0]->Tup_0[1] == PV::Str(d.1)
}
/// a classifier's result: a new list with the predictions, nothing else changed
pub open spec fn classified(o: PW, n: PW, batch: Seq<int>, f: Pred, r: PV) -> bool {
    &&& r is Ref && !o.heap.dom().contains(r->Ref_0) && is_list(n, r) && lst(n, r) =~= strs(preds_of(f, batch))
    &&& grown(o.heap, n.heap)
    &&& n == (PW { heap: n.heap, ..o })
}
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
pub fn language_classify(batched_inputs: &V, w: &mut World) -> (r: R)
    requires is_list(old(w)@, batched_inputs@), all_str(lst(old(w)@, batched_inputs@))
    ensures r is Ok ==> classified(old(w)@, final(w)@, texts(lst(old(w)@, batched_inputs@)), lang_pred(), r->Ok_0@), // [C33]
{
/*@pybody
@file wimbd/language/map_count.py
@item model_classification
@params batched_inputs
@locals predictions text_input is_reliable _u details pred
@start
    let ghost g_w = w@;
    let ghost g_b = lst(w@, batched_inputs@);
    let ghost g_f = lang_pred();
@pre 0
    let ghost g_it = __it0@->Ref_0;
    proof { assert(texts(g_b.take(0)) =~= Seq::<int>::empty()); }
@loop 0
    invariant
        is_iter(w@, __it0@), __it0@ == PV::Ref(g_it), w@.heap[g_it]->src == batched_inputs@->Ref_0, 0 <= w@.heap[g_it]->pos <= g_b.len(),
        is_list(w@, predictions@), lst(w@, predictions@) =~= strs(preds_of(g_f, texts(g_b.take(w@.heap[g_it]->pos)))),
        !g_w.heap.dom().contains(predictions@->Ref_0), !g_w.heap.dom().contains(g_it), grown(g_w.heap, w@.heap), predictions@->Ref_0 != g_it,
        w@ == (PW { heap: w@.heap, ..g_w }),
    ensures w@.heap[g_it]->pos == g_b.len()
    decreases g_b.len() - w@.heap[g_it]->pos
@top 0
    let ghost g_n = w@.heap[g_it]->pos - 1;
    proof {
        assert(texts(g_b.take(g_n + 1)) =~= texts(g_b.take(g_n)).push(g_b[g_n]->Str_0));
        assert(texts(g_b.take(g_n + 1)).drop_last() =~= texts(g_b.take(g_n)));
        assert(preds_of(g_f, texts(g_b.take(g_n + 1))) =~= preds_of(g_f, texts(g_b.take(g_n))) + language_of(g_b[g_n]->Str_0));
    }
@end
    proof { assert(g_b.take(g_b.len() as int) =~= g_b); }
@*/
}
#[verifier::external_body] pub fn op_call1(f: &V, b: &V, w: &mut World) -> (r: R)
    ensures f@ == PV::Glob(G_MC()) && r is Ok && is_list(old(w)@, b@) && all_str(lst(old(w)@, b@)) ==>
        called(old(w)@, final(w)@, texts(lst(old(w)@, b@)), lang_pred(), r->Ok_0@) { unimplemented!() }
/// a call of the classifier from main: its contract, and the batch is logged
pub open spec fn called(o: PW, n: PW, batch: Seq<int>, f: Pred, r: PV) -> bool {
    classified(o, PW { ext: Ext { calls: o.ext.calls, ..n.ext }, ..n }, batch, f, r) && n.ext.calls == o.ext.calls.push(batch)
}

// ------------------------------------------------------------------ profanity
/// what profanity_check says of one text (0 or 1), and spaCy's sentences of a text
pub uninterp spec fn profane(t: int) -> int;
#[verifier::external_body] pub broadcast proof fn axiom_profane(t: int) ensures #[trigger] profane(t) == 0 || profane(t) == 1 {}
pub uninterp spec fn sentences(t: int) -> Seq<int>;
pub open spec fn label(p: int) -> int { if p == 1 { S"profane"->Str_0 } else { S"not profane"->Str_0 } }
pub open spec fn doc_profane(per_sentence: bool, t: int) -> int {
    if per_sentence { if exists|i: int| 0 <= i < sentences(t).len() && #[trigger] profane(sentences(t)[i]) != 0 { 1 } else { 0 } } else { profane(t) }
}
pub open spec fn prof_pred(per_sentence: bool) -> Pred { |t: int| seq![label(doc_profane(per_sentence, t))] }
pub open spec fn pdict_ok(w: PW, v: PV) -> bool {
    is_dict(w, v) && dm(w, v).dom().contains(PV::Int(0)) && dm(w, v).dom().contains(PV::Int(1)) && dm(w, v)[PV::Int(0)] == S"not profane" && dm(w, v)[PV::Int(1)] == S"profane"
}
pub open spec fn marks(s: Seq<int>) -> Seq<PV> { Seq::new(s.len(), |i: int| PV::Int(profane(s[i]))) }
#[verifier::external_body] pub fn c_predict_profanity_1(b: &V, w: &mut World) -> (r: R)
    ensures is_list(old(w)@, b@) && all_str(lst(old(w)@, b@)) && r is Ok ==> fresh(old(w)@, final(w)@, r->Ok_0@, Obj::List(marks(texts(lst(old(w)@, b@))))) { unimplemented!() }
#[verifier::external_body] pub fn c_split_in_sentences_1(t: &V, w: &mut World) -> (r: R)
    ensures t@ is Str && r is Ok ==> fresh(old(w)@, final(w)@, r->Ok_0@, Obj::List(strs(sentences(t@->Str_0)))) { unimplemented!() }
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
pub fn profanity_classify(batched_inputs: &V, taxonomy_dic: &V, per_sentence: &V, w: &mut World) -> (r: R)
    requires is_list(old(w)@, batched_inputs@), all_str(lst(old(w)@, batched_inputs@)), pdict_ok(old(w)@, taxonomy_dic@), per_sentence@ is Bool
    ensures r is Ok ==> classified(old(w)@, final(w)@, texts(lst(old(w)@, batched_inputs@)), prof_pred(per_sentence@->Bool_0), r->Ok_0@), // [C33]
{
/*@pybody
@file wimbd/profanity/map_count.py
@item model_classification
@params batched_inputs taxonomy_dic per_sentence
@locals predictions text_input sentences_l doc_preds labeled_predictions
@start
    broadcast use axiom_profane;
    let ghost g_w = w@;
    let ghost g_b = lst(w@, batched_inputs@);
    let ghost g_ps = per_sentence@->Bool_0;
    let ghost g_f = prof_pred(g_ps);
    let ghost g_m = Seq::new(g_b.len(), |i: int| PV::Int(doc_profane(g_ps, g_b[i]->Str_0)));
@pre 0
    let ghost g_it = __it0@->Ref_0;
@loop 0
    invariant
        is_iter(w@, __it0@), __it0@ == PV::Ref(g_it), w@.heap[g_it]->src == batched_inputs@->Ref_0, 0 <= w@.heap[g_it]->pos <= g_b.len(),
        is_list(w@, predictions@), lst(w@, predictions@) =~= g_m.take(w@.heap[g_it]->pos),
        !g_w.heap.dom().contains(predictions@->Ref_0), !g_w.heap.dom().contains(g_it), grown(g_w.heap, w@.heap), predictions@->Ref_0 != g_it,
        w@ == (PW { heap: w@.heap, ..g_w }),
    ensures w@.heap[g_it]->pos == g_b.len()
    decreases g_b.len() - w@.heap[g_it]->pos
@top 0
    broadcast use axiom_profane;
    let ghost g_n = w@.heap[g_it]->pos - 1;
    let ghost g_s = sentences(g_b[g_n]->Str_0);
    proof {
        assert(texts(strs(g_s)) =~= g_s);
        assert(forall|i: int| 0 <= i < g_s.len() ==> (#[trigger] marks(g_s)[i]) == PV::Int(profane(g_s[i])));
        assert((exists|i: int| 0 <= i < g_s.len() && #[trigger] profane(g_s[i]) != 0) == (exists|i: int| 0 <= i < marks(g_s).len() && (#[trigger] marks(g_s)[i])->Int_0 != 0)) by {
            if exists|i: int| 0 <= i < g_s.len() && #[trigger] profane(g_s[i]) != 0 {
                let i = choose|i: int| 0 <= i < g_s.len() && #[trigger] profane(g_s[i]) != 0;
                assert(marks(g_s)[i]->Int_0 != 0);
            }
        }
    }
@bottom 0
    proof { assert(g_m.take(g_n + 1) =~= g_m.take(g_n).push(g_m[g_n])); }
@pre 1
    let ghost g_it1 = __it1@->Ref_0;
    let ghost g_w1 = w@;
    proof {
        assert(g_m.take(g_b.len() as int) =~= g_m);
        assert(lst(w@, predictions@) =~= g_m);
        assert(preds_of(g_f, texts(g_b.take(0))) =~= Seq::<int>::empty());
    }
@loop 1
    invariant
        is_iter(w@, __it1@), __it1@ == PV::Ref(g_it1), w@.heap[g_it1]->src == predictions@->Ref_0, 0 <= w@.heap[g_it1]->pos <= g_b.len(),
        is_list(w@, __acc1@), lst(w@, __acc1@) =~= strs(preds_of(g_f, texts(g_b.take(w@.heap[g_it1]->pos)))),
        !g_w.heap.dom().contains(__acc1@->Ref_0), !g_w.heap.dom().contains(g_it1), __acc1@->Ref_0 != g_it1, predictions@->Ref_0 != g_it1, predictions@->Ref_0 != __acc1@->Ref_0,
        grown(g_w.heap, w@.heap), w@.heap.dom().contains(predictions@->Ref_0), w@.heap[predictions@->Ref_0] == Obj::List(g_m),
        w@ == (PW { heap: w@.heap, ..g_w }),
    ensures w@.heap[g_it1]->pos == g_b.len()
    decreases g_b.len() - w@.heap[g_it1]->pos
@top 1
    broadcast use axiom_profane;
    let ghost g_n1 = w@.heap[g_it1]->pos - 1;
    proof {
        assert(texts(g_b.take(g_n1 + 1)) =~= texts(g_b.take(g_n1)).push(g_b[g_n1]->Str_0));
        assert(texts(g_b.take(g_n1 + 1)).drop_last() =~= texts(g_b.take(g_n1)));
        assert(preds_of(g_f, texts(g_b.take(g_n1 + 1))) =~= preds_of(g_f, texts(g_b.take(g_n1))) + g_f(g_b[g_n1]->Str_0));
        assert(g_f(g_b[g_n1]->Str_0) =~= seq![label(doc_profane(g_ps, g_b[g_n1]->Str_0))]);
        assert(g_m[g_n1] == PV::Int(doc_profane(g_ps, g_b[g_n1]->Str_0)));
    }
@post 1
    proof { assert(g_b.take(g_b.len() as int) =~= g_b); }
@*/
}
/// how often a pattern is found in a text
pub uninterp spec fn found(re: int, t: int) -> nat;
pub open spec fn G_HARMLESS() -> int { 101 }
pub open spec fn G_MIN() -> int { 102 }
pub open spec fn G_NOTMIN() -> int { 103 }
pub open spec fn copies(s: int, n: nat) -> Seq<int> { Seq::new(n, |i: int| s) }
pub open spec fn taxonomy_of(t: int) -> Seq<int> {
    seq![if found(G_MIN(), t) == 0 && found(G_NOTMIN(), t) == 0 { S"not profane"->Str_0 } else { S"profane"->Str_0 }]
        + copies(S"offensive-minority-reference"->Str_0, found(G_MIN(), t)) + copies(S"offensive-not-minority"->Str_0, found(G_NOTMIN(), t))
        + copies(S"harmless-minority"->Str_0, found(G_HARMLESS(), t))
}
pub open spec fn taxo_pred() -> Pred { |t: int| taxonomy_of(t) }
#[verifier::external_body] pub fn gv_harmless_re(w: &mut World) -> (r: V) ensures final(w)@ == old(w)@, r@ == PV::Glob(G_HARMLESS()) { unimplemented!() }
#[verifier::external_body] pub fn gv_offensive_min_re(w: &mut World) -> (r: V) ensures final(w)@ == old(w)@, r@ == PV::Glob(G_MIN()) { unimplemented!() }
#[verifier::external_body] pub fn gv_offensive_not_min_re(w: &mut World) -> (r: V) ensures final(w)@ == old(w)@, r@ == PV::Glob(G_NOTMIN()) { unimplemented!() }
#[verifier::external_body] pub fn m_findall_1(re: &V, t: &V, w: &mut World) -> (r: R)
    ensures re@ is Glob && t@ is Str && r is Ok ==> r->Ok_0@ is Ref && !old(w)@.heap.dom().contains(r->Ok_0@->Ref_0) && is_list(final(w)@, r->Ok_0@)
        && lst(final(w)@, r->Ok_0@).len() == found(re@->Glob_0, t@->Str_0) && final(w)@ == put(old(w)@, r->Ok_0@, final(w)@.heap[r->Ok_0@->Ref_0]) { unimplemented!() }
//@macro COPIES(N, VAR, TEXT, RE)
@pre ${N}
    let ghost g_it${N} = __it${N}@->Ref_0;
    let ghost g_w${N} = w@;
    let ghost g_l${N} = lst(w@, preds@);
    proof { assert(g_l${N} + strs(copies(${TEXT}, 0)) =~= g_l${N}); }
@loop ${N}
    invariant
        is_iter(w@, __it${N}@), __it${N}@ == PV::Ref(g_it${N}), w@.heap[g_it${N}]->src == ${VAR}@->Ref_0, ${VAR}@->Ref_0 != g_it${N},
        is_list(w@, ${VAR}@), ${VAR}@->Ref_0 != preds@->Ref_0, lst(w@, ${VAR}@) == lst(g_w${N}, ${VAR}@), preds@->Ref_0 != g_it${N},
        0 <= w@.heap[g_it${N}]->pos <= lst(g_w${N}, ${VAR}@).len(),
        is_list(w@, preds@), lst(w@, preds@) =~= g_l${N} + strs(copies(${TEXT}, w@.heap[g_it${N}]->pos as nat)),
        grown_but(g_w${N}.heap, w@.heap, preds@->Ref_0, g_it${N}), w@ == (PW { heap: w@.heap, ..g_w${N} }),
    ensures w@.heap[g_it${N}]->pos == lst(g_w${N}, ${VAR}@).len()
    decreases lst(g_w${N}, ${VAR}@).len() - w@.heap[g_it${N}]->pos
//@endmacro
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(80)]
pub fn profanity_taxonomy(batched_inputs: &V, taxonomy_dic: &V, per_sentence: &V, w: &mut World) -> (r: R)
    requires is_list(old(w)@, batched_inputs@), all_str(lst(old(w)@, batched_inputs@))
    ensures r is Ok ==> classified(old(w)@, final(w)@, texts(lst(old(w)@, batched_inputs@)), taxo_pred(), r->Ok_0@), // [C33]
{
/*@pybody
@file wimbd/profanity/map_count.py
@item taxonomy_classification
@params batched_inputs taxonomy_dic per_sentence
@locals preds text_input hamless_matches offensive_min_matches offensive_not_min_matches _u
@start
    let ghost g_w = w@;
    let ghost g_b = lst(w@, batched_inputs@);
    let ghost g_f = taxo_pred();
@pre 0
    let ghost g_it = __it0@->Ref_0;
    proof { assert(preds_of(g_f, texts(g_b.take(0))) =~= Seq::<int>::empty()); }
@loop 0
    invariant
        is_iter(w@, __it0@), __it0@ == PV::Ref(g_it), w@.heap[g_it]->src == batched_inputs@->Ref_0, 0 <= w@.heap[g_it]->pos <= g_b.len(),
        is_list(w@, preds@), lst(w@, preds@) =~= strs(preds_of(g_f, texts(g_b.take(w@.heap[g_it]->pos)))),
        !g_w.heap.dom().contains(preds@->Ref_0), !g_w.heap.dom().contains(g_it), grown(g_w.heap, w@.heap), preds@->Ref_0 != g_it,
        w@ == (PW { heap: w@.heap, ..g_w }),
    ensures w@.heap[g_it]->pos == g_b.len()
    decreases g_b.len() - w@.heap[g_it]->pos
@top 0
    let ghost g_n = w@.heap[g_it]->pos - 1;
    let ghost g_t = g_b[g_n]->Str_0;
    proof {
        assert(texts(g_b.take(g_n + 1)) =~= texts(g_b.take(g_n)).push(g_t));
        assert(texts(g_b.take(g_n + 1)).drop_last() =~= texts(g_b.take(g_n)));
        assert(preds_of(g_f, texts(g_b.take(g_n + 1))) =~= preds_of(g_f, texts(g_b.take(g_n))) + taxonomy_of(g_t));
    }
@@COPIES(1 ;; offensive_min_matches ;; S"offensive-minority-reference"->Str_0 ;; G_MIN())
@@COPIES(2 ;; offensive_not_min_matches ;; S"offensive-not-minority"->Str_0 ;; G_NOTMIN())
@@COPIES(3 ;; hamless_matches ;; S"harmless-minority"->Str_0 ;; G_HARMLESS())
@post 3
    proof { assert(lst(w@, preds@) =~= strs(preds_of(g_f, texts(g_b.take(g_n))) + taxonomy_of(g_t))); }
@end
    proof { assert(g_b.take(g_b.len() as int) =~= g_b); }
@*/
}
#[verifier::external_body] pub fn gv_taxonomy_classification(w: &mut World) -> (r: V) ensures final(w)@ == old(w)@, r@ == PV::Glob(G_TAXO()) { unimplemented!() }
#[verifier::external_body] pub fn gv_profanity_dicts(w: &mut World) -> (r: V) ensures final(w)@ == old(w)@, r@ == PV::Ref(old(w)@.ext.pdict) { unimplemented!() }
#[verifier::external_body] pub fn c_load_taxonomy_0(w: &mut World) -> (r: R) ensures r is Ok ==> final(w)@ == old(w)@ { unimplemented!() }
#[verifier::external_body] pub fn c_English_0(w: &mut World) -> (r: R) ensures r is Ok ==> final(w)@ == old(w)@ && r->Ok_0@ == PV::Glob(G_NLP()) { unimplemented!() }
#[verifier::external_body] pub fn m_add_pipe_1(n: &V, x: &V, w: &mut World) -> (r: R) ensures r is Ok && n@ == PV::Glob(G_NLP()) ==> final(w)@ == old(w)@ { unimplemented!() }
#[verifier::external_body] pub fn set_max_length(n: &V, x: &V, w: &mut World) -> (r: R) ensures r is Ok && n@ == PV::Glob(G_NLP()) ==> final(w)@ == old(w)@ { unimplemented!() }
#[verifier::external_body] pub fn op_call3(f: &V, b: &V, d: &V, p: &V, w: &mut World) -> (r: R)
    ensures
        f@ == PV::Glob(G_MC()) && r is Ok && is_list(old(w)@, b@) && all_str(lst(old(w)@, b@)) && pdict_ok(old(w)@, d@) && p@ is Bool ==>
            called(old(w)@, final(w)@, texts(lst(old(w)@, b@)), prof_pred(p@->Bool_0), r->Ok_0@),
        f@ == PV::Glob(G_TAXO()) && r is Ok && is_list(old(w)@, b@) && all_str(lst(old(w)@, b@)) ==>
            called(old(w)@, final(w)@, texts(lst(old(w)@, b@)), taxo_pred(), r->Ok_0@) { unimplemented!() }
pub open spec fn prof_main_pred(e: Ext) -> Pred { if e.taxonomy { taxo_pred() } else { prof_pred(e.per_sentence) } }

// ------------------------------------------------------------------ the main functions
//@macro FLUSH(N, D)
@pre ${N}
    let ghost g_h${N} = w@;
    let ghost g_b${N} = lst(w@, preds@);
    let ghost g_t${N} = g_t;
    let ghost g_i${N} = __it${N}@->Ref_0;
    let ghost g_done${N} = concat(w@.ext.calls.drop_last());
    proof {
        let c = w@.ext.calls;
        lemma_concat_push(c.drop_last(), c.last());
        assert(c.drop_last().push(c.last()) =~= c);
        assert(c.drop_last() =~= g_c);
        assert(ones(texts(g_b${N}.take(0))) =~= Seq::<Rec>::empty());
        assert(g_t + ones(texts(g_b${N}.take(0))) =~= g_t);
    }
@loop ${N}
    invariant
        is_iter(w@, __it${N}@), __it${N}@ == PV::Ref(g_i${N}), w@.heap[g_i${N}]->src == preds@->Ref_0, 0 <= w@.heap[g_i${N}]->pos <= g_b${N}.len(),
        is_list(w@, preds@), lst(w@, preds@) == g_b${N}, all_str(g_b${N}), preds@->Ref_0 != g_i${N},
        is_dict(w@, val_dic@), dd(w@, val_dic@) == PV::Glob(G_INT()), w@.heap[val_dic@->Ref_0] == g_x, counted(g_x->ks, g_x->m, g_t),
        grown_but(g_h${N}.heap, w@.heap, val_dic@->Ref_0, g_i${N}),
        w@ == (PW { heap: w@.heap, ..g_h${N} }),
        g_t =~= g_t${N} + ones(texts(g_b${N}.take(w@.heap[g_i${N}]->pos))),
    ensures w@.heap[g_i${N}]->pos == g_b${N}.len()
    decreases g_b${N}.len() - w@.heap[g_i${N}]->pos
@bottom ${N}
    proof {
        let n = w@.heap[g_i${N}]->pos - 1;
        let r: Rec = Some((g_b${N}[n]->Str_0, 1));
        assert(ones(texts(g_b${N}.take(n + 1))) =~= ones(texts(g_b${N}.take(n))).push(r));
        lemma_counted_step(g_x, w@.heap[val_dic@->Ref_0], g_t, r);
        g_t = g_t.push(r);
        g_x = w@.heap[val_dic@->Ref_0];
        assert(g_t =~= g_t${N} + ones(texts(g_b${N}.take(n + 1))));
    }
@post ${N}
    proof {
        let b = w@.ext.calls.last();
        assert(g_b${N}.take(g_b${N}.len() as int) =~= g_b${N});
        assert(texts(g_b${N}) =~= preds_of(g_f, b));
        assert(g_t =~= g_t${N} + ones(preds_of(g_f, b)));
        lemma_upto_batch(g_t${N}, g_f, g_docs.take(w@.ext.pos - ${D}), g_done${N}, b);
    }
//@endmacro
//@macro MAIN(NAME, FILE, LOCALS, PRED, PREDICT, REQ, WORLD)
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub fn ${NAME}(w: &mut World) -> (r: R)
    requires
        old(w)@.ext.bs >= 1, forall|i: int| 0 <= i < old(w)@.ext.docs.len() ==> doc_ok(#[trigger] old(w)@.ext.docs[i]),
        old(w)@.ext.calls.len() == 0, ${REQ}
    ensures
        // the batches are the eligible documents' texts, one after the other, none twice and none left out
        r is Ok ==> concat(final(w)@.ext.calls) =~= elig(old(w)@.ext.docs), // [C33]
        // no batch is larger than asked for
        r is Ok ==> forall|i: int| 0 <= i < final(w)@.ext.calls.len() ==> (#[trigger] final(w)@.ext.calls[i]).len() <= old(w)@.ext.bs, // [C33]
        // every prediction is added up, and every long document counted
        r is Ok ==> printed(old(w)@.out, final(w)@.out, doc_recs(${PRED}, old(w)@.ext.docs)), // [C33]
{
/*@pybody
@file ${FILE}
@item main
@locals ${LOCALS}
@global nlp
@start
    broadcast use axiom_str_len;
    let ghost g_docs = w@.ext.docs;
    let ghost g_out = w@.out;
    let ghost g_bs = w@.ext.bs;
    let ghost g_e = w@.ext;
    let ghost g_f: Pred = ${PRED};
    let ghost mut g_t: Seq<Rec> = Seq::empty();
    let ghost mut g_c: Seq<Seq<int>> = Seq::empty();
    let ghost mut g_x: Obj = Obj::Dict { ks: Seq::empty(), m: Map::empty(), dflt: PV::Glob(G_INT()) };
@pre 0
    proof {
        assert(g_docs.take(0) =~= Seq::empty());
        assert(w@.heap[val_dic@->Ref_0] == g_x);
        assert(concat(w@.ext.calls) =~= Seq::<int>::empty());
        assert(concat(w@.ext.calls) + texts(lst(w@, inputs@)) =~= Seq::<int>::empty());
        assert(ones(preds_of(g_f, Seq::<int>::empty())) =~= Seq::<Rec>::empty());
        assert(longs(g_docs.take(0)) + ones(preds_of(g_f, Seq::<int>::empty())) =~= Seq::<Rec>::empty());
    }
@loop 0
    invariant
        ${WORLD}
        w@.out == g_out, w@.ext.docs == g_docs, w@.ext.bs == g_bs, 0 <= w@.ext.pos <= g_docs.len(),
        bs@ == PV::Int(g_bs), ${PREDICT}
        is_list(w@, inputs@), all_str(lst(w@, inputs@)), lst(w@, inputs@).len() <= g_bs,
        is_dict(w@, val_dic@), dd(w@, val_dic@) == PV::Glob(G_INT()), w@.heap[val_dic@->Ref_0] == g_x, counted(g_x->ks, g_x->m, g_t),
        concat(w@.ext.calls) + texts(lst(w@, inputs@)) =~= elig(g_docs.take(w@.ext.pos)),
        forall|i: int| 0 <= i < w@.ext.calls.len() ==> (#[trigger] w@.ext.calls[i]).len() <= g_bs,
        upto(g_t, g_f, g_docs.take(w@.ext.pos), concat(w@.ext.calls)),
    ensures w@.ext.pos == g_docs.len()
    decreases g_docs.len() - w@.ext.pos
@top 0
    broadcast use axiom_str_len;
    let ghost g_n = w@.ext.pos - 1;
    let ghost g_w0 = w@;
    proof { assert(doc_ok(g_docs[g_n])); g_c = w@.ext.calls; }
@bottom 0
    proof {
        assert(doc_ok(g_docs[g_n]));
        lemma_upto_doc(g_t, g_f, g_docs, g_n, concat(w@.ext.calls));
        if long(g_docs[g_n]) {
            lemma_counted_step(g_x, w@.heap[val_dic@->Ref_0], g_t, Some((S"long"->Str_0, 1)));
            g_t = g_t.push(Some((S"long"->Str_0, 1)));
            g_x = w@.heap[val_dic@->Ref_0];
        }
    }
@@FLUSH(1 ;; 1)
@post 0
    proof { assert(g_docs.take(w@.ext.pos) =~= g_docs); g_c = w@.ext.calls; }
@@FLUSH(2 ;; 0)
@pre 3
    let ghost g_w3 = w@;
    let ghost g_i3 = __it3@->Ref_0;
@loop 3
    invariant
        is_iter(w@, __it3@), __it3@ == PV::Ref(g_i3), w@.heap.dom().contains(w@.heap[g_i3]->src),
        w@.heap[w@.heap[g_i3]->src] == Obj::Items(val_dic@->Ref_0), w@.heap[g_i3]->len == g_x->ks.len(),
        is_dict(w@, val_dic@), w@.heap[val_dic@->Ref_0] == g_x,
        0 <= w@.heap[g_i3]->pos <= g_x->ks.len(), w@.ext == g_w3.ext,
        w@.out =~= g_out + pairs(g_x->ks, g_x->m, w@.heap[g_i3]->pos),
    ensures w@.heap[g_i3]->pos == g_x->ks.len()
    decreases g_x->ks.len() - w@.heap[g_i3]->pos
@bottom 3
    proof {
        let n = w@.heap[g_i3]->pos - 1;
        assert(pairs(g_x->ks, g_x->m, n + 1) =~= pairs(g_x->ks, g_x->m, n).push(seq![g_x->ks[n], g_x->m[g_x->ks[n]]]));
    }
@end
    proof {
        let p = pairs(g_x->ks, g_x->m, g_x->ks.len() as int);
        assert(concat(w@.ext.calls) =~= elig(g_docs));
        assert(same_counts(g_t, doc_recs(g_f, g_docs)));
        assert(w@.out.skip(g_out.len() as int) =~= p);
        assert(w@.out.take(g_out.len() as int) =~= g_out);
        assert(listed(p, doc_recs(g_f, g_docs)));
    }
@*/
}
//@endmacro
@@MAIN(language_main ;; wimbd/language/map_count.py ;; parser args data bs inputs predict val_dic row preds p k v ;; lang_pred() ;; predict@ == PV::Glob(G_MC()), ;; ;; __it0@ == PV::Glob(G_DATA()),)
@@MAIN(profanity_main ;; wimbd/profanity/map_count.py ;; parse args data bs inputs predict taxonomy_dic val_dic ind row preds p nlp k v ;; prof_main_pred(old(w)@.ext) ;; w@.ext.per_sentence == g_e.per_sentence, args@ == PV::Glob(G_ARGS()), predict@ == PV::Glob(if g_e.taxonomy { G_TAXO() } else { G_MC() }), !g_e.taxonomy ==> pdict_ok(w@, taxonomy_dic@), taxonomy_dic@ is Ref, taxonomy_dic@ != val_dic@, w@.heap.dom().contains(taxonomy_dic@->Ref_0), w@.heap[taxonomy_dic@->Ref_0] is Dict, ;; pdict_ok(old(w)@, PV::Ref(old(w)@.ext.pdict)), ;; is_enum(w@, __it0@), w@.heap[__it0@->Ref_0]->it == PV::Glob(G_DATA()), w@.heap[__it0@->Ref_0]->n >= 0,)

// ------------------------------------------------------------------ sentiment
/// what the sentiment model says of a batch: a number for every key
pub uninterp spec fn senti_ks(b: Seq<int>) -> Seq<PV>;
pub uninterp spec fn senti_m(b: Seq<int>) -> Map<PV, PV>;
#[verifier::external_body] pub broadcast proof fn axiom_senti(b: Seq<int>)
    ensures #![trigger senti_ks(b)] #![trigger senti_m(b)] forall|i: int| 0 <= i < senti_ks(b).len() ==> (#[trigger] senti_ks(b)[i]) is Str && senti_m(b).dom().contains(senti_ks(b)[i]) && senti_m(b)[senti_ks(b)[i]] is Flt {}
/// a table after the first n of these keys have been added to it
pub open spec fn add_keys(t: Map<PV, PV>, ks: Seq<PV>, m: Map<PV, PV>, n: int) -> Map<PV, PV> decreases n {
    if n <= 0 { t } else {
        let p = add_keys(t, ks, m, n - 1);
        p.insert(ks[n - 1], PV::Flt(flt_add(if p.dom().contains(ks[n - 1]) { p[ks[n - 1]] } else { PV::Flt(flt0()) }, m[ks[n - 1]])))
    }
}
/// the sums of every batch's numbers, per key
pub open spec fn tally(c: Seq<Seq<int>>) -> Map<PV, PV> decreases c.len() {
    if c.len() == 0 { Map::empty() } else { add_keys(tally(c.drop_last()), senti_ks(c.last()), senti_m(c.last()), senti_ks(c.last()).len() as int) }
}
/// `ks` lists the keys of `m`, each once, and the values are numbers
pub open spec fn keys_ok(ks: Seq<PV>, m: Map<PV, PV>) -> bool {
    &&& ks.no_duplicates()
    &&& forall|j: int| 0 <= j < ks.len() ==> (#[trigger] ks[j]) is Str && m.dom().contains(ks[j]) && m[ks[j]] is Flt
    &&& forall|k: PV| #[trigger] m.dom().contains(k) ==> ks.contains(k)
}
pub proof fn lemma_keys_step(x: Obj, y: Obj, k: PV, v: PV)
    requires x is Dict, y is Dict, keys_ok(x->ks, x->m), k is Str, v is Flt, y->ks =~= dput(x, k, v)->ks, y->m =~= dput(x, k, v)->m
    ensures keys_ok(y->ks, y->m)
{
    if x->m.dom().contains(k) { assert(x->ks.contains(k)); }
    assert forall|j: int| 0 <= j < y->ks.len() implies (#[trigger] y->ks[j]) is Str && y->m.dom().contains(y->ks[j]) && y->m[y->ks[j]] is Flt by {
        if y->ks[j] == k { } else { assert(y->ks[j] == x->ks[j]); }
    }
    assert(y->ks.no_duplicates()) by {
        if !x->m.dom().contains(k) {
            assert forall|j: int| 0 <= j < x->ks.len() implies x->ks[j] != k by { assert(x->m.dom().contains(x->ks[j])); }
        }
    }
    assert forall|q: PV| #[trigger] y->m.dom().contains(q) implies y->ks.contains(q) by {
        if q == k { if !x->m.dom().contains(k) { assert(y->ks[x->ks.len() as int] == k); } }
        else { assert(x->m.dom().contains(q)); let j = choose|j: int| 0 <= j < x->ks.len() && x->ks[j] == q; assert(y->ks[j] == q); }
    }
}
#[verifier::external_body] pub fn c_expand_demographics_0(w: &mut World) -> (r: R)
    ensures r is Ok ==> grown(old(w)@.heap, final(w)@.heap) && final(w)@ == (PW { heap: final(w)@.heap, ..old(w)@ }) { unimplemented!() }
#[verifier::external_body] pub fn op_call2(f: &V, b: &V, d: &V, w: &mut World) -> (r: R)
    ensures f@ == PV::Glob(G_MC()) && r is Ok && is_list(old(w)@, b@) && all_str(lst(old(w)@, b@)) ==> {
        let t = texts(lst(old(w)@, b@));
        &&& r->Ok_0@ is Ref && !old(w)@.heap.dom().contains(r->Ok_0@->Ref_0) && is_dict(final(w)@, r->Ok_0@)
        &&& dks(final(w)@, r->Ok_0@) == senti_ks(t) && dm(final(w)@, r->Ok_0@) == senti_m(t)
        &&& grown(old(w)@.heap, final(w)@.heap)
        &&& final(w)@ == (PW { heap: final(w)@.heap, ext: Ext { calls: old(w)@.ext.calls.push(t), ..old(w)@.ext }, ..old(w)@ })
    } { unimplemented!() }
/// the printed lines are one line for every key of the sums
pub open spec fn tallied(a: Seq<Seq<PV>>, b: Seq<Seq<PV>>, m: Map<PV, PV>) -> bool {
    exists|ks: Seq<PV>| #[trigger] keys_ok(ks, m) && b =~= a + pairs(ks, m, ks.len() as int)
}
//@macro SFLUSH(N)
@pre ${N}
    let ghost g_h${N} = w@;
    let ghost g_b${N} = w@.ext.calls.last();
    let ghost g_i${N} = __it${N}@->Ref_0;
    let ghost g_m${N} = g_x->m;
    proof {
        let c = w@.ext.calls;
        lemma_concat_push(c.drop_last(), c.last());
        assert(c.drop_last().push(c.last()) =~= c);
        assert(c.drop_last() =~= g_c);
    }
@loop ${N}
    invariant
        is_iter(w@, __it${N}@), __it${N}@ == PV::Ref(g_i${N}), w@.heap.dom().contains(w@.heap[g_i${N}]->src), w@.heap[w@.heap[g_i${N}]->src] == Obj::Items(preds@->Ref_0),
        w@.heap[g_i${N}]->len == senti_ks(g_b${N}).len(), 0 <= w@.heap[g_i${N}]->pos <= senti_ks(g_b${N}).len(),
        is_dict(w@, preds@), dks(w@, preds@) == senti_ks(g_b${N}), dm(w@, preds@) == senti_m(g_b${N}),
        is_dict(w@, val_dic@), dd(w@, val_dic@) == PV::Glob(G_FLOAT()), w@.heap[val_dic@->Ref_0] == g_x, keys_ok(g_x->ks, g_x->m), preds@ != val_dic@,
        grown_but(g_h${N}.heap, w@.heap, val_dic@->Ref_0, g_i${N}), w@ == (PW { heap: w@.heap, ..g_h${N} }),
        g_x->m =~= add_keys(g_m${N}, senti_ks(g_b${N}), senti_m(g_b${N}), w@.heap[g_i${N}]->pos),
    ensures w@.heap[g_i${N}]->pos == senti_ks(g_b${N}).len()
    decreases senti_ks(g_b${N}).len() - w@.heap[g_i${N}]->pos
@top ${N}
    broadcast use axiom_senti;
@bottom ${N}
    proof {
        let n = w@.heap[g_i${N}]->pos - 1;
        let k = senti_ks(g_b${N})[n];
        let v = PV::Flt(flt_add(if g_x->m.dom().contains(k) { g_x->m[k] } else { PV::Flt(flt0()) }, senti_m(g_b${N})[k]));
        if g_x->m.dom().contains(k) { assert(g_x->ks.contains(k)); }
        lemma_keys_step(g_x, w@.heap[val_dic@->Ref_0], k, v);
        g_x = w@.heap[val_dic@->Ref_0];
    }
//@endmacro
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub fn sentiment_main(w: &mut World) -> (r: R)
    requires
        old(w)@.ext.bs >= 1, forall|i: int| 0 <= i < old(w)@.ext.docs.len() ==> doc_ok(#[trigger] old(w)@.ext.docs[i]),
        old(w)@.ext.calls.len() == 0,
    ensures
        r is Ok ==> concat(final(w)@.ext.calls) =~= elig(old(w)@.ext.docs), // [C33]
        r is Ok ==> forall|i: int| 0 <= i < final(w)@.ext.calls.len() ==> (#[trigger] final(w)@.ext.calls[i]).len() <= old(w)@.ext.bs, // [C33]
        // every number of every batch is added up
        r is Ok ==> tallied(old(w)@.out, final(w)@.out, tally(final(w)@.ext.calls)), // [C33]
{
/*@pybody
@file wimbd/sentiment_coocurrence/map_count.py
@item main
@locals parser args data bs inputs predict demographic_terms val_dic row preds term p k v
@start
    broadcast use axiom_str_len;
    let ghost g_docs = w@.ext.docs;
    let ghost g_out = w@.out;
    let ghost g_bs = w@.ext.bs;
    let ghost mut g_c: Seq<Seq<int>> = Seq::empty();
    let ghost mut g_x: Obj = Obj::Dict { ks: Seq::empty(), m: Map::empty(), dflt: PV::Glob(G_FLOAT()) };
@pre 0
    proof {
        assert(g_docs.take(0) =~= Seq::empty());
        assert(w@.heap[val_dic@->Ref_0] == g_x);
        assert(concat(w@.ext.calls) =~= Seq::<int>::empty());
        assert(concat(w@.ext.calls) + texts(lst(w@, inputs@)) =~= Seq::<int>::empty());
        assert(tally(w@.ext.calls) =~= Map::empty());
    }
@loop 0
    invariant
        __it0@ == PV::Glob(G_DATA()), w@.out == g_out, w@.ext.docs == g_docs, w@.ext.bs == g_bs, 0 <= w@.ext.pos <= g_docs.len(),
        bs@ == PV::Int(g_bs), predict@ == PV::Glob(G_MC()),
        is_list(w@, inputs@), all_str(lst(w@, inputs@)), lst(w@, inputs@).len() <= g_bs,
        is_dict(w@, val_dic@), dd(w@, val_dic@) == PV::Glob(G_FLOAT()), w@.heap[val_dic@->Ref_0] == g_x, keys_ok(g_x->ks, g_x->m),
        concat(w@.ext.calls) + texts(lst(w@, inputs@)) =~= elig(g_docs.take(w@.ext.pos)),
        forall|i: int| 0 <= i < w@.ext.calls.len() ==> (#[trigger] w@.ext.calls[i]).len() <= g_bs,
        g_x->m =~= tally(w@.ext.calls),
    ensures w@.ext.pos == g_docs.len()
    decreases g_docs.len() - w@.ext.pos
@top 0
    broadcast use axiom_str_len;
    let ghost g_n = w@.ext.pos - 1;
    proof { assert(doc_ok(g_docs[g_n])); g_c = w@.ext.calls; assert(g_docs.take(g_n + 1).drop_last() =~= g_docs.take(g_n)); }
@@SFLUSH(1)
@post 0
    proof { assert(g_docs.take(w@.ext.pos) =~= g_docs); g_c = w@.ext.calls; }
@@SFLUSH(2)
@pre 3
    let ghost g_w3 = w@;
    let ghost g_i3 = __it3@->Ref_0;
@loop 3
    invariant
        is_iter(w@, __it3@), __it3@ == PV::Ref(g_i3), w@.heap.dom().contains(w@.heap[g_i3]->src),
        w@.heap[w@.heap[g_i3]->src] == Obj::Items(val_dic@->Ref_0), w@.heap[g_i3]->len == g_x->ks.len(),
        is_dict(w@, val_dic@), w@.heap[val_dic@->Ref_0] == g_x,
        0 <= w@.heap[g_i3]->pos <= g_x->ks.len(), w@.ext == g_w3.ext,
        w@.out =~= g_out + pairs(g_x->ks, g_x->m, w@.heap[g_i3]->pos),
    ensures w@.heap[g_i3]->pos == g_x->ks.len()
    decreases g_x->ks.len() - w@.heap[g_i3]->pos
@bottom 3
    proof {
        let n = w@.heap[g_i3]->pos - 1;
        assert(pairs(g_x->ks, g_x->m, n + 1) =~= pairs(g_x->ks, g_x->m, n).push(seq![g_x->ks[n], g_x->m[g_x->ks[n]]]));
    }
@end
    proof {
        assert(concat(w@.ext.calls) =~= elig(g_docs));
        assert(g_x->m =~= tally(w@.ext.calls));
        assert(keys_ok(g_x->ks, tally(w@.ext.calls)));
    }
@*/
}
//@literals
} // verus!
fn main() {}
