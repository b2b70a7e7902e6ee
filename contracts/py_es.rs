// Queries to the index (C34, C35, C36).
//@claims C34: count_each theorem_sent
//@claims C35: build_query count_containing get_containing count_each count_unigrams
//@claims C36: get_containing theorem_pages
//@include shim_py.rs
/// a request as it was when it was sent: the heap at that moment and the objects handed over
pub struct Sent { pub h: Map<int, Obj>, pub head: PV, pub body: PV, pub size: PV, pub after: PV, pub sort: PV }
pub struct Ext {
    pub sent: Seq<Sent>,
    /// how many queries each msearch carried
    pub batches: Seq<int>,
    /// the pages the searches returned, and what a generator yielded
    pub pages: Seq<Seq<PV>>, pub yielded: Seq<PV>,
}
pub open spec fn G_ES() -> int { 40 }
pub open spec fn G_CAT() -> int { 41 }
pub open spec fn G_STR() -> int { 42 }
pub open spec fn G_LIST() -> int { 43 }
pub open spec fn G_ITERABLE() -> int { 44 }
pub open spec fn G_LOG() -> int { 45 }
pub open spec fn lazy_iter(w: PW, v: PV) -> bool { false }
pub open spec fn lazy_step(o: PW, n: PW, v: PV, r: Result<Option<V>, Exc>) -> bool { true }
#[verifier::external_body] pub fn gv_str(w: &mut World) -> (r: V) ensures final(w)@ == old(w)@, r@ == PV::Glob(G_STR()) { unimplemented!() }
#[verifier::external_body] pub fn gv_list(w: &mut World) -> (r: V) ensures final(w)@ == old(w)@, r@ == PV::Glob(G_LIST()) { unimplemented!() }
#[verifier::external_body] pub fn gv_List(w: &mut World) -> (r: V) ensures final(w)@ == old(w)@, r@ == PV::Glob(G_LIST()) { unimplemented!() }
#[verifier::external_body] pub fn gv_Iterable(w: &mut World) -> (r: V) ensures final(w)@ == old(w)@, r@ == PV::Glob(G_ITERABLE()) { unimplemented!() }
#[verifier::external_body] pub fn gv_logger(w: &mut World) -> (r: V) ensures final(w)@ == old(w)@, r@ == PV::Glob(G_LOG()) { unimplemented!() }
#[verifier::external_body] pub fn m_debug_1(l: &V, x: &V, w: &mut World) -> (r: R) ensures l@ == PV::Glob(G_LOG()) ==> final(w)@ == old(w)@ { unimplemented!() }
#[verifier::external_body] pub fn m_info_1(l: &V, x: &V, w: &mut World) -> (r: R) ensures l@ == PV::Glob(G_LOG()) ==> final(w)@ == old(w)@ { unimplemented!() }
#[verifier::external_body] pub fn c_isinstance_2(x: &V, t: &V, w: &mut World) -> (r: R)
    ensures
        t@ == PV::Glob(G_STR()) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Bool(x@ is Str),
        t@ == PV::Glob(G_LIST()) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Bool(is_list(old(w)@, x@)),
        t@ == PV::Glob(G_ITERABLE()) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ is Bool { unimplemented!() }
/// the client, made from the configuration
#[verifier::external_body] pub fn c_es_init_0(w: &mut World) -> (r: R) ensures r is Ok ==> final(w)@ == old(w)@ && r->Ok_0@ == PV::Glob(G_ES()) { unimplemented!() }
pub open spec fn es_ok(v: PV) -> bool { v is None || v == PV::Glob(G_ES()) }

// ------------------------------------------------------------------ shapes
pub open spec fn grown(a: Map<int, Obj>, b: Map<int, Obj>) -> bool { forall|i: int| #![trigger a.dom().contains(i)] #![trigger b.dom().contains(i)] #![trigger b[i]] a.dom().contains(i) ==> b.dom().contains(i) && b[i] == a[i] }
pub open spec fn fld(h: Map<int, Obj>, v: PV, k: PV) -> PV { h[v->Ref_0]->m[k] }
/// everything but x is as it was
pub open spec fn but(a: Map<int, Obj>, b: Map<int, Obj>, x: int) -> bool { forall|i: int| #![trigger a.dom().contains(i)] #![trigger b.dom().contains(i)] #![trigger b[i]] a.dom().contains(i) && i != x ==> b.dom().contains(i) && b[i] == a[i] }
/// an object that is not in h0, and not x
pub open spec fn nw(h: Map<int, Obj>, h0: Map<int, Obj>, x: int, v: PV) -> bool { v is Ref && h.dom().contains(v->Ref_0) && !h0.dom().contains(v->Ref_0) && v->Ref_0 != x }
pub open spec fn dict_is(h: Map<int, Obj>, h0: Map<int, Obj>, x: int, v: PV, m: Map<PV, PV>) -> bool { nw(h, h0, x, v) && h[v->Ref_0] is Dict && h[v->Ref_0]->m =~= m }
/// a dict with this one key
pub open spec fn one(h: Map<int, Obj>, h0: Map<int, Obj>, x: int, v: PV, k: PV) -> bool { dict_is(h, h0, x, v, Map::empty().insert(k, fld(h, v, k))) }
/// one phrase, as asked
pub open spec fn clause(h: Map<int, Obj>, h0: Map<int, Obj>, x: int, c: PV, p: PV, regexp: bool, slop: PV) -> bool {
    if regexp {
        &&& one(h, h0, x, c, S"regexp")
        &&& one(h, h0, x, fld(h, c, S"regexp"), S"text")
        &&& ({ let t = fld(h, fld(h, c, S"regexp"), S"text");
            nw(h, h0, x, t) && h[t->Ref_0] is Dict && h[t->Ref_0]->m.dom().contains(S"value") && fld(h, t, S"value") == p })
    } else {
        &&& one(h, h0, x, c, S"match_phrase")
        &&& one(h, h0, x, fld(h, c, S"match_phrase"), S"text")
        &&& dict_is(h, h0, x, fld(h, fld(h, c, S"match_phrase"), S"text"), Map::empty().insert(S"query", p).insert(S"slop", slop))
    }
}
pub open spec fn clauses(h: Map<int, Obj>, h0: Map<int, Obj>, x: int, l: Seq<PV>, p: Seq<PV>, regexp: bool, slop: PV) -> bool {
    l.len() == p.len() && forall|i: int| #![trigger l[i]] #![trigger p[i]] 0 <= i < p.len() ==> clause(h, h0, x, l[i], p[i], regexp, slop)
}
pub open spec fn term(h: Map<int, Obj>, h0: Map<int, Obj>, x: int, t: PV, f: PV) -> bool { one(h, h0, x, t, S"term") && fld(h, t, S"term") == f }
pub open spec fn terms(h: Map<int, Obj>, h0: Map<int, Obj>, x: int, l: Seq<PV>, f: Seq<PV>) -> bool {
    l.len() == f.len() && forall|i: int| #![trigger l[i]] #![trigger f[i]] 0 <= i < f.len() ==> term(h, h0, x, l[i], f[i])
}
/// dicts made since h0, other than x, are as they were
pub open spec fn keeps(a: Map<int, Obj>, b: Map<int, Obj>, h0: Map<int, Obj>, x: int) -> bool {
    forall|i: int| #![trigger a.dom().contains(i)] #![trigger b.dom().contains(i)] #![trigger b[i]] a.dom().contains(i) && !h0.dom().contains(i) && i != x && a[i] is Dict ==> b.dom().contains(i) && b[i] == a[i]
}
pub proof fn lemma_clauses(a: Map<int, Obj>, b: Map<int, Obj>, h0: Map<int, Obj>, x: int, l: Seq<PV>, p: Seq<PV>, regexp: bool, slop: PV)
    requires keeps(a, b, h0, x), clauses(a, h0, x, l, p, regexp, slop)
    ensures clauses(b, h0, x, l, p, regexp, slop)
{
    assert forall|i: int| 0 <= i < p.len() implies clause(b, h0, x, l[i], p[i], regexp, slop) by { assert(clause(a, h0, x, l[i], p[i], regexp, slop)); }
}
pub proof fn lemma_terms(a: Map<int, Obj>, b: Map<int, Obj>, h0: Map<int, Obj>, x: int, l: Seq<PV>, f: Seq<PV>)
    requires keeps(a, b, h0, x), terms(a, h0, x, l, f)
    ensures terms(b, h0, x, l, f)
{ assert forall|i: int| 0 <= i < f.len() implies term(b, h0, x, l[i], f[i]) by { assert(term(a, h0, x, l[i], f[i])); } }
/// x may be anything that is not there
pub proof fn lemma_avoid(h: Map<int, Obj>, h0: Map<int, Obj>, x: int, y: int, l: Seq<PV>, p: Seq<PV>, regexp: bool, slop: PV)
    requires clauses(h, h0, x, l, p, regexp, slop), !h.dom().contains(y)
    ensures clauses(h, h0, y, l, p, regexp, slop)
{ assert forall|i: int| 0 <= i < p.len() implies clause(h, h0, y, l[i], p[i], regexp, slop) by { assert(clause(h, h0, x, l[i], p[i], regexp, slop)); } }

pub proof fn lemma_terms_push(h: Map<int, Obj>, h0: Map<int, Obj>, x: int, l: Seq<PV>, f: Seq<PV>, t: PV, g: PV)
    requires terms(h, h0, x, l, f), term(h, h0, x, t, g)
    ensures terms(h, h0, x, l.push(t), f.push(g))
{}
pub proof fn lemma_terms_none(h: Map<int, Obj>, h0: Map<int, Obj>, x: int) ensures terms(h, h0, x, Seq::empty(), Seq::empty()) {}
// ------------------------------------------------------------------ the query for documents
/// the phrases: one, or a list
pub open spec fn phrases_of(w: PW, v: PV) -> Seq<PV> { if v is Str { seq![v] } else { lst(w, v) } }
pub open spec fn all_text(s: Seq<PV>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Str }
pub open spec fn listed(h: Map<int, Obj>, v: PV) -> bool { v is Ref && h.dom().contains(v->Ref_0) && h[v->Ref_0] is List }
pub open spec fn items(h: Map<int, Obj>, v: PV) -> Seq<PV> { h[v->Ref_0]->List_0 }
pub open spec fn which(all: bool, score: bool) -> PV { if all { if score { S"must" } else { S"filter" } } else { S"should" } }
/// the query asks for all of these phrases, or for one of them at least
pub open spec fn asks(h: Map<int, Obj>, h0: Map<int, Obj>, q: PV, p: Seq<PV>, all: bool, score: bool, regexp: bool, slop: PV) -> bool {
    let b = fld(h, q, S"bool");
    let l = fld(h, b, which(all, score));
    &&& one(h, h0, b->Ref_0, q, S"bool")
    &&& nw(h, h0, -1, b) && h[b->Ref_0] is Dict
    &&& h[b->Ref_0]->m =~= Map::empty().insert(which(all, score), l).insert(S"minimum_should_match", if all { PV::None } else { PV::Int(1) })
    &&& listed(h, l) && !h0.dom().contains(l->Ref_0)
    &&& clauses(h, h0, b->Ref_0, items(h, l), p, regexp, slop)
}
//@macro BUILD(N, RE)
@pre ${N}
    let ghost g_i${N} = __it${N}@->Ref_0;
    let ghost g_s${N} = phrases@->Ref_0;
    let ghost g_w${N} = w@;
@loop ${N}
    invariant
        is_iter(w@, __it${N}@), __it${N}@ == PV::Ref(g_i${N}), w@.heap[g_i${N}]->src == g_s${N}, w@.heap.dom().contains(g_s${N}), w@.heap[g_s${N}] == Obj::List(g_p),
        0 <= w@.heap[g_i${N}]->pos <= g_p.len(), !g_h.dom().contains(g_i${N}), match_query@->Ref_0 != g_s${N}, match_query@->Ref_0 != g_i${N},
        is_list(w@, match_query@), !g_h.dom().contains(match_query@->Ref_0),
        grown(g_h, w@.heap), w@ == (PW { heap: w@.heap, ..g_w${N} }),
        clauses(w@.heap, g_h, -1, lst(w@, match_query@), g_p.take(w@.heap[g_i${N}]->pos), ${RE}, slop@),
    ensures w@.heap[g_i${N}]->pos == g_p.len()
    decreases g_p.len() - w@.heap[g_i${N}]->pos
@top ${N}
    let ghost g_n = w@.heap[g_i${N}]->pos - 1;
    let ghost g_t = w@.heap;
    let ghost g_l = lst(w@, match_query@);
@bottom ${N}
    proof {
        assert(keeps(g_t, w@.heap, g_h, -1));
        lemma_clauses(g_t, w@.heap, g_h, -1, g_l, g_p.take(g_n), ${RE}, slop@);
        assert(lst(w@, match_query@).len() == g_n + 1);
        let c = lst(w@, match_query@)[g_n];
        assert(clause(w@.heap, g_h, -1, c, g_p[g_n], ${RE}, slop@));
        assert forall|i: int| 0 <= i < g_n + 1 implies clause(w@.heap, g_h, -1, lst(w@, match_query@)[i], g_p.take(g_n + 1)[i], ${RE}, slop@) by {
            if i < g_n { assert(lst(w@, match_query@)[i] == g_l[i]); assert(g_p.take(g_n + 1)[i] == g_p.take(g_n)[i]); }
        }
    }
//@endmacro

#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(60)]
pub fn build_query(phrases: &V, all_phrases: &V, do_score: &V, is_regexp: &V, slop: &V, w: &mut World) -> (r: R)
    requires
        phrases@ is Str || is_list(old(w)@, phrases@), all_phrases@ is Bool, do_score@ is Bool, is_regexp@ is Bool, !(slop@ is Ref),
    ensures
        r is Ok ==> asks(final(w)@.heap, old(w)@.heap, r->Ok_0@, phrases_of(old(w)@, phrases@), all_phrases@->Bool_0, do_score@->Bool_0, is_regexp@->Bool_0, slop@), // [C35]
        r is Ok ==> grown(old(w)@.heap, final(w)@.heap) && final(w)@ == (PW { heap: final(w)@.heap, ..old(w)@ }), // [C35]
{
/*@pybody
@file wimbd/es/__init__.py
@item _query_documents_contain_phrases
@params phrases all_phrases do_score is_regexp slop
@kwargs is_regexp slop
@default do_score = False
@locals which_bool minimum_should_match match_query phrase query
@start
    let ghost g_h = w@.heap;
    let ghost g_p = phrases_of(w@, phrases@);
    let ghost g_all = all_phrases@->Bool_0;
    let ghost g_score = do_score@->Bool_0;
    let ghost g_re = is_regexp@->Bool_0;
@@BUILD(0 ;; true)
@@BUILD(1 ;; false)
@before query = =>>
    let ghost g_e = w@.heap;
    let ghost g_m = lst(w@, match_query@);
    proof { assert(g_p.take(g_p.len() as int) =~= g_p); assert(clauses(g_e, g_h, -1, g_m, g_p, g_re, slop@)); }
@end
    proof {
        let h = w@.heap;
        let b = fld(h, query@, S"bool")->Ref_0;
        lemma_avoid(g_e, g_h, -1, b, g_m, g_p, g_re, slop@);
        lemma_clauses(g_e, h, g_h, b, g_m, g_p, g_re, slop@);
        assert(h[b]->m =~= Map::empty().insert(which(g_all, g_score), match_query@).insert(S"minimum_should_match", if g_all { PV::None } else { PV::Int(1) }));
    }
@*/
}
pub fn c__query_documents_contain_phrases_2__is_regexp_slop(phrases: &V, all_phrases: &V, is_regexp: &V, slop: &V, w: &mut World) -> (r: R)
    requires phrases@ is Str || is_list(old(w)@, phrases@), all_phrases@ is Bool, is_regexp@ is Bool, !(slop@ is Ref)
    ensures
        r is Ok ==> asks(final(w)@.heap, old(w)@.heap, r->Ok_0@, phrases_of(old(w)@, phrases@), all_phrases@->Bool_0, false, is_regexp@->Bool_0, slop@),
        r is Ok ==> grown(old(w)@.heap, final(w)@.heap) && final(w)@ == (PW { heap: final(w)@.heap, ..old(w)@ }),
{
    let f = bool_(false);
    build_query(phrases, all_phrases, &f, is_regexp, slop, w)
}

// ------------------------------------------------------------------ filters
/// the filters the caller gave
pub open spec fn base(w: PW, v: PV) -> Seq<PV> { if v is None { Seq::empty() } else { lst(w, v) } }
pub open spec fn is_en(h: Map<int, Obj>, h0: Map<int, Obj>, v: PV) -> bool { one(h, h0, -1, v, S"subset") && fld(h, v, S"subset") == S"en" }
/// these filters, with that of the English subset where the index is c4
pub open spec fn filters(h: Map<int, Obj>, h0: Map<int, Obj>, b: Seq<PV>, index: PV, f: Seq<PV>) -> bool {
    if index == S"c4" { f.len() == b.len() + 1 && f =~= b.push(f.last()) && is_en(h, h0, f.last()) } else { f =~= b }
}
/// the query asks for the phrases and for every filter
pub open spec fn doc_query(h: Map<int, Obj>, h0: Map<int, Obj>, q: PV, p: Seq<PV>, all: bool, regexp: bool, slop: PV, f: Seq<PV>) -> bool {
    let b = fld(h, q, S"bool");
    let m = h[b->Ref_0]->m;
    &&& one(h, h0, b->Ref_0, q, S"bool")
    &&& nw(h, h0, -1, b) && h[b->Ref_0] is Dict
    &&& if all {
        &&& m =~= Map::empty().insert(S"filter", m[S"filter"]).insert(S"minimum_should_match", PV::None)
        &&& listed(h, m[S"filter"]) && !h0.dom().contains(m[S"filter"]->Ref_0) && items(h, m[S"filter"]).len() == p.len() + f.len()
        &&& clauses(h, h0, b->Ref_0, items(h, m[S"filter"]).take(p.len() as int), p, regexp, slop)
        &&& terms(h, h0, b->Ref_0, items(h, m[S"filter"]).skip(p.len() as int), f)
    } else {
        &&& m[S"minimum_should_match"] == PV::Int(1) && m.dom().contains(S"minimum_should_match") && m.dom().contains(S"should")
        &&& listed(h, m[S"should"]) && !h0.dom().contains(m[S"should"]->Ref_0) && clauses(h, h0, b->Ref_0, items(h, m[S"should"]), p, regexp, slop)
        &&& m.dom().contains(S"filter") <==> f.len() > 0
        &&& f.len() > 0 ==> listed(h, m[S"filter"]) && !h0.dom().contains(m[S"filter"]->Ref_0) && terms(h, h0, b->Ref_0, items(h, m[S"filter"]), f)
        &&& forall|k: PV| #[trigger] m.dom().contains(k) ==> k == S"should" || k == S"minimum_should_match" || k == S"filter"
    }
}
pub proof fn lemma_len(h: Map<int, Obj>, h0: Map<int, Obj>, x: int, l: Seq<PV>, p: Seq<PV>, regexp: bool, slop: PV) requires clauses(h, h0, x, l, p, regexp, slop) ensures l.len() == p.len() {}
/// the pieces of a query, put together
pub open spec fn pieces(h: Map<int, Obj>, h0: Map<int, Obj>, q: PV, p: Seq<PV>, all: bool, regexp: bool, slop: PV, f: Seq<PV>, c: Seq<PV>) -> bool {
    let b = fld(h, q, S"bool");
    let m = h[b->Ref_0]->m;
    let l = m[which(all, false)];
    &&& one(h, h0, b->Ref_0, q, S"bool") && nw(h, h0, -1, b) && h[b->Ref_0] is Dict
    &&& m[S"minimum_should_match"] == (if all { PV::None } else { PV::Int(1) }) && m.dom().contains(S"minimum_should_match") && m.dom().contains(which(all, false))
    &&& forall|k: PV| #[trigger] m.dom().contains(k) ==> k == which(all, false) || k == S"minimum_should_match" || k == S"filter" && f.len() > 0
    &&& listed(h, l) && !h0.dom().contains(l->Ref_0) && clauses(h, h0, b->Ref_0, c, p, regexp, slop)
    &&& if all {
        items(h, l).len() == p.len() + f.len() && items(h, l).take(p.len() as int) == c && terms(h, h0, b->Ref_0, items(h, l).skip(p.len() as int), f)
    } else {
        items(h, l) == c && (f.len() > 0 ==> m.dom().contains(S"filter") && listed(h, m[S"filter"]) && !h0.dom().contains(m[S"filter"]->Ref_0) && terms(h, h0, b->Ref_0, items(h, m[S"filter"]), f))
    }
}
pub proof fn lemma_doc_query_is(h: Map<int, Obj>, h0: Map<int, Obj>, q: PV, p: Seq<PV>, all: bool, regexp: bool, slop: PV, f: Seq<PV>, c: Seq<PV>)
    requires pieces(h, h0, q, p, all, regexp, slop, f, c)
    ensures doc_query(h, h0, q, p, all, regexp, slop, f)
{
    let m = h[fld(h, q, S"bool")->Ref_0]->m;
    if all { assert(m =~= Map::empty().insert(S"filter", m[S"filter"]).insert(S"minimum_should_match", PV::None)); }
}
pub proof fn lemma_doc_query(a: Map<int, Obj>, b: Map<int, Obj>, h0: Map<int, Obj>, q: PV, p: Seq<PV>, all: bool, regexp: bool, slop: PV, f: Seq<PV>)
    requires doc_query(a, h0, q, p, all, regexp, slop, f), grown(a, b)
    ensures doc_query(b, h0, q, p, all, regexp, slop, f)
{
    let x = fld(a, q, S"bool")->Ref_0;
    let m = a[x]->m;
    assert(keeps(a, b, h0, x));
    if all {
        lemma_clauses(a, b, h0, x, items(a, m[S"filter"]).take(p.len() as int), p, regexp, slop);
        lemma_terms(a, b, h0, x, items(a, m[S"filter"]).skip(p.len() as int), f);
    } else {
        lemma_clauses(a, b, h0, x, items(a, m[S"should"]), p, regexp, slop);
        if f.len() > 0 { lemma_terms(a, b, h0, x, items(a, m[S"filter"]), f); }
    }
}
//@macro FILTERS(N, RET)
@after query = =>>
    let ghost g_a = w@;
@before if subset_filter =>>
    let ghost g_q = w@;
    let ghost g_f = base(w@, subset_filter@);
    let ghost g_b = fld(g_q.heap, query@, S"bool")->Ref_0;
    let ghost g_c = items(g_q.heap, fld(g_q.heap, PV::Ref(g_b), which(g_all, false)));
    let ghost g_cr = fld(g_q.heap, PV::Ref(g_b), which(g_all, false))->Ref_0;
    proof {
        assert(grown(g_a.heap, g_q.heap));
        assert(keeps(g_a.heap, g_q.heap, g_h, g_b));
        lemma_clauses(g_a.heap, g_q.heap, g_h, g_b, g_c, g_p, g_re, slop@);
        assert(asks(g_q.heap, g_h, query@, g_p, g_all, false, g_re, slop@));
        assert(filters(g_q.heap, g_h, g_base, index@, g_f));
    }
@pre ${N}
    let ghost g_i = __it${N}@->Ref_0;
    let ghost g_sf = subset_filter@->Ref_0;
    let ghost g_w0 = w@;
    let ghost g_l = fld(w@.heap, PV::Ref(g_b), S"filter")->Ref_0;
    let ghost g_l0 = items(w@.heap, PV::Ref(g_l));
    proof {
        assert(keeps(g_q.heap, w@.heap, g_h, g_b));
        lemma_clauses(g_q.heap, w@.heap, g_h, g_b, g_c, g_p, g_re, slop@);
        lemma_len(w@.heap, g_h, g_b, g_c, g_p, g_re, slop@);
        assert(g_l0.skip(g_l0.len() as int) =~= Seq::empty());
        lemma_terms_none(w@.heap, g_h, g_b);
        assert(g_f.take(0) =~= Seq::empty());
        assert(g_all ==> g_l == g_cr && g_l0 == g_c);
        assert(!g_all ==> g_l != g_cr && g_l0 =~= Seq::empty());
    }
@loop ${N}
    invariant
        is_iter(w@, __it${N}@), __it${N}@ == PV::Ref(g_i), w@.heap[g_i]->src == g_sf, w@.heap.dom().contains(g_sf), w@.heap[g_sf] == Obj::List(g_f),
        0 <= w@.heap[g_i]->pos <= g_f.len(), !g_h.dom().contains(g_i), g_i != g_l, g_i != g_b, g_l != g_b, g_l != g_sf, g_i != g_cr, g_i != g_sf,
        one(w@.heap, g_h, g_b, query@, S"bool"), fld(w@.heap, query@, S"bool") == PV::Ref(g_b),
        w@.heap.dom().contains(g_b), w@.heap[g_b] == g_w0.heap[g_b], g_w0.heap[g_b]->m[S"filter"] == PV::Ref(g_l),
        listed(w@.heap, PV::Ref(g_l)), items(w@.heap, PV::Ref(g_l)) =~= g_l0 + items(w@.heap, PV::Ref(g_l)).skip(g_l0.len() as int),
        listed(w@.heap, PV::Ref(g_cr)), g_all || items(w@.heap, PV::Ref(g_cr)) == g_c,
        clauses(w@.heap, g_h, g_b, g_c, g_p, g_re, slop@),
        terms(w@.heap, g_h, g_b, items(w@.heap, PV::Ref(g_l)).skip(g_l0.len() as int), g_f.take(w@.heap[g_i]->pos)),
        items(w@.heap, PV::Ref(g_l)).len() == g_l0.len() + w@.heap[g_i]->pos,
        index@ == S"c4" ==> is_en(w@.heap, g_h, g_f.last()) && g_f.last()->Ref_0 != g_b,
        grown(g_h, w@.heap), w@ == (PW { heap: w@.heap, ..g_w0 }),
    ensures w@.heap[g_i]->pos == g_f.len()
    decreases g_f.len() - w@.heap[g_i]->pos
@head ${N}
    let ghost g_t = w@.heap;
    let ghost g_n = w@.heap[g_i]->pos;
@bottom ${N}
    proof {
        let h = w@.heap;
        assert(keeps(g_t, h, g_h, g_b));
        lemma_clauses(g_t, h, g_h, g_b, g_c, g_p, g_re, slop@);
        let (a, b) = (items(g_t, PV::Ref(g_l)), items(h, PV::Ref(g_l)));
        lemma_terms(g_t, h, g_h, g_b, a.skip(g_l0.len() as int), g_f.take(g_n));
        assert(b.len() == a.len() + 1);
        assert(b.skip(g_l0.len() as int) =~= a.skip(g_l0.len() as int).push(b.last()));
        assert(term(h, g_h, g_b, b.last(), g_f[g_n]));
        lemma_terms_push(h, g_h, g_b, a.skip(g_l0.len() as int), g_f.take(g_n), b.last(), g_f[g_n]);
        assert(g_f.take(g_n).push(g_f[g_n]) =~= g_f.take(g_n + 1));
    }
@before ${RET} =>>
    let ghost g_v = w@;
    proof {
        let h = w@.heap;
        assert(g_f.take(g_f.len() as int) =~= g_f);
        lemma_len(h, g_h, g_b, g_c, g_p, g_re, slop@);
        let m = h[g_b]->m;
        lemma_terms_none(h, g_h, g_b);
        if g_f.len() > 0 {
            let b = items(h, m[S"filter"]);
            if g_all { assert(b.take(g_p.len() as int) =~= g_c); }
            else { assert(b.skip(0) =~= b); }
        } else {
            assert(g_f =~= Seq::empty());
            if g_all { assert(g_c.take(g_p.len() as int) =~= g_c); assert(g_c.skip(g_p.len() as int) =~= Seq::empty()); }
        }
        lemma_doc_query_is(h, g_h, query@, g_p, g_all, g_re, slop@, g_f, g_c);
    }
//@endmacro
// ------------------------------------------------------------------ counting
pub open spec fn answer(o: PW, n: PW, r: PV, s: Sent) -> bool { grown(o.heap, n.heap) && n == (PW { heap: n.heap, ext: Ext { sent: o.ext.sent.push(s), ..o.ext }, ..o }) }
#[verifier::external_body] pub fn m_count_0__index_query(es: &V, index: &V, query: &V, w: &mut World) -> (r: R)
    ensures es@ == PV::Glob(G_ES()) && r is Ok ==> answer(old(w)@, final(w)@, r->Ok_0@, Sent { h: old(w)@.heap, head: index@, body: query@, size: PV::None, after: PV::None, sort: PV::None })
        && is_dict(final(w)@, r->Ok_0@) && dd(final(w)@, r->Ok_0@) is None { unimplemented!() }
/// one more request was sent, for these phrases and these filters
pub open spec fn sent_one(o: PW, n: PW, index: PV, p: Seq<PV>, all: bool, regexp: bool, slop: PV, b: Seq<PV>) -> bool {
    n.ext.sent.len() == o.ext.sent.len() + 1 && n.ext.sent.drop_last() =~= o.ext.sent && sent_ok(n.ext.sent.last(), o.heap, index, p, all, regexp, slop, b)
}
pub open spec fn sent_ok(s: Sent, h0: Map<int, Obj>, index: PV, p: Seq<PV>, all: bool, regexp: bool, slop: PV, b: Seq<PV>) -> bool {
    s.head == index && grown(h0, s.h) && exists|f: Seq<PV>| #[trigger] filters(s.h, h0, b, index, f) && doc_query(s.h, h0, s.body, p, all, regexp, slop, f)
}
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(100)] #[verifier::spinoff_prover]
pub fn count_containing(index: &V, phrases: &V, all_phrases: &V, is_regexp: &V, slop: &V, subset_filter: &V, es: &V, w: &mut World) -> (r: R)
    requires
        index@ is Str, phrases@ is Str || is_list(old(w)@, phrases@), all_phrases@ is Bool, is_regexp@ is Bool, !(slop@ is Ref),
        subset_filter@ is None || is_list(old(w)@, subset_filter@), es_ok(es@),
    ensures
        r is Ok ==> sent_one(old(w)@, final(w)@, index@, phrases_of(old(w)@, phrases@), all_phrases@->Bool_0, is_regexp@->Bool_0, slop@, base(old(w)@, subset_filter@)), // [C35]
        r is Ok ==> grown(old(w)@.heap, final(w)@.heap), // [C35]
{
    hide(clauses); hide(terms); hide(clause); hide(doc_query);
/*@pybody
@file wimbd/es/__init__.py
@item count_documents_containing_phrases
@params index phrases all_phrases is_regexp slop subset_filter es
@kwargs all_phrases is_regexp slop subset_filter es
@locals query filter_ result
@start
    let ghost g_h = w@.heap;
    let ghost g_w = w@;
    let ghost g_p = phrases_of(w@, phrases@);
    let ghost g_all = all_phrases@->Bool_0;
    let ghost g_re = is_regexp@->Bool_0;
    let ghost g_base = base(w@, subset_filter@);
@@FILTERS(0 ;; result =)
@end
    proof {
        assert(filters(g_v.heap, g_h, g_base, index@, g_f));
        assert(doc_query(g_v.heap, g_h, query@, g_p, g_all, g_re, slop@, g_f));
        let s = w@.ext.sent.last();
        assert(s.h == g_v.heap && s.body == query@ && s.head == index@);
        assert(sent_ok(s, g_h, index@, g_p, g_all, g_re, slop@, g_base));
        assert(w@.ext.sent.drop_last() =~= g_w.ext.sent);
    }
@*/
}
// ------------------------------------------------------------------ hits, page by page
/// one search: the request is logged, and a page of hits comes back in new objects; a sorted hit has its sort values
pub open spec fn page_of(h: Map<int, Obj>, r: PV) -> PV { fld(h, fld(h, r, S"hits"), S"hits") }
pub open spec fn has(h: Map<int, Obj>, v: PV, k: PV) -> bool { v is Ref && h.dom().contains(v->Ref_0) && h[v->Ref_0] is Dict && h[v->Ref_0]->m.dom().contains(k) && h[v->Ref_0]->dflt is None }
pub open spec fn hits(h: Map<int, Obj>, l: Seq<PV>) -> bool {
    forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) is Ref && h.dom().contains(l[i]->Ref_0) && h[l[i]->Ref_0] is Dict && h[l[i]->Ref_0]->dflt is None
}
pub open spec fn searched(o: PW, n: PW, r: PV, s: Sent) -> bool {
    &&& grown(o.heap, n.heap)
    &&& has(n.heap, r, S"hits") && has(n.heap, fld(n.heap, r, S"hits"), S"hits") && listed(n.heap, page_of(n.heap, r)) && hits(n.heap, items(n.heap, page_of(n.heap, r)))
    &&& n == (PW { heap: n.heap, ext: Ext { sent: o.ext.sent.push(s), pages: o.ext.pages.push(items(n.heap, page_of(n.heap, r))), ..o.ext }, ..o })
}
pub open spec fn search_ok(es: PV, o: PW, n: PW, r: Result<V, Exc>, index: PV, query: PV, size: PV, after: PV, sort: PV) -> bool {
    es == PV::Glob(G_ES()) && r is Ok ==> searched(o, n, r->Ok_0@, Sent { h: o.heap, head: index, body: query, size, after, sort })
}
#[verifier::external_body] pub fn m_search_0__index_query_size(es: &V, index: &V, query: &V, size: &V, w: &mut World) -> (r: R)
    ensures search_ok(es@, old(w)@, final(w)@, r, index@, query@, size@, PV::None, PV::None) { unimplemented!() }
#[verifier::external_body] pub fn m_search_0__index_query_size_sort(es: &V, index: &V, query: &V, size: &V, sort: &V, w: &mut World) -> (r: R)
    ensures search_ok(es@, old(w)@, final(w)@, r, index@, query@, size@, PV::None, sort@) { unimplemented!() }
#[verifier::external_body] pub fn m_search_0__index_query_search_after_size_sort(es: &V, index: &V, query: &V, after: &V, size: &V, sort: &V, w: &mut World) -> (r: R)
    ensures search_ok(es@, old(w)@, final(w)@, r, index@, query@, size@, after@, sort@) { unimplemented!() }
/// a point in time: no search, an answer in new objects
#[verifier::external_body] pub fn m_open_point_in_time_0__index_keep_alive(es: &V, index: &V, k: &V, w: &mut World) -> (r: R)
    ensures es@ == PV::Glob(G_ES()) && r is Ok ==> grown(old(w)@.heap, final(w)@.heap) && final(w)@ == (PW { heap: final(w)@.heap, ..old(w)@ }) && has(final(w)@.heap, r->Ok_0@, S"id") { unimplemented!() }
#[verifier::external_body] pub fn m_close_point_in_time_0__id(es: &V, id: &V, w: &mut World) -> (r: R)
    ensures es@ == PV::Glob(G_ES()) ==> grown(old(w)@.heap, final(w)@.heap) && final(w)@ == (PW { heap: final(w)@.heap, ..old(w)@ }) { unimplemented!() }
/// whoever consumes the generator takes every hit and leaves the objects alone
#[verifier::external_body] pub fn op_yield_from(l: &V, w: &mut World) -> (r: R)
    ensures listed(old(w)@.heap, l@) && r is Ok ==> final(w)@ == (PW { ext: Ext { yielded: old(w)@.ext.yielded + items(old(w)@.heap, l@), ..old(w)@.ext }, ..old(w)@ }) { unimplemented!() }
pub open spec fn joined(c: Seq<Seq<PV>>) -> Seq<PV> decreases c.len() { if c.len() == 0 { Seq::empty() } else { joined(c.drop_last()) + c.last() } }
pub proof fn lemma_joined_push(c: Seq<Seq<PV>>, x: Seq<PV>) ensures joined(c.push(x)) == joined(c) + x { assert(c.push(x).drop_last() =~= c); }
/// request k asks for these documents, this many of them, after the last hit of the page before
pub open spec fn page_ok(sent: Seq<Sent>, pages: Seq<Seq<PV>>, k: int, h0: Map<int, Obj>, index: PV, p: Seq<PV>, all: bool, regexp: bool, slop: PV, b: Seq<PV>, size: PV) -> bool {
    &&& sent_ok(sent[k], h0, index, p, all, regexp, slop, b)
    &&& sent[k].size == size && sent[k].body == sent[0].body
    &&& sent[k].sort == sent[0].sort
    &&& if k == 0 { sent[k].after is None } else { pages[k - 1].len() > 0 && sent[k].after == fld(sent[k].h, pages[k - 1].last(), S"sort") }
}
pub open spec fn paged(sent: Seq<Sent>, pages: Seq<Seq<PV>>, h0: Map<int, Obj>, index: PV, p: Seq<PV>, all: bool, regexp: bool, slop: PV, b: Seq<PV>, size: PV) -> bool {
    &&& sent.len() == pages.len() && sent.len() >= 1
    &&& forall|k: int| 0 <= k < sent.len() ==> #[trigger] page_ok(sent, pages, k, h0, index, p, all, regexp, slop, b, size)
}
/// the pages one after the other: every hit that came back, once, in order; only the last page is empty
pub proof fn theorem_pages(sent: Seq<Sent>, pages: Seq<Seq<PV>>, h0: Map<int, Obj>, index: PV, p: Seq<PV>, all: bool, regexp: bool, slop: PV, b: Seq<PV>, size: PV, k: int)
    requires paged(sent, pages, h0, index, p, all, regexp, slop, b, size), pages.last().len() == 0, 0 <= k < pages.len()
    ensures pages[k].len() == 0 <==> k == pages.len() - 1 // [C36]
{ if k < pages.len() - 1 { assert(page_ok(sent, pages, k + 1, h0, index, p, all, regexp, slop, b, size)); } }
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(150)] #[verifier::spinoff_prover] #[verifier::exec_allows_no_decreases_clause]
pub fn get_containing(index: &V, phrases: &V, all_phrases: &V, num_documents: &V, is_regexp: &V, slop: &V, return_all_hits: &V, sort_field: &V, subset_filter: &V, es: &V, w: &mut World) -> (r: R)
    requires
        index@ is Str, phrases@ is Str || is_list(old(w)@, phrases@), all_phrases@ is Bool, is_regexp@ is Bool, !(slop@ is Ref), return_all_hits@ is Bool,
        sort_field@ is Str, subset_filter@ is None || is_list(old(w)@, subset_filter@), es_ok(es@), old(w)@.ext.sent.len() == 0, old(w)@.ext.pages.len() == 0,
        old(w)@.ext.yielded.len() == 0,
    ensures
        r is Ok ==> paged(final(w)@.ext.sent, final(w)@.ext.pages, old(w)@.heap, index@, phrases_of(old(w)@, phrases@), all_phrases@->Bool_0, is_regexp@->Bool_0, slop@, base(old(w)@, subset_filter@), num_documents@), // [C35 C36]
        r is Ok ==> final(w)@.ext.yielded =~= joined(final(w)@.ext.pages), // [C36]
        r is Ok && return_all_hits@->Bool_0 ==> final(w)@.ext.pages.last().len() == 0, // [C36]
        r is Ok && !return_all_hits@->Bool_0 ==> final(w)@.ext.pages.len() == 1, // [C36]
        r is Ok ==> grown(old(w)@.heap, final(w)@.heap), // [C35]
{
    hide(clauses); hide(terms); hide(clause); hide(doc_query);
/*@pybody
@file wimbd/es/__init__.py
@item get_documents_containing_phrases
@params index phrases all_phrases num_documents is_regexp slop return_all_hits sort_field subset_filter es
@kwargs all_phrases num_documents is_regexp slop return_all_hits sort_field subset_filter es
@generator
@locals query filter_ sort pit results
@start
    let ghost g_h = w@.heap;
    let ghost g_p = phrases_of(w@, phrases@);
    let ghost g_all = all_phrases@->Bool_0;
    let ghost g_re = is_regexp@->Bool_0;
    let ghost g_base = base(w@, subset_filter@);
@@FILTERS(0 ;; if return_all_hits:)
@pre 1
    proof {
        lemma_doc_query(g_v.heap, w@.ext.sent[0].h, g_h, query@, g_p, g_all, g_re, slop@, g_f);
        assert(filters(w@.ext.sent[0].h, g_h, g_base, index@, g_f));
        lemma_joined_push(Seq::empty(), w@.ext.pages[0]);
        assert(Seq::empty().push(w@.ext.pages[0]) =~= w@.ext.pages);
    }
@loop 1
    invariant
        w@.ext.sent.len() == w@.ext.pages.len(), w@.ext.sent.len() >= 1, es@ == PV::Glob(G_ES()),
        forall|k: int| 0 <= k < w@.ext.sent.len() ==> #[trigger] page_ok(w@.ext.sent, w@.ext.pages, k, g_h, index@, g_p, g_all, g_re, slop@, g_base, num_documents@),
        w@.ext.sent[0].body == query@, w@.ext.sent[0].sort == sort@,
        listed(w@.heap, results@), items(w@.heap, results@) == w@.ext.pages.last(), hits(w@.heap, w@.ext.pages.last()),
        grown(g_v.heap, w@.heap), grown(g_h, w@.heap), w@.ext.yielded =~= joined(w@.ext.pages),
        has(w@.heap, pit@, S"id"),
    ensures w@.ext.pages.last().len() == 0
@head 1
    let ghost g_x = w@;
@bottom 1
    proof {
        let n = g_x.ext.sent.len() as int;
        let s = w@.ext.sent[n];
        lemma_doc_query(g_v.heap, s.h, g_h, query@, g_p, g_all, g_re, slop@, g_f);
        assert(filters(s.h, g_h, g_base, index@, g_f));
        lemma_joined_push(g_x.ext.pages, w@.ext.pages.last());
        assert(page_ok(w@.ext.sent, w@.ext.pages, n, g_h, index@, g_p, g_all, g_re, slop@, g_base, num_documents@));
        assert forall|k: int| 0 <= k < n implies #[trigger] page_ok(w@.ext.sent, w@.ext.pages, k, g_h, index@, g_p, g_all, g_re, slop@, g_base, num_documents@) by {
            assert(page_ok(g_x.ext.sent, g_x.ext.pages, k, g_h, index@, g_p, g_all, g_re, slop@, g_base, num_documents@));
            assert(w@.ext.sent[k] == g_x.ext.sent[k]);
            assert(w@.ext.pages[k] == g_x.ext.pages[k]);
            if k > 0 { assert(w@.ext.pages[k - 1] == g_x.ext.pages[k - 1]); }
        }
    }
@end
    proof {
        if !return_all_hits@->Bool_0 {
            lemma_doc_query(g_v.heap, w@.ext.sent[0].h, g_h, query@, g_p, g_all, g_re, slop@, g_f);
            assert(filters(w@.ext.sent[0].h, g_h, g_base, index@, g_f));
            lemma_joined_push(Seq::empty(), w@.ext.pages[0]);
            assert(Seq::empty().push(w@.ext.pages[0]) =~= w@.ext.pages);
            assert(page_ok(w@.ext.sent, w@.ext.pages, 0, g_h, index@, g_p, g_all, g_re, slop@, g_base, num_documents@));
        }
    }
@*/
}
// ------------------------------------------------------------------ one count for every phrase
/// what the index answers to a query: how many documents
pub uninterp spec fn count_for(s: Sent) -> int;
/// the queries of a list: header, body, header, body
pub open spec fn queries_of(h: Map<int, Obj>, l: Seq<PV>) -> Seq<Sent> {
    Seq::new((l.len() / 2) as nat, |j: int| Sent { h, head: l[2 * j], body: l[2 * j + 1], size: PV::None, after: PV::None, sort: PV::None })
}
pub open spec fn response(h: Map<int, Obj>, x: PV, s: Sent) -> bool { has(h, x, S"hits") && has(h, fld(h, x, S"hits"), S"total") && fld(h, fld(h, x, S"hits"), S"total") == PV::Int(count_for(s)) }
/// one response for every query, in the order of the queries
#[verifier::external_body] pub fn m_msearch_0__index_rest_total_hits_as_int_search_type_searches(es: &V, index: &V, rest: &V, st: &V, l: &V, w: &mut World) -> (r: R)
    ensures es@ == PV::Glob(G_ES()) && is_list(old(w)@, l@) && lst(old(w)@, l@).len() % 2 == 0 && rest@ == PV::Bool(true) && r is Ok ==> {
        let q = queries_of(old(w)@.heap, lst(old(w)@, l@));
        let h = final(w)@.heap;
        &&& grown(old(w)@.heap, h)
        &&& final(w)@ == (PW { heap: h, ext: Ext { sent: old(w)@.ext.sent + q, batches: old(w)@.ext.batches.push(q.len() as int), ..old(w)@.ext }, ..old(w)@ })
        &&& has(h, r->Ok_0@, S"responses") && listed(h, fld(h, r->Ok_0@, S"responses"))
        &&& items(h, fld(h, r->Ok_0@, S"responses")).len() == q.len()
        &&& forall|j: int| 0 <= j < q.len() ==> response(h, #[trigger] items(h, fld(h, r->Ok_0@, S"responses"))[j], q[j])
    } { unimplemented!() }
#[verifier::external_body] pub fn c_iter_1(x: &V, w: &mut World) -> (r: R)
    ensures is_list(old(w)@, x@) && r is Ok ==> fresh(old(w)@, final(w)@, r->Ok_0@, Obj::Iter { src: x@->Ref_0, pos: 0, len: elems_len(old(w)@.heap, x@->Ref_0) }) { unimplemented!() }
/// what counts as one phrase: text, or a list of texts that all have to be there
pub open spec fn parts(h: Map<int, Obj>, v: PV) -> Seq<PV> { if listed(h, v) { items(h, v) } else { seq![v] } }
pub open spec fn plain(h: Map<int, Obj>, h0: Map<int, Obj>, c: PV, p: PV) -> bool { one(h, h0, -1, c, S"match_phrase") && one(h, h0, -1, fld(h, c, S"match_phrase"), S"text") && fld(h, fld(h, c, S"match_phrase"), S"text") == p }
pub open spec fn plains(h: Map<int, Obj>, h0: Map<int, Obj>, l: Seq<PV>, p: Seq<PV>) -> bool {
    l.len() == p.len() && forall|i: int| #![trigger l[i]] #![trigger p[i]] 0 <= i < p.len() ==> plain(h, h0, l[i], p[i])
}
/// a query for one phrase: documents with all of its parts, and that pass every filter
pub open spec fn each_body(h: Map<int, Obj>, h0: Map<int, Obj>, body: PV, p: Seq<PV>, f: Seq<PV>) -> bool {
    let q = fld(h, body, S"query");
    let b = fld(h, q, S"bool");
    let l = fld(h, b, S"filter");
    &&& nw(h, h0, -1, body) && h[body->Ref_0] is Dict && h[body->Ref_0]->m.dom().contains(S"query")
    &&& one(h, h0, -1, q, S"bool") && one(h, h0, -1, b, S"filter") && listed(h, l) && !h0.dom().contains(l->Ref_0)
    &&& items(h, l).len() == p.len() + f.len()
    &&& plains(h, h0, items(h, l).take(p.len() as int), p)
    &&& terms(h, h0, -1, items(h, l).skip(p.len() as int), f)
}
pub open spec fn each_head(h: Map<int, Obj>, h0: Map<int, Obj>, head: PV, index: PV) -> bool { nw(h, h0, -1, head) && h[head->Ref_0] is Dict && h[head->Ref_0]->m.dom().contains(S"index") && fld(h, head, S"index") == index }
pub open spec fn each_ok(s: Sent, h0: Map<int, Obj>, index: PV, p: Seq<PV>, b: Seq<PV>) -> bool {
    each_head(s.h, h0, s.head, index) && exists|f: Seq<PV>| #[trigger] filters(s.h, h0, b, index, f) && each_body(s.h, h0, s.body, p, f)
}
pub proof fn lemma_plains(a: Map<int, Obj>, b: Map<int, Obj>, h0: Map<int, Obj>, l: Seq<PV>, p: Seq<PV>)
    requires keeps(a, b, h0, -1), plains(a, h0, l, p)
    ensures plains(b, h0, l, p)
{ assert forall|i: int| 0 <= i < p.len() implies plain(b, h0, l[i], p[i]) by { assert(plain(a, h0, l[i], p[i])); } }
pub proof fn lemma_plains_push(h: Map<int, Obj>, h0: Map<int, Obj>, l: Seq<PV>, p: Seq<PV>, t: PV, g: PV)
    requires plains(h, h0, l, p), plain(h, h0, t, g)
    ensures plains(h, h0, l.push(t), p.push(g)) {}
pub proof fn lemma_plains_none(h: Map<int, Obj>, h0: Map<int, Obj>) ensures plains(h, h0, Seq::empty(), Seq::empty()) {}
/// everything made since h0 but these objects is as it was
pub open spec fn keeps3(a: Map<int, Obj>, b: Map<int, Obj>, h0: Map<int, Obj>, x: int, y: int, z: int) -> bool {
    forall|i: int| #![trigger a.dom().contains(i)] #![trigger b.dom().contains(i)] #![trigger b[i]] a.dom().contains(i) && !h0.dom().contains(i) && i != x && i != y && i != z ==> b.dom().contains(i) && b[i] == a[i]
}
/// the list of a query's clauses
pub open spec fn clause_list(h: Map<int, Obj>, body: PV) -> int { fld(h, fld(h, fld(h, body, S"query"), S"bool"), S"filter")->Ref_0 }
pub proof fn lemma_each(a: Map<int, Obj>, b: Map<int, Obj>, h0: Map<int, Obj>, x: int, y: int, z: int, head: PV, body: PV, index: PV, p: Seq<PV>, f: Seq<PV>)
    requires keeps3(a, b, h0, x, y, z), !(a[x] is Dict), !(a[y] is Dict), !(a[z] is Dict), each_head(a, h0, head, index), each_body(a, h0, body, p, f),
        clause_list(a, body) != x, clause_list(a, body) != y, clause_list(a, body) != z,
    ensures each_head(b, h0, head, index), each_body(b, h0, body, p, f), clause_list(b, body) == clause_list(a, body)
{
    let l = fld(a, fld(a, fld(a, body, S"query"), S"bool"), S"filter");
    assert(keeps(a, b, h0, -1));
    lemma_plains(a, b, h0, items(a, l).take(p.len() as int), p);
    lemma_terms(a, b, h0, -1, items(a, l).skip(p.len() as int), f);
}
/// every phrase is in one query, and the queries are in the order of the phrases
pub open spec fn all_sent(sent: Seq<Sent>, n: int, h0: Map<int, Obj>, index: PV, ph: Seq<PV>, b: Seq<PV>) -> bool {
    sent.len() == n && forall|g: int| 0 <= g < n ==> each_ok(#[trigger] sent[g], h0, index, parts(h0, ph[g]), b)
}
pub open spec fn counts(sent: Seq<Sent>) -> Seq<PV> { Seq::new(sent.len(), |g: int| PV::Int(count_for(sent[g]))) }
/// the queries built so far for the phrases from p0 on
pub open spec fn built(h: Map<int, Obj>, h0: Map<int, Obj>, l: Seq<PV>, k: int, p0: int, index: PV, ph: Seq<PV>, f: Seq<PV>, x: int, y: int, z: int) -> bool {
    l.len() == 2 * k && forall|j: int| 0 <= j < k ==> #[trigger] built1(h, h0, l, j, p0, index, ph, f, x, y, z)
}
pub open spec fn built1(h: Map<int, Obj>, h0: Map<int, Obj>, l: Seq<PV>, j: int, p0: int, index: PV, ph: Seq<PV>, f: Seq<PV>, x: int, y: int, z: int) -> bool {
    each_head(h, h0, l[2 * j], index) && each_body(h, h0, l[2 * j + 1], parts(h0, ph[p0 + j]), f)
        && clause_list(h, l[2 * j + 1]) != x && clause_list(h, l[2 * j + 1]) != y && clause_list(h, l[2 * j + 1]) != z
}
pub proof fn lemma_built(a: Map<int, Obj>, b: Map<int, Obj>, h0: Map<int, Obj>, l: Seq<PV>, k: int, p0: int, index: PV, ph: Seq<PV>, f: Seq<PV>, x: int, y: int, z: int)
    requires built(a, h0, l, k, p0, index, ph, f, x, y, z), keeps3(a, b, h0, x, y, z), !(a[x] is Dict), !(a[y] is Dict), !(a[z] is Dict)
    ensures built(b, h0, l, k, p0, index, ph, f, x, y, z)
{
    assert forall|j: int| 0 <= j < k implies #[trigger] built1(b, h0, l, j, p0, index, ph, f, x, y, z) by {
        assert(built1(a, h0, l, j, p0, index, ph, f, x, y, z));
        lemma_each(a, b, h0, x, y, z, l[2 * j], l[2 * j + 1], index, parts(h0, ph[p0 + j]), f);
    }
}
pub proof fn lemma_built_push(h: Map<int, Obj>, h0: Map<int, Obj>, l: Seq<PV>, m: Seq<PV>, k: int, p0: int, index: PV, ph: Seq<PV>, f: Seq<PV>, x: int, y: int, z: int)
    requires built(h, h0, l, k, p0, index, ph, f, x, y, z), k >= 0, m.len() == 2 * k + 2, m.take(2 * k) == l, built1(h, h0, m, k, p0, index, ph, f, x, y, z)
    ensures built(h, h0, m, k + 1, p0, index, ph, f, x, y, z)
{
    assert forall|j: int| 0 <= j < k + 1 implies #[trigger] built1(h, h0, m, j, p0, index, ph, f, x, y, z) by {
        if j < k { assert(built1(h, h0, l, j, p0, index, ph, f, x, y, z)); assert(m.take(2 * k)[2 * j] == m[2 * j]); assert(m.take(2 * k)[2 * j + 1] == m[2 * j + 1]); }
    }
}
pub proof fn lemma_all_sent(sent: Seq<Sent>, h: Map<int, Obj>, l: Seq<PV>, k: int, h0: Map<int, Obj>, p0: int, index: PV, ph: Seq<PV>, b: Seq<PV>, f: Seq<PV>, x: int, y: int, z: int)
    requires all_sent(sent, p0, h0, index, ph, b), built(h, h0, l, k, p0, index, ph, f, x, y, z), k >= 0, p0 >= 0, filters(h, h0, b, index, f)
    ensures all_sent(sent + queries_of(h, l), p0 + k, h0, index, ph, b), counts(sent + queries_of(h, l)) =~= counts(sent) + counts(queries_of(h, l))
{
    let q = queries_of(h, l);
    assert(q.len() == k);
    assert forall|g: int| 0 <= g < p0 + k implies each_ok(#[trigger] (sent + q)[g], h0, index, parts(h0, ph[g]), b) by {
        if g < p0 { assert((sent + q)[g] == sent[g]); }
        else { assert((sent + q)[g] == q[g - p0]); assert(built1(h, h0, l, g - p0, p0, index, ph, f, x, y, z)); }
    }
}
/// phrase g is asked for by query g and by no other: there are as many queries as phrases
pub proof fn theorem_sent(sent: Seq<Sent>, n: int, h0: Map<int, Obj>, index: PV, ph: Seq<PV>, b: Seq<PV>, g: int)
    requires all_sent(sent, n, h0, index, ph, b), 0 <= g < n
    ensures counts(sent).len() == n && counts(sent)[g] == PV::Int(count_for(sent[g])) && each_ok(sent[g], h0, index, parts(h0, ph[g]), b) // [C34]
{}
#[verifier::rlimit(200)] #[verifier::spinoff_prover]
pub fn count_each(index: &V, phrases: &V, batch_size: &V, timeout: &V, all_phrases: &V, subset_filter: &V, es: &V, w: &mut World) -> (r: R)
    requires
        index@ is Str, phrases@ is Str || is_list(old(w)@, phrases@), all_phrases@ is Bool, batch_size@ is Int, batch_size@->Int_0 >= 1, timeout@ is Str,
        forall|i: int| 0 <= i < phrases_of(old(w)@, phrases@).len() ==> (#[trigger] phrases_of(old(w)@, phrases@)[i]) is Str || listed(old(w)@.heap, phrases_of(old(w)@, phrases@)[i]),
        subset_filter@ is None || is_list(old(w)@, subset_filter@), es_ok(es@), old(w)@.ext.sent.len() == 0, old(w)@.ext.batches.len() == 0,
    ensures
        // one query for every phrase, in order, with every filter
        r is Ok ==> all_sent(final(w)@.ext.sent, phrases_of(old(w)@, phrases@).len() as int, old(w)@.heap, index@, phrases_of(old(w)@, phrases@), base(old(w)@, subset_filter@)), // [C34 C35]
        // one count for every phrase, in order
        r is Ok ==> is_list(final(w)@, r->Ok_0@) && lst(final(w)@, r->Ok_0@) =~= counts(final(w)@.ext.sent), // [C34]
        r is Ok ==> forall|i: int| 0 <= i < final(w)@.ext.batches.len() ==> (#[trigger] final(w)@.ext.batches[i]) <= batch_size@->Int_0, // [C34]
        r is Ok ==> grown(old(w)@.heap, final(w)@.heap), // [C35]
{
    hide(plains); hide(terms); hide(plain); hide(each_body); hide(each_ok); hide(built1);
/*@pybody
@file wimbd/es/__init__.py
@item count_documents_for_each_phrase
@params index phrases batch_size timeout all_phrases subset_filter es
@kwargs batch_size timeout all_phrases subset_filter es
@locals final_counts done generator queries i phrase match_query phr filter_ results
@start
    let ghost g_h = w@.heap;
    let ghost g_w = w@;
    let ghost g_ph = phrases_of(w@, phrases@);
    let ghost g_np = g_ph.len() as int;
    let ghost g_base = base(w@, subset_filter@);
    let ghost g_bs = batch_size@->Int_0;
@after generator = =>>
    let ghost g_f = base(w@, subset_filter@);
    let ghost g_sf = if subset_filter@ is None { -1 } else { subset_filter@->Ref_0 };
    let ghost g_pr = phrases@->Ref_0;
    let ghost g_gen = generator@->Ref_0;
    let ghost g_fc = final_counts@->Ref_0;
    proof { assert(filters(w@.heap, g_h, g_base, index@, g_f)); assert(counts(w@.ext.sent) =~= Seq::empty()); }
@pre 0
    #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@loop 0
    invariant
        done@ == PV::Bool(false), es@ == PV::Glob(G_ES()),
        is_iter(w@, PV::Ref(g_gen)), generator@ == PV::Ref(g_gen), w@.heap[g_gen]->src == g_pr, !g_h.dom().contains(g_gen), 0 <= w@.heap[g_gen]->pos <= g_np,
        w@.heap.dom().contains(g_pr), w@.heap[g_pr] == Obj::List(g_ph), g_pr != g_gen, g_pr != g_fc, g_sf != g_fc, g_sf != g_gen, g_fc != g_gen,
        subset_filter@ is None || w@.heap.dom().contains(g_sf) && w@.heap[g_sf] == Obj::List(g_f),
        is_list(w@, PV::Ref(g_fc)), final_counts@ == PV::Ref(g_fc), !g_h.dom().contains(g_fc), lst(w@, PV::Ref(g_fc)) =~= counts(w@.ext.sent),
        filters(w@.heap, g_h, g_base, index@, g_f), grown(g_h, w@.heap),
        all_sent(w@.ext.sent, w@.heap[g_gen]->pos, g_h, index@, g_ph, g_base),
        forall|i: int| 0 <= i < w@.ext.batches.len() ==> (#[trigger] w@.ext.batches[i]) <= g_bs,
    ensures w@.heap[g_gen]->pos == g_np
    decreases g_np - w@.heap[g_gen]->pos
@head 0
    let ghost g_x0 = w@;
    let ghost g_p0 = w@.heap[g_gen]->pos;
@pre 1
    let ghost g_q = queries@->Ref_0;
    let ghost g_en = __it1@->Ref_0;
    let ghost g_x1 = w@;
    let ghost mut g_k: int = 0;
    proof { assert(built(w@.heap, g_h, lst(w@, queries@), 0, g_p0, index@, g_ph, g_f, g_q, g_gen, g_en)); }
@loop 1
    invariant_except_break
        forall|i: int| 0 <= i < g_np ==> (#[trigger] g_ph[i]) is Str || listed(g_h, g_ph[i]), g_np == g_ph.len(), 0 <= g_p0, batch_size@ == PV::Int(g_bs), index@ is Str, timeout@ is Str,
        subset_filter@ is None || subset_filter@ == PV::Ref(g_sf), subset_filter@ is None ==> g_f.len() == 0, g_sf != g_gen, g_sf != g_fc, g_pr != g_gen, g_pr != g_fc, g_fc != g_gen, !g_h.dom().contains(g_gen),
        w@.heap.dom().contains(g_en), __it1@ == PV::Ref(g_en), w@.heap[g_en] == (Obj::Enum { it: PV::Ref(g_gen), n: 1 + g_k }), !g_h.dom().contains(g_en), g_en != g_pr, g_en != g_sf, g_en != g_fc, g_en != g_gen,
        is_iter(w@, PV::Ref(g_gen)), w@.heap[g_gen]->src == g_pr, w@.heap[g_gen]->pos == g_p0 + g_k, 0 <= g_k, g_k < g_bs, g_p0 + g_k <= g_np,
        w@.heap.dom().contains(g_pr), w@.heap[g_pr] == Obj::List(g_ph),
        subset_filter@ is None || w@.heap.dom().contains(g_sf) && w@.heap[g_sf] == Obj::List(g_f),
        is_list(w@, PV::Ref(g_fc)), lst(w@, PV::Ref(g_fc)) == lst(g_x0, PV::Ref(g_fc)),
        is_list(w@, PV::Ref(g_q)), queries@ == PV::Ref(g_q), !g_h.dom().contains(g_q), g_q != g_pr, g_q != g_sf, g_q != g_fc, g_q != g_gen, g_q != g_en,
        filters(w@.heap, g_h, g_base, index@, g_f), grown(g_h, w@.heap), w@ == (PW { heap: w@.heap, ..g_x1 }),
        built(w@.heap, g_h, lst(w@, queries@), g_k, g_p0, index@, g_ph, g_f, g_q, g_gen, g_en),
    ensures
        w@.heap.dom().contains(g_en), is_iter(w@, PV::Ref(g_gen)), w@.heap[g_gen]->src == g_pr, w@.heap[g_gen]->pos == g_p0 + g_k, 0 <= g_k, g_k <= g_bs, g_p0 + g_k <= g_np,
        w@.heap.dom().contains(g_pr), w@.heap[g_pr] == Obj::List(g_ph),
        subset_filter@ is None || w@.heap.dom().contains(g_sf) && w@.heap[g_sf] == Obj::List(g_f),
        is_list(w@, PV::Ref(g_fc)), lst(w@, PV::Ref(g_fc)) == lst(g_x0, PV::Ref(g_fc)), is_list(w@, PV::Ref(g_q)),
        filters(w@.heap, g_h, g_base, index@, g_f), grown(g_h, w@.heap), w@ == (PW { heap: w@.heap, ..g_x1 }),
        built(w@.heap, g_h, lst(w@, queries@), g_k, g_p0, index@, g_ph, g_f, g_q, g_gen, g_en),
        g_p0 + g_k == g_np || g_k == g_bs,
    decreases g_np - g_p0 - g_k
@head 1
    let ghost g_t = w@.heap;
    let ghost g_l = lst(w@, queries@);
@after match_query = =>>
    let ghost g_pl = parts(g_h, g_ph[g_p0 + g_k]);
    let ghost g_m = match_query@->Ref_0;
    let ghost g_x2 = w@;
    proof { assert(is_list(w@, phrase@) && lst(w@, phrase@) =~= g_pl); lemma_plains_none(w@.heap, g_h); assert(g_pl.take(0) =~= Seq::empty()); }
@pre 2
    let ghost g_i2 = __it2@->Ref_0;
    proof { lemma_plains(g_x2.heap, w@.heap, g_h, Seq::empty(), Seq::empty()); }
@loop 2
    invariant
        !g_x2.heap.dom().contains(g_i2), !g_h.dom().contains(g_i2), __it2@ == PV::Ref(g_i2), match_query@ == PV::Ref(g_m), g_i2 != g_m, phrase@->Ref_0 != g_m, phrase@->Ref_0 != g_i2, is_iter(w@, PV::Ref(g_i2)), w@.heap[g_i2]->src == phrase@->Ref_0, 0 <= w@.heap[g_i2]->pos <= g_pl.len(), is_list(w@, phrase@), lst(w@, phrase@) == g_pl,
        listed(w@.heap, PV::Ref(g_m)), plains(w@.heap, g_h, items(w@.heap, PV::Ref(g_m)), g_pl.take(w@.heap[g_i2]->pos)),
        but(g_x2.heap, w@.heap, g_m), grown(g_h, w@.heap), !g_h.dom().contains(g_m),
        w@ == (PW { heap: w@.heap, ..g_x2 }),
    ensures w@.heap[g_i2]->pos == g_pl.len()
    decreases g_pl.len() - w@.heap[g_i2]->pos
@head 2
    let ghost g_t2 = w@.heap;
@bottom 2
    proof {
        let n = w@.heap[g_i2]->pos - 1;
        let (a, b) = (items(g_t2, PV::Ref(g_m)), items(w@.heap, PV::Ref(g_m)));
        lemma_plains(g_t2, w@.heap, g_h, a, g_pl.take(n));
        assert(b =~= a.push(b.last()));
        assert(plain(w@.heap, g_h, b.last(), g_pl[n])) by { reveal(plain); }
        lemma_plains_push(w@.heap, g_h, a, g_pl.take(n), b.last(), g_pl[n]);
        assert(g_pl.take(n).push(g_pl[n]) =~= g_pl.take(n + 1));
    }
@post 2
    let ghost g_x3 = w@;
    let ghost g_pc = items(w@.heap, PV::Ref(g_m));
    proof { assert(g_pl.take(g_pl.len() as int) =~= g_pl); lemma_plains_len(w@.heap, g_h, g_pc, g_pl); lemma_terms_none(w@.heap, g_h, -1); assert(g_pc.skip(g_pl.len() as int) =~= Seq::empty()); assert(g_f.take(0) =~= Seq::empty()); }
@pre 3
    let ghost g_i3 = __it3@->Ref_0;
    proof { lemma_terms(g_x3.heap, w@.heap, g_h, -1, Seq::empty(), Seq::empty()); }
@loop 3
    invariant
        !g_x3.heap.dom().contains(g_i3), !g_h.dom().contains(g_i3), __it3@ == PV::Ref(g_i3), match_query@ == PV::Ref(g_m), subset_filter@ == PV::Ref(g_sf), g_i3 != g_m, g_sf != g_m, g_sf != g_i3, g_pc.len() == g_pl.len(), is_iter(w@, PV::Ref(g_i3)), w@.heap[g_i3]->src == g_sf, 0 <= w@.heap[g_i3]->pos <= g_f.len(), w@.heap.dom().contains(g_sf), w@.heap[g_sf] == Obj::List(g_f),
        listed(w@.heap, PV::Ref(g_m)), items(w@.heap, PV::Ref(g_m)).len() == g_pl.len() + w@.heap[g_i3]->pos, items(w@.heap, PV::Ref(g_m)).take(g_pl.len() as int) =~= g_pc,
        terms(w@.heap, g_h, -1, items(w@.heap, PV::Ref(g_m)).skip(g_pl.len() as int), g_f.take(w@.heap[g_i3]->pos)),
        but(g_x3.heap, w@.heap, g_m), grown(g_h, w@.heap), !g_h.dom().contains(g_m),
        w@ == (PW { heap: w@.heap, ..g_x3 }),
    ensures w@.heap[g_i3]->pos == g_f.len()
    decreases g_f.len() - w@.heap[g_i3]->pos
@head 3
    let ghost g_t3 = w@.heap;
@bottom 3
    proof {
        let n = w@.heap[g_i3]->pos - 1;
        let (a, b) = (items(g_t3, PV::Ref(g_m)), items(w@.heap, PV::Ref(g_m)));
        lemma_terms(g_t3, w@.heap, g_h, -1, a.skip(g_pl.len() as int), g_f.take(n));
        assert(b =~= a.push(b.last()));
        assert(b.skip(g_pl.len() as int) =~= a.skip(g_pl.len() as int).push(b.last()));
        lemma_terms_push(w@.heap, g_h, -1, a.skip(g_pl.len() as int), g_f.take(n), b.last(), g_f[n]);
        assert(g_f.take(n).push(g_f[n]) =~= g_f.take(n + 1));
    }
@before queries.append({'index': =>>
    let ghost g_x4 = w@;
    proof { assert(items(w@.heap, PV::Ref(g_m)).take(g_pl.len() as int) =~= g_pc); assert(but(g_x3.heap, w@.heap, g_m)); assert(grown(g_h, w@.heap)); assert(keeps(g_x3.heap, w@.heap, g_h, -1)); assert(g_f.take(g_f.len() as int) =~= g_f); assert(terms(w@.heap, g_h, -1, items(w@.heap, PV::Ref(g_m)).skip(g_pl.len() as int), g_f)); }
@before if i == batch_size =>>
    proof {
        let h = w@.heap;
        let m = lst(w@, queries@);
        assert(keeps(g_x3.heap, h, g_h, -1));
        lemma_plains(g_x3.heap, h, g_h, g_pc, g_pl);
        assert(keeps(g_x4.heap, h, g_h, -1));
        lemma_terms(g_x4.heap, h, g_h, -1, items(g_x4.heap, PV::Ref(g_m)).skip(g_pl.len() as int), g_f);
        assert(each_body(h, g_h, m[2 * g_k + 1], g_pl, g_f)) by {
            reveal(each_body);
            let body = m[2 * g_k + 1];
            assert(nw(h, g_h, -1, body) && h[body->Ref_0] is Dict && h[body->Ref_0]->m.dom().contains(S"query"));
            let q = fld(h, body, S"query");
            assert(one(h, g_h, -1, q, S"bool"));
            let b = fld(h, q, S"bool");
            assert(one(h, g_h, -1, b, S"filter"));
            assert(fld(h, b, S"filter") == PV::Ref(g_m));
            assert(h[g_m] == g_x4.heap[g_m]);
            assert(plains(h, g_h, items(h, PV::Ref(g_m)).take(g_pl.len() as int), g_pl));
            assert(terms(h, g_h, -1, items(h, PV::Ref(g_m)).skip(g_pl.len() as int), g_f));
        }
        assert(each_head(h, g_h, m[2 * g_k], index@));
        assert(built1(h, g_h, m, g_k, g_p0, index@, g_ph, g_f, g_q, g_gen, g_en)) by { reveal(built1); }
        lemma_built(g_t, h, g_h, g_l, g_k, g_p0, index@, g_ph, g_f, g_q, g_gen, g_en);
        assert(m.take(2 * g_k) =~= g_l);
        lemma_built_push(h, g_h, g_l, m, g_k, g_p0, index@, g_ph, g_f, g_q, g_gen, g_en);
        g_k = g_k + 1;
    }
@before results = =>>
    let ghost g_x5 = w@;
    let ghost g_qs = queries_of(w@.heap, lst(w@, queries@));
    proof { lemma_all_sent(w@.ext.sent, w@.heap, lst(w@, queries@), g_k, g_h, g_p0, index@, g_ph, g_base, g_f, g_q, g_gen, g_en); }
@pre 4
    let ghost g_i4 = __it4@->Ref_0;
    let ghost g_a4 = __acc4@->Ref_0;
    let ghost g_x6 = w@;
    let ghost g_rs = w@.heap[g_i4]->src;
@loop 4
    invariant
        __it4@ == PV::Ref(g_i4), __acc4@ == PV::Ref(g_a4), g_i4 != g_a4, g_rs != g_a4, g_rs != g_i4, is_iter(w@, PV::Ref(g_i4)), w@.heap[g_i4]->src == g_rs, listed(w@.heap, PV::Ref(g_rs)), 0 <= w@.heap[g_i4]->pos <= g_qs.len(), items(w@.heap, PV::Ref(g_rs)).len() == g_qs.len(),
        forall|j: int| 0 <= j < g_qs.len() ==> response(w@.heap, #[trigger] items(w@.heap, PV::Ref(g_rs))[j], g_qs[j]),
        listed(w@.heap, PV::Ref(g_a4)), items(w@.heap, PV::Ref(g_a4)) =~= counts(g_qs).take(w@.heap[g_i4]->pos),
        forall|i: int| #![trigger g_x6.heap.dom().contains(i)] #![trigger w@.heap.dom().contains(i)] #![trigger w@.heap[i]] g_x6.heap.dom().contains(i) && i != g_a4 && i != g_i4 ==> w@.heap.dom().contains(i) && w@.heap[i] == g_x6.heap[i],
        w@ == (PW { heap: w@.heap, ..g_x6 }),
    ensures w@.heap[g_i4]->pos == g_qs.len()
    decreases g_qs.len() - w@.heap[g_i4]->pos
@*/
}
pub proof fn lemma_plains_len(h: Map<int, Obj>, h0: Map<int, Obj>, l: Seq<PV>, p: Seq<PV>) requires plains(h, h0, l, p) ensures l.len() == p.len() {}
// ------------------------------------------------------------------ occurrences of single words
pub open spec fn is_match(h: Map<int, Obj>, h0: Map<int, Obj>, c: PV, t: PV) -> bool { one(h, h0, -1, c, S"match") && one(h, h0, -1, fld(h, c, S"match"), S"text") && fld(h, fld(h, c, S"match"), S"text") == t }
/// documents with this word, and that pass every filter
pub open spec fn uni_query(h: Map<int, Obj>, h0: Map<int, Obj>, q: PV, t: PV, f: Seq<PV>) -> bool {
    let b = fld(h, q, S"bool");
    let l = fld(h, b, S"filter");
    &&& one(h, h0, -1, q, S"bool") && one(h, h0, -1, b, S"filter")
    &&& if f.len() == 0 && !listed(h, l) { is_match(h, h0, l, t) }
        else { listed(h, l) && !h0.dom().contains(l->Ref_0) && items(h, l).len() == 1 + f.len() && is_match(h, h0, items(h, l)[0], t) && terms(h, h0, -1, items(h, l).skip(1), f) }
}
pub proof fn lemma_uni(a: Map<int, Obj>, b: Map<int, Obj>, h0: Map<int, Obj>, q: PV, t: PV, f: Seq<PV>)
    requires uni_query(a, h0, q, t, f), grown(a, b)
    ensures uni_query(b, h0, q, t, f)
{
    let l = fld(a, fld(a, q, S"bool"), S"filter");
    if listed(a, l) { assert(keeps(a, b, h0, -1)); lemma_terms(a, b, h0, -1, items(a, l).skip(1), f); }
}
pub open spec fn uni_ok(s: Sent, h0: Map<int, Obj>, index: PV, t: PV, b: Seq<PV>) -> bool {
    s.head == index && grown(h0, s.h) && exists|f: Seq<PV>| #[trigger] filters(s.h, h0, b, index, f) && uni_query(s.h, h0, s.body, t, f)
}
/// n words, with one request to each of k shards: request g is about word g / k
pub open spec fn uni_sent(sent: Seq<Sent>, n: int, k: int, h0: Map<int, Obj>, index: PV, u: Seq<PV>, b: Seq<PV>) -> bool {
    sent.len() == n * k && forall|g: int, i: int| 0 <= g < n && 0 <= i < k ==> uni_ok(#[trigger] sent[g * k + i], h0, index, u[g], b)
}
pub proof fn lemma_at(g: int, i: int, n: int, k: int)
    requires 0 <= g < n, 0 <= i < k
    ensures 0 <= g * k + i < n * k, (n + 1) * k == n * k + k
{ assert(g * k + i < n * k) by (nonlinear_arith) requires 0 <= g < n, 0 <= i < k; assert(0 <= g * k + i) by (nonlinear_arith) requires 0 <= g, 0 <= i < k; assert((n + 1) * k == n * k + k) by (nonlinear_arith); }
pub proof fn lemma_uni_next(a: Seq<Sent>, c: Seq<Sent>, n: int, k: int, h0: Map<int, Obj>, index: PV, u: Seq<PV>, b: Seq<PV>)
    requires uni_sent(a, n, k, h0, index, u, b), n >= 0, k >= 0, c.len() == a.len() + k, c.take(a.len() as int) == a,
        forall|i: int| #![trigger c[a.len() + i]] 0 <= i < k ==> uni_ok(c[a.len() + i], h0, index, u[n], b)
    ensures uni_sent(c, n + 1, k, h0, index, u, b)
{
    assert((n + 1) * k == n * k + k) by (nonlinear_arith);
    assert forall|g: int, i: int| 0 <= g < n + 1 && 0 <= i < k implies uni_ok(#[trigger] c[g * k + i], h0, index, u[g], b) by {
        if g < n { lemma_at(g, i, n, k); assert(c.take(a.len() as int)[g * k + i] == c[g * k + i]); assert(uni_ok(a[g * k + i], h0, index, u[g], b)); }
        else { assert(c[a.len() + i] == c[g * k + i]); }
    }
}
pub open spec fn G_ESCAT() -> int { 46 }
#[verifier::external_body] pub fn a_cat(es: &V, w: &mut World) -> (r: R) ensures es@ == PV::Glob(G_ES()) && r is Ok ==> final(w)@ == old(w)@ && r->Ok_0@ == PV::Glob(G_ESCAT()) { unimplemented!() }
/// the shards of an index: no search
#[verifier::external_body] pub fn m_shards_0__format_index(c: &V, format: &V, index: &V, w: &mut World) -> (r: R)
    ensures c@ == PV::Glob(G_ESCAT()) && r is Ok ==> grown(old(w)@.heap, final(w)@.heap) && final(w)@ == (PW { heap: final(w)@.heap, ..old(w)@ }) && is_list(final(w)@, r->Ok_0@) { unimplemented!() }
#[verifier::external_body] pub fn m_search_0__index_preference_query_stored_fields_track_total_hits(es: &V, index: &V, pref: &V, query: &V, st: &V, tt: &V, w: &mut World) -> (r: R)
    ensures search_ok(es@, old(w)@, final(w)@, r, index@, query@, PV::None, PV::None, PV::None) { unimplemented!() }
/// the term vector of a document: no search; a dict for every word, with its number of occurrences
pub open spec fn vector(h: Map<int, Obj>, r: PV) -> bool {
    &&& has(h, r, S"term_vectors") && has(h, fld(h, r, S"term_vectors"), S"text") && has(h, fld(h, fld(h, r, S"term_vectors"), S"text"), S"terms")
    &&& ({ let t = fld(h, fld(h, fld(h, r, S"term_vectors"), S"text"), S"terms");
        t is Ref && h.dom().contains(t->Ref_0) && h[t->Ref_0] is Dict && h[t->Ref_0]->dflt is None
        && forall|k: PV| #[trigger] h[t->Ref_0]->m.dom().contains(k) ==> has(h, h[t->Ref_0]->m[k], S"ttf") && fld(h, h[t->Ref_0]->m[k], S"ttf") is Int })
}
#[verifier::external_body] pub fn m_termvectors_0__fields_id_index_positions_preference_term_statistics(es: &V, fields: &V, id: &V, index: &V, po: &V, pr: &V, ts: &V, w: &mut World) -> (r: R)
    ensures es@ == PV::Glob(G_ES()) && r is Ok ==> grown(old(w)@.heap, final(w)@.heap) && final(w)@ == (PW { heap: final(w)@.heap, ..old(w)@ }) && vector(final(w)@.heap, r->Ok_0@) { unimplemented!() }
#[verifier::rlimit(100)] #[verifier::spinoff_prover]
pub fn count_unigrams(index: &V, unigrams: &V, subset_filter: &V, es: &V, w: &mut World) -> (r: R)
    requires
        index@ is Str, unigrams@ is Str || is_list(old(w)@, unigrams@), all_text(phrases_of(old(w)@, unigrams@)),
        subset_filter@ is None || is_list(old(w)@, subset_filter@), es_ok(es@), old(w)@.ext.sent.len() == 0,
    ensures
        // for every word, in order, the same number of requests, each about that word and with every filter
        r is Ok ==> exists|k: int| k >= 0 && #[trigger] uni_sent(final(w)@.ext.sent, phrases_of(old(w)@, unigrams@).len() as int, k, old(w)@.heap, index@, phrases_of(old(w)@, unigrams@), base(old(w)@, subset_filter@)), // [C35]
        r is Ok ==> grown(old(w)@.heap, final(w)@.heap), // [C35]
{
    hide(terms); hide(uni_ok);
/*@pybody
@file wimbd/es/__init__.py
@item count_total_occurrences_of_unigrams
@params index unigrams subset_filter es
@kwargs subset_filter es
@locals num_shards term_freq_dict term query filter_ total_freq i documents doc_id term_vector ttf
@start
    let ghost g_h = w@.heap;
    let ghost g_u = phrases_of(w@, unigrams@);
    let ghost g_n = g_u.len() as int;
    let ghost g_base = base(w@, subset_filter@);
@pre 0
    let ghost g_i0 = __it0@->Ref_0;
    let ghost g_ur = unigrams@->Ref_0;
    let ghost g_k = num_shards@->Int_0;
    let ghost g_f = base(w@, subset_filter@);
    let ghost g_sf = if subset_filter@ is None { -1 } else { subset_filter@->Ref_0 };
    let ghost g_d = term_freq_dict@->Ref_0;
    proof { assert(filters(w@.heap, g_h, g_base, index@, g_f)); assert(0 * g_k == 0) by (nonlinear_arith); }
@loop 0
    invariant
        all_text(g_u), g_n == g_u.len(), es@ == PV::Glob(G_ES()), num_shards@ == PV::Int(g_k), g_k >= 0, index@ is Str,
        subset_filter@ is None || subset_filter@ == PV::Ref(g_sf) && w@.heap.dom().contains(g_sf) && w@.heap[g_sf] == Obj::List(g_f), subset_filter@ is None ==> g_f.len() == 0,
        __it0@ == PV::Ref(g_i0), is_iter(w@, PV::Ref(g_i0)), w@.heap[g_i0]->src == g_ur, !g_h.dom().contains(g_i0), 0 <= w@.heap[g_i0]->pos <= g_n,
        w@.heap.dom().contains(g_ur), w@.heap[g_ur] == Obj::List(g_u), g_ur != g_i0, g_ur != g_d, g_i0 != g_d, g_sf != g_i0, g_sf != g_d,
        term_freq_dict@ == PV::Ref(g_d), is_dict(w@, PV::Ref(g_d)), !g_h.dom().contains(g_d), index@ == S"c4" ==> g_f.len() > 0 && g_f.last()->Ref_0 != g_d,
        filters(w@.heap, g_h, g_base, index@, g_f), grown(g_h, w@.heap),
        uni_sent(w@.ext.sent, w@.heap[g_i0]->pos, g_k, g_h, index@, g_u, g_base),
    ensures w@.heap[g_i0]->pos == g_n
    decreases g_n - w@.heap[g_i0]->pos
@head 0
    let ghost g_x0 = w@;
    let ghost g_p = w@.heap[g_i0]->pos;
@before if subset_filter: =>>
    let ghost g_xq = w@;
@pre 1
    let ghost g_i1 = __it1@->Ref_0;
    let ghost g_x1 = w@;
    let ghost g_l = fld(w@.heap, fld(w@.heap, query@, S"bool"), S"filter")->Ref_0;
    let ghost g_b = fld(w@.heap, query@, S"bool")->Ref_0;
    let ghost g_t = g_u[g_p];
    proof { lemma_terms_none(w@.heap, g_h, -1); assert(items(w@.heap, PV::Ref(g_l)).skip(1) =~= Seq::empty()); assert(g_f.take(0) =~= Seq::empty()); }
@loop 1
    invariant
        __it1@ == PV::Ref(g_i1), is_iter(w@, PV::Ref(g_i1)), w@.heap[g_i1]->src == g_sf, 0 <= w@.heap[g_i1]->pos <= g_f.len(), w@.heap.dom().contains(g_sf), w@.heap[g_sf] == Obj::List(g_f),
        one(w@.heap, g_h, -1, query@, S"bool"), fld(w@.heap, query@, S"bool") == PV::Ref(g_b), one(w@.heap, g_h, -1, PV::Ref(g_b), S"filter"), fld(w@.heap, PV::Ref(g_b), S"filter") == PV::Ref(g_l),
        listed(w@.heap, PV::Ref(g_l)), !g_x0.heap.dom().contains(g_l), !g_x0.heap.dom().contains(g_i1), g_i1 != g_l, g_sf != g_l, g_sf != g_i1, g_i1 != g_b, g_b != g_l, g_i1 != query@->Ref_0,
        is_dict(w@, PV::Ref(g_b)), is_dict(w@, query@), dd(w@, PV::Ref(g_b)) is None, dd(w@, query@) is None,
        items(w@.heap, PV::Ref(g_l)).len() == 1 + w@.heap[g_i1]->pos, is_match(w@.heap, g_h, items(w@.heap, PV::Ref(g_l))[0], g_t),
        terms(w@.heap, g_h, -1, items(w@.heap, PV::Ref(g_l)).skip(1), g_f.take(w@.heap[g_i1]->pos)),
        g_x0.heap.dom().contains(g_i0), w@.heap.dom().contains(g_i0), but(g_x0.heap, w@.heap, g_i0), w@.heap[g_i0] == g_x1.heap[g_i0], grown(g_h, w@.heap), !g_h.dom().contains(g_i0),
        grown(g_h, g_x0.heap), w@ == (PW { heap: w@.heap, ..g_x1 }),
    ensures w@.heap[g_i1]->pos == g_f.len()
    decreases g_f.len() - w@.heap[g_i1]->pos
@head 1
    let ghost g_t1 = w@.heap;
@bottom 1
    proof {
        let n = w@.heap[g_i1]->pos - 1;
        let (a, b) = (items(g_t1, PV::Ref(g_l)), items(w@.heap, PV::Ref(g_l)));
        assert(keeps(g_t1, w@.heap, g_h, -1));
        lemma_terms(g_t1, w@.heap, g_h, -1, a.skip(1), g_f.take(n));
        assert(b =~= a.push(b.last()));
        assert(b.skip(1) =~= a.skip(1).push(b.last()));
        lemma_terms_push(w@.heap, g_h, -1, a.skip(1), g_f.take(n), b.last(), g_f[n]);
        assert(g_f.take(n).push(g_f[n]) =~= g_f.take(n + 1));
    }
@before total_freq = 0 =>>
    let ghost g_xa = w@;
    let ghost g_te = g_u[g_p];
    proof {
        assert(g_f.take(g_f.len() as int) =~= g_f);
        if g_f.len() == 0 { lemma_terms_none(w@.heap, g_h, -1); assert(g_f =~= Seq::empty()); }
        assert(uni_query(w@.heap, g_h, query@, g_te, g_f));
        assert(grown(g_h, w@.heap));
        assert(filters(w@.heap, g_h, g_base, index@, g_f));
        assert(but(g_x0.heap, w@.heap, g_i0));
    }
@pre 2
    let ghost g_i2 = __it2@->Ref_0;
    let ghost g_rg = w@.heap[g_i2]->src;
    let ghost g_x2 = w@;
@loop 2
    invariant
        __it2@ == PV::Ref(g_i2), is_iter(w@, PV::Ref(g_i2)), w@.heap[g_i2]->src == g_rg, g_rg != g_i2, w@.heap.dom().contains(g_rg), w@.heap[g_rg] == Obj::List(ints(0, g_k)), 0 <= w@.heap[g_i2]->pos <= g_k,
        es@ == PV::Glob(G_ES()), term@ == g_te, g_te is Str, total_freq@ is Int, index@ is Str,
        grown(g_xa.heap, w@.heap), !g_xa.heap.dom().contains(g_i2), grown(g_h, g_xa.heap), uni_query(g_xa.heap, g_h, query@, g_te, g_f), filters(g_xa.heap, g_h, g_base, index@, g_f),
        w@.ext.sent.len() == g_xa.ext.sent.len() + w@.heap[g_i2]->pos, w@.ext.sent.take(g_xa.ext.sent.len() as int) == g_xa.ext.sent,
        forall|i: int| #![trigger w@.ext.sent[g_xa.ext.sent.len() + i]] 0 <= i < w@.heap[g_i2]->pos ==> uni_ok(w@.ext.sent[g_xa.ext.sent.len() + i], g_h, index@, g_te, g_base),
    ensures w@.heap[g_i2]->pos == g_k
    decreases g_k - w@.heap[g_i2]->pos
@head 2
    let ghost g_x3 = w@;
@bottom 2
    proof {
        let n = g_x3.ext.sent.len() as int;
        let s = w@.ext.sent[n];
        lemma_uni(g_xa.heap, s.h, g_h, query@, g_te, g_f);
        assert(filters(s.h, g_h, g_base, index@, g_f));
        assert(uni_ok(s, g_h, index@, g_te, g_base)) by { reveal(uni_ok); }
        assert(w@.ext.sent.take(n) =~= g_x3.ext.sent);
        let m = g_xa.ext.sent.len() as int;
        assert(w@.ext.sent.take(m) =~= g_x3.ext.sent.take(m));
        assert forall|i: int| #![trigger w@.ext.sent[m + i]] 0 <= i < w@.heap[g_i2]->pos implies uni_ok(w@.ext.sent[m + i], g_h, index@, g_te, g_base) by {
            if m + i < n { assert(w@.ext.sent[m + i] == g_x3.ext.sent[m + i]); }
        }
    }
@bottom 0
    proof {
        assert(grown(g_h, w@.heap));
        lemma_uni_next(g_x0.ext.sent, w@.ext.sent, g_p, g_k, g_h, index@, g_u, g_base);
    }
@*/
}
//@literals
} // verus!
fn main() {}
