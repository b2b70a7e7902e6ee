// The reduce steps of the Python map/reduce scripts (C31).
//@claims C31: ext_main link_main pii_main year_main sentence_main url_main scheme_main language_main profanity_main domain_main url_tok_main theorem_order theorem_rows_tell
//@include shim_py.rs
//@include py_count_lemmas.rs
pub struct Ext { pub nothing: int }
pub open spec fn lazy_iter(w: PW, v: PV) -> bool { false }
pub open spec fn lazy_step(o: PW, n: PW, v: PV, r: Result<Option<V>, Exc>) -> bool { true }

// ------------------------------------------------------------------ what has to be printed
pub open spec fn rec_line(s: int) -> Rec { Some((stripped(s), 1)) }
pub open spec fn rec_words(ws: Seq<int>) -> Rec {
    if ws.len() == 2 && parsed_int(ws[1]) is Some { Some((ws[0], parsed_int(ws[1])->0)) } else { None }
}
pub open spec fn rec_last(s: int) -> Rec { rec_words(rwords1(stripped(s))) }
pub open spec fn rec_two(s: int) -> Rec { rec_words(words(stripped(s))) }
pub open spec fn recs(lines: Seq<int>, f: spec_fn(int) -> Rec) -> Seq<Rec> { Seq::new(lines.len(), |i: int| f(lines[i])) }

pub open spec fn row2(f: int, k: PV, v: PV) -> Seq<PV> { seq![PV::Str(json_text(Map::empty().insert(PV::Str(f), k).insert(S"count", v)))] }
pub open spec fn row1(k: PV, v: PV) -> Seq<PV> { seq![PV::Str(json_text(Map::empty().insert(k, v)))] }
pub open spec fn row(f: Option<int>, k: PV, v: PV) -> Seq<PV> { if f is Some { row2(f->0, k, v) } else { row1(k, v) } }
/// the printed lines `p` are one row for every key of the lines, with its total
pub open spec fn reduced(p: Seq<Seq<PV>>, f: Option<int>, s: Seq<Rec>) -> bool {
    exists|ks: Seq<PV>, m: Map<PV, PV>| #[trigger] counted(ks, m, s) && p =~= rows(f, ks, m, ks.len() as int)
}
pub open spec fn rows(f: Option<int>, ks: Seq<PV>, m: Map<PV, PV>, n: int) -> Seq<Seq<PV>> { Seq::new(n as nat, |i: int| row(f, ks[i], m[ks[i]])) }

// ------------------------------------------------------------------ lemmas
pub proof fn lemma_recs_step(lines: Seq<int>, f: spec_fn(int) -> Rec, n: int)
    requires 0 <= n < lines.len()
    ensures recs(lines.take(n + 1), f) =~= recs(lines.take(n), f).push(f(lines[n])) {}

pub proof fn lemma_two(ws: Seq<int>)
    ensures strs(ws).len() == ws.len(), forall|i: int| 0 <= i < ws.len() ==> #[trigger] strs(ws)[i] == PV::Str(ws[i]) {}

// ------------------------------------------------------------------ the order of the lines does not matter
pub proof fn lemma_total_is_order_free(a: Seq<Rec>, b: Seq<Rec>, k: int)
    requires a.to_multiset() =~= b.to_multiset()
    ensures total(a, k) == total(b, k)
    decreases a.len()
{
    broadcast use group_to_multiset_ensures;
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    if a.len() == 0 {
        assert(b.len() == 0);
    } else {
        let r = a.last();
        assert(a.to_multiset().count(r) > 0) by { assert(a.contains(r)); }
        assert(b.contains(r));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == r;
        let b2 = b.remove(i);
        assert(a.remove(a.len() - 1) =~= a.drop_last());
        a.drop_last().to_multiset_ensures();
        lemma_total_is_order_free(a.drop_last(), b2, k);
        lemma_total_remove(b, i, k);
    }
}
pub proof fn lemma_total_remove(b: Seq<Rec>, i: int, k: int)
    requires 0 <= i < b.len()
    ensures total(b, k) == total(b.remove(i), k) + (if is_key(b[i], k) { b[i]->Some_0.1 } else { 0 })
    decreases b.len()
{
    if i == b.len() - 1 { assert(b.remove(i) =~= b.drop_last()); }
    else {
        lemma_total_remove(b.drop_last(), i, k);
        assert(b.remove(i).drop_last() =~= b.drop_last().remove(i));
        assert(b.remove(i).last() == b.last());
    }
}
/// two orders of the same lines: the same keys and the same totals
pub proof fn theorem_order(a: Seq<int>, b: Seq<int>, f: spec_fn(int) -> Rec, k: int)
    requires a.to_multiset() =~= b.to_multiset()
    ensures total(recs(a, f), k) == total(recs(b, f), k), has_key(recs(a, f), k) == has_key(recs(b, f), k)
{
    assert(recs(a, f) =~= a.map_values(f));
    assert(recs(b, f) =~= b.map_values(f));
    lemma_map_multiset(a, b, f);
    lemma_total_is_order_free(recs(a, f), recs(b, f), k);
    if has_key(recs(a, f), k) { lemma_has_key_perm(recs(a, f), recs(b, f), k); }
    if has_key(recs(b, f), k) { lemma_has_key_perm(recs(b, f), recs(a, f), k); }
}
pub proof fn lemma_has_key_perm(a: Seq<Rec>, b: Seq<Rec>, k: int)
    requires a.to_multiset() =~= b.to_multiset(), has_key(a, k)
    ensures has_key(b, k)
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    let i = choose|i: int| 0 <= i < a.len() && is_key(#[trigger] a[i], k);
    assert(a.contains(a[i]));
    assert(b.to_multiset().count(a[i]) > 0);
    assert(b.contains(a[i]));
    let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i];
    assert(is_key(b[j], k));
}
pub proof fn lemma_map_multiset(a: Seq<int>, b: Seq<int>, f: spec_fn(int) -> Rec)
    requires a.to_multiset() =~= b.to_multiset()
    ensures a.map_values(f).to_multiset() =~= b.map_values(f).to_multiset()
    decreases a.len()
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    if a.len() == 0 { assert(b.len() == 0); assert(a.map_values(f) =~= b.map_values(f)); }
    else {
        let x = a.last();
        assert(a.contains(x));
        assert(b.to_multiset().count(x) > 0);
        assert(b.contains(x));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
        assert(a.remove(a.len() - 1) =~= a.drop_last());
        a.drop_last().to_multiset_ensures();
        b.remove(i).to_multiset_ensures();
        lemma_map_multiset(a.drop_last(), b.remove(i), f);
        let fa = a.map_values(f);
        let fb = b.map_values(f);
        fa.to_multiset_ensures();
        fb.to_multiset_ensures();
        assert(fa.remove(a.len() - 1) =~= a.drop_last().map_values(f));
        assert(fb.remove(i) =~= b.remove(i).map_values(f));
        assert(fa.to_multiset() =~= fa.remove(a.len() - 1).to_multiset().insert(f(x)));
        assert(fb.to_multiset() =~= fb.remove(i).to_multiset().insert(f(x)));
    }
}
/// the printed rows tell every total: a key of the lines has exactly one row, and that row has its total
pub proof fn theorem_rows_tell(p: Seq<Seq<PV>>, f: Option<int>, s: Seq<Rec>, k: int)
    requires reduced(p, f, s), has_key(s, k)
    ensures exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == row(f, PV::Str(k), PV::Int(total(s, k)))
{
    let (ks, m) = choose|ks: Seq<PV>, m: Map<PV, PV>| #[trigger] counted(ks, m, s) && p =~= rows(f, ks, m, ks.len() as int);
    assert(m.dom().contains(PV::Str(k)));
    assert(ks.contains(PV::Str(k)));
    let i = choose|i: int| 0 <= i < ks.len() && ks[i] == PV::Str(k);
    assert(p[i] == row(f, PV::Str(k), PV::Int(total(s, k))));
}

// ------------------------------------------------------------------ the scripts
pub open spec fn table(w: PW, d: PV, lines: Seq<int>, f: spec_fn(int) -> Rec) -> bool {
    is_dict(w, d) && dd(w, d) == PV::Glob(G_INT()) && counted(dks(w, d), dm(w, d), recs(lines, f))
}
/// what was printed since `a`
pub open spec fn printed(a: Seq<Seq<PV>>, b: Seq<Seq<PV>>, f: Option<int>, s: Seq<Rec>) -> bool {
    a.len() <= b.len() && b.take(a.len() as int) =~= a && reduced(b.skip(a.len() as int), f, s)
}
//@macro REDUCE(NAME, FILE, FIELD, REC, WELL, STEP, LOCALS, TIDY)
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
pub fn ${NAME}(w: &mut World) -> (r: R)
    requires old(w)@.rd == 0, forall|i: int| 0 <= i < old(w)@.stdin.len() ==> ${TIDY}(#[trigger] old(w)@.stdin[i]),
    ensures
        // every key once, with the sum of its amounts
        r is Ok ==> printed(old(w)@.out, final(w)@.out, ${FIELD}, recs(old(w)@.stdin, |s: int| ${REC}(s))), // [C31]
        // no well formed input is refused
        (forall|i: int| 0 <= i < old(w)@.stdin.len() ==> ${WELL}(#[trigger] old(w)@.stdin[i])) ==> r is Ok, // [C31]
{
/*@pybody
@file ${FILE}
@item main
@locals ${LOCALS}
@start
    let ghost g_lines = w@.stdin;
    let ghost g_out0 = w@.out;
    let ghost g_f = |s: int| ${REC}(s);
    let ghost g_well = forall|i: int| 0 <= i < g_lines.len() ==> ${WELL}(#[trigger] g_lines[i]);
@pre 0
    proof { assert(recs(g_lines.take(0), g_f) =~= Seq::<Rec>::empty()); }
@loop 0
    invariant
        __it0@ == PV::Glob(G_STDIN()), w@.stdin == g_lines, w@.out == g_out0, 0 <= w@.rd <= g_lines.len(),
        table(w@, data@, g_lines.take(w@.rd), g_f),
    ensures w@.rd == g_lines.len()
    decreases g_lines.len() - w@.rd
@top 0
    let ghost g_w1 = w@;
    proof { lemma_recs_step(g_lines, g_f, g_w1.rd - 1); ${STEP} }
@bottom 0
    proof {
        let r = g_f(g_lines[g_w1.rd - 1]);
        assert(${TIDY}(g_lines[g_w1.rd - 1]));
        if r is Some { lemma_counted_step(g_w1.heap[data@->Ref_0], w@.heap[data@->Ref_0], recs(g_lines.take(g_w1.rd - 1), g_f), r); }
        else { lemma_counted_skip(g_w1.heap[data@->Ref_0], recs(g_lines.take(g_w1.rd - 1), g_f)); }
        assert(table(w@, data@, g_lines.take(w@.rd), g_f));
    }
@pre 1
    let ghost g_w2 = w@;
    let ghost g_it = __it1@->Ref_0;
    proof { assert(g_lines.take(w@.rd) =~= g_lines); }
@loop 1
    invariant
        is_iter(w@, __it1@), __it1@ == PV::Ref(g_it), w@.heap.dom().contains(w@.heap[g_it]->src),
        w@.heap[w@.heap[g_it]->src] == Obj::Items(data@->Ref_0), w@.heap[g_it]->len == dks(g_w2, data@).len(),
        is_dict(w@, data@), w@.heap[data@->Ref_0] == g_w2.heap[data@->Ref_0],
        0 <= w@.heap[g_it]->pos <= dks(g_w2, data@).len(),
        w@.out =~= g_out0 + rows(${FIELD}, dks(g_w2, data@), dm(g_w2, data@), w@.heap[g_it]->pos),
    ensures w@.heap[g_it]->pos == dks(g_w2, data@).len()
    decreases dks(g_w2, data@).len() - w@.heap[g_it]->pos
@top 1
    let ghost g_w3 = w@;
@bottom 1
    proof {
        let n = g_w3.heap[g_it]->pos - 1;
        assert(rows(${FIELD}, dks(g_w2, data@), dm(g_w2, data@), n + 1) =~= rows(${FIELD}, dks(g_w2, data@), dm(g_w2, data@), n).push(row(${FIELD}, dks(g_w2, data@)[n], dm(g_w2, data@)[dks(g_w2, data@)[n]])));
    }
@end
    proof {
        let p = rows(${FIELD}, dks(g_w2, data@), dm(g_w2, data@), dks(g_w2, data@).len() as int);
        assert(counted(dks(g_w2, data@), dm(g_w2, data@), recs(g_lines, g_f)));
        assert(w@.out.skip(g_out0.len() as int) =~= p);
        assert(w@.out.take(g_out0.len() as int) =~= g_out0);
        assert(reduced(p, ${FIELD}, recs(g_lines, g_f)));
    }
@*/
}
//@endmacro
pub open spec fn any_line(s: int) -> bool { true }
pub open spec fn ok_last(s: int) -> bool { rec_last(s) is Some }
/// two words are a key and a number (url_per_tok passes over anything else a line may hold; what a word and a word
/// that is no number come to is left open)
pub open spec fn tidy_two(s: int) -> bool { words(stripped(s)).len() == 2 ==> rec_two(s) is Some }
pub open spec fn ok_two(s: int) -> bool { rec_two(s) is Some }
@@REDUCE(ext_main ;; wimbd/extension_counts/reduce_count.py ;; Some(S"ext"->Str_0) ;; rec_line ;; any_line ;;  ;; data line k v ;; any_line)
@@REDUCE(link_main ;; wimbd/link_exists/reduce_count.py ;; Some(S"alive"->Str_0) ;; rec_line ;; any_line ;;  ;; data line k v ;; any_line)
@@REDUCE(pii_main ;; wimbd/pii/reduce_count.py ;; Some(S"pii"->Str_0) ;; rec_line ;; any_line ;;  ;; data line k v ;; any_line)
@@REDUCE(year_main ;; wimbd/utterance_dates/reduce_count.py ;; Some(S"year"->Str_0) ;; rec_line ;; any_line ;;  ;; data line k v ;; any_line)
@@REDUCE(sentence_main ;; wimbd/sentence_lengths/reduce_count.py ;; Some(S"key"->Str_0) ;; rec_line ;; any_line ;;  ;; data line k v ;; any_line)
@@REDUCE(url_main ;; wimbd/url_counts/reduce_count.py ;; Some(S"url"->Str_0) ;; rec_line ;; any_line ;;  ;; data line k v ;; any_line)
@@REDUCE(scheme_main ;; wimbd/scheme_counts/reduce_count.py ;; None ;; rec_line ;; any_line ;;  ;; data line k v ;; any_line)
@@REDUCE(language_main ;; wimbd/language/reduce_count.py ;; Some(S"language"->Str_0) ;; rec_last ;; ok_last ;; lemma_two(rwords1(stripped(g_lines[g_w1.rd - 1]))); ;; data line key count k v ;; any_line)
@@REDUCE(profanity_main ;; wimbd/profanity/reduce_count.py ;; Some(S"profanity"->Str_0) ;; rec_last ;; ok_last ;; lemma_two(rwords1(stripped(g_lines[g_w1.rd - 1]))); ;; data line key count k v ;; any_line)
@@REDUCE(domain_main ;; wimbd/high_level_domain_counts/reduce_count.py ;; Some(S"high_level_domain"->Str_0) ;; rec_two ;; ok_two ;; lemma_two(words(stripped(g_lines[g_w1.rd - 1]))); ;; data line key count k v ;; any_line)
@@REDUCE(url_tok_main ;; wimbd/url_per_tok_counts/reduce_count.py ;; Some(S"url"->Str_0) ;; rec_two ;; any_line ;; lemma_two(words(stripped(g_lines[g_w1.rd - 1]))); ;; data line key count k v ;; tidy_two)
//@literals
} // verus!
fn main() {}
