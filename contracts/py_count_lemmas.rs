// Totals per key, and dicts that hold them.
/// one line of map output, read: the key and the amount; None where it is no such line
pub type Rec = Option<(int, int)>;
/// the sum of the amounts of the lines with this key
pub open spec fn total(s: Seq<Rec>, k: int) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { total(s.drop_last(), k) + (if s.last() is Some && s.last()->Some_0.0 == k { s.last()->Some_0.1 } else { 0 }) }
}
pub open spec fn has_key(s: Seq<Rec>, k: int) -> bool { exists|i: int| 0 <= i < s.len() && is_key(#[trigger] s[i], k) }
pub open spec fn is_key(r: Rec, k: int) -> bool { r is Some && r->Some_0.0 == k }

/// `ks`, `m` hold every key of the lines once, with its total
pub open spec fn counted(ks: Seq<PV>, m: Map<PV, PV>, s: Seq<Rec>) -> bool {
    &&& ks.no_duplicates()
    &&& forall|j: int| 0 <= j < ks.len() ==> (#[trigger] ks[j]) is Str && has_key(s, ks[j]->Str_0) && m.dom().contains(ks[j]) && m[ks[j]] == PV::Int(total(s, ks[j]->Str_0))
    &&& forall|k: PV| #[trigger] m.dom().contains(k) ==> ks.contains(k)
    &&& forall|k: int| #[trigger] has_key(s, k) ==> m.dom().contains(PV::Str(k))
}
pub proof fn lemma_total_push(s: Seq<Rec>, r: Rec)
    ensures forall|k: int| #[trigger] total(s.push(r), k) == total(s, k) + (if is_key(r, k) { r->Some_0.1 } else { 0 }),
        forall|k: int| #[trigger] has_key(s.push(r), k) == (has_key(s, k) || is_key(r, k))
{
    assert(s.push(r).drop_last() =~= s);
    assert forall|k: int| #[trigger] has_key(s.push(r), k) == (has_key(s, k) || is_key(r, k)) by {
        if has_key(s, k) { let i = choose|i: int| 0 <= i < s.len() && is_key(#[trigger] s[i], k); assert(is_key(s.push(r)[i], k)); }
        if is_key(r, k) { assert(is_key(s.push(r)[s.len() as int], k)); }
        if has_key(s.push(r), k) && !is_key(r, k) {
            let i = choose|i: int| 0 <= i < s.push(r).len() && is_key(#[trigger] s.push(r)[i], k);
            assert(is_key(s[i], k));
        }
    }
}
pub proof fn lemma_no_key(s: Seq<Rec>, k: int)
    requires !has_key(s, k)
    ensures total(s, k) == 0
    decreases s.len()
{
    if s.len() > 0 {
        assert(!is_key(s[s.len() - 1], k));
        assert(!has_key(s.drop_last(), k)) by {
            if has_key(s.drop_last(), k) { let i = choose|i: int| 0 <= i < s.drop_last().len() && is_key(#[trigger] s.drop_last()[i], k); assert(is_key(s[i], k)); }
        }
        lemma_no_key(s.drop_last(), k);
    }
}
/// what `data[key] += amount` does to a table that holds the totals
pub proof fn lemma_counted_step(x: Obj, y: Obj, s: Seq<Rec>, r: Rec)
    requires x is Dict, counted(x->ks, x->m, s), r is Some, 
        y is Dict, ({ let z = dput(x, PV::Str(r->Some_0.0), PV::Int((if x->m.dom().contains(PV::Str(r->Some_0.0)) { x->m[PV::Str(r->Some_0.0)]->Int_0 } else { 0 }) + r->Some_0.1));
            y->ks =~= z->ks && y->m =~= z->m })
    ensures counted(y->ks, y->m, s.push(r))
{
    let k = PV::Str(r->Some_0.0);
    lemma_total_push(s, r);
    if !x->m.dom().contains(k) { lemma_no_key(s, r->Some_0.0); }
    else { assert(x->ks.contains(k)); }
    assert forall|j: int| 0 <= j < y->ks.len() implies (#[trigger] y->ks[j]) is Str && has_key(s.push(r), y->ks[j]->Str_0) && y->m.dom().contains(y->ks[j]) && y->m[y->ks[j]] == PV::Int(total(s.push(r), y->ks[j]->Str_0)) by {
        if y->ks[j] == k { } else { assert(y->ks[j] == x->ks[j]); }
    }
    assert(y->ks.no_duplicates()) by {
        if !x->m.dom().contains(k) {
            assert forall|j: int| 0 <= j < x->ks.len() implies x->ks[j] != k by { assert(x->m.dom().contains(x->ks[j])); }
        }
    }
    assert forall|q: PV| #[trigger] y->m.dom().contains(q) implies y->ks.contains(q) by {
        if q == k { if !x->m.dom().contains(k) { assert(y->ks[x->ks.len() as int] == k); } }
        else { assert(x->m.dom().contains(q)); let j = choose|j: int| 0 <= j < x->ks.len() && x->ks[j] == q; assert(y->ks[j] == q); }
    }
    assert forall|q: int| #[trigger] has_key(s.push(r), q) implies y->m.dom().contains(PV::Str(q)) by { }
}
pub proof fn lemma_counted_skip(x: Obj, s: Seq<Rec>)
    requires x is Dict, counted(x->ks, x->m, s)
    ensures counted(x->ks, x->m, s.push(None))
{
    lemma_total_push(s, None);
    assert forall|j: int| 0 <= j < x->ks.len() implies (#[trigger] x->ks[j]) is Str && has_key(s.push(None), x->ks[j]->Str_0) && x->m.dom().contains(x->ks[j]) && x->m[x->ks[j]] == PV::Int(total(s.push(None), x->ks[j]->Str_0)) by { }
}
