// ------------------------------------------------------------------ specification
pub open spec fn maxed(h: Map<Seq<Tok>, int>, g: Seq<Tok>, c: int) -> Map<Seq<Tok>, int> {
    if h.dom().contains(g) && h[g] >= c { h } else { h.insert(g, c) }
}
pub open spec fn in_pairs(h: Map<Seq<Tok>, int>, p: Pair) -> bool { h.dom().contains(p.1) && h[p.1] == p.0 }
/// s is the set of the k largest (count, ngram) pairs of h (all of them when fewer)
pub open spec fn is_topk(s: Set<Pair>, h: Map<Seq<Tok>, int>, k: int) -> bool {
    &&& s.len() <= k
    &&& forall|p: Pair| #[trigger] s.contains(p) ==> in_pairs(h, p)
    // whatever is not in s is below everything in s, and s is full
    &&& forall|g: Seq<Tok>| #[trigger] h.dom().contains(g) && !s.contains((h[g], g)) ==> s.len() == k && forall|q: Pair| #[trigger] s.contains(q) ==> plt((h[g], g), q)
}
/// one pair too many: the smallest one has to go
pub open spec fn pop_ok(s: Set<Pair>, h: Map<Seq<Tok>, int>, k: int) -> bool {
    &&& s.len() == k + 1
    &&& forall|x: Pair| s.contains(x) && (forall|q: Pair| #[trigger] s.remove(x).contains(q) ==> plt(x, q)) ==> #[trigger] is_topk(s.remove(x), h, k)
}
pub open spec fn pairs_of(v: Seq<(Rc<Vec<Tok>>, Int)>) -> Seq<Pair> { v.map_values(|p: (Rc<Vec<Tok>>, Int)| (p.1 as int, p.0@)) }
pub open spec fn listed(s: Set<Pair>, g: Seq<Tok>) -> bool { exists|d: int| #[trigger] s.contains((d, g)) }
proof fn lemma_pairs_push(v: Seq<(Rc<Vec<Tok>>, Int)>, x: (Rc<Vec<Tok>>, Int))
    ensures pairs_of(v.push(x)) =~= pairs_of(v).push((x.1 as int, x.0@)),
        forall|p: Pair| #[trigger] pairs_of(v.push(x)).contains(p) <==> pairs_of(v).contains(p) || p == (x.1 as int, x.0@),
{
    let a = pairs_of(v); let y: Pair = (x.1 as int, x.0@); let b = pairs_of(v.push(x));
    assert(b =~= a.push(y));
    assert forall|p: Pair| #[trigger] b.contains(p) <==> a.contains(p) || p == y by {
        if a.contains(p) { let i = choose|i: int| 0 <= i < a.len() && a[i] == p; assert(b[i] == p); }
        if p == y { assert(b[a.len() as int] == p); }
    }
}
#[verifier::opaque]
pub open spec fn descending(s: Seq<Pair>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> plt(#[trigger] s[j], #[trigger] s[i]) }

proof fn lemma_maxed(h: Map<Seq<Tok>, int>, g: Seq<Tok>, c: int)
    requires h.dom().finite(),
    ensures maxed(h, g, c).dom().finite(), maxed(h, g, c).dom() =~= h.dom().insert(g),
        maxed(h, g, c)[g] == (if h.dom().contains(g) && h[g] >= c { h[g] } else { c }),
        forall|x: Seq<Tok>| x != g && #[trigger] h.dom().contains(x) ==> maxed(h, g, c)[x] == h[x],
{ }

/// an insertion below the minimum changes nothing
proof fn lemma_min_pair_skip(s: Set<Pair>, h: Map<Seq<Tok>, int>, k: int, g: Seq<Tok>, c: int, m: int)
    requires is_topk(s, h, k), c >= 1, s.len() < k ==> m == 1, forall|p: Pair| #[trigger] s.contains(p) ==> m <= p.0,
    ensures c < m ==> is_topk(s, maxed(h, g, c), k) && s.len() == k,
{
    if c < m {
        let h2 = maxed(h, g, c);
        assert forall|p: Pair| #[trigger] s.contains(p) implies in_pairs(h2, p) by {
            if p.1 == g { assert(h[g] == p.0); }
        }
        assert forall|x: Seq<Tok>| #[trigger] h2.dom().contains(x) && !s.contains((h2[x], x)) implies
            s.len() == k && forall|q: Pair| #[trigger] s.contains(q) ==> plt((h2[x], x), q) by {
            if x == g && h2 != h {
                assert forall|q: Pair| #[trigger] s.contains(q) implies plt((h2[x], x), q) by { assert(h2[x] == c); }
            } else { assert(h.dom().contains(x)); assert(h2[x] == h[x]); }
        }
    }
}
proof fn lemma_keep_if_not_larger(s: Set<Pair>, h: Map<Seq<Tok>, int>, k: int, g: Seq<Tok>, c: int)
    requires is_topk(s, h, k), exists|d: int| #[trigger] s.contains((d, g)) && c <= d,
    ensures maxed(h, g, c) == h,
{
    let d = choose|d: int| #[trigger] s.contains((d, g)) && c <= d;
    assert(in_pairs(h, (d, g)));
}
/// a held ngram gets a larger count
proof fn lemma_replace(s: Set<Pair>, h: Map<Seq<Tok>, int>, k: int, g: Seq<Tok>, d: int, c: int)
    requires is_topk(s, h, k), s.contains((d, g)), c > d,
    ensures is_topk(s.remove((d, g)).insert((c, g)), maxed(h, g, c), k),
        s.remove((d, g)).insert((c, g)).len() == s.len(),
{
    broadcast use axiom_gram_lt;
    let s2 = s.remove((d, g)).insert((c, g));
    let h2 = maxed(h, g, c);
    assert(in_pairs(h, (d, g)));
    assert(!s.contains((c, g))) by { if s.contains((c, g)) { assert(in_pairs(h, (c, g))); } }
    assert(s2.len() == s.len());
    assert forall|p: Pair| #[trigger] s2.contains(p) implies in_pairs(h2, p) by {
        if p != (c, g) { assert(s.contains(p)); if p.1 == g { assert(in_pairs(h, p)); assert(p == (d, g)); } }
    }
    assert forall|x: Seq<Tok>| #[trigger] h2.dom().contains(x) && !s2.contains((h2[x], x)) implies
        s2.len() == k && forall|q: Pair| #[trigger] s2.contains(q) ==> plt((h2[x], x), q) by {
        assert(x != g);
        assert(h.dom().contains(x) && h2[x] == h[x]);
        assert(!s.contains((h[x], x))) by { if s.contains((h[x], x)) { assert(s2.contains((h[x], x))); } }
        assert forall|q: Pair| #[trigger] s2.contains(q) implies plt((h2[x], x), q) by {
            if q == (c, g) { assert(plt((h[x], x), (d, g))); } else { assert(s.contains(q)); }
        }
    }
}
/// an ngram that is not held arrives
proof fn lemma_add(s: Set<Pair>, h: Map<Seq<Tok>, int>, k: int, g: Seq<Tok>, c: int)
    requires is_topk(s, h, k), forall|d: int| !#[trigger] s.contains((d, g)),
    ensures s.insert((c, g)).len() == s.len() + 1,
        s.insert((c, g)).len() <= k ==> is_topk(s.insert((c, g)), maxed(h, g, c), k),
        s.insert((c, g)).len() == k + 1 ==> pop_ok(s.insert((c, g)), maxed(h, g, c), k),
{
    broadcast use axiom_gram_lt;
    let s2 = s.insert((c, g));
    let h2 = maxed(h, g, c);
    if s.len() < k {
        assert(!h.dom().contains(g)) by { if h.dom().contains(g) { assert(!s.contains((h[g], g))); } }
        assert forall|p: Pair| #[trigger] s2.contains(p) implies in_pairs(h2, p) by { if p != (c, g) { assert(s.contains(p)); assert(in_pairs(h, p)); } }
        assert forall|x: Seq<Tok>| #[trigger] h2.dom().contains(x) && !s2.contains((h2[x], x)) implies
            s2.len() == k && forall|q: Pair| #[trigger] s2.contains(q) ==> plt((h2[x], x), q) by {
            assert(x != g);
            assert(h.dom().contains(x) && h2[x] == h[x]);
            assert(!s.contains((h[x], x)));
        }
    } else {
        assert forall|x: Pair| s2.contains(x) && (forall|q: Pair| #[trigger] s2.remove(x).contains(q) ==> plt(x, q)) implies #[trigger] is_topk(s2.remove(x), h2, k) by {
            let t = s2.remove(x);
            // if g was there before, its old pair lies below everything held
            if h.dom().contains(g) { assert(!s.contains((h[g], g))); }
            assert forall|p: Pair| #[trigger] t.contains(p) implies in_pairs(h2, p) by {
                if p == (c, g) {
                    // x is another pair, below (c, g); then c must be larger than the old count
                    if h.dom().contains(g) && h[g] >= c {
                        assert(s.contains(x));
                        assert(plt((h[g], g), x));
                        assert(plt(x, (c, g)));
                    }
                } else { assert(s.contains(p)); assert(in_pairs(h, p)); assert(p.1 != g) by { if p.1 == g { assert(s.contains((p.0, g))); } } }
            }
            assert forall|y: Seq<Tok>| #[trigger] h2.dom().contains(y) && !t.contains((h2[y], y)) implies
                t.len() == k && forall|q: Pair| #[trigger] t.contains(q) ==> plt((h2[y], y), q) by {
                assert forall|q: Pair| #[trigger] t.contains(q) implies plt((h2[y], y), q) by {
                    assert(s2.contains(q));
                    assert(plt(x, q));
                    if y == g {
                        if h2 != h {
                            // h2[g] == c, and (c, g) was popped
                            assert(h2[g] == c); assert(x == (c, g));
                        } else {
                            // (h[g], g) lies below everything in s
                            assert(h.dom().contains(g));
                            if q == (c, g) {
                                assert(s.contains(x));
                                assert(plt((h[g], g), x));
                            } else { assert(s.contains(q)); }
                        }
                    } else {
                        assert(h.dom().contains(y) && h2[y] == h[y]);
                        if s.contains((h[y], y)) { assert(x == (h[y], y)); }
                        else {
                            if q == (c, g) {
                                if x == q { assert(false); }
                                assert(s.contains(x));
                                assert(plt((h[y], y), x));
                            } else { assert(s.contains(q)); }
                        }
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------ property-level theorems
/// the k best pairs of a map are determined by the map
proof fn theorem_topk_unique(a: Set<Pair>, b: Set<Pair>, h: Map<Seq<Tok>, int>, k: int)
    requires is_topk(a, h, k), is_topk(b, h, k),
    ensures a =~= b,
{
    broadcast use axiom_gram_lt;
    if exists|p: Pair| a.contains(p) && !b.contains(p) { lemma_topk_sub(a, b, h, k); }
    if exists|p: Pair| b.contains(p) && !a.contains(p) { lemma_topk_sub(b, a, h, k); }
}
proof fn lemma_topk_sub(a: Set<Pair>, b: Set<Pair>, h: Map<Seq<Tok>, int>, k: int)
    requires is_topk(a, h, k), is_topk(b, h, k), exists|p: Pair| a.contains(p) && !b.contains(p),
    ensures false,
{
    broadcast use axiom_gram_lt;
    let p = choose|p: Pair| a.contains(p) && !b.contains(p);
    assert(in_pairs(h, p));
    assert(h.dom().contains(p.1) && !b.contains((h[p.1], p.1)));
    assert(b.len() == k);
    // b is full; if b were a subset of a it would be all of a
    if b.subset_of(a) {
        vstd::set_lib::lemma_len_subset(b, a);
        vstd::set_lib::lemma_subset_equality(b, a);
    } else {
        let q = choose|q: Pair| b.contains(q) && !a.contains(q);
        assert(in_pairs(h, q));
        assert(h.dom().contains(q.1) && !a.contains((h[q.1], q.1)));
        assert(plt(q, p));
        assert(plt(p, q));
    }
}

pub struct Ins { pub g: Seq<Tok>, pub c: int }
/// largest count inserted per ngram
pub open spec fn best(ops: Seq<Ins>) -> Map<Seq<Tok>, int>
    decreases ops.len()
{ if ops.len() == 0 { Map::empty() } else { maxed(best(ops.drop_last()), ops.last().g, ops.last().c) } }

/// `best` really is the maximum inserted count of each ngram
proof fn lemma_best(ops: Seq<Ins>)
    ensures
        best(ops).dom().finite(),
        forall|i: int| 0 <= i < ops.len() ==> best(ops).dom().contains((#[trigger] ops[i]).g) && best(ops)[ops[i].g] >= ops[i].c,
        forall|g: Seq<Tok>| #[trigger] best(ops).dom().contains(g) ==> exists|i: int| 0 <= i < ops.len() && (#[trigger] ops[i]).g == g && ops[i].c == best(ops)[g],
    decreases ops.len()
{
    if ops.len() > 0 {
        let o = ops.drop_last();
        lemma_best(o);
        assert forall|i: int| 0 <= i < ops.len() implies best(ops).dom().contains((#[trigger] ops[i]).g) && best(ops)[ops[i].g] >= ops[i].c by {
            if i < o.len() { assert(o[i] == ops[i]); }
        }
        assert forall|g: Seq<Tok>| #[trigger] best(ops).dom().contains(g) implies exists|i: int| 0 <= i < ops.len() && (#[trigger] ops[i]).g == g && ops[i].c == best(ops)[g] by {
            let l = ops.len() - 1;
            assert(ops[l] == ops.last());
            if best(o).dom().contains(g) && best(ops)[g] == best(o)[g] {
                let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).g == g && o[i].c == best(o)[g];
                assert(ops[i] == o[i]);
            } else { assert(ops[l].g == g && ops[l].c == best(ops)[g]); }
        }
    } else { assert(best(ops).dom() =~= Set::empty()); }
}
/// C05: what a drain yields is the k largest (maximum inserted count, ngram) pairs
proof fn theorem_drain_is_best_k(ops: Seq<Ins>, out: Set<Pair>, k: int)
    requires is_topk(out, best(ops), k),
    ensures
        out.len() <= k,
        forall|p: Pair| #[trigger] out.contains(p) ==>
            (exists|i: int| 0 <= i < ops.len() && (#[trigger] ops[i]).g == p.1 && ops[i].c == p.0)
            && (forall|i: int| 0 <= i < ops.len() && (#[trigger] ops[i]).g == p.1 ==> ops[i].c <= p.0),
        // anything inserted that is not listed is below everything listed, and then k are listed
        forall|i: int| 0 <= i < ops.len() && !listed(out, (#[trigger] ops[i]).g) ==>
            out.len() == k && forall|q: Pair| #[trigger] out.contains(q) ==> plt((ops[i].c, ops[i].g), q),
{
    broadcast use axiom_gram_lt;
    lemma_best(ops);
    let h = best(ops);
    assert forall|p: Pair| #[trigger] out.contains(p) implies
            (exists|i: int| 0 <= i < ops.len() && (#[trigger] ops[i]).g == p.1 && ops[i].c == p.0)
            && (forall|i: int| 0 <= i < ops.len() && (#[trigger] ops[i]).g == p.1 ==> ops[i].c <= p.0) by {
        assert(in_pairs(h, p));
        assert(h.dom().contains(p.1));
    }
    assert forall|i: int| 0 <= i < ops.len() && !listed(out, (#[trigger] ops[i]).g) implies
            out.len() == k && forall|q: Pair| #[trigger] out.contains(q) ==> plt((ops[i].c, ops[i].g), q) by {
        let g = ops[i].g;
        assert(h.dom().contains(g));
        assert(!out.contains((h[g], g)));
        assert forall|q: Pair| #[trigger] out.contains(q) implies plt((ops[i].c, ops[i].g), q) by {
            assert(plt((h[g], g), q));
        }
    }
}
/// C05: the result does not depend on the order of insertion
proof fn theorem_order_independent(a: Seq<Ins>, b: Seq<Ins>)
    requires
        forall|i: int| 0 <= i < a.len() ==> exists|j: int| 0 <= j < b.len() && b[j] == #[trigger] a[i],
        forall|j: int| 0 <= j < b.len() ==> exists|i: int| 0 <= i < a.len() && a[i] == #[trigger] b[j],
    ensures best(a) =~= best(b),
{
    lemma_best(a);
    lemma_best(b);
    assert forall|g: Seq<Tok>| best(a).dom().contains(g) implies best(b).dom().contains(g) && best(a)[g] <= best(b)[g] by {
        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).g == g && a[i].c == best(a)[g];
        let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i];
        assert(b[j].g == g);
    }
    assert forall|g: Seq<Tok>| best(b).dom().contains(g) implies best(a).dom().contains(g) && best(b)[g] <= best(a)[g] by {
        let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).g == g && b[i].c == best(b)[g];
        let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i];
        assert(a[j].g == g);
    }
    assert(best(a).dom() =~= best(b).dom());
}
/// C06: leaving out an insertion below the published minimum does not change what is held
proof fn theorem_filtered_insert_irrelevant(s: Set<Pair>, t: Set<Pair>, h: Map<Seq<Tok>, int>, k: int, g: Seq<Tok>, c: int, m: int)
    requires
        is_topk(s, h, k), c >= 1, s.len() < k ==> m == 1, forall|p: Pair| #[trigger] s.contains(p) ==> m <= p.0,
        c < m, is_topk(t, maxed(h, g, c), k),
    ensures s =~= t,
{
    lemma_min_pair_skip(s, h, k, g, c, m);
    theorem_topk_unique(s, t, maxed(h, g, c), k);
}
