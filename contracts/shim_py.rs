// Python values, the heap, and the operations the translated bodies are made of (tools/pyvx).  Everything marked
// external_body is trusted: it states what CPython does.
#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_assignments, non_snake_case, unused_parens, unreachable_code, unused_labels)]
use vstd::prelude::*;
use vstd::multiset::*;
use vstd::seq_lib::*;
verus! {

/// a Python value: text is a number (equal text, equal number; the empty text is 0), objects live on the heap
pub enum PV { None, Unbound, Bool(bool), Int(int), Str(int), Flt(int), Tup(Seq<PV>), Ref(int), Glob(int) }

/// objects; `ks` is a dict's insertion order
pub enum Obj {
    List(Seq<PV>),
    Dict { ks: Seq<PV>, m: Map<PV, PV>, dflt: PV },
    Set(Seq<PV>),
    Items(int),
    Values(int),
    Iter { src: int, pos: int, len: int },
    /// enumerate
    Enum { it: PV, n: int },
    /// an open file, by name; `fpos`: lines read so far
    File { fname: int, fpos: int },
    /// a digest in the making: the bytes fed to it so far, as one text
    Hash(int),
    /// a shared array while no lock is held: anyone may be writing to it
    Shared,
}

pub struct PW {
    pub heap: Map<int, Obj>,
    /// what print wrote: the argument values of every call
    pub out: Seq<Seq<PV>>,
    /// the lines of standard input, and how many have been read
    pub stdin: Seq<int>,
    pub rd: int,
    pub ext: Ext,
}

#[verifier::external_body] pub struct World { _p: () }
impl View for World { type V = PW; uninterp spec fn view(&self) -> PW; }
#[verifier::external_body] pub struct V { _p: () }
impl View for V { type V = PV; uninterp spec fn view(&self) -> PV; }
#[verifier::external_body] pub struct Exc { _p: () }
impl View for Exc { type V = int; uninterp spec fn view(&self) -> int; }
impl V {
    #[verifier::external_body] pub fn cp(&self) -> (r: V) ensures r@ == self@ { unimplemented!() }
}
pub type R = Result<V, Exc>;

#[verifier::external_body] pub fn none_() -> (r: V) ensures r@ == PV::None { unimplemented!() }
#[verifier::external_body] pub fn unbound_() -> (r: V) ensures r@ == PV::Unbound { unimplemented!() }
#[verifier::external_body] pub fn bool_(b: bool) -> (r: V) ensures r@ == PV::Bool(b) { unimplemented!() }
#[verifier::external_body] pub fn int_(i: i64) -> (r: V) ensures r@ == PV::Int(i as int) { unimplemented!() }
#[verifier::external_body] pub fn exc_new(c: u64) -> (r: Exc) ensures r@ == c as int { unimplemented!() }
/// the exception is of this class (or one of its subclasses)
pub uninterp spec fn exc_sub(e: int, c: int) -> bool;
#[verifier::external_body] pub broadcast proof fn axiom_exc_self(c: int) ensures #[trigger] exc_sub(c, c) {}
#[verifier::external_body] pub fn exc_is(e: &Exc, c: u64) -> (r: bool) ensures r == exc_sub(e@, c as int) { unimplemented!() }
#[verifier::external_body] pub fn vx_nondet() -> bool { unimplemented!() }
#[verifier::external_body] pub fn vx_unreached() -> (r: R) { unimplemented!() }

// ------------------------------------------------------------------ truth
pub open spec fn truth_known(w: PW, v: PV) -> bool {
    match v {
        PV::None | PV::Bool(_) | PV::Int(_) | PV::Str(_) | PV::Tup(_) => true,
        PV::Ref(i) => w.heap.dom().contains(i) && (w.heap[i] is List || w.heap[i] is Dict || w.heap[i] is Set),
        _ => false,
    }
}
pub open spec fn truth(w: PW, v: PV) -> bool {
    match v {
        PV::None => false,
        PV::Bool(b) => b,
        PV::Int(i) => i != 0,
        PV::Str(s) => s != 0,
        PV::Tup(s) => s.len() > 0,
        PV::Ref(i) => match w.heap[i] { Obj::List(s) => s.len() > 0, Obj::Dict { ks, .. } => ks.len() > 0, Obj::Set(s) => s.len() > 0, _ => true },
        _ => true,
    }
}
#[verifier::external_body] pub fn truthy(v: &V, w: &mut World) -> (r: bool)
    ensures final(w)@ == old(w)@, truth_known(old(w)@, v@) ==> r == truth(old(w)@, v@) { unimplemented!() }

// ------------------------------------------------------------------ new objects
pub open spec fn fresh(o: PW, n: PW, r: PV, x: Obj) -> bool {
    r is Ref && r->Ref_0 >= 0 && !o.heap.dom().contains(r->Ref_0) && n == (PW { heap: o.heap.insert(r->Ref_0, x), ..o })
}
#[verifier::external_body] pub fn new_list(w: &mut World) -> (r: V) ensures fresh(old(w)@, final(w)@, r@, Obj::List(Seq::empty())) { unimplemented!() }
#[verifier::external_body] pub fn new_set(w: &mut World) -> (r: V) ensures fresh(old(w)@, final(w)@, r@, Obj::Set(Seq::empty())) { unimplemented!() }
#[verifier::external_body] pub fn new_dict(w: &mut World) -> (r: V)
    ensures fresh(old(w)@, final(w)@, r@, Obj::Dict { ks: Seq::empty(), m: Map::empty(), dflt: PV::None }) { unimplemented!() }
#[verifier::external_body] pub fn op_tuple1(a: &V) -> (r: V) ensures r@ == PV::Tup(seq![a@]) { unimplemented!() }
#[verifier::external_body] pub fn op_tuple2(a: &V, b: &V) -> (r: V) ensures r@ == PV::Tup(seq![a@, b@]) { unimplemented!() }
#[verifier::external_body] pub fn op_tuple3(a: &V, b: &V, c: &V) -> (r: V) ensures r@ == PV::Tup(seq![a@, b@, c@]) { unimplemented!() }

// ------------------------------------------------------------------ lists
pub open spec fn is_list(w: PW, v: PV) -> bool { v is Ref && w.heap.dom().contains(v->Ref_0) && w.heap[v->Ref_0] is List }
pub open spec fn lst(w: PW, v: PV) -> Seq<PV> { w.heap[v->Ref_0]->List_0 }
pub open spec fn put(w: PW, v: PV, x: Obj) -> PW { PW { heap: w.heap.insert(v->Ref_0, x), ..w } }
#[verifier::external_body] pub fn list_push(l: &V, x: &V, w: &mut World)
    ensures is_list(old(w)@, l@) ==> final(w)@ == put(old(w)@, l@, Obj::List(lst(old(w)@, l@).push(x@))) { unimplemented!() }
#[verifier::external_body] pub fn m_append_1(l: &V, x: &V, w: &mut World) -> (r: R)
    ensures is_list(old(w)@, l@) ==> r is Ok && final(w)@ == put(old(w)@, l@, Obj::List(lst(old(w)@, l@).push(x@))) && r->Ok_0@ == PV::None { unimplemented!() }
#[verifier::external_body] pub fn list_extend(l: &V, x: &V, w: &mut World) -> (r: R)
    ensures is_list(old(w)@, l@) && is_list(old(w)@, x@) ==> r is Ok
        && final(w)@ == put(old(w)@, l@, Obj::List(lst(old(w)@, l@) + lst(old(w)@, x@))) { unimplemented!() }
#[verifier::external_body] pub fn m_extend_1(l: &V, x: &V, w: &mut World) -> (r: R)
    ensures is_list(old(w)@, l@) && is_list(old(w)@, x@) ==> r is Ok && r->Ok_0@ == PV::None
        && final(w)@ == put(old(w)@, l@, Obj::List(lst(old(w)@, l@) + lst(old(w)@, x@))) { unimplemented!() }

/// slices: out of range bounds are clamped, negative ones count from the end
pub open spec fn bound(b: PV, d: int, n: int) -> int {
    if b is Int { if b->Int_0 < 0 { if n + b->Int_0 < 0 { 0 } else { n + b->Int_0 } } else if b->Int_0 > n { n } else { b->Int_0 } } else { d }
}
pub open spec fn slice_of(s: Seq<PV>, lo: PV, hi: PV) -> Seq<PV> {
    let (a, b) = (bound(lo, 0, s.len() as int), bound(hi, s.len() as int, s.len() as int));
    if a < b { s.subrange(a, b) } else { Seq::empty() }
}
pub uninterp spec fn str_slice(s: int, lo: PV, hi: PV) -> int;
#[verifier::external_body] pub fn op_slice(x: &V, lo: &V, hi: &V, w: &mut World) -> (r: R)
    ensures
        (lo@ is Int || lo@ is None) && (hi@ is Int || hi@ is None) && is_list(old(w)@, x@) ==> r is Ok && fresh(old(w)@, final(w)@, r->Ok_0@, Obj::List(slice_of(lst(old(w)@, x@), lo@, hi@))),
        (lo@ is Int || lo@ is None) && (hi@ is Int || hi@ is None) && x@ is Str ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Str(str_slice(x@->Str_0, lo@, hi@)) { unimplemented!() }
#[verifier::external_body] pub fn c_list_1(x: &V, w: &mut World) -> (r: R)
    ensures is_list(old(w)@, x@) ==> r is Ok && fresh(old(w)@, final(w)@, r->Ok_0@, Obj::List(lst(old(w)@, x@))),
        x@ is Tup ==> r is Ok && fresh(old(w)@, final(w)@, r->Ok_0@, Obj::List(x@->Tup_0)) { unimplemented!() }
#[verifier::external_body] pub fn c_list_0(w: &mut World) -> (r: R) ensures r is Ok && fresh(old(w)@, final(w)@, r->Ok_0@, Obj::List(Seq::empty())) { unimplemented!() }
#[verifier::external_body] pub fn m_copy_0(x: &V, w: &mut World) -> (r: R)
    ensures is_list(old(w)@, x@) || is_dict(old(w)@, x@) ==> r is Ok && fresh(old(w)@, final(w)@, r->Ok_0@, old(w)@.heap[x@->Ref_0]) { unimplemented!() }
#[verifier::external_body] pub fn m_clear_0(x: &V, w: &mut World) -> (r: R)
    ensures is_list(old(w)@, x@) ==> r is Ok && r->Ok_0@ is None && final(w)@ == put(old(w)@, x@, Obj::List(Seq::empty())) { unimplemented!() }

// ------------------------------------------------------------------ dicts
/// the keys this file says anything about: text and numbers (Python identifies True with 1, so no truth values)
pub open spec fn keyable(k: PV) -> bool { k is Str || k is Int }
pub open spec fn is_dict(w: PW, v: PV) -> bool { v is Ref && w.heap.dom().contains(v->Ref_0) && w.heap[v->Ref_0] is Dict }
pub open spec fn dks(w: PW, v: PV) -> Seq<PV> { w.heap[v->Ref_0]->ks }
pub open spec fn dm(w: PW, v: PV) -> Map<PV, PV> { w.heap[v->Ref_0]->m }
pub open spec fn dd(w: PW, v: PV) -> PV { w.heap[v->Ref_0]->dflt }
pub open spec fn dput(x: Obj, k: PV, v: PV) -> Obj {
    Obj::Dict { ks: if x->m.dom().contains(k) { x->ks } else { x->ks.push(k) }, m: x->m.insert(k, v), dflt: x->dflt }
}
#[verifier::external_body] pub fn dict_put(d: &V, k: &V, v: &V, w: &mut World)
    ensures is_dict(old(w)@, d@) && keyable(k@) ==> final(w)@ == put(old(w)@, d@, dput(old(w)@.heap[d@->Ref_0], k@, v@)) { unimplemented!() }
#[verifier::external_body] pub fn op_setitem(d: &V, k: &V, v: &V, w: &mut World) -> (r: R)
    ensures is_dict(old(w)@, d@) && keyable(k@) ==> r is Ok && final(w)@ == put(old(w)@, d@, dput(old(w)@.heap[d@->Ref_0], k@, v@)),
        is_list(old(w)@, d@) && k@ is Int && 0 <= k@->Int_0 < lst(old(w)@, d@).len() ==> r is Ok && final(w)@ == put(old(w)@, d@, Obj::List(lst(old(w)@, d@).update(k@->Int_0, v@))) { unimplemented!() }
/// what a default factory makes, where it makes no object
pub open spec fn dflt_of(f: PV) -> Option<PV> {
    if f == PV::Glob(G_INT()) { Some(PV::Int(0)) } else if f == PV::Glob(G_FLOAT()) { Some(PV::Flt(flt0())) } else { None }
}
pub open spec fn is_set(w: PW, v: PV) -> bool { v is Ref && w.heap.dom().contains(v->Ref_0) && w.heap[v->Ref_0] is Set }
pub open spec fn stt(w: PW, v: PV) -> Seq<PV> { w.heap[v->Ref_0]->Set_0 }
#[verifier::external_body] pub fn set_push(s: &V, x: &V, w: &mut World)
    ensures is_set(old(w)@, s@) && keyable(x@) ==> final(w)@ == put(old(w)@, s@, Obj::Set(if stt(old(w)@, s@).contains(x@) { stt(old(w)@, s@) } else { stt(old(w)@, s@).push(x@) })) { unimplemented!() }
pub broadcast proof fn lemma_push_has(s: Seq<PV>, x: PV, y: PV)
    ensures #[trigger] s.push(x).contains(y) == (x == y || s.contains(y))
{
    if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
    if x == y { assert(s.push(x)[s.len() as int] == y); }
    if s.push(x).contains(y) && x != y { let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == y; assert(s[i] == y); }
}
pub broadcast proof fn lemma_empty_has(y: PV) ensures !#[trigger] Seq::<PV>::empty().contains(y) {}
pub broadcast group group_has { lemma_push_has, lemma_empty_has }
pub open spec fn G_INT() -> int { 1 }
pub open spec fn G_FLOAT() -> int { 2 }
pub open spec fn G_STDIN() -> int { 3 }
pub open spec fn G_DICT() -> int { 4 }
#[verifier::external_body] pub fn gv_int(w: &mut World) -> (r: V) ensures final(w)@ == old(w)@, r@ == PV::Glob(G_INT()) { unimplemented!() }
#[verifier::external_body] pub fn gv_float(w: &mut World) -> (r: V) ensures final(w)@ == old(w)@, r@ == PV::Glob(G_FLOAT()) { unimplemented!() }
#[verifier::external_body] pub fn gv_dict(w: &mut World) -> (r: V) ensures final(w)@ == old(w)@, r@ == PV::Glob(G_DICT()) { unimplemented!() }
#[verifier::external_body] pub fn gv_sys_stdin(w: &mut World) -> (r: V) ensures final(w)@ == old(w)@, r@ == PV::Glob(G_STDIN()) { unimplemented!() }
#[verifier::external_body] pub fn c_defaultdict_1(f: &V, w: &mut World) -> (r: R)
    ensures r is Ok && fresh(old(w)@, final(w)@, r->Ok_0@, Obj::Dict { ks: Seq::empty(), m: Map::empty(), dflt: f@ }) { unimplemented!() }
pub open spec fn getitem_ok(o: PW, n: PW, x: PV, k: PV, r: Result<V, Exc>) -> bool {
    &&& (is_dict(o, x) && keyable(k) && dm(o, x).dom().contains(k)) ==> (r is Ok && n == o && r->Ok_0@ == dm(o, x)[k])
    &&& (is_dict(o, x) && keyable(k) && !dm(o, x).dom().contains(k) && dflt_of(dd(o, x)) is Some)
        ==> (r is Ok && n == put(o, x, dput(o.heap[x->Ref_0], k, dflt_of(dd(o, x))->0)) && r->Ok_0@ == dflt_of(dd(o, x))->0)
    &&& (is_dict(o, x) && keyable(k) && !dm(o, x).dom().contains(k) && dd(o, x) == PV::None) ==> (r is Err && n == o)
    &&& (is_list(o, x) && k is Int && 0 <= k->Int_0 < lst(o, x).len()) ==> (r is Ok && n == o && r->Ok_0@ == lst(o, x)[k->Int_0])
    &&& (is_list(o, x) && k is Int && -lst(o, x).len() <= k->Int_0 < 0) ==> (r is Ok && n == o && r->Ok_0@ == lst(o, x)[lst(o, x).len() + k->Int_0])
    &&& (is_list(o, x) && k is Int && !(-lst(o, x).len() <= k->Int_0 < lst(o, x).len())) ==> (r is Err && n == o)
    &&& (x is Tup && k is Int && 0 <= k->Int_0 < x->Tup_0.len()) ==> (r is Ok && n == o && r->Ok_0@ == x->Tup_0[k->Int_0])
    &&& (x is Tup && k is Int && -x->Tup_0.len() <= k->Int_0 < 0) ==> (r is Ok && n == o && r->Ok_0@ == x->Tup_0[x->Tup_0.len() + k->Int_0])
}
#[verifier::external_body] pub fn op_getitem(x: &V, k: &V, w: &mut World) -> (r: R) ensures getitem_ok(old(w)@, final(w)@, x@, k@, r) { unimplemented!() }
#[verifier::external_body] pub fn m_get_1(d: &V, k: &V, w: &mut World) -> (r: R)
    ensures is_dict(old(w)@, d@) && keyable(k@) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == (if dm(old(w)@, d@).dom().contains(k@) { dm(old(w)@, d@)[k@] } else { PV::None }) { unimplemented!() }
#[verifier::external_body] pub fn m_get_2(d: &V, k: &V, x: &V, w: &mut World) -> (r: R)
    ensures is_dict(old(w)@, d@) && keyable(k@) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == (if dm(old(w)@, d@).dom().contains(k@) { dm(old(w)@, d@)[k@] } else { x@ }) { unimplemented!() }
#[verifier::external_body] pub fn m_items_0(d: &V, w: &mut World) -> (r: R)
    ensures is_dict(old(w)@, d@) ==> r is Ok && fresh(old(w)@, final(w)@, r->Ok_0@, Obj::Items(d@->Ref_0)) { unimplemented!() }

// ------------------------------------------------------------------ iteration
/// the things iterated over, element by element, as they are now
pub open spec fn elems_known(x: Obj) -> bool { x is List || x is Dict }
pub open spec fn elems_len(h: Map<int, Obj>, src: int) -> int {
    match h[src] { Obj::List(s) => s.len() as int, Obj::Dict { ks, .. } => ks.len() as int,
        Obj::Items(d) => if h[d] is Dict { h[d]->ks.len() as int } else { 0 }, _ => 0 }
}
pub open spec fn iterable(w: PW, v: PV) -> bool {
    v is Ref && w.heap.dom().contains(v->Ref_0) && (w.heap[v->Ref_0] is List || w.heap[v->Ref_0] is Dict
        || w.heap[v->Ref_0] is Items && w.heap.dom().contains(w.heap[v->Ref_0]->Items_0) && w.heap[w.heap[v->Ref_0]->Items_0] is Dict)
}
pub open spec fn is_iter(w: PW, v: PV) -> bool { v is Ref && w.heap.dom().contains(v->Ref_0) && w.heap[v->Ref_0] is Iter }
#[verifier::external_body] pub fn op_iter(x: &V, w: &mut World) -> (r: R)
    ensures
        iterable(old(w)@, x@) ==> r is Ok && fresh(old(w)@, final(w)@, r->Ok_0@, Obj::Iter { src: x@->Ref_0, pos: 0, len: elems_len(old(w)@.heap, x@->Ref_0) }),
        is_iter(old(w)@, x@) || is_enum(old(w)@, x@) || x@ == PV::Glob(G_STDIN()) || lazy_iter(old(w)@, x@) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == x@
    { unimplemented!() }
/// one step of an iterator that is not over standard input: the element and the state after it; None at the end.
/// A dict that changed its size under an iterator raises (Err, nothing known).
pub open spec fn step_ok(o: PW, n: PW, it: int, r: Result<Option<V>, Exc>) -> bool {
    let (src, pos, len) = (o.heap[it]->src, o.heap[it]->pos, o.heap[it]->len);
    let adv = (PW { heap: o.heap.insert(it, Obj::Iter { src, pos: pos + 1, len }), ..o });
    match o.heap[src] {
        Obj::List(s) => r is Ok && (if 0 <= pos < s.len() { r->Ok_0 is Some && r->Ok_0->0@ == s[pos] && n == adv } else { r->Ok_0 is None && n == o }),
        Obj::Dict { ks, .. } => ks.len() == len ==> r is Ok && (if 0 <= pos < len { r->Ok_0 is Some && r->Ok_0->0@ == ks[pos] && n == adv } else { r->Ok_0 is None && n == o }),
        Obj::Items(d) => (o.heap[d] is Dict && o.heap[d]->ks.len() == len) ==> r is Ok && (if 0 <= pos < len {
            r->Ok_0 is Some && r->Ok_0->0@ == PV::Tup(seq![o.heap[d]->ks[pos], o.heap[d]->m[o.heap[d]->ks[pos]]]) && n == adv } else { r->Ok_0 is None && n == o }),
        _ => true,
    }
}
/// range, as the list of its numbers
pub open spec fn ints(a: int, n: int) -> Seq<PV> { Seq::new(if n > a { (n - a) as nat } else { 0 }, |i: int| PV::Int(a + i)) }
#[verifier::external_body] pub fn c_range_1(n: &V, w: &mut World) -> (r: R)
    ensures n@ is Int ==> r is Ok && fresh(old(w)@, final(w)@, r->Ok_0@, Obj::List(ints(0, n@->Int_0))) { unimplemented!() }
#[verifier::external_body] pub fn c_range_2(a: &V, n: &V, w: &mut World) -> (r: R)
    ensures n@ is Int && a@ is Int ==> r is Ok && fresh(old(w)@, final(w)@, r->Ok_0@, Obj::List(ints(a@->Int_0, n@->Int_0))) { unimplemented!() }
/// a progress bar around something: the same things
#[verifier::external_body] pub fn c_tqdm_1(x: &V, w: &mut World) -> (r: R) ensures r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == x@ { unimplemented!() }
pub open spec fn is_enum(w: PW, v: PV) -> bool { v is Ref && w.heap.dom().contains(v->Ref_0) && w.heap[v->Ref_0] is Enum }
pub open spec fn next_ok(o: PW, n: PW, it: PV, r: Result<Option<V>, Exc>) -> bool {
    &&& is_iter(o, it) ==> step_ok(o, n, it->Ref_0, r)
    &&& it == PV::Glob(G_STDIN()) ==> r is Ok && (if o.rd < o.stdin.len() {
            r->Ok_0 is Some && r->Ok_0->Some_0@ == PV::Str(o.stdin[o.rd]) && n == (PW { rd: o.rd + 1, ..o })
        } else { r->Ok_0 is None && n == o })
    &&& lazy_iter(o, it) ==> lazy_step(o, n, it, r)
}
/// enumerate: one step of the iterator inside, then the number goes up
pub open spec fn enum_ok(o: PW, n: PW, it: PV, r: Result<Option<V>, Exc>) -> bool {
    let (inner, k) = (o.heap[it->Ref_0]->it, o.heap[it->Ref_0]->n);
    r is Ok ==> exists|mid: PW, q: Result<Option<V>, Exc>| #[trigger] next_ok(o, mid, inner, q) && q is Ok && (if q->Ok_0 is Some {
        r->Ok_0 is Some && r->Ok_0->Some_0@ == PV::Tup(seq![PV::Int(k), q->Ok_0->Some_0@]) && n == put(mid, it, Obj::Enum { it: inner, n: k + 1 })
    } else { r->Ok_0 is None && n == mid })
}
pub open spec fn enumerable(w: PW, x: PV) -> bool { is_iter(w, x) || x == PV::Glob(G_STDIN()) || lazy_iter(w, x) }
#[verifier::external_body] pub fn c_enumerate_1(x: &V, w: &mut World) -> (r: R)
    ensures enumerable(old(w)@, x@) ==> r is Ok && fresh(old(w)@, final(w)@, r->Ok_0@, Obj::Enum { it: x@, n: 0 }) { unimplemented!() }
#[verifier::external_body] pub fn c_enumerate_1__start(x: &V, s: &V, w: &mut World) -> (r: R)
    ensures enumerable(old(w)@, x@) && s@ is Int ==> r is Ok && fresh(old(w)@, final(w)@, r->Ok_0@, Obj::Enum { it: x@, n: s@->Int_0 }) { unimplemented!() }
#[verifier::external_body] pub fn op_next(it: &V, w: &mut World) -> (r: Result<Option<V>, Exc>)
    ensures
        next_ok(old(w)@, final(w)@, it@, r),
        is_enum(old(w)@, it@) ==> enum_ok(old(w)@, final(w)@, it@, r)
    { unimplemented!() }
/// items()/split results and other sequences, into names
pub open spec fn seq_of(w: PW, v: PV) -> Option<Seq<PV>> {
    if v is Tup { Some(v->Tup_0) } else if is_list(w, v) { Some(lst(w, v)) } else { None }
}
#[verifier::external_body] pub fn op_unpack2(x: &V, w: &mut World) -> (r: Result<(V, V), Exc>)
    ensures final(w)@ == old(w)@, seq_of(old(w)@, x@) is Some ==> (r is Ok <==> seq_of(old(w)@, x@)->0.len() == 2)
        && (r is Ok ==> r->Ok_0.0@ == seq_of(old(w)@, x@)->0[0] && r->Ok_0.1@ == seq_of(old(w)@, x@)->0[1]) { unimplemented!() }
#[verifier::external_body] pub fn op_unpack3(x: &V, w: &mut World) -> (r: Result<(V, V, V), Exc>)
    ensures final(w)@ == old(w)@, seq_of(old(w)@, x@) is Some ==> (r is Ok <==> seq_of(old(w)@, x@)->0.len() == 3)
        && (r is Ok ==> r->Ok_0.0@ == seq_of(old(w)@, x@)->0[0] && r->Ok_0.1@ == seq_of(old(w)@, x@)->0[1] && r->Ok_0.2@ == seq_of(old(w)@, x@)->0[2]) { unimplemented!() }

// ------------------------------------------------------------------ numbers
pub uninterp spec fn flt0() -> int;
pub uninterp spec fn flt_add(a: PV, b: PV) -> int;
pub open spec fn num(v: PV) -> bool { v is Int }
pub open spec fn plus_ok(o: PW, n: PW, a: PV, b: PV, r: Result<V, Exc>) -> bool {
    &&& (a is Int && b is Int) ==> (r is Ok && n == o && r->Ok_0@ == PV::Int(a->Int_0 + b->Int_0))
    &&& ((a is Flt && (b is Flt || b is Int)) || (a is Int && b is Flt)) ==> (r is Ok && n == o && r->Ok_0@ == PV::Flt(flt_add(a, b)))
    &&& (a is Str && b is Str) ==> (r is Ok && n == o && r->Ok_0@ == PV::Str(cat(a->Str_0, b->Str_0)))
}
#[verifier::external_body] pub fn op_add(a: &V, b: &V, w: &mut World) -> (r: R)
    ensures plus_ok(old(w)@, final(w)@, a@, b@, r),
        is_list(old(w)@, a@) && is_list(old(w)@, b@) ==> r is Ok && fresh(old(w)@, final(w)@, r->Ok_0@, Obj::List(lst(old(w)@, a@) + lst(old(w)@, b@))) { unimplemented!() }
#[verifier::external_body] pub fn op_iadd(a: &V, b: &V, w: &mut World) -> (r: R)
    ensures plus_ok(old(w)@, final(w)@, a@, b@, r),
        is_list(old(w)@, a@) && is_list(old(w)@, b@) ==> r is Ok && r->Ok_0@ == a@ && final(w)@ == put(old(w)@, a@, Obj::List(lst(old(w)@, a@) + lst(old(w)@, b@))) { unimplemented!() }
pub open spec fn int2(o: PW, n: PW, a: PV, b: PV, r: Result<V, Exc>, x: PV) -> bool { (a is Int && b is Int) ==> (r is Ok && n == o && r->Ok_0@ == x) }
#[verifier::external_body] pub fn op_sub(a: &V, b: &V, w: &mut World) -> (r: R) ensures int2(old(w)@, final(w)@, a@, b@, r, PV::Int(a@->Int_0 - b@->Int_0)) { unimplemented!() }
#[verifier::external_body] pub fn op_isub(a: &V, b: &V, w: &mut World) -> (r: R) ensures int2(old(w)@, final(w)@, a@, b@, r, PV::Int(a@->Int_0 - b@->Int_0)) { unimplemented!() }
#[verifier::external_body] pub fn op_mul(a: &V, b: &V, w: &mut World) -> (r: R) ensures int2(old(w)@, final(w)@, a@, b@, r, PV::Int(a@->Int_0 * b@->Int_0)) { unimplemented!() }
#[verifier::external_body] pub fn op_floordiv(a: &V, b: &V, w: &mut World) -> (r: R)
    ensures b@ is Int && b@->Int_0 > 0 ==> int2(old(w)@, final(w)@, a@, b@, r, PV::Int(a@->Int_0 / b@->Int_0)) { unimplemented!() }
#[verifier::external_body] pub fn op_mod(a: &V, b: &V, w: &mut World) -> (r: R)
    ensures b@ is Int && b@->Int_0 > 0 ==> int2(old(w)@, final(w)@, a@, b@, r, PV::Int(a@->Int_0 % b@->Int_0)) { unimplemented!() }
#[verifier::external_body] pub fn op_lt(a: &V, b: &V, w: &mut World) -> (r: R) ensures int2(old(w)@, final(w)@, a@, b@, r, PV::Bool(a@->Int_0 < b@->Int_0)) { unimplemented!() }
#[verifier::external_body] pub fn op_le(a: &V, b: &V, w: &mut World) -> (r: R) ensures int2(old(w)@, final(w)@, a@, b@, r, PV::Bool(a@->Int_0 <= b@->Int_0)) { unimplemented!() }
#[verifier::external_body] pub fn op_gt(a: &V, b: &V, w: &mut World) -> (r: R) ensures int2(old(w)@, final(w)@, a@, b@, r, PV::Bool(a@->Int_0 > b@->Int_0)) { unimplemented!() }
#[verifier::external_body] pub fn op_ge(a: &V, b: &V, w: &mut World) -> (r: R) ensures int2(old(w)@, final(w)@, a@, b@, r, PV::Bool(a@->Int_0 >= b@->Int_0)) { unimplemented!() }
/// equality, where both are numbers, both text, or one is None
pub open spec fn comparable(a: PV, b: PV) -> bool {
    (a is Int && b is Int) || (a is Str && b is Str) || (a is Bool && b is Bool) || (a is None && (b is None || b is Int || b is Str || b is Bool || b is Tup))
        || (b is None && (a is Int || a is Str || a is Bool || a is Tup)) || (a is Str && b is Int) || (a is Int && b is Str)
}
#[verifier::external_body] pub fn op_eq(a: &V, b: &V, w: &mut World) -> (r: R)
    ensures comparable(a@, b@) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Bool(a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn op_ne(a: &V, b: &V, w: &mut World) -> (r: R)
    ensures comparable(a@, b@) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Bool(a@ != b@) { unimplemented!() }
/// identity, against None
#[verifier::external_body] pub fn op_is(a: &V, b: &V, w: &mut World) -> (r: R)
    ensures r is Ok, final(w)@ == old(w)@, (a@ is None || b@ is None) ==> r->Ok_0@ == PV::Bool(a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn op_isnot(a: &V, b: &V, w: &mut World) -> (r: R)
    ensures r is Ok, final(w)@ == old(w)@, (a@ is None || b@ is None) ==> r->Ok_0@ == PV::Bool(a@ != b@) { unimplemented!() }
#[verifier::external_body] pub fn op_in(k: &V, d: &V, w: &mut World) -> (r: R)
    ensures is_dict(old(w)@, d@) && keyable(k@) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Bool(dm(old(w)@, d@).dom().contains(k@)),
        is_set(old(w)@, d@) && keyable(k@) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Bool(stt(old(w)@, d@).contains(k@)),
        is_list(old(w)@, d@) && k@ is Str && (forall|i: int| 0 <= i < lst(old(w)@, d@).len() ==> (#[trigger] lst(old(w)@, d@)[i]) is Str) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Bool(lst(old(w)@, d@).contains(k@)),
        d@ is Tup && k@ is Str && (forall|i: int| 0 <= i < d@->Tup_0.len() ==> (#[trigger] d@->Tup_0[i]) is Str) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Bool(d@->Tup_0.contains(k@)) { unimplemented!() }
#[verifier::external_body] pub fn op_notin(k: &V, d: &V, w: &mut World) -> (r: R)
    ensures is_dict(old(w)@, d@) && keyable(k@) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Bool(!dm(old(w)@, d@).dom().contains(k@)),
        is_set(old(w)@, d@) && keyable(k@) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Bool(!stt(old(w)@, d@).contains(k@)) { unimplemented!() }
pub open spec fn len_known(w: PW, v: PV) -> bool { v is Str || v is Tup || is_list(w, v) || is_dict(w, v) }
pub open spec fn len_of(w: PW, v: PV) -> int {
    if v is Str { str_len(v->Str_0) } else if v is Tup { v->Tup_0.len() as int } else if is_list(w, v) { lst(w, v).len() as int } else { dks(w, v).len() as int }
}
#[verifier::external_body] pub fn c_len_1(v: &V, w: &mut World) -> (r: R)
    ensures len_known(old(w)@, v@) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Int(len_of(old(w)@, v@)) { unimplemented!() }

/// any, of a list of numbers
#[verifier::external_body] pub fn c_any_1(l: &V, w: &mut World) -> (r: R)
    ensures is_list(old(w)@, l@) && (forall|i: int| 0 <= i < lst(old(w)@, l@).len() ==> (#[trigger] lst(old(w)@, l@)[i]) is Int) ==> r is Ok && final(w)@ == old(w)@
        && r->Ok_0@ == PV::Bool(exists|i: int| 0 <= i < lst(old(w)@, l@).len() && (#[trigger] lst(old(w)@, l@)[i])->Int_0 != 0) { unimplemented!() }

// ------------------------------------------------------------------ text
pub uninterp spec fn str_len(s: int) -> int;
#[verifier::external_body] pub broadcast proof fn axiom_str_len(s: int) ensures #[trigger] str_len(s) >= 0, str_len(s) == 0 <==> s == 0 {}
pub uninterp spec fn cat(a: int, b: int) -> int;
#[verifier::external_body] pub broadcast proof fn axiom_cat_assoc(a: int, b: int, c: int) ensures #[trigger] cat(cat(a, b), c) == cat(a, cat(b, c)) {}
#[verifier::external_body] pub broadcast proof fn axiom_cat_left(a: int) ensures #[trigger] cat(0, a) == a {}
#[verifier::external_body] pub broadcast proof fn axiom_cat_right(a: int) ensures #[trigger] cat(a, 0) == a {}
/// equal text with an equal beginning has an equal end
#[verifier::external_body] pub proof fn axiom_cat_cancel(a: int, b: int, c: int) requires cat(a, b) == cat(a, c) ensures b == c {}
pub broadcast group group_text { axiom_cat_assoc, axiom_cat_left, axiom_cat_right, axiom_str_len }
pub uninterp spec fn int_text(i: int) -> int;
#[verifier::external_body] pub fn op_format(x: &V, w: &mut World) -> (r: R)
    ensures x@ is Int ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Str(int_text(x@->Int_0)), x@ is Str ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == x@ { unimplemented!() }
#[verifier::external_body] pub fn op_strcat(a: &V, b: &V, w: &mut World) -> (r: R)
    ensures a@ is Str && b@ is Str ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Str(cat(a@->Str_0, b@->Str_0)) { unimplemented!() }
#[verifier::external_body] pub fn c_str_1(x: &V, w: &mut World) -> (r: R)
    ensures x@ is Int ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Str(int_text(x@->Int_0)), x@ is Str ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == x@ { unimplemented!() }
pub uninterp spec fn stripped(s: int) -> int;
/// split on blanks, and split once from the right on blanks
pub uninterp spec fn words(s: int) -> Seq<int>;
pub uninterp spec fn rwords1(s: int) -> Seq<int>;
pub uninterp spec fn parsed_int(s: int) -> Option<int>;
pub open spec fn strs(s: Seq<int>) -> Seq<PV> { Seq::new(s.len(), |i: int| PV::Str(s[i])) }
#[verifier::external_body] pub fn m_strip_0(s: &V, w: &mut World) -> (r: R)
    ensures s@ is Str ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Str(stripped(s@->Str_0)) { unimplemented!() }
pub uninterp spec fn lowered(s: int) -> int;
pub uninterp spec fn uppered(s: int) -> int;
pub uninterp spec fn lstripped(s: int) -> int;
pub uninterp spec fn rstripped(s: int) -> int;
#[verifier::external_body] pub fn m_lower_0(s: &V, w: &mut World) -> (r: R) ensures s@ is Str ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Str(lowered(s@->Str_0)) { unimplemented!() }
#[verifier::external_body] pub fn m_upper_0(s: &V, w: &mut World) -> (r: R) ensures s@ is Str ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Str(uppered(s@->Str_0)) { unimplemented!() }
#[verifier::external_body] pub fn m_lstrip_0(s: &V, w: &mut World) -> (r: R) ensures s@ is Str ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Str(lstripped(s@->Str_0)) { unimplemented!() }
#[verifier::external_body] pub fn m_rstrip_0(s: &V, w: &mut World) -> (r: R) ensures s@ is Str ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Str(rstripped(s@->Str_0)) { unimplemented!() }
#[verifier::external_body] pub fn m_split_0(s: &V, w: &mut World) -> (r: R)
    ensures s@ is Str ==> r is Ok && fresh(old(w)@, final(w)@, r->Ok_0@, Obj::List(strs(words(s@->Str_0)))) { unimplemented!() }
#[verifier::external_body] pub fn m_rsplit_0__maxsplit(s: &V, n: &V, w: &mut World) -> (r: R)
    ensures s@ is Str && n@ == PV::Int(1) ==> r is Ok && fresh(old(w)@, final(w)@, r->Ok_0@, Obj::List(strs(rwords1(s@->Str_0)))) { unimplemented!() }
#[verifier::external_body] pub fn c_int_1(s: &V, w: &mut World) -> (r: R)
    ensures s@ is Str ==> final(w)@ == old(w)@ && (r is Ok <==> parsed_int(s@->Str_0) is Some) && (r is Ok ==> r->Ok_0@ == PV::Int(parsed_int(s@->Str_0)->0)),
        s@ is Int ==> final(w)@ == old(w)@ && r is Ok && r->Ok_0@ == s@,
        s@ is Bool ==> final(w)@ == old(w)@ && r is Ok && r->Ok_0@ == PV::Int(if s@->Bool_0 { 1 } else { 0 }) { unimplemented!() }
/// JSON text of a dict whose values are no objects; the order of its fields is left open
pub uninterp spec fn json_text(m: Map<PV, PV>) -> int;
/// no lists or dicts that could change among the values
pub open spec fn shallow(m: Map<PV, PV>) -> bool { forall|k: PV| #[trigger] m.dom().contains(k) ==> keyable(k) && !(m[k] is Ref) && !(m[k] is Unbound) }
pub open spec fn flat(m: Map<PV, PV>) -> bool { forall|k: PV| #[trigger] m.dom().contains(k) ==> keyable(k) && (m[k] is Str || m[k] is Int || m[k] is Bool || m[k] is None) }
#[verifier::external_body] pub fn c_json_dumps_1(x: &V, w: &mut World) -> (r: R)
    ensures is_dict(old(w)@, x@) && flat(dm(old(w)@, x@)) ==> r is Ok && final(w)@ == old(w)@ && r->Ok_0@ == PV::Str(json_text(dm(old(w)@, x@))),
        is_dict(old(w)@, x@) && shallow(dm(old(w)@, x@)) && r is Ok ==> final(w)@ == old(w)@ && r->Ok_0@ == PV::Str(json_text(dm(old(w)@, x@))) { unimplemented!() }
#[verifier::external_body] pub fn c_print_1(x: &V, w: &mut World) -> (r: R)
    ensures r is Ok, final(w)@ == (PW { out: old(w)@.out.push(seq![x@]), ..old(w)@ }) { unimplemented!() }
#[verifier::external_body] pub fn c_print_2(x: &V, y: &V, w: &mut World) -> (r: R)
    ensures r is Ok, final(w)@ == (PW { out: old(w)@.out.push(seq![x@, y@]), ..old(w)@ }) { unimplemented!() }
