#![allow(unused)]
// Unit `tokens`: src/tokens.rs (the basic tokenizer).
//@claims C08: tokenize keep_segment theorem_only_whitespace_dropped
use vstd::prelude::*;
//@include shim_macros.rs
verus! {
global size_of usize == 8;
//@include shim_std.rs
#[verifier::external_body]
pub fn vx_nondet() -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_unreached<T>() -> (r: T) requires false { unimplemented!() }

/// char::is_whitespace: Unicode White_Space
pub open spec fn is_ws(c: char) -> bool { vstd::std_specs::char::is_white_space(c) }

pub assume_specification[ char::is_ascii_whitespace ](c: &char) -> (r: bool)
    ensures r == (*c == ' ' || *c == '\t' || *c == '\n' || *c == '\x0c' || *c == '\r');
pub uninterp spec fn char_prop(k: int, c: char) -> bool;
pub assume_specification[ char::is_control ](c: char) -> (r: bool) ensures r == char_prop(0, c);
pub assume_specification[ char::is_alphabetic ](c: char) -> (r: bool) ensures r == char_prop(5, c);
pub assume_specification[ char::is_numeric ](c: char) -> (r: bool) ensures r == char_prop(6, c);
pub assume_specification[ char::is_alphanumeric ](c: char) -> (r: bool) ensures r == char_prop(7, c);
pub assume_specification[ char::is_ascii ](c: &char) -> (r: bool) ensures r == (*c as u32 <= 127);
pub assume_specification[ char::is_ascii_alphanumeric ](c: &char) -> (r: bool) ensures r == char_prop(2, *c);
pub assume_specification[ char::is_ascii_punctuation ](c: &char) -> (r: bool) ensures r == char_prop(3, *c);
pub assume_specification[ char::is_ascii_graphic ](c: &char) -> (r: bool) ensures r == char_prop(4, *c);

/// str
#[verifier::external_body]
pub struct Str { x: u64 }
pub type Text = Seq<char>;
impl Str {
    pub uninterp spec fn view(&self) -> Text;
    #[verifier::external_body]
    pub fn chars(&self) -> (r: Chars) ensures r.all() == self@, r.pos() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    /// unicode-segmentation: the word-boundary segments (UAX #29); they partition the text
    #[verifier::external_body]
    pub fn split_word_bounds(&self) -> (r: Segments) ensures r@ == segments(self@) { unimplemented!() }
}
#[verifier::external_body]
pub struct Chars { x: u64 }
impl Chars {
    pub uninterp spec fn all(&self) -> Text;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> r == Some(old(self).all()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos() { unimplemented!() }
}
pub fn vx_into_iter(c: Chars) -> (r: Chars) ensures r == c { c }

pub uninterp spec fn segments(s: Text) -> Seq<Text>;
pub open spec fn concat(v: Seq<Text>) -> Text
    decreases v.len()
{ if v.len() == 0 { Seq::empty() } else { concat(v.drop_last()) + v.last() } }
pub axiom fn axiom_segments_partition(s: Text)
    ensures concat(segments(s)) == s, forall|i: int| 0 <= i < segments(s).len() ==> (#[trigger] segments(s)[i]).len() > 0;

pub open spec fn non_blank(w: Text) -> bool { exists|i: int| 0 <= i < w.len() && !is_ws(#[trigger] w[i]) }

/// a lazy sequence of segments
#[verifier::external_body]
pub struct Segments { x: u64 }
/// stands for the closure passed to `filter`, whose body is `keep_segment` below
pub struct KeepSegment;
impl Segments {
    pub uninterp spec fn view(&self) -> Seq<Text>;
    /// Iterator::filter: the items the predicate accepts, in order, unchanged
    #[verifier::external_body]
    pub fn filter(self, f: KeepSegment) -> (r: Segments) ensures r@ == self@.filter(|w: Text| non_blank(w)) { unimplemented!() }
}

fn keep_segment(w: &&Str) -> (r: bool)
    ensures r == non_blank(w@),
{
/*@body
@file src/tokens.rs
@item tokenize@filter#0.0
@params w
@locals c
@loop 0 for
    invariant
        __it0.all() == w@, 0 <= __it0.pos() <= w@.len(),
        forall|j: int| 0 <= j < __it0.pos() ==> is_ws(#[trigger] w@[j]),
    ensures
        __it0.pos() == w@.len(),
    decreases w@.len() - __it0.pos(),
@*/
}

/// C08: exactly the segments with a non-whitespace character, in text order, unchanged
pub fn tokenize(s: &Str) -> (r: Segments)
    ensures r@ == segments(s@).filter(|w: Text| non_blank(w)),
{
/*@body
@file src/tokens.rs
@item tokenize
@params s
@closure 0
KeepSegment
@*/
}

// ------------------------------------------------------------------ property-level theorem
pub open spec fn solid(w: Text) -> Text { w.filter(|c: char| !is_ws(c)) }
proof fn lemma_filter_concat(a: Text, b: Text)
    ensures solid(a + b) =~= solid(a) + solid(b),
    decreases b.len(),
{
    reveal(Seq::filter);
    if b.len() > 0 {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_filter_concat(a, b.drop_last());
    } else { assert(a + b =~= a); }
}
proof fn lemma_blank(w: Text)
    requires !non_blank(w),
    ensures solid(w) =~= Seq::empty(),
    decreases w.len(),
{
    reveal(Seq::filter);
    if w.len() > 0 {
        assert(!non_blank(w.drop_last())) by {
            if non_blank(w.drop_last()) { let i = choose|i: int| 0 <= i < w.len() - 1 && !is_ws(#[trigger] w.drop_last()[i]); assert(!is_ws(w[i])); }
        }
        lemma_blank(w.drop_last());
        assert(is_ws(w[w.len() - 1]));
    }
}
proof fn lemma_dropped(v: Seq<Text>)
    ensures solid(concat(v.filter(|w: Text| non_blank(w)))) =~= solid(concat(v)),
    decreases v.len(),
{
    reveal(Seq::filter);
    let p = |w: Text| non_blank(w);
    if v.len() > 0 {
        lemma_dropped(v.drop_last());
        lemma_filter_concat(concat(v.drop_last()), v.last());
        let f = v.drop_last().filter(p);
        if non_blank(v.last()) {
            assert(v.filter(p) =~= f.push(v.last()));
            assert(f.push(v.last()).drop_last() =~= f);
            lemma_filter_concat(concat(f), v.last());
        } else {
            assert(v.filter(p) =~= f);
            lemma_blank(v.last());
        }
    } else { assert(v.filter(p) =~= v); }
}
/// only whitespace characters of the text are dropped
proof fn theorem_only_whitespace_dropped(s: Text)
    ensures solid(concat(segments(s).filter(|w: Text| non_blank(w)))) =~= solid(s),
{
    axiom_segments_partition(s);
    lemma_dropped(segments(s));
}
fn main() {}
} // verus!
