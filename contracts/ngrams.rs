#![allow(unused)]
// Unit `ngrams`: src/ngrams/mod.rs (the Ngrams iterator).
//@claims C07: Ngrams::new Ngrams::fill_memory Ngrams::next theorem_windows theorem_iteration
use vstd::prelude::*;
//@include shim_macros.rs
verus! {
global size_of usize == 8;
//@include shim_std.rs
//@include shim_deque.rs
// vacuity probes and bodies that could not be extracted (see DESIGN.md)
#[verifier::external_body]
pub fn vx_nondet() -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_unreached<T>() -> (r: T) requires false { unimplemented!() }

/// a token; cloning gives an equal one
#[verifier::external_body]
pub struct T { s: String }
impl Clone for T {
    #[verifier::external_body]
    fn clone(&self) -> (r: T) ensures r == *self { unimplemented!() }
}
/// Box<dyn Iterator<Item = T>>: the tokens still to come; nothing comes after the end
#[verifier::external_body]
pub struct Source { x: u64 }
impl Source {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1) { unimplemented!() }
}
pub struct Box;
impl Box { pub fn new(s: Source) -> (r: Source) ensures r == s { s } }
pub fn vx_into_iter<'b, U>(d: &'b VecDeque<U>) -> (r: DequeIter<'b, U>) ensures r.all() == d@, r.pos() == 0 { d.iter() }

pub struct Ngrams {
    pub source: Source,
    pub num: usize,
    pub memsize: usize,
    pub memory: VecDeque<T>,
}

impl Ngrams {
    /// the tokens not yet given up: the next window starts at the first of them
    pub open spec fn rest(&self) -> Seq<T> { self.memory@ + self.source@ }
    pub open spec fn wf(&self) -> bool {
        self.num >= 1 && self.memsize == self.num - 1 && self.memory@.len() <= self.memsize
    }

    pub fn new(source: Source, n: usize) -> (r: Ngrams)
        requires n >= 1,
        ensures r.wf(), r.num == n, r.rest() =~= source@,
    {
/*@body
@file src/ngrams/mod.rs
@item Ngrams::new
@params source n
@*/
    }

    fn fill_memory(&mut self)
        requires old(self).wf(),
        ensures final(self).wf(), final(self).num == old(self).num,
            final(self).rest() =~= old(self).rest(),
            final(self).memory@.len() == final(self).memsize || final(self).source@.len() == 0,
    {
/*@body
@file src/ngrams/mod.rs
@item Ngrams::fill_memory
@params self
@loop 0 while
    invariant
        self.num == old(self).num, self.wf(), self.rest() =~= old(self).rest(),
    ensures
        self.memory@.len() == self.memsize || self.source@.len() == 0,
    decreases self.source@.len(),
@*/
    }

    fn next(&mut self) -> (r: Option<Vec<T>>)
        requires old(self).wf(),
        ensures
            final(self).wf(), final(self).num == old(self).num,
            // the next window, if there is one; the sequence moves on by one token
            old(self).rest().len() >= old(self).num ==>
                r is Some && r->Some_0@ =~= old(self).rest().take(old(self).num as int) && final(self).rest() =~= old(self).rest().skip(1),
            // nothing otherwise, now and ever after
            old(self).rest().len() < old(self).num ==> r is None && final(self).rest() =~= old(self).rest(),
    {
/*@body
@file src/ngrams/mod.rs
@item Iterator for Ngrams::next
@params self
@locals n result elem
@optmap
@loop 0 for
    invariant
        __it0.all() == self.memory@, 0 <= __it0.pos() <= self.memory@.len(),
        result@ =~= self.memory@.take(__it0.pos()),
        self.wf(), self.num == old(self).num,
    ensures
        result@ =~= self.memory@,
    decreases self.memory@.len() - __it0.pos(),
@*/
    }
}

// ------------------------------------------------------------------ property-level theorems
/// what iterating yields
pub open spec fn windows(s: Seq<T>, n: int) -> Seq<Seq<T>>
    decreases s.len()
{ if n < 1 || s.len() < n { Seq::empty() } else { seq![s.take(n)] + windows(s.skip(1), n) } }

/// C07: exactly the contiguous windows, each once, in order
proof fn theorem_windows(s: Seq<T>, n: int)
    requires n >= 1,
    ensures
        windows(s, n).len() == (if s.len() < n { 0 } else { s.len() - n + 1 }),
        forall|i: int| 0 <= i < windows(s, n).len() ==> #[trigger] windows(s, n)[i] =~= s.subrange(i, i + n),
    decreases s.len()
{
    if s.len() >= n {
        theorem_windows(s.skip(1), n);
        assert forall|i: int| 0 <= i < windows(s, n).len() implies #[trigger] windows(s, n)[i] =~= s.subrange(i, i + n) by {
            if i > 0 {
                assert(windows(s, n)[i] == windows(s.skip(1), n)[i - 1]);
                assert(s.skip(1).subrange(i - 1, i - 1 + n) =~= s.subrange(i, i + n));
            }
        }
    }
}
/// calling `next` until it yields nothing yields those windows, then nothing for ever
fn theorem_iteration(source: Source, n: usize, extra: usize) -> (r: Vec<Vec<T>>)
    requires n >= 1,
    ensures r@.len() == windows(source@, n as int).len(),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ =~= windows(source@, n as int)[i],
{
    let ghost s = source@;
    let mut it = Ngrams::new(source, n);
    let mut out: Vec<Vec<T>> = Vec::new();
    proof { theorem_windows(s, n as int); assert(s.skip(0) =~= s); }
    loop
        invariant
            n >= 1, it.wf(), it.num == n, out@.len() <= s.len(), it.rest() =~= s.skip(out@.len() as int),
            out@.len() <= windows(s, n as int).len(),
            windows(s, n as int).len() == (if s.len() < n { 0 } else { s.len() - n + 1 }),
            forall|i: int| 0 <= i < windows(s, n as int).len() ==> #[trigger] windows(s, n as int)[i] =~= s.subrange(i, i + n),
            forall|i: int| 0 <= i < out@.len() ==> (#[trigger] out@[i])@ =~= windows(s, n as int)[i],
        ensures
            out@.len() == windows(s, n as int).len(), it.wf(), it.num == n, it.rest().len() < n,
        decreases it.rest().len(),
    {
        match it.next() {
            None => break,
            Some(v) => {
                proof {
                    let k = out@.len() as int;
                    assert(s.skip(k).take(n as int) =~= s.subrange(k, k + n));
                    assert(s.skip(k).skip(1) =~= s.skip(k + 1));
                }
                out.push(v);
            }
        }
    }
    let mut j = 0;
    while j < extra
        invariant it.wf(), it.num == n, it.rest().len() < n,
        decreases extra - j,
    {
        let x = it.next();
        assert(x is None);
        j += 1;
    }
    out
}
fn main() {}
} // verus!
