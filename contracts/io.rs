#![allow(unused)]
// Unit `io`: src/io.rs (the gzip line reader).
//@claims C09: GzBufReader::open GzBufReader::next new_buf theorem_lines
//@claims C18: GzBufReader::open GzBufReader::next new_buf
//@claims C19: GzBufReader::open GzBufReader::next new_buf
use vstd::prelude::*;
//@include shim_macros.rs
verus! {
global size_of usize == 8;
//@include shim_std.rs
#[verifier::external_body]
pub fn vx_nondet() -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_unreached<T>() -> (r: T) requires false { unimplemented!() }
//@include shim_result.rs

// ------------------------------------------------------------------ assumed contracts
/// a growing string
#[verifier::external_body]
pub struct String { x: u64 }
impl String {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
/// Rc<String>.  What std guarantees (safe code cannot change a string that somebody else holds) makes a shared
/// string a value; `get_mut_unchecked` breaks that guarantee unless nobody else holds it.
#[verifier::external_body]
pub struct RcString { x: u64 }
pub uninterp spec fn sole_owner(r: RcString) -> bool;
impl RcString { pub uninterp spec fn view(&self) -> Seq<char>; }
pub struct Rc;
impl Rc {
    #[verifier::external_body]
    pub fn new(s: String) -> (r: RcString) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(r: &RcString) -> (o: RcString) ensures o@ == r@ { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(r: &mut RcString) -> (o: Option<&mut String>)
        ensures o is Some ==> (*o->Some_0)@ == old(r)@ && final(r)@ == final(o->Some_0)@,
            o is None ==> final(r)@ == old(r)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn make_mut(r: &mut RcString) -> (o: &mut String)
        ensures (*o)@ == old(r)@, final(r)@ == final(o)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut_unchecked(r: &mut RcString) -> (o: &mut String)
        requires sole_owner(*old(r)),
        ensures (*o)@ == old(r)@, final(r)@ == final(o)@ { unimplemented!() }
}
#[verifier::external_body]
pub struct IoError { x: u64 }
#[derive(PartialEq, Eq, Clone, Copy, Structural)]
pub enum ErrorKind { NotFound, PermissionDenied, InvalidInput, InvalidData, UnexpectedEof, Interrupted, BrokenPipe, OutOfMemory, Other }
impl IoError {
    /// nothing is known of the kind: any error can be of any kind
    #[verifier::external_body]
    pub fn kind(&self) -> (r: ErrorKind) { unimplemented!() }
}
pub mod io { pub type Result<T> = core::result::Result<T, super::IoError>; pub use super::ErrorKind; pub type Error = super::IoError; }
/// what the decompressed stream still holds: lines with their terminators (the last one possibly without), or
/// a point at which reading fails (damaged archive, invalid UTF-8, I/O error)
pub enum Item { Good(Seq<char>), Bad }
/// std::io::BufReader over flate2's MultiGzDecoder over the file
#[verifier::external_body]
pub struct Reader { x: u64 }
impl Reader {
    pub uninterp spec fn rest(&self) -> Seq<Item>;
    /// reads up to and including the next line feed and appends it; nothing at the end
    #[verifier::external_body]
    pub fn read_line(&mut self, buf: &mut String) -> (r: io::Result<usize>)
        ensures
            old(self).rest().len() == 0 ==> r == io::Result::<usize>::Ok(0usize) && final(buf)@ == old(buf)@ && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> final(self).rest() == old(self).rest().skip(1) && match old(self).rest()[0] {
                Item::Good(l) => r is Ok && r->Ok_0 > 0 && final(buf)@ == old(buf)@ + l,
                Item::Bad => r is Err,
            } { unimplemented!() }
}
pub uninterp spec fn content(path: int) -> Seq<Item>;
#[verifier::external_body]
pub struct PathRef { x: u64 }
impl PathRef { pub uninterp spec fn id(&self) -> int; }
#[verifier::external_body]
pub struct File { x: u64 }
impl File {
    pub uninterp spec fn path(&self) -> int;
    #[verifier::external_body]
    pub fn open(p: &PathRef) -> (r: Result<File>) ensures r is Ok ==> r->Ok_0.path() == p.id() { unimplemented!() }
}
#[verifier::external_body]
pub struct MultiGzDecoder { x: u64 }
impl MultiGzDecoder {
    pub uninterp spec fn path(&self) -> int;
    /// all members of the archive, one after the other
    #[verifier::external_body]
    pub fn new(f: File) -> (r: MultiGzDecoder) ensures r.path() == f.path() { unimplemented!() }
}
impl Reader {
    #[verifier::external_body]
    pub fn new(d: MultiGzDecoder) -> (r: Reader) ensures r.rest() == content(d.path()) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize, d: MultiGzDecoder) -> (r: Reader) requires n > 0, ensures r.rest() == content(d.path()) { unimplemented!() }
}
pub assume_specification<T, E> [core::result::Result::<Option<T>, E>::transpose] (r: core::result::Result<Option<T>, E>) -> (o: Option<core::result::Result<T, E>>)
    ensures o == (match r {
        Ok(Some(x)) => Some(core::result::Result::<T, E>::Ok(x)),
        Ok(None) => None,
        Err(e) => Some(core::result::Result::<T, E>::Err(e)),
    });

// ------------------------------------------------------------------ the code
pub struct GzBufReader { pub reader: Reader, pub buf: RcString }

fn new_buf() -> (r: RcString)
    ensures r@ == Seq::<char>::empty(),
{
/*@body
@file src/io.rs
@item new_buf
@*/
}
impl GzBufReader {
    pub open spec fn rest(&self) -> Seq<Item> { self.reader.rest() }

    pub fn open(path: &PathRef) -> (r: Result<GzBufReader>)
        ensures r is Ok ==> r->Ok_0.rest() == content(path.id()),
    {
/*@body
@file src/io.rs
@item GzBufReader::open
@params path
@sub? io::BufReader::new =>> Reader::new
@sub? io::BufReader::with_capacity =>> Reader::with_capacity
@*/
    }

    /// the next line exactly, an error exactly where reading fails, nothing at and after the end
    pub fn next(&mut self) -> (r: Option<io::Result<RcString>>)
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> final(self).rest() == old(self).rest().skip(1) && r is Some && match old(self).rest()[0] {
                Item::Good(l) => r->Some_0 is Ok && r->Some_0->Ok_0@ == l,
                Item::Bad => r->Some_0 is Err,
            },
    {
/*@body
@file src/io.rs
@item Iterator for GzBufReader::next
@params self
@resmap
@end
    proof { assert(forall|l: Seq<char>| #[trigger] (Seq::<char>::empty() + l) =~= l); }
@*/
    }
}

// ------------------------------------------------------------------ property-level theorem
/// C09: reading until the end (or the first error) yields exactly the lines, in order, and never invents one
fn theorem_lines(path: &PathRef) -> (r: Result<Vec<RcString>>)
    ensures
        r is Ok ==> r->Ok_0@.len() <= content(path.id()).len()
            && (forall|i: int| 0 <= i < r->Ok_0@.len() ==> content(path.id())[i] == Item::Good((#[trigger] r->Ok_0@[i])@))
            && (r->Ok_0@.len() == content(path.id()).len() || content(path.id())[r->Ok_0@.len() as int] is Bad),
{
    let mut reader = GzBufReader::open(path)?;
    let mut out: Vec<RcString> = Vec::new();
    let ghost c = content(path.id());
    proof { assert(c.skip(0) =~= c); }
    loop
        invariant_except_break
            reader.rest() == c.skip(out@.len() as int),
        invariant
            c == content(path.id()), out@.len() <= c.len(),
            forall|i: int| 0 <= i < out@.len() ==> c[i] == Item::Good((#[trigger] out@[i])@),
        ensures
            out@.len() == c.len() || c[out@.len() as int] is Bad,
        decreases reader.rest().len(),
    {
        let ghost k = out@.len() as int;
        proof { if k < c.len() { assert(c.skip(k)[0] == c[k]); } }
        match reader.next() {
            None => break,
            Some(Err(_)) => break,
            Some(Ok(l)) => {
                proof {
                    assert(c.skip(k).skip(1) =~= c.skip(k + 1));
                    assert(c.skip(k)[0] == c[k]);
                }
                let ghost pre = out@;
                proof { assert(c[k] == Item::Good(l@)); }
                out.push(l);
                proof {
                    assert forall|i: int| 0 <= i < out@.len() implies c[i] == Item::Good((#[trigger] out@[i])@) by {
                        if i < k { assert(out@[i] == pre[i]); }
                    }
                }
            }
        }
    }
    Ok(out)
}
fn main() {}
} // verus!
