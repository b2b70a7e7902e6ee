#![allow(unused)]
// Unit `util`: src/util.rs and the argument helpers of src/cmd/util.rs.
//@claims C22: get_output_file
//@claims C24: expand_dirs theorem_expanded
//@claims C25: parse_size_default_to_gb
use vstd::prelude::*;
//@include shim_macros.rs
verus! {
global size_of usize == 8;
//@include shim_std.rs
#[verifier::external_body]
pub fn vx_nondet() -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn vx_unreached<T>() -> (r: T) requires false { unimplemented!() }
//@include shim_result.rs

// ------------------------------------------------------------------ strings
pub type Chars = Seq<char>;
#[verifier::external_body]
pub struct Text { s: String }
impl Text {
    pub uninterp spec fn view(&self) -> Chars;
    #[verifier::external_body]
    pub fn chars(&self) -> (r: CharIter) ensures r.all() == self@, r.pos() == 0 { unimplemented!() }
}
#[verifier::external_body]
pub struct CharIter { x: u64 }
impl CharIter {
    pub uninterp spec fn all(&self) -> Chars;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> r == Some(old(self).all()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos() { unimplemented!() }
}
//@include shim_fmt.rs
pub trait VxInto: Sized { type It; spec fn begins(self, r: Self::It) -> bool; fn vx_into(self) -> (r: Self::It) ensures self.begins(r); }
pub fn vx_into_iter<T: VxInto>(t: T) -> (r: T::It) ensures t.begins(r) { t.vx_into() }
impl VxInto for CharIter { type It = CharIter; open spec fn begins(self, r: CharIter) -> bool { r == self } fn vx_into(self) -> (r: CharIter) { self } }
impl<'a, T> VxInto for &'a Vec<T> {
    type It = VecIter<'a, T>;
    open spec fn begins(self, r: VecIter<'a, T>) -> bool { r.v == self && r.i == 0 }
    fn vx_into(self) -> (r: VecIter<'a, T>) { vx_vec_iter(self) }
}

// ------------------------------------------------------------------ sizes (C25)
pub uninterp spec fn alphabetic(c: char) -> bool;
pub uninterp spec fn char_prop(k: int, c: char) -> bool;
pub assume_specification[ char::is_alphabetic ](c: char) -> (r: bool) ensures r == alphabetic(c);
pub assume_specification[ char::is_numeric ](c: char) -> (r: bool) ensures r == char_prop(0, c);
pub assume_specification[ char::is_alphanumeric ](c: char) -> (r: bool) ensures r == char_prop(1, c);
pub assume_specification[ char::is_ascii_alphabetic ](c: &char) -> (r: bool) ensures r == char_prop(2, *c);
pub assume_specification[ char::is_ascii_digit ](c: &char) -> (r: bool) ensures r == char_prop(3, *c);
pub assume_specification[ char::is_uppercase ](c: char) -> (r: bool) ensures r == char_prop(4, c);
pub assume_specification[ char::is_lowercase ](c: char) -> (r: bool) ensures r == char_prop(5, c);
pub mod parse_size {
    use super::*;
    #[verifier::external_body]
    pub struct Error { x: u64 }
}
/// what the parse_size crate makes of a text (None: rejected)
pub uninterp spec fn size_text(t: Chars) -> Option<u64>;
pub trait SizeText { spec fn text(&self) -> Chars; }
impl SizeText for Text { open spec fn text(&self) -> Chars { self@ } }
impl<T: SizeText> SizeText for &T { open spec fn text(&self) -> Chars { (**self).text() } }
#[verifier::external_body]
pub fn parse_size<T: SizeText>(t: T) -> (r: core::result::Result<u64, parse_size::Error>)
    ensures r is Ok <==> size_text(t.text()) is Some, r is Ok ==> Some(r->Ok_0) == size_text(t.text()) { unimplemented!() }
pub open spec fn has_letter(t: Chars) -> bool { exists|i: int| 0 <= i < t.len() && alphabetic(#[trigger] t[i]) }

/// C25: a text with a letter means what it says, one without is a number of GiB; what is not a size is rejected
pub fn parse_size_default_to_gb(src: &Text) -> (r: core::result::Result<u64, parse_size::Error>)
    ensures
        has_letter(src@) ==> (r is Ok <==> size_text(src@) is Some) && (r is Ok ==> Some(r->Ok_0) == size_text(src@)),
        !has_letter(src@) ==> (r is Ok <==> size_text(src@ + "GiB"@) is Some) && (r is Ok ==> Some(r->Ok_0) == size_text(src@ + "GiB"@)),
{
/*@body
@file src/cmd/util.rs
@item parse_size_default_to_gb
@params src
@locals has_unit c
@io
@start
    proof { assert(Seq::<char>::empty() + src@ =~= src@); }
@loop 0 for
    invariant
        __it0.all() == src@, 0 <= __it0.pos() <= src@.len(),
        has_unit ==> has_letter(src@),
        !has_unit ==> forall|i: int| 0 <= i < __it0.pos() ==> !alphabetic(#[trigger] src@[i]),
    ensures
        has_unit || __it0.pos() == src@.len(),
    decreases src@.len() - __it0.pos(),
@*/
}

// ------------------------------------------------------------------ paths
#[verifier::external_body]
pub struct PathBuf { x: u64 }
pub type Path = PathBuf;
pub uninterp spec fn dir_there(path: int) -> bool;
pub uninterp spec fn parent_of(path: int) -> Option<int>;
/// the path as text, if it is text
pub uninterp spec fn text_of(path: int) -> Option<Chars>;
impl PathBuf {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r == dir_there(self.id()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self, w: &World) -> (r: bool) ensures r == w.files@.dom().contains(self.id()) { unimplemented!() }
    #[verifier::external_body]
    pub fn exists(&self, w: &World) -> (r: bool) ensures r == (w.files@.dom().contains(self.id()) || dir_there(self.id())) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &PathBuf) ensures *r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn into(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&Text>)
        ensures r is Some <==> text_of(self.id()) is Some, r is Some ==> text_of(self.id()) == Some(r->Some_0@) { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&PathBuf>)
        ensures r is Some <==> parent_of(self.id()) is Some, r is Some ==> parent_of(self.id()) == Some(r->Some_0.id()) { unimplemented!() }
}

// ------------------------------------------------------------------ expand_dirs (C24)
pub ghost enum Found { Good(PathBuf), Bad }
/// what globbing a pattern yields, in order
pub uninterp spec fn matches(pattern: Chars) -> Seq<Found>;
/// a pattern that stands for exactly the text
pub uninterp spec fn escaped(t: Chars) -> Chars;
#[verifier::external_body]
pub struct GlobError { x: u64 }
#[verifier::external_body]
pub struct Globbed { x: u64 }
impl Globbed {
    pub uninterp spec fn all(&self) -> Seq<Found>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<PathBuf>>)
        ensures final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> r is Some && final(self).pos() == old(self).pos() + 1
                && (old(self).all()[old(self).pos()] is Good <==> r->Some_0 is Ok)
                && (r->Some_0 is Ok ==> old(self).all()[old(self).pos()] == Found::Good(r->Some_0->Ok_0)),
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos() { unimplemented!() }
}
impl VxInto for Globbed { type It = Globbed; open spec fn begins(self, r: Globbed) -> bool { r == self } fn vx_into(self) -> (r: Globbed) { self } }
/// assumption: a directory tree has fewer than 2^31 data files
#[verifier::external_body]
pub fn glob(p: &Text) -> (r: Result<Globbed>) ensures r is Ok ==> r->Ok_0.all() == matches(p@) && r->Ok_0.pos() == 0 && matches(p@).len() < 0x7fff_ffff { unimplemented!() }
pub struct Pattern;
impl Pattern {
    #[verifier::external_body]
    pub fn escape(t: &Text) -> (r: Text) ensures r@ == escaped(t@) { unimplemented!() }
}
/// the data files below a directory, at any depth (names matching '*.json*.gz')
pub open spec fn below(d: int) -> Seq<Found> { matches(escaped(text_of(d)->Some_0) + "/**/*.json*.gz"@) }
pub open spec fn goods(f: Seq<Found>) -> Seq<PathBuf> { f.map_values(|x: Found| x->Good_0) }
pub open spec fn all_good(f: Seq<Found>) -> bool { forall|i: int| 0 <= i < f.len() ==> #[trigger] f[i] is Good }
/// what one argument stands for
pub open spec fn stands_for(p: PathBuf) -> Seq<PathBuf> { if dir_there(p.id()) { goods(below(p.id())) } else { seq![p] } }
pub open spec fn expanded(paths: Seq<PathBuf>) -> Seq<PathBuf>
    decreases paths.len()
{ if paths.len() == 0 { Seq::empty() } else { expanded(paths.drop_last()) + stands_for(paths.last()) } }
pub open spec fn acceptable(p: PathBuf) -> bool { dir_there(p.id()) ==> text_of(p.id()) is Some && below(p.id()).len() > 0 && all_good(below(p.id())) }

pub fn expand_dirs(paths: &Vec<PathBuf>) -> (r: Result<Vec<PathBuf>>)
    ensures
        // arguments keep their order; a directory stands for exactly its data files, anything else for itself
        r is Ok ==> r->Ok_0@ == expanded(paths@),
        // a directory without any data file, or one that cannot be read, is an error
        r is Ok ==> forall|i: int| 0 <= i < paths@.len() ==> acceptable(#[trigger] paths@[i]),
{
/*@body
@file src/cmd/util.rs
@item expand_dirs
@params paths
@locals files path path_str num_hits entry
@io
@ty files Vec<PathBuf>
@ty num_hits usize
@bottom 0
    proof {
        assert(__it0.seq().take(__it0.pos()) =~= __it0.seq().take(__it0.pos() - 1).push(*path));
        assert(__it0.seq().take(__it0.pos()).drop_last() =~= __it0.seq().take(__it0.pos() - 1));
        assert(files@ =~= expanded(paths@.take(__it0.pos())));
    }
@loop 0 for
    invariant
        __it0.v == paths, 0 <= __it0.i <= __it0.v@.len(),
        files@ == expanded(paths@.take(__it0.pos())),
        forall|i: int| 0 <= i < __it0.pos() ==> acceptable(#[trigger] paths@[i]),
    ensures
        __it0.pos() == paths@.len(),
    decreases __it0.v@.len() - __it0.pos(),
@after 0
    proof { assert(paths@.take(paths@.len() as int) =~= paths@); }
@pre 1
    proof { assert((Seq::<char>::empty() + escaped(path_str@)) + "/**/*.json*.gz"@ =~= escaped(path_str@) + "/**/*.json*.gz"@); assert(__it1.all() == below(path.id())); }
@after 1
    proof { assert(__it1.all().take(__it1.all().len() as int) =~= __it1.all()); }
@bottom 1
    proof { assert(goods(__it1.all().take(__it1.pos())) =~= goods(__it1.all().take(__it1.pos() - 1)).push(__it1.all()[__it1.pos() - 1]->Good_0));
        assert(files@ =~= expanded(paths@.take(__it0.pos() - 1)) + goods(__it1.all().take(__it1.pos()))); }
@loop 1 for
    invariant
        __it0.v == paths, 0 < __it0.i <= __it0.v@.len(),
        __it1.all() == below(path.id()), __it1.all().len() < 0x7fff_ffff,
        0 <= __it1.pos() <= __it1.all().len(),
        num_hits == __it1.pos(),
        all_good(__it1.all().take(__it1.pos())),
        files@ =~= expanded(paths@.take(__it0.pos() - 1)) + goods(__it1.all().take(__it1.pos())),
    ensures
        __it1.pos() == __it1.all().len(),
    decreases __it1.all().len() - __it1.pos(),
@*/
}
/// each argument contributes its own files, in the arguments' order
proof fn theorem_expanded(paths: Seq<PathBuf>, k: int)
    requires 0 <= k < paths.len(),
    ensures exists|a: Seq<PathBuf>, b: Seq<PathBuf>| expanded(paths) == #[trigger] (a + stands_for(paths[k]) + b) && a == expanded(paths.take(k)),
    decreases paths.len(),
{
    if k == paths.len() - 1 {
        assert(paths.drop_last() =~= paths.take(k));
        assert(expanded(paths) =~= expanded(paths.take(k)) + stands_for(paths[k]) + Seq::<PathBuf>::empty());
    } else {
        theorem_expanded(paths.drop_last(), k);
        assert(paths.drop_last().take(k) =~= paths.take(k));
        let (a, b) = choose|a: Seq<PathBuf>, b: Seq<PathBuf>| expanded(paths.drop_last()) == #[trigger] (a + stands_for(paths[k]) + b) && a == expanded(paths.take(k));
        assert(expanded(paths) =~= a + stands_for(paths[k]) + (b + stands_for(paths.last())));
    }
}

// ------------------------------------------------------------------ get_output_file (C22)
pub struct World {
    pub files: Ghost<Map<int, Seq<u8>>>,  // the files there are, and what they hold
    pub dirs: Ghost<Set<int>>,            // directories known to be there
    pub failed: Ghost<bool>,              // an operating system call failed for a reason of its own
}
#[verifier::external_body]
pub struct File { x: u64 }
impl File {
    pub uninterp spec fn path(&self) -> int;
    /// everything written goes to the end of what is there
    pub uninterp spec fn at_end(&self) -> bool;
    pub uninterp spec fn writable(&self) -> bool;
    pub fn options() -> (r: OpenOptions)
        ensures r == (OpenOptions { r: false, w: false, t: false, a: false, c: false, n: false }) { OpenOptions { r: false, w: false, t: false, a: false, c: false, n: false } }
    #[verifier::external_body]
    pub fn create(p: &PathBuf, w: &mut World) -> (r: Result<File>)
        requires parent_of(p.id()) is Some ==> old(w).dirs@.contains(parent_of(p.id())->Some_0),
        ensures final(w).dirs == old(w).dirs,
            r is Ok ==> r->Ok_0.path() == p.id() && r->Ok_0.writable() && r->Ok_0.at_end() && final(w).files@ == old(w).files@.insert(p.id(), Seq::<u8>::empty()),
            r is Err ==> final(w).failed@ && final(w).files == old(w).files { unimplemented!() }
}
pub struct OpenOptions { pub r: bool, pub w: bool, pub t: bool, pub a: bool, pub c: bool, pub n: bool }
impl OpenOptions {
    pub fn new() -> (r: OpenOptions)
        ensures r == (OpenOptions { r: false, w: false, t: false, a: false, c: false, n: false }) { OpenOptions { r: false, w: false, t: false, a: false, c: false, n: false } }
    pub fn read(self, v: bool) -> (r: OpenOptions) ensures r == (OpenOptions { r: v, ..self }) { OpenOptions { r: v, ..self } }
    pub fn write(self, v: bool) -> (r: OpenOptions) ensures r == (OpenOptions { w: v, ..self }) { OpenOptions { w: v, ..self } }
    pub fn truncate(self, v: bool) -> (r: OpenOptions) ensures r == (OpenOptions { t: v, ..self }) { OpenOptions { t: v, ..self } }
    pub fn append(self, v: bool) -> (r: OpenOptions) ensures r == (OpenOptions { a: v, ..self }) { OpenOptions { a: v, ..self } }
    pub fn create(self, v: bool) -> (r: OpenOptions) ensures r == (OpenOptions { c: v, ..self }) { OpenOptions { c: v, ..self } }
    pub fn create_new(self, v: bool) -> (r: OpenOptions) ensures r == (OpenOptions { n: v, ..self }) { OpenOptions { n: v, ..self } }
    #[verifier::external_body]
    pub fn open(self, p: &PathBuf, w: &mut World) -> (r: Result<File>)
        ensures final(w).dirs == old(w).dirs,
            ({
                let there = old(w).files@.dom().contains(p.id());
                let may = (self.w || self.a || self.r) && (self.t ==> self.w && !self.a) && (self.n ==> !there) && (there || self.c || self.n)
                    && (!there && parent_of(p.id()) is Some ==> old(w).dirs@.contains(parent_of(p.id())->Some_0));
                &&& r is Ok ==> may && r->Ok_0.path() == p.id() && r->Ok_0.writable() == (self.w || self.a)
                    && final(w).files@ == old(w).files@.insert(p.id(), if there && !self.t { old(w).files@[p.id()] } else { Seq::<u8>::empty() })
                    && (r->Ok_0.at_end() <==> self.a || !there || self.t || old(w).files@[p.id()].len() == 0)
                &&& r is Err ==> final(w).files == old(w).files && (may ==> final(w).failed@)
            }) { unimplemented!() }
}
pub mod fs {
    use super::*;
    /// the directory and everything above it, whether it was there or not
    #[verifier::external_body]
    pub fn create_dir_all(p: &PathBuf, w: &mut World) -> (r: Result<()>)
        ensures final(w).files == old(w).files, r is Ok ==> final(w).dirs@ == old(w).dirs@.insert(p.id()),
            r is Err ==> final(w).failed@ && final(w).dirs == old(w).dirs { unimplemented!() }
    #[verifier::external_body]
    pub fn create_dir(p: &PathBuf, w: &mut World) -> (r: Result<()>)
        ensures final(w).files == old(w).files, r is Ok ==> final(w).dirs@ == old(w).dirs@.insert(p.id()),
            r is Err ==> final(w).dirs == old(w).dirs { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_file(p: &PathBuf, w: &mut World) -> (r: Result<()>)
        ensures final(w).dirs == old(w).dirs, r is Ok ==> final(w).files@ == old(w).files@.remove(p.id()), r is Err ==> final(w).failed@ && final(w).files == old(w).files { unimplemented!() }
}
pub fn get_output_file(path: &PathBuf, force: bool, w: &mut World) -> (r: Result<(File, PathBuf)>)
    requires !old(w).failed@,
    ensures
        // an existing file is not touched without `force`
        old(w).files@.dom().contains(path.id()) && !force ==> r is Err && final(w).files@ == old(w).files@,
        // otherwise: an empty, writable file at that path, and nothing else
        r is Ok ==> final(w).files@ == old(w).files@.insert(path.id(), Seq::<u8>::empty()) && r->Ok_0.0.path() == path.id()
            && r->Ok_0.0.writable() && r->Ok_0.0.at_end() && r->Ok_0.1 == *path,
        r is Err ==> final(w).files@ == old(w).files@,
        // nothing but the file system refusing, or an existing file, makes it fail
        r is Err ==> final(w).failed@ || old(w).files@.dom().contains(path.id()) && !force,
{
/*@body
@file src/util.rs
@item get_output_file
@params path force
@locals parent
@world is_file exists open File::create fs::create_dir_all fs::create_dir fs::remove_file
@*/
}
} // verus!
fn main() {}
