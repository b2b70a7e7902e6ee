// format!, spelled out by the extraction (R11)
pub trait Shown { spec fn shown(&self) -> Seq<char>; }
impl<T: Shown + ?Sized> Shown for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
pub uninterp spec fn decimal(n: int) -> Seq<char>;
impl Shown for usize { open spec fn shown(&self) -> Seq<char> { decimal(*self as int) } }
impl Shown for u64 { open spec fn shown(&self) -> Seq<char> { decimal(*self as int) } }
impl Shown for Text { open spec fn shown(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub struct Fmt { x: u64 }
impl Fmt {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new() -> (r: Fmt) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn lit(self, s: &'static str) -> (r: Fmt) ensures r@ == self@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn arg<T: Shown>(self, t: &T) -> (r: Fmt) ensures r@ == self@ + t.shown() { unimplemented!() }
    #[verifier::external_body]
    pub fn styled<T>(self, t: &T) -> (r: Fmt) { unimplemented!() }
    #[verifier::external_body]
    pub fn done(self) -> (r: Text) ensures r@ == self@ { unimplemented!() }
}
