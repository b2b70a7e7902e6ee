// anyhow
#[verifier::external_body]
pub struct Error { x: u64 }
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body]
pub fn vx_error() -> (r: Error) { unimplemented!() }

pub struct VecIter<'a, T> { pub v: &'a Vec<T>, pub i: usize }
impl<'a, T> VecIter<'a, T> {
    pub open spec fn seq(&self) -> Seq<T> { self.v@ }
    pub open spec fn pos(&self) -> int { self.i as int }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).i <= old(self).v@.len(),
        ensures final(self).v == old(self).v,
            old(self).i < old(self).v@.len() ==> r is Some && *r->Some_0 == old(self).v@[old(self).i as int] && final(self).i == old(self).i + 1,
            old(self).i >= old(self).v@.len() ==> r is None && final(self).i == old(self).i,
    { if self.i < self.v.len() { let x = &self.v[self.i]; self.i = self.i + 1; Some(x) } else { None } }
}
pub fn vx_vec_iter<'a, T>(v: &'a Vec<T>) -> (r: VecIter<'a, T>)
    ensures r.v == v, r.i == 0,
{ VecIter { v, i: 0 } }
pub fn vx_ctx<T, E>(r: core::result::Result<T, E>) -> (o: Result<T>)
    ensures r is Ok ==> o == core::result::Result::<T, Error>::Ok(r->Ok_0), r is Err ==> o is Err,
{ match r { Ok(x) => Ok(x), Err(_) => Err(vx_error()) } }
pub fn vx_okor<T>(r: Option<T>) -> (o: Result<T>)
    ensures r is Some ==> o == core::result::Result::<T, Error>::Ok(r->Some_0), r is None ==> o is Err,
{ match r { Some(x) => Ok(x), None => Err(vx_error()) } }
