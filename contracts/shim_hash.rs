// Hashing: ahash is an uninterpreted function of (state id, sequence of tokens fed to it).
#[verifier::external_body]
pub struct Tok { s: String }
pub uninterp spec fn hash_val(state: int, toks: Seq<Tok>) -> u64;

#[verifier::external_body]
pub struct RandomState { x: u64 }
#[verifier::external_body]
pub struct AHasher { x: u64 }
/// the state determined by four explicit keys, and nothing else
pub uninterp spec fn seeded_state(k0: u64, k1: u64, k2: u64, k3: u64) -> int;
pub broadcast axiom fn axiom_seeded_state_inj(a0: u64, a1: u64, a2: u64, a3: u64, b0: u64, b1: u64, b2: u64, b3: u64)
    ensures #[trigger] seeded_state(a0, a1, a2, a3) == #[trigger] seeded_state(b0, b1, b2, b3)
        ==> a0 == b0 && a1 == b1 && a2 == b2 && a3 == b3;
impl RandomState {
    pub uninterp spec fn id(&self) -> int;
    /// built from explicit keys only: two processes that pass the same keys hash alike
    pub uninterp spec fn reproducible(&self) -> bool;
    #[verifier::external_body]
    pub fn with_seeds(k0: u64, k1: u64, k2: u64, k3: u64) -> (r: RandomState)
        ensures r.id() == seeded_state(k0, k1, k2, k3), r.reproducible(),
    { unimplemented!() }
    // ahash: "with_seed" mixes the key with keys chosen at random per process
    #[verifier::external_body]
    pub fn with_seed(k: usize) -> (r: RandomState)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: RandomState)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn build_hasher(&self) -> (h: AHasher)
        ensures h.state() == self.id(), h.fed() == Seq::<Tok>::empty(),
    { unimplemented!() }
}
impl AHasher {
    pub uninterp spec fn state(&self) -> int;
    pub uninterp spec fn fed(&self) -> Seq<Tok>;
    #[verifier::external_body]
    pub fn finish(&self) -> (r: u64)
        ensures r == hash_val(self.state(), self.fed()),
    { unimplemented!() }
}
impl Tok {
    #[verifier::external_body]
    pub fn hash(&self, h: &mut AHasher)
        ensures final(h).state() == old(h).state(), final(h).fed() == old(h).fed().push(*self),
    { unimplemented!() }
}

/// A non-empty-or-empty sequence of tokens that can be iterated (slice or VecDeque in the real code).
#[verifier::external_body]
pub struct NgramSeq { x: u64 }
#[verifier::external_body]
pub struct TokIter { x: u64 }
impl NgramSeq {
    pub uninterp spec fn view(&self) -> Seq<Tok>;
    #[verifier::external_body]
    pub fn as_iter(&self) -> (r: TokIter)
        ensures r.rest() == self@,
    { unimplemented!() }
}
impl TokIter {
    pub uninterp spec fn rest(&self) -> Seq<Tok>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Tok>)
        ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
                old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0])
                    && final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
}
pub fn vx_by_ref(it: &mut TokIter) -> (r: &mut TokIter)
    ensures *r == *old(it), *final(it) == *final(r),
{ it }
