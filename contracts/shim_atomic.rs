// Atomic integer cells of the World.
#[verifier::external_body]
pub struct ${ATOMIC} { x: u64 }
impl Atomic for ${ATOMIC} { type Type = ${INT}; }
impl ${ATOMIC} {
    pub uninterp spec fn id(&self) -> int;
    pub open spec fn live(&self, w: World) -> bool { w.cells@.dom().contains(self.id())
        && 0 <= w.cells@[self.id()] <= ${INT}::MAX }
    pub open spec fn at(&self, w: World) -> int { w.cells@[self.id()] }

    #[verifier::external_body]
    pub fn new(v: ${INT}, w: &mut World) -> (r: Self)
        ensures !old(w).cells@.dom().contains(r.id()),
                final(w).cells@ == old(w).cells@.insert(r.id(), v as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering, w: &mut World) -> (r: ${INT})
        requires self.live(*old(w)),
        ensures r == self.at(*old(w)), *final(w) == *old(w),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, v: ${INT}, o: Ordering, w: &mut World)
        requires self.live(*old(w)),
        ensures final(w).cells@ == old(w).cells@.insert(self.id(), v as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_add(&self, v: ${INT}, o: Ordering, w: &mut World) -> (r: ${INT})
        requires self.live(*old(w)),
        ensures r == self.at(*old(w)),
            final(w).cells@ == old(w).cells@.insert(self.id(),
                if r + v > ${INT}::MAX { r + v - ${INT}::MAX - 1 } else { r + v }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_sub(&self, v: ${INT}, o: Ordering, w: &mut World) -> (r: ${INT})
        requires self.live(*old(w)),
        ensures r == self.at(*old(w)),
            final(w).cells@ == old(w).cells@.insert(self.id(),
                if r < v { r - v + ${INT}::MAX + 1 } else { r - v }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_max(&self, v: ${INT}, o: Ordering, w: &mut World) -> (r: ${INT})
        requires self.live(*old(w)),
        ensures r == self.at(*old(w)),
            final(w).cells@ == old(w).cells@.insert(self.id(), if r < v { v as int } else { r as int }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_min(&self, v: ${INT}, o: Ordering, w: &mut World) -> (r: ${INT})
        requires self.live(*old(w)),
        ensures r == self.at(*old(w)),
            final(w).cells@ == old(w).cells@.insert(self.id(), if r > v { v as int } else { r as int }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, v: ${INT}, o: Ordering, w: &mut World) -> (r: ${INT})
        requires self.live(*old(w)),
        ensures r == self.at(*old(w)),
            final(w).cells@ == old(w).cells@.insert(self.id(), v as int),
    { unimplemented!() }
}
