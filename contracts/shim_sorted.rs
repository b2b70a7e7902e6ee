// BTreeSet<(count, Rc<ngram>)> and HashMap<Rc<ngram>, count>: assumed contracts.
pub open spec fn pv(p: (Int, Rc<Vec<Tok>>)) -> Pair { (p.0 as int, p.1@) }

#[verifier::external_body]
pub struct BTreeSet { x: u64 }
impl BTreeSet {
    pub uninterp spec fn view(&self) -> Set<Pair>;
    #[verifier::external_body]
    pub fn new() -> (r: BTreeSet) ensures r@ == Set::<Pair>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, p: &(Int, Rc<Vec<Tok>>)) -> (r: bool) ensures r == self@.contains(pv(*p)) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, p: (Int, Rc<Vec<Tok>>)) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(pv(p)), r == !old(self)@.contains(pv(p)) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, p: &(Int, Rc<Vec<Tok>>)) -> (r: bool)
        ensures final(self)@ == old(self)@.remove(pv(*p)), r == old(self)@.contains(pv(*p)) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_first(&mut self) -> (r: Option<(Int, Rc<Vec<Tok>>)>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && old(self)@.contains(pv(r->Some_0)) && final(self)@ == old(self)@.remove(pv(r->Some_0))
                && forall|q: Pair| #[trigger] final(self)@.contains(q) ==> plt(pv(r->Some_0), q) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_last(&mut self) -> (r: Option<(Int, Rc<Vec<Tok>>)>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && old(self)@.contains(pv(r->Some_0)) && final(self)@ == old(self)@.remove(pv(r->Some_0))
                && forall|q: Pair| #[trigger] final(self)@.contains(q) ==> plt(q, pv(r->Some_0)) { unimplemented!() }
    #[verifier::external_body]
    pub fn first(&self) -> (r: Option<&(Int, Rc<Vec<Tok>>)>)
        ensures self@.len() == 0 ==> r is None,
            self@.len() > 0 ==> r is Some && self@.contains(pv(*r->Some_0))
                && forall|q: Pair| #[trigger] self@.contains(q) ==> q == pv(*r->Some_0) || plt(pv(*r->Some_0), q) { unimplemented!() }
    #[verifier::external_body]
    pub fn last(&self) -> (r: Option<&(Int, Rc<Vec<Tok>>)>)
        ensures self@.len() == 0 ==> r is None,
            self@.len() > 0 ==> r is Some && self@.contains(pv(*r->Some_0))
                && forall|q: Pair| #[trigger] self@.contains(q) ==> q == pv(*r->Some_0) || plt(q, pv(*r->Some_0)) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Set::<Pair>::empty() { unimplemented!() }
}

#[verifier::external_body]
pub struct RandomState { x: u64 }
impl RandomState {
    #[verifier::external_body]
    pub fn new() -> (r: RandomState) { unimplemented!() }
}
#[verifier::external_body]
pub struct HashMap { x: u64 }
impl HashMap {
    pub uninterp spec fn view(&self) -> Map<Seq<Tok>, int>;
    #[verifier::external_body]
    pub fn with_hasher(s: RandomState) -> (r: HashMap) ensures r@ == Map::<Seq<Tok>, int>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &Rc<Vec<Tok>>) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Rc<Vec<Tok>>) -> (r: Option<&Int>)
        ensures self@.dom().contains(k@) ==> r is Some && *r->Some_0 == self@[k@],
            !self@.dom().contains(k@) ==> r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &Rc<Vec<Tok>>) -> (r: Option<&mut Int>)
        ensures old(self)@.dom().contains(k@) ==> r is Some && *r->Some_0 == old(self)@[k@]
                && final(self)@ == old(self)@.insert(k@, *final(r->Some_0) as int),
            !old(self)@.dom().contains(k@) ==> r is None && final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Rc<Vec<Tok>>, v: Int) -> (r: Option<Int>)
        ensures final(self)@ == old(self)@.insert(k@, v as int),
            r is Some <==> old(self)@.dom().contains(k@), r is Some ==> r->Some_0 == old(self)@[k@] { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &Rc<Vec<Tok>>) -> (r: Option<Int>)
        ensures final(self)@ == old(self)@.remove(k@),
            r is Some <==> old(self)@.dom().contains(k@), r is Some ==> r->Some_0 == old(self)@[k@] { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<Seq<Tok>, int>::empty() { unimplemented!() }
}
