// HashMap<K, V, S> by contract; a key is known by its value (`key`).
pub trait VKey { type K; spec fn key(&self) -> Self::K; }
impl VKey for Text { type K = Chars; open spec fn key(&self) -> Chars { self@ } }
impl VKey for PathBuf { type K = int; open spec fn key(&self) -> int { self.id() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(S)]
pub struct HashMap<K, V, S> { k: Option<K>, v: Option<V>, s: Option<S> }
/// the sequence lists the map's entries, each once
pub open spec fn lists<A, V>(all: Seq<(A, V)>, m: Map<A, V>) -> bool {
    &&& forall|i: int| 0 <= i < all.len() ==> m.dom().contains((#[trigger] all[i]).0) && m[all[i].0] == all[i].1
    &&& forall|i: int, j: int| 0 <= i < j < all.len() ==> (#[trigger] all[i]).0 != (#[trigger] all[j]).0
    &&& forall|k: A| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0 == k
}
impl<K: VKey, V, S> HashMap<K, V, S> {
    pub uninterp spec fn view(&self) -> Map<K::K, V>;
    #[verifier::external_body]
    pub fn with_capacity_and_hasher(n: usize, s: S) -> (r: Self) ensures r@ == Map::<K::K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_hasher(s: S) -> (r: Self) ensures r@ == Map::<K::K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) ensures final(self)@ == old(self)@.insert(k.key(), v) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r <==> self@ == Map::<K::K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(k.key()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &K) -> (r: Option<&'a V>)
        ensures r is Some <==> self@.dom().contains(k.key()), r is Some ==> *r->Some_0 == self@[k.key()] { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>)
        ensures r is Some <==> old(self)@.dom().contains(k.key()),
            r is Some ==> *r->Some_0 == old(self)@[k.key()] && final(self)@ == old(self)@.insert(k.key(), *final(r->Some_0)),
            r is None ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: MapIter<'a, K, V>) ensures r.pos() == 0, lists(r.all(), self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>)
        ensures r.key() == k.key(), r.before() == old(self)@, final(self)@ == r.after() { unimplemented!() }
    /// every entry, each once; the map is empty afterwards
    #[verifier::external_body]
    pub fn drain(&mut self) -> (r: MapInto<K, V>) ensures r.pos() == 0, lists(r.all(), old(self)@), final(self)@ == Map::<K::K, V>::empty() { unimplemented!() }
}
impl<K: VKey, V, S> Clone for HashMap<K, V, S> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
/// map.entry(k)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Entry<'a, K, V> { m: &'a Option<(K, V)> }
impl<'a, K: VKey, V> Entry<'a, K, V> {
    pub uninterp spec fn key(&self) -> K::K;
    pub uninterp spec fn before(&self) -> Map<K::K, V>;
    /// the map once the entry is done with
    #[verifier::prophetic]
    pub uninterp spec fn after(&self) -> Map<K::K, V>;
}
impl<'a, K: VKey, T> Entry<'a, K, Vec<T>> {
    #[verifier::external_body]
    pub fn or_default(self) -> (r: &'a mut Vec<T>)
        ensures self.before().dom().contains(self.key()) ==> *r == self.before()[self.key()],
            !self.before().dom().contains(self.key()) ==> (*r)@.len() == 0,
            self.after() == self.before().insert(self.key(), *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn or_insert(self, v: Vec<T>) -> (r: &'a mut Vec<T>)
        ensures self.before().dom().contains(self.key()) ==> *r == self.before()[self.key()],
            !self.before().dom().contains(self.key()) ==> *r == v,
            self.after() == self.before().insert(self.key(), *final(r)) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct MapIter<'a, K, V> { x: &'a Option<(K, V)> }
impl<'a, K: VKey, V> MapIter<'a, K, V> {
    pub uninterp spec fn all(&self) -> Seq<(K::K, V)>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a K, &'a V)>)
        ensures final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> r is Some && r->Some_0.0.key() == old(self).all()[old(self).pos()].0
                && *r->Some_0.1 == old(self).all()[old(self).pos()].1 && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos() { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: MapEnum<'a, K, V>) ensures r.all() == self.all(), r.pos() == self.pos(), self.all().len() < usize::MAX { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct MapEnum<'a, K, V> { x: &'a Option<(K, V)> }
impl<'a, K: VKey, V> MapEnum<'a, K, V> {
    pub uninterp spec fn all(&self) -> Seq<(K::K, V)>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, (&'a K, &'a V))>)
        ensures final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> r is Some && r->Some_0.1.0.key() == old(self).all()[old(self).pos()].0
                && *r->Some_0.1.1 == old(self).all()[old(self).pos()].1 && final(self).pos() == old(self).pos() + 1
                && r->Some_0.0 == old(self).pos(),
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct MapInto<K, V> { x: Option<(K, V)> }
impl<K: VKey, V> MapInto<K, V> {
    pub uninterp spec fn all(&self) -> Seq<(K::K, V)>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(K, V)>)
        ensures final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> r is Some && r->Some_0.0.key() == old(self).all()[old(self).pos()].0
                && r->Some_0.1 == old(self).all()[old(self).pos()].1 && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos() { unimplemented!() }
}
impl<'a, K: VKey, V> VxInto for MapIter<'a, K, V> {
    type It = MapIter<'a, K, V>;
    open spec fn begins(self, r: MapIter<'a, K, V>) -> bool { r == self }
    fn vx_into(self) -> (r: MapIter<'a, K, V>) { self }
}
impl<'a, K: VKey, V> VxInto for MapEnum<'a, K, V> {
    type It = MapEnum<'a, K, V>;
    open spec fn begins(self, r: MapEnum<'a, K, V>) -> bool { r == self }
    fn vx_into(self) -> (r: MapEnum<'a, K, V>) { self }
}
impl<K: VKey, V> VxInto for MapInto<K, V> {
    type It = MapInto<K, V>;
    open spec fn begins(self, r: MapInto<K, V>) -> bool { r == self }
    fn vx_into(self) -> (r: MapInto<K, V>) { self }
}
impl<'a, K: VKey, V, S> VxInto for &'a HashMap<K, V, S> {
    type It = MapIter<'a, K, V>;
    open spec fn begins(self, r: MapIter<'a, K, V>) -> bool { r.pos() == 0 && lists(r.all(), self@) }
    fn vx_into(self) -> (r: MapIter<'a, K, V>) { self.iter() }
}
impl<K: VKey, V, S> VxInto for HashMap<K, V, S> {
    type It = MapInto<K, V>;
    open spec fn begins(self, r: MapInto<K, V>) -> bool { r.pos() == 0 && lists(r.all(), self@) }
    #[verifier::external_body]
    fn vx_into(self) -> (r: MapInto<K, V>) { unimplemented!() }
}
pub trait VxExtend<T> { fn vx_extend(&mut self, v: Vec<T>); }
impl<T> VxExtend<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_extend(&mut self, v: Vec<T>) ensures final(self)@ == old(self)@ + v@ { unimplemented!() }
}
