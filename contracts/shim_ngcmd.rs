// ---------------------------------------------------------------------------------------------
// shim_ngcmd: tokens, tokenizers and the ngram table as the ngram commands use them, by contract
// (tokenize: unit `tokens`; the table: unit `counter`).  `Tok` and the order on ngrams: shim_grams.
// ---------------------------------------------------------------------------------------------
pub type Gram = Seq<Tok>;
pub type Tokens = Seq<Tok>;
impl ToJson for Tok { uninterp spec fn js(&self) -> JV; }
/// which tokenizer a run uses
pub ghost enum Tk { Unicode, Pretrained(int) }
pub uninterp spec fn unicode_tokens(t: Chars) -> Tokens;
pub uninterp spec fn pretrained_tokens(tok: int, t: Chars) -> Tokens;
pub uninterp spec fn decoded(tok: int, v: Tokens) -> Chars;
pub uninterp spec fn joined_by(v: Tokens, sep: Chars) -> Chars;
pub open spec fn toks(k: Tk, t: Chars) -> Tokens {
    match k { Tk::Unicode => unicode_tokens(t), Tk::Pretrained(id) => pretrained_tokens(id, t) }
}
/// an iterator over tokens: what is still to come
#[verifier::external_body]
pub struct TokIter { x: u64 }
pub struct Into_;
impl TokIter {
    pub uninterp spec fn rest(&self) -> Tokens;
    /// stands for a map whose closure turns a token into the same token
    #[verifier::external_body]
    pub fn map(self, f: Into_) -> (r: TokIter) ensures r.rest() == self.rest() { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Tok>)
        ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1) { unimplemented!() }
}
impl VxInto for TokIter {
    type It = TokIter;
    open spec fn begins(self, r: TokIter) -> bool { r == self }
    fn vx_into(self) -> (r: TokIter) { self }
}
/// Box<dyn Iterator>: the box adds nothing
pub struct Box;
impl Box { pub fn new(s: TokIter) -> (r: TokIter) ensures r == s { s } }
#[verifier::external_body]
pub fn tokenize(t: &Text) -> (r: TokIter) ensures r.rest() == unicode_tokens(t@) { unimplemented!() }
/// Vec<String> as a tokenizer returns it
#[verifier::external_body]
pub struct TokVec { x: u64 }
impl TokVec {
    pub uninterp spec fn view(&self) -> Tokens;
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: TokIter) ensures r.rest() == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
#[verifier::external_body]
pub struct PretrainedTokenizer { x: u64 }
pub uninterp spec fn tokenizer_named(name: Chars) -> int;
impl PretrainedTokenizer {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(name: &Text) -> (r: Result<PretrainedTokenizer>) ensures r is Ok ==> r->Ok_0.id() == tokenizer_named(name@) { unimplemented!() }
    #[verifier::external_body]
    pub fn tokenize(&self, t: &Text) -> (r: Result<TokVec>) ensures r is Ok ==> r->Ok_0@ == pretrained_tokens(self.id(), t@) { unimplemented!() }
    #[verifier::external_body]
    pub fn decode(&self, v: &Vec<Tok>) -> (r: Result<Text>) ensures r is Ok ==> r->Ok_0@ == decoded(self.id(), v@) { unimplemented!() }
}
impl Clone for PretrainedTokenizer {
    #[verifier::external_body]
    fn clone(&self) -> (r: PretrainedTokenizer) ensures r == *self { unimplemented!() }
}
pub open spec fn tk_of(t: Option<PretrainedTokenizer>) -> Tk { match t { None => Tk::Unicode, Some(p) => Tk::Pretrained(p.id()) } }
pub trait JoinToks { spec fn words(&self) -> Tokens; fn join(&self, sep: &str) -> (r: Text) ensures r@ == joined_by(self.words(), sep@); }
impl JoinToks for Vec<Tok> {
    open spec fn words(&self) -> Tokens { self@ }
    #[verifier::external_body]
    fn join(&self, sep: &str) -> (r: Text) { unimplemented!() }
}
pub struct Data { pub text: Option<Text> }
pub type DataInstance = Data;

// ------------------------------------------------------------------ windows
/// the ngrams of a token sequence, in order: the window ending at each token that has n - 1 before it
pub open spec fn wins(t: Tokens, n: int) -> Seq<Gram>
    decreases t.len()
{
    if t.len() == 0 { Seq::empty() } else {
        let w = wins(t.drop_last(), n);
        if t.len() >= n { w.push(t.subrange(t.len() - n, t.len() as int)) } else { w }
    }
}
/// `wins` is: every window of n consecutive tokens once, in order
proof fn theorem_windows(t: Tokens, n: int)
    requires n >= 1,
    ensures
        wins(t, n).len() == (if t.len() >= n { t.len() - n + 1 } else { 0 }),
        forall|i: int| 0 <= i < wins(t, n).len() ==> #[trigger] wins(t, n)[i] == t.subrange(i, i + n),
    decreases t.len(),
{
    if t.len() > 0 {
        theorem_windows(t.drop_last(), n);
        let w = wins(t.drop_last(), n);
        assert forall|i: int| 0 <= i < wins(t, n).len() implies #[trigger] wins(t, n)[i] == t.subrange(i, i + n) by {
            if i < w.len() { assert(w[i] =~= t.subrange(i, i + n)); }
        }
    }
}
/// the ngrams of a document, and of a sequence of documents
pub open spec fn doc_wins(d: Data, tok: Tk, n: int) -> Seq<Gram> { if d.text is Some { wins(toks(tok, d.text->Some_0@), n) } else { Seq::empty() } }
pub open spec fn docs_wins(docs: Seq<Data>, tok: Tk, n: int) -> Seq<Gram>
    decreases docs.len()
{ if docs.len() == 0 { Seq::empty() } else { docs_wins(docs.drop_last(), tok, n) + doc_wins(docs.last(), tok, n) } }
/// the ngrams of all processed documents, each as often as it occurs
pub open spec fn all_grams(paths: Seq<int>, limit: Option<usize>, tok: Tk, n: int) -> Multiset<Gram>
    decreases paths.len()
{ if paths.len() == 0 { Multiset::empty() } else { all_grams(paths.drop_last(), limit, tok, n).add(docs_wins(documents(paths.last(), limit), tok, n).to_multiset()) } }
/// the sliding window after the tokens `s` have gone through it
pub open spec fn window_of(s: Tokens, n: int) -> Tokens { if s.len() >= n { s.subrange(s.len() - n, s.len() as int) } else { s } }
proof fn lemma_slide(s: Tokens, x: Tok, n: int)
    requires n >= 1,
    ensures
        s.len() >= n ==> window_of(s.push(x), n) =~= window_of(s, n).skip(1).push(x),
        s.len() < n ==> window_of(s.push(x), n) =~= window_of(s, n).push(x),
        wins(s.push(x), n) == (if s.len() + 1 >= n { wins(s, n).push(window_of(s.push(x), n)) } else { wins(s, n) }),
        window_of(s, n).len() == n <==> s.len() >= n,
        window_of(s, n).len() <= n,
{ assert(s.push(x).drop_last() =~= s); }

// ------------------------------------------------------------------ the table
pub trait Atomic { type Type; }
impl Atomic for AtomicU8 { type Type = u8; }
impl Atomic for AtomicU32 { type Type = u32; }
impl Atomic for AtomicU64 { type Type = u64; }
#[verifier::external_body]
pub struct AtomicU8 { x: u64 }
#[verifier::external_body]
pub struct AtomicU32 { x: u64 }
#[verifier::external_body]
pub struct AtomicU64 { x: u64 }
pub trait One: Sized { fn one() -> (r: Self); }
impl One for u8 { fn one() -> (r: u8) ensures r == 1 { 1 } }
impl One for u32 { fn one() -> (r: u32) ensures r == 1 { 1 } }
impl One for u64 { fn one() -> (r: u64) ensures r == 1 { 1 } }
