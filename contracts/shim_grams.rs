// Tokens and ngrams.  An ngram is a sequence of tokens; `Ord` on Vec<T> is some strict total order.
#[verifier::external_body]
pub struct Tok { s: String }
pub uninterp spec fn gram_lt(a: Seq<Tok>, b: Seq<Tok>) -> bool;
pub broadcast axiom fn axiom_gram_lt(a: Seq<Tok>, b: Seq<Tok>)
    ensures
        !(#[trigger] gram_lt(a, b) && gram_lt(b, a)),
        a != b ==> gram_lt(a, b) || gram_lt(b, a),
        a == b ==> !gram_lt(a, b),
        forall|c: Seq<Tok>| gram_lt(a, b) && #[trigger] gram_lt(b, c) ==> gram_lt(a, c);
pub type Pair = (int, Seq<Tok>);
pub open spec fn plt(a: Pair, b: Pair) -> bool { a.0 < b.0 || (a.0 == b.0 && gram_lt(a.1, b.1)) }
