// ------------------------------------------------------------------ property-level lemmas
/// how many of the first n hash functions send the ngram to cell c
pub open spec fn mult(ix: Seq<int>, n: int, c: int) -> int
    decreases n
{ if n <= 0 { 0 } else { mult(ix, n - 1, c) + if ix[n - 1] == c { 1int } else { 0 } } }
pub open spec fn cap(x: int) -> int { if x > MAXV { MAXV } else { x } }
pub open spec fn floor0(x: int) -> int { if x < 0 { 0 } else { x } }
pub open spec fn in_range(t: Seq<int>) -> bool { forall|c: int| 0 <= c < t.len() ==> 0 <= #[trigger] t[c] <= MAXV }
pub open spec fn ix_ok(ix: Seq<int>, n: int, len: int) -> bool { n <= ix.len() && forall|i: int| 0 <= i < n ==> 0 <= #[trigger] ix[i] < len }

proof fn lemma_mult_bound(ix: Seq<int>, n: int, c: int)
    ensures 0 <= mult(ix, n, c), n >= 0 ==> mult(ix, n, c) <= n,
            (exists|i: int| 0 <= i < n && #[trigger] ix[i] == c) ==> mult(ix, n, c) >= 1,
    decreases n
{ if n > 0 { lemma_mult_bound(ix, n - 1, c); } }

/// every cell is incremented, saturating, by `by` times its multiplicity: exact frame
proof fn lemma_inc_cell(t: Seq<int>, ix: Seq<int>, n: int, by: int, c: int)
    requires in_range(t), ix_ok(ix, n, t.len() as int), 0 <= by, 0 <= c < t.len(),
    ensures inc_n(t, ix, n, by).len() == t.len(),
            inc_n(t, ix, n, by)[c] == cap(t[c] + by * mult(ix, n, c)),
            in_range(inc_n(t, ix, n, by)),
    decreases n
{
    if n > 0 {
        let p = inc_n(t, ix, n - 1, by);
        lemma_inc_cell(t, ix, n - 1, by, c);
        lemma_inc_cell(t, ix, n - 1, by, ix[n - 1]);
        let m = mult(ix, n - 1, c);
        lemma_mult_bound(ix, n - 1, c);
        assert(by * (m + 1) == by * m + by) by (nonlinear_arith);
        assert(by * m >= 0) by (nonlinear_arith) requires by >= 0, m >= 0;
        assert forall|d: int| 0 <= d < t.len() implies 0 <= #[trigger] inc_n(t, ix, n, by)[d] <= MAXV by {
            assert(0 <= p[d] <= MAXV);
        }
    } else {
        assert(by * mult(ix, n, c) == 0) by (nonlinear_arith) requires mult(ix, n, c) == 0;
    }
}
proof fn lemma_dec_cell(t: Seq<int>, ix: Seq<int>, n: int, by: int, c: int)
    requires in_range(t), ix_ok(ix, n, t.len() as int), 0 <= by, 0 <= c < t.len(),
    ensures dec_n(t, ix, n, by).len() == t.len(),
            dec_n(t, ix, n, by)[c] == floor0(t[c] - by * mult(ix, n, c)),
            in_range(dec_n(t, ix, n, by)),
    decreases n
{
    if n > 0 {
        let p = dec_n(t, ix, n - 1, by);
        lemma_dec_cell(t, ix, n - 1, by, c);
        lemma_dec_cell(t, ix, n - 1, by, ix[n - 1]);
        let m = mult(ix, n - 1, c);
        lemma_mult_bound(ix, n - 1, c);
        assert(by * (m + 1) == by * m + by) by (nonlinear_arith);
        assert(by * m >= 0) by (nonlinear_arith) requires by >= 0, m >= 0;
        assert forall|d: int| 0 <= d < t.len() implies 0 <= #[trigger] dec_n(t, ix, n, by)[d] <= MAXV by {
            assert(0 <= p[d] <= MAXV);
        }
    } else {
        assert(by * mult(ix, n, c) == 0) by (nonlinear_arith) requires mult(ix, n, c) == 0;
    }
}

/// a history of increments: (cells of the ngram, identity of the ngram, by)
pub struct Op { pub ng: Seq<Tok>, pub by: int }

impl NgramCounter {
    pub open spec fn run_inc(&self, t: Seq<int>, ops: Seq<Op>) -> Seq<int>
        decreases ops.len()
    {
        if ops.len() == 0 { t } else {
            let p = self.run_inc(t, ops.drop_last());
            inc_n(p, self.cells_of(ops.last().ng), self.num_hash_functions as int, ops.last().by)
        }
    }
    pub open spec fn run_dec(&self, t: Seq<int>, ops: Seq<Op>) -> Seq<int>
        decreases ops.len()
    {
        if ops.len() == 0 { t } else {
            let p = self.run_dec(t, ops.drop_last());
            dec_n(p, self.cells_of(ops.last().ng), self.num_hash_functions as int, ops.last().by)
        }
    }
    /// what cell c received over the history
    pub open spec fn received(&self, ops: Seq<Op>, c: int) -> int
        decreases ops.len()
    {
        if ops.len() == 0 { 0 } else {
            self.received(ops.drop_last(), c)
                + ops.last().by * mult(self.cells_of(ops.last().ng), self.num_hash_functions as int, c)
        }
    }
    proof fn lemma_cells_ok(&self, ng: Seq<Tok>)
        requires self.size > 0,
        ensures ix_ok(self.cells_of(ng), self.num_hash_functions as int, self.size as int),
    {
        assert forall|i: int| 0 <= i < self.num_hash_functions implies 0 <= #[trigger] self.cells_of(ng)[i] < self.size by {
            assert(0 <= self.cell_of(ng, i) < self.size);
        }
    }
    /// C01/C02: after any history every cell holds exactly the saturated sum of what was hashed
    /// to it - nothing is lost, nothing leaks to another cell.
    proof fn lemma_history_inc(&self, t: Seq<int>, ops: Seq<Op>, c: int)
        requires self.size > 0, t.len() == self.size, in_range(t), 0 <= c < self.size,
            forall|k: int| 0 <= k < ops.len() ==> (#[trigger] ops[k]).by >= 0,
        ensures
            self.run_inc(t, ops).len() == t.len(),
            in_range(self.run_inc(t, ops)),
            self.received(ops, c) >= 0,
            self.run_inc(t, ops)[c] == cap(t[c] + self.received(ops, c)),
        decreases ops.len()
    {
        if ops.len() > 0 {
            self.lemma_history_inc(t, ops.drop_last(), c);
            self.lemma_cells_ok(ops.last().ng);
            let p = self.run_inc(t, ops.drop_last());
            assert(ops.last() == ops[ops.len() - 1]);
            lemma_inc_cell(p, self.cells_of(ops.last().ng), self.num_hash_functions as int, ops.last().by, c);
            lemma_mult_bound(self.cells_of(ops.last().ng), self.num_hash_functions as int, c);
            let m = mult(self.cells_of(ops.last().ng), self.num_hash_functions as int, c);
            let by = ops.last().by;
            assert(by * m >= 0) by (nonlinear_arith) requires by >= 0, m >= 0;
        }
    }
    proof fn lemma_history_dec(&self, t: Seq<int>, ops: Seq<Op>, c: int)
        requires self.size > 0, t.len() == self.size, in_range(t), 0 <= c < self.size,
            forall|k: int| 0 <= k < ops.len() ==> (#[trigger] ops[k]).by >= 0,
        ensures
            self.run_dec(t, ops).len() == t.len(),
            in_range(self.run_dec(t, ops)),
            self.received(ops, c) >= 0,
            self.run_dec(t, ops)[c] == floor0(t[c] - self.received(ops, c)),
        decreases ops.len()
    {
        if ops.len() > 0 {
            self.lemma_history_dec(t, ops.drop_last(), c);
            self.lemma_cells_ok(ops.last().ng);
            let p = self.run_dec(t, ops.drop_last());
            assert(ops.last() == ops[ops.len() - 1]);
            lemma_dec_cell(p, self.cells_of(ops.last().ng), self.num_hash_functions as int, ops.last().by, c);
            lemma_mult_bound(self.cells_of(ops.last().ng), self.num_hash_functions as int, c);
            let m = mult(self.cells_of(ops.last().ng), self.num_hash_functions as int, c);
            let by = ops.last().by;
            assert(by * m >= 0) by (nonlinear_arith) requires by >= 0, m >= 0;
        }
    }
    /// what the history added for one ngram
    pub open spec fn total(ops: Seq<Op>, ng: Seq<Tok>) -> int
        decreases ops.len()
    {
        if ops.len() == 0 { 0 } else {
            Self::total(ops.drop_last(), ng) + if ops.last().ng == ng { ops.last().by } else { 0 }
        }
    }
    proof fn lemma_total_le_received(&self, ops: Seq<Op>, ng: Seq<Tok>, i: int)
        requires self.size > 0, 0 <= i < self.num_hash_functions,
            forall|k: int| 0 <= k < ops.len() ==> (#[trigger] ops[k]).by >= 0,
        ensures 0 <= Self::total(ops, ng) <= self.received(ops, self.cell_of(ng, i)),
        decreases ops.len()
    {
        if ops.len() > 0 {
            self.lemma_total_le_received(ops.drop_last(), ng, i);
            assert(ops.last() == ops[ops.len() - 1]);
            let c = self.cell_of(ng, i);
            let ix = self.cells_of(ops.last().ng);
            let n = self.num_hash_functions as int;
            lemma_mult_bound(ix, n, c);
            let m = mult(ix, n, c);
            let by = ops.last().by;
            if ops.last().ng == ng {
                assert(ix[i] == c);
                assert(m >= 1);
                assert(by * m >= by) by (nonlinear_arith) requires by >= 0, m >= 1;
            } else {
                assert(by * m >= 0) by (nonlinear_arith) requires by >= 0, m >= 0;
            }
        }
    }
    proof fn lemma_inc_ret_lower(&self, t: Seq<int>, ng: Seq<Tok>, n: int, by: int, lo: int)
        requires self.size > 0, t.len() == self.size, in_range(t), 0 <= n <= self.num_hash_functions, by >= 0, lo <= MAXV,
            forall|i: int| 0 <= i < n ==> t[#[trigger] self.cell_of(ng, i)] + by >= lo,
        ensures inc_ret(t, self.cells_of(ng), n, by) >= lo,
        decreases n
    {
        if n > 0 {
            self.lemma_inc_ret_lower(t, ng, n - 1, by, lo);
            self.lemma_cells_ok(ng);
            let ix = self.cells_of(ng);
            let c = self.cell_of(ng, n - 1);
            assert(ix[n - 1] == c);
            lemma_inc_cell(t, ix, n - 1, by, c);
            lemma_mult_bound(ix, n - 1, c);
            let m = mult(ix, n - 1, c);
            assert(by * m >= 0) by (nonlinear_arith) requires by >= 0, m >= 0;
        }
    }
    proof fn lemma_table(&self, w: World)
        requires self.wf(w),
        ensures in_range(self.table(w)), self.table(w).len() == self.size,
    {
        assert forall|c: int| 0 <= c < self.size implies 0 <= #[trigger] self.table(w)[c] <= MAXV by {
            assert(self.count_array@[c].live(w));
        }
    }
    /// what a call may return: the contract of `increment`, as a relation
    pub open spec fn inc_may_return(&self, t: Seq<int>, ng: Seq<Tok>, by: int, r: int) -> bool {
        let n = self.num_hash_functions as int;
        inc_ret(t, self.cells_of(ng), n, by) <= r <= min_ret(inc_n(t, self.cells_of(ng), n, by), self.cells_of(ng), n)
    }
    pub open spec fn dec_may_return(&self, t: Seq<int>, ng: Seq<Tok>, by: int, r: int) -> bool {
        let n = self.num_hash_functions as int;
        max_ret(dec_n(t, self.cells_of(ng), n, by), self.cells_of(ng), n) <= r <= dec_ret(t, self.cells_of(ng), n, by)
    }
    proof fn lemma_min_ret_le(t: Seq<int>, ix: Seq<int>, n: int, i: int)
        requires 0 <= i < n,
        ensures min_ret(t, ix, n) <= t[ix[i]],
        decreases n
    { if i < n - 1 { Self::lemma_min_ret_le(t, ix, n - 1, i); } }
    proof fn lemma_max_ret_ge(t: Seq<int>, ix: Seq<int>, n: int, i: int)
        requires 0 <= i < n,
        ensures max_ret(t, ix, n) >= t[ix[i]],
        decreases n
    { if i < n - 1 { Self::lemma_max_ret_ge(t, ix, n - 1, i); } }
    proof fn lemma_max_ret_le(t: Seq<int>, ix: Seq<int>, n: int, hi: int)
        requires hi >= 0, forall|i: int| 0 <= i < n ==> t[#[trigger] ix[i]] <= hi,
        ensures max_ret(t, ix, n) <= hi,
        decreases n
    { if n > 0 { Self::lemma_max_ret_le(t, ix, n - 1, hi); } }
    proof fn lemma_inc_mono(t: Seq<int>, ix: Seq<int>, m: int, n: int, by: int, c: int)
        requires in_range(t), ix_ok(ix, n, t.len() as int), 0 <= by, 0 <= m <= n, 0 <= c < t.len(),
        ensures inc_n(t, ix, m, by)[c] <= inc_n(t, ix, n, by)[c],
        decreases n
    {
        if m < n {
            Self::lemma_inc_mono(t, ix, m, n - 1, by, c);
            lemma_inc_cell(t, ix, n - 1, by, c);
        }
    }
    proof fn lemma_dec_mono(t: Seq<int>, ix: Seq<int>, m: int, n: int, by: int, c: int)
        requires in_range(t), ix_ok(ix, n, t.len() as int), 0 <= by, 0 <= m <= n, 0 <= c < t.len(),
        ensures dec_n(t, ix, m, by)[c] >= dec_n(t, ix, n, by)[c],
        decreases n
    {
        if m < n {
            Self::lemma_dec_mono(t, ix, m, n - 1, by, c);
            lemma_dec_cell(t, ix, n - 1, by, c);
        }
    }
    proof fn lemma_min_pre(t: Seq<int>, u: Seq<int>, ix: Seq<int>, n: int)
        requires forall|i: int| 0 <= i < n ==> t[#[trigger] ix[i]] <= u[ix[i]],
        ensures min_ret(t, ix, n) <= min_ret(u, ix, n),
        decreases n
    { if n > 0 { Self::lemma_min_pre(t, u, ix, n - 1); assert(t[ix[n - 1]] <= u[ix[n - 1]]); } }
    proof fn lemma_max_pre(t: Seq<int>, u: Seq<int>, ix: Seq<int>, n: int)
        requires forall|i: int| 0 <= i < n ==> t[#[trigger] ix[i]] >= u[ix[i]],
        ensures max_ret(t, ix, n) >= max_ret(u, ix, n),
        decreases n
    { if n > 0 { Self::lemma_max_pre(t, u, ix, n - 1); assert(t[ix[n - 1]] >= u[ix[n - 1]]); } }
    /// the running minimum never exceeds the minimum over the cells afterwards
    proof fn lemma_inc_le_min(&self, t: Seq<int>, ng: Seq<Tok>, n: int, by: int)
        requires self.size > 0, t.len() == self.size, in_range(t), 0 <= n <= self.num_hash_functions, by >= 0,
        ensures inc_ret(t, self.cells_of(ng), n, by) <= min_ret(inc_n(t, self.cells_of(ng), n, by), self.cells_of(ng), n),
        decreases n
    {
        if n > 0 {
            self.lemma_inc_le_min(t, ng, n - 1, by);
            self.lemma_cells_ok(ng);
            let ix = self.cells_of(ng);
            let p = inc_n(t, ix, n - 1, by);
            let q = inc_n(t, ix, n, by);
            assert forall|i: int| 0 <= i < n - 1 implies p[#[trigger] ix[i]] <= q[ix[i]] by {
                Self::lemma_inc_mono(t, ix, n - 1, n, by, ix[i]);
            }
            Self::lemma_min_pre(p, q, ix, n - 1);
            lemma_inc_cell(t, ix, n - 1, by, ix[n - 1]);
        }
    }
    proof fn lemma_dec_ge_max(&self, t: Seq<int>, ng: Seq<Tok>, n: int, by: int)
        requires self.size > 0, t.len() == self.size, in_range(t), 0 <= n <= self.num_hash_functions, by >= 0,
        ensures dec_ret(t, self.cells_of(ng), n, by) >= max_ret(dec_n(t, self.cells_of(ng), n, by), self.cells_of(ng), n),
        decreases n
    {
        if n > 0 {
            self.lemma_dec_ge_max(t, ng, n - 1, by);
            self.lemma_cells_ok(ng);
            let ix = self.cells_of(ng);
            let p = dec_n(t, ix, n - 1, by);
            let q = dec_n(t, ix, n, by);
            assert forall|i: int| 0 <= i < n - 1 implies p[#[trigger] ix[i]] >= q[ix[i]] by {
                Self::lemma_dec_mono(t, ix, n - 1, n, by, ix[i]);
            }
            Self::lemma_max_pre(p, q, ix, n - 1);
            lemma_dec_cell(t, ix, n - 1, by, ix[n - 1]);
        }
    }
    /// C01: the value an increment returns never falls below the true number of occurrences
    /// (capped at the integer maximum), whatever was counted before.
    proof fn theorem_never_undercounts(&self, ops: Seq<Op>, ng: Seq<Tok>, by: int, r: int)
        requires self.size > 0, by >= 0,
            forall|k: int| 0 <= k < ops.len() ==> (#[trigger] ops[k]).by >= 0,
            self.inc_may_return(self.run_inc(Seq::new(self.size as nat, |i: int| 0int), ops), ng, by, r),
        ensures r >= cap(Self::total(ops, ng) + by),
    {
        let t0 = Seq::new(self.size as nat, |i: int| 0int);
        let t = self.run_inc(t0, ops);
        let n = self.num_hash_functions as int;
        self.lemma_history_inc(t0, ops, 0);
        assert forall|i: int| 0 <= i < n implies t[#[trigger] self.cell_of(ng, i)] + by >= cap(Self::total(ops, ng) + by) by {
            self.lemma_history_inc(t0, ops, self.cell_of(ng, i));
            self.lemma_total_le_received(ops, ng, i);
        }
        self.lemma_inc_ret_lower(t, ng, n, by, cap(Self::total(ops, ng) + by));
    }
    /// C01: and it is exact when one of its cells is used by this ngram alone, through one hash.
    proof fn theorem_exact_without_collision(&self, ops: Seq<Op>, ng: Seq<Tok>, by: int, i: int, r: int)
        requires self.size > 0, by >= 0, 0 <= i < self.num_hash_functions,
            forall|k: int| 0 <= k < ops.len() ==> (#[trigger] ops[k]).by >= 0,
            mult(self.cells_of(ng), self.num_hash_functions as int, self.cell_of(ng, i)) == 1,
            forall|k: int| 0 <= k < ops.len() && (#[trigger] ops[k]).ng != ng ==>
                mult(self.cells_of(ops[k].ng), self.num_hash_functions as int, self.cell_of(ng, i)) == 0,
            self.inc_may_return(self.run_inc(Seq::new(self.size as nat, |i: int| 0int), ops), ng, by, r),
        ensures r == cap(Self::total(ops, ng) + by),
    {
        let t0 = Seq::new(self.size as nat, |i: int| 0int);
        let t = self.run_inc(t0, ops);
        let n = self.num_hash_functions as int;
        let c = self.cell_of(ng, i);
        let ix = self.cells_of(ng);
        self.theorem_never_undercounts(ops, ng, by, r);
        self.lemma_history_inc(t0, ops, c);
        self.lemma_received_alone(ops, ng, i);
        self.lemma_cells_ok(ng);
        assert(ix[i] == c);
        lemma_inc_cell(t, ix, n, by, c);
        assert(by * 1 == by);
        Self::lemma_min_ret_le(inc_n(t, ix, n, by), ix, n, i);
    }
    /// C02: whatever was subtracted before, what a decrement returns is at most MAX minus the
    /// total subtracted for the ngram (floored at 0)...
    proof fn theorem_dec_never_above(&self, ops: Seq<Op>, ng: Seq<Tok>, by: int, r: int)
        requires self.size > 0, by >= 0,
            forall|k: int| 0 <= k < ops.len() ==> (#[trigger] ops[k]).by >= 0,
            self.dec_may_return(self.run_dec(Seq::new(self.size as nat, |i: int| MAXV), ops), ng, by, r),
        ensures r <= floor0(MAXV - (Self::total(ops, ng) + by)),
    {
        let t0 = Seq::new(self.size as nat, |i: int| MAXV);
        let t = self.run_dec(t0, ops);
        let n = self.num_hash_functions as int;
        self.lemma_history_dec(t0, ops, 0);
        let hi = floor0(MAXV - (Self::total(ops, ng) + by));
        assert forall|i: int| 0 <= i < n implies t[#[trigger] self.cell_of(ng, i)] - by <= hi by {
            self.lemma_history_dec(t0, ops, self.cell_of(ng, i));
            self.lemma_total_le_received(ops, ng, i);
        }
        self.lemma_dec_ret_upper(t, ng, n, by, hi);
    }
    proof fn lemma_dec_ret_upper(&self, t: Seq<int>, ng: Seq<Tok>, n: int, by: int, hi: int)
        requires self.size > 0, t.len() == self.size, in_range(t), 0 <= n <= self.num_hash_functions, by >= 0, hi >= 0,
            forall|i: int| 0 <= i < n ==> t[#[trigger] self.cell_of(ng, i)] - by <= hi,
        ensures dec_ret(t, self.cells_of(ng), n, by) <= hi,
        decreases n
    {
        if n > 0 {
            self.lemma_dec_ret_upper(t, ng, n - 1, by, hi);
            self.lemma_cells_ok(ng);
            let ix = self.cells_of(ng);
            let c = self.cell_of(ng, n - 1);
            assert(ix[n - 1] == c);
            lemma_dec_cell(t, ix, n - 1, by, c);
            lemma_mult_bound(ix, n - 1, c);
            let m = mult(ix, n - 1, c);
            assert(by * m >= 0) by (nonlinear_arith) requires by >= 0, m >= 0;
        }
    }
    /// ... so is the maximum over its cells read at any later time ...
    proof fn theorem_max_never_above(&self, ops: Seq<Op>, ng: Seq<Tok>)
        requires self.size > 0,
            forall|k: int| 0 <= k < ops.len() ==> (#[trigger] ops[k]).by >= 0,
        ensures max_ret(self.run_dec(Seq::new(self.size as nat, |i: int| MAXV), ops), self.cells_of(ng), self.num_hash_functions as int)
            <= floor0(MAXV - Self::total(ops, ng)),
    {
        let t0 = Seq::new(self.size as nat, |i: int| MAXV);
        let t = self.run_dec(t0, ops);
        let n = self.num_hash_functions as int;
        let ix = self.cells_of(ng);
        assert forall|i: int| 0 <= i < n implies t[#[trigger] ix[i]] <= floor0(MAXV - Self::total(ops, ng)) by {
            self.lemma_cells_ok(ng);
            self.lemma_history_dec(t0, ops, ix[i]);
            self.lemma_total_le_received(ops, ng, i);
        }
        Self::lemma_max_ret_le(t, ix, n, floor0(MAXV - Self::total(ops, ng)));
    }
    /// ... and both are exact when one cell is used by this ngram alone, through one hash.
    proof fn theorem_max_exact(&self, ops: Seq<Op>, ng: Seq<Tok>, i: int)
        requires self.size > 0, 0 <= i < self.num_hash_functions,
            forall|k: int| 0 <= k < ops.len() ==> (#[trigger] ops[k]).by >= 0,
            mult(self.cells_of(ng), self.num_hash_functions as int, self.cell_of(ng, i)) == 1,
            forall|k: int| 0 <= k < ops.len() && (#[trigger] ops[k]).ng != ng ==>
                mult(self.cells_of(ops[k].ng), self.num_hash_functions as int, self.cell_of(ng, i)) == 0,
        ensures max_ret(self.run_dec(Seq::new(self.size as nat, |i: int| MAXV), ops), self.cells_of(ng), self.num_hash_functions as int)
            == floor0(MAXV - Self::total(ops, ng)),
    {
        let t0 = Seq::new(self.size as nat, |i: int| MAXV);
        let t = self.run_dec(t0, ops);
        let n = self.num_hash_functions as int;
        let ix = self.cells_of(ng);
        let c = self.cell_of(ng, i);
        assert(ix[i] == c);
        self.lemma_cells_ok(ng);
        self.theorem_max_never_above(ops, ng);
        self.lemma_history_dec(t0, ops, c);
        self.lemma_received_alone(ops, ng, i);
        Self::lemma_max_ret_ge(t, ix, n, i);
    }
    proof fn theorem_dec_exact(&self, ops: Seq<Op>, ng: Seq<Tok>, by: int, i: int, r: int)
        requires self.size > 0, by >= 0, 0 <= i < self.num_hash_functions,
            forall|k: int| 0 <= k < ops.len() ==> (#[trigger] ops[k]).by >= 0,
            mult(self.cells_of(ng), self.num_hash_functions as int, self.cell_of(ng, i)) == 1,
            forall|k: int| 0 <= k < ops.len() && (#[trigger] ops[k]).ng != ng ==>
                mult(self.cells_of(ops[k].ng), self.num_hash_functions as int, self.cell_of(ng, i)) == 0,
            self.dec_may_return(self.run_dec(Seq::new(self.size as nat, |i: int| MAXV), ops), ng, by, r),
        ensures r == floor0(MAXV - (Self::total(ops, ng) + by)),
    {
        let t0 = Seq::new(self.size as nat, |i: int| MAXV);
        let op = Op { ng, by };
        let ops2 = ops.push(op);
        assert(ops2.drop_last() =~= ops);
        assert(ops2.last() == op);
        assert(self.run_dec(t0, ops2) == dec_n(self.run_dec(t0, ops), self.cells_of(ng), self.num_hash_functions as int, by));
        assert forall|k: int| 0 <= k < ops2.len() implies (#[trigger] ops2[k]).by >= 0 by {
            if k < ops.len() { assert(ops2[k] == ops[k]); }
        }
        assert forall|k: int| 0 <= k < ops2.len() && (#[trigger] ops2[k]).ng != ng implies
            mult(self.cells_of(ops2[k].ng), self.num_hash_functions as int, self.cell_of(ng, i)) == 0 by {
            if k < ops.len() { assert(ops2[k] == ops[k]); }
        }
        self.theorem_max_exact(ops2, ng, i);
        self.theorem_dec_never_above(ops, ng, by, r);
    }
    proof fn lemma_received_alone(&self, ops: Seq<Op>, ng: Seq<Tok>, i: int)
        requires self.size > 0, 0 <= i < self.num_hash_functions,
            mult(self.cells_of(ng), self.num_hash_functions as int, self.cell_of(ng, i)) == 1,
            forall|k: int| 0 <= k < ops.len() && (#[trigger] ops[k]).ng != ng ==>
                mult(self.cells_of(ops[k].ng), self.num_hash_functions as int, self.cell_of(ng, i)) == 0,
        ensures self.received(ops, self.cell_of(ng, i)) == Self::total(ops, ng),
        decreases ops.len()
    {
        if ops.len() > 0 {
            let o = ops.drop_last();
            assert forall|k: int| 0 <= k < o.len() && (#[trigger] o[k]).ng != ng implies
                mult(self.cells_of(o[k].ng), self.num_hash_functions as int, self.cell_of(ng, i)) == 0 by {
                assert(o[k] == ops[k]);
            }
            self.lemma_received_alone(o, ng, i);
            assert(ops.last() == ops[ops.len() - 1]);
            let by = ops.last().by;
            let m = mult(self.cells_of(ops.last().ng), self.num_hash_functions as int, self.cell_of(ng, i));
            assert(m == 0 ==> by * m == 0) by (nonlinear_arith);
            assert(m == 1 ==> by * m == by) by (nonlinear_arith);
        }
    }
    /// C12: the number of nonzero cells is between 0 and the table size, and 0 only for an
    /// untouched table ...
    proof fn lemma_nonzero_bounds(&self, t: Seq<int>, n: int)
        requires 0 <= n <= t.len(), in_range(t),
        ensures 0 <= nonzero_n(t, n) <= n,
                nonzero_n(t, n) == 0 <==> (forall|c: int| 0 <= c < n ==> #[trigger] t[c] == 0),
        decreases n
    { if n > 0 { self.lemma_nonzero_bounds(t, n - 1); } }

    // ------------------------------------------------------------------ C12: `unique`
    pub open spec fn ng_cells(&self, ng: Seq<Tok>, n: int) -> Set<int>
        decreases n
    { if n <= 0 { Set::empty() } else { self.ng_cells(ng, n - 1).insert(self.cell_of(ng, n - 1)) } }
    /// the cells touched by a history
    pub open spec fn touched(&self, ops: Seq<Op>) -> Set<int>
        decreases ops.len()
    { if ops.len() == 0 { Set::empty() } else { self.touched(ops.drop_last()).union(self.ng_cells(ops.last().ng, self.num_hash_functions as int)) } }
    /// its distinct ngrams
    pub open spec fn distinct(ops: Seq<Op>) -> Set<Seq<Tok>>
        decreases ops.len()
    { if ops.len() == 0 { Set::empty() } else { Self::distinct(ops.drop_last()).insert(ops.last().ng) } }
    pub open spec fn pos_cells(t: Seq<int>, n: int) -> Set<int>
        decreases n
    { if n <= 0 { Set::empty() } else if t[n - 1] > 0 { Self::pos_cells(t, n - 1).insert(n - 1) } else { Self::pos_cells(t, n - 1) } }

    proof fn lemma_ng_cells(&self, ng: Seq<Tok>, n: int)
        requires 0 <= n <= self.num_hash_functions, self.size > 0,
        ensures self.ng_cells(ng, n).len() <= n,
            n > 0 ==> self.ng_cells(ng, n).contains(self.cell_of(ng, 0)),
            forall|c: int| #[trigger] self.ng_cells(ng, n).contains(c) <==> mult(self.cells_of(ng), n, c) > 0,
            forall|c: int| #[trigger] self.ng_cells(ng, n).contains(c) ==> 0 <= c < self.size,
        decreases n
    {
        if n > 0 {
            self.lemma_ng_cells(ng, n - 1);
            assert(self.cells_of(ng)[n - 1] == self.cell_of(ng, n - 1));
            assert forall|c: int| true implies 0 <= #[trigger] mult(self.cells_of(ng), n - 1, c) by { lemma_mult_bound(self.cells_of(ng), n - 1, c); }
        }
    }
    proof fn lemma_touched(&self, ops: Seq<Op>)
        requires self.size > 0, forall|k: int| 0 <= k < ops.len() ==> (#[trigger] ops[k]).by >= 1,
        ensures
            forall|c: int| #[trigger] self.touched(ops).contains(c) <==> self.received(ops, c) > 0,
            forall|c: int| 0 <= #[trigger] self.received(ops, c),
            forall|c: int| #[trigger] self.touched(ops).contains(c) ==> 0 <= c < self.size,
            forall|k: int| 0 <= k < ops.len() ==> Self::distinct(ops).contains((#[trigger] ops[k]).ng)
                && self.ng_cells(ops[k].ng, self.num_hash_functions as int).subset_of(self.touched(ops)),
            self.touched(ops).len() <= self.num_hash_functions * Self::distinct(ops).len(),
            forall|g: Seq<Tok>| #[trigger] Self::distinct(ops).contains(g) ==> exists|k: int| 0 <= k < ops.len() && (#[trigger] ops[k]).ng == g,
        decreases ops.len()
    {
        let h = self.num_hash_functions as int;
        if ops.len() > 0 {
            let o = ops.drop_last();
            assert forall|k: int| 0 <= k < o.len() implies (#[trigger] o[k]).by >= 1 by { assert(o[k] == ops[k]); }
            self.lemma_touched(o);
            let ng = ops.last().ng;
            assert(ops.last() == ops[ops.len() - 1]);
            self.lemma_ng_cells(ng, h);
            let a = self.touched(o);
            let b = self.ng_cells(ng, h);
            assert forall|c: int| self.received(ops, c) >= 0
                && ((#[trigger] self.touched(ops).contains(c)) <==> self.received(ops, c) > 0) by {
                lemma_mult_bound(self.cells_of(ng), h, c);
                let m = mult(self.cells_of(ng), h, c);
                let by = ops.last().by;
                assert(m >= 1 && by >= 1 ==> by * m >= 1) by (nonlinear_arith);
                assert(m == 0 ==> by * m == 0) by (nonlinear_arith);
                assert(b.contains(c) <==> m > 0);
                assert(0 <= self.received(o, c));
                assert(a.contains(c) <==> self.received(o, c) > 0);
            }
            assert forall|c: int| 0 <= #[trigger] self.received(ops, c) by {
                lemma_mult_bound(self.cells_of(ng), h, c);
                let m = mult(self.cells_of(ng), h, c);
                let by = ops.last().by;
                assert(m >= 0 && by >= 1 ==> by * m >= 0) by (nonlinear_arith);
                assert(0 <= self.received(o, c));
            }
            assert forall|k: int| 0 <= k < ops.len() implies Self::distinct(ops).contains((#[trigger] ops[k]).ng)
                && self.ng_cells(ops[k].ng, h).subset_of(self.touched(ops)) by {
                if k < o.len() { assert(o[k] == ops[k]); assert(self.ng_cells(o[k].ng, h).subset_of(self.touched(o))); }
            }
            if Self::distinct(o).contains(ng) {
                let k = choose|k: int| 0 <= k < o.len() && (#[trigger] o[k]).ng == ng;
                assert(self.ng_cells(o[k].ng, h).subset_of(a));
                assert(a.union(b) =~= a);
                assert(Self::distinct(ops) =~= Self::distinct(o));
            } else {
                lemma_union_len(a, b);
                let d = Self::distinct(o).len() as int;
                assert(h * (d + 1) == h * d + h) by (nonlinear_arith);
                assert(Self::distinct(ops).len() == d + 1);
            }
            assert forall|g: Seq<Tok>| #[trigger] Self::distinct(ops).contains(g) implies exists|k: int| 0 <= k < ops.len() && (#[trigger] ops[k]).ng == g by {
                if Self::distinct(o).contains(g) {
                    let k = choose|k: int| 0 <= k < o.len() && (#[trigger] o[k]).ng == g;
                    assert(ops[k] == o[k]);
                } else { assert(ops[ops.len() - 1].ng == g); }
            }
        } else {
            assert(h * 0 == 0) by (nonlinear_arith);
            assert(Self::distinct(ops).len() == 0);
        }
    }
    proof fn lemma_pos_cells(t: Seq<int>, n: int)
        requires 0 <= n <= t.len(), in_range(t),
        ensures Self::pos_cells(t, n).len() == nonzero_n(t, n),
            forall|c: int| #[trigger] Self::pos_cells(t, n).contains(c) <==> 0 <= c < n && t[c] > 0,
        decreases n
    { if n > 0 { Self::lemma_pos_cells(t, n - 1); } }

    /// C12: what `nonzero` returns after any history of increments of a fresh counter
    proof fn theorem_unique(&self, ops: Seq<Op>, r: int)
        requires self.size > 0, self.num_hash_functions > 0, forall|k: int| 0 <= k < ops.len() ==> (#[trigger] ops[k]).by >= 1,
            r == nonzero_n(self.run_inc(Seq::new(self.size as nat, |i: int| 0int), ops), self.size as int),
        ensures
            r == self.touched(ops).len(),
            r == 0 <==> ops.len() == 0,
            r <= self.size,
            r <= self.num_hash_functions * Self::distinct(ops).len(),
    {
        let t0 = Seq::new(self.size as nat, |i: int| 0int);
        let t = self.run_inc(t0, ops);
        assert forall|c: int| 0 <= c < self.size implies #[trigger] t[c] == cap(self.received(ops, c)) && t.len() == t0.len() && in_range(t) by {
            self.lemma_history_inc(t0, ops, c);
        }
        assert(t[0] == t[0]);
        assert(t.len() == self.size && in_range(t)) by { self.lemma_history_inc(t0, ops, 0); }
        Self::lemma_pos_cells(t, self.size as int);
        self.lemma_touched(ops);
        assert(Self::pos_cells(t, self.size as int) =~= self.touched(ops)) by {
            assert forall|c: int| #[trigger] Self::pos_cells(t, self.size as int).contains(c) <==> self.touched(ops).contains(c) by {
                if 0 <= c < self.size { assert(t[c] == cap(self.received(ops, c))); }
            }
        }
        self.lemma_nonzero_bounds(t, self.size as int);
        if ops.len() > 0 {
            self.lemma_ng_cells(ops[0].ng, self.num_hash_functions as int);
            assert(self.ng_cells(ops[0].ng, self.num_hash_functions as int).subset_of(self.touched(ops)));
            assert(self.touched(ops).contains(self.cell_of(ops[0].ng, 0)));
            assert(self.touched(ops).len() > 0) by {
                if self.touched(ops).len() == 0 { assert(self.touched(ops) =~= Set::empty()); }
            }
        }
    }
    /// C12: one hash function, no two ngrams of the data in one cell
    proof fn theorem_unique_exact(&self, ops: Seq<Op>)
        requires self.size > 0, self.num_hash_functions == 1, forall|k: int| 0 <= k < ops.len() ==> (#[trigger] ops[k]).by >= 1,
            forall|j: int, k: int| 0 <= j < ops.len() && 0 <= k < ops.len()
                && self.cell_of((#[trigger] ops[j]).ng, 0) == self.cell_of((#[trigger] ops[k]).ng, 0) ==> ops[j].ng == ops[k].ng,
        ensures self.touched(ops).len() == Self::distinct(ops).len(),
            forall|c: int| #[trigger] self.touched(ops).contains(c) ==> exists|k: int| 0 <= k < ops.len() && self.cell_of((#[trigger] ops[k]).ng, 0) == c,
        decreases ops.len()
    {
        if ops.len() > 0 {
            let o = ops.drop_last();
            assert forall|k: int| 0 <= k < o.len() implies (#[trigger] o[k]).by >= 1 by { assert(o[k] == ops[k]); }
            assert forall|j: int, k: int| 0 <= j < o.len() && 0 <= k < o.len()
                && self.cell_of((#[trigger] o[j]).ng, 0) == self.cell_of((#[trigger] o[k]).ng, 0) implies o[j].ng == o[k].ng by {
                assert(o[j] == ops[j] && o[k] == ops[k]);
            }
            self.theorem_unique_exact(o);
            self.lemma_touched(o);
            let last = ops.len() - 1;
            let ng = ops.last().ng;
            assert(ops[last] == ops.last());
            let c = self.cell_of(ng, 0);
            assert(self.ng_cells(ng, 1) =~= Set::empty().insert(c)) by {
                assert(self.ng_cells(ng, 0) =~= Set::empty());
                reveal_with_fuel(NgramCounter::ng_cells, 2);
            }
            assert(self.touched(ops) =~= self.touched(o).insert(c));
            assert(self.touched(o).contains(c) <==> Self::distinct(o).contains(ng)) by {
                if self.touched(o).contains(c) {
                    let k = choose|k: int| 0 <= k < o.len() && self.cell_of((#[trigger] o[k]).ng, 0) == c;
                    assert(ops[k] == o[k]);
                    assert(ops[k].ng == ops[last].ng);
                    assert(Self::distinct(o).contains(o[k].ng));
                }
                if Self::distinct(o).contains(ng) {
                    let k = choose|k: int| 0 <= k < o.len() && (#[trigger] o[k]).ng == ng;
                    assert(self.ng_cells(o[k].ng, 1).subset_of(self.touched(o)));
                    assert(self.ng_cells(o[k].ng, 1).contains(c));
                }
            }
            assert forall|d: int| #[trigger] self.touched(ops).contains(d) implies exists|k: int| 0 <= k < ops.len() && self.cell_of((#[trigger] ops[k]).ng, 0) == d by {
                if d == c { assert(self.cell_of(ops[last].ng, 0) == d); } else {
                    let k = choose|k: int| 0 <= k < o.len() && self.cell_of((#[trigger] o[k]).ng, 0) == d;
                    assert(ops[k] == o[k]);
                }
            }
        }
    }
}
proof fn lemma_union_len(a: Set<int>, b: Set<int>)
    ensures a.union(b).len() <= a.len() + b.len(),
    decreases b.len()
{
    if b.len() == 0 { assert(b =~= Set::empty()); assert(a.union(b) =~= a); }
    else {
        let x = b.choose();
        assert(b.contains(x)) by { if b =~= Set::empty() { assert(b.len() == 0); } };
        let c = b.remove(x);
        lemma_union_len(a, c);
        assert(a.union(b) =~= a.union(c).insert(x));
    }
}
