// Grammars: FIRST and FOLLOW as least relations, claims on table cells.
verus! {

pub open spec fn is_rule(g: bnf_Grammar, i: int) -> bool { 0 <= i < g.Rules.len() }
pub open spec fn is_alt(g: bnf_Grammar, i: int, k: int) -> bool { is_rule(g, i) && 0 <= k < g.Rules[i].Tail.Sequences.len() }
pub open spec fn alt(g: bnf_Grammar, i: int, k: int) -> Seq<bnf_Symbol> { g.Rules[i].Tail.Sequences[k].Symbols }
pub open spec fn head(g: bnf_Grammar, i: int) -> Seq<u8> { g.Rules[i].Head.Name }

// the rule a name stands for, -1 if there is none
pub open spec fn last_ix(names: Seq<Seq<u8>>, name: Seq<u8>) -> int
    decreases names.len(),
{
    if names.len() == 0 { -1 } else if names.last() == name { names.len() - 1 } else { last_ix(names.drop_last(), name) }
}
pub open spec fn heads(g: bnf_Grammar) -> Seq<Seq<u8>> { Seq::new(g.Rules.len(), |i: int| head(g, i)) }
pub open spec fn rule_of(g: bnf_Grammar, name: Seq<u8>) -> int { last_ix(heads(g), name) }

pub proof fn last_ix_props(names: Seq<Seq<u8>>, name: Seq<u8>)
    ensures
        -1 <= last_ix(names, name) < names.len(),
        last_ix(names, name) >= 0 ==> names[last_ix(names, name)] == name,
        forall|i: int| 0 <= i < names.len() && #[trigger] names[i] == name ==> i <= last_ix(names, name),
    decreases names.len(),
{
    if names.len() > 0 {
        last_ix_props(names.drop_last(), name);
        assert forall|i: int| 0 <= i < names.len() && #[trigger] names[i] == name implies i <= last_ix(names, name) by {
            if i < names.len() - 1 { assert(names.drop_last()[i] == name); }
        }
    }
}
pub proof fn rule_of_props(g: bnf_Grammar, name: Seq<u8>)
    ensures
        -1 <= rule_of(g, name) < g.Rules.len(),
        rule_of(g, name) >= 0 ==> head(g, rule_of(g, name)) == name,
        forall|i: int| is_rule(g, i) && #[trigger] head(g, i) == name ==> i <= rule_of(g, name),
{
    last_ix_props(heads(g), name);
    assert forall|i: int| is_rule(g, i) && #[trigger] head(g, i) == name implies i <= rule_of(g, name) by { assert(heads(g)[i] == name); }
}

// ---- which grammars are meant ---------------------------------------------------
pub open spec fn known_sym(s: bnf_Symbol) -> bool { s is SymbolTerminal || s is SymbolNonTerminal || s is SymbolNothing }
pub open spec fn known_seq(s: Seq<bnf_Symbol>) -> bool { forall|i: int| 0 <= i < s.len() ==> known_sym(#[trigger] s[i]) }
// built from terminals, nonterminals and the empty string
pub open spec fn known_grammar(g: bnf_Grammar) -> bool { forall|i: int, k: int| #![trigger alt(g, i, k)] is_alt(g, i, k) ==> known_seq(alt(g, i, k)) }

// a terminal that is not empty and does not start with byte 0, or a defined nonterminal
pub open spec fn plain(g: bnf_Grammar, s: bnf_Symbol) -> bool {
    match s {
        bnf_Symbol::SymbolTerminal(t) => t.Name.len() > 0 && t.Name[0] != 0,
        bnf_Symbol::SymbolNonTerminal(v) => rule_of(g, v.Name) >= 0,
        _ => false,
    }
}
pub open spec fn plain_seq(g: bnf_Grammar, s: Seq<bnf_Symbol>) -> bool { forall|i: int| 0 <= i < s.len() ==> plain(g, #[trigger] s[i]) }
pub open spec fn good_seq(g: bnf_Grammar, s: Seq<bnf_Symbol>) -> bool { s.len() > 0 && ((s.len() == 1 && s[0] is SymbolNothing) || plain_seq(g, s)) }

// well-formed grammars
pub open spec fn wf(g: bnf_Grammar) -> bool {
    g.Rules.len() > 0
    && (forall|i: int, j: int| #![trigger head(g, i), head(g, j)] is_rule(g, i) && is_rule(g, j) && i != j ==> head(g, i) != head(g, j))
    && (forall|i: int, k: int| #![trigger alt(g, i, k)] is_alt(g, i, k) ==> good_seq(g, alt(g, i, k)))
}

// ---- FIRST ----------------------------------------------------------------------
// Byte 0 stands for the empty string. b begins (or, for 0, vanishes) the
// sequence s, if p says which bytes begin which rules.
pub open spec fn seqf(g: bnf_Grammar, p: spec_fn(int, u8) -> bool, s: Seq<bnf_Symbol>, b: u8) -> bool
    decreases s.len(),
{
    if s.len() == 0 { b == 0 } else {
        match s[0] {
            bnf_Symbol::SymbolTerminal(t) => t.Name.len() > 0 && b == t.Name[0],
            bnf_Symbol::SymbolNothing(_) => b == 0,
            bnf_Symbol::SymbolNonTerminal(v) => rule_of(g, v.Name) >= 0
                && ((b != 0 && p(rule_of(g, v.Name), b)) || (p(rule_of(g, v.Name), 0) && seqf(g, p, s.drop_first(), b))),
            _ => false,
        }
    }
}
pub open spec fn altf(g: bnf_Grammar, p: spec_fn(int, u8) -> bool, i: int, k: int, b: u8) -> bool { is_alt(g, i, k) && seqf(g, p, alt(g, i, k), b) }
pub open spec fn fst_by(g: bnf_Grammar, p: spec_fn(int, u8) -> bool, i: int, b: u8) -> bool { exists|k: int| altf(g, p, i, k, b) }

// what n rounds of the rules for FIRST give
pub open spec fn lev(g: bnf_Grammar, n: nat) -> spec_fn(int, u8) -> bool
    decreases n,
{
    if n == 0 { |i: int, b: u8| false } else { let p = lev(g, (n - 1) as nat); |i: int, b: u8| fst_by(g, p, i, b) }
}
pub open spec fn lev_has(g: bnf_Grammar, n: nat, i: int, b: u8) -> bool { lev(g, n)(i, b) }
pub open spec fn first(g: bnf_Grammar, i: int, b: u8) -> bool { exists|n: nat| lev_has(g, n, i, b) }
pub open spec fn firsts(g: bnf_Grammar) -> spec_fn(int, u8) -> bool { |i: int, b: u8| first(g, i, b) }

pub open spec fn below(p: spec_fn(int, u8) -> bool, q: spec_fn(int, u8) -> bool) -> bool { forall|i: int, b: u8| #[trigger] p(i, b) ==> q(i, b) }

pub proof fn seqf_mono(g: bnf_Grammar, p: spec_fn(int, u8) -> bool, q: spec_fn(int, u8) -> bool, s: Seq<bnf_Symbol>, b: u8)
    requires below(p, q), seqf(g, p, s, b),
    ensures seqf(g, q, s, b),
    decreases s.len(),
{
    if s.len() > 0 {
        if let bnf_Symbol::SymbolNonTerminal(v) = s[0] {
            let r = rule_of(g, v.Name);
            if !(b != 0 && p(r, b)) { assert(p(r, 0)); seqf_mono(g, p, q, s.drop_first(), b); }
        }
    }
}
pub proof fn fst_mono(g: bnf_Grammar, p: spec_fn(int, u8) -> bool, q: spec_fn(int, u8) -> bool, i: int, b: u8)
    requires below(p, q), fst_by(g, p, i, b),
    ensures fst_by(g, q, i, b),
{
    let k = choose|k: int| altf(g, p, i, k, b);
    seqf_mono(g, p, q, alt(g, i, k), b);
    assert(altf(g, q, i, k, b));
}
pub proof fn lev_step(g: bnf_Grammar, n: nat)
    ensures below(lev(g, n), lev(g, n + 1)),
    decreases n,
{
    if n > 0 {
        lev_step(g, (n - 1) as nat);
        assert forall|i: int, b: u8| #[trigger] lev(g, n)(i, b) implies lev(g, n + 1)(i, b) by {
            fst_mono(g, lev(g, (n - 1) as nat), lev(g, n), i, b);
        }
    }
}
pub proof fn lev_mono(g: bnf_Grammar, n: nat, m: nat)
    requires n <= m,
    ensures below(lev(g, n), lev(g, m)),
    decreases m - n,
{
    if n < m { lev_step(g, n); lev_mono(g, n + 1, m); }
}
// what begins a sequence does so after finitely many rounds
pub proof fn seqf_rank(g: bnf_Grammar, s: Seq<bnf_Symbol>, b: u8) -> (n: nat)
    requires seqf(g, firsts(g), s, b),
    ensures seqf(g, lev(g, n), s, b),
    decreases s.len(),
{
    if s.len() == 0 { return 0; }
    match s[0] {
        bnf_Symbol::SymbolNonTerminal(v) => {
            let r = rule_of(g, v.Name);
            if b != 0 && first(g, r, b) {
                let n = choose|n: nat| lev_has(g, n, r, b);
                n
            } else {
                let n = choose|n: nat| lev_has(g, n, r, 0);
                let m = seqf_rank(g, s.drop_first(), b);
                let x = if n < m { m } else { n };
                lev_mono(g, n, x);
                lev_mono(g, m, x);
                seqf_mono(g, lev(g, m), lev(g, x), s.drop_first(), b);
                assert(lev(g, n)(r, 0));
                x
            }
        }
        _ => 0,
    }
}
// FIRST is closed under its rules
pub proof fn first_closed(g: bnf_Grammar, i: int, b: u8)
    requires fst_by(g, firsts(g), i, b),
    ensures first(g, i, b),
{
    let k = choose|k: int| altf(g, firsts(g), i, k, b);
    let n = seqf_rank(g, alt(g, i, k), b);
    assert(altf(g, lev(g, n), i, k, b));
    assert(lev_has(g, n + 1, i, b));
}
// and the least such relation
pub open spec fn is_closed(g: bnf_Grammar, p: spec_fn(int, u8) -> bool) -> bool { forall|i: int, b: u8| #[trigger] fst_by(g, p, i, b) ==> p(i, b) }
pub proof fn lev_least(g: bnf_Grammar, p: spec_fn(int, u8) -> bool, n: nat)
    requires is_closed(g, p),
    ensures below(lev(g, n), p),
    decreases n,
{
    if n > 0 {
        lev_least(g, p, (n - 1) as nat);
        assert forall|i: int, b: u8| #[trigger] lev(g, n)(i, b) implies p(i, b) by { fst_mono(g, lev(g, (n - 1) as nat), p, i, b); }
    }
}
pub proof fn first_least(g: bnf_Grammar, p: spec_fn(int, u8) -> bool)
    requires is_closed(g, p),
    ensures below(firsts(g), p),
{
    assert forall|i: int, b: u8| #[trigger] firsts(g)(i, b) implies p(i, b) by {
        let n = choose|n: nat| lev_has(g, n, i, b);
        lev_least(g, p, n);
        assert(lev(g, n)(i, b));
    }
}

// ---- FOLLOW -----------------------------------------------------------------------
pub open spec fn is_nt(s: bnf_Symbol, name: Seq<u8>) -> bool { s is SymbolNonTerminal && s->SymbolNonTerminal_0.Name == name }
// position m of sequence s, in a rule whose followers are q, gives follower b to the rule named there
pub open spec fn gives(g: bnf_Grammar, q: spec_fn(u8) -> bool, s: Seq<bnf_Symbol>, m: int, b: u8) -> bool {
    (b != 0 && seqf(g, firsts(g), s.skip(m + 1), b)) || (seqf(g, firsts(g), s.skip(m + 1), 0) && q(b))
}
pub open spec fn seq_gives(g: bnf_Grammar, q: spec_fn(u8) -> bool, s: Seq<bnf_Symbol>, i: int, m: int, b: u8) -> bool {
    0 <= m < s.len() && is_nt(s[m], head(g, i)) && gives(g, q, s, m, b)
}
pub open spec fn row(p: spec_fn(int, u8) -> bool, j: int) -> spec_fn(u8) -> bool { |b: u8| p(j, b) }
pub open spec fn alt_gives(g: bnf_Grammar, p: spec_fn(int, u8) -> bool, i: int, j: int, k: int, m: int, b: u8) -> bool {
    is_rule(g, i) && is_alt(g, j, k) && seq_gives(g, row(p, j), alt(g, j, k), i, m, b)
}
// byte 0 stands for the end of input
pub open spec fn flw_by(g: bnf_Grammar, p: spec_fn(int, u8) -> bool, i: int, b: u8) -> bool {
    (i == 0 && b == 0 && is_rule(g, 0)) || exists|j: int, k: int, m: int| alt_gives(g, p, i, j, k, m, b)
}
pub open spec fn flev(g: bnf_Grammar, n: nat) -> spec_fn(int, u8) -> bool
    decreases n,
{
    if n == 0 { |i: int, b: u8| false } else { let p = flev(g, (n - 1) as nat); |i: int, b: u8| flw_by(g, p, i, b) }
}
pub open spec fn flev_has(g: bnf_Grammar, n: nat, i: int, b: u8) -> bool { flev(g, n)(i, b) }
pub open spec fn follow(g: bnf_Grammar, i: int, b: u8) -> bool { exists|n: nat| flev_has(g, n, i, b) }
pub open spec fn follows(g: bnf_Grammar) -> spec_fn(int, u8) -> bool { |i: int, b: u8| follow(g, i, b) }

pub proof fn flw_mono(g: bnf_Grammar, p: spec_fn(int, u8) -> bool, q: spec_fn(int, u8) -> bool, i: int, b: u8)
    requires below(p, q), flw_by(g, p, i, b),
    ensures flw_by(g, q, i, b),
{
    if !(i == 0 && b == 0 && is_rule(g, 0)) {
        let (j, k, m) = choose|j: int, k: int, m: int| alt_gives(g, p, i, j, k, m, b);
        assert(p(j, b) ==> q(j, b));
        assert(alt_gives(g, q, i, j, k, m, b));
    }
}
pub proof fn follow_closed(g: bnf_Grammar, i: int, b: u8)
    requires flw_by(g, follows(g), i, b),
    ensures follow(g, i, b),
{
    if i == 0 && b == 0 && is_rule(g, 0) {
        assert(flw_by(g, flev(g, 0), i, b));
        assert(flev_has(g, 1, i, b));
    } else {
        let (j, k, m) = choose|j: int, k: int, m: int| alt_gives(g, follows(g), i, j, k, m, b);
        if follow(g, j, b) {
            let n = choose|n: nat| flev_has(g, n, j, b);
            assert(alt_gives(g, flev(g, n), i, j, k, m, b));
            assert(flw_by(g, flev(g, n), i, b));
            assert(flev_has(g, n + 1, i, b));
        } else {
            assert(alt_gives(g, flev(g, 0), i, j, k, m, b));
            assert(flw_by(g, flev(g, 0), i, b));
            assert(flev_has(g, 1, i, b));
        }
    }
}
pub open spec fn fclosed(g: bnf_Grammar, p: spec_fn(int, u8) -> bool) -> bool { forall|i: int, b: u8| #[trigger] flw_by(g, p, i, b) ==> p(i, b) }
pub proof fn flev_least(g: bnf_Grammar, p: spec_fn(int, u8) -> bool, n: nat)
    requires fclosed(g, p),
    ensures below(flev(g, n), p),
    decreases n,
{
    if n > 0 {
        flev_least(g, p, (n - 1) as nat);
        assert forall|i: int, b: u8| #[trigger] flev(g, n)(i, b) implies p(i, b) by { flw_mono(g, flev(g, (n - 1) as nat), p, i, b); }
    }
}
pub proof fn follow_least(g: bnf_Grammar, p: spec_fn(int, u8) -> bool)
    requires fclosed(g, p),
    ensures below(follows(g), p),
{
    assert forall|i: int, b: u8| #[trigger] follows(g)(i, b) implies p(i, b) by {
        let n = choose|n: nat| flev_has(g, n, i, b);
        flev_least(g, p, n);
        assert(flev(g, n)(i, b));
    }
}

// ---- claims and tables ----------------------------------------------------------------
// alternative k of rule i claims the cell of byte b: with its symbols, because b
// can begin it, or with an empty production, because it can vanish before b
pub open spec fn claims(g: bnf_Grammar, i: int, k: int, vanishes: bool, b: u8) -> bool {
    is_alt(g, i, k) && if vanishes { seqf(g, firsts(g), alt(g, i, k), 0) && follow(g, i, b) } else { b != 0 && seqf(g, firsts(g), alt(g, i, k), b) }
}
pub open spec fn op_of(g: bnf_Grammar, s: bnf_Symbol) -> parser_ParserOp {
    match s {
        bnf_Symbol::SymbolTerminal(t) => op_t(t.Name),
        bnf_Symbol::SymbolNonTerminal(v) => op_nt(rule_of(g, v.Name)),
        _ => arbitrary(),
    }
}
pub open spec fn ops_of(g: bnf_Grammar, s: Seq<bnf_Symbol>) -> Seq<parser_ParserOp> { Seq::new(s.len(), |i: int| op_of(g, s[i])) }
pub open spec fn content(g: bnf_Grammar, i: int, k: int, vanishes: bool) -> Seq<parser_ParserOp> { if vanishes { Seq::empty() } else { ops_of(g, alt(g, i, k)) } }

// row r holds exactly what the claims of d say
pub open spec fn fills(g: bnf_Grammar, i: int, d: spec_fn(int, bool, u8) -> bool, r: GoMap<u8, Seq<parser_ParserOp>>) -> bool {
    (forall|b: u8| #[trigger] r.m.dom().contains(b) ==> exists|k: int, e: bool| #[trigger] claims(g, i, k, e, b) && d(k, e, b))
    && (forall|k: int, e: bool, b: u8| #[trigger] claims(g, i, k, e, b) && d(k, e, b) ==> r.m.dom().contains(b) && r.m[b] == content(g, i, k, e))
}
// two different claims on one cell
pub open spec fn clash(g: bnf_Grammar, i: int, k: int, e: bool, k2: int, e2: bool, b: u8) -> bool {
    (k != k2 || e != e2) && claims(g, i, k, e, b) && claims(g, i, k2, e2, b)
}
// the claims of d do not collide
pub open spec fn peaceful(g: bnf_Grammar, i: int, d: spec_fn(int, bool, u8) -> bool) -> bool {
    forall|k: int, e: bool, k2: int, e2: bool, b: u8| d(k, e, b) && d(k2, e2, b) ==> !#[trigger] clash(g, i, k, e, k2, e2, b)
}
pub open spec fn conflict(g: bnf_Grammar) -> bool { exists|i: int, k: int, e: bool, k2: int, e2: bool, b: u8| clash(g, i, k, e, k2, e2, b) }

// claims of the first n alternatives
pub open spec fn upto(n: int) -> spec_fn(int, bool, u8) -> bool { |k: int, e: bool, b: u8| k < n }
pub open spec fn all_claims() -> spec_fn(int, bool, u8) -> bool { |k: int, e: bool, b: u8| true }

pub open spec fn n_alts(g: bnf_Grammar, i: int) -> int { g.Rules[i].Tail.Sequences.len() as int }
// the predictive table
pub open spec fn table_of(g: bnf_Grammar, t: Table) -> bool {
    (forall|i: int| #[trigger] t.m.dom().contains(i) <==> is_rule(g, i))
    && (forall|i: int| is_rule(g, i) ==> fills(g, i, all_claims(), #[trigger] t.m[i]))
}
pub open spec fn names_of(g: bnf_Grammar, n: GoMap<int, Seq<u8>>) -> bool {
    (forall|i: int| #[trigger] n.m.dom().contains(i) <==> is_rule(g, i)) && (forall|i: int| is_rule(g, i) ==> #[trigger] n.m[i] == head(g, i))
}

} // verus!
