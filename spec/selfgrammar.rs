// The built-in grammar: a checker for well-formed grammars without conflicts,
// proved sound, and evaluated on the literal in the code.
verus! {

// ---- the same grammar up to the order of alternatives ------------------------------------
pub open spec fn has_alt(a: Seq<bnf_Sequence>, s: Seq<bnf_Symbol>, k: int) -> int
    decreases a.len() - k,
{
    if k < 0 || k >= a.len() { -1 } else if a[k].Symbols == s { k } else { has_alt(a, s, k + 1) }
}
pub open spec fn alts_in(a: Seq<bnf_Sequence>, b: Seq<bnf_Sequence>, k: int) -> bool
    decreases a.len() - k,
{
    if k < 0 || k >= a.len() { true } else { has_alt(b, a[k].Symbols, 0) >= 0 && alts_in(a, b, k + 1) }
}
pub open spec fn rules_in(a: bnf_Grammar, b: bnf_Grammar, i: int) -> bool
    decreases a.Rules.len() - i,
{
    if i < 0 || i >= a.Rules.len() { true } else {
        a.Rules[i].Head.Name == b.Rules[i].Head.Name && alts_in(a.Rules[i].Tail.Sequences, b.Rules[i].Tail.Sequences, 0) && rules_in(a, b, i + 1)
    }
}
pub open spec fn same_rules(a: bnf_Grammar, b: bnf_Grammar) -> bool { a.Rules.len() == b.Rules.len() && rules_in(a, b, 0) && rules_in(b, a, 0) }

pub proof fn has_alt_props(a: Seq<bnf_Sequence>, s: Seq<bnf_Symbol>, k: int)
    requires k >= 0,
    ensures has_alt(a, s, k) == -1 || (0 <= has_alt(a, s, k) < a.len() && a[has_alt(a, s, k)].Symbols == s),
    decreases a.len() - k,
{
    if k < a.len() && a[k].Symbols != s { has_alt_props(a, s, k + 1); }
}
pub proof fn alts_in_at(a: Seq<bnf_Sequence>, b: Seq<bnf_Sequence>, k: int, x: int)
    requires alts_in(a, b, k), 0 <= k <= x < a.len(),
    ensures has_alt(b, a[x].Symbols, 0) >= 0,
    decreases x - k,
{
    if k < x { alts_in_at(a, b, k + 1, x); }
}
pub proof fn rules_in_at(a: bnf_Grammar, b: bnf_Grammar, i: int, x: int)
    requires rules_in(a, b, i), 0 <= i <= x < a.Rules.len(),
    ensures head(a, x) == head(b, x), alts_in(a.Rules[x].Tail.Sequences, b.Rules[x].Tail.Sequences, 0),
    decreases x - i,
{
    if i < x { rules_in_at(a, b, i + 1, x); }
}
pub proof fn same_heads(a: bnf_Grammar, b: bnf_Grammar)
    requires same_rules(a, b),
    ensures heads(a) == heads(b),
{
    assert forall|i: int| 0 <= i < a.Rules.len() implies head(a, i) == head(b, i) by { rules_in_at(a, b, 0, i); }
    assert(heads(a) =~= heads(b));
}
// what a derives b derives too
pub proof fn carried(a: bnf_Grammar, b: bnf_Grammar, s: bnf_Symbol, d: Der) -> (e: Der)
    requires same_rules(a, b), derives(a, s, d),
    ensures derives(b, s, e), word(e) == word(d),
    decreases d, 0nat,
{
    match d {
        Der::Node(k, ds) => {
            let i = rule_of(a, s->SymbolNonTerminal_0.Name);
            same_heads(a, b);
            rules_in_at(a, b, 0, i);
            alts_in_at(a.Rules[i].Tail.Sequences, b.Rules[i].Tail.Sequences, 0, k);
            let k2 = has_alt(b.Rules[i].Tail.Sequences, alt(a, i, k), 0);
            has_alt_props(b.Rules[i].Tail.Sequences, alt(a, i, k), 0);
            let es = carried_all(a, b, alt(a, i, k), ds, 0);
            assert(alt(b, i, k2) == alt(a, i, k));
            let e = Der::Node(k2, es);
            assert forall|x: int| 0 <= x < es.len() implies derives(b, alt(b, i, k2)[x], #[trigger] es[x]) by { }
            e
        }
        _ => d,
    }
}
pub proof fn carried_all(a: bnf_Grammar, b: bnf_Grammar, s: Seq<bnf_Symbol>, ds: Seq<Der>, x: nat) -> (es: Seq<Der>)
    requires same_rules(a, b), derives_all(a, s, ds), x <= s.len(),
    ensures es.len() == s.len(), forall|y: int| x <= y < s.len() ==> derives(b, s[y], #[trigger] es[y]), words(es, x) == words(ds, x),
    decreases ds, s.len() - x,
{
    if x == s.len() { ds } else {
        let es = carried_all(a, b, s, ds, x + 1);
        assert(derives(a, s[x as int], ds[x as int]));
        let e = carried(a, b, s[x as int], ds[x as int]);
        let fs = es.update(x as int, e);
        words_from(es, fs, x + 1);
        fs
    }
}
pub proof fn words_from(a: Seq<Der>, b: Seq<Der>, x: nat)
    requires a.len() == b.len(), forall|y: int| x <= y < a.len() ==> a[y] == b[y],
    ensures words(a, x) == words(b, x),
    decreases a.len() - x,
{
    if x < a.len() { words_from(a, b, x + 1); }
}
pub proof fn equal_languages(a: bnf_Grammar, b: bnf_Grammar, w: Seq<u8>)
    requires same_rules(a, b), a.Rules.len() > 0,
    ensures in_language(a, w) == in_language(b, w),
{
    rules_in_at(a, b, 0, 0);
    if in_language(a, w) {
        let d = choose|d: Der| derivation_of(a, w, d);
        let e = carried(a, b, nt(head(a, 0)), d);
        assert(derivation_of(b, w, e));
    }
    if in_language(b, w) {
        let d = choose|d: Der| derivation_of(b, w, d);
        let e = carried(b, a, nt(head(b, 0)), d);
        assert(derivation_of(a, w, e));
    }
}

// ---- sets of bytes below 128 as bits ------------------------------------------------------------
pub open spec fn mem(a: u128, b: u8) -> bool { b < 128 && (a >> (b as u128)) & 1 == 1 }
pub open spec fn bit_of(b: u8) -> u128 { 1u128 << (b as u128) }
pub open spec fn no_zero(a: u128) -> u128 { a & !1u128 }
pub proof fn bit_of_mem(b: u8)
    requires b < 128,
    ensures mem(bit_of(b), b),
{
    let c = b as u128;
    assert(c < 128 ==> ((1u128 << c) >> c) & 1 == 1) by (bit_vector);
}
pub proof fn or_mem(a: u128, d: u128, b: u8)
    ensures mem(a | d, b) == (mem(a, b) || mem(d, b)),
{
    let c = b as u128;
    assert(c < 128 ==> (((a | d) >> c) & 1 == 1 <==> ((a >> c) & 1 == 1 || (d >> c) & 1 == 1))) by (bit_vector);
}
pub proof fn no_zero_mem(a: u128, b: u8)
    requires b != 0, mem(a, b),
    ensures mem(no_zero(a), b),
{
    let c = b as u128;
    assert(0 < c < 128 && (a >> c) & 1 == 1 ==> ((a & !1u128) >> c) & 1 == 1) by (bit_vector);
}
pub proof fn within_mem(a: u128, d: u128, b: u8)
    requires a & d == a, mem(a, b),
    ensures mem(d, b),
{
    let c = b as u128;
    assert(c < 128 && a & d == a && (a >> c) & 1 == 1 ==> (d >> c) & 1 == 1) by (bit_vector);
}
pub proof fn apart_mem(a: u128, d: u128, b: u8)
    requires a & d == 0,
    ensures !(mem(a, b) && mem(d, b)),
{
    let c = b as u128;
    assert(c < 128 && a & d == 0 ==> !((a >> c) & 1 == 1 && (d >> c) & 1 == 1)) by (bit_vector);
}

// ---- the grammar with names looked up ------------------------------------------------------------
// the last rule with that name among the first n
pub open spec fn find(g: bnf_Grammar, name: Seq<u8>, n: int) -> int
    decreases n,
{
    if n <= 0 || n > g.Rules.len() { -1 } else if g.Rules[n - 1].Head.Name == name { n - 1 } else { find(g, name, n - 1) }
}
pub proof fn find_is(g: bnf_Grammar, name: Seq<u8>, n: int)
    requires 0 <= n <= g.Rules.len(),
    ensures find(g, name, n) == last_ix(heads(g).take(n), name),
    decreases n,
{
    if n > 0 {
        find_is(g, name, n - 1);
        assert(heads(g).take(n).drop_last() =~= heads(g).take(n - 1));
        assert(heads(g).take(n).last() == head(g, n - 1));
    }
}
pub open spec fn named_rule(g: bnf_Grammar, name: Seq<u8>) -> int { find(g, name, g.Rules.len() as int) }
pub proof fn named_rule_is(g: bnf_Grammar, name: Seq<u8>)
    ensures named_rule(g, name) == rule_of(g, name),
{
    find_is(g, name, g.Rules.len() as int);
    assert(heads(g).take(g.Rules.len() as int) =~= heads(g));
}
// a terminal counts with its first byte
pub enum CS { T(u8), E, N(int), Bad }
pub open spec fn csym(g: bnf_Grammar, s: bnf_Symbol) -> CS {
    match s {
        bnf_Symbol::SymbolTerminal(t) => if t.Name.len() > 0 && 0 < t.Name[0] && t.Name[0] < 128 { CS::T(t.Name[0]) } else { CS::Bad },
        bnf_Symbol::SymbolNothing(_) => CS::E,
        bnf_Symbol::SymbolNonTerminal(v) => if named_rule(g, v.Name) >= 0 { CS::N(named_rule(g, v.Name)) } else { CS::Bad },
        _ => CS::Bad,
    }
}
pub open spec fn cseq(g: bnf_Grammar, s: Seq<bnf_Symbol>, n: int) -> Seq<CS>
    decreases n,
{
    if n <= 0 { Seq::empty() } else { cseq(g, s, n - 1).push(csym(g, s[n - 1])) }
}
pub open spec fn calts(g: bnf_Grammar, i: int, n: int) -> Seq<Seq<CS>>
    decreases n,
{
    if n <= 0 { Seq::empty() } else { calts(g, i, n - 1).push(cseq(g, alt(g, i, n - 1), alt(g, i, n - 1).len() as int)) }
}
pub open spec fn crules(g: bnf_Grammar, n: int) -> Seq<Seq<Seq<CS>>>
    decreases n,
{
    if n <= 0 { Seq::empty() } else { crules(g, n - 1).push(calts(g, n - 1, n_alts(g, n - 1))) }
}
pub type CG = Seq<Seq<Seq<CS>>>;
pub open spec fn comp(g: bnf_Grammar) -> CG { crules(g, g.Rules.len() as int) }
pub proof fn cseq_at(g: bnf_Grammar, s: Seq<bnf_Symbol>, n: int)
    requires 0 <= n <= s.len(),
    ensures cseq(g, s, n).len() == n, forall|x: int| 0 <= x < n ==> #[trigger] cseq(g, s, n)[x] == csym(g, s[x]),
    decreases n,
{
    if n > 0 { cseq_at(g, s, n - 1); }
}
pub proof fn calts_at(g: bnf_Grammar, i: int, n: int)
    requires 0 <= n <= n_alts(g, i),
    ensures calts(g, i, n).len() == n, forall|k: int| 0 <= k < n ==> #[trigger] calts(g, i, n)[k] == cseq(g, alt(g, i, k), alt(g, i, k).len() as int),
    decreases n,
{
    if n > 0 { calts_at(g, i, n - 1); }
}
pub proof fn crules_at(g: bnf_Grammar, n: int)
    requires 0 <= n <= g.Rules.len(),
    ensures crules(g, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] crules(g, n)[i] == calts(g, i, n_alts(g, i)),
    decreases n,
{
    if n > 0 { crules_at(g, n - 1); }
}
pub proof fn comp_at(g: bnf_Grammar, i: int, k: int)
    requires is_alt(g, i, k),
    ensures
        comp(g).len() == g.Rules.len(), comp(g)[i].len() == n_alts(g, i), comp(g)[i][k].len() == alt(g, i, k).len(),
        forall|x: int| 0 <= x < alt(g, i, k).len() ==> #[trigger] comp(g)[i][k][x] == csym(g, alt(g, i, k)[x]),
{
    crules_at(g, g.Rules.len() as int);
    calts_at(g, i, n_alts(g, i));
    cseq_at(g, alt(g, i, k), alt(g, i, k).len() as int);
}

// ---- FIRST and FOLLOW as bits -------------------------------------------------------------------
pub open spec fn tab_at(f: Seq<u128>, i: int) -> u128 { if 0 <= i < f.len() { f[i] } else { 0 } }
// FIRST of s[x..], if f is FIRST of the rules
pub open spec fn fl(f: Seq<u128>, s: Seq<CS>, x: int) -> u128
    decreases s.len() - x,
{
    if x < 0 || x >= s.len() { 1 } else {
        match s[x] {
            CS::T(b) => bit_of(b),
            CS::E => 1,
            CS::N(r) => { let l = tab_at(f, r); if l & 1 == 1 { no_zero(l) | fl(f, s, x + 1) } else { l } }
            CS::Bad => 0,
        }
    }
}
pub open spec fn as_rel(f: Seq<u128>) -> spec_fn(int, u8) -> bool { |i: int, b: u8| mem(tab_at(f, i), b) }
pub proof fn mem_zero(a: u128)
    ensures mem(a, 0) == (a & 1 == 1),
{
    assert((a >> 0u128) & 1 == a & 1) by (bit_vector);
}
// good symbols
pub open spec fn fine(c: CS) -> bool { !(c is Bad) }
pub open spec fn fine_seq(s: Seq<CS>, x: int) -> bool
    decreases s.len() - x,
{
    if x < 0 || x >= s.len() { true } else { fine(s[x]) && fine_seq(s, x + 1) }
}
pub proof fn fine_at(s: Seq<CS>, x: int, y: int)
    requires fine_seq(s, x), 0 <= x <= y < s.len(),
    ensures fine(s[y]),
    decreases y - x,
{
    if x < y { fine_at(s, x + 1, y); }
}
pub open spec fn cs_of(g: bnf_Grammar, s: Seq<bnf_Symbol>, c: Seq<CS>) -> bool { c.len() == s.len() && (forall|x: int| 0 <= x < s.len() ==> #[trigger] c[x] == csym(g, s[x])) }
pub proof fn fl_covers(g: bnf_Grammar, f: Seq<u128>, s: Seq<bnf_Symbol>, c: Seq<CS>, x: int, b: u8)
    requires 0 <= x <= s.len(), cs_of(g, s, c), fine_seq(c, x), seqf(g, as_rel(f), s.skip(x), b),
    ensures mem(fl(f, c, x), b),
    decreases s.len() - x,
{
    mem_zero(1);
    assert(1u128 & 1 == 1) by (bit_vector);
    if x < s.len() {
        assert(s.skip(x)[0] == s[x]);
        assert(s.skip(x).drop_first() =~= s.skip(x + 1));
        assert(c[x] == csym(g, s[x]));
        match s[x] {
            bnf_Symbol::SymbolTerminal(t) => { bit_of_mem(b); }
            bnf_Symbol::SymbolNonTerminal(v) => {
                named_rule_is(g, v.Name);
                let r = rule_of(g, v.Name);
                let l = tab_at(f, r);
                mem_zero(l);
                or_mem(no_zero(l), fl(f, c, x + 1), b);
                if b != 0 && as_rel(f)(r, b) { no_zero_mem(l, b); } else { assert(as_rel(f)(r, 0)); fl_covers(g, f, s, c, x + 1, b); }
            }
            _ => { }
        }
    }
}
// FIRST of the alternatives k.. is within l
pub open spec fn first_alts_ok(f: Seq<u128>, a: Seq<Seq<CS>>, l: u128, k: int) -> bool
    decreases a.len() - k,
{
    if k < 0 || k >= a.len() { true } else { fine_seq(a[k], 0) && fl(f, a[k], 0) & l == fl(f, a[k], 0) && first_alts_ok(f, a, l, k + 1) }
}
pub open spec fn first_ok(c: CG, f: Seq<u128>, i: int) -> bool
    decreases c.len() - i,
{
    if i < 0 || i >= c.len() { true } else { first_alts_ok(f, c[i], tab_at(f, i), 0) && first_ok(c, f, i + 1) }
}
pub proof fn first_alts_ok_at(f: Seq<u128>, a: Seq<Seq<CS>>, l: u128, k: int, x: int)
    requires first_alts_ok(f, a, l, k), 0 <= k <= x < a.len(),
    ensures fl(f, a[x], 0) & l == fl(f, a[x], 0), fine_seq(a[x], 0),
    decreases x - k,
{
    if k < x { first_alts_ok_at(f, a, l, k + 1, x); }
}
pub proof fn first_ok_at(c: CG, f: Seq<u128>, i: int, x: int)
    requires first_ok(c, f, i), 0 <= i <= x < c.len(),
    ensures first_alts_ok(f, c[x], tab_at(f, x), 0),
    decreases x - i,
{
    if i < x { first_ok_at(c, f, i + 1, x); }
}
pub proof fn first_bound(g: bnf_Grammar, f: Seq<u128>)
    requires first_ok(comp(g), f, 0),
    ensures below(firsts(g), as_rel(f)),
{
    let p = as_rel(f);
    let c = comp(g);
    assert forall|i: int, b: u8| #[trigger] fst_by(g, p, i, b) implies p(i, b) by {
        let k = choose|k: int| altf(g, p, i, k, b);
        let s = alt(g, i, k);
        assert(s.skip(0) =~= s);
        comp_at(g, i, k);
        first_ok_at(c, f, 0, i);
        first_alts_ok_at(f, c[i], tab_at(f, i), 0, k);
        fl_covers(g, f, s, c[i][k], 0, b);
        within_mem(fl(f, c[i][k], 0), tab_at(f, i), b);
    }
    first_least(g, p);
}
pub proof fn fine_from(s: Seq<CS>, x: int, y: int)
    requires fine_seq(s, x), 0 <= x <= y <= s.len(),
    ensures fine_seq(s, y),
    decreases y - x,
{
    if x < y { fine_from(s, x + 1, y); }
}
pub proof fn seq_first_bound(g: bnf_Grammar, f: Seq<u128>, i: int, k: int, x: int, b: u8)
    requires first_ok(comp(g), f, 0), is_alt(g, i, k), 0 <= x <= alt(g, i, k).len(), seqf(g, firsts(g), alt(g, i, k).skip(x), b),
    ensures mem(fl(f, comp(g)[i][k], x), b),
{
    let c = comp(g);
    first_bound(g, f);
    seqf_mono(g, firsts(g), as_rel(f), alt(g, i, k).skip(x), b);
    comp_at(g, i, k);
    first_ok_at(c, f, 0, i);
    first_alts_ok_at(f, c[i], tab_at(f, i), 0, k);
    fine_from(c[i][k], 0, x);
    fl_covers(g, f, alt(g, i, k), c[i][k], x, b);
}
// what positions m.. of s give is within w; u are the followers of its rule
pub open spec fn follow_seq_ok(f: Seq<u128>, w: Seq<u128>, u: u128, s: Seq<CS>, m: int) -> bool
    decreases s.len() - m,
{
    if m < 0 || m >= s.len() { true } else {
        (match s[m] {
            CS::N(r) => {
                let to = tab_at(w, r);
                let l = fl(f, s, m + 1);
                no_zero(l) & to == no_zero(l) && (l & 1 == 1 ==> u & to == u)
            }
            _ => true,
        }) && follow_seq_ok(f, w, u, s, m + 1)
    }
}
pub open spec fn follow_alts_ok(f: Seq<u128>, w: Seq<u128>, u: u128, a: Seq<Seq<CS>>, k: int) -> bool
    decreases a.len() - k,
{
    if k < 0 || k >= a.len() { true } else { follow_seq_ok(f, w, u, a[k], 0) && follow_alts_ok(f, w, u, a, k + 1) }
}
pub open spec fn follow_ok(c: CG, f: Seq<u128>, w: Seq<u128>, j: int) -> bool
    decreases c.len() - j,
{
    if j < 0 || j >= c.len() { true } else { follow_alts_ok(f, w, tab_at(w, j), c[j], 0) && follow_ok(c, f, w, j + 1) }
}
pub proof fn follow_seq_ok_at(f: Seq<u128>, w: Seq<u128>, u: u128, s: Seq<CS>, m: int, x: int)
    requires follow_seq_ok(f, w, u, s, m), 0 <= m <= x < s.len(), s[x] is N,
    ensures ({
        let to = tab_at(w, s[x]->N_0);
        let l = fl(f, s, x + 1);
        no_zero(l) & to == no_zero(l) && (l & 1 == 1 ==> u & to == u)
    }),
    decreases x - m,
{
    if m < x { follow_seq_ok_at(f, w, u, s, m + 1, x); }
}
pub proof fn follow_alts_ok_at(f: Seq<u128>, w: Seq<u128>, u: u128, a: Seq<Seq<CS>>, k: int, x: int)
    requires follow_alts_ok(f, w, u, a, k), 0 <= k <= x < a.len(),
    ensures follow_seq_ok(f, w, u, a[x], 0),
    decreases x - k,
{
    if k < x { follow_alts_ok_at(f, w, u, a, k + 1, x); }
}
pub proof fn follow_ok_at(c: CG, f: Seq<u128>, w: Seq<u128>, j: int, x: int)
    requires follow_ok(c, f, w, j), 0 <= j <= x < c.len(),
    ensures follow_alts_ok(f, w, tab_at(w, x), c[x], 0),
    decreases x - j,
{
    if j < x { follow_ok_at(c, f, w, j + 1, x); }
}
pub open spec fn sound_lists(c: CG, f: Seq<u128>, w: Seq<u128>) -> bool { first_ok(c, f, 0) && follow_ok(c, f, w, 0) && tab_at(w, 0) & 1 == 1 && rows_ok(c, f, w, 0) }
pub proof fn follow_bound(g: bnf_Grammar, f: Seq<u128>, w: Seq<u128>)
    requires sound_lists(comp(g), f, w), distinct(g, 0),
    ensures below(follows(g), as_rel(w)),
{
    let p = as_rel(w);
    let c = comp(g);
    assert forall|i: int, b: u8| #[trigger] flw_by(g, p, i, b) implies p(i, b) by {
        if i == 0 && b == 0 { mem_zero(tab_at(w, 0)); } else {
            let (j, k, m) = choose|j: int, k: int, m: int| alt_gives(g, p, i, j, k, m, b);
            let s = alt(g, j, k);
            comp_at(g, j, k);
            let l = fl(f, c[j][k], m + 1);
            distinct_at(g, 0, i);
            named_rule_is(g, head(g, i));
            assert(c[j][k][m] == csym(g, s[m]));
            follow_ok_at(c, f, w, 0, j);
            follow_alts_ok_at(f, w, tab_at(w, j), c[j], 0, k);
            follow_seq_ok_at(f, w, tab_at(w, j), c[j][k], 0, m);
            if b != 0 && seqf(g, firsts(g), s.skip(m + 1), b) {
                seq_first_bound(g, f, j, k, m + 1, b);
                no_zero_mem(l, b);
                within_mem(no_zero(l), tab_at(w, i), b);
            } else {
                seq_first_bound(g, f, j, k, m + 1, 0);
                mem_zero(l);
                assert(row(p, j)(b));
                within_mem(tab_at(w, j), tab_at(w, i), b);
            }
        }
    }
    follow_least(g, p);
}

// ---- well-formed ------------------------------------------------------------------------------
pub open spec fn distinct(g: bnf_Grammar, i: int) -> bool
    decreases g.Rules.len() - i,
{
    if i < 0 || i >= g.Rules.len() { true } else { named_rule(g, g.Rules[i].Head.Name) == i && distinct(g, i + 1) }
}
pub proof fn distinct_at(g: bnf_Grammar, i: int, x: int)
    requires distinct(g, i), 0 <= i <= x < g.Rules.len(),
    ensures named_rule(g, head(g, x)) == x,
    decreases x - i,
{
    if i < x { distinct_at(g, i + 1, x); }
}
// no symbol of s[x..] is the empty string
pub open spec fn solid(s: Seq<CS>, x: int) -> bool
    decreases s.len() - x,
{
    if x < 0 || x >= s.len() { true } else { !(s[x] is E) && !(s[x] is Bad) && solid(s, x + 1) }
}
pub proof fn solid_at(s: Seq<CS>, x: int, y: int)
    requires solid(s, x), 0 <= x <= y < s.len(),
    ensures !(s[y] is E) && !(s[y] is Bad),
    decreases y - x,
{
    if x < y { solid_at(s, x + 1, y); }
}
pub open spec fn good_alts(a: Seq<Seq<CS>>, k: int) -> bool
    decreases a.len() - k,
{
    if k < 0 || k >= a.len() { true } else { a[k].len() > 0 && ((a[k].len() == 1 && a[k][0] is E) || solid(a[k], 0)) && good_alts(a, k + 1) }
}
pub open spec fn good_rules(c: CG, i: int) -> bool
    decreases c.len() - i,
{
    if i < 0 || i >= c.len() { true } else { good_alts(c[i], 0) && good_rules(c, i + 1) }
}
pub proof fn good_alts_at(a: Seq<Seq<CS>>, k: int, x: int)
    requires good_alts(a, k), 0 <= k <= x < a.len(),
    ensures a[x].len() > 0 && ((a[x].len() == 1 && a[x][0] is E) || solid(a[x], 0)),
    decreases x - k,
{
    if k < x { good_alts_at(a, k + 1, x); }
}
pub proof fn good_rules_at(c: CG, i: int, x: int)
    requires good_rules(c, i), 0 <= i <= x < c.len(),
    ensures good_alts(c[x], 0),
    decreases x - i,
{
    if i < x { good_rules_at(c, i + 1, x); }
}
pub proof fn good_alt(g: bnf_Grammar, i: int, k: int)
    requires good_rules(comp(g), 0), is_alt(g, i, k),
    ensures good_seq(g, alt(g, i, k)),
{
    comp_at(g, i, k);
    let s = alt(g, i, k); let c = comp(g)[i][k];
    good_rules_at(comp(g), 0, i);
    good_alts_at(comp(g)[i], 0, k);
    assert(c[0] == csym(g, s[0]));
    if !(s.len() == 1 && s[0] is SymbolNothing) {
        assert forall|y: int| 0 <= y < s.len() implies plain(g, #[trigger] s[y]) by {
            assert(c[y] == csym(g, s[y]));
            solid_at(c, 0, y);
            if let bnf_Symbol::SymbolNonTerminal(v) = s[y] { named_rule_is(g, v.Name); }
        }
    }
}

// ---- no conflict --------------------------------------------------------------------------------
// cells claimed by the bytes that begin the alternative, and by the followers u if it can vanish
pub open spec fn cells(f: Seq<u128>, u: u128, s: Seq<CS>, e: bool) -> u128 {
    let l = fl(f, s, 0);
    if !e { no_zero(l) } else if l & 1 == 1 { u } else { 0 }
}
// every cell claimed by alternatives k.. is claimed once, and is not in seen
pub open spec fn row_ok(f: Seq<u128>, u: u128, a: Seq<Seq<CS>>, k: int, seen: u128) -> bool
    decreases a.len() - k,
{
    if k < 0 || k >= a.len() { true } else {
        let x = cells(f, u, a[k], false); let y = cells(f, u, a[k], true);
        x & seen == 0 && y & (seen | x) == 0 && row_ok(f, u, a, k + 1, (seen | x) | y)
    }
}
pub open spec fn rows_ok(c: CG, f: Seq<u128>, w: Seq<u128>, i: int) -> bool
    decreases c.len() - i,
{
    if i < 0 || i >= c.len() { true } else { row_ok(f, tab_at(w, i), c[i], 0, 0) && rows_ok(c, f, w, i + 1) }
}
pub proof fn rows_ok_at(c: CG, f: Seq<u128>, w: Seq<u128>, i: int, x: int)
    requires rows_ok(c, f, w, i), 0 <= i <= x < c.len(),
    ensures row_ok(f, tab_at(w, x), c[x], 0, 0),
    decreases x - i,
{
    if i < x { rows_ok_at(c, f, w, i + 1, x); }
}
// cells of alternatives from k on are not in seen
pub proof fn row_ok_seen(f: Seq<u128>, u: u128, a: Seq<Seq<CS>>, k: int, seen: u128, x: int, e: bool, b: u8)
    requires row_ok(f, u, a, k, seen), 0 <= k <= x < a.len(), mem(cells(f, u, a[x], e), b),
    ensures !mem(seen, b),
    decreases x - k,
{
    let p = cells(f, u, a[k], false); let q = cells(f, u, a[k], true);
    or_mem(seen, p, b); or_mem(seen | p, q, b);
    if k < x { row_ok_seen(f, u, a, k + 1, (seen | p) | q, x, e, b); } else { apart_mem(p, seen, b); apart_mem(q, seen | p, b); }
}
pub proof fn row_ok_apart(f: Seq<u128>, u: u128, a: Seq<Seq<CS>>, k: int, seen: u128, x: int, e: bool, x2: int, e2: bool, b: u8)
    requires
        row_ok(f, u, a, k, seen), 0 <= k <= x <= x2 < a.len(), x < x2 || (!e && e2),
        mem(cells(f, u, a[x], e), b), mem(cells(f, u, a[x2], e2), b),
    ensures false,
    decreases x - k,
{
    let p = cells(f, u, a[k], false); let q = cells(f, u, a[k], true);
    or_mem(seen, p, b); or_mem(seen | p, q, b);
    if k < x { row_ok_apart(f, u, a, k + 1, (seen | p) | q, x, e, x2, e2, b); }
    else if x2 == x { apart_mem(q, seen | p, b); } else { row_ok_seen(f, u, a, k + 1, (seen | p) | q, x2, e2, b); }
}
pub proof fn claim_cell(g: bnf_Grammar, f: Seq<u128>, w: Seq<u128>, i: int, k: int, e: bool, b: u8)
    requires sound_lists(comp(g), f, w), distinct(g, 0), claims(g, i, k, e, b),
    ensures mem(cells(f, tab_at(w, i), comp(g)[i][k], e), b),
{
    let s = alt(g, i, k);
    assert(s.skip(0) =~= s);
    let l = fl(f, comp(g)[i][k], 0);
    if e {
        seq_first_bound(g, f, i, k, 0, 0);
        mem_zero(l);
        follow_bound(g, f, w);
        assert(follows(g)(i, b));
    } else {
        seq_first_bound(g, f, i, k, 0, b);
        no_zero_mem(l, b);
    }
}

// ---- computing the sets ---------------------------------------------------------------------------
pub open spec fn none(n: int) -> Seq<u128>
    decreases n,
{
    if n <= 0 { Seq::empty() } else { none(n - 1).push(0u128) }
}
pub open spec fn grow_alts(f: Seq<u128>, a: Seq<Seq<CS>>, k: int, l: u128) -> u128
    decreases a.len() - k,
{
    if k < 0 || k >= a.len() { l } else { grow_alts(f, a, k + 1, l | fl(f, a[k], 0)) }
}
// later rules first: facts travel upwards in one round
pub open spec fn grow(c: CG, f: Seq<u128>, i: int) -> Seq<u128>
    decreases i,
{
    if i <= 0 || i > f.len() { f } else { grow(c, f.update(i - 1, grow_alts(f, c[i - 1], 0, f[i - 1])), i - 1) }
}
pub open spec fn rounds(c: CG, f: Seq<u128>, n: int) -> Seq<u128>
    decreases n,
{
    if n <= 0 { f } else { rounds(c, grow(c, f, f.len() as int), n - 1) }
}
pub open spec fn fgrow_seq(f: Seq<u128>, w: Seq<u128>, j: int, s: Seq<CS>, m: int) -> Seq<u128>
    decreases s.len() - m,
{
    if m < 0 || m >= s.len() { w } else {
        match s[m] {
            CS::N(to) => {
                let l = fl(f, s, m + 1);
                let t = tab_at(w, to) | no_zero(l) | if l & 1 == 1 { tab_at(w, j) } else { 0 };
                fgrow_seq(f, if 0 <= to < w.len() { w.update(to, t) } else { w }, j, s, m + 1)
            }
            _ => fgrow_seq(f, w, j, s, m + 1),
        }
    }
}
pub open spec fn fgrow_alts(f: Seq<u128>, w: Seq<u128>, j: int, a: Seq<Seq<CS>>, k: int) -> Seq<u128>
    decreases a.len() - k,
{
    if k < 0 || k >= a.len() { w } else { fgrow_alts(f, fgrow_seq(f, w, j, a[k], 0), j, a, k + 1) }
}
pub open spec fn fgrow(c: CG, f: Seq<u128>, w: Seq<u128>, j: int) -> Seq<u128>
    decreases c.len() - j,
{
    if j < 0 || j >= c.len() { w } else { fgrow(c, f, fgrow_alts(f, w, j, c[j], 0), j + 1) }
}
pub open spec fn frounds(c: CG, f: Seq<u128>, w: Seq<u128>, n: int) -> Seq<u128>
    decreases n,
{
    if n <= 0 { w } else { frounds(c, f, fgrow(c, f, w, 0), n - 1) }
}
// the check: for it to be sound the sets need not be right
pub open spec fn check_sets(c: CG, f: Seq<u128>, n: int) -> bool { sound_lists(c, f, frounds(c, f, none(c.len() as int).update(0, 1u128), n)) }
pub open spec fn check_comp(c: CG, n: int) -> bool { good_rules(c, 0) && check_sets(c, rounds(c, none(c.len() as int), n), n) }
pub open spec fn check_ll1(g: bnf_Grammar, n: int) -> bool { g.Rules.len() > 0 && distinct(g, 0) && check_comp(comp(g), n) }

pub proof fn check_sound(g: bnf_Grammar, n: int)
    requires check_ll1(g, n),
    ensures wf(g), !conflict(g),
{
    let c = comp(g);
    assert forall|i: int, j: int| #![trigger head(g, i), head(g, j)] is_rule(g, i) && is_rule(g, j) && i != j implies head(g, i) != head(g, j) by {
        distinct_at(g, 0, i); distinct_at(g, 0, j);
    }
    assert forall|i: int, k: int| #![trigger alt(g, i, k)] is_alt(g, i, k) implies good_seq(g, alt(g, i, k)) by { good_alt(g, i, k); }
    let f = rounds(c, none(c.len() as int), n);
    let w = frounds(c, f, none(c.len() as int).update(0, 1u128), n);
    if conflict(g) {
        let (i, k, e, k2, e2, b) = choose|i: int, k: int, e: bool, k2: int, e2: bool, b: u8| clash(g, i, k, e, k2, e2, b);
        claim_cell(g, f, w, i, k, e, b);
        claim_cell(g, f, w, i, k2, e2, b);
        comp_at(g, i, k);
        rows_ok_at(c, f, w, 0, i);
        if k < k2 || (k == k2 && !e) { row_ok_apart(f, tab_at(w, i), c[i], 0, 0, k, e, k2, e2, b); }
        else { row_ok_apart(f, tab_at(w, i), c[i], 0, 0, k2, e2, k, e, b); }
    }
}

} // verus!
