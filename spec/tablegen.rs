// The state of table generation and its relation to FIRST, FOLLOW and claims.
verus! {

pub open spec fn hasb(f: Seq<byteset_ByteSet>, i: int, b: u8) -> bool { 0 <= i < f.len() && bs_has(f[i], b) }
pub open spec fn has(f: Seq<byteset_ByteSet>) -> spec_fn(int, u8) -> bool { |i: int, b: u8| hasb(f, i, b) }
pub open spec fn sets_ok(f: Seq<byteset_ByteSet>, n: int) -> bool { f.len() == n && forall|i: int| 0 <= i < n ==> bs_ok(#[trigger] f[i]) }
pub open spec fn map_ok(m: GoMap<Seq<u8>, int>, g: bnf_Grammar) -> bool {
    forall|name: Seq<u8>| (#[trigger] m.m.dom().contains(name) <==> rule_of(g, name) >= 0) && (rule_of(g, name) >= 0 ==> m.m[name] == rule_of(g, name))
}
pub open spec fn tg_ok(tg: tablegen_tableGenerator) -> bool {
    tg.ruleCount == tg.g.Rules.len() && sets_ok(tg.firsts, tg.ruleCount) && sets_ok(tg.follows, tg.ruleCount) && map_ok(tg.ruleMap, tg.g) && known_grammar(tg.g)
}
pub open spec fn firsts_sound(tg: tablegen_tableGenerator) -> bool { below(has(tg.firsts), firsts(tg.g)) }
pub open spec fn firsts_done(tg: tablegen_tableGenerator) -> bool { below(has(tg.firsts), firsts(tg.g)) && below(firsts(tg.g), has(tg.firsts)) }
pub open spec fn follows_sound(tg: tablegen_tableGenerator) -> bool { below(has(tg.follows), follows(tg.g)) }
pub open spec fn follows_done(tg: tablegen_tableGenerator) -> bool { below(has(tg.follows), follows(tg.g)) && below(follows(tg.g), has(tg.follows)) }

// every rule of FIRST for rule i adds nothing
pub open spec fn first_full(g: bnf_Grammar, f: Seq<byteset_ByteSet>, i: int) -> bool { forall|b: u8| #[trigger] fst_by(g, has(f), i, b) ==> hasb(f, i, b) }
// sequence s of rule j adds nothing to the followers of rule i
pub open spec fn follow_full(g: bnf_Grammar, f: Seq<byteset_ByteSet>, i: int, j: int, s: Seq<bnf_Symbol>) -> bool {
    forall|m: int, b: u8| #[trigger] seq_gives(g, row(has(f), j), s, i, m, b) ==> hasb(f, i, b)
}
pub open spec fn follow_full_rule(g: bnf_Grammar, f: Seq<byteset_ByteSet>, i: int, j: int, n: int) -> bool {
    forall|k: int| 0 <= k < n && is_alt(g, j, k) ==> follow_full(g, f, i, j, #[trigger] alt(g, j, k))
}

// ---- growth ------------------------------------------------------------------------
pub open spec fn total(f: Seq<byteset_ByteSet>) -> int
    decreases f.len(),
{
    if f.len() == 0 { 0 } else { total(f.drop_last()) + bs_set(f.last()).len() }
}
pub open spec fn room(f: Seq<byteset_ByteSet>) -> int { 256 * f.len() - total(f) }
pub open spec fn grew(f: Seq<byteset_ByteSet>, f2: Seq<byteset_ByteSet>) -> bool { f.len() == f2.len() && forall|i: int, b: u8| #[trigger] hasb(f, i, b) ==> hasb(f2, i, b) }

pub proof fn total_bound(f: Seq<byteset_ByteSet>)
    requires sets_ok(f, f.len() as int),
    ensures 0 <= total(f) <= 256 * f.len(),
    decreases f.len(),
{
    if f.len() > 0 { total_bound(f.drop_last()); bs_list_props(f.last()); }
}
pub proof fn total_grows(f: Seq<byteset_ByteSet>, f2: Seq<byteset_ByteSet>)
    requires sets_ok(f, f.len() as int), sets_ok(f2, f.len() as int), grew(f, f2),
    ensures
        total(f) <= total(f2),
        (exists|i: int, b: u8| hasb(f2, i, b) && !hasb(f, i, b)) ==> total(f) < total(f2),
    decreases f.len(),
{
    if f.len() > 0 {
        let n = f.len() - 1;
        let e = f.drop_last(); let e2 = f2.drop_last();
        assert forall|i: int, b: u8| #[trigger] hasb(e, i, b) implies hasb(e2, i, b) by { assert(hasb(f, i, b)); }
        total_grows(e, e2);
        bs_list_props(f.last()); bs_list_props(f2.last());
        let a = bs_set(f.last()); let a2 = bs_set(f2.last());
        assert(a.subset_of(a2)) by {
            assert forall|b: u8| a.contains(b) implies a2.contains(b) by { assert(hasb(f, n, b)); }
        }
        vstd::set_lib::lemma_len_subset(a, a2);
        if exists|i: int, b: u8| hasb(f2, i, b) && !hasb(f, i, b) {
            let (i, b) = choose|i: int, b: u8| hasb(f2, i, b) && !hasb(f, i, b);
            if i < n { assert(hasb(e2, i, b) && !hasb(e, i, b)); } else {
                assert(a2.contains(b) && !a.contains(b));
                assert(a.subset_of(a2.remove(b)));
                vstd::set_lib::lemma_len_subset(a, a2.remove(b));
            }
        }
    }
}
// set t was added to one set of f, giving s
pub proof fn one_grew(f: Seq<byteset_ByteSet>, i: int, t: byteset_ByteSet, s: byteset_ByteSet)
    requires sets_ok(f, f.len() as int), 0 <= i < f.len(), bs_ok(s), forall|b: u8| #[trigger] bs_has(s, b) == (bs_has(f[i], b) || bs_has(t, b)),
    ensures
        sets_ok(f.update(i, s), f.len() as int), grew(f, f.update(i, s)), total(f) <= total(f.update(i, s)),
        (exists|b: u8| #[trigger] bs_has(t, b) && !bs_has(f[i], b)) ==> total(f) < total(f.update(i, s)),
        forall|r: int, b: u8| #[trigger] hasb(f.update(i, s), r, b) == (hasb(f, r, b) || (r == i && bs_has(t, b))),
{
    let f2 = f.update(i, s);
    assert forall|j: int, b: u8| #[trigger] hasb(f2, j, b) == (hasb(f, j, b) || (j == i && bs_has(t, b))) by { if j == i { assert(bs_has(s, b) == (bs_has(f[i], b) || bs_has(t, b))); } }
    assert forall|j: int, b: u8| #[trigger] hasb(f, j, b) implies hasb(f2, j, b) by { }
    total_grows(f, f2);
    if exists|b: u8| #[trigger] bs_has(t, b) && !bs_has(f[i], b) {
        let b = choose|b: u8| #[trigger] bs_has(t, b) && !bs_has(f[i], b);
        assert(bs_has(s, b));
        assert(hasb(f2, i, b) && !hasb(f, i, b));
    }
}
pub proof fn grew_trans(f: Seq<byteset_ByteSet>, f2: Seq<byteset_ByteSet>, f3: Seq<byteset_ByteSet>)
    requires grew(f, f2), grew(f2, f3),
    ensures grew(f, f3),
{
    assert forall|i: int, b: u8| #[trigger] hasb(f, i, b) implies hasb(f3, i, b) by { assert(hasb(f2, i, b)); }
}

// ---- FIRST -----------------------------------------------------------------------------
pub proof fn seqf_done(tg: tablegen_tableGenerator, s: Seq<bnf_Symbol>)
    requires firsts_done(tg),
    ensures forall|b: u8| #[trigger] seqf(tg.g, has(tg.firsts), s, b) == seqf(tg.g, firsts(tg.g), s, b),
{
    assert forall|b: u8| #[trigger] seqf(tg.g, has(tg.firsts), s, b) == seqf(tg.g, firsts(tg.g), s, b) by {
        if seqf(tg.g, has(tg.firsts), s, b) { seqf_mono(tg.g, has(tg.firsts), firsts(tg.g), s, b); }
        if seqf(tg.g, firsts(tg.g), s, b) { seqf_mono(tg.g, firsts(tg.g), has(tg.firsts), s, b); }
    }
}
// adding what the rules of FIRST give stays sound
pub proof fn first_add(g: bnf_Grammar, f: Seq<byteset_ByteSet>, f2: Seq<byteset_ByteSet>, i: int)
    requires below(has(f), firsts(g)), forall|r: int, b: u8| #[trigger] hasb(f2, r, b) ==> hasb(f, r, b) || (r == i && fst_by(g, has(f), i, b)),
    ensures below(has(f2), firsts(g)),
{
    assert forall|r: int, b: u8| #[trigger] has(f2)(r, b) implies firsts(g)(r, b) by {
        assert(hasb(f2, r, b));
        if hasb(f, r, b) { assert(has(f)(r, b)); } else { fst_mono(g, has(f), firsts(g), i, b); first_closed(g, i, b); }
    }
}
pub proof fn firsts_end(tg: tablegen_tableGenerator)
    requires firsts_sound(tg), forall|i: int| is_rule(tg.g, i) ==> #[trigger] first_full(tg.g, tg.firsts, i),
    ensures firsts_done(tg),
{
    assert(is_closed(tg.g, has(tg.firsts))) by {
        assert forall|i: int, b: u8| #[trigger] fst_by(tg.g, has(tg.firsts), i, b) implies has(tg.firsts)(i, b) by { assert(is_rule(tg.g, i)); assert(first_full(tg.g, tg.firsts, i)); }
    }
    first_least(tg.g, has(tg.firsts));
}

// ---- FOLLOW ------------------------------------------------------------------------------
pub proof fn follow_add(g: bnf_Grammar, f: Seq<byteset_ByteSet>, f2: Seq<byteset_ByteSet>, i: int, j: int, k: int, m: int)
    requires
        below(has(f), follows(g)), is_rule(g, i), is_alt(g, j, k), 0 <= m < alt(g, j, k).len(), is_nt(alt(g, j, k)[m], head(g, i)),
        forall|r: int, b: u8| #[trigger] hasb(f2, r, b) ==> hasb(f, r, b) || (r == i && gives(g, row(has(f), j), alt(g, j, k), m, b)),
    ensures below(has(f2), follows(g)),
{
    assert forall|r: int, b: u8| #[trigger] has(f2)(r, b) implies follows(g)(r, b) by {
        assert(hasb(f2, r, b));
        if hasb(f, r, b) { assert(has(f)(r, b)); } else {
            assert(has(f)(j, b) ==> follows(g)(j, b));
            assert(alt_gives(g, follows(g), i, j, k, m, b));
            assert(flw_by(g, follows(g), i, b));
            follow_closed(g, i, b);
        }
    }
}
pub proof fn follows_end(tg: tablegen_tableGenerator)
    requires
        follows_sound(tg), hasb(tg.follows, 0, 0),
        forall|i: int, j: int| is_rule(tg.g, i) && is_rule(tg.g, j) ==> #[trigger] follow_full_rule(tg.g, tg.follows, i, j, n_alts(tg.g, j)),
    ensures follows_done(tg),
{
    let g = tg.g; let p = has(tg.follows);
    assert(fclosed(g, p)) by {
        assert forall|i: int, b: u8| #[trigger] flw_by(g, p, i, b) implies p(i, b) by {
            if !(i == 0 && b == 0 && is_rule(g, 0)) {
                let (j, k, m) = choose|j: int, k: int, m: int| alt_gives(g, p, i, j, k, m, b);
                assert(follow_full_rule(g, tg.follows, i, j, n_alts(g, j)));
                assert(follow_full(g, tg.follows, i, j, alt(g, j, k)));
                assert(seq_gives(g, row(p, j), alt(g, j, k), i, m, b));
            }
        }
    }
    follow_least(g, p);
}

// ---- cells ----------------------------------------------------------------------------------
pub proof fn add_claim(g: bnf_Grammar, i: int, d: spec_fn(int, bool, u8) -> bool, d2: spec_fn(int, bool, u8) -> bool, r: GoMap<u8, Seq<parser_ParserOp>>, k: int, e: bool, b: u8)
    requires
        fills(g, i, d, r), peaceful(g, i, d), claims(g, i, k, e, b), !r.m.dom().contains(b),
        forall|k2: int, e2: bool, b2: u8| #[trigger] claims(g, i, k2, e2, b2) ==> (d2(k2, e2, b2) <==> (d(k2, e2, b2) || (k2 == k && e2 == e && b2 == b))),
    ensures fills(g, i, d2, r.put(b, content(g, i, k, e))), peaceful(g, i, d2),
{
    let r2 = r.put(b, content(g, i, k, e));
    assert forall|c: u8| #[trigger] r2.m.dom().contains(c) implies exists|k2: int, e2: bool| #[trigger] claims(g, i, k2, e2, c) && d2(k2, e2, c) by {
        if c == b { assert(claims(g, i, k, e, c) && d2(k, e, c)); } else {
            assert(r.m.dom().contains(c));
            let (k2, e2) = choose|k2: int, e2: bool| #[trigger] claims(g, i, k2, e2, c) && d(k2, e2, c);
            assert(claims(g, i, k2, e2, c) && d2(k2, e2, c));
        }
    }
    assert forall|k2: int, e2: bool, c: u8| #[trigger] claims(g, i, k2, e2, c) && d2(k2, e2, c) implies r2.m.dom().contains(c) && r2.m[c] == content(g, i, k2, e2) by {
        if !(k2 == k && e2 == e && c == b) { assert(r.m.dom().contains(c)); }
    }
    assert forall|k1: int, e1: bool, k2: int, e2: bool, c: u8| d2(k1, e1, c) && d2(k2, e2, c) implies !#[trigger] clash(g, i, k1, e1, k2, e2, c) by {
        if clash(g, i, k1, e1, k2, e2, c) {
            assert(claims(g, i, k1, e1, c) && claims(g, i, k2, e2, c));
            if c == b {
                if d(k1, e1, c) { assert(r.m.dom().contains(c)); }
                if d(k2, e2, c) { assert(r.m.dom().contains(c)); }
            }
        }
    }
}
pub proof fn same_claims(g: bnf_Grammar, i: int, d: spec_fn(int, bool, u8) -> bool, d2: spec_fn(int, bool, u8) -> bool, r: GoMap<u8, Seq<parser_ParserOp>>)
    requires
        fills(g, i, d, r), peaceful(g, i, d),
        forall|k: int, e: bool, b: u8| #[trigger] claims(g, i, k, e, b) ==> (d2(k, e, b) <==> d(k, e, b)),
    ensures fills(g, i, d2, r), peaceful(g, i, d2),
{
    assert forall|c: u8| #[trigger] r.m.dom().contains(c) implies exists|k2: int, e2: bool| #[trigger] claims(g, i, k2, e2, c) && d2(k2, e2, c) by {
        let (k2, e2) = choose|k2: int, e2: bool| #[trigger] claims(g, i, k2, e2, c) && d(k2, e2, c);
        assert(claims(g, i, k2, e2, c) && d2(k2, e2, c));
    }
    assert forall|k1: int, e1: bool, k2: int, e2: bool, c: u8| d2(k1, e1, c) && d2(k2, e2, c) implies !#[trigger] clash(g, i, k1, e1, k2, e2, c) by {
        if clash(g, i, k1, e1, k2, e2, c) { assert(claims(g, i, k1, e1, c) && claims(g, i, k2, e2, c)); assert(d(k1, e1, c) && d(k2, e2, c)); }
    }
}
// a filled cell under a further claim is a clash
pub proof fn found_clash(g: bnf_Grammar, i: int, d: spec_fn(int, bool, u8) -> bool, r: GoMap<u8, Seq<parser_ParserOp>>, k: int, e: bool, b: u8)
    requires fills(g, i, d, r), claims(g, i, k, e, b), !d(k, e, b), r.m.dom().contains(b),
    ensures !peaceful(g, i, all_claims()),
{
    let (k2, e2) = choose|k2: int, e2: bool| #[trigger] claims(g, i, k2, e2, b) && d(k2, e2, b);
    assert(clash(g, i, k, e, k2, e2, b));
    assert(all_claims()(k, e, b) && all_claims()(k2, e2, b));
}
// claims of the first n alternatives, the empty production of alternative n before
// the bytes of es and its symbols before the bytes of fs
pub open spec fn part(n: int, es: Seq<u8>, fs: Seq<u8>) -> spec_fn(int, bool, u8) -> bool { |k: int, e: bool, b: u8| k < n || (k == n && if e { es.contains(b) } else { fs.contains(b) }) }

// all claims of the first n alternatives, the empty production of alternative n and
// its symbols before the bytes of fs
pub open spec fn part2(n: int, fs: Seq<u8>) -> spec_fn(int, bool, u8) -> bool { |k: int, e: bool, b: u8| k < n || (k == n && (e || fs.contains(b))) }

pub proof fn take_contains(s: Seq<u8>, i: int)
    requires increasing(s), 0 <= i < s.len(),
    ensures
        !s.take(i).contains(s[i]),
        forall|b: u8| #[trigger] s.take(i + 1).contains(b) == (s.take(i).contains(b) || b == s[i]),
        s.contains(s[i]),
{
    let a = s.take(i); let c = s.take(i + 1);
    assert forall|b: u8| #[trigger] c.contains(b) == (a.contains(b) || b == s[i]) by {
        if a.contains(b) { let j = choose|j: int| 0 <= j < a.len() && a[j] == b; assert(c[j] == b); }
        if b == s[i] { assert(c[i] == b); }
        if c.contains(b) { let j = choose|j: int| 0 <= j < c.len() && c[j] == b; if j < i { assert(a[j] == b); } }
    }
    if a.contains(s[i]) { let j = choose|j: int| 0 <= j < a.len() && a[j] == s[i]; assert(s[j] < s[i]); }
}
pub proof fn no_conflict(g: bnf_Grammar)
    requires forall|i: int| is_rule(g, i) ==> #[trigger] peaceful(g, i, all_claims()),
    ensures !conflict(g),
{
    if conflict(g) {
        let (i, k, e, k2, e2, b) = choose|i: int, k: int, e: bool, k2: int, e2: bool, b: u8| clash(g, i, k, e, k2, e2, b);
        assert(is_rule(g, i));
        assert(peaceful(g, i, all_claims()));
        assert(all_claims()(k, e, b) && all_claims()(k2, e2, b));
    }
}
pub proof fn some_conflict(g: bnf_Grammar, i: int)
    requires !peaceful(g, i, all_claims()),
    ensures conflict(g),
{
    let (k, e, k2, e2, b) = choose|k: int, e: bool, k2: int, e2: bool, b: u8| all_claims()(k, e, b) && all_claims()(k2, e2, b) && clash(g, i, k, e, k2, e2, b);
    assert(clash(g, i, k, e, k2, e2, b));
}

pub proof fn own_rule(g: bnf_Grammar, i: int)
    requires wf(g), is_rule(g, i),
    ensures rule_of(g, head(g, i)) == i,
{
    rule_of_props(g, head(g, i));
    assert(head(g, rule_of(g, head(g, i))) == head(g, i));
}
pub proof fn start_follow(g: bnf_Grammar)
    requires is_rule(g, 0),
    ensures follow(g, 0, 0),
{
    assert(flw_by(g, follows(g), 0, 0));
    follow_closed(g, 0, 0);
}

// every nonterminal in a cell refers to a row of the table
pub open spec fn cell_refs(t: Table, c: Seq<parser_ParserOp>) -> bool { forall|x: int| 0 <= x < c.len() && #[trigger] c[x] is nonTerminal_t ==> t.m.dom().contains(c[x]->nonTerminal_t_0.name) }
pub open spec fn table_refs(t: Table) -> bool {
    table_ok(t) && forall|n: int, b: u8| #![trigger t.m[n].m[b]] t.m.dom().contains(n) && t.m[n].m.dom().contains(b) ==> cell_refs(t, t.m[n].m[b])
}
pub proof fn refs_ok(g: bnf_Grammar, t: Table)
    requires wf(g), table_of(g, t),
    ensures table_refs(t),
{
    assert forall|n: int, b: u8| #![trigger t.m[n].m[b]] t.m.dom().contains(n) && t.m[n].m.dom().contains(b) implies cell_ok(t.m[n].m[b]) && cell_refs(t, t.m[n].m[b]) by {
        assert(fills(g, n, all_claims(), t.m[n]));
        let (k, e) = choose|k: int, e: bool| #[trigger] claims(g, n, k, e, b) && all_claims()(k, e, b);
        assert(t.m[n].m[b] == content(g, n, k, e));
        let a = alt(g, n, k);
        assert(good_seq(g, a));
        if !e {
            assert forall|x: int| 0 <= x < a.len() implies sym_ok(#[trigger] ops_of(g, a)[x]) && (ops_of(g, a)[x] is nonTerminal_t ==> is_rule(g, ops_of(g, a)[x]->nonTerminal_t_0.name)) by {
                assert(plain(g, a[x]));
                if let bnf_Symbol::SymbolNonTerminal(v) = a[x] { rule_of_props(g, v.Name); }
            }
        }
    }
}

} // verus!
