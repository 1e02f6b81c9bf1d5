// The language of a grammar, and what the machine does with the predictive table.
verus! {

// ---- derivations by the grammar ----------------------------------------------------
pub enum Der { Text(Seq<u8>), Empty, Node(int, Seq<Der>) }

// d derives a word from symbol s: a terminal its text, the empty string nothing, a
// nonterminal what one of its alternatives derives
pub open spec fn derives(g: bnf_Grammar, s: bnf_Symbol, d: Der) -> bool
    decreases d,
{
    match d {
        Der::Text(w) => s is SymbolTerminal && w == s->SymbolTerminal_0.Name,
        Der::Empty => s is SymbolNothing,
        Der::Node(k, ds) => s is SymbolNonTerminal && {
            let i = rule_of(g, s->SymbolNonTerminal_0.Name);
            i >= 0 && is_alt(g, i, k) && ds.len() == alt(g, i, k).len()
            && forall|x: int| 0 <= x < ds.len() ==> derives(g, alt(g, i, k)[x], #[trigger] ds[x])
        },
    }
}
pub open spec fn derives_all(g: bnf_Grammar, s: Seq<bnf_Symbol>, ds: Seq<Der>) -> bool {
    ds.len() == s.len() && forall|x: int| 0 <= x < ds.len() ==> derives(g, s[x], #[trigger] ds[x])
}
// the word derived
pub open spec fn word(d: Der) -> Seq<u8>
    decreases d, 0nat,
{
    match d {
        Der::Text(w) => w,
        Der::Empty => Seq::empty(),
        Der::Node(k, ds) => words(ds, 0),
    }
}
pub open spec fn words(ds: Seq<Der>, x: nat) -> Seq<u8>
    decreases ds, ds.len() - x,
{
    if x >= ds.len() { Seq::empty() } else { word(ds[x as int]) + words(ds, x + 1) }
}
pub open spec fn nt(name: Seq<u8>) -> bnf_Symbol { bnf_Symbol::SymbolNonTerminal(bnf_SymbolNonTerminal { Name: name }) }
// the first rule derives w by d
pub open spec fn derivation_of(g: bnf_Grammar, w: Seq<u8>, d: Der) -> bool { derives(g, nt(head(g, 0)), d) && word(d) == w }
// the language of a grammar
pub open spec fn in_language(g: bnf_Grammar, w: Seq<u8>) -> bool { exists|d: Der| derivation_of(g, w, d) }

// ---- words and FIRST ----------------------------------------------------------------
pub open spec fn first_byte(w: Seq<u8>) -> u8 { if w.len() == 0 { 0 } else { w[0] } }

// a derived word begins with what FIRST says, or is empty if FIRST says so
pub proof fn word_first(g: bnf_Grammar, s: bnf_Symbol, d: Der)
    requires wf(g), derives(g, s, d), plain(g, s) || s is SymbolNothing,
    ensures
        word(d).len() > 0 ==> word(d)[0] != 0,
        s is SymbolNonTerminal ==> first(g, rule_of(g, s->SymbolNonTerminal_0.Name), first_byte(word(d))),
    decreases d, 0nat,
{
    if let Der::Node(k, ds) = d {
        let i = rule_of(g, s->SymbolNonTerminal_0.Name);
        let a = alt(g, i, k);
        assert(good_seq(g, a));
        assert forall|x: int| 0 <= x < a.len() implies plain(g, #[trigger] a[x]) || a[x] is SymbolNothing by { }
        assert(a.skip(0) =~= a);
        words_first(g, a, ds, 0);
        assert(altf(g, firsts(g), i, k, first_byte(word(d))));
        first_closed(g, i, first_byte(word(d)));
    }
}
pub proof fn words_first(g: bnf_Grammar, s: Seq<bnf_Symbol>, ds: Seq<Der>, x: nat)
    requires wf(g), derives_all(g, s, ds), x <= s.len(), forall|y: int| 0 <= y < s.len() ==> plain(g, #[trigger] s[y]) || s[y] is SymbolNothing,
        s.len() == 1 || plain_seq(g, s),
    ensures
        words(ds, x).len() > 0 ==> words(ds, x)[0] != 0,
        seqf(g, firsts(g), s.skip(x as int), first_byte(words(ds, x))),
    decreases ds, s.len() - x,
{
    if x < s.len() {
        let r = s.skip(x as int);
        assert(r[0] == s[x as int]);
        assert(r.drop_first() =~= s.skip(x as int + 1));
        word_first(g, s[x as int], ds[x as int]);
        words_first(g, s, ds, x + 1);
        let w = word(ds[x as int]); let v = words(ds, x + 1);
        assert(derives(g, s[x as int], ds[x as int]));
        if w.len() > 0 { assert((w + v)[0] == w[0]); } else { assert(w + v =~= v); }
        match s[x as int] {
            bnf_Symbol::SymbolNothing(_) => { assert(s.len() == 1); assert(v =~= Seq::<u8>::empty()); }
            _ => { }
        }
    }
}

// ---- the tree a derivation stands for ----------------------------------------------------
pub open spec fn tree_of(g: bnf_Grammar, s: bnf_Symbol, d: Der, p: int) -> cst_Node
    decreases d, 0nat,
{
    match d {
        Der::Text(w) => mk(-1, p, p + w.len(), Seq::empty()),
        Der::Empty => mk(-2, p, p, Seq::empty()),
        Der::Node(k, ds) => {
            let i = rule_of(g, s->SymbolNonTerminal_0.Name);
            if word(d).len() == 0 { mk(i, p, p, one_nothing(p)) } else { mk(i, p, p + word(d).len(), trees_of(g, alt(g, i, k), ds, 0, p)) }
        }
    }
}
pub open spec fn trees_of(g: bnf_Grammar, a: Seq<bnf_Symbol>, ds: Seq<Der>, x: nat, p: int) -> Seq<cst_Node>
    decreases ds, ds.len() - x,
{
    if x >= ds.len() { Seq::empty() } else { seq![tree_of(g, a[x as int], ds[x as int], p)] + trees_of(g, a, ds, x + 1, p + word(ds[x as int]).len()) }
}

// ---- every derived source is parsed ------------------------------------------------------
pub open spec fn spans(src: Seq<u8>, p: int, q: int, w: Seq<u8>) -> bool { 0 <= p <= q <= src.len() && src.subrange(p, q) == w }

// the cell of a claim
pub proof fn claimed(g: bnf_Grammar, t: Table, i: int, k: int, e: bool, b: u8)
    requires table_of(g, t), claims(g, i, k, e, b),
    ensures expand(t, i, b) == Some(content(g, i, k, e)),
{
    assert(fills(g, i, all_claims(), t.m[i]));
    assert(all_claims()(k, e, b));
}
// d derives the source from p to q, and what follows can follow: a tree by the table
pub proof fn parses(g: bnf_Grammar, t: Table, src: Seq<u8>, s: bnf_Symbol, d: Der, p: int, q: int) -> (n: cst_Node)
    requires
        wf(g), table_of(g, t), plain(g, s), derives(g, s, d), spans(src, p, q, word(d)),
        s is SymbolNonTerminal ==> follow(g, rule_of(g, s->SymbolNonTerminal_0.Name), look(src, q)),
    ensures deriv(t, src, op_of(g, s), n), n_start(n) == p, n_end(n) == q, n == tree_of(g, s, d, p),
    decreases d, 0nat,
{
    match s {
        bnf_Symbol::SymbolTerminal(x) => mk(-1, p, q, Seq::empty()),
        bnf_Symbol::SymbolNonTerminal(v) => {
            let i = rule_of(g, v.Name);
            rule_of_props(g, v.Name);
            let k = d->Node_0; let ds = d->Node_1;
            let a = alt(g, i, k);
            assert(good_seq(g, a));
            assert(a.skip(0) =~= a);
            words_first(g, a, ds, 0);
            if p == q {
                assert(word(d).len() == 0);
                assert(claims(g, i, k, true, look(src, p)));
                claimed(g, t, i, k, true, look(src, p));
                let n = mk(i, p, p, one_nothing(p));
                n
            } else {
                let b = src[p];
                assert(word(d)[0] == src.subrange(p, q)[0] == b);
                assert(claims(g, i, k, false, b));
                claimed(g, t, i, k, false, b);
                assert(plain_seq(g, a)) by {
                    if a.len() == 1 && a[0] is SymbolNothing { assert(derives(g, a[0], ds[0])); reveal_with_fuel(words, 2); assert(word(d).len() == 0); }
                }
                let ns = parses_all(g, t, src, i, k, ds, 0, p, q);
                let n = mk(i, p, q, ns);
                let e = ops_of(g, a);
                assert forall|x: int| 0 <= x < ns.len() implies deriv(t, src, e[x], #[trigger] ns[x]) by { assert(deriv(t, src, op_of(g, a[0 + x]), ns[x])); }
                n
            }
        }
        _ => arbitrary(),
    }
}
pub proof fn parses_all(g: bnf_Grammar, t: Table, src: Seq<u8>, i: int, k: int, ds: Seq<Der>, x: nat, p: int, q: int) -> (ns: Seq<cst_Node>)
    requires
        wf(g), table_of(g, t), is_alt(g, i, k), plain_seq(g, alt(g, i, k)), derives_all(g, alt(g, i, k), ds), x <= ds.len(),
        spans(src, p, q, words(ds, x)), follow(g, i, look(src, q)),
    ensures
        ns.len() == ds.len() - x, tiles(ns, p, q), ns == trees_of(g, alt(g, i, k), ds, x, p),
        forall|y: int| 0 <= y < ns.len() ==> deriv(t, src, op_of(g, alt(g, i, k)[x + y]), #[trigger] ns[y]),
    decreases ds, ds.len() - x,
{
    let a = alt(g, i, k);
    if x >= ds.len() { return Seq::empty(); }
    let w = word(ds[x as int]); let v = words(ds, x + 1);
    let r = p + w.len();
    assert(src.subrange(p, q) == w + v);
    assert(src.subrange(p, r) =~= (w + v).subrange(0, w.len() as int)) by { assert(src.subrange(p, r) =~= src.subrange(p, q).subrange(0, w.len() as int)); }
    assert((w + v).subrange(0, w.len() as int) =~= w);
    assert(src.subrange(r, q) =~= (w + v).subrange(w.len() as int, (w + v).len() as int)) by { assert(src.subrange(r, q) =~= src.subrange(p, q).subrange(w.len() as int, q - p)); }
    assert((w + v).subrange(w.len() as int, (w + v).len() as int) =~= v);
    let s = a[x as int];
    assert(derives(g, s, ds[x as int]));
    if let bnf_Symbol::SymbolNonTerminal(z) = s {
        let j = rule_of(g, z.Name);
        rule_of_props(g, z.Name);
        words_first(g, a, ds, x + 1);
        let b = look(src, r);
        if v.len() > 0 { assert(src.subrange(r, q)[0] == src[r]); } else { assert(r == q); }
        assert(gives(g, row(follows(g), i), a, x as int, b));
        assert(alt_gives(g, follows(g), j, i, k, x as int, b));
        assert(flw_by(g, follows(g), j, b));
        follow_closed(g, j, b);
    }
    let n = parses(g, t, src, s, ds[x as int], p, r);
    let ms = parses_all(g, t, src, i, k, ds, x + 1, r, q);
    let ns = seq![n] + ms;
    assert forall|y: int| 0 <= y < ns.len() implies deriv(t, src, op_of(g, a[x + y]), #[trigger] ns[y]) by {
        if y > 0 { assert(ns[y] == ms[y - 1]); assert(deriv(t, src, op_of(g, a[x + 1 + (y - 1)]), ms[y - 1])); }
    }
    assert forall|y: int| 0 <= y < ns.len() - 1 implies n_end(#[trigger] ns[y]) == n_start(ns[y + 1]) by {
        if y > 0 { assert(ns[y] == ms[y - 1]); assert(ns[y + 1] == ms[y]); assert(n_end(ms[y - 1]) == n_start(ms[y - 1 + 1])); } else { assert(ns[1] == ms[0]); }
    }
    if ms.len() > 0 { assert(ns[ns.len() - 1] == ms[ms.len() - 1]); }
    ns
}

// ---- every parsed source is derived ---------------------------------------------------------
// what can vanish derives the empty word
pub proof fn vanishing(g: bnf_Grammar, n: nat, s: Seq<bnf_Symbol>) -> (ds: Seq<Der>)
    requires wf(g), seqf(g, lev(g, n), s, 0), good_seq(g, s) || plain_seq(g, s),
    ensures derives_all(g, s, ds), forall|x: nat| x <= ds.len() ==> #[trigger] words(ds, x) == Seq::<u8>::empty(),
    decreases n, s.len(),
{
    if s.len() == 0 {
        let ds = Seq::<Der>::empty();
        assert forall|x: nat| x <= ds.len() implies #[trigger] words(ds, x) == Seq::<u8>::empty() by { }
        return ds;
    }
    match s[0] {
        bnf_Symbol::SymbolNothing(_) => {
            assert(s.len() == 1) by { if plain_seq(g, s) { assert(plain(g, s[0])); } }
            let ds = seq![Der::Empty];
            assert forall|x: nat| x <= ds.len() implies #[trigger] words(ds, x) == Seq::<u8>::empty() by { reveal_with_fuel(words, 3); assert(words(ds, x) =~= Seq::<u8>::empty()); }
            ds
        }
        bnf_Symbol::SymbolNonTerminal(v) => {
            let r = rule_of(g, v.Name);
            assert(lev(g, n)(r, 0) && seqf(g, lev(g, n), s.drop_first(), 0));
            assert(n > 0);
            let m = (n - 1) as nat;
            assert(fst_by(g, lev(g, m), r, 0));
            let k = choose|k: int| altf(g, lev(g, m), r, k, 0);
            assert(good_seq(g, alt(g, r, k)));
            let kids = vanishing(g, m, alt(g, r, k));
            let d = Der::Node(k, kids);
            assert(words(kids, 0) == Seq::<u8>::empty());
            assert(plain_seq(g, s)) by { if s.len() == 1 { assert(plain(g, s[0])); } }
            assert(plain_seq(g, s.drop_first())) by { assert forall|x: int| 0 <= x < s.drop_first().len() implies plain(g, #[trigger] s.drop_first()[x]) by { assert(plain(g, s[x + 1])); } }
            let es = vanishing(g, n, s.drop_first());
            let ds = seq![d] + es;
            assert forall|x: int| 0 <= x < ds.len() implies derives(g, s[x], #[trigger] ds[x]) by { if x > 0 { assert(ds[x] == es[x - 1]); assert(derives(g, s.drop_first()[x - 1], es[x - 1])); } }
            assert forall|x: nat| x <= ds.len() implies #[trigger] words(ds, x) == Seq::<u8>::empty() by {
                if x > 0 { words_shift(d, es, x); } else { words_shift(d, es, 1); assert(words(ds, 1) == words(es, 0)); assert(words(ds, 0) =~= word(d) + words(ds, 1)); assert(words(ds, 0) =~= Seq::<u8>::empty()); }
            }
            ds
        }
        _ => { assert(false); arbitrary() }
    }
}
pub proof fn words_shift(d: Der, es: Seq<Der>, x: nat)
    requires 0 < x <= es.len() + 1,
    ensures words(seq![d] + es, x) == words(es, (x - 1) as nat),
    decreases es.len() + 1 - x,
{
    if x <= es.len() { words_shift(d, es, x + 1); assert((seq![d] + es)[x as int] == es[x - 1]); }
}

pub proof fn derived(g: bnf_Grammar, t: Table, src: Seq<u8>, s: bnf_Symbol, n: cst_Node) -> (d: Der)
    requires wf(g), table_of(g, t), plain(g, s), deriv(t, src, op_of(g, s), n),
    ensures derives(g, s, d), spans(src, n_start(n), n_end(n), word(d)),
    decreases n, 0nat,
{
    let y = n->node_0;
    match s {
        bnf_Symbol::SymbolTerminal(x) => Der::Text(x.Name),
        bnf_Symbol::SymbolNonTerminal(v) => {
            let i = rule_of(g, v.Name);
            rule_of_props(g, v.Name);
            let b = look(src, y.start);
            assert(fills(g, i, all_claims(), t.m[i]));
            let (k, e) = choose|k: int, e: bool| #[trigger] claims(g, i, k, e, b) && all_claims()(k, e, b);
            assert(t.m[i].m[b] == content(g, i, k, e));
            let a = alt(g, i, k);
            assert(good_seq(g, a));
            if e {
                let m = seqf_rank(g, a, 0);
                let ds = vanishing(g, m, a);
                assert(words(ds, 0) == Seq::<u8>::empty());
                assert(src.subrange(y.start, y.end) =~= Seq::<u8>::empty());
                Der::Node(k, ds)
            } else {
                assert(plain_seq(g, a)) by { if a.len() == 1 && a[0] is SymbolNothing { assert(b != 0); } }
                assert(y.childs.skip(0) =~= y.childs);
                assert(derivs(t, src, ops_of(g, a), y.childs));
                assert(a.skip(0) =~= a);
                let ds = derived_all(g, t, src, a, y.childs, 0, y.start, y.end);
                Der::Node(k, ds)
            }
        }
        _ => arbitrary(),
    }
}
// the derivations of the nodes from x on
pub proof fn derived_all(g: bnf_Grammar, t: Table, src: Seq<u8>, a: Seq<bnf_Symbol>, ns: Seq<cst_Node>, x: nat, p: int, q: int) -> (ds: Seq<Der>)
    requires
        wf(g), table_of(g, t), plain_seq(g, a), x <= ns.len(), 0 <= p <= src.len(),
        derivs(t, src, ops_of(g, a), ns), tiles(ns.skip(x as int), p, q),
    ensures derives_all(g, a.skip(x as int), ds), spans(src, p, q, words(ds, 0)),
    decreases ns, ns.len() - x,
{
    hide(wf); hide(table_of);
    let ks = ns.skip(x as int);
    if x == ns.len() {
        assert(src.subrange(p, q) =~= Seq::<u8>::empty());
        Seq::empty()
    } else {
        let n = ns[x as int];
        assert(ks[0] == n);
        assert(ops_of(g, a)[x as int] == op_of(g, a[x as int]));
        assert(plain(g, a[x as int]));
        assert(deriv(t, src, ops_of(g, a)[x as int], n));
        let d = derived(g, t, src, a[x as int], n);
        let r = n_end(n);
        tiles_rest(ns, x, p, q);
        let es = derived_all(g, t, src, a, ns, x + 1, r, q);
        let ds = seq![d] + es;
        assert(derives_all(g, a.skip(x as int), ds)) by {
            assert forall|y: int| 0 <= y < ds.len() implies derives(g, a.skip(x as int)[y], #[trigger] ds[y]) by {
                if y > 0 { assert(ds[y] == es[y - 1]); assert(derives(g, a.skip(x as int + 1)[y - 1], es[y - 1])); assert(a.skip(x as int)[y] == a.skip(x as int + 1)[y - 1]); }
            }
        }
        words_shift(d, es, 1);
        assert(words(ds, 0) == word(d) + words(es, 0)) by { assert(ds[0] == d); }
        assert(src.subrange(p, q) =~= src.subrange(p, r) + src.subrange(r, q));
        ds
    }
}
pub proof fn tiles_rest(ns: Seq<cst_Node>, x: nat, p: int, q: int)
    requires x < ns.len(), tiles(ns.skip(x as int), p, q),
    ensures n_start(ns[x as int]) == p, tiles(ns.skip(x as int + 1), n_end(ns[x as int]), q),
{
    let ks = ns.skip(x as int);
    let k2 = ns.skip(x as int + 1);
    assert forall|j: int| 0 <= j < k2.len() - 1 implies n_end(#[trigger] k2[j]) == n_start(k2[j + 1]) by { assert(k2[j] == ks[j + 1]); }
    if k2.len() > 0 { assert(k2[0] == ks[1]); assert(k2[k2.len() - 1] == ks[ks.len() - 1]); assert(n_end(ks[0]) == n_start(ks[0int + 1])); }
}

// the table derives a source exactly if the grammar does
pub proof fn same_language(g: bnf_Grammar, t: Table, src: Seq<u8>)
    requires wf(g), table_of(g, t),
    ensures (exists|n: cst_Node| parse_tree(t, src, n)) <==> in_language(g, src),
{
    let s = nt(head(g, 0));
    own_rule(g, 0);
    start_follow(g);
    if exists|n: cst_Node| parse_tree(t, src, n) {
        let n = choose|n: cst_Node| parse_tree(t, src, n);
        let d = derived(g, t, src, s, n);
        assert(src.subrange(0, src.len() as int) =~= src);
        assert(derivation_of(g, src, d));
    }
    if in_language(g, src) {
        let d = choose|d: Der| derivation_of(g, src, d);
        assert(src.subrange(0, src.len() as int) =~= src);
        let n = parses(g, t, src, s, d, 0, src.len() as int);
        assert(parse_tree(t, src, n));
    }
}

// the tree of a derivation of a source is the derivation by the table
pub proof fn built_tree(g: bnf_Grammar, t: Table, src: Seq<u8>, d: Der, n: cst_Node)
    requires wf(g), table_of(g, t), derivation_of(g, src, d), parse_tree(t, src, n),
    ensures n == tree_of(g, nt(head(g, 0)), d, 0),
{
    own_rule(g, 0);
    start_follow(g);
    assert(src.subrange(0, src.len() as int) =~= src);
    let m = parses(g, t, src, nt(head(g, 0)), d, 0, src.len() as int);
    assert(parse_tree(t, src, m));
    one_derivation(t, src, n, m);
}

// ---- the machine halts -----------------------------------------------------------------------
// from c the machine comes to an end, or it gets to r.2 with r.1 further products
pub open spec fn fails(t: Table, src: Seq<u8>, c: Cfg) -> bool { exists|k: nat| run(t, src, c, k) is Fail }
pub struct Got { pub ns: Seq<cst_Node>, pub q: int, pub m: nat }
pub open spec fn gets(t: Table, src: Seq<u8>, c: Cfg, rest: Seq<parser_ParserOp>, prods: Seq<cst_Node>, n: nat, r: Option<Got>) -> bool {
    match r {
        None => fails(t, src, c),
        Some(d) => d.ns.len() == n && c.pos <= d.q <= src.len() && leads(t, src, c, d.m, after(rest, prods + d.ns, d.q)),
    }
}
pub proof fn fails_later(t: Table, src: Seq<u8>, c: Cfg, m: nat, d: Cfg)
    requires leads(t, src, c, m, d), fails(t, src, d),
    ensures fails(t, src, c),
{
    let k = choose|k: nat| run(t, src, d, k) is Fail;
    assert(run(t, src, d, k) == run(t, src, c, m + k));
}
pub proof fn fails_now(t: Table, src: Seq<u8>, c: Cfg)
    requires step(t, src, c) is Fail,
    ensures fails(t, src, c),
{
    assert(run(t, src, c, 1) is Fail);
}
// first one thing, then another
pub proof fn gets_then(t: Table, src: Seq<u8>, c: Cfg, rest: Seq<parser_ParserOp>, prods: Seq<cst_Node>, n: nat, r: Got, rest2: Seq<parser_ParserOp>, n2: nat, r2: Option<Got>) -> (z: Option<Got>)
    requires gets(t, src, c, rest, prods, n, Some(r)), gets(t, src, after(rest, prods + r.ns, r.q), rest2, prods + r.ns, n2, r2),
    ensures
        gets(t, src, c, rest2, prods, n + n2, z), z is Some == r2 is Some, z is Some ==> z->0.q == r2->0.q,
{
    let c1 = after(rest, prods + r.ns, r.q);
    match r2 {
        None => { fails_later(t, src, c, r.m, c1); None }
        Some(d) => {
            leads_trans(t, src, c, r.m, c1, d.m, after(rest2, prods + r.ns + d.ns, d.q));
            assert(prods + r.ns + d.ns =~= prods + (r.ns + d.ns));
            Some(Got { ns: r.ns + d.ns, q: d.q, m: r.m + d.m })
        }
    }
}
// the bytes of a literal
pub proof fn chars_end(t: Table, src: Seq<u8>, v: Seq<u8>, rest: Seq<parser_ParserOp>, prods: Seq<cst_Node>, p: int) -> (r: Option<Got>)
    requires 0 <= p <= src.len(),
    ensures
        gets(t, src, after(rest + chars(v).reverse(), prods, p), rest, prods, v.len(), r),
        r is Some ==> r->0.q == p + v.len() && forall|i: int| 0 <= i < r->0.ns.len() ==> is_lit(#[trigger] r->0.ns[i]),
    decreases v.len(),
{
    let c0 = after(rest + chars(v).reverse(), prods, p);
    if v.len() == 0 {
        assert(c0.ops =~= rest);
        assert(prods + Seq::<cst_Node>::empty() =~= prods);
        assert(leads(t, src, c0, 0, c0));
        Some(Got { ns: Seq::empty(), q: p, m: 0 })
    } else {
        let w = v.drop_first();
        let l = mk(-1, p, p + 1, Seq::empty());
        let c1 = after(rest + chars(w).reverse(), prods.push(l), p + 1);
        assert(c0.ops.last() == op_c(v[0]));
        assert(c0.ops.drop_last() =~= rest + chars(w).reverse());
        if step(t, src, c0) is Fail { fails_now(t, src, c0); return None; }
        assert(step(t, src, c0) == StepR::Next(c1));
        leads_one(t, src, c0);
        let r2 = chars_end(t, src, w, rest, prods.push(l), p + 1);
        assert(prods + seq![l] =~= prods.push(l));
        let z = gets_then(t, src, c0, rest + chars(w).reverse(), prods, 1, Got { ns: seq![l], q: p + 1, m: 1 }, rest, w.len(), r2);
        match r2 {
            None => None,
            Some(d) => {
                let ns = seq![l] + d.ns;
                leads_trans(t, src, c0, 1, c1, d.m, after(rest, prods.push(l) + d.ns, d.q));
                assert(prods.push(l) + d.ns =~= prods + ns);
                assert forall|i: int| 0 <= i < ns.len() implies is_lit(#[trigger] ns[i]) by { if i > 0 { assert(ns[i] == d.ns[i - 1]); } }
                Some(Got { ns: ns, q: d.q, m: 1 + d.m })
            }
        }
    }
}
// the function on top of the stack after its products
pub proof fn reduced(t: Table, src: Seq<u8>, c: Cfg, f: parser_ParserOp, rest: Seq<parser_ParserOp>, prods: Seq<cst_Node>, r: Got) -> (z: Option<Got>)
    requires
        f is function_t, f->function_t_0.amount == r.ns.len(),
        f->function_t_0.name == -1 ==> forall|i: int| 0 <= i < r.ns.len() ==> is_lit(#[trigger] r.ns[i]),
        gets(t, src, c, rest.push(f), prods, r.ns.len(), Some(r)),
    ensures z is Some, z->0.q == r.q, gets(t, src, c, rest, prods, 1, z),
{
    let c1 = after(rest.push(f), prods + r.ns, r.q);
    assert(c1.ops.last() == f && c1.ops.drop_last() =~= rest);
    let k = prods.len() as int;
    assert(c1.prods.subrange(0, k) =~= prods);
    assert(c1.prods.subrange(k, c1.prods.len() as int) =~= r.ns);
    if r.ns.len() == 0 { assert(c1.prods =~= prods); }
    assert(step(t, src, c1) is Next);
    let d = step(t, src, c1)->Next_0;
    assert(d.prods.len() == prods.len() + 1);
    let n = d.prods.last();
    assert(d.prods =~= prods + seq![n]);
    leads_step(t, src, c, r.m, c1);
    assert(d == after(rest, prods + seq![n], r.q));
    Some(Got { ns: seq![n], q: r.q, m: r.m + 1 })
}
// a terminal
pub proof fn term_end(t: Table, src: Seq<u8>, v: Seq<u8>, rest: Seq<parser_ParserOp>, prods: Seq<cst_Node>, p: int) -> (r: Option<Got>)
    requires 0 <= p <= src.len(),
    ensures gets(t, src, before(rest, op_t(v), prods, p), rest, prods, 1, r), r is Some ==> r->0.q == p + v.len(),
{
    let c0 = before(rest, op_t(v), prods, p);
    let f = op_f(-1, p, v.len() as int);
    let c1 = after(rest.push(f) + chars(v).reverse(), prods, p);
    assert(c0.ops.last() == op_t(v) && c0.ops.drop_last() =~= rest);
    assert(step(t, src, c0) == StepR::Next(c1));
    leads_one(t, src, c0);
    match chars_end(t, src, v, rest.push(f), prods, p) {
        None => { fails_later(t, src, c0, 1, c1); None }
        Some(d) => {
            leads_trans(t, src, c0, 1, c1, d.m, after(rest.push(f), prods + d.ns, d.q));
            reduced(t, src, c0, f, rest, prods, Got { m: 1 + d.m, ..d })
        }
    }
}
// a nonterminal with the cell e, if the symbols of e get through
pub proof fn nt_end(t: Table, src: Seq<u8>, i: int, e: Seq<parser_ParserOp>, rest: Seq<parser_ParserOp>, prods: Seq<cst_Node>, p: int, r: Option<Got>) -> (z: Option<Got>)
    requires
        0 <= p <= src.len(), i >= 0, expand(t, i, look(src, p)) == Some(e),
        gets(t, src, after(rest.push(op_f(i, p, e.len() as int)) + e.reverse(), prods, p), rest.push(op_f(i, p, e.len() as int)), prods, e.len(), r),
    ensures gets(t, src, before(rest, op_nt(i), prods, p), rest, prods, 1, z), z is Some == r is Some, z is Some ==> z->0.q == r->0.q,
{
    let c0 = before(rest, op_nt(i), prods, p);
    let f = op_f(i, p, e.len() as int);
    let c1 = after(rest.push(f) + e.reverse(), prods, p);
    assert(c0.ops.last() == op_nt(i) && c0.ops.drop_last() =~= rest);
    assert(step(t, src, c0) == StepR::Next(c1));
    leads_one(t, src, c0);
    match r {
        None => { fails_later(t, src, c0, 1, c1); None }
        Some(d) => {
            leads_trans(t, src, c0, 1, c1, d.m, after(rest.push(f), prods + d.ns, d.q));
            reduced(t, src, c0, f, rest, prods, Got { m: 1 + d.m, ..d })
        }
    }
}
pub proof fn empty_end(t: Table, src: Seq<u8>, i: int, rest: Seq<parser_ParserOp>, prods: Seq<cst_Node>, p: int) -> (z: Option<Got>)
    requires 0 <= p <= src.len(), i >= 0, expand(t, i, look(src, p)) == Some(Seq::<parser_ParserOp>::empty()),
    ensures gets(t, src, before(rest, op_nt(i), prods, p), rest, prods, 1, z), z is Some, z->0.q == p,
{
    let e = Seq::<parser_ParserOp>::empty();
    let c1 = after(rest.push(op_f(i, p, 0)) + e.reverse(), prods, p);
    assert(c1.ops =~= rest.push(op_f(i, p, 0)));
    assert(prods + Seq::<cst_Node>::empty() =~= prods);
    assert(leads(t, src, c1, 0, c1));
    nt_end(t, src, i, e, rest, prods, p, Some(Got { ns: Seq::empty(), q: p, m: 0 }))
}
pub open spec fn ops_from(g: bnf_Grammar, i: int, k: int, x: nat) -> Seq<parser_ParserOp> { ops_of(g, alt(g, i, k)).skip(x as int) }

// rule i begins with b = the next byte: the machine fails or takes bytes
pub proof fn go_nt(g: bnf_Grammar, t: Table, src: Seq<u8>, i: int, n: nat, rest: Seq<parser_ParserOp>, prods: Seq<cst_Node>, p: int) -> (r: Option<Got>)
    requires wf(g), table_of(g, t), 0 <= p < src.len(), src[p] != 0, lev(g, n)(i, src[p]),
    ensures gets(t, src, before(rest, op_nt(i), prods, p), rest, prods, 1, r), r is Some ==> r->0.q > p,
    decreases src.len() - p, 0nat, n, 0nat,
{
    hide(wf); hide(table_of); hide(gets);
    let b = src[p];
    assert(n > 0);
    let m = (n - 1) as nat;
    assert(fst_by(g, lev(g, m), i, b));
    let k = choose|k: int| altf(g, lev(g, m), i, k, b);
    let a = alt(g, i, k);
    assert(below(lev(g, m), firsts(g))) by { assert forall|i: int, b: u8| #[trigger] lev(g, m)(i, b) implies firsts(g)(i, b) by { assert(lev_has(g, m, i, b)); } }
    seqf_mono(g, lev(g, m), firsts(g), a, b);
    claimed(g, t, i, k, false, b);
    let e = ops_of(g, a);
    let rest1 = rest.push(op_f(i, p, e.len() as int));
    assert(e.skip(0) =~= e); assert(a.skip(0) =~= a);
    let r = go_list(g, t, src, i, k, 0, m, rest1, prods, p);
    nt_end(t, src, i, e, rest, prods, p, r)
}
pub proof fn go_list(g: bnf_Grammar, t: Table, src: Seq<u8>, i: int, k: int, x: nat, n: nat, rest: Seq<parser_ParserOp>, prods: Seq<cst_Node>, p: int) -> (r: Option<Got>)
    requires
        wf(g), table_of(g, t), is_alt(g, i, k), x <= alt(g, i, k).len(), 0 <= p < src.len(), src[p] != 0,
        seqf(g, lev(g, n), alt(g, i, k).skip(x as int), src[p]),
    ensures
        gets(t, src, after(rest + ops_from(g, i, k, x).reverse(), prods, p), rest, prods, (alt(g, i, k).len() - x) as nat, r), r is Some ==> r->0.q > p,
    decreases src.len() - p, 0nat, n, 1 + alt(g, i, k).len() - x,
{
    hide(table_of); hide(gets);
    let a = alt(g, i, k);
    let b = src[p];
    let s = a.skip(x as int);
    assert(s.len() > 0);
    assert(s[0] == a[x as int]);
    assert(s.drop_first() =~= a.skip(x as int + 1));
    assert(good_seq(g, a));
    let o = op_of(g, a[x as int]);
    let rest1 = rest + ops_from(g, i, k, x + 1).reverse();
    let c0 = after(rest + ops_from(g, i, k, x).reverse(), prods, p);
    assert(c0.ops =~= rest1.push(o));
    assert(c0 == before(rest1, o, prods, p));
    assert(below(lev(g, n), firsts(g))) by { assert forall|i: int, b: u8| #[trigger] lev(g, n)(i, b) implies firsts(g)(i, b) by { assert(lev_has(g, n, i, b)); } }
    match a[x as int] {
        bnf_Symbol::SymbolTerminal(z) => {
            let r = term_end(t, src, z.Name, rest1, prods, p);
            match r { None => { gets_none(t, src, c0, rest1, prods, 1, rest, (a.len() - x) as nat); None } Some(d) => {
                gets_mono(t, src, c0, rest1, prods, 1, r);
                let r2 = any_list(g, t, src, i, k, x + 1, rest, prods + d.ns, d.q);
                gets_mono(t, src, after(rest1, prods + d.ns, d.q), rest, prods + d.ns, (a.len() - x - 1) as nat, r2);
                gets_then(t, src, c0, rest1, prods, 1, d, rest, (a.len() - x - 1) as nat, r2)
            } }
        }
        bnf_Symbol::SymbolNonTerminal(v) => {
            let j = rule_of(g, v.Name);
            rule_of_props(g, v.Name);
            if lev(g, n)(j, b) {
                let r = go_nt(g, t, src, j, n, rest1, prods, p);
                match r { None => { gets_none(t, src, c0, rest1, prods, 1, rest, (a.len() - x) as nat); None } Some(d) => {
                    gets_mono(t, src, c0, rest1, prods, 1, r);
                    let r2 = any_list(g, t, src, i, k, x + 1, rest, prods + d.ns, d.q);
                    gets_mono(t, src, after(rest1, prods + d.ns, d.q), rest, prods + d.ns, (a.len() - x - 1) as nat, r2);
                    gets_then(t, src, c0, rest1, prods, 1, d, rest, (a.len() - x - 1) as nat, r2)
                } }
            } else {
                // rule j vanishes before b
                assert(lev(g, n)(j, 0) && seqf(g, lev(g, n), s.drop_first(), b));
                seqf_mono(g, lev(g, n), firsts(g), s.drop_first(), b);
                assert(gives(g, row(follows(g), i), a, x as int, b));
                assert(alt_gives(g, follows(g), j, i, k, x as int, b));
                assert(flw_by(g, follows(g), j, b));
                follow_closed(g, j, b);
                assert(n > 0);
                let m = (n - 1) as nat;
                assert(fst_by(g, lev(g, m), j, 0));
                let h = choose|h: int| altf(g, lev(g, m), j, h, 0);
                assert(below(lev(g, m), firsts(g))) by { assert forall|i: int, b: u8| #[trigger] lev(g, m)(i, b) implies firsts(g)(i, b) by { assert(lev_has(g, m, i, b)); } }
                seqf_mono(g, lev(g, m), firsts(g), alt(g, j, h), 0);
                claimed(g, t, j, h, true, b);
                let z = empty_end(t, src, j, rest1, prods, p); let d = z->0;
                let r2 = go_list(g, t, src, i, k, x + 1, n, rest, prods + d.ns, p);
                gets_then(t, src, c0, rest1, prods, 1, d, rest, (a.len() - x - 1) as nat, r2)
            }
        }
        _ => { assert(false); None }
    }
}
pub proof fn gets_none(t: Table, src: Seq<u8>, c: Cfg, rest: Seq<parser_ParserOp>, prods: Seq<cst_Node>, n: nat, rest2: Seq<parser_ParserOp>, n2: nat)
    requires gets(t, src, c, rest, prods, n, None),
    ensures gets(t, src, c, rest2, prods, n2, None),
{ }
pub proof fn gets_mono(t: Table, src: Seq<u8>, c: Cfg, rest: Seq<parser_ParserOp>, prods: Seq<cst_Node>, n: nat, r: Option<Got>)
    requires gets(t, src, c, rest, prods, n, r),
    ensures r is Some ==> src.len() >= r->0.q >= c.pos && r->0.ns.len() == n,
{ }
pub proof fn any_nt(g: bnf_Grammar, t: Table, src: Seq<u8>, i: int, rest: Seq<parser_ParserOp>, prods: Seq<cst_Node>, p: int) -> (r: Option<Got>)
    requires wf(g), table_of(g, t), is_rule(g, i), 0 <= p <= src.len(),
    ensures gets(t, src, before(rest, op_nt(i), prods, p), rest, prods, 1, r),
    decreases src.len() - p, 1nat, 0nat, 0nat,
{
    hide(wf); hide(gets);
    let b = look(src, p);
    let c0 = before(rest, op_nt(i), prods, p);
    if expand(t, i, b) is None {
        assert(c0.ops.last() == op_nt(i) && c0.ops.drop_last() =~= rest);
        fails_now(t, src, c0);
        assert(gets(t, src, c0, rest, prods, 1, None)) by { reveal(gets); }
        return None;
    }
    assert(fills(g, i, all_claims(), t.m[i]));
    let (k, e) = choose|k: int, e: bool| #[trigger] claims(g, i, k, e, b) && all_claims()(k, e, b);
    assert(t.m[i].m[b] == content(g, i, k, e));
    if e {
        empty_end(t, src, i, rest, prods, p)
    } else {
        assert(altf(g, firsts(g), i, k, b));
        first_closed(g, i, b);
        let n = choose|n: nat| lev_has(g, n, i, b);
        go_nt(g, t, src, i, n, rest, prods, p)
    }
}
pub proof fn any_list(g: bnf_Grammar, t: Table, src: Seq<u8>, i: int, k: int, x: nat, rest: Seq<parser_ParserOp>, prods: Seq<cst_Node>, p: int) -> (r: Option<Got>)
    requires wf(g), table_of(g, t), is_alt(g, i, k), plain_seq(g, alt(g, i, k)), x <= alt(g, i, k).len(), 0 <= p <= src.len(),
    ensures gets(t, src, after(rest + ops_from(g, i, k, x).reverse(), prods, p), rest, prods, (alt(g, i, k).len() - x) as nat, r),
    decreases src.len() - p, 1nat, 0nat, 1 + alt(g, i, k).len() - x,
{
    hide(table_of); hide(gets);
    let a = alt(g, i, k);
    let c0 = after(rest + ops_from(g, i, k, x).reverse(), prods, p);
    if x == a.len() {
        assert(c0.ops =~= rest);
        assert(prods + Seq::<cst_Node>::empty() =~= prods);
        assert(leads(t, src, c0, 0, c0));
        let r = Some(Got { ns: Seq::empty(), q: p, m: 0 });
        assert(gets(t, src, c0, rest, prods, 0, r)) by { reveal(gets); }
        return r;
    }
    assert(plain(g, a[x as int]));
    let o = op_of(g, a[x as int]);
    let rest1 = rest + ops_from(g, i, k, x + 1).reverse();
    assert(c0.ops =~= rest1.push(o));
    assert(c0 == before(rest1, o, prods, p));
    let r = match a[x as int] {
        bnf_Symbol::SymbolTerminal(z) => term_end(t, src, z.Name, rest1, prods, p),
        bnf_Symbol::SymbolNonTerminal(v) => { rule_of_props(g, v.Name); any_nt(g, t, src, rule_of(g, v.Name), rest1, prods, p) }
        _ => None,
    };
    match r { None => { gets_none(t, src, c0, rest1, prods, 1, rest, (a.len() - x) as nat); None } Some(d) => {
        gets_mono(t, src, c0, rest1, prods, 1, r);
        let r2 = any_list(g, t, src, i, k, x + 1, rest, prods + d.ns, d.q);
        gets_then(t, src, c0, rest1, prods, 1, d, rest, (a.len() - x - 1) as nat, r2)
    } }
}
// so the machine halts on every source
pub proof fn table_halts(g: bnf_Grammar, t: Table, src: Seq<u8>)
    requires wf(g), table_of(g, t),
    ensures halts(t, src),
{
    let rest = seq![op_eos()];
    let none = Seq::<cst_Node>::empty();
    let c0 = before(rest, op_nt(0), none, 0);
    assert(start_cfg().ops =~= c0.ops);
    match any_nt(g, t, src, 0, rest, none, 0) {
        None => { let k = choose|k: nat| run(t, src, c0, k) is Fail; assert(!(run(t, src, start_cfg(), k) is More)); }
        Some(d) => {
            let c1 = after(rest, none + d.ns, d.q);
            assert(c1.ops.last() == op_eos());
            assert(!(run(t, src, c1, 1) is More));
            assert(run(t, src, c1, 1) == run(t, src, c0, d.m + 1));
        }
    }
}

} // verus!
