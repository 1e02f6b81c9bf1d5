// The trees of the parser, and the search of the conversion on them.
verus! {

// ---- the search, by structure -----------------------------------------------------------
pub open spec fn fd(ig: spec_fn(int) -> bool, want: spec_fn(int) -> bool, n: cst_Node) -> Seq<cst_Node>
    decreases n, 0nat,
{
    match n {
        cst_Node::node(y) => if ig(y.typei) { Seq::empty() } else if want(y.typei) { Seq::empty().push(n) } else { fd_all(ig, want, y.childs, 0) },
        _ => Seq::empty(),
    }
}
pub open spec fn fd_all(ig: spec_fn(int) -> bool, want: spec_fn(int) -> bool, ks: Seq<cst_Node>, x: nat) -> Seq<cst_Node>
    decreases ks, ks.len() - x,
{
    if x >= ks.len() { Seq::empty() } else { fd(ig, want, ks[x as int]) + fd_all(ig, want, ks, x + 1) }
}
pub proof fn found_fd(ig: spec_fn(int) -> bool, want: spec_fn(int) -> bool, n: cst_Node, h: nat)
    requires shape(n), tree_h(n, h),
    ensures found(ig, want, n, h) == fd(ig, want, n),
    decreases h, 0nat, 0nat,
{
    let ks = node_childs(n);
    if !ig(node_type(n)) && !want(node_type(n)) {
        found_split(ig, want, ks, 0, (h - 1) as nat);
        assert(found_in(ig, want, ks, 0, (h - 1) as nat) + found_from(ig, want, ks, 0, (h - 1) as nat) =~= found_from(ig, want, ks, 0, (h - 1) as nat));
        found_fd_from(ig, want, ks, 0, (h - 1) as nat);
    }
}
pub proof fn found_fd_from(ig: spec_fn(int) -> bool, want: spec_fn(int) -> bool, ks: Seq<cst_Node>, x: nat, h: nat)
    requires forall|i: int| 0 <= i < ks.len() ==> shape(#[trigger] ks[i]) && tree_h(ks[i], h),
    ensures found_from(ig, want, ks, x, h) == fd_all(ig, want, ks, x),
    decreases h, 1nat, ks.len() - x,
{
    if x < ks.len() {
        found_fd(ig, want, ks[x as int], h);
        found_fd_from(ig, want, ks, x + 1, h);
    }
}
// trees of the parser are finite, and lie in the text
pub proof fn tree_h_more(n: cst_Node, h: nat, h2: nat)
    requires tree_h(n, h), h <= h2,
    ensures tree_h(n, h2),
    decreases h,
{
    assert forall|i: int| 0 <= i < node_childs(n).len() implies tree_h(#[trigger] node_childs(n)[i], (h2 - 1) as nat) by { tree_h_more(node_childs(n)[i], (h - 1) as nat, (h2 - 1) as nat); }
}
pub proof fn shape_height(n: cst_Node, m: int) -> (h: nat)
    requires shape(n), n_end(n) <= m,
    ensures tree_h(n, h), in_text(n, m, h),
    decreases n, 0nat,
{
    let ks = n->node_0.childs;
    assert forall|i: int| 0 <= i < ks.len() implies n_end(#[trigger] ks[i]) <= m by { bound(ks, n_start(n), n_end(n), i as nat); }
    let h = shape_heights(ks, 0, m);
    h + 1
}
pub proof fn shape_heights(ks: Seq<cst_Node>, x: nat, m: int) -> (h: nat)
    requires forall|i: int| 0 <= i < ks.len() ==> shape(#[trigger] ks[i]) && n_end(ks[i]) <= m,
    ensures forall|i: int| x <= i < ks.len() ==> tree_h(#[trigger] ks[i], h) && in_text(ks[i], m, h),
    decreases ks, ks.len() - x,
{
    if x >= ks.len() { 0 } else {
        let a = shape_height(ks[x as int], m);
        let b = shape_heights(ks, x + 1, m);
        let h = if a <= b { b } else { a };
        assert forall|i: int| x <= i < ks.len() implies tree_h(#[trigger] ks[i], h) && in_text(ks[i], m, h) by {
            let c = if i == x { a } else { b };
            tree_h_more(ks[i], c, h);
            in_text_any(ks[i], m, c, h);
        }
        h
    }
}
pub proof fn shape_of_text(n: cst_Node, m: int)
    requires shape(n), n_end(n) <= m,
    ensures tree_of_text(n, m),
{
    let h = shape_height(n, m);
    assert(is_tree(n));
    depth_ok(n);
    in_text_any(n, m, h, tree_depth(n));
}
pub proof fn hits_fd(ig: spec_fn(int) -> bool, want: spec_fn(int) -> bool, n: cst_Node)
    requires shape(n),
    ensures hits(ig, want, n) == fd(ig, want, n),
{
    shape_of_text(n, n_end(n));
    depth_ok(n);
    found_fd(ig, want, n, tree_depth(n));
}

// ---- trees of derivations -----------------------------------------------------------------
// a defined nonterminal or a terminal
pub open spec fn usable(g: bnf_Grammar, s: bnf_Symbol) -> bool {
    match s { bnf_Symbol::SymbolTerminal(_) => true, bnf_Symbol::SymbolNonTerminal(v) => rule_of(g, v.Name) >= 0, _ => false }
}
pub proof fn tree_shape(g: bnf_Grammar, s: bnf_Symbol, d: Der, p: int)
    requires wf(g), derives(g, s, d), usable(g, s), p >= 0,
    ensures shape(tree_of(g, s, d, p)), n_start(tree_of(g, s, d, p)) == p, n_end(tree_of(g, s, d, p)) == p + word(d).len(),
    decreases d, 0nat,
{
    if let Der::Node(k, ds) = d {
        let i = rule_of(g, s->SymbolNonTerminal_0.Name);
        let a = alt(g, i, k);
        assert(good_seq(g, a));
        if word(d).len() == 0 {
            let m = mk(-2, p, p, Seq::empty());
            assert(one_nothing(p) =~= seq![m]);
            assert(shape(m));
        } else {
            assert(plain_seq(g, a)) by {
                if a.len() == 1 && a[0] is SymbolNothing { assert(derives(g, a[0], ds[0])); assert(ds[0] is Empty); assert(words(ds, 1) =~= Seq::<u8>::empty()); assert(words(ds, 0) == word(ds[0]) + words(ds, 1)); assert(word(d).len() == 0); }
            }
            trees_shape(g, a, ds, 0, p);
        }
    }
}
pub proof fn trees_shape(g: bnf_Grammar, a: Seq<bnf_Symbol>, ds: Seq<Der>, x: nat, p: int)
    requires wf(g), derives_all(g, a, ds), plain_seq(g, a), p >= 0, x <= ds.len(),
    ensures
        trees_of(g, a, ds, x, p).len() == ds.len() - x, tiles(trees_of(g, a, ds, x, p), p, p + words(ds, x).len()),
        forall|y: int| 0 <= y < ds.len() - x ==> shape(#[trigger] trees_of(g, a, ds, x, p)[y]),
    decreases ds, ds.len() - x,
{
    if x < ds.len() {
        let n = tree_of(g, a[x as int], ds[x as int], p);
        let q = p + word(ds[x as int]).len();
        let ms = trees_of(g, a, ds, x + 1, q);
        let ns = trees_of(g, a, ds, x, p);
        assert(derives(g, a[x as int], ds[x as int]));
        assert(plain(g, a[x as int]));
        tree_shape(g, a[x as int], ds[x as int], p);
        trees_shape(g, a, ds, x + 1, q);
        assert(ns == seq![n] + ms);
        assert forall|y: int| 0 <= y < ns.len() implies shape(#[trigger] ns[y]) by { if y > 0 { assert(ns[y] == ms[y - 1]); } }
        assert forall|y: int| 0 <= y < ns.len() - 1 implies n_end(#[trigger] ns[y]) == n_start(ns[y + 1]) by {
            if y > 0 { assert(ns[y] == ms[y - 1]); assert(ns[y + 1] == ms[y]); assert(n_end(ms[y - 1]) == n_start(ms[y - 1 + 1])); } else { assert(ns[1] == ms[0]); }
        }
        if ms.len() > 0 { assert(ns[ns.len() - 1] == ms[ms.len() - 1]); }
    }
}
pub proof fn hits_tree(g: bnf_Grammar, ig: spec_fn(int) -> bool, want: spec_fn(int) -> bool, s: bnf_Symbol, d: Der, p: int)
    requires wf(g), derives(g, s, d), usable(g, s), p >= 0,
    ensures hits(ig, want, tree_of(g, s, d, p)) == fd(ig, want, tree_of(g, s, d, p)),
{
    tree_shape(g, s, d, p);
    hits_fd(ig, want, tree_of(g, s, d, p));
}
// what is found in the trees of the parts of an alternative
pub open spec fn fds(g: bnf_Grammar, ig: spec_fn(int) -> bool, want: spec_fn(int) -> bool, a: Seq<bnf_Symbol>, ds: Seq<Der>, p: int) -> Seq<cst_Node>
    decreases ds.len(),
{
    if ds.len() == 0 { Seq::empty() } else {
        fds(g, ig, want, a, ds.drop_last(), p) + fd(ig, want, tree_of(g, a[ds.len() - 1], ds.last(), p + words(ds.drop_last(), 0).len()))
    }
}
pub proof fn words_push(ds: Seq<Der>, d: Der, x: nat)
    requires x <= ds.len(),
    ensures words(ds.push(d), x) == words(ds, x) + word(d),
    decreases ds.len() - x,
{
    let es = ds.push(d);
    if x < ds.len() {
        words_push(ds, d, x + 1);
        assert(es[x as int] == ds[x as int]);
        assert(word(ds[x as int]) + (words(ds, x + 1) + word(d)) =~= word(ds[x as int]) + words(ds, x + 1) + word(d));
    } else {
        assert(es[x as int] == d);
        assert(words(es, x + 1) =~= Seq::<u8>::empty());
        assert(words(es, x) == word(d) + words(es, x + 1));
        assert(word(d) + Seq::<u8>::empty() =~= Seq::<u8>::empty() + word(d));
    }
}
pub proof fn trees_push(g: bnf_Grammar, a: Seq<bnf_Symbol>, ds: Seq<Der>, d: Der, x: nat, p: int)
    requires x <= ds.len(),
    ensures trees_of(g, a, ds.push(d), x, p) == trees_of(g, a, ds, x, p).push(tree_of(g, a[ds.len() as int], d, p + words(ds, x).len())),
    decreases ds.len() - x,
{
    let es = ds.push(d);
    let l = tree_of(g, a[ds.len() as int], d, p + words(ds, x).len());
    if x < ds.len() {
        let q = p + word(ds[x as int]).len();
        trees_push(g, a, ds, d, x + 1, q);
        assert(es[x as int] == ds[x as int]);
        assert(p + words(ds, x).len() == q + words(ds, x + 1).len());
        let n = tree_of(g, a[x as int], ds[x as int], p);
        assert(seq![n] + trees_of(g, a, ds, x + 1, q).push(l) =~= (seq![n] + trees_of(g, a, ds, x + 1, q)).push(l));
    } else {
        assert(trees_of(g, a, es, x + 1, p + word(d).len()) =~= Seq::<cst_Node>::empty());
        assert(es[x as int] == d);
        assert(seq![l] + Seq::<cst_Node>::empty() =~= Seq::<cst_Node>::empty().push(l));
    }
}
pub proof fn fd_all_push(ig: spec_fn(int) -> bool, want: spec_fn(int) -> bool, ks: Seq<cst_Node>, n: cst_Node, x: nat)
    requires x <= ks.len(),
    ensures fd_all(ig, want, ks.push(n), x) == fd_all(ig, want, ks, x) + fd(ig, want, n),
    decreases ks.len() - x,
{
    let es = ks.push(n);
    if x < ks.len() {
        fd_all_push(ig, want, ks, n, x + 1);
        assert(es[x as int] == ks[x as int]);
        assert(fd(ig, want, ks[x as int]) + (fd_all(ig, want, ks, x + 1) + fd(ig, want, n)) =~= fd(ig, want, ks[x as int]) + fd_all(ig, want, ks, x + 1) + fd(ig, want, n));
    } else {
        assert(es[x as int] == n);
        assert(fd_all(ig, want, es, x + 1) =~= Seq::<cst_Node>::empty());
        assert(fd(ig, want, n) + Seq::<cst_Node>::empty() =~= Seq::<cst_Node>::empty() + fd(ig, want, n));
    }
}
pub proof fn fds_are(g: bnf_Grammar, ig: spec_fn(int) -> bool, want: spec_fn(int) -> bool, a: Seq<bnf_Symbol>, ds: Seq<Der>, p: int)
    ensures fd_all(ig, want, trees_of(g, a, ds, 0, p), 0) == fds(g, ig, want, a, ds, p),
    decreases ds.len(),
{
    if ds.len() > 0 {
        let es = ds.drop_last(); let d = ds.last();
        fds_are(g, ig, want, a, es, p);
        trees_push(g, a, es, d, 0, p);
        assert(es.push(d) =~= ds);
        fd_all_push(ig, want, trees_of(g, a, es, 0, p), tree_of(g, a[es.len() as int], d, p + words(es, 0).len()), 0);
    }
}
// one more part
pub proof fn fds_push(g: bnf_Grammar, ig: spec_fn(int) -> bool, want: spec_fn(int) -> bool, a: Seq<bnf_Symbol>, s: bnf_Symbol, ds: Seq<Der>, d: Der, p: int)
    requires a.len() == ds.len(),
    ensures fds(g, ig, want, a.push(s), ds.push(d), p) == fds(g, ig, want, a, ds, p) + fd(ig, want, tree_of(g, s, d, p + words(ds, 0).len())),
{
    assert(ds.push(d).drop_last() =~= ds);
    fds_prefix(g, ig, want, a, a.push(s), ds, p);
}
pub proof fn fds_prefix(g: bnf_Grammar, ig: spec_fn(int) -> bool, want: spec_fn(int) -> bool, a: Seq<bnf_Symbol>, b: Seq<bnf_Symbol>, ds: Seq<Der>, p: int)
    requires ds.len() <= a.len() <= b.len(), forall|i: int| 0 <= i < a.len() ==> a[i] == b[i],
    ensures fds(g, ig, want, a, ds, p) == fds(g, ig, want, b, ds, p),
    decreases ds.len(),
{
    if ds.len() > 0 { fds_prefix(g, ig, want, a, b, ds.drop_last(), p); }
}
pub proof fn all_push(g: bnf_Grammar, a: Seq<bnf_Symbol>, s: bnf_Symbol, ds: Seq<Der>, d: Der)
    requires derives_all(g, a, ds), derives(g, s, d),
    ensures derives_all(g, a.push(s), ds.push(d)), words(ds.push(d), 0) == words(ds, 0) + word(d),
{
    words_push(ds, d, 0);
    let es = ds.push(d);
    assert forall|x: int| 0 <= x < es.len() implies derives(g, a.push(s)[x], #[trigger] es[x]) by { if x < ds.len() { assert(es[x] == ds[x]); assert(derives(g, a[x], ds[x])); } }
}

// ---- nodes -------------------------------------------------------------------------------------
// what is found in the tree of a node
pub proof fn fd_node(g: bnf_Grammar, ig: spec_fn(int) -> bool, want: spec_fn(int) -> bool, name: Seq<u8>, i: int, a: Seq<bnf_Symbol>, ds: Seq<Der>, p: int)
    requires has_rule(g, name, i, a), derives_all(g, a, ds), !want(-2),
    ensures ({
        let d = Der::Node(place(g, i, a), ds);
        let n = tree_of(g, dn(name), d, p);
        n is node && n_type(n) == i && n_start(n) == p && n_end(n) == p + words(ds, 0).len()
        && fd(ig, want, n) == if ig(i) { Seq::empty() } else if want(i) { Seq::empty().push(n) } else if words(ds, 0).len() == 0 { Seq::empty() } else { fds(g, ig, want, a, ds, p) }
    }),
{
    named_rule_is(g, name);
    has_alt_props(g.Rules[i].Tail.Sequences, a, 0);
    fds_are(g, ig, want, a, ds, p);
    if words(ds, 0).len() == 0 {
        let m = mk(-2, p, p, Seq::empty());
        assert(one_nothing(p) =~= seq![m]);
        assert(fd(ig, want, m) =~= Seq::<cst_Node>::empty()) by { assert(fd_all(ig, want, Seq::<cst_Node>::empty(), 0) =~= Seq::<cst_Node>::empty()); }
        reveal_with_fuel(fd_all, 3);
        assert(fd_all(ig, want, one_nothing(p), 0) =~= Seq::<cst_Node>::empty());
    }
}
pub proof fn fd_leaf(g: bnf_Grammar, ig: spec_fn(int) -> bool, want: spec_fn(int) -> bool, w: Seq<u8>, p: int)
    ensures ({
        let n = tree_of(g, dt(w), Der::Text(w), p);
        n == mk(-1, p, p + w.len(), Seq::empty()) && fd(ig, want, n) == if ig(-1) || !want(-1) { Seq::empty() } else { Seq::empty().push(n) }
    }),
{
    assert(fd_all(ig, want, Seq::<cst_Node>::empty(), 0) =~= Seq::<cst_Node>::empty());
}

// ---- trees without certain types -------------------------------------------------------------------
// literals, nothing, and rules of a set
pub open spec fn of_rules(m: u128) -> spec_fn(int) -> bool { |k: int| k == -1 || k == -2 || (0 <= k < 128 && mem(m, k as u8)) }
pub open spec fn stays_seq(s: Seq<CS>, m: u128, x: int) -> bool
    decreases s.len() - x,
{
    if x < 0 || x >= s.len() { true } else { (match s[x] { CS::N(j) => 0 <= j < 128 && mem(m, j as u8), _ => true }) && stays_seq(s, m, x + 1) }
}
pub open spec fn stays_alts(a: Seq<Seq<CS>>, m: u128, k: int) -> bool
    decreases a.len() - k,
{
    if k < 0 || k >= a.len() { true } else { stays_seq(a[k], m, 0) && stays_alts(a, m, k + 1) }
}
// the rules of the set refer to rules of the set only
pub open spec fn stays(c: CG, m: u128, i: int) -> bool
    decreases c.len() - i,
{
    if i < 0 || i >= c.len() { true } else { (i < 128 && mem(m, i as u8) ==> stays_alts(c[i], m, 0)) && stays(c, m, i + 1) }
}
pub proof fn stays_seq_at(s: Seq<CS>, m: u128, x: int, y: int)
    requires stays_seq(s, m, x), 0 <= x <= y < s.len(),
    ensures match s[y] { CS::N(j) => 0 <= j < 128 && mem(m, j as u8), _ => true },
    decreases y - x,
{
    if x < y { stays_seq_at(s, m, x + 1, y); }
}
pub proof fn stays_alts_at(a: Seq<Seq<CS>>, m: u128, k: int, y: int)
    requires stays_alts(a, m, k), 0 <= k <= y < a.len(),
    ensures stays_seq(a[y], m, 0),
    decreases y - k,
{
    if k < y { stays_alts_at(a, m, k + 1, y); }
}
pub proof fn stays_at(c: CG, m: u128, i: int, y: int)
    requires stays(c, m, i), 0 <= i <= y < c.len(), y < 128, mem(m, y as u8),
    ensures stays_alts(c[y], m, 0),
    decreases y - i,
{
    if i < y { stays_at(c, m, i + 1, y); }
}
pub proof fn of_rules_tree(g: bnf_Grammar, m: u128, s: bnf_Symbol, d: Der, p: int)
    requires stays(comp(g), m, 0), derives(g, s, d), s is SymbolNonTerminal ==> of_rules(m)(rule_of(g, s->SymbolNonTerminal_0.Name)),
    ensures types_in(tree_of(g, s, d, p), of_rules(m)),
    decreases d, 0nat,
{
    if let Der::Node(k, ds) = d {
        let i = rule_of(g, s->SymbolNonTerminal_0.Name);
        if word(d).len() == 0 {
            let y = mk(-2, p, p, Seq::empty());
            assert(of_rules(m)(-2));
            assert(types_in(y, of_rules(m)));
            assert(one_nothing(p) =~= seq![y]);
            assert(tree_of(g, s, d, p) == mk(i, p, p, one_nothing(p)));
        } else {
            comp_at(g, i, k);
            stays_at(comp(g), m, 0, i);
            stays_alts_at(comp(g)[i], m, 0, k);
            of_rules_trees(g, m, i, k, ds, 0, p);
            let n = tree_of(g, s, d, p);
            assert(n == mk(i, p, p + word(d).len(), trees_of(g, alt(g, i, k), ds, 0, p)));
            assert(types_in(n, of_rules(m)));
        }
    } else { assert(of_rules(m)(-1) && of_rules(m)(-2)); assert(types_in(tree_of(g, s, d, p), of_rules(m))); }
}
pub proof fn of_rules_trees(g: bnf_Grammar, m: u128, i: int, k: int, ds: Seq<Der>, x: nat, p: int)
    requires stays(comp(g), m, 0), is_alt(g, i, k), derives_all(g, alt(g, i, k), ds), stays_seq(comp(g)[i][k], m, 0), x <= ds.len(),
    ensures forall|y: int| 0 <= y < trees_of(g, alt(g, i, k), ds, x, p).len() ==> types_in(#[trigger] trees_of(g, alt(g, i, k), ds, x, p)[y], of_rules(m)),
    decreases ds, ds.len() - x,
{
    if x < ds.len() {
        let a = alt(g, i, k);
        let q = p + word(ds[x as int]).len();
        assert(derives(g, a[x as int], ds[x as int]));
        comp_at(g, i, k);
        stays_seq_at(comp(g)[i][k], m, 0, x as int);
        assert(comp(g)[i][k][x as int] == csym(g, a[x as int]));
        if let bnf_Symbol::SymbolNonTerminal(v) = a[x as int] { named_rule_is(g, v.Name); }
        of_rules_tree(g, m, a[x as int], ds[x as int], p);
        of_rules_trees(g, m, i, k, ds, x + 1, q);
        let ms = trees_of(g, a, ds, x + 1, q);
        let ns = trees_of(g, a, ds, x, p);
        assert(ns == seq![tree_of(g, a[x as int], ds[x as int], p)] + ms);
        assert forall|y: int| 0 <= y < ns.len() implies types_in(#[trigger] ns[y], of_rules(m)) by { if y > 0 { assert(ns[y] == ms[y - 1]); } }
    }
}
pub proof fn no_hits(ig: spec_fn(int) -> bool, want: spec_fn(int) -> bool, n: cst_Node, ok: spec_fn(int) -> bool)
    requires types_in(n, ok), forall|k: int| #[trigger] ok(k) ==> !want(k),
    ensures fd(ig, want, n) == Seq::<cst_Node>::empty(),
    decreases n, 0nat,
{
    let y = n->node_0;
    assert(ok(y.typei));
    if !ig(y.typei) { no_hits_in(ig, want, y.childs, 0, ok); }
}
pub proof fn no_hits_in(ig: spec_fn(int) -> bool, want: spec_fn(int) -> bool, ks: Seq<cst_Node>, x: nat, ok: spec_fn(int) -> bool)
    requires forall|i: int| 0 <= i < ks.len() ==> types_in(#[trigger] ks[i], ok), forall|k: int| #[trigger] ok(k) ==> !want(k),
    ensures fd_all(ig, want, ks, x) == Seq::<cst_Node>::empty(),
    decreases ks, ks.len() - x,
{
    if x < ks.len() {
        no_hits(ig, want, ks[x as int], ok);
        no_hits_in(ig, want, ks, x + 1, ok);
        assert(Seq::<cst_Node>::empty() + Seq::<cst_Node>::empty() =~= Seq::<cst_Node>::empty());
    }
}
// nothing of a wanted type in a derivation by the rules of m
pub proof fn none_there(g: bnf_Grammar, m: u128, ig: spec_fn(int) -> bool, want: spec_fn(int) -> bool, s: bnf_Symbol, d: Der, p: int)
    requires
        stays(comp(g), m, 0), derives(g, s, d), s is SymbolNonTerminal ==> of_rules(m)(rule_of(g, s->SymbolNonTerminal_0.Name)),
        forall|k: int| #[trigger] of_rules(m)(k) ==> !want(k),
    ensures fd(ig, want, tree_of(g, s, d, p)) == Seq::<cst_Node>::empty(),
{
    of_rules_tree(g, m, s, d, p);
    no_hits(ig, want, tree_of(g, s, d, p), of_rules(m));
}

// ---- gathering ----------------------------------------------------------------------------------
pub proof fn gather_cat<T>(f: spec_fn(cst_Node) -> Option<Seq<T>>, a: Seq<cst_Node>, b: Seq<cst_Node>)
    ensures gather(f, a + b) == match (gather(f, a), gather(f, b)) { (Some(x), Some(y)) => Some(x + y), _ => None },
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        if gather(f, a) is Some { assert(gather(f, a)->0 + Seq::<T>::empty() =~= gather(f, a)->0); }
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        gather_cat(f, a, b.drop_last());
        if gather(f, a) is Some && gather(f, b) is Some {
            let x = gather(f, a)->0; let y = gather(f, b.drop_last())->0; let z = f(b.last())->0;
            assert(x + y + z =~= x + (y + z));
        }
    }
}
pub proof fn gather_one<T>(f: spec_fn(cst_Node) -> Option<Seq<T>>, n: cst_Node)
    ensures gather(f, Seq::empty().push(n)) == f(n),
{
    let l = Seq::empty().push(n);
    assert(l.drop_last() =~= Seq::<cst_Node>::empty());
    assert(gather(f, l.drop_last()) == Some(Seq::<T>::empty()));
    if f(n) is Some { assert(Seq::<T>::empty() + f(n)->0 =~= f(n)->0); }
}

} // verus!
