// From trees to grammars: what the conversion reads off a tree.
verus! {

// ---- functions over nodes --------------------------------------------------------
pub trait FnNode: Sized {
    spec fn pre(self, n: cst_Node) -> bool;
    spec fn step(self, n: cst_Node, ret: Err, post: Self) -> bool;
    fn call(Ghost(s_): Ghost<Self>, Ghost(n): Ghost<cst_Node>) -> (r: Ghost<(Err, Self)>)
        requires s_.pre(n),
        ensures s_.step(n, r@.0, r@.1),
    ;
}

pub open spec fn node_type(n: cst_Node) -> int { match n { cst_Node::node(x) => x.typei, cst_Node::Other(x) => other_cst_Node_Type(x), cst_Node::Nil => 0 } }
pub open spec fn node_pos(n: cst_Node) -> int { match n { cst_Node::node(x) => x.start, cst_Node::Other(x) => other_cst_Node_Pos(x), cst_Node::Nil => 0 } }
pub open spec fn node_end(n: cst_Node) -> int { match n { cst_Node::node(x) => x.end, cst_Node::Other(x) => other_cst_Node_End(x), cst_Node::Nil => 0 } }

// ---- the search ------------------------------------------------------------------------
// the topmost nodes of a wanted type, in pre-order, outside of ignored nodes
pub open spec fn found(ig: spec_fn(int) -> bool, want: spec_fn(int) -> bool, n: cst_Node, h: nat) -> Seq<cst_Node>
    decreases h, 0nat, 0nat,
{
    if h == 0 || ig(node_type(n)) { Seq::empty() }
    else if want(node_type(n)) { Seq::empty().push(n) }
    else { found_in(ig, want, node_childs(n), node_childs(n).len(), (h - 1) as nat) }
}
pub open spec fn found_in(ig: spec_fn(int) -> bool, want: spec_fn(int) -> bool, cs: Seq<cst_Node>, k: nat, h: nat) -> Seq<cst_Node>
    decreases h, 1nat, k,
{
    if k == 0 { Seq::empty() } else { found_in(ig, want, cs, (k - 1) as nat, h) + found(ig, want, cs[k - 1], h) }
}
pub open spec fn hits(ig: spec_fn(int) -> bool, want: spec_fn(int) -> bool, n: cst_Node) -> Seq<cst_Node> { found(ig, want, n, tree_depth(n)) }

// ---- the visitor that searches ---------------------------------------------------------
pub struct fromcst_flexVisitor_cell<F> { pub fOnNode: F, pub err: Err }

pub open spec fn vis_pre_fromcst_flexVisitor<F: FnNode>(v: fromcst_flexVisitor, n: cst_Node, w: fromcst_flexVisitor_cell<F>) -> bool {
    !(n is Nil) && (w.err is Nil && !(v.isTypeIgnored)(node_type(n)) && (v.isSearchedType)(node_type(n)) ==> w.fOnNode.pre(n))
}
pub open spec fn vis_post_fromcst_flexVisitor<F: FnNode>(v: fromcst_flexVisitor, n: cst_Node, w: fromcst_flexVisitor_cell<F>, w2: fromcst_flexVisitor_cell<F>, r: Option<fromcst_flexVisitor>) -> bool {
    if !(w.err is Nil) || (v.isTypeIgnored)(node_type(n)) { w2 == w && r is None }
    else if (v.isSearchedType)(node_type(n)) { w.fOnNode.step(n, w2.err, w2.fOnNode) && r is None }
    else { w2 == w && r == Some(v) }
}
pub type Cell<F> = fromcst_flexVisitor_cell<F>;

// the function meets n: nothing after an error
pub open spec fn meets<F: FnNode>(n: cst_Node, w: Cell<F>, w2: Cell<F>) -> bool {
    if w.err is Nil { w.fOnNode.step(n, w2.err, w2.fOnNode) } else { w2 == w }
}
// ... each of l in turn
pub open spec fn runs<F: FnNode>(l: Seq<cst_Node>, w: Cell<F>, w2: Cell<F>) -> bool
    decreases l.len(),
{
    if l.len() == 0 { w2 == w } else { exists|m: Cell<F>| runs(l.drop_last(), w, m) && #[trigger] meets(l.last(), m, w2) }
}
pub open spec fn runs_ok<F: FnNode>(l: Seq<cst_Node>, w: Cell<F>) -> bool {
    forall|i: int, m: Cell<F>| 0 <= i < l.len() && #[trigger] runs(l.take(i), w, m) && m.err is Nil ==> m.fOnNode.pre(l[i])
}
pub proof fn runs_trans<F: FnNode>(a: Seq<cst_Node>, b: Seq<cst_Node>, w: Cell<F>, m: Cell<F>, w2: Cell<F>)
    requires runs(a, w, m), runs(b, m, w2),
    ensures runs(a + b, w, w2),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        let x = choose|x: Cell<F>| runs(b.drop_last(), m, x) && #[trigger] meets(b.last(), x, w2);
        runs_trans(a, b.drop_last(), w, m, x);
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(runs((a + b).drop_last(), w, x) && meets((a + b).last(), x, w2));
    }
}
// after a + b: what follows a
pub proof fn runs_ok_next<F: FnNode>(a: Seq<cst_Node>, b: Seq<cst_Node>, w: Cell<F>, m: Cell<F>)
    requires runs_ok(a + b, w), runs(a, w, m),
    ensures runs_ok(b, m),
{
    assert forall|i: int, x: Cell<F>| 0 <= i < b.len() && #[trigger] runs(b.take(i), m, x) && x.err is Nil implies x.fOnNode.pre(b[i]) by {
        runs_trans(a, b.take(i), w, m, x);
        assert(a + b.take(i) =~= (a + b).take(a.len() + i));
        assert((a + b)[a.len() + i] == b[i]);
    }
}
pub proof fn runs_ok_first<F: FnNode>(a: Seq<cst_Node>, b: Seq<cst_Node>, w: Cell<F>)
    requires runs_ok(a + b, w),
    ensures runs_ok(a, w),
{
    assert forall|i: int, x: Cell<F>| 0 <= i < a.len() && #[trigger] runs(a.take(i), w, x) && x.err is Nil implies x.fOnNode.pre(a[i]) by {
        assert((a + b).take(i) =~= a.take(i));
        assert((a + b)[i] == a[i]);
    }
}
pub proof fn runs_err<F: FnNode>(l: Seq<cst_Node>, w: Cell<F>)
    requires !(w.err is Nil),
    ensures runs(l, w, w),
    decreases l.len(),
{
    if l.len() > 0 { runs_err(l.drop_last(), w); assert(runs(l.drop_last(), w, w) && meets(l.last(), w, w)); }
}
pub type VF<F> = Vis_fromcst_flexVisitor<F>;

// a walk of the visitor runs the function over what the search hits
pub proof fn walk_hits<F: FnNode>(v: fromcst_flexVisitor, n: cst_Node, h: nat, w: Cell<F>, w2: Cell<F>)
    requires walk_rel::<VF<F>>(v, n, h, w, w2),
    ensures runs(found(v.isTypeIgnored, v.isSearchedType, n, h), w, w2),
    decreases h, 0nat, 0nat,
{
    let l = found(v.isTypeIgnored, v.isSearchedType, n, h);
    let (wm, r) = choose|wm: Cell<F>, r: Option<fromcst_flexVisitor>| #[trigger] <VF<F> as cst_Visitor_Tr>::vpost(v, n, w, wm, r) && match r {
        None => w2 == wm,
        Some(u) => walk_kids::<VF<F>>(u, node_childs(n), node_childs(n).len(), (h - 1) as nat, wm, w2),
    };
    assert(vis_post_fromcst_flexVisitor::<F>(v, n, w, wm, r));
    if !(w.err is Nil) { runs_err(l, w); }
    else if (v.isTypeIgnored)(node_type(n)) { }
    else if (v.isSearchedType)(node_type(n)) {
        assert(l.drop_last() =~= Seq::<cst_Node>::empty());
        assert(runs(l.drop_last(), w, w) && meets(l.last(), w, w2));
    } else {
        walk_hits_in::<F>(v, node_childs(n), node_childs(n).len(), (h - 1) as nat, wm, w2);
    }
}
pub proof fn walk_hits_in<F: FnNode>(v: fromcst_flexVisitor, cs: Seq<cst_Node>, k: nat, h: nat, w: Cell<F>, w2: Cell<F>)
    requires walk_kids::<VF<F>>(v, cs, k, h, w, w2),
    ensures runs(found_in(v.isTypeIgnored, v.isSearchedType, cs, k, h), w, w2),
    decreases h, 1nat, k,
{
    if k > 0 {
        let wm = choose|wm: Cell<F>| #[trigger] mark(wm) && walk_kids::<VF<F>>(v, cs, (k - 1) as nat, h, w, wm) && walk_rel::<VF<F>>(v, cs[k - 1], h, wm, w2);
        walk_hits_in::<F>(v, cs, (k - 1) as nat, h, w, wm);
        walk_hits::<F>(v, cs[k - 1], h, wm, w2);
        runs_trans(found_in(v.isTypeIgnored, v.isSearchedType, cs, (k - 1) as nat, h), found(v.isTypeIgnored, v.isSearchedType, cs[k - 1], h), w, wm, w2);
    }
}
// ... and may do so if the function may
pub open spec fn found_from(ig: spec_fn(int) -> bool, want: spec_fn(int) -> bool, cs: Seq<cst_Node>, k: nat, h: nat) -> Seq<cst_Node>
    decreases cs.len() - k,
{
    if k >= cs.len() { Seq::empty() } else { found(ig, want, cs[k as int], h) + found_from(ig, want, cs, k + 1, h) }
}
pub proof fn found_split(ig: spec_fn(int) -> bool, want: spec_fn(int) -> bool, cs: Seq<cst_Node>, k: nat, h: nat)
    requires k <= cs.len(),
    ensures found_in(ig, want, cs, cs.len(), h) == found_in(ig, want, cs, k, h) + found_from(ig, want, cs, k, h),
    decreases cs.len() - k,
{
    if k < cs.len() {
        found_split(ig, want, cs, k + 1, h);
        assert(found_in(ig, want, cs, k, h) + (found(ig, want, cs[k as int], h) + found_from(ig, want, cs, k + 1, h))
            =~= found_in(ig, want, cs, k, h) + found(ig, want, cs[k as int], h) + found_from(ig, want, cs, k + 1, h));
    } else { assert(found_in(ig, want, cs, k, h) + Seq::<cst_Node>::empty() =~= found_in(ig, want, cs, k, h)); }
}
pub proof fn may_walk<F: FnNode>(v: fromcst_flexVisitor, n: cst_Node, h: nat, w: Cell<F>)
    requires tree_h(n, h), runs_ok(found(v.isTypeIgnored, v.isSearchedType, n, h), w),
    ensures walk_pre::<VF<F>>(v, n, h, w),
    decreases h, 0nat, 0nat,
{
    let l = found(v.isTypeIgnored, v.isSearchedType, n, h);
    if w.err is Nil && !(v.isTypeIgnored)(node_type(n)) && (v.isSearchedType)(node_type(n)) {
        assert(l.take(0) =~= Seq::<cst_Node>::empty());
        assert(runs(l.take(0), w, w));
        assert(w.fOnNode.pre(l[0]));
    }
    assert(vis_pre_fromcst_flexVisitor::<F>(v, n, w));
    assert forall|wm: Cell<F>, u: fromcst_flexVisitor| #[trigger] <VF<F> as cst_Visitor_Tr>::vpost(v, n, w, wm, Some(u)) implies kids_pre::<VF<F>>(u, node_childs(n), 0, (h - 1) as nat, wm) by {
        assert(vis_post_fromcst_flexVisitor::<F>(v, n, w, wm, Some(u)));
        found_split(v.isTypeIgnored, v.isSearchedType, node_childs(n), 0, (h - 1) as nat);
        assert(found_in(v.isTypeIgnored, v.isSearchedType, node_childs(n), 0, (h - 1) as nat) + found_from(v.isTypeIgnored, v.isSearchedType, node_childs(n), 0, (h - 1) as nat)
            =~= found_from(v.isTypeIgnored, v.isSearchedType, node_childs(n), 0, (h - 1) as nat));
        may_walk_kids::<F>(v, node_childs(n), 0, (h - 1) as nat, w);
    }
}
pub proof fn may_walk_kids<F: FnNode>(v: fromcst_flexVisitor, cs: Seq<cst_Node>, k: nat, h: nat, w: Cell<F>)
    requires all_h(cs, h), k <= cs.len(), runs_ok(found_from(v.isTypeIgnored, v.isSearchedType, cs, k, h), w),
    ensures kids_pre::<VF<F>>(v, cs, k, h, w),
    decreases h, 1nat, cs.len() - k,
{
    if k < cs.len() {
        let a = found(v.isTypeIgnored, v.isSearchedType, cs[k as int], h);
        let b = found_from(v.isTypeIgnored, v.isSearchedType, cs, k + 1, h);
        runs_ok_first(a, b, w);
        may_walk::<F>(v, cs[k as int], h, w);
        assert forall|wm: Cell<F>| #[trigger] walk_rel::<VF<F>>(v, cs[k as int], h, w, wm) implies kids_pre::<VF<F>>(v, cs, k + 1, h, wm) by {
            walk_hits::<F>(v, cs[k as int], h, w, wm);
            runs_ok_next(a, b, w, wm);
            may_walk_kids::<F>(v, cs, k + 1, h, wm);
        }
    }
}


// ---- trees over a text -----------------------------------------------------------------
// every node spans a part of a text of m bytes
pub open spec fn in_text(n: cst_Node, m: int, h: nat) -> bool
    decreases h,
{
    h > 0 && 0 <= node_pos(n) <= node_end(n) <= m && forall|i: int| 0 <= i < node_childs(n).len() ==> in_text(#[trigger] node_childs(n)[i], m, (h - 1) as nat)
}
pub open spec fn tree_of_text(n: cst_Node, m: int) -> bool { is_tree(n) && in_text(n, m, tree_depth(n)) }

pub proof fn in_text_any(n: cst_Node, m: int, h: nat, h2: nat)
    requires tree_h(n, h), tree_h(n, h2), in_text(n, m, h),
    ensures in_text(n, m, h2),
    decreases h,
{
    assert forall|i: int| 0 <= i < node_childs(n).len() implies in_text(#[trigger] node_childs(n)[i], m, (h2 - 1) as nat) by {
        in_text_any(node_childs(n)[i], m, (h - 1) as nat, (h2 - 1) as nat);
    }
}
pub open spec fn all_of_text(l: Seq<cst_Node>, m: int) -> bool { forall|i: int| 0 <= i < l.len() ==> tree_of_text(#[trigger] l[i], m) }

pub proof fn found_of_text(ig: spec_fn(int) -> bool, want: spec_fn(int) -> bool, n: cst_Node, h: nat, m: int)
    requires tree_h(n, h), in_text(n, m, h),
    ensures all_of_text(found(ig, want, n, h), m), found_typed(want, found(ig, want, n, h)),
    decreases h, 0nat, 0nat,
{
    if want(node_type(n)) {
        assert(is_tree(n));
        depth_ok(n);
        in_text_any(n, m, h, tree_depth(n));
    } else if !ig(node_type(n)) {
        assert forall|i: int| 0 <= i < node_childs(n).len() implies tree_h(#[trigger] node_childs(n)[i], (h - 1) as nat) && in_text(node_childs(n)[i], m, (h - 1) as nat) by { }
        found_in_of_text(ig, want, node_childs(n), node_childs(n).len(), (h - 1) as nat, m);
    }
}
pub open spec fn found_typed(want: spec_fn(int) -> bool, l: Seq<cst_Node>) -> bool { forall|i: int| 0 <= i < l.len() ==> want(node_type(#[trigger] l[i])) }
pub proof fn found_in_of_text(ig: spec_fn(int) -> bool, want: spec_fn(int) -> bool, cs: Seq<cst_Node>, k: nat, h: nat, m: int)
    requires k <= cs.len(), forall|i: int| 0 <= i < cs.len() ==> tree_h(#[trigger] cs[i], h) && in_text(cs[i], m, h),
    ensures all_of_text(found_in(ig, want, cs, k, h), m), found_typed(want, found_in(ig, want, cs, k, h)),
    decreases h, 1nat, k,
{
    if k > 0 {
        found_in_of_text(ig, want, cs, (k - 1) as nat, h, m);
        found_of_text(ig, want, cs[k - 1], h, m);
    }
}
pub proof fn hits_of_text(ig: spec_fn(int) -> bool, want: spec_fn(int) -> bool, n: cst_Node, m: int)
    requires tree_of_text(n, m),
    ensures all_of_text(hits(ig, want, n), m), found_typed(want, hits(ig, want, n)),
{
    depth_ok(n);
    found_of_text(ig, want, n, tree_depth(n), m);
}

// ---- bindings and what they read off a tree -------------------------------------------------
#[verifier::ext_equal]
pub struct Bind {
    pub ignored: spec_fn(int) -> bool, pub rule: int, pub head: int, pub tail: int, pub alts: int, pub symbol: int,
    pub terminals: Seq<int>, pub nonterminal: int, pub escape: int, pub escapes: Map<Seq<u8>, Seq<u8>>,
}
pub open spec fn ignores(b: fromcst_BNFCSTtoASTBindings) -> spec_fn(int) -> bool { |x: int| b.IgnoreNodeTypes.contains(x) }
pub open spec fn bind(b: fromcst_BNFCSTtoASTBindings) -> Bind {
    Bind {
        ignored: ignores(b), rule: b.RuleType, head: b.RuleHeadType, tail: b.RuleTailType, alts: b.ExpressionSequencesType, symbol: b.SequencesSymbolType,
        terminals: b.SymbolTerminalTypes, nonterminal: b.SymbolNonTerminalType, escape: b.EscapeCharacterType, escapes: b.EscapeMapping.m,
    }
}
pub open spec fn is_type(k: int) -> spec_fn(int) -> bool { |x: int| x == k }
pub open spec fn no_type() -> spec_fn(int) -> bool { |x: int| false }
pub open spec fn is_text() -> spec_fn(int) -> bool { |x: int| x == 16 || x == -1 }
pub open spec fn text_at(n: cst_Node, s: Seq<u8>) -> Seq<u8> { s.subrange(node_pos(n), node_end(n)) }

// what f makes of each of l, all together; nothing if it fails on one
pub open spec fn gather<T>(f: spec_fn(cst_Node) -> Option<Seq<T>>, l: Seq<cst_Node>) -> Option<Seq<T>>
    decreases l.len(),
{
    if l.len() == 0 { Some(Seq::empty()) } else {
        match gather(f, l.drop_last()) { None => None, Some(a) => match f(l.last()) { None => None, Some(t) => Some(a + t) } }
    }
}
pub open spec fn one_of<T>(o: Option<T>) -> Option<Seq<T>> { match o { None => None, Some(x) => Some(Seq::empty().push(x)) } }

pub open spec fn conv_escape(k: Bind, n: cst_Node, s: Seq<u8>) -> Option<Seq<u8>> {
    let l = hits(k.ignored, is_type(k.escape), n);
    if l.len() > 0 && k.escapes.dom().contains(text_at(l[0], s)) { Some(k.escapes[text_at(l[0], s)]) } else { None }
}
// a character: itself or what the escape stands for
pub open spec fn conv_char(k: Bind, n: cst_Node, s: Seq<u8>) -> Option<Seq<u8>> { if node_type(n) == -1 { Some(text_at(n, s)) } else { conv_escape(k, n, s) } }
pub open spec fn f_char(k: Bind, s: Seq<u8>) -> spec_fn(cst_Node) -> Option<Seq<u8>> { |m: cst_Node| conv_char(k, m, s) }
pub open spec fn conv_text(k: Bind, n: cst_Node, s: Seq<u8>) -> Option<Seq<u8>> { gather(f_char(k, s), hits(no_type(), is_text(), n)) }
pub open spec fn text_symbol(t: Seq<u8>) -> bnf_Symbol {
    if t.len() == 0 { bnf_Symbol::SymbolNothing(bnf_SymbolNothing { }) } else { bnf_Symbol::SymbolTerminal(bnf_SymbolTerminal { Name: t }) }
}
// the first terminal type of the list that occurs, else a nonterminal
pub open spec fn conv_symbol_from(k: Bind, n: cst_Node, s: Seq<u8>, i: nat) -> Option<bnf_Symbol>
    decreases k.terminals.len() - i,
{
    if i >= k.terminals.len() {
        let l = hits(k.ignored, is_type(k.nonterminal), n);
        if l.len() > 0 { Some(bnf_Symbol::SymbolNonTerminal(bnf_SymbolNonTerminal { Name: text_at(l[0], s) })) } else { None }
    } else {
        let l = hits(k.ignored, is_type(k.terminals[i as int]), n);
        if l.len() > 0 { match conv_text(k, l[0], s) { None => None, Some(t) => Some(text_symbol(t)) } } else { conv_symbol_from(k, n, s, i + 1) }
    }
}
pub open spec fn conv_symbol(k: Bind, n: cst_Node, s: Seq<u8>) -> Option<bnf_Symbol> { conv_symbol_from(k, n, s, 0) }
pub open spec fn f_symbol(k: Bind, s: Seq<u8>) -> spec_fn(cst_Node) -> Option<Seq<bnf_Symbol>> { |m: cst_Node| one_of(conv_symbol(k, m, s)) }
pub open spec fn conv_alt(k: Bind, n: cst_Node, s: Seq<u8>) -> Option<bnf_Sequence> {
    match gather(f_symbol(k, s), hits(k.ignored, is_type(k.symbol), n)) { None => None, Some(l) => Some(bnf_Sequence { Symbols: l }) }
}
pub open spec fn f_alt(k: Bind, s: Seq<u8>) -> spec_fn(cst_Node) -> Option<Seq<bnf_Sequence>> { |m: cst_Node| one_of(conv_alt(k, m, s)) }
pub open spec fn conv_body(k: Bind, n: cst_Node, s: Seq<u8>) -> Option<bnf_Substitution> {
    match gather(f_alt(k, s), hits(k.ignored, is_type(k.alts), n)) { None => None, Some(l) => Some(bnf_Substitution { Sequences: l }) }
}
pub open spec fn conv_rule(k: Bind, n: cst_Node, s: Seq<u8>) -> Option<bnf_Rule> {
    let hs = hits(k.ignored, is_type(k.head), n);
    let ts = hits(k.ignored, is_type(k.tail), n);
    if hs.len() > 0 && ts.len() > 0 {
        match conv_body(k, ts[0], s) { None => None, Some(t) => Some(bnf_Rule { Head: bnf_SymbolNonTerminal { Name: text_at(hs[0], s) }, Tail: t }) }
    } else { None }
}
pub open spec fn f_rule(k: Bind, s: Seq<u8>) -> spec_fn(cst_Node) -> Option<Seq<bnf_Rule>> { |m: cst_Node| one_of(conv_rule(k, m, s)) }
pub open spec fn conv_grammar(k: Bind, n: cst_Node, s: Seq<u8>) -> Option<bnf_Grammar> {
    match gather(f_rule(k, s), hits(k.ignored, is_type(k.rule), n)) { None => None, Some(l) => Some(bnf_Grammar { Rules: l }) }
}

// ---- functions that collect and functions that stop --------------------------------------------
// every step keeps inv and adds what f makes of the node, or fails with a new error
pub open spec fn collects<F: FnNode, T>(f: spec_fn(cst_Node) -> Option<Seq<T>>, acc: spec_fn(F) -> Seq<T>, al: spec_fn(F) -> int, inv: spec_fn(F) -> bool, ok: spec_fn(cst_Node) -> bool) -> bool {
    &&& forall|a: F, n: cst_Node| inv(a) && ok(n) ==> #[trigger] a.pre(n)
    &&& forall|a: F, n: cst_Node, r: Err, b: F| inv(a) && ok(n) && #[trigger] a.step(n, r, b) ==> inv(b) && al(a) <= al(b)
        && match f(n) { Some(t) => r is Nil && acc(b) == acc(a) + t, None => r is E && al(a) <= r->E_0 < al(b) }
}
pub proof fn runs_collect<F: FnNode, T>(f: spec_fn(cst_Node) -> Option<Seq<T>>, acc: spec_fn(F) -> Seq<T>, al: spec_fn(F) -> int, inv: spec_fn(F) -> bool, ok: spec_fn(cst_Node) -> bool, l: Seq<cst_Node>, w: Cell<F>, w2: Cell<F>)
    requires runs(l, w, w2), w.err is Nil, inv(w.fOnNode), collects(f, acc, al, inv, ok), forall|i: int| 0 <= i < l.len() ==> ok(#[trigger] l[i]),
    ensures
        inv(w2.fOnNode), al(w.fOnNode) <= al(w2.fOnNode),
        match gather(f, l) { Some(t) => w2.err is Nil && acc(w2.fOnNode) == acc(w.fOnNode) + t, None => w2.err is E && al(w.fOnNode) <= w2.err->E_0 < al(w2.fOnNode) },
    decreases l.len(),
{
    if l.len() > 0 {
        let m = choose|m: Cell<F>| runs(l.drop_last(), w, m) && #[trigger] meets(l.last(), m, w2);
        assert forall|i: int| 0 <= i < l.drop_last().len() implies ok(#[trigger] l.drop_last()[i]) by { assert(l.drop_last()[i] == l[i]); }
        runs_collect(f, acc, al, inv, ok, l.drop_last(), w, m);
        if m.err is Nil {
            assert(m.fOnNode.step(l.last(), w2.err, w2.fOnNode));
            if f(l.last()) is Some {
                let a = gather(f, l.drop_last())->0;
                assert(acc(w.fOnNode) + (a + f(l.last())->0) =~= acc(w.fOnNode) + a + f(l.last())->0);
            }
        }
    } else { assert(acc(w.fOnNode) + Seq::<T>::empty() =~= acc(w.fOnNode)); }
}
pub proof fn collect_ok<F: FnNode, T>(f: spec_fn(cst_Node) -> Option<Seq<T>>, acc: spec_fn(F) -> Seq<T>, al: spec_fn(F) -> int, inv: spec_fn(F) -> bool, ok: spec_fn(cst_Node) -> bool, l: Seq<cst_Node>, w: Cell<F>)
    requires w.err is Nil, inv(w.fOnNode), collects(f, acc, al, inv, ok), forall|i: int| 0 <= i < l.len() ==> ok(#[trigger] l[i]),
    ensures runs_ok(l, w),
{
    assert forall|i: int, m: Cell<F>| 0 <= i < l.len() && #[trigger] runs(l.take(i), w, m) && m.err is Nil implies m.fOnNode.pre(l[i]) by {
        runs_collect(f, acc, al, inv, ok, l.take(i), w, m);
    }
}
// every step ends the search
// an error no later call makes
pub open spec fn sentinel(e: Err, al: int) -> bool { match e { Err::Nil => false, Err::E(k) => k < al, Err::G(_) => true } }
pub open spec fn stops<F: FnNode>(f: F) -> bool { forall|n: cst_Node, r: Err, b: F| #[trigger] f.step(n, r, b) ==> !(r is Nil) }
pub proof fn runs_stop<F: FnNode>(l: Seq<cst_Node>, w: Cell<F>, w2: Cell<F>)
    requires runs(l, w, w2), w.err is Nil, stops(w.fOnNode),
    ensures
        l.len() == 0 ==> w2 == w,
        l.len() > 0 ==> w.fOnNode.step(l[0], w2.err, w2.fOnNode) && !(w2.err is Nil),
    decreases l.len(),
{
    if l.len() > 0 {
        let m = choose|m: Cell<F>| runs(l.drop_last(), w, m) && #[trigger] meets(l.last(), m, w2);
        runs_stop(l.drop_last(), w, m);
        if l.len() > 1 { assert(l.drop_last()[0] == l[0]); }
    }
}
// it is only called at the start
pub proof fn stop_ok<F: FnNode>(l: Seq<cst_Node>, w: Cell<F>)
    requires w.err is Nil, stops(w.fOnNode), l.len() > 0 ==> w.fOnNode.pre(l[0]),
    ensures runs_ok(l, w),
{
    assert forall|i: int, m: Cell<F>| 0 <= i < l.len() && #[trigger] runs(l.take(i), w, m) && m.err is Nil implies m.fOnNode.pre(l[i]) by {
        runs_stop(l.take(i), w, m);
        if i > 0 { assert(false); }
    }
}


pub proof fn same_members(a: Seq<int>, b: Seq<int>)
    requires a.to_multiset() =~= b.to_multiset(),
    ensures forall|x: int| #[trigger] a.contains(x) == b.contains(x), forall|x: int| a.contains(x) == #[trigger] b.contains(x),
{
    broadcast use group_to_multiset_ensures;
    assert forall|x: int| #[trigger] a.contains(x) == b.contains(x) by { assert(a.to_multiset().count(x) == b.to_multiset().count(x)); assert(a.contains(x) <==> a.to_multiset().count(x) > 0); assert(b.contains(x) <==> b.to_multiset().count(x) > 0); }
}

// the bindings for trees by the built-in grammar: types are numbers of its rules
pub open spec fn self_escapes() -> Map<Seq<u8>, Seq<u8>> {
    Map::empty().insert(seq![116u8], seq![9u8]).insert(seq![110u8], seq![10u8]).insert(seq![114u8], seq![13u8]).insert(seq![34u8], seq![34u8]).insert(seq![92u8], seq![92u8])
}
pub open spec fn self_bind() -> Bind {
    Bind {
        ignored: is_type(25), rule: 4, head: 18, tail: 5, alts: 7, symbol: 9, terminals: seq![11int, 12int], nonterminal: 18, escape: 17, escapes: self_escapes(),
    }
}

} // verus!
