// Trees and walks over them.
verus! {

pub open spec fn node_childs(n: cst_Node) -> Seq<cst_Node> {
    match n { cst_Node::node(x) => x.childs, cst_Node::Other(x) => other_cst_Node_Childs(x), cst_Node::Nil => Seq::empty() }
}

pub open spec fn node_type_m(n: cst_node) -> int { n.typei }
pub open spec fn node_pos_m(n: cst_node) -> int { n.start }
pub open spec fn node_end_m(n: cst_node) -> int { n.end }
pub open spec fn node_childs_m(n: cst_node) -> Seq<cst_Node> { n.childs }

// a finite tree without nil nodes, of height at most h. Nodes may be foreign
// implementations, as long as their accessors are functions of the node.
pub open spec fn tree_h(n: cst_Node, h: nat) -> bool
    decreases h,
{
    !(n is Nil) && h > 0 && forall|i: int| 0 <= i < node_childs(n).len() ==> tree_h(#[trigger] node_childs(n)[i], (h - 1) as nat)
}
pub open spec fn is_tree(n: cst_Node) -> bool { exists|h: nat| tree_h(n, h) }

pub open spec fn least_h(n: cst_Node, h: nat) -> bool { tree_h(n, h) && forall|k: nat| k < h ==> !#[trigger] tree_h(n, k) }
pub open spec fn tree_depth(n: cst_Node) -> nat { choose|h: nat| least_h(n, h) }

pub proof fn least_exists(n: cst_Node, h: nat)
    requires tree_h(n, h),
    ensures exists|k: nat| k <= h && least_h(n, k),
    decreases h,
{
    if forall|k: nat| k < h ==> !#[trigger] tree_h(n, k) { assert(least_h(n, h)); }
    else { let k = choose|k: nat| k < h && tree_h(n, k); least_exists(n, k); }
}

pub proof fn depth_ok(n: cst_Node)
    requires is_tree(n),
    ensures
        tree_h(n, tree_depth(n)),
        forall|h: nat| #[trigger] tree_h(n, h) ==> tree_depth(n) <= h,
{
    let h = choose|h: nat| tree_h(n, h);
    least_exists(n, h);
    let d = tree_depth(n);
    assert(least_h(n, d));
    assert forall|h: nat| #[trigger] tree_h(n, h) implies d <= h by { }
}

pub proof fn child_depth(n: cst_Node)
    requires is_tree(n),
    ensures forall|i: int| 0 <= i < node_childs(n).len() ==> is_tree(#[trigger] node_childs(n)[i]) && tree_depth(node_childs(n)[i]) < tree_depth(n),
{
    depth_ok(n);
    assert forall|i: int| 0 <= i < node_childs(n).len() implies is_tree(#[trigger] node_childs(n)[i]) && tree_depth(node_childs(n)[i]) < tree_depth(n) by {
        assert(tree_h(node_childs(n)[i], (tree_depth(n) - 1) as nat));
        depth_ok(node_childs(n)[i]);
    }
}

// any implementation of the visitor interface: vpost relates the visitor, the
// node and the world before to the world after and the returned visitor
pub trait cst_Visitor_Tr: Sized {
    type V;
    type W;
    spec fn vpre(v: Self::V, n: cst_Node, w: Self::W) -> bool;
    spec fn vpost(v: Self::V, n: cst_Node, w: Self::W, w2: Self::W, r: Option<Self::V>) -> bool;
    fn go_Visit(Ghost(v): Ghost<Self::V>, Ghost(n): Ghost<cst_Node>, Ghost(w): Ghost<Self::W>) -> (ret: Ghost<(Self::W, Option<Self::V>)>)
        requires Self::vpre(v, n, w),
        ensures Self::vpost(v, n, w, ret@.0, ret@.1),
    ;
}

// a trigger
pub open spec fn mark<A>(a: A) -> bool { true }

// the world after walking n with v: one visit of n, then, if it returned a
// visitor, a walk of each child in order with that one
pub open spec fn walk_rel<VT: cst_Visitor_Tr>(v: VT::V, n: cst_Node, h: nat, w: VT::W, w2: VT::W) -> bool
    decreases h, 0nat, 0nat,
{
    h > 0 && exists|wm: VT::W, r: Option<VT::V>| #[trigger] VT::vpost(v, n, w, wm, r) && match r {
        None => w2 == wm,
        Some(u) => walk_kids::<VT>(u, node_childs(n), node_childs(n).len(), (h - 1) as nat, wm, w2),
    }
}
pub open spec fn walk_kids<VT: cst_Visitor_Tr>(v: VT::V, cs: Seq<cst_Node>, k: nat, h: nat, w: VT::W, w2: VT::W) -> bool
    decreases h, 1nat, k,
{
    if k == 0 { w2 == w } else {
        exists|wm: VT::W| #[trigger] mark(wm) && walk_kids::<VT>(v, cs, (k - 1) as nat, h, w, wm) && walk_rel::<VT>(v, cs[k - 1], h, wm, w2)
    }
}

// the visitor's precondition holds at every visit of the walk
pub open spec fn walk_pre<VT: cst_Visitor_Tr>(v: VT::V, n: cst_Node, h: nat, w: VT::W) -> bool
    decreases h, 0nat, 0nat,
{
    h > 0 && VT::vpre(v, n, w) && forall|wm: VT::W, u: VT::V| #[trigger] VT::vpost(v, n, w, wm, Some(u)) ==> kids_pre::<VT>(u, node_childs(n), 0, (h - 1) as nat, wm)
}
pub open spec fn kids_pre<VT: cst_Visitor_Tr>(v: VT::V, cs: Seq<cst_Node>, k: nat, h: nat, w: VT::W) -> bool
    decreases h, 1nat, cs.len() - k,
{
    k >= cs.len() || (walk_pre::<VT>(v, cs[k as int], h, w) && forall|wm: VT::W| #[trigger] walk_rel::<VT>(v, cs[k as int], h, w, wm) ==> kids_pre::<VT>(v, cs, k + 1, h, wm))
}

pub open spec fn all_h(cs: Seq<cst_Node>, h: nat) -> bool { forall|i: int| 0 <= i < cs.len() ==> tree_h(#[trigger] cs[i], h) }

// the bound on the height does not matter
pub proof fn walk_any_h<VT: cst_Visitor_Tr>(v: VT::V, n: cst_Node, h: nat, h2: nat, w: VT::W, w2: VT::W)
    requires tree_h(n, h), tree_h(n, h2), walk_rel::<VT>(v, n, h, w, w2),
    ensures walk_rel::<VT>(v, n, h2, w, w2),
    decreases h, 0nat, 0nat,
{
    let (wm, r) = choose|wm: VT::W, r: Option<VT::V>| #[trigger] VT::vpost(v, n, w, wm, r) && match r {
        None => w2 == wm,
        Some(u) => walk_kids::<VT>(u, node_childs(n), node_childs(n).len(), (h - 1) as nat, wm, w2),
    };
    if let Some(u) = r {
        kids_any_h::<VT>(u, node_childs(n), node_childs(n).len(), (h - 1) as nat, (h2 - 1) as nat, wm, w2);
    }
    assert(VT::vpost(v, n, w, wm, r));
}
pub proof fn kids_any_h<VT: cst_Visitor_Tr>(v: VT::V, cs: Seq<cst_Node>, k: nat, h: nat, h2: nat, w: VT::W, w2: VT::W)
    requires k <= cs.len(), all_h(cs, h), all_h(cs, h2), walk_kids::<VT>(v, cs, k, h, w, w2),
    ensures walk_kids::<VT>(v, cs, k, h2, w, w2),
    decreases h, 1nat, k,
{
    if k > 0 {
        let wm = choose|wm: VT::W| #[trigger] mark(wm) && walk_kids::<VT>(v, cs, (k - 1) as nat, h, w, wm) && walk_rel::<VT>(v, cs[k - 1], h, wm, w2);
        kids_any_h::<VT>(v, cs, (k - 1) as nat, h, h2, w, wm);
        assert(tree_h(cs[k - 1], h) && tree_h(cs[k - 1], h2));
        walk_any_h::<VT>(v, cs[k - 1], h, h2, wm, w2);
        assert(mark(wm));
    }
}
pub proof fn pre_any_h<VT: cst_Visitor_Tr>(v: VT::V, n: cst_Node, h: nat, h2: nat, w: VT::W)
    requires tree_h(n, h), tree_h(n, h2), walk_pre::<VT>(v, n, h, w),
    ensures walk_pre::<VT>(v, n, h2, w),
    decreases h, 0nat, 0nat,
{
    assert forall|wm: VT::W, u: VT::V| #[trigger] VT::vpost(v, n, w, wm, Some(u)) implies kids_pre::<VT>(u, node_childs(n), 0, (h2 - 1) as nat, wm) by {
        kids_pre_any_h::<VT>(u, node_childs(n), 0, (h - 1) as nat, (h2 - 1) as nat, wm);
    }
}
pub proof fn kids_pre_any_h<VT: cst_Visitor_Tr>(v: VT::V, cs: Seq<cst_Node>, k: nat, h: nat, h2: nat, w: VT::W)
    requires all_h(cs, h), all_h(cs, h2), kids_pre::<VT>(v, cs, k, h, w),
    ensures kids_pre::<VT>(v, cs, k, h2, w),
    decreases h, 1nat, cs.len() - k,
{
    if k < cs.len() {
        assert(tree_h(cs[k as int], h) && tree_h(cs[k as int], h2));
        pre_any_h::<VT>(v, cs[k as int], h, h2, w);
        assert forall|wm: VT::W| #[trigger] walk_rel::<VT>(v, cs[k as int], h2, w, wm) implies kids_pre::<VT>(v, cs, k + 1, h2, wm) by {
            walk_any_h::<VT>(v, cs[k as int], h2, h, w, wm);
            kids_pre_any_h::<VT>(v, cs, k + 1, h, h2, wm);
        }
    }
}

// ---- what a walk offers, as a list ------------------------------------------
// for a visitor whose answer is a function d of itself and the node: the
// pre-order list of (visitor, node) offers
pub open spec fn offers<V>(d: spec_fn(V, cst_Node) -> Option<V>, v: V, n: cst_Node, h: nat) -> Seq<(V, cst_Node)>
    decreases h, 0nat, 0nat,
{
    if h == 0 { Seq::empty() } else {
        Seq::empty().push((v, n)) + match d(v, n) { None => Seq::empty(), Some(u) => offers_kids(d, u, node_childs(n), node_childs(n).len(), (h - 1) as nat) }
    }
}
pub open spec fn offers_kids<V>(d: spec_fn(V, cst_Node) -> Option<V>, v: V, cs: Seq<cst_Node>, k: nat, h: nat) -> Seq<(V, cst_Node)>
    decreases h, 1nat, k,
{
    if k == 0 { Seq::empty() } else { offers_kids(d, v, cs, (k - 1) as nat, h) + offers(d, v, cs[k - 1], h) }
}

// a visitor that records its offers and answers by d
pub open spec fn records<VT: cst_Visitor_Tr<W = Seq<(<VT as cst_Visitor_Tr>::V, cst_Node)>>>(d: spec_fn(VT::V, cst_Node) -> Option<VT::V>) -> bool {
    forall|v: VT::V, n: cst_Node, w: VT::W, w2: VT::W, r: Option<VT::V>| #[trigger] VT::vpost(v, n, w, w2, r) ==> w2 == w.push((v, n)) && r == d(v, n)
}

// C03: the walk is exactly the pre-order list
pub proof fn walk_is_preorder<VT: cst_Visitor_Tr<W = Seq<(<VT as cst_Visitor_Tr>::V, cst_Node)>>>(d: spec_fn(VT::V, cst_Node) -> Option<VT::V>, v: VT::V, n: cst_Node, h: nat, w: VT::W, w2: VT::W)
    requires records::<VT>(d), walk_rel::<VT>(v, n, h, w, w2),
    ensures w2 == w + offers(d, v, n, h),
    decreases h, 0nat, 0nat,
{
    let (wm, r) = choose|wm: VT::W, r: Option<VT::V>| #[trigger] VT::vpost(v, n, w, wm, r) && match r {
        None => w2 == wm,
        Some(u) => walk_kids::<VT>(u, node_childs(n), node_childs(n).len(), (h - 1) as nat, wm, w2),
    };
    assert(wm == w.push((v, n)) && r == d(v, n));
    if let Some(u) = r {
        walk_kids_preorder::<VT>(d, u, node_childs(n), node_childs(n).len(), (h - 1) as nat, wm, w2);
    }
    assert(w2 =~= w + offers(d, v, n, h));
}
pub proof fn walk_kids_preorder<VT: cst_Visitor_Tr<W = Seq<(<VT as cst_Visitor_Tr>::V, cst_Node)>>>(d: spec_fn(VT::V, cst_Node) -> Option<VT::V>, v: VT::V, cs: Seq<cst_Node>, k: nat, h: nat, w: VT::W, w2: VT::W)
    requires records::<VT>(d), walk_kids::<VT>(v, cs, k, h, w, w2),
    ensures w2 == w + offers_kids(d, v, cs, k, h),
    decreases h, 1nat, k,
{
    if k > 0 {
        let wm = choose|wm: VT::W| #[trigger] mark(wm) && walk_kids::<VT>(v, cs, (k - 1) as nat, h, w, wm) && walk_rel::<VT>(v, cs[k - 1], h, wm, w2);
        walk_kids_preorder::<VT>(d, v, cs, (k - 1) as nat, h, w, wm);
        walk_is_preorder::<VT>(d, v, cs[k - 1], h, wm, w2);
    }
    assert(w2 =~= w + offers_kids(d, v, cs, k, h));
}

} // verus!
