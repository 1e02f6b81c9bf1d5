// The tree of a text of a grammar is read as what the text says.
verus! {

pub open spec fn ig() -> Want { is_type(25) }
pub proof fn fd_self(ig: Want, want: Want, n: cst_Node, i: int)
    requires n is node, n_type(n) == i, !ig(i), want(i),
    ensures fd(ig, want, n) == Seq::empty().push(n),
{ }
pub proof fn no_more(l: Seq<cst_Node>)
    ensures l + Seq::<cst_Node>::empty() == l, Seq::<cst_Node>::empty() + l == l,
{
    assert(l + Seq::<cst_Node>::empty() =~= l);
    assert(Seq::<cst_Node>::empty() + l =~= l);
}

// ---- symbols ---------------------------------------------------------------------------
pub proof fn b_term(g: bnf_Grammar, src: Seq<u8>, s: SymL, p: int) -> (d: Der)
    requires text_facts(g), sym_l_ok(s), stands(src, p, wr_sym(s)),
    ensures
        derives(g, dn(w_term()), d), word(d) == wr_sym(s), placed(t_at(g, w_term(), d, p), 9, p, wr_sym(s).len()),
        conv_symbol(self_bind(), t_at(g, w_term(), d, p), src) == Some(said_sym(s)),
{
    let k11 = is_type(11); let k12 = is_type(12); let k18 = is_type(18);
    let k = self_bind();
    assert(k.terminals.len() == 2 && k.terminals[0] == 11 && k.terminals[1] == 12);
    assert(k.ignored == ig());
    named_rule_is(g, w_term());
    match s {
        SymL::Name(n) => {
            let a = Der::Text(c1(60)); let z = Der::Text(c1(62));
            cut(src, p, c1(60) + n, c1(62));
            cut(src, p, c1(60), n);
            let m = b_name(g, n, p + 1);
            let d = n3(g, 9, dt(c1(60)), dn(w_rule_name()), dt(c1(62)), a, m, z);
            let t = t_at(g, w_term(), d, p);
            let nn = t_at(g, w_rule_name(), m, p + 1);
            three_node(g, ig(), k11, w_term(), 9, dt(c1(60)), dn(w_rule_name()), dt(c1(62)), a, m, z, p);
            three_node(g, ig(), k12, w_term(), 9, dt(c1(60)), dn(w_rule_name()), dt(c1(62)), a, m, z, p);
            three_node(g, ig(), k18, w_term(), 9, dt(c1(60)), dn(w_rule_name()), dt(c1(62)), a, m, z, p);
            fd_leaf(g, ig(), k11, c1(60), p); fd_leaf(g, ig(), k12, c1(60), p); fd_leaf(g, ig(), k18, c1(60), p);
            let q = p + 1 + n.len();
            fd_leaf(g, ig(), k11, c1(62), q); fd_leaf(g, ig(), k12, c1(62), q); fd_leaf(g, ig(), k18, c1(62), q);
            name_none(g, ig(), k11, m, p + 1);
            name_none(g, ig(), k12, m, p + 1);
            no_more(Seq::empty()); no_more(Seq::empty().push(nn));
            assert(fd(ig(), k18, nn) == Seq::empty().push(nn));
            assert(fd(ig(), k11, t) == Seq::<cst_Node>::empty());
            assert(fd(ig(), k12, t) == Seq::<cst_Node>::empty());
            assert(fd(ig(), k18, t) == Seq::empty().push(nn));
            hits_tree(g, ig(), k11, dn(w_term()), d, p);
            hits_tree(g, ig(), k12, dn(w_term()), d, p);
            hits_tree(g, ig(), k18, dn(w_term()), d, p);
            text_of(src, nn, 18, p + 1, n);
            assert(conv_symbol_from(k, t, src, 2) == Some(nt(n)));
            assert(conv_symbol_from(k, t, src, 1) == Some(nt(n)));
            d
        },
        SymL::Lit(q, ps) => {
            let a = Der::Text(c1(q));
            cut(src, p, c1(q) + wr_pieces(ps), c1(q));
            cut(src, p, c1(q), wr_pieces(ps));
            let m = b_text(g, src, q, ps, p + 1);
            let l = n3(g, 10, dt(c1(q)), dn(text_name(q)), dt(c1(q)), a, m, a);
            let d = n1(g, 9, dn(w_literal()), l);
            let t = t_at(g, w_term(), d, p);
            let nn = t_at(g, text_name(q), m, p + 1);
            let e = p + 1 + wr_pieces(ps).len();
            three_node(g, ig(), k11, w_literal(), 10, dt(c1(q)), dn(text_name(q)), dt(c1(q)), a, m, a, p);
            three_node(g, ig(), k12, w_literal(), 10, dt(c1(q)), dn(text_name(q)), dt(c1(q)), a, m, a, p);
            one_node(g, ig(), k11, w_term(), 9, dn(w_literal()), l, p);
            one_node(g, ig(), k12, w_term(), 9, dn(w_literal()), l, p);
            fd_leaf(g, ig(), k11, c1(q), p); fd_leaf(g, ig(), k12, c1(q), p);
            fd_leaf(g, ig(), k11, c1(q), e); fd_leaf(g, ig(), k12, c1(q), e);
            no_more(Seq::empty()); no_more(Seq::empty().push(nn));
            hits_tree(g, ig(), k11, dn(w_term()), d, p);
            hits_tree(g, ig(), k12, dn(w_term()), d, p);
            named_rule_is(g, text_name(q));
            hits_tree(g, no_type(), is_text(), dn(text_name(q)), m, p + 1);
            assert(conv_text(k, nn, src) == Some(said_bytes(ps)));
            if q == 34 {
                fd_self(ig(), k11, nn, 11);
                assert(fd(ig(), k11, t) == Seq::empty().push(nn));
            } else {
                text2_none(g, ig(), k11, m, p + 1);
                fd_self(ig(), k12, nn, 12);
                assert(fd(ig(), k11, t) == Seq::<cst_Node>::empty());
                assert(fd(ig(), k12, t) == Seq::empty().push(nn));
                assert(conv_symbol_from(k, t, src, 1) == Some(text_symbol(said_bytes(ps))));
            }
            d
        },
    }
}
// ---- alternatives ---------------------------------------------------------------------------
// symbols under a node for a list or for what follows in one
pub proof fn b_syms(g: bnf_Grammar, src: Seq<u8>, l: Seq<SymW>, p: int, name: Seq<u8>, i: int) -> (d: Der)
    requires text_facts(g), has_rule(g, name, i, x_list()), i == 7 || i == 8, syms_ok(l), stands(src, p, wr_syms(l)), l.len() > 0,
    ensures
        derives(g, dn(name), d), word(d) == wr_syms(l), placed(t_at(g, name, d, p), i, p, wr_syms(l).len()),
        gather(f_symbol(self_bind(), src), fd(ig(), is_type(9), t_at(g, name, d, p))) == Some(said_syms(l)),
    decreases l.len(), 1nat,
{
    let k9 = is_type(9);
    let f = f_symbol(self_bind(), src);
    let w1 = wr_sym(l[0].s); let w2 = spaces(l[0].gap); let r = l.drop_first();
    cut(src, p, w1 + w2, wr_syms(r));
    cut(src, p, w1, w2);
    assert forall|j: int| 0 <= j < r.len() implies sym_l_ok((#[trigger] r[j]).s) by { assert(r[j] == l[j + 1]); }
    let p2 = p + w1.len(); let p3 = p2 + w2.len();
    let a = b_term(g, src, l[0].s, p);
    let b = b_ws(g, l[0].gap);
    let c = b_ltail(g, src, r, p3);
    let d = n3(g, i, dn(w_term()), dn(w_opt_whitespace()), dn(w_list_tail()), a, b, c);
    three_node(g, ig(), k9, name, i, dn(w_term()), dn(w_opt_whitespace()), dn(w_list_tail()), a, b, c, p);
    ws_none(g, ig(), k9, b, p2);
    let na = t_at(g, w_term(), a, p); let nc = t_at(g, w_list_tail(), c, p3);
    fd_self(ig(), k9, na, 9);
    no_more(Seq::empty().push(na));
    assert(fd(ig(), k9, t_at(g, name, d, p)) == Seq::empty().push(na) + fd(ig(), k9, nc)) by { assert(w1.len() > 0); }
    gather_one(f, na);
    gather_cat(f, Seq::empty().push(na), fd(ig(), k9, nc));
    assert(Seq::empty().push(said_sym(l[0].s)) + said_syms(r) =~= said_syms(l));
    d
}
pub proof fn b_ltail(g: bnf_Grammar, src: Seq<u8>, l: Seq<SymW>, p: int) -> (d: Der)
    requires text_facts(g), syms_ok(l), stands(src, p, wr_syms(l)),
    ensures
        derives(g, dn(w_list_tail()), d), word(d) == wr_syms(l),
        gather(f_symbol(self_bind(), src), fd(ig(), is_type(9), t_at(g, w_list_tail(), d, p))) == Some(said_syms(l)),
    decreases l.len(), 2nat,
{
    if l.len() == 0 {
        no_node(g, ig(), is_type(9), w_list_tail(), 8, p);
        assert(said_syms(l) =~= Seq::<bnf_Symbol>::empty());
        n0(g, 8)
    } else { b_syms(g, src, l, p, w_list_tail(), 8) }
}
pub proof fn b_list(g: bnf_Grammar, src: Seq<u8>, l: Seq<SymW>, p: int) -> (d: Der)
    requires text_facts(g), syms_ok(l), stands(src, p, wr_syms(l)), l.len() > 0,
    ensures
        derives(g, dn(w_list()), d), word(d) == wr_syms(l), placed(t_at(g, w_list(), d, p), 7, p, wr_syms(l).len()), wr_syms(l).len() > 0,
        conv_alt(self_bind(), t_at(g, w_list(), d, p), src) == Some(bnf_Sequence { Symbols: said_syms(l) }),
{
    let d = b_syms(g, src, l, p, w_list(), 7);
    named_rule_is(g, w_list());
    hits_tree(g, ig(), is_type(9), dn(w_list()), d, p);
    assert(self_bind().ignored == ig() && self_bind().symbol == 9);
    assert(wr_sym(l[0].s).len() > 0);
    d
}
pub proof fn b_more_alts(g: bnf_Grammar, src: Seq<u8>, l: Seq<AltW>, p: int) -> (d: Der)
    requires text_facts(g), alts_w_ok(l), stands(src, p, wr_more_alts(l)),
    ensures
        derives(g, dn(w_expression_tail()), d), word(d) == wr_more_alts(l),
        gather(f_alt(self_bind(), src), fd(ig(), is_type(7), t_at(g, w_expression_tail(), d, p))) == Some(said_alts(l)),
    decreases l.len(),
{
    let k7 = is_type(7);
    let f = f_alt(self_bind(), src);
    if l.len() == 0 {
        no_node(g, ig(), k7, w_expression_tail(), 6, p);
        assert(said_alts(l) =~= Seq::<bnf_Sequence>::empty());
        n0(g, 6)
    } else {
        let w1 = c1(124); let w2 = spaces(l[0].gap); let w3 = wr_syms(l[0].syms); let r = l.drop_first();
        cut(src, p, w1 + w2 + w3, wr_more_alts(r));
        cut(src, p, w1 + w2, w3);
        cut(src, p, w1, w2);
        assert(alt_w_ok(l[0]));
        assert forall|j: int| 0 <= j < r.len() implies alt_w_ok(#[trigger] r[j]) by { assert(r[j] == l[j + 1]); }
        let p2 = p + w1.len(); let p3 = p2 + w2.len(); let p4 = p3 + w3.len();
        let a = Der::Text(w1);
        let b = b_ws(g, l[0].gap);
        let c = b_list(g, src, l[0].syms, p3);
        let e = b_more_alts(g, src, r, p4);
        let d = n4(g, 6, dt(w1), dn(w_opt_whitespace()), dn(w_list()), dn(w_expression_tail()), a, b, c, e);
        four_node(g, ig(), k7, w_expression_tail(), 6, dt(w1), dn(w_opt_whitespace()), dn(w_list()), dn(w_expression_tail()), a, b, c, e, p);
        fd_leaf(g, ig(), k7, w1, p);
        ws_none(g, ig(), k7, b, p2);
        let nc = t_at(g, w_list(), c, p3); let ne = t_at(g, w_expression_tail(), e, p4);
        fd_self(ig(), k7, nc, 7);
        no_more(Seq::empty()); no_more(Seq::empty().push(nc));
        assert(fd(ig(), k7, t_at(g, w_expression_tail(), d, p)) == Seq::empty().push(nc) + fd(ig(), k7, ne));
        gather_one(f, nc);
        gather_cat(f, Seq::empty().push(nc), fd(ig(), k7, ne));
        assert(Seq::empty().push(bnf_Sequence { Symbols: said_syms(l[0].syms) }) + said_alts(r) =~= said_alts(l));
        d
    }
}
pub proof fn b_body(g: bnf_Grammar, src: Seq<u8>, l: Seq<AltW>, p: int) -> (d: Der)
    requires text_facts(g), alts_w_ok(l), l.len() > 0, stands(src, p, wr_body(l)),
    ensures
        derives(g, dn(w_expression()), d), word(d) == wr_body(l), placed(t_at(g, w_expression(), d, p), 5, p, wr_body(l).len()),
        conv_body(self_bind(), t_at(g, w_expression(), d, p), src) == Some(bnf_Substitution { Sequences: said_alts(l) }),
{
    let k7 = is_type(7);
    let f = f_alt(self_bind(), src);
    let w3 = wr_syms(l[0].syms); let r = l.drop_first();
    cut(src, p, w3, wr_more_alts(r));
    assert(alt_w_ok(l[0]));
    assert forall|j: int| 0 <= j < r.len() implies alt_w_ok(#[trigger] r[j]) by { assert(r[j] == l[j + 1]); }
    let p4 = p + w3.len();
    let c = b_list(g, src, l[0].syms, p);
    let e = b_more_alts(g, src, r, p4);
    let d = n2(g, 5, dn(w_list()), dn(w_expression_tail()), c, e);
    two_node(g, ig(), k7, w_expression(), 5, dn(w_list()), dn(w_expression_tail()), c, e, p);
    let nc = t_at(g, w_list(), c, p); let ne = t_at(g, w_expression_tail(), e, p4);
    fd_self(ig(), k7, nc, 7);
    assert(fd(ig(), k7, t_at(g, w_expression(), d, p)) == Seq::empty().push(nc) + fd(ig(), k7, ne));
    gather_one(f, nc);
    gather_cat(f, Seq::empty().push(nc), fd(ig(), k7, ne));
    assert(Seq::empty().push(bnf_Sequence { Symbols: said_syms(l[0].syms) }) + said_alts(r) =~= said_alts(l));
    named_rule_is(g, w_expression());
    hits_tree(g, ig(), k7, dn(w_expression()), d, p);
    assert(self_bind().ignored == ig() && self_bind().alts == 7);
    d
}

// ---- rules -----------------------------------------------------------------------------------
pub open spec fn n7(g: bnf_Grammar, n0: Der, n1: Der, n2: Der, n3: Der) -> Der {
    Der::Node(place(g, 4, x_content()), Seq::empty().push(Der::Text(c1(60))).push(n0).push(Der::Text(c1(62))).push(n1).push(Der::Text(c3(58, 58, 61))).push(n2).push(n3))
}
pub proof fn rule_node(g: bnf_Grammar, ig: Want, want: Want, n0: Der, n1: Der, n2: Der, n3: Der, p: int)
    requires
        text_facts(g), derives(g, dn(w_rule_name()), n0), derives(g, dn(w_opt_whitespace()), n1), derives(g, dn(w_opt_whitespace()), n2), derives(g, dn(w_expression()), n3),
        !want(-2), !want(-1), !want(24),
    ensures ({
        let r = n7(g, n0, n1, n2, n3); let w = c1(60) + word(n0) + c1(62) + word(n1) + c3(58, 58, 61) + word(n2) + word(n3); let n = t_at(g, w_content(), r, p);
        derives(g, dn(w_content()), r) && word(r) == w && placed(n, 4, p, w.len())
        && fd(ig, want, n) == if ig(4) { Seq::empty() } else if want(4) { Seq::empty().push(n) } else {
            fd(ig, want, t_at(g, w_rule_name(), n0, p + 1)) + fd(ig, want, t_at(g, w_expression(), n3, p + w.len() - word(n3).len()))
        }
    }),
{
    let t60 = Der::Text(c1(60)); let t62 = Der::Text(c1(62)); let tdef = Der::Text(c3(58, 58, 61));
    let s1 = dt(c1(60)); let s2 = dn(w_rule_name()); let s3 = dt(c1(62)); let s4 = dn(w_opt_whitespace()); let s5 = dt(c3(58, 58, 61)); let s7 = dn(w_expression());
    let d1 = Seq::empty().push(t60); let d2 = d1.push(n0); let d3 = d2.push(t62); let d4 = d3.push(n1); let d5 = d4.push(tdef); let d6 = d5.push(n2); let d7 = d6.push(n3);
    let l1 = a1(s1); let l2 = l1.push(s2); let l3 = l2.push(s3); let l4 = l3.push(s4); let l5 = l4.push(s5); let l6 = l5.push(s4); let l7 = l6.push(s7);
    zero(g, s1, t60);
    all_push(g, l1, s2, d1, n0);
    all_push(g, l2, s3, d2, t62);
    all_push(g, l3, s4, d3, n1);
    all_push(g, l4, s5, d4, tdef);
    all_push(g, l5, s4, d5, n2);
    all_push(g, l6, s7, d6, n3);
    assert(l7 == x_content());
    let r = node(g, w_content(), 4, l7, d7);
    let q1 = p + 1; let q2 = q1 + word(n0).len(); let q3 = q2 + 1; let q4 = q3 + word(n1).len(); let q5 = q4 + 3; let q6 = q5 + word(n2).len();
    fd_node(g, ig, want, w_content(), 4, l7, d7, p);
    fds_push(g, ig, want, l1, s2, d1, n0, p);
    fds_push(g, ig, want, l2, s3, d2, t62, p);
    fds_push(g, ig, want, l3, s4, d3, n1, p);
    fds_push(g, ig, want, l4, s5, d4, tdef, p);
    fds_push(g, ig, want, l5, s4, d5, n2, p);
    fds_push(g, ig, want, l6, s7, d6, n3, p);
    fd_leaf(g, ig, want, c1(60), p); fd_leaf(g, ig, want, c1(62), q2); fd_leaf(g, ig, want, c3(58, 58, 61), q4);
    ws_none(g, ig, want, n1, q3);
    ws_none(g, ig, want, n2, q5);
    let e = Seq::<cst_Node>::empty();
    assert(fds(g, ig, want, l1, d1, p) == fd(ig, want, tree_of(g, s1, t60, p)));
    let f0 = fd(ig, want, t_at(g, w_rule_name(), n0, q1));
    no_more(f0); no_more(e);
    assert(fds(g, ig, want, l2, d2, p) == f0);
    assert(fds(g, ig, want, l3, d3, p) == f0);
    assert(fds(g, ig, want, l4, d4, p) == f0);
    assert(fds(g, ig, want, l5, d5, p) == f0);
    assert(fds(g, ig, want, l6, d6, p) == f0);
}
pub proof fn b_rule(g: bnf_Grammar, src: Seq<u8>, r: RuleW, p: int) -> (d: Der)
    requires text_facts(g), rule_w_ok(r), stands(src, p, wr_rule(r)),
    ensures
        derives(g, dn(w_content()), d), word(d) == wr_rule(r), placed(t_at(g, w_content(), d, p), 4, p, wr_rule(r).len()), wr_rule(r).len() > 0,
        conv_rule(self_bind(), t_at(g, w_content(), d, p), src) == Some(said_rule(r)),
{
    let k18 = is_type(18); let k5 = is_type(5);
    let k = self_bind();
    let w1 = c1(60); let w2 = r.name; let w3 = c1(62); let w4 = spaces(r.gap); let w5 = c3(58, 58, 61); let w6 = spaces(r.alts[0].gap); let w7 = wr_body(r.alts);
    let v = w1 + w2 + w3 + w4 + w5 + w6;
    cut(src, p, v, w7);
    cut(src, p, w1 + w2 + w3 + w4 + w5, w6);
    cut(src, p, w1 + w2 + w3 + w4, w5);
    cut(src, p, w1 + w2 + w3, w4);
    cut(src, p, w1 + w2, w3);
    cut(src, p, w1, w2);
    let m = b_name(g, r.name, p + 1);
    let b1 = b_ws(g, r.gap);
    let b2 = b_ws(g, r.alts[0].gap);
    let q = p + v.len();
    let e = b_body(g, src, r.alts, q);
    let d = n7(g, m, b1, b2, e);
    let t = t_at(g, w_content(), d, p);
    rule_node(g, ig(), k18, m, b1, b2, e, p);
    rule_node(g, ig(), k5, m, b1, b2, e, p);
    named_rule_is(g, w_content());
    hits_tree(g, ig(), k18, dn(w_content()), d, p);
    hits_tree(g, ig(), k5, dn(w_content()), d, p);
    let nm = t_at(g, w_rule_name(), m, p + 1); let ne = t_at(g, w_expression(), e, q);
    assert(fd(ig(), k18, nm) == Seq::empty().push(nm));
    name_none(g, ig(), k5, m, p + 1);
    fd_self(ig(), k5, ne, 5);
    no_more(Seq::empty().push(ne));
    assert(k.ignored == ig() && k.head == 18 && k.tail == 5);
    assert(word(d) == wr_rule(r));
    assert(wr_rule(r).len() - word(e).len() == v.len());
    assert(fd(ig(), k5, t) == Seq::empty().push(ne));
    assert(hits(k.ignored, k18, t)[0] == nm);
    text_of(src, nm, 18, p + 1, r.name);
    d
}
// ---- texts -------------------------------------------------------------------------------------
pub proof fn b_line(g: bnf_Grammar, src: Seq<u8>, gap: nat, r: Option<RuleW>, p: int) -> (d: Der)
    requires text_facts(g), r is Some ==> rule_w_ok(r->0), stands(src, p, spaces(gap) + wr_opt(r)),
    ensures
        derives(g, dn(w_line()), d), word(d) == spaces(gap) + wr_opt(r),
        gather(f_rule(self_bind(), src), fd(ig(), is_type(4), t_at(g, w_line(), d, p))) == Some(said_opt(r)),
{
    let k4 = is_type(4);
    let f = f_rule(self_bind(), src);
    let w1 = spaces(gap);
    cut(src, p, w1, wr_opt(r));
    let q = p + w1.len();
    let a = b_ws(g, gap);
    ws_none(g, ig(), k4, a, p);
    let e = match r {
        None => { no_node(g, ig(), k4, w_opt_content(), 3, q); n0(g, 3) },
        Some(x) => {
            let c = b_rule(g, src, x, q);
            one_node(g, ig(), k4, w_opt_content(), 3, dn(w_content()), c, q);
            let nc = t_at(g, w_content(), c, q);
            fd_self(ig(), k4, nc, 4);
            gather_one(f, nc);
            n1(g, 3, dn(w_content()), c)
        },
    };
    let d = n2(g, 2, dn(w_opt_whitespace()), dn(w_opt_content()), a, e);
    two_node(g, ig(), k4, w_line(), 2, dn(w_opt_whitespace()), dn(w_opt_content()), a, e, p);
    no_more(fd(ig(), k4, t_at(g, w_opt_content(), e, q)));
    d
}
pub proof fn b_more(g: bnf_Grammar, src: Seq<u8>, l: Seq<LineW>, p: int) -> (d: Der)
    requires text_facts(g), lines_ok(l), stands(src, p, wr_lines(l)),
    ensures
        derives(g, dn(w_more_lines()), d), word(d) == wr_lines(l),
        gather(f_rule(self_bind(), src), fd(ig(), is_type(4), t_at(g, w_more_lines(), d, p))) == Some(said_lines(l)),
    decreases l.len(),
{
    let k4 = is_type(4);
    let f = f_rule(self_bind(), src);
    if l.len() == 0 {
        no_node(g, ig(), k4, w_more_lines(), 1, p);
        n0(g, 1)
    } else {
        let w1 = wr_eol(l[0].crlf); let w2 = spaces(l[0].gap) + wr_opt(l[0].rule); let r = l.drop_first();
        cut(src, p, w1 + w2, wr_lines(r));
        cut(src, p, w1, w2);
        assert(line_ok(l[0]));
        assert forall|j: int| 0 <= j < r.len() implies line_ok(#[trigger] r[j]) by { assert(r[j] == l[j + 1]); }
        let p2 = p + w1.len(); let p3 = p2 + w2.len();
        let t = Der::Text(w1);
        one_node(g, ig(), k4, w_EOL(), 25, dt(w1), t, p);
        let a = n1(g, 25, dt(w1), t);
        let b = b_line(g, src, l[0].gap, l[0].rule, p2);
        let c = b_more(g, src, r, p3);
        let d = n3(g, 1, dn(w_EOL()), dn(w_line()), dn(w_more_lines()), a, b, c);
        three_node(g, ig(), k4, w_more_lines(), 1, dn(w_EOL()), dn(w_line()), dn(w_more_lines()), a, b, c, p);
        let fb = fd(ig(), k4, t_at(g, w_line(), b, p2)); let fc = fd(ig(), k4, t_at(g, w_more_lines(), c, p3));
        no_more(fb);
        gather_cat(f, fb, fc);
        d
    }
}
// a text written for t has a derivation, and is read as what t says
pub proof fn b_whole(g: bnf_Grammar, t: TextW) -> (d: Der)
    requires text_facts(g), text_ok(t),
    ensures
        derives(g, dn(w_syntax()), d), word(d) == written(t),
        conv_grammar(self_bind(), t_at(g, w_syntax(), d, 0), written(t)) == Some(said(t)),
{
    let src = written(t);
    let k4 = is_type(4);
    let f = f_rule(self_bind(), src);
    let w1 = spaces(t.gap); let w2 = wr_rule(t.rule); let w3 = wr_lines(t.lines);
    assert(src.subrange(0, src.len() as int) =~= src);
    cut(src, 0, w1 + w2, w3);
    cut(src, 0, w1, w2);
    let p2 = w1.len() as int; let p3 = p2 + w2.len();
    let a = b_ws(g, t.gap);
    let b = b_rule(g, src, t.rule, p2);
    let c = b_more(g, src, t.lines, p3);
    ws_none(g, ig(), k4, a, 0);
    let d = n3(g, 0, dn(w_opt_whitespace()), dn(w_content()), dn(w_more_lines()), a, b, c);
    three_node(g, ig(), k4, w_syntax(), 0, dn(w_opt_whitespace()), dn(w_content()), dn(w_more_lines()), a, b, c, 0);
    let nb = t_at(g, w_content(), b, p2); let fc = fd(ig(), k4, t_at(g, w_more_lines(), c, p3));
    fd_self(ig(), k4, nb, 4);
    no_more(Seq::empty().push(nb));
    gather_one(f, nb);
    gather_cat(f, Seq::empty().push(nb), fc);
    named_rule_is(g, w_syntax());
    hits_tree(g, ig(), k4, dn(w_syntax()), d, 0);
    assert(self_bind().ignored == ig() && self_bind().rule == 4);
    d
}

} // verus!
