// The parser: derivation trees, the stack machine, and their equivalence.
verus! {

pub open spec fn mk(t: int, p: int, q: int, kids: Seq<cst_Node>) -> cst_Node { cst_Node::node(cst_node { typei: t, start: p, end: q, childs: kids }) }
pub open spec fn n_type(n: cst_Node) -> int { n->node_0.typei }
pub open spec fn n_start(n: cst_Node) -> int { n->node_0.start }
pub open spec fn n_end(n: cst_Node) -> int { n->node_0.end }
pub open spec fn n_kids(n: cst_Node) -> Seq<cst_Node> { n->node_0.childs }
pub open spec fn one_nothing(p: int) -> Seq<cst_Node> { seq![mk(-2, p, p, Seq::empty())] }

// ---- derivation trees --------------------------------------------------------
// kids lie next to each other from p to q
pub open spec fn tiles(kids: Seq<cst_Node>, p: int, q: int) -> bool {
    if kids.len() == 0 { p == q } else {
        n_start(kids[0]) == p && n_end(kids[kids.len() - 1]) == q
        && forall|i: int| 0 <= i < kids.len() - 1 ==> n_end(#[trigger] kids[i]) == n_start(kids[i + 1])
    }
}

// n is a derivation by the table, for symbol o, of the source text it spans
pub open spec fn deriv(t: Table, src: Seq<u8>, o: parser_ParserOp, n: cst_Node) -> bool
    decreases n,
{
    match n {
        cst_Node::node(y) => 0 <= y.start <= y.end <= src.len() && match o {
            parser_ParserOp::terminal_t(x) => y.typei == -1 && src.subrange(y.start, y.end) == x.value
                && y.childs == if x.value.len() == 0 { one_nothing(y.start) } else { Seq::empty() },
            parser_ParserOp::opChar_t(x) => y.typei == -1 && src.subrange(y.start, y.end) == seq![x.value] && y.childs == Seq::<cst_Node>::empty(),
            parser_ParserOp::nonTerminal_t(x) => y.typei == x.name && match expand(t, x.name, look(src, y.start)) {
                None => false,
                Some(e) => if e.len() == 0 { y.end == y.start && y.childs == one_nothing(y.start) } else {
                    y.childs.len() == e.len() && tiles(y.childs, y.start, y.end)
                    && forall|i: int| 0 <= i < y.childs.len() ==> deriv(t, src, e[i], #[trigger] y.childs[i])
                },
            },
            _ => false,
        },
        _ => false,
    }
}
pub open spec fn derivs(t: Table, src: Seq<u8>, os: Seq<parser_ParserOp>, ns: Seq<cst_Node>) -> bool {
    os.len() == ns.len() && forall|i: int| 0 <= i < ns.len() ==> deriv(t, src, os[i], #[trigger] ns[i])
}
// a derivation of the whole source from row 0
pub open spec fn parse_tree(t: Table, src: Seq<u8>, n: cst_Node) -> bool {
    deriv(t, src, op_nt(0), n) && n_start(n) == 0 && n_end(n) == src.len()
}

// ---- the stack machine ----------------------------------------------------------
pub struct Cfg { pub ops: Seq<parser_ParserOp>, pub prods: Seq<cst_Node>, pub pos: int }
pub enum StepR { Next(Cfg), Fail, Done(cst_Node), Stuck }

pub open spec fn chars(v: Seq<u8>) -> Seq<parser_ParserOp> { Seq::new(v.len(), |i: int| op_c(v[i])) }
pub open spec fn is_lit(n: cst_Node) -> bool { n is node && n_type(n) == -1 }

pub open spec fn step(t: Table, src: Seq<u8>, c: Cfg) -> StepR {
    if c.ops.len() == 0 { StepR::Stuck } else {
        let rest = c.ops.drop_last();
        let np = c.prods.len();
        match c.ops.last() {
            parser_ParserOp::nonTerminal_t(x) => match expand(t, x.name, look(src, c.pos)) {
                None => StepR::Fail,
                Some(e) => StepR::Next(Cfg { ops: rest.push(op_f(x.name, c.pos, e.len() as int)) + e.reverse(), ..c }),
            },
            parser_ParserOp::terminal_t(x) => StepR::Next(Cfg { ops: rest.push(op_f(-1, c.pos, x.value.len() as int)) + chars(x.value).reverse(), ..c }),
            parser_ParserOp::opChar_t(x) => if 0 <= c.pos < src.len() && src[c.pos] == x.value {
                StepR::Next(Cfg { ops: rest, prods: c.prods.push(mk(-1, c.pos, c.pos + 1, Seq::empty())), pos: c.pos + 1 })
            } else { StepR::Fail },
            parser_ParserOp::function_t(f) => if f.amount == 0 {
                StepR::Next(Cfg { ops: rest, prods: c.prods.push(mk(f.name, c.pos, c.pos, one_nothing(c.pos))), ..c })
            } else if 0 < f.amount <= np {
                let top = c.prods.subrange(np - f.amount, np as int);
                let kids = if f.name == -1 { Seq::empty() } else { top };
                if f.name == -1 && !(forall|i: int| 0 <= i < top.len() ==> is_lit(#[trigger] top[i])) { StepR::Stuck }
                else { StepR::Next(Cfg { ops: rest, prods: c.prods.subrange(0, np - f.amount).push(mk(f.name, f.pos, c.pos, kids)), ..c }) }
            } else { StepR::Stuck },
            parser_ParserOp::opEOS_t(_) => if c.pos < src.len() || np == 0 { StepR::Fail } else { StepR::Done(c.prods.last()) },
            _ => StepR::Stuck,
        }
    }
}

pub enum RunR { More, Fail, Done(cst_Node), Stuck }
pub open spec fn run(t: Table, src: Seq<u8>, c: Cfg, k: nat) -> RunR
    decreases k,
{
    if k == 0 { RunR::More } else {
        match step(t, src, c) {
            StepR::Next(d) => run(t, src, d, (k - 1) as nat),
            StepR::Fail => RunR::Fail,
            StepR::Done(n) => RunR::Done(n),
            StepR::Stuck => RunR::Stuck,
        }
    }
}
pub open spec fn start_cfg() -> Cfg { Cfg { ops: seq![op_eos(), op_nt(0)], prods: Seq::empty(), pos: 0 } }

// the machine comes to an end
pub open spec fn halts(t: Table, src: Seq<u8>) -> bool { exists|k: nat| !(run(t, src, start_cfg(), k) is More) }

pub open spec fn fuel(t: Table, src: Seq<u8>) -> nat { choose|k: nat| !(run(t, src, start_cfg(), k) is More) }

// c leads to d in m steps
pub open spec fn leads(t: Table, src: Seq<u8>, c: Cfg, m: nat, d: Cfg) -> bool { forall|k: nat| #[trigger] run(t, src, d, k) == run(t, src, c, m + k) }

pub proof fn leads_step(t: Table, src: Seq<u8>, c: Cfg, m: nat, d: Cfg)
    requires leads(t, src, c, m, d), step(t, src, d) is Next,
    ensures leads(t, src, c, m + 1, step(t, src, d)->Next_0),
{
    let e = step(t, src, d)->Next_0;
    assert forall|k: nat| #[trigger] run(t, src, e, k) == run(t, src, c, m + 1 + k) by {
        assert(run(t, src, d, k + 1) == run(t, src, c, m + (k + 1)));
    }
}
pub proof fn leads_trans(t: Table, src: Seq<u8>, c: Cfg, m: nat, d: Cfg, j: nat, e: Cfg)
    requires leads(t, src, c, m, d), leads(t, src, d, j, e),
    ensures leads(t, src, c, m + j, e),
{
    assert forall|k: nat| #[trigger] run(t, src, e, k) == run(t, src, c, m + j + k) by {
        assert(run(t, src, d, j + k) == run(t, src, c, m + (j + k)));
    }
}
// more steps change no result
pub proof fn run_more(t: Table, src: Seq<u8>, c: Cfg, k: nat, j: nat)
    requires !(run(t, src, c, k) is More), k <= j,
    ensures run(t, src, c, j) == run(t, src, c, k),
    decreases k,
{
    if let StepR::Next(d) = step(t, src, c) { run_more(t, src, d, (k - 1) as nat, (j - 1) as nat); }
}
pub proof fn run_same(t: Table, src: Seq<u8>, c: Cfg, k: nat, j: nat)
    requires !(run(t, src, c, k) is More), !(run(t, src, c, j) is More),
    ensures run(t, src, c, j) == run(t, src, c, k),
{
    if k <= j { run_more(t, src, c, k, j); } else { run_more(t, src, c, j, k); }
}

// a machine that is still running has fuel left
pub proof fn running(t: Table, src: Seq<u8>, m: nat, c: Cfg)
    requires halts(t, src), leads(t, src, start_cfg(), m, c),
    ensures m < fuel(t, src),
{
    assert(run(t, src, c, 0) == run(t, src, start_cfg(), m + 0));
    if fuel(t, src) <= m { run_more(t, src, start_cfg(), fuel(t, src), m); }
}

// ---- the machine finds every derivation ------------------------------------------

pub proof fn leads_one(t: Table, src: Seq<u8>, c: Cfg)
    requires step(t, src, c) is Next,
    ensures leads(t, src, c, 1, step(t, src, c)->Next_0),
{
    assert forall|k: nat| #[trigger] run(t, src, step(t, src, c)->Next_0, k) == run(t, src, c, 1 + k) by { }
}

pub open spec fn before(rest: Seq<parser_ParserOp>, o: parser_ParserOp, prods: Seq<cst_Node>, p: int) -> Cfg { Cfg { ops: rest.push(o), prods: prods, pos: p } }
pub open spec fn after(rest: Seq<parser_ParserOp>, prods: Seq<cst_Node>, q: int) -> Cfg { Cfg { ops: rest, prods: prods, pos: q } }

pub proof fn complete(t: Table, src: Seq<u8>, o: parser_ParserOp, n: cst_Node, rest: Seq<parser_ParserOp>, prods: Seq<cst_Node>) -> (m: nat)
    requires deriv(t, src, o, n), 
    ensures leads(t, src, before(rest, o, prods, n_start(n)), m, after(rest, prods.push(n), n_end(n))),
    decreases n, 0nat,
{
    let y = n->node_0;
    let p = y.start;
    let q = y.end;
    let c0 = before(rest, o, prods, p);
    assert(c0.ops.last() == o && c0.ops.drop_last() =~= rest);
    match o {
        parser_ParserOp::opChar_t(x) => {
            assert(src.subrange(p, q).len() == 1 && src.subrange(p, q)[0] == src[p]);
            leads_one(t, src, c0);
            1
        }
        parser_ParserOp::terminal_t(x) => {
            leads_one(t, src, c0);
            let f = op_f(-1, p, x.value.len() as int);
            let rest1 = rest.push(f);
            let c1 = Cfg { ops: rest1 + chars(x.value).reverse(), prods: prods, pos: p };
            assert(step(t, src, c0)->Next_0 == c1);
            let ls = lits(p, x.value.len());
            complete_chars(t, src, x.value, rest1, prods, p);
            let c2 = Cfg { ops: rest1, prods: prods + ls, pos: q };
            leads_trans(t, src, c0, 1, c1, x.value.len(), c2);
            assert(c2.ops.last() == f && c2.ops.drop_last() =~= rest);
            if x.value.len() > 0 {
                assert(c2.prods.subrange(prods.len() as int, c2.prods.len() as int) =~= ls);
                assert(c2.prods.subrange(0, prods.len() as int) =~= prods);
            } else { assert(c2.prods =~= prods); }
            leads_step(t, src, c0, 1 + x.value.len(), c2);
            1 + x.value.len() + 1
        }
        parser_ParserOp::nonTerminal_t(x) => {
            leads_one(t, src, c0);
            let e = expand(t, x.name, look(src, p))->0;
            let f = op_f(x.name, p, e.len() as int);
            let rest1 = rest.push(f);
            let c1 = Cfg { ops: rest1 + e.reverse(), prods: prods, pos: p };
            assert(step(t, src, c0)->Next_0 == c1);
            if e.len() == 0 {
                assert(c1.ops =~= rest1);
                assert(c1.ops.drop_last() =~= rest);
                leads_step(t, src, c0, 1, c1);
                2
            } else {
                let ns = y.childs;
                assert(ns.skip(0) =~= ns && e.skip(0) =~= e);
                let m = complete_list(t, src, e, ns, 0, rest1, prods, p, q);
                let c2 = Cfg { ops: rest1, prods: prods + ns, pos: q };
                leads_trans(t, src, c0, 1, c1, m, c2);
                assert(c2.ops.last() == f && c2.ops.drop_last() =~= rest);
                assert(c2.prods.subrange(prods.len() as int, c2.prods.len() as int) =~= ns);
                assert(c2.prods.subrange(0, prods.len() as int) =~= prods);
                assert(x.name != -1);
                leads_step(t, src, c0, 1 + m, c2);
                1 + m + 1
            }
        }
        _ => 0,
    }
}

// literal nodes of k bytes from p
pub open spec fn lits(p: int, k: nat) -> Seq<cst_Node> { Seq::new(k, |i: int| mk(-1, p + i, p + i + 1, Seq::empty())) }

pub proof fn complete_chars(t: Table, src: Seq<u8>, v: Seq<u8>, rest: Seq<parser_ParserOp>, prods: Seq<cst_Node>, p: int)
    requires 0 <= p, p + v.len() <= src.len(), src.subrange(p, p + v.len()) == v,
    ensures leads(t, src, Cfg { ops: rest + chars(v).reverse(), prods: prods, pos: p }, v.len(), Cfg { ops: rest, prods: prods + lits(p, v.len()), pos: p + v.len() }),
    decreases v.len(),
{
    let c0 = Cfg { ops: rest + chars(v).reverse(), prods: prods, pos: p };
    if v.len() == 0 {
        assert(c0.ops =~= rest);
        assert(prods + lits(p, 0) =~= prods);
    } else {
        let w = v.drop_first();
        assert(src.subrange(p, p + v.len())[0] == src[p]);
        assert(src.subrange(p + 1, p + 1 + w.len()) =~= src.subrange(p, p + v.len()).drop_first());
        let l = mk(-1, p, p + 1, Seq::empty());
        let c1 = Cfg { ops: rest + chars(w).reverse(), prods: prods.push(l), pos: p + 1 };
        assert(c0.ops.last() == op_c(v[0]));
        assert(c0.ops.drop_last() =~= rest + chars(w).reverse());
        assert(step(t, src, c0) == StepR::Next(c1));
        leads_one(t, src, c0);
        complete_chars(t, src, w, rest, prods.push(l), p + 1);
        let c2 = Cfg { ops: rest, prods: prods.push(l) + lits(p + 1, w.len()), pos: p + 1 + w.len() };
        leads_trans(t, src, c0, 1, c1, w.len(), c2);
        assert(prods.push(l) + lits(p + 1, w.len()) =~= prods + lits(p, v.len()));
    }
}

pub proof fn complete_list(t: Table, src: Seq<u8>, os: Seq<parser_ParserOp>, ns: Seq<cst_Node>, i: nat, rest: Seq<parser_ParserOp>, prods: Seq<cst_Node>, p: int, q: int) -> (m: nat)
    requires derivs(t, src, os, ns), i <= ns.len(), tiles(ns.skip(i as int), p, q),
    ensures leads(t, src, Cfg { ops: rest + os.skip(i as int).reverse(), prods: prods, pos: p }, m, Cfg { ops: rest, prods: prods + ns.skip(i as int), pos: q }),
    decreases ns, ns.len() - i,
{
    let k = ns.skip(i as int);
    let c0 = Cfg { ops: rest + os.skip(i as int).reverse(), prods: prods, pos: p };
    if i == ns.len() {
        assert(c0.ops =~= rest);
        assert(prods + k =~= prods);
        0
    } else {
        let rest1 = rest + os.skip(i as int + 1).reverse();
        assert(c0.ops =~= rest1.push(os[i as int]));
        let n = ns[i as int];
        assert(k[0] == n);
        let m1 = complete(t, src, os[i as int], n, rest1, prods);
        let c1 = Cfg { ops: rest1, prods: prods.push(n), pos: n_end(n) };
        let k2 = ns.skip(i as int + 1);
        assert(tiles(k2, n_end(n), q)) by {
            assert forall|j: int| 0 <= j < k2.len() - 1 implies n_end(#[trigger] k2[j]) == n_start(k2[j + 1]) by { assert(k2[j] == k[j + 1]); }
            if k2.len() > 0 { assert(k2[0] == k[1]); assert(k2[k2.len() - 1] == k[k.len() - 1]); assert(n_end(k[0]) == n_start(k[0int + 1])); }
        }
        let m2 = complete_list(t, src, os, ns, i + 1, rest, prods.push(n), n_end(n), q);
        let c2 = Cfg { ops: rest, prods: prods.push(n) + k2, pos: q };
        leads_trans(t, src, c0, m1, c1, m2, c2);
        assert(prods.push(n) + k2 =~= prods + k);
        m1 + m2
    }
}

// ---- and finds nothing else ----------------------------------------------------------

// what k steps do to the symbol on top of the stack: they end without a result, or
// they replace the symbol by a derivation of it
pub open spec fn swaps(t: Table, src: Seq<u8>, o: parser_ParserOp, rest: Seq<parser_ParserOp>, prods: Seq<cst_Node>, p: int, k: nat, r: Option<(cst_Node, nat)>) -> bool {
    match r {
        None => run(t, src, before(rest, o, prods, p), k) is More || run(t, src, before(rest, o, prods, p), k) is Fail,
        Some((n, m)) => m <= k && deriv(t, src, o, n) && n_start(n) == p
            && leads(t, src, before(rest, o, prods, p), m, after(rest, prods.push(n), n_end(n))),
    }
}

pub proof fn sound(t: Table, src: Seq<u8>, o: parser_ParserOp, rest: Seq<parser_ParserOp>, prods: Seq<cst_Node>, p: int, k: nat) -> (r: Option<(cst_Node, nat)>)
    requires table_ok(t), sym_ok(o), 0 <= p <= src.len(),
    ensures swaps(t, src, o, rest, prods, p, k, r),
    decreases k, 1nat, 0nat,
{
    let c0 = before(rest, o, prods, p);
    assert(c0.ops.last() == o && c0.ops.drop_last() =~= rest);
    if k == 0 { return None; }
    match o {
        parser_ParserOp::terminal_t(x) => {
            leads_one(t, src, c0);
            let f = op_f(-1, p, x.value.len() as int);
            let rest1 = rest.push(f);
            let c1 = Cfg { ops: rest1 + chars(x.value).reverse(), prods: prods, pos: p };
            assert(step(t, src, c0)->Next_0 == c1);
            let v = x.value;
            if sound_chars(t, src, v, rest1, prods, p, (k - 1) as nat) {
                if k < v.len() + 2 {
                    let c2 = Cfg { ops: rest1, prods: prods + lits(p, v.len()), pos: p + v.len() };
                    if k == v.len() + 1 {
                        assert(run(t, src, c1, v.len()) == run(t, src, c2, 0));
                    } else {
                        assert(run(t, src, c1, (k - 1) as nat) is More) by {
                            if !(run(t, src, c1, (k - 1) as nat) is More) { run_more(t, src, c1, (k - 1) as nat, v.len()); assert(run(t, src, c2, 0) == run(t, src, c1, v.len() + 0)); }
                        }
                    }
                    None
                } else {
                    let n = mk(-1, p, p + v.len(), if v.len() == 0 { one_nothing(p) } else { Seq::empty() });
                    let m = complete(t, src, o, n, rest, prods);
                    assert(leads(t, src, c0, v.len() + 2, after(rest, prods.push(n), n_end(n)))) by {
                        let c2 = Cfg { ops: rest1, prods: prods + lits(p, v.len()), pos: p + v.len() };
                        leads_trans(t, src, c0, 1, c1, v.len(), c2);
                        assert(c2.ops.last() == f && c2.ops.drop_last() =~= rest);
                        if v.len() > 0 {
                            assert(c2.prods.subrange(prods.len() as int, c2.prods.len() as int) =~= lits(p, v.len()));
                            assert(c2.prods.subrange(0, prods.len() as int) =~= prods);
                        } else { assert(c2.prods =~= prods); }
                        leads_step(t, src, c0, 1 + v.len(), c2);
                    }
                    Some((n, v.len() + 2))
                }
            } else { None }
        }
        parser_ParserOp::nonTerminal_t(x) => {
            match expand(t, x.name, look(src, p)) {
                None => None,
                Some(e) => {
                    leads_one(t, src, c0);
                    let f = op_f(x.name, p, e.len() as int);
                    let rest1 = rest.push(f);
                    let c1 = Cfg { ops: rest1 + e.reverse(), prods: prods, pos: p };
                    assert(step(t, src, c0)->Next_0 == c1);
                    assert(cell_ok(e));
                    if e.len() == 0 {
                        assert(c1.ops =~= rest1);
                        assert(c1.ops.drop_last() =~= rest);
                        leads_step(t, src, c0, 1, c1);
                        if k == 1 { assert(run(t, src, c0, 1) == run(t, src, c1, 0)); None } else {
                            Some((mk(x.name, p, p, one_nothing(p)), 2))
                        }
                    } else {
                        assert(e.skip(0) =~= e);
                        match sound_list(t, src, e, 0, rest1, prods, p, (k - 1) as nat) {
                            None => None,
                            Some((ns, q, m)) => {
                                let c2 = Cfg { ops: rest1, prods: prods + ns, pos: q };
                                leads_trans(t, src, c0, 1, c1, m, c2);
                                if m + 2 > k { assert(run(t, src, c2, 0) == run(t, src, c0, 1 + m + 0)); None } else {
                                    assert(c2.ops.last() == f && c2.ops.drop_last() =~= rest);
                                    assert(c2.prods.subrange(prods.len() as int, c2.prods.len() as int) =~= ns);
                                    assert(c2.prods.subrange(0, prods.len() as int) =~= prods);
                                    leads_step(t, src, c0, 1 + m, c2);
                                    let n = mk(x.name, p, q, ns);
                                    assert(n_start(ns[0]) == p);
                                    Some((n, m + 2))
                                }
                            }
                        }
                    }
                }
            }
        }
        _ => None,
    }
}

// the bytes of a literal are there, or k steps give no result
pub proof fn sound_chars(t: Table, src: Seq<u8>, v: Seq<u8>, rest: Seq<parser_ParserOp>, prods: Seq<cst_Node>, p: int, k: nat) -> (r: bool)
    requires 0 <= p <= src.len(),
    ensures
        r ==> p + v.len() <= src.len() && src.subrange(p, p + v.len()) == v
            && leads(t, src, Cfg { ops: rest + chars(v).reverse(), prods: prods, pos: p }, v.len(), Cfg { ops: rest, prods: prods + lits(p, v.len()), pos: p + v.len() }),
        !r ==> run(t, src, Cfg { ops: rest + chars(v).reverse(), prods: prods, pos: p }, k) is More || run(t, src, Cfg { ops: rest + chars(v).reverse(), prods: prods, pos: p }, k) is Fail,
    decreases k, 0nat, 0nat,
{
    let c0 = Cfg { ops: rest + chars(v).reverse(), prods: prods, pos: p };
    if v.len() == 0 {
        assert(src.subrange(p, p) =~= v);
        complete_chars(t, src, v, rest, prods, p);
        true
    } else if k == 0 { false } else {
        let w = v.drop_first();
        let l = mk(-1, p, p + 1, Seq::empty());
        let c1 = Cfg { ops: rest + chars(w).reverse(), prods: prods.push(l), pos: p + 1 };
        assert(c0.ops.last() == op_c(v[0]));
        assert(c0.ops.drop_last() =~= rest + chars(w).reverse());
        if p < src.len() && src[p] == v[0] {
            assert(step(t, src, c0) == StepR::Next(c1));
            leads_one(t, src, c0);
            assert(run(t, src, c1, (k - 1) as nat) == run(t, src, c0, k));
            if sound_chars(t, src, w, rest, prods.push(l), p + 1, (k - 1) as nat) {
                assert(src.subrange(p, p + v.len()) =~= v) by {
                    assert forall|i: int| 0 <= i < v.len() implies src[p + i] == #[trigger] v[i] by {
                        if i > 0 { assert(v[i] == w[i - 1]); assert(src.subrange(p + 1, p + 1 + w.len())[i - 1] == w[i - 1]); }
                    }
                }
                complete_chars(t, src, v, rest, prods, p);
                true
            } else { false }
        } else { false }
    }
}

// the symbols from i on, one after the other
pub proof fn sound_list(t: Table, src: Seq<u8>, os: Seq<parser_ParserOp>, i: nat, rest: Seq<parser_ParserOp>, prods: Seq<cst_Node>, p: int, k: nat) -> (r: Option<(Seq<cst_Node>, int, nat)>)
    requires table_ok(t), cell_ok(os), i <= os.len(), 0 <= p <= src.len(),
    ensures match r {
        None => run(t, src, Cfg { ops: rest + os.skip(i as int).reverse(), prods: prods, pos: p }, k) is More || run(t, src, Cfg { ops: rest + os.skip(i as int).reverse(), prods: prods, pos: p }, k) is Fail,
        Some((ns, q, m)) => m <= k && p <= q <= src.len() && derivs(t, src, os.skip(i as int), ns) && tiles(ns, p, q)
            && leads(t, src, Cfg { ops: rest + os.skip(i as int).reverse(), prods: prods, pos: p }, m, Cfg { ops: rest, prods: prods + ns, pos: q }),
    },
    decreases k, 2nat, os.len() - i,
{
    let c0 = Cfg { ops: rest + os.skip(i as int).reverse(), prods: prods, pos: p };
    if i == os.len() {
        assert(c0.ops =~= rest);
        assert(prods + Seq::<cst_Node>::empty() =~= prods);
        Some((Seq::empty(), p, 0))
    } else {
        let rest1 = rest + os.skip(i as int + 1).reverse();
        assert(c0.ops =~= rest1.push(os[i as int]));
        match sound(t, src, os[i as int], rest1, prods, p, k) {
            None => None,
            Some((n, m1)) => {
                let c1 = Cfg { ops: rest1, prods: prods.push(n), pos: n_end(n) };
                assert(run(t, src, c1, (k - m1) as nat) == run(t, src, c0, m1 + (k - m1) as nat));
                match sound_list(t, src, os, i + 1, rest, prods.push(n), n_end(n), (k - m1) as nat) {
                    None => None,
                    Some((ks, q, m2)) => {
                        let ns = seq![n] + ks;
                        let c2 = Cfg { ops: rest, prods: prods.push(n) + ks, pos: q };
                        leads_trans(t, src, c0, m1, c1, m2, c2);
                        assert(prods.push(n) + ks =~= prods + ns);
                        assert(derivs(t, src, os.skip(i as int), ns)) by {
                            assert forall|j: int| 0 <= j < ns.len() implies deriv(t, src, os.skip(i as int)[j], #[trigger] ns[j]) by {
                                if j > 0 { assert(os.skip(i as int)[j] == os.skip(i as int + 1)[j - 1]); assert(ns[j] == ks[j - 1]); }
                            }
                        }
                        assert(tiles(ns, p, q)) by {
                            assert forall|j: int| 0 <= j < ns.len() - 1 implies n_end(#[trigger] ns[j]) == n_start(ns[j + 1]) by {
                                if j > 0 { assert(ns[j] == ks[j - 1]); assert(ns[j + 1] == ks[j]); assert(n_end(ks[j - 1]) == n_start(ks[j - 1 + 1])); } else { assert(ns[1] == ks[0]); }
                            }
                            if ks.len() > 0 { assert(ns[ns.len() - 1] == ks[ks.len() - 1]); }
                        }
                        Some((ns, q, m1 + m2))
                    }
                }
            }
        }
    }
}

// ---- whole sources --------------------------------------------------------------------
// the machine never gets stuck, and every result is a derivation of the whole source
pub proof fn run_sound(t: Table, src: Seq<u8>, k: nat)
    requires table_ok(t),
    ensures
        !(run(t, src, start_cfg(), k) is Stuck),
        run(t, src, start_cfg(), k) is Done ==> parse_tree(t, src, run(t, src, start_cfg(), k)->Done_0),
{
    let rest = seq![op_eos()];
    let none = Seq::<cst_Node>::empty();
    let c0 = before(rest, op_nt(0), none, 0);
    assert(start_cfg().ops =~= c0.ops);
    if let Some((n, m)) = sound(t, src, op_nt(0), rest, none, 0, k) {
        let c1 = after(rest, none.push(n), n_end(n));
        assert(run(t, src, c1, (k - m) as nat) == run(t, src, c0, m + (k - m) as nat));
        assert(c1.ops.last() == op_eos());
        assert(c1.prods.last() == n);
    }
}
// every derivation of the whole source is found
pub proof fn run_complete(t: Table, src: Seq<u8>, n: cst_Node) -> (k: nat)
    requires parse_tree(t, src, n),
    ensures run(t, src, start_cfg(), k) == RunR::Done(n),
{
    let rest = seq![op_eos()];
    let none = Seq::<cst_Node>::empty();
    assert(start_cfg().ops =~= rest.push(op_nt(0)));
    let m = complete(t, src, op_nt(0), n, rest, none);
    let c1 = after(rest, none.push(n), n_end(n));
    assert(c1.ops.last() == op_eos());
    assert(c1.prods.last() == n);
    assert(run(t, src, c1, 1) == RunR::Done(n)) by { assert(step(t, src, c1) == StepR::Done(n)); }
    assert(run(t, src, c1, 1) == run(t, src, start_cfg(), m + 1));
    m + 1
}
// a source has at most one derivation
pub proof fn one_derivation(t: Table, src: Seq<u8>, n: cst_Node, n2: cst_Node)
    requires parse_tree(t, src, n), parse_tree(t, src, n2),
    ensures n == n2,
{
    let k = run_complete(t, src, n);
    let j = run_complete(t, src, n2);
    run_same(t, src, start_cfg(), k, j);
}

// ---- the shape of a parse tree -----------------------------------------------------------
// every node has a position within the source, the children of a node lie next to each
// other and cover it; -1 is a leaf, but for the empty literal; -2 covers nothing
pub open spec fn shape(n: cst_Node) -> bool
    decreases n,
{
    match n {
        cst_Node::node(y) => 0 <= y.start <= y.end
            && (y.childs.len() == 0 || tiles(y.childs, y.start, y.end))
            && (y.childs.len() == 0 ==> y.typei == -1 || (y.typei == -2 && y.start == y.end))
            && (y.typei == -1 && y.childs.len() > 0 ==> y.childs == one_nothing(y.start) && y.start == y.end)
            && forall|i: int| 0 <= i < y.childs.len() ==> shape(#[trigger] y.childs[i]),
        _ => false,
    }
}
// the text of the leaves, in order
pub open spec fn leaves(src: Seq<u8>, n: cst_Node) -> Seq<u8>
    decreases n, 0nat,
{
    match n {
        cst_Node::node(y) => if y.childs.len() == 0 { src.subrange(y.start, y.end) } else { leaves_of(src, y.childs, y.childs.len()) },
        _ => Seq::empty(),
    }
}
pub open spec fn leaves_of(src: Seq<u8>, ns: Seq<cst_Node>, k: nat) -> Seq<u8>
    decreases ns, k,
{
    if k == 0 || k > ns.len() { Seq::empty() } else { leaves_of(src, ns, (k - 1) as nat) + leaves(src, ns[k - 1]) }
}

pub proof fn deriv_shape(t: Table, src: Seq<u8>, o: parser_ParserOp, n: cst_Node)
    requires deriv(t, src, o, n),
    ensures shape(n), n_end(n) <= src.len(),
    decreases n,
{
    let y = n->node_0;
    if o is nonTerminal_t && expand(t, o->nonTerminal_t_0.name, look(src, y.start))->0.len() > 0 {
        let e = expand(t, o->nonTerminal_t_0.name, look(src, y.start))->0;
        assert forall|i: int| 0 <= i < y.childs.len() implies shape(#[trigger] y.childs[i]) by { deriv_shape(t, src, e[i], y.childs[i]); }
        assert(expand(t, -1, look(src, y.start)) is None);
    } else if y.childs.len() > 0 {
        let m = mk(-2, y.start, y.start, Seq::empty());
        assert(y.childs =~= seq![m]);
        assert(shape(m));
    }
}
pub proof fn shape_spells(src: Seq<u8>, n: cst_Node)
    requires shape(n), n_end(n) <= src.len(),
    ensures leaves(src, n) == src.subrange(n_start(n), n_end(n)),
    decreases n, 0nat,
{
    let y = n->node_0;
    if y.childs.len() > 0 {
        assert(n_start(y.childs[0]) == y.start);
        shape_spells_of(src, y.childs, y.childs.len(), y.start, y.end);
    }
}
pub proof fn shape_spells_of(src: Seq<u8>, ns: Seq<cst_Node>, k: nat, p: int, q: int)
    requires 0 < k <= ns.len(), tiles(ns, p, q), q <= src.len(), 0 <= p, forall|i: int| 0 <= i < ns.len() ==> shape(#[trigger] ns[i]),
    ensures p <= n_end(ns[k - 1]) <= src.len(), leaves_of(src, ns, k) == src.subrange(p, n_end(ns[k - 1])),
    decreases ns, k,
{
    bound(ns, p, q, (k - 1) as nat);
    shape_spells(src, ns[k - 1]);
    reveal_with_fuel(leaves_of, 2);
    if k > 1 {
        shape_spells_of(src, ns, (k - 1) as nat, p, q);
        assert(n_end(ns[k - 2]) == n_start(ns[k - 2 + 1]));
        assert(leaves_of(src, ns, k) =~= src.subrange(p, n_end(ns[k - 1])));
    } else {
        assert(leaves_of(src, ns, 0) =~= Seq::<u8>::empty());
        assert(leaves_of(src, ns, k) =~= leaves(src, ns[0]));
    }
}
pub proof fn bound(ns: Seq<cst_Node>, p: int, q: int, i: nat)
    requires i < ns.len(), tiles(ns, p, q), forall|i: int| 0 <= i < ns.len() ==> shape(#[trigger] ns[i]),
    ensures n_end(ns[i as int]) <= q,
    decreases ns.len() - i,
{
    if i + 1 < ns.len() { bound(ns, p, q, i + 1); assert(n_end(ns[i as int]) == n_start(ns[i as int + 1])); assert(shape(ns[i as int + 1])); }
}
// the tree spells the source: every byte lies in exactly one leaf
pub proof fn parse_tree_spells(t: Table, src: Seq<u8>, n: cst_Node)
    requires parse_tree(t, src, n),
    ensures shape(n), leaves(src, n) == src,
{
    deriv_shape(t, src, op_nt(0), n);
    shape_spells(src, n);
    assert(src.subrange(0, src.len() as int) =~= src);
}

// ---- names ---------------------------------------------------------------------------------
// the types of the nodes of a tree
pub open spec fn types_in(n: cst_Node, ok: spec_fn(int) -> bool) -> bool
    decreases n,
{
    match n {
        cst_Node::node(y) => ok(y.typei) && forall|i: int| 0 <= i < y.childs.len() ==> types_in(#[trigger] y.childs[i], ok),
        _ => false,
    }
}
// every node is a literal, nothing, an end of line, or has a row of the table
pub open spec fn row_or_builtin(t: Table) -> spec_fn(int) -> bool { |n: int| n == -1 || n == -2 || (n >= 0 && t.m.dom().contains(n)) }
pub proof fn deriv_types(t: Table, src: Seq<u8>, o: parser_ParserOp, n: cst_Node)
    requires deriv(t, src, o, n),
    ensures types_in(n, row_or_builtin(t)),
    decreases n,
{
    let y = n->node_0;
    if o is nonTerminal_t && expand(t, o->nonTerminal_t_0.name, look(src, y.start))->0.len() > 0 {
        let e = expand(t, o->nonTerminal_t_0.name, look(src, y.start))->0;
        assert forall|i: int| 0 <= i < y.childs.len() implies types_in(#[trigger] y.childs[i], row_or_builtin(t)) by { deriv_types(t, src, e[i], y.childs[i]); }
    } else if y.childs.len() > 0 {
        let m = mk(-2, y.start, y.start, Seq::empty());
        assert(y.childs =~= seq![m]);
        assert(types_in(m, row_or_builtin(t)));
    }
}

// ---- the implementation's state ------------------------------------------------------------
pub open spec fn pcfg0(p: parser_realParser) -> Cfg { Cfg { ops: p.opStack.stack, prods: p.prodStack.stack, pos: p.scanner.offset } }
// with o put back on the stack
pub open spec fn pcfg(p: parser_realParser, o: parser_ParserOp) -> Cfg { before(p.opStack.stack, o, p.prodStack.stack, p.scanner.offset) }
pub open spec fn pstep(p: parser_realParser, o: parser_ParserOp) -> StepR { step(p.table, p.scanner.src, pcfg(p, o)) }
// p2 is p after processing o, with result r
pub open spec fn does(o: parser_ParserOp, p: parser_realParser, p2: parser_realParser, r: Err) -> bool {
    match pstep(p, o) {
        StepR::Next(d) => r is Nil && pcfg0(p2) == d,
        StepR::Fail => !(r is Nil),
        _ => true,
    }
}
pub open spec fn fixed(p: parser_realParser, p2: parser_realParser) -> bool { p2.table == p.table && p2.names == p.names && p2.scanner.src == p.scanner.src }
// "_literal" and "_nothing"
pub open spec fn name_literal() -> Seq<u8> { seq![95u8, 108u8, 105u8, 116u8, 101u8, 114u8, 97u8, 108u8] }
pub open spec fn name_nothing() -> Seq<u8> { seq![95u8, 110u8, 111u8, 116u8, 104u8, 105u8, 110u8, 103u8] }
// the names of a parser and the two built-in ones
pub open spec fn named(r: GoMap<int, Seq<u8>>, names: GoMap<int, Seq<u8>>) -> bool {
    &&& forall|k: int| #![trigger r.m.dom().contains(k)] r.m.dom().contains(k) <==> names.m.dom().contains(k) || k == -1 || k == -2
    &&& forall|k: int| #![trigger r.m[k]] k != -1 && k != -2 && r.m.dom().contains(k) ==> r.m[k] == names.m[k]
    &&& r.m[-1] == name_literal() && r.m[-2] == name_nothing()
}

pub proof fn leads_next(t: Table, src: Seq<u8>, m: nat, c: Cfg)
    requires table_ok(t), leads(t, src, start_cfg(), m, c),
    ensures
        !(step(t, src, c) is Stuck),
        step(t, src, c) is Next ==> leads(t, src, start_cfg(), m + 1, step(t, src, c)->Next_0),
        step(t, src, c) is Done ==> parse_tree(t, src, step(t, src, c)->Done_0) && (forall|n: cst_Node| parse_tree(t, src, n) ==> n == step(t, src, c)->Done_0),
        step(t, src, c) is Fail ==> (forall|n: cst_Node| !parse_tree(t, src, n)),
{
    assert(run(t, src, c, 1) == run(t, src, start_cfg(), m + 1));
    run_sound(t, src, m + 1);
    match step(t, src, c) {
        StepR::Next(d) => leads_step(t, src, start_cfg(), m, c),
        StepR::Done(x) => { assert forall|n: cst_Node| parse_tree(t, src, n) implies n == x by { one_derivation(t, src, n, x); } }
        StepR::Fail => { assert forall|n: cst_Node| !parse_tree(t, src, n) by { if parse_tree(t, src, n) { let k = run_complete(t, src, n); run_same(t, src, start_cfg(), k, m + 1); } } }
        _ => {}
    }
}
pub proof fn eol_stack(q: parser_realParser, p: parser_realParser, n: int)
    ensures
        p.opStack.stack.push(op_f(n, p.scanner.offset, 1)).push(op_t(seq![10u8])) == p.opStack.stack.push(op_f(n, p.scanner.offset, 1)) + seq![op_t(seq![10u8])].reverse(),
        p.opStack.stack.push(op_f(n, p.scanner.offset, 2)).push(op_t(seq![10u8])).push(op_t(seq![13u8])) == p.opStack.stack.push(op_f(n, p.scanner.offset, 2)) + seq![op_t(seq![13u8]), op_t(seq![10u8])].reverse(),
{
    assert(p.opStack.stack.push(op_f(n, p.scanner.offset, 1)).push(op_t(seq![10u8])) =~= p.opStack.stack.push(op_f(n, p.scanner.offset, 1)) + seq![op_t(seq![10u8])].reverse());
    assert(p.opStack.stack.push(op_f(n, p.scanner.offset, 2)).push(op_t(seq![10u8])).push(op_t(seq![13u8])) =~= p.opStack.stack.push(op_f(n, p.scanner.offset, 2)) + seq![op_t(seq![13u8]), op_t(seq![10u8])].reverse());
}
// the text of a source
pub open spec fn src_text(a: GoAny) -> Option<Seq<u8>> {
    match a {
        GoAny::Str(s) => Some(s),
        GoAny::Bytes(s) => Some(s),
        GoAny::Buffer(b) => b,
        GoAny::Reader(r) => if reader_fails(r) { None } else { Some(reader_data(r)) },
        _ => None,
    }
}
pub open spec fn startable(t: Table) -> bool { t.m.dom().contains(0int) }

pub open spec fn rows_named(t: Table, names: GoMap<int, Seq<u8>>) -> bool { forall|n: int| n >= 0 && #[trigger] t.m.dom().contains(n) ==> names.m.dom().contains(n) }
pub open spec fn known(names: GoMap<int, Seq<u8>>) -> spec_fn(int) -> bool { |n: int| names.m.dom().contains(n) }
// the result is any derivation there is
pub open spec fn finds(t: Table, src: Seq<u8>, n: cst_Node, e: Err) -> bool {
    forall|m: cst_Node| #[trigger] parse_tree(t, src, m) ==> e is Nil && n == m
}
pub proof fn types_more(n: cst_Node, a: spec_fn(int) -> bool, b: spec_fn(int) -> bool)
    requires types_in(n, a), forall|k: int| a(k) ==> #[trigger] b(k),
    ensures types_in(n, b),
    decreases n,
{
    let y = n->node_0;
    assert forall|i: int| 0 <= i < y.childs.len() implies types_in(#[trigger] y.childs[i], b) by { types_more(y.childs[i], a, b); }
}
pub proof fn parsed(t: Table, names: GoMap<int, Seq<u8>>, src: Seq<u8>, n: cst_Node, m: Option<GoMap<int, Seq<u8>>>)
    requires parse_tree(t, src, n), m is Some, named(m->0, names),
    ensures
        shape(n), leaves(src, n) == src,
        rows_named(t, names) ==> types_in(n, known(m->0)),
{
    parse_tree_spells(t, src, n);
    deriv_types(t, src, op_nt(0), n);
    if rows_named(t, names) { types_more(n, row_or_builtin(t), known(m->0)); }
}

} // verus!
