// The layout in which grammars are printed.
verus! {

pub open spec fn lay_piece(b: u8, q: u8) -> Piece { Piece { b, esc: b == 9 || b == 10 || b == 13 || b == 92 || (b == 34 && q == 34) } }
pub open spec fn lay_pieces(n: Seq<u8>, q: u8) -> Seq<Piece> { Seq::new(n.len(), |i: int| lay_piece(n[i], q)) }
pub open spec fn lay_sym(s: bnf_Symbol) -> SymL {
    match s {
        bnf_Symbol::SymbolNonTerminal(v) => SymL::Name(v.Name),
        bnf_Symbol::SymbolTerminal(v) => SymL::Lit(quote_of(v.Name), lay_pieces(v.Name, quote_of(v.Name))),
        _ => SymL::Lit(34, Seq::empty()),
    }
}
// one blank after each symbol, e after the last
pub open spec fn lay_syms(s: Seq<bnf_Symbol>, e: nat) -> Seq<SymW> { Seq::new(s.len(), |i: int| SymW { s: lay_sym(s[i]), gap: if i == s.len() - 1 { e } else { 1 } }) }
pub open spec fn lay_alts(a: Seq<bnf_Sequence>, e: nat) -> Seq<AltW> { Seq::new(a.len(), |i: int| AltW { gap: 1, syms: lay_syms(a[i].Symbols, if i == a.len() - 1 { e } else { 1 }) }) }
pub open spec fn lay_rule(r: bnf_Rule) -> RuleW { RuleW { name: r.Head.Name, gap: 1, alts: lay_alts(r.Tail.Sequences, 0) } }
pub open spec fn lay_line(r: bnf_Rule) -> LineW { LineW { crlf: false, gap: 0, rule: Some(lay_rule(r)) } }
pub open spec fn lay_lines(l: Seq<bnf_Rule>) -> Seq<LineW> { Seq::new(l.len(), |i: int| lay_line(l[i])) }
pub open spec fn layout(g: bnf_Grammar) -> TextW { TextW { gap: 0, rule: lay_rule(g.Rules[0]), lines: lay_lines(g.Rules.drop_first()) } }

// grammars whose text can be read
pub open spec fn can_sym(s: bnf_Symbol) -> bool {
    match s {
        bnf_Symbol::SymbolNonTerminal(v) => name_ok(v.Name),
        bnf_Symbol::SymbolTerminal(v) => v.Name.len() > 0 && forall|i: int| 0 <= i < v.Name.len() ==> writable(#[trigger] v.Name[i]),
        bnf_Symbol::SymbolNothing(_) => true,
        _ => false,
    }
}
pub open spec fn can_alt(s: bnf_Sequence) -> bool { s.Symbols.len() > 0 && forall|i: int| 0 <= i < s.Symbols.len() ==> can_sym(#[trigger] s.Symbols[i]) }
pub open spec fn can_rule(r: bnf_Rule) -> bool { name_ok(r.Head.Name) && r.Tail.Sequences.len() > 0 && forall|i: int| 0 <= i < r.Tail.Sequences.len() ==> can_alt(#[trigger] r.Tail.Sequences[i]) }
pub open spec fn can_print(g: bnf_Grammar) -> bool { g.Rules.len() > 0 && forall|i: int| 0 <= i < g.Rules.len() ==> can_rule(#[trigger] g.Rules[i]) }

// ---- one more at the end ---------------------------------------------------------------
pub proof fn wr_pieces_push(l: Seq<Piece>, x: Piece)
    ensures wr_pieces(l.push(x)) == wr_pieces(l) + wr_piece(x),
    decreases l.len(),
{
    let m = l.push(x);
    if l.len() == 0 { assert(m.drop_first() =~= l); assert(wr_piece(x) + Seq::<u8>::empty() =~= Seq::<u8>::empty() + wr_piece(x)); } else {
        assert(m.drop_first() =~= l.drop_first().push(x));
        wr_pieces_push(l.drop_first(), x);
        assert(wr_piece(l[0]) + (wr_pieces(l.drop_first()) + wr_piece(x)) =~= wr_piece(l[0]) + wr_pieces(l.drop_first()) + wr_piece(x));
    }
}
pub proof fn wr_syms_push(l: Seq<SymW>, x: SymW)
    ensures wr_syms(l.push(x)) == wr_syms(l) + (wr_sym(x.s) + spaces(x.gap)),
    decreases l.len(),
{
    let m = l.push(x);
    let y = wr_sym(x.s) + spaces(x.gap);
    if l.len() == 0 { assert(m.drop_first() =~= l); assert(y + Seq::<u8>::empty() =~= Seq::<u8>::empty() + y); } else {
        assert(m.drop_first() =~= l.drop_first().push(x));
        wr_syms_push(l.drop_first(), x);
        let h = wr_sym(l[0].s) + spaces(l[0].gap);
        assert(h + (wr_syms(l.drop_first()) + y) =~= h + wr_syms(l.drop_first()) + y);
    }
}
pub open spec fn wr_next(x: AltW) -> Seq<u8> { c1(124) + spaces(x.gap) + wr_syms(x.syms) }
pub proof fn wr_alts_push(l: Seq<AltW>, x: AltW)
    ensures wr_more_alts(l.push(x)) == wr_more_alts(l) + wr_next(x),
    decreases l.len(),
{
    let m = l.push(x);
    if l.len() == 0 { assert(m.drop_first() =~= l); assert(wr_next(x) + Seq::<u8>::empty() =~= Seq::<u8>::empty() + wr_next(x)); } else {
        assert(m.drop_first() =~= l.drop_first().push(x));
        wr_alts_push(l.drop_first(), x);
        assert(wr_next(l[0]) + (wr_more_alts(l.drop_first()) + wr_next(x)) =~= wr_next(l[0]) + wr_more_alts(l.drop_first()) + wr_next(x));
    }
}
pub proof fn wr_body_push(l: Seq<AltW>, x: AltW)
    requires l.len() > 0,
    ensures wr_body(l.push(x)) == wr_body(l) + wr_next(x),
{
    assert(l.push(x).drop_first() =~= l.drop_first().push(x));
    wr_alts_push(l.drop_first(), x);
    let h = wr_syms(l[0].syms);
    assert(h + (wr_more_alts(l.drop_first()) + wr_next(x)) =~= h + wr_more_alts(l.drop_first()) + wr_next(x));
}
pub open spec fn wr_line(x: LineW) -> Seq<u8> { wr_eol(x.crlf) + (spaces(x.gap) + wr_opt(x.rule)) }
pub proof fn wr_lines_push(l: Seq<LineW>, x: LineW)
    ensures wr_lines(l.push(x)) == wr_lines(l) + wr_line(x),
    decreases l.len(),
{
    let m = l.push(x);
    if l.len() == 0 { assert(m.drop_first() =~= l); assert(wr_line(x) + Seq::<u8>::empty() =~= Seq::<u8>::empty() + wr_line(x)); } else {
        assert(m.drop_first() =~= l.drop_first().push(x));
        wr_lines_push(l.drop_first(), x);
        assert(wr_line(l[0]) + (wr_lines(l.drop_first()) + wr_line(x)) =~= wr_line(l[0]) + wr_lines(l.drop_first()) + wr_line(x));
    }
}

// ---- printed as laid out ------------------------------------------------------------------
pub proof fn lay_bytes(n: Seq<u8>, q: u8)
    requires q == 34 || q == 39,
    ensures wr_pieces(lay_pieces(n, q)) == fm(n, esc(q)),
    decreases n.len(),
{
    let l = lay_pieces(n, q);
    if n.len() == 0 { assert(l.len() == 0); } else {
        let b = n.last();
        lay_bytes(n.drop_last(), q);
        assert(l =~= lay_pieces(n.drop_last(), q).push(lay_piece(b, q)));
        wr_pieces_push(lay_pieces(n.drop_last(), q), lay_piece(b, q));
        assert(wr_piece(lay_piece(b, q)) =~= esc_byte(b, q));
        assert(esc(q)(b) == esc_byte(b, q));
    }
}
pub proof fn lay_symbol(s: bnf_Symbol)
    requires can_sym(s),
    ensures wr_sym(lay_sym(s)) == sym_text(s), sym_l_ok(lay_sym(s)), said_sym(lay_sym(s)) == s,
{
    match s {
        bnf_Symbol::SymbolNonTerminal(v) => { assert(c1(60) + v.Name + c1(62) =~= in_brackets(v.Name)); },
        bnf_Symbol::SymbolTerminal(v) => {
            let n = v.Name; let q = quote_of(n); let ps = lay_pieces(n, q);
            lay_bytes(n, q);
            assert(c1(q) + wr_pieces(ps) + c1(q) =~= quoted(n));
            assert forall|i: int| 0 <= i < ps.len() implies piece_ok(#[trigger] ps[i], q) by {
                assert(writable(n[i]));
                assert(n.contains(n[i]));
                assert(ps[i] == lay_piece(n[i], q));
            }
            assert(said_bytes(ps) =~= n);
        },
        _ => {
            assert(c1(34) + Seq::<u8>::empty() + c1(34) =~= seq![34u8, 34u8]);
            assert(said_bytes(Seq::<Piece>::empty()).len() == 0);
        },
    }
}
pub proof fn blank(e: nat)
    ensures spaces(0) == Seq::<u8>::empty(), spaces(1) == c1(32),
{
    reveal_with_fuel(spaces, 2);
    assert(c1(32) + Seq::<u8>::empty() =~= c1(32));
}
pub proof fn lay_alt(s: Seq<bnf_Symbol>, e: nat)
    requires s.len() > 0, forall|i: int| 0 <= i < s.len() ==> can_sym(#[trigger] s[i]),
    ensures c1(32) + wr_syms(lay_syms(s, e)) == alt_text(s) + spaces(e),
    decreases s.len(),
{
    let r = s.drop_last(); let y = s.last();
    let l = lay_syms(s, e);
    let x = SymW { s: lay_sym(y), gap: e };
    blank(e);
    lay_symbol(y);
    assert(l =~= lay_syms(r, 1).push(x));
    wr_syms_push(lay_syms(r, 1), x);
    let z = sym_text(y) + spaces(e);
    if r.len() > 0 {
        assert forall|i: int| 0 <= i < r.len() implies can_sym(#[trigger] r[i]) by { assert(r[i] == s[i]); }
        lay_alt(r, 1);
        assert(c1(32) + (wr_syms(lay_syms(r, 1)) + z) =~= c1(32) + wr_syms(lay_syms(r, 1)) + z);
        assert(alt_text(r) + c1(32) + z =~= alt_text(r) + seq![32u8] + sym_text(y) + spaces(e));
    } else {
        assert(lay_syms(r, 1) =~= Seq::<SymW>::empty());
        assert(alt_text(r) =~= Seq::<u8>::empty());
        assert(c1(32) + (Seq::<u8>::empty() + z) =~= alt_text(r) + seq![32u8] + sym_text(y) + spaces(e));
    }
}
pub proof fn lay_alternatives(a: Seq<bnf_Sequence>, e: nat)
    requires a.len() > 0, forall|i: int| 0 <= i < a.len() ==> can_alt(#[trigger] a[i]),
    ensures c1(32) + wr_body(lay_alts(a, e)) == alts_text(a) + spaces(e),
    decreases a.len(),
{
    let r = a.drop_last(); let y = a.last();
    let l = lay_alts(a, e);
    let x = AltW { gap: 1, syms: lay_syms(y.Symbols, e) };
    blank(e);
    assert(can_alt(y));
    lay_alt(y.Symbols, e);
    assert(l =~= lay_alts(r, 1).push(x));
    let z = alt_text(y.Symbols) + spaces(e);
    if r.len() > 0 {
        assert forall|i: int| 0 <= i < r.len() implies can_alt(#[trigger] r[i]) by { assert(r[i] == a[i]); }
        lay_alternatives(r, 1);
        wr_body_push(lay_alts(r, 1), x);
        let b = wr_body(lay_alts(r, 1));
        assert(wr_next(x) =~= c1(124) + z) by { assert(c1(124) + c1(32) + wr_syms(x.syms) =~= c1(124) + (c1(32) + wr_syms(x.syms))); }
        assert(c1(32) + (b + wr_next(x)) =~= c1(32) + b + wr_next(x));
        assert(alts_text(r) + c1(32) + (c1(124) + z) =~= alts_text(r) + seq![32u8, 124u8] + alt_text(y.Symbols) + spaces(e));
    } else {
        assert(l.drop_first() =~= Seq::<AltW>::empty());
        assert(wr_body(l) =~= wr_syms(x.syms));
        assert(alts_text(r) =~= Seq::<u8>::empty());
        assert(alts_text(a) =~= alt_text(y.Symbols));
    }
}
pub proof fn lay_one(r: bnf_Rule)
    requires can_rule(r),
    ensures wr_rule(lay_rule(r)) == rule_text(r), rule_w_ok(lay_rule(r)), said_rule(lay_rule(r)) == r,
{
    let a = r.Tail.Sequences; let l = lay_alts(a, 0);
    blank(0);
    lay_alternatives(a, 0);
    let b = wr_body(l);
    assert(alts_text(a) + Seq::<u8>::empty() =~= alts_text(a));
    let n = r.Head.Name;
    assert(c1(60) + n + c1(62) + c1(32) + c3(58, 58, 61) + c1(32) + b =~= in_brackets(n) + seq![32u8, 58u8, 58u8, 61u8] + (c1(32) + b));
    assert forall|k: int| 0 <= k < l.len() implies alt_w_ok(#[trigger] l[k]) && said_syms(l[k].syms) == a[k].Symbols by {
        let s = a[k].Symbols; let m = l[k].syms;
        assert(can_alt(a[k]));
        assert forall|j: int| 0 <= j < m.len() implies sym_l_ok((#[trigger] m[j]).s) && said_sym(m[j].s) == s[j] by { assert(can_sym(s[j])); lay_symbol(s[j]); }
        assert(said_syms(m) =~= s);
    }
    assert forall|k: int| 0 <= k < a.len() implies said_alts(l)[k] == #[trigger] a[k] by { assert(said_syms(l[k].syms) == a[k].Symbols); }
    assert(said_alts(l) =~= a);
}
// all rules but the first
pub proof fn lay_rest(l: Seq<bnf_Rule>)
    requires l.len() > 0, forall|i: int| 0 <= i < l.len() ==> can_rule(#[trigger] l[i]),
    ensures wr_rule(lay_rule(l[0])) + wr_lines(lay_lines(l.drop_first())) == rules_text(l),
    decreases l.len(),
{
    let r = l.drop_last(); let y = l.last();
    assert(can_rule(y));
    lay_one(y);
    if r.len() > 0 {
        assert forall|i: int| 0 <= i < r.len() implies can_rule(#[trigger] r[i]) by { assert(r[i] == l[i]); }
        lay_rest(r);
        let x = lay_line(y);
        assert(lay_lines(l.drop_first()) =~= lay_lines(r.drop_first()).push(x));
        wr_lines_push(lay_lines(r.drop_first()), x);
        blank(0);
        assert(wr_line(x) =~= c1(10) + rule_text(y));
        assert(r[0] == l[0]);
        let h = wr_rule(lay_rule(l[0])); let m = wr_lines(lay_lines(r.drop_first()));
        assert(h + (m + (c1(10) + rule_text(y))) =~= h + m + seq![10u8] + rule_text(y));
    } else {
        assert(lay_lines(l.drop_first()) =~= Seq::<LineW>::empty());
        assert(wr_lines(lay_lines(l.drop_first())) =~= Seq::<u8>::empty());
        assert(rules_text(r) =~= Seq::<u8>::empty());
        assert(wr_rule(lay_rule(l[0])) + Seq::<u8>::empty() =~= Seq::<u8>::empty() + Seq::<u8>::empty() + rule_text(y));
    }
}
pub proof fn lay_said(l: Seq<bnf_Rule>)
    requires forall|i: int| 0 <= i < l.len() ==> can_rule(#[trigger] l[i]),
    ensures said_lines(lay_lines(l)) == l, lines_ok(lay_lines(l)),
    decreases l.len(),
{
    let m = lay_lines(l);
    assert forall|i: int| 0 <= i < m.len() implies line_ok(#[trigger] m[i]) by { assert(can_rule(l[i])); lay_one(l[i]); }
    if l.len() > 0 {
        let r = l.drop_first();
        assert forall|i: int| 0 <= i < r.len() implies can_rule(#[trigger] r[i]) by { assert(r[i] == l[i + 1]); }
        lay_said(r);
        assert(m.drop_first() =~= lay_lines(r));
        lay_one(l[0]);
        assert(said_opt(m[0].rule) =~= Seq::empty().push(l[0]));
        assert(Seq::empty().push(l[0]) + r =~= l);
    } else { assert(m.len() == 0); assert(said_lines(m) =~= l); }
}
// the text of a grammar is a text, and says the grammar
pub proof fn lay_all(g: bnf_Grammar)
    requires can_print(g),
    ensures text_of_src(layout(g), rules_text(g.Rules)), said(layout(g)) == g,
{
    let l = g.Rules; let r = l.drop_first();
    assert forall|i: int| 0 <= i < r.len() implies can_rule(#[trigger] r[i]) by { assert(r[i] == l[i + 1]); }
    assert(can_rule(l[0]));
    lay_one(l[0]);
    lay_rest(l);
    lay_said(r);
    blank(0);
    let h = wr_rule(lay_rule(l[0])); let m = wr_lines(lay_lines(r));
    assert(Seq::<u8>::empty() + h + m =~= h + m);
    assert(Seq::empty().push(l[0]) + r =~= l);
}

// print, parse, convert
pub fn back_again(Ghost(g): Ghost<bnf_Grammar>, Ghost(al_): Ghost<int>) -> (ret_: Ghost<(Err, Option<bnf_Grammar>, Err)>)
    requires can_print(g),
    ensures ret_@.0 is Nil, ret_@.1 == Some(g), ret_@.2 is Nil,
{
    proof {
        assert forall|i: int| 0 <= i < g.Rules.len() implies no_nil_rule(#[trigger] g.Rules[i]) by {
            assert(can_rule(g.Rules[i]));
            assert forall|k: int| 0 <= k < g.Rules[i].Tail.Sequences.len() implies no_nil(#[trigger] g.Rules[i].Tail.Sequences[k].Symbols) by {
                assert(can_alt(g.Rules[i].Tail.Sequences[k]));
                let s = g.Rules[i].Tail.Sequences[k].Symbols;
                assert forall|j: int| 0 <= j < s.len() implies !(#[trigger] s[j] is Nil) by { assert(can_sym(s[j])); }
            }
        }
        lay_all(g);
        assert(readable(rules_text(g.Rules)));
    }
    let Ghost(text) = bnf_Grammar_String(Ghost(g));
    let Ghost(r) = read_by_self(Ghost(text), Ghost(al_));
    Ghost(r)
}

} // verus!
