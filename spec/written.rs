// Texts of grammars: how they are written, what they say, and how the conversion reads them.
verus! {

// ---- texts ---------------------------------------------------------------------------
// a byte of a literal, plain or after a backslash
pub struct Piece { pub b: u8, pub esc: bool }
// a name, or a literal between quotes
pub enum SymL { Name(Seq<u8>), Lit(u8, Seq<Piece>) }
// a symbol and the number of blanks after it
pub struct SymW { pub s: SymL, pub gap: nat }
// an alternative and the number of blanks before it
pub struct AltW { pub gap: nat, pub syms: Seq<SymW> }
// a rule, with the number of blanks between the name and ::=
pub struct RuleW { pub name: Seq<u8>, pub gap: nat, pub alts: Seq<AltW> }
// a further line: \n or \r\n, blanks, and perhaps a rule
pub struct LineW { pub crlf: bool, pub gap: nat, pub rule: Option<RuleW> }
pub struct TextW { pub gap: nat, pub rule: RuleW, pub lines: Seq<LineW> }

pub open spec fn is_letter(b: u8) -> bool { 65 <= b <= 90 || 97 <= b <= 122 }
pub open spec fn is_digit(b: u8) -> bool { 48 <= b <= 57 }
pub open spec fn name_byte(b: u8) -> bool { is_letter(b) || is_digit(b) || b == 45 }
pub open spec fn name_ok(n: Seq<u8>) -> bool { n.len() > 0 && is_letter(n[0]) && forall|i: int| 0 <= i < n.len() ==> name_byte(#[trigger] n[i]) }
// bytes with an escape, and its letter
pub open spec fn has_escape(b: u8) -> bool { b == 9 || b == 10 || b == 13 || b == 34 || b == 92 }
pub open spec fn esc_letter(b: u8) -> u8 { if b == 9 { 116 } else if b == 10 { 110 } else if b == 13 { 114 } else { b } }
pub open spec fn piece_ok(x: Piece, q: u8) -> bool { if x.esc { has_escape(x.b) } else { 32 <= x.b < 127 && x.b != 92 && x.b != q } }
pub open spec fn pieces_ok(ps: Seq<Piece>, q: u8) -> bool { forall|i: int| 0 <= i < ps.len() ==> piece_ok(#[trigger] ps[i], q) }
pub open spec fn sym_l_ok(s: SymL) -> bool {
    match s { SymL::Name(n) => name_ok(n), SymL::Lit(q, ps) => (q == 34 || q == 39) && pieces_ok(ps, q) }
}
pub open spec fn syms_ok(l: Seq<SymW>) -> bool { forall|i: int| 0 <= i < l.len() ==> sym_l_ok((#[trigger] l[i]).s) }
pub open spec fn alt_w_ok(a: AltW) -> bool { a.syms.len() > 0 && syms_ok(a.syms) }
pub open spec fn alts_w_ok(l: Seq<AltW>) -> bool { forall|i: int| 0 <= i < l.len() ==> alt_w_ok(#[trigger] l[i]) }
pub open spec fn rule_w_ok(r: RuleW) -> bool { name_ok(r.name) && r.alts.len() > 0 && alts_w_ok(r.alts) }
pub open spec fn line_ok(l: LineW) -> bool { l.rule is Some ==> rule_w_ok(l.rule->0) }
pub open spec fn lines_ok(l: Seq<LineW>) -> bool { forall|i: int| 0 <= i < l.len() ==> line_ok(#[trigger] l[i]) }
pub open spec fn text_ok(t: TextW) -> bool { rule_w_ok(t.rule) && lines_ok(t.lines) }

// ---- the text ------------------------------------------------------------------------------
pub open spec fn spaces(n: nat) -> Seq<u8>
    decreases n,
{
    if n == 0 { Seq::empty() } else { c1(32) + spaces((n - 1) as nat) }
}
pub open spec fn wr_piece(x: Piece) -> Seq<u8> { if x.esc { c1(92) + c1(esc_letter(x.b)) } else { c1(x.b) } }
pub open spec fn wr_pieces(ps: Seq<Piece>) -> Seq<u8>
    decreases ps.len(),
{
    if ps.len() == 0 { Seq::empty() } else { wr_piece(ps[0]) + wr_pieces(ps.drop_first()) }
}
pub open spec fn wr_sym(s: SymL) -> Seq<u8> {
    match s { SymL::Name(n) => c1(60) + n + c1(62), SymL::Lit(q, ps) => c1(q) + wr_pieces(ps) + c1(q) }
}
pub open spec fn wr_syms(l: Seq<SymW>) -> Seq<u8>
    decreases l.len(),
{
    if l.len() == 0 { Seq::empty() } else { wr_sym(l[0].s) + spaces(l[0].gap) + wr_syms(l.drop_first()) }
}
// further alternatives
pub open spec fn wr_more_alts(l: Seq<AltW>) -> Seq<u8>
    decreases l.len(),
{
    if l.len() == 0 { Seq::empty() } else { c1(124) + spaces(l[0].gap) + wr_syms(l[0].syms) + wr_more_alts(l.drop_first()) }
}
pub open spec fn wr_body(l: Seq<AltW>) -> Seq<u8> { wr_syms(l[0].syms) + wr_more_alts(l.drop_first()) }
pub open spec fn c3(a: u8, b: u8, c: u8) -> Seq<u8> { c1(a).push(b).push(c) }
pub open spec fn wr_rule(r: RuleW) -> Seq<u8> { c1(60) + r.name + c1(62) + spaces(r.gap) + c3(58, 58, 61) + spaces(r.alts[0].gap) + wr_body(r.alts) }
pub open spec fn wr_opt(r: Option<RuleW>) -> Seq<u8> { match r { None => Seq::empty(), Some(r) => wr_rule(r) } }
pub open spec fn wr_eol(crlf: bool) -> Seq<u8> { if crlf { c1(13).push(10) } else { c1(10) } }
pub open spec fn wr_lines(l: Seq<LineW>) -> Seq<u8>
    decreases l.len(),
{
    if l.len() == 0 { Seq::empty() } else { wr_eol(l[0].crlf) + (spaces(l[0].gap) + wr_opt(l[0].rule)) + wr_lines(l.drop_first()) }
}
pub open spec fn written(t: TextW) -> Seq<u8> { spaces(t.gap) + wr_rule(t.rule) + wr_lines(t.lines) }

// ---- what it says -----------------------------------------------------------------------------
pub open spec fn said_bytes(ps: Seq<Piece>) -> Seq<u8> { Seq::new(ps.len(), |i: int| ps[i].b) }
pub open spec fn said_sym(s: SymL) -> bnf_Symbol { match s { SymL::Name(n) => nt(n), SymL::Lit(q, ps) => text_symbol(said_bytes(ps)) } }
pub open spec fn said_syms(l: Seq<SymW>) -> Seq<bnf_Symbol> { Seq::new(l.len(), |i: int| said_sym(l[i].s)) }
pub open spec fn said_alts(l: Seq<AltW>) -> Seq<bnf_Sequence> { Seq::new(l.len(), |i: int| bnf_Sequence { Symbols: said_syms(l[i].syms) }) }
pub open spec fn said_rule(r: RuleW) -> bnf_Rule { bnf_Rule { Head: bnf_SymbolNonTerminal { Name: r.name }, Tail: bnf_Substitution { Sequences: said_alts(r.alts) } } }
pub open spec fn said_opt(r: Option<RuleW>) -> Seq<bnf_Rule> { match r { None => Seq::empty(), Some(r) => Seq::empty().push(said_rule(r)) } }
pub open spec fn said_lines(l: Seq<LineW>) -> Seq<bnf_Rule>
    decreases l.len(),
{
    if l.len() == 0 { Seq::empty() } else { said_opt(l[0].rule) + said_lines(l.drop_first()) }
}
pub open spec fn said(t: TextW) -> bnf_Grammar { bnf_Grammar { Rules: Seq::empty().push(said_rule(t.rule)) + said_lines(t.lines) } }

// ---- facts about the built-in grammar, checked by computation ----------------------------------
pub open spec fn a4(x: bnf_Symbol, y: bnf_Symbol, z: bnf_Symbol, u: bnf_Symbol) -> Seq<bnf_Symbol> { a3(x, y, z).push(u) }
pub open spec fn x_syntax() -> Seq<bnf_Symbol> { a3(dn(w_opt_whitespace()), dn(w_content()), dn(w_more_lines())) }
pub open spec fn x_more() -> Seq<bnf_Symbol> { a3(dn(w_EOL()), dn(w_line()), dn(w_more_lines())) }
pub open spec fn x_line() -> Seq<bnf_Symbol> { a2(dn(w_opt_whitespace()), dn(w_opt_content())) }
pub open spec fn x_content() -> Seq<bnf_Symbol> { a4(dt(c1(60)), dn(w_rule_name()), dt(c1(62)), dn(w_opt_whitespace())).push(dt(c3(58, 58, 61))).push(dn(w_opt_whitespace())).push(dn(w_expression())) }
pub open spec fn x_body() -> Seq<bnf_Symbol> { a2(dn(w_list()), dn(w_expression_tail())) }
pub open spec fn x_more_alts() -> Seq<bnf_Symbol> { a4(dt(c1(124)), dn(w_opt_whitespace()), dn(w_list()), dn(w_expression_tail())) }
pub open spec fn x_list() -> Seq<bnf_Symbol> { a3(dn(w_term()), dn(w_opt_whitespace()), dn(w_list_tail())) }
pub open spec fn x_ref() -> Seq<bnf_Symbol> { a3(dt(c1(60)), dn(w_rule_name()), dt(c1(62))) }
pub open spec fn text_name(q: u8) -> Seq<u8> { if q == 34 { w_text1() } else { w_text2() } }
pub open spec fn text_type(q: u8) -> int { if q == 34 { 11 } else { 12 } }
pub open spec fn x_lit(q: u8) -> Seq<bnf_Symbol> { a3(dt(c1(q)), dn(text_name(q)), dt(c1(q))) }
pub open spec fn x_text(q: u8) -> Seq<bnf_Symbol> { a2(dn(char_name(q)), dn(text_name(q))) }
pub open spec fn x_esc() -> Seq<bnf_Symbol> { a2(dt(c1(92)), dn(w_escaped_char())) }
pub open spec fn x_name() -> Seq<bnf_Symbol> { a2(dn(w_letter()), dn(w_rule_name_tail())) }
pub open spec fn x_name_tail() -> Seq<bnf_Symbol> { a2(dn(w_rule_char()), dn(w_rule_name_tail())) }
pub open spec fn x_blank() -> Seq<bnf_Symbol> { a2(dt(c1(32)), dn(w_opt_whitespace())) }

// exactly the letters, digits and other characters are in their classes, from b on
pub open spec fn in_class(c: int, b: u8) -> bool {
    if c == 21 { is_letter(b) } else if c == 22 { is_digit(b) } else { 32 <= b < 127 && !is_letter(b) && !is_digit(b) && b != 34 && b != 39 && b != 92 }
}
pub open spec fn class_has(g: bnf_Grammar, c: int, b: int) -> bool
    decreases 128 - b,
{
    if b < 0 || b >= 128 { true } else { (in_class(c, b as u8) ==> place(g, c, a1(dt(c1(b as u8)))) >= 0) && class_has(g, c, b + 1) }
}
pub proof fn class_has_at(g: bnf_Grammar, c: int, b: int, x: int)
    requires class_has(g, c, b), 0 <= b <= x < 128, in_class(c, x as u8),
    ensures place(g, c, a1(dt(c1(x as u8)))) >= 0,
    decreases x - b,
{
    if b < x { class_has_at(g, c, b + 1, x); }
}
pub open spec fn m_ws() -> u128 { 0x1000000u128 }
pub open spec fn m_name() -> u128 { 0x7C0000u128 }
pub open spec fn m_text2() -> u128 { 0xE3D000u128 }
pub open spec fn class_facts(g: bnf_Grammar) -> bool {
    class_has(g, 21, 0) && class_has(g, 22, 0) && class_has(g, 23, 0)
    && named_rule(g, w_letter()) == 21 && named_rule(g, w_digit()) == 22 && named_rule(g, w_symbol()) == 23
}
pub open spec fn inner_facts(g: bnf_Grammar) -> bool {
    has_rule(g, w_opt_whitespace(), 24, x_blank()) && has_rule(g, w_opt_whitespace(), 24, a1(de()))
    && has_rule(g, w_rule_name(), 18, x_name()) && has_rule(g, w_rule_name_tail(), 19, a1(de())) && has_rule(g, w_rule_name_tail(), 19, x_name_tail())
    && has_rule(g, w_rule_char(), 20, a1(dn(w_letter()))) && has_rule(g, w_rule_char(), 20, a1(dn(w_digit()))) && has_rule(g, w_rule_char(), 20, a1(dt(c1(45))))
    && has_rule(g, w_text1(), 11, a1(de())) && has_rule(g, w_text1(), 11, x_text(34)) && has_rule(g, w_text2(), 12, a1(de())) && has_rule(g, w_text2(), 12, x_text(39))
    && has_rule(g, w_literal(), 10, x_lit(34)) && has_rule(g, w_literal(), 10, x_lit(39))
    && has_rule(g, w_term(), 9, a1(dn(w_literal()))) && has_rule(g, w_term(), 9, x_ref())
}
pub open spec fn outer_facts(g: bnf_Grammar) -> bool {
    has_rule(g, w_list_tail(), 8, a1(de())) && has_rule(g, w_list_tail(), 8, x_list()) && has_rule(g, w_list(), 7, x_list())
    && has_rule(g, w_expression_tail(), 6, a1(de())) && has_rule(g, w_expression_tail(), 6, x_more_alts()) && has_rule(g, w_expression(), 5, x_body())
    && has_rule(g, w_content(), 4, x_content()) && has_rule(g, w_opt_content(), 3, a1(dn(w_content()))) && has_rule(g, w_opt_content(), 3, a1(de()))
    && has_rule(g, w_line(), 2, x_line()) && has_rule(g, w_more_lines(), 1, a1(de())) && has_rule(g, w_more_lines(), 1, x_more())
    && has_rule(g, w_EOL(), 25, a1(dt(c1(10)))) && has_rule(g, w_EOL(), 25, a1(dt(c1(13).push(10)))) && has_rule(g, w_syntax(), 0, x_syntax())
}
pub open spec fn mask_facts(g: bnf_Grammar) -> bool { stays(comp(g), m_ws(), 0) && stays(comp(g), m_name(), 0) && stays(comp(g), m_text2(), 0) }
pub open spec fn text_facts(g: bnf_Grammar) -> bool { wf(g) && char_facts(g) && class_facts(g) && inner_facts(g) && outer_facts(g) && mask_facts(g) }

// ---- nodes with a few parts ------------------------------------------------------------------------
pub type Want = spec_fn(int) -> bool;
pub open spec fn t_at(g: bnf_Grammar, name: Seq<u8>, d: Der, p: int) -> cst_Node { tree_of(g, dn(name), d, p) }
pub open spec fn placed(n: cst_Node, i: int, p: int, len: nat) -> bool { n is node && n_type(n) == i && n_start(n) == p && n_end(n) == p + len }
pub open spec fn sees(ig: Want, want: Want, i: int, n: cst_Node, empty: bool, l: Seq<cst_Node>) -> Seq<cst_Node> {
    if ig(i) { Seq::empty() } else if want(i) { Seq::empty().push(n) } else if empty { Seq::empty() } else { l }
}
pub open spec fn n1(g: bnf_Grammar, i: int, x: bnf_Symbol, d: Der) -> Der { Der::Node(place(g, i, a1(x)), Seq::empty().push(d)) }
pub open spec fn n2(g: bnf_Grammar, i: int, x: bnf_Symbol, y: bnf_Symbol, d: Der, e: Der) -> Der { Der::Node(place(g, i, a2(x, y)), Seq::empty().push(d).push(e)) }
pub open spec fn n3(g: bnf_Grammar, i: int, x: bnf_Symbol, y: bnf_Symbol, z: bnf_Symbol, d: Der, e: Der, f: Der) -> Der { Der::Node(place(g, i, a3(x, y, z)), Seq::empty().push(d).push(e).push(f)) }
pub open spec fn n4(g: bnf_Grammar, i: int, x: bnf_Symbol, y: bnf_Symbol, z: bnf_Symbol, u: bnf_Symbol, d: Der, e: Der, f: Der, h: Der) -> Der {
    Der::Node(place(g, i, a4(x, y, z, u)), Seq::empty().push(d).push(e).push(f).push(h))
}
pub proof fn zero(g: bnf_Grammar, s: bnf_Symbol, d: Der)
    requires derives(g, s, d),
    ensures
        derives_all(g, a1(s), Seq::empty().push(d)), words(Seq::empty().push(d), 0) == word(d),
        forall|ig: Want, want: Want, p: int| #[trigger] fds(g, ig, want, a1(s), Seq::empty().push(d), p) == fd(ig, want, tree_of(g, s, d, p)),
{
    let a = Seq::<bnf_Symbol>::empty(); let ds = Seq::<Der>::empty();
    all_push(g, a, s, ds, d);
    assert(words(ds, 0) =~= Seq::<u8>::empty());
    assert(Seq::<u8>::empty() + word(d) =~= word(d));
    assert forall|ig: Want, want: Want, p: int| #[trigger] fds(g, ig, want, a1(s), Seq::empty().push(d), p) == fd(ig, want, tree_of(g, s, d, p)) by {
        fds_push(g, ig, want, a, s, ds, d, p);
        assert(fds(g, ig, want, a, ds, p) =~= Seq::<cst_Node>::empty());
        assert(Seq::<cst_Node>::empty() + fd(ig, want, tree_of(g, s, d, p)) =~= fd(ig, want, tree_of(g, s, d, p)));
    }
}
pub proof fn one_node(g: bnf_Grammar, ig: Want, want: Want, name: Seq<u8>, i: int, x: bnf_Symbol, d: Der, p: int)
    requires has_rule(g, name, i, a1(x)), derives(g, x, d), !want(-2),
    ensures
        derives(g, dn(name), n1(g, i, x, d)), word(n1(g, i, x, d)) == word(d), placed(t_at(g, name, n1(g, i, x, d), p), i, p, word(d).len()),
        fd(ig, want, t_at(g, name, n1(g, i, x, d), p)) == sees(ig, want, i, t_at(g, name, n1(g, i, x, d), p), word(d).len() == 0, fd(ig, want, tree_of(g, x, d, p))),
{
    let ds = Seq::empty().push(d);
    zero(g, x, d);
    let r = node(g, name, i, a1(x), ds);
    fd_node(g, ig, want, name, i, a1(x), ds, p);
    assert(fds(g, ig, want, a1(x), ds, p) == fd(ig, want, tree_of(g, x, d, p)));
}
pub proof fn two_node(g: bnf_Grammar, ig: Want, want: Want, name: Seq<u8>, i: int, x: bnf_Symbol, y: bnf_Symbol, d: Der, e: Der, p: int)
    requires has_rule(g, name, i, a2(x, y)), derives(g, x, d), derives(g, y, e), !want(-2),
    ensures ({
        let r = n2(g, i, x, y, d, e); let w = word(d) + word(e); let n = t_at(g, name, r, p);
        derives(g, dn(name), r) && word(r) == w && placed(n, i, p, w.len())
        && fd(ig, want, n) == sees(ig, want, i, n, w.len() == 0, fd(ig, want, tree_of(g, x, d, p)) + fd(ig, want, tree_of(g, y, e, p + word(d).len())))
    }),
{
    let ds = Seq::empty().push(d); let es = ds.push(e);
    zero(g, x, d);
    all_push(g, a1(x), y, ds, e);
    let r = node(g, name, i, a2(x, y), es);
    fd_node(g, ig, want, name, i, a2(x, y), es, p);
    fds_push(g, ig, want, a1(x), y, ds, e, p);
    assert(fds(g, ig, want, a1(x), ds, p) == fd(ig, want, tree_of(g, x, d, p)));
}
pub proof fn three_node(g: bnf_Grammar, ig: Want, want: Want, name: Seq<u8>, i: int, x: bnf_Symbol, y: bnf_Symbol, z: bnf_Symbol, d: Der, e: Der, f: Der, p: int)
    requires has_rule(g, name, i, a3(x, y, z)), derives(g, x, d), derives(g, y, e), derives(g, z, f), !want(-2),
    ensures ({
        let r = n3(g, i, x, y, z, d, e, f); let w = word(d) + word(e) + word(f); let n = t_at(g, name, r, p);
        derives(g, dn(name), r) && word(r) == w && placed(n, i, p, w.len())
        && fd(ig, want, n) == sees(ig, want, i, n, w.len() == 0,
            fd(ig, want, tree_of(g, x, d, p)) + fd(ig, want, tree_of(g, y, e, p + word(d).len())) + fd(ig, want, tree_of(g, z, f, p + word(d).len() + word(e).len())))
    }),
{
    let ds = Seq::empty().push(d); let es = ds.push(e); let fs = es.push(f);
    zero(g, x, d);
    all_push(g, a1(x), y, ds, e);
    all_push(g, a2(x, y), z, es, f);
    let r = node(g, name, i, a3(x, y, z), fs);
    fd_node(g, ig, want, name, i, a3(x, y, z), fs, p);
    fds_push(g, ig, want, a1(x), y, ds, e, p);
    fds_push(g, ig, want, a2(x, y), z, es, f, p);
    assert(fds(g, ig, want, a1(x), ds, p) == fd(ig, want, tree_of(g, x, d, p)));
}
pub proof fn four_node(g: bnf_Grammar, ig: Want, want: Want, name: Seq<u8>, i: int, x: bnf_Symbol, y: bnf_Symbol, z: bnf_Symbol, u: bnf_Symbol, d: Der, e: Der, f: Der, h: Der, p: int)
    requires has_rule(g, name, i, a4(x, y, z, u)), derives(g, x, d), derives(g, y, e), derives(g, z, f), derives(g, u, h), !want(-2),
    ensures ({
        let r = n4(g, i, x, y, z, u, d, e, f, h); let w = word(d) + word(e) + word(f) + word(h); let n = t_at(g, name, r, p);
        derives(g, dn(name), r) && word(r) == w && placed(n, i, p, w.len())
        && fd(ig, want, n) == sees(ig, want, i, n, w.len() == 0,
            fd(ig, want, tree_of(g, x, d, p)) + fd(ig, want, tree_of(g, y, e, p + word(d).len())) + fd(ig, want, tree_of(g, z, f, p + word(d).len() + word(e).len()))
            + fd(ig, want, tree_of(g, u, h, p + word(d).len() + word(e).len() + word(f).len())))
    }),
{
    let ds = Seq::empty().push(d); let es = ds.push(e); let fs = es.push(f); let hs = fs.push(h);
    zero(g, x, d);
    all_push(g, a1(x), y, ds, e);
    all_push(g, a2(x, y), z, es, f);
    all_push(g, a3(x, y, z), u, fs, h);
    let r = node(g, name, i, a4(x, y, z, u), hs);
    fd_node(g, ig, want, name, i, a4(x, y, z, u), hs, p);
    fds_push(g, ig, want, a1(x), y, ds, e, p);
    fds_push(g, ig, want, a2(x, y), z, es, f, p);
    fds_push(g, ig, want, a3(x, y, z), u, fs, h, p);
    assert(fds(g, ig, want, a1(x), ds, p) == fd(ig, want, tree_of(g, x, d, p)));
}
// an empty alternative
pub open spec fn n0(g: bnf_Grammar, i: int) -> Der { n1(g, i, de(), Der::Empty) }
pub proof fn no_node(g: bnf_Grammar, ig: Want, want: Want, name: Seq<u8>, i: int, p: int)
    requires has_rule(g, name, i, a1(de())), !want(-2),
    ensures
        derives(g, dn(name), n0(g, i)), word(n0(g, i)) == Seq::<u8>::empty(), placed(t_at(g, name, n0(g, i), p), i, p, 0),
        fd(ig, want, t_at(g, name, n0(g, i), p)) == if ig(i) || !want(i) { Seq::empty() } else { Seq::empty().push(t_at(g, name, n0(g, i), p)) },
{
    assert(derives(g, de(), Der::Empty));
    one_node(g, ig, want, name, i, de(), Der::Empty, p);
}
// ---- parts of the source ------------------------------------------------------------------------------
pub open spec fn stands(src: Seq<u8>, p: int, w: Seq<u8>) -> bool { 0 <= p && p + w.len() <= src.len() && src.subrange(p, p + w.len()) == w }
pub proof fn cut(src: Seq<u8>, p: int, a: Seq<u8>, b: Seq<u8>)
    requires stands(src, p, a + b),
    ensures stands(src, p, a), stands(src, p + a.len(), b),
{
    let w = src.subrange(p, p + (a + b).len());
    assert(w.subrange(0, a.len() as int) =~= a);
    assert(w.subrange(a.len() as int, w.len() as int) =~= b);
    assert(src.subrange(p, p + a.len()) =~= w.subrange(0, a.len() as int));
    assert(src.subrange(p + a.len(), p + a.len() + b.len()) =~= w.subrange(a.len() as int, w.len() as int));
}
pub proof fn text_of(src: Seq<u8>, n: cst_Node, i: int, p: int, w: Seq<u8>)
    requires stands(src, p, w), placed(n, i, p, w.len()),
    ensures text_at(n, src) == w,
{ }

// ---- blanks and names -------------------------------------------------------------------------------------
pub proof fn b_ws(g: bnf_Grammar, n: nat) -> (d: Der)
    requires text_facts(g),
    ensures derives(g, dn(w_opt_whitespace()), d), word(d) == spaces(n),
    decreases n,
{
    if n == 0 { no_node(g, no_type(), no_type(), w_opt_whitespace(), 24, 0); n0(g, 24) } else {
        let e = b_ws(g, (n - 1) as nat);
        two_node(g, no_type(), no_type(), w_opt_whitespace(), 24, dt(c1(32)), dn(w_opt_whitespace()), Der::Text(c1(32)), e, 0);
        n2(g, 24, dt(c1(32)), dn(w_opt_whitespace()), Der::Text(c1(32)), e)
    }
}
pub proof fn ws_none(g: bnf_Grammar, ig: Want, want: Want, d: Der, p: int)
    requires text_facts(g), derives(g, dn(w_opt_whitespace()), d), !want(-1), !want(-2), !want(24),
    ensures fd(ig, want, t_at(g, w_opt_whitespace(), d, p)) == Seq::<cst_Node>::empty(),
{
    named_rule_is(g, w_opt_whitespace());
    assert forall|k: int| #[trigger] of_rules(m_ws())(k) implies !want(k) by {
        if k >= 0 { let b = k as u8; assert(b < 128u8 ==> (((0x1000000u128 >> (b as u128)) & 1 == 1) == (b == 24u8))) by (bit_vector); }
    }
    let b = 24u8;
    assert((0x1000000u128 >> (b as u128)) & 1 == 1) by (bit_vector) requires b == 24u8;
    none_there(g, m_ws(), ig, want, dn(w_opt_whitespace()), d, p);
}
pub proof fn name_none(g: bnf_Grammar, ig: Want, want: Want, d: Der, p: int)
    requires text_facts(g), derives(g, dn(w_rule_name()), d), !want(-1), !want(-2), !want(18), !want(19), !want(20), !want(21), !want(22),
    ensures fd(ig, want, t_at(g, w_rule_name(), d, p)) == Seq::<cst_Node>::empty(),
{
    named_rule_is(g, w_rule_name());
    assert forall|k: int| #[trigger] of_rules(m_name())(k) implies !want(k) by {
        if k >= 0 { let b = k as u8; assert(b < 128u8 ==> (((0x7C0000u128 >> (b as u128)) & 1 == 1) == (18 <= b <= 22))) by (bit_vector); }
    }
    let b = 18u8;
    assert((0x7C0000u128 >> (b as u128)) & 1 == 1) by (bit_vector) requires b == 18u8;
    none_there(g, m_name(), ig, want, dn(w_rule_name()), d, p);
}
pub proof fn text2_none(g: bnf_Grammar, ig: Want, want: Want, d: Der, p: int)
    requires text_facts(g), derives(g, dn(w_text2()), d), want == is_type(11),
    ensures fd(ig, want, t_at(g, w_text2(), d, p)) == Seq::<cst_Node>::empty(),
{
    named_rule_is(g, w_text2());
    assert forall|k: int| #[trigger] of_rules(m_text2())(k) implies !want(k) by {
        if k >= 0 { let b = k as u8; assert(b < 128u8 && ((0xE3D000u128 >> (b as u128)) & 1 == 1) ==> b != 11u8) by (bit_vector); }
    }
    let b = 12u8;
    assert((0xE3D000u128 >> (b as u128)) & 1 == 1) by (bit_vector) requires b == 12u8;
    none_there(g, m_text2(), ig, want, dn(w_text2()), d, p);
}
pub proof fn b_class(g: bnf_Grammar, c: int, b: u8) -> (d: Der)
    requires text_facts(g), c == 21 || c == 22 || c == 23, in_class(c, b),
    ensures derives(g, dn(class_name(c)), d), word(d) == c1(b), d == n1(g, c, dt(c1(b)), Der::Text(c1(b))), has_rule(g, class_name(c), c, a1(dt(c1(b)))),
{
    class_has_at(g, c, 0, b as int);
    one_node(g, no_type(), no_type(), class_name(c), c, dt(c1(b)), Der::Text(c1(b)), 0);
    n1(g, c, dt(c1(b)), Der::Text(c1(b)))
}
pub proof fn b_name_tail(g: bnf_Grammar, n: Seq<u8>) -> (d: Der)
    requires text_facts(g), forall|i: int| 0 <= i < n.len() ==> name_byte(#[trigger] n[i]),
    ensures derives(g, dn(w_rule_name_tail()), d), word(d) == n,
    decreases n.len(),
{
    let z = no_type();
    if n.len() == 0 { no_node(g, z, z, w_rule_name_tail(), 19, 0); assert(n =~= Seq::<u8>::empty()); n0(g, 19) } else {
        let b = n[0];
        let r = n.drop_first();
        assert forall|i: int| 0 <= i < r.len() implies name_byte(#[trigger] r[i]) by { assert(r[i] == n[i + 1]); }
        let e = b_name_tail(g, r);
        let c = if b == 45 {
            one_node(g, z, z, w_rule_char(), 20, dt(c1(45)), Der::Text(c1(45)), 0);
            n1(g, 20, dt(c1(45)), Der::Text(c1(45)))
        } else {
            let k = if is_letter(b) { 21int } else { 22int };
            let x = b_class(g, k, b);
            one_node(g, z, z, w_rule_char(), 20, dn(class_name(k)), x, 0);
            n1(g, 20, dn(class_name(k)), x)
        };
        two_node(g, z, z, w_rule_name_tail(), 19, dn(w_rule_char()), dn(w_rule_name_tail()), c, e, 0);
        assert(c1(b) + r =~= n);
        n2(g, 19, dn(w_rule_char()), dn(w_rule_name_tail()), c, e)
    }
}
pub proof fn b_name(g: bnf_Grammar, n: Seq<u8>, p: int) -> (d: Der)
    requires text_facts(g), name_ok(n),
    ensures derives(g, dn(w_rule_name()), d), word(d) == n, placed(t_at(g, w_rule_name(), d, p), 18, p, n.len()),
        forall|ig: Want, want: Want| !want(-2) && want(18) && !ig(18) ==> #[trigger] fd(ig, want, t_at(g, w_rule_name(), d, p)) == Seq::empty().push(t_at(g, w_rule_name(), d, p)),
{
    let z = no_type();
    let r = n.drop_first();
    assert forall|i: int| 0 <= i < r.len() implies name_byte(#[trigger] r[i]) by { assert(r[i] == n[i + 1]); }
    let x = b_class(g, 21, n[0]);
    let e = b_name_tail(g, r);
    assert(c1(n[0]) + r =~= n);
    two_node(g, z, z, w_rule_name(), 18, dn(w_letter()), dn(w_rule_name_tail()), x, e, p);
    let d = n2(g, 18, dn(w_letter()), dn(w_rule_name_tail()), x, e);
    assert forall|ig: Want, want: Want| !want(-2) && want(18) && !ig(18) implies #[trigger] fd(ig, want, t_at(g, w_rule_name(), d, p)) == Seq::empty().push(t_at(g, w_rule_name(), d, p)) by {
        two_node(g, ig, want, w_rule_name(), 18, dn(w_letter()), dn(w_rule_name_tail()), x, e, p);
    }
    d
}

// ---- literals ----------------------------------------------------------------------------------------------
pub proof fn escape_of(b: u8)
    requires has_escape(b),
    ensures self_escapes().dom().contains(c1(esc_letter(b))), self_escapes()[c1(esc_letter(b))] == c1(b),
{
    let c = esc_letter(b);
    assert(c1(c) =~= seq![c]); assert(c1(b) =~= seq![b]);
    assert(seq![116u8][0] == 116 && seq![110u8][0] == 110 && seq![114u8][0] == 114 && seq![34u8][0] == 34 && seq![92u8][0] == 92);
}
pub proof fn b_piece(g: bnf_Grammar, src: Seq<u8>, q: u8, x: Piece, p: int) -> (d: Der)
    requires text_facts(g), q == 34 || q == 39, piece_ok(x, q), stands(src, p, wr_piece(x)),
    ensures
        derives(g, dn(char_name(q)), d), word(d) == wr_piece(x),
        gather(f_char(self_bind(), src), fd(no_type(), is_text(), t_at(g, char_name(q), d, p))) == Some(c1(x.b)),
{
    let z = no_type(); let t = is_text();
    let b = x.b;
    let i = if q == 34 { 13int } else { 14int };
    let f = f_char(self_bind(), src);
    if x.esc {
        let c = esc_letter(b);
        let l = Der::Text(c1(c)); let bs = Der::Text(c1(92));
        cut(src, p, c1(92), c1(c));
        let k17 = is_type(17); let ig = self_bind().ignored;
        fd_leaf(g, ig, k17, c1(92), p);
        one_node(g, ig, k17, w_escaped_char(), 17, dt(c1(c)), l, p + 1);
        let e = n1(g, 17, dt(c1(c)), l);
        let ne = t_at(g, w_escaped_char(), e, p + 1);
        two_node(g, ig, k17, w_escape_sequence(), 16, dt(c1(92)), dn(w_escaped_char()), bs, e, p);
        let s = n2(g, 16, dt(c1(92)), dn(w_escaped_char()), bs, e);
        let ns = t_at(g, w_escape_sequence(), s, p);
        assert(fd(ig, k17, ns) =~= Seq::empty().push(ne));
        named_rule_is(g, w_escape_sequence());
        hits_tree(g, ig, k17, dn(w_escape_sequence()), s, p);
        text_of(src, ne, 17, p + 1, c1(c));
        escape_of(b);
        assert(conv_escape(self_bind(), ns, src) == Some(c1(b)));
        two_node(g, z, t, w_escape_sequence(), 16, dt(c1(92)), dn(w_escaped_char()), bs, e, p);
        one_node(g, z, t, w_character(), 15, dn(w_escape_sequence()), s, p);
        let y = n1(g, 15, dn(w_escape_sequence()), s);
        one_node(g, z, t, char_name(q), i, dn(w_character()), y, p);
        gather_one(f, ns);
        n1(g, i, dn(w_character()), y)
    } else {
        let l = Der::Text(c1(b));
        fd_leaf(g, z, t, c1(b), p);
        let nl = tree_of(g, dt(c1(b)), l, p);
        text_of(src, nl, -1, p, c1(b));
        gather_one(f, nl);
        assert(f(nl) == Some(c1(b)));
        if b == 34 || b == 39 {
            one_node(g, z, t, char_name(q), i, dt(c1(b)), l, p);
            n1(g, i, dt(c1(b)), l)
        } else {
            let k = if is_letter(b) { 21int } else if is_digit(b) { 22int } else { 23int };
            let v = b_class(g, k, b);
            one_node(g, z, t, class_name(k), k, dt(c1(b)), l, p);
            one_node(g, z, t, w_character(), 15, dn(class_name(k)), v, p);
            let y = n1(g, 15, dn(class_name(k)), v);
            one_node(g, z, t, char_name(q), i, dn(w_character()), y, p);
            n1(g, i, dn(w_character()), y)
        }
    }
}
pub proof fn b_text(g: bnf_Grammar, src: Seq<u8>, q: u8, ps: Seq<Piece>, p: int) -> (d: Der)
    requires text_facts(g), q == 34 || q == 39, pieces_ok(ps, q), stands(src, p, wr_pieces(ps)),
    ensures
        derives(g, dn(text_name(q)), d), word(d) == wr_pieces(ps), placed(t_at(g, text_name(q), d, p), text_type(q), p, wr_pieces(ps).len()),
        gather(f_char(self_bind(), src), fd(no_type(), is_text(), t_at(g, text_name(q), d, p))) == Some(said_bytes(ps)),
    decreases ps.len(),
{
    let z = no_type(); let t = is_text();
    let f = f_char(self_bind(), src);
    let i = text_type(q); let name = text_name(q);
    if ps.len() == 0 {
        no_node(g, z, t, name, i, p);
        assert(said_bytes(ps) =~= Seq::<u8>::empty());
        n0(g, i)
    } else {
        let r = ps.drop_first();
        cut(src, p, wr_piece(ps[0]), wr_pieces(r));
        assert forall|j: int| 0 <= j < r.len() implies piece_ok(#[trigger] r[j], q) by { assert(r[j] == ps[j + 1]); }
        let c = b_piece(g, src, q, ps[0], p);
        let e = b_text(g, src, q, r, p + wr_piece(ps[0]).len());
        two_node(g, z, t, name, i, dn(char_name(q)), dn(name), c, e, p);
        gather_cat(f, fd(z, t, t_at(g, char_name(q), c, p)), fd(z, t, t_at(g, name, e, p + word(c).len())));
        assert(c1(ps[0].b) + said_bytes(r) =~= said_bytes(ps));
        n2(g, i, dn(char_name(q)), dn(name), c, e)
    }
}

} // verus!
