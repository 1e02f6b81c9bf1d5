// Every text of the built-in grammar is a text of a grammar.
verus! {

// ---- alternatives: none but those listed -------------------------------------------------
pub open spec fn in_list(s: Seq<bnf_Symbol>, l: Seq<Seq<bnf_Symbol>>, j: int) -> int
    decreases l.len() - j,
{
    if j < 0 || j >= l.len() { -1 } else if l[j] == s { j } else { in_list(s, l, j + 1) }
}
pub open spec fn all_listed(a: Seq<bnf_Sequence>, l: Seq<Seq<bnf_Symbol>>, k: int) -> bool
    decreases a.len() - k,
{
    if k < 0 || k >= a.len() { true } else { in_list(a[k].Symbols, l, 0) >= 0 && all_listed(a, l, k + 1) }
}
pub open spec fn only(g: bnf_Grammar, name: Seq<u8>, i: int, l: Seq<Seq<bnf_Symbol>>) -> bool {
    named_rule(g, name) == i && 0 <= i < g.Rules.len() && all_listed(g.Rules[i].Tail.Sequences, l, 0)
}
pub open spec fn l1(x: Seq<bnf_Symbol>) -> Seq<Seq<bnf_Symbol>> { Seq::empty().push(x) }
pub open spec fn l2(x: Seq<bnf_Symbol>, y: Seq<bnf_Symbol>) -> Seq<Seq<bnf_Symbol>> { l1(x).push(y) }
pub open spec fn l3(x: Seq<bnf_Symbol>, y: Seq<bnf_Symbol>, z: Seq<bnf_Symbol>) -> Seq<Seq<bnf_Symbol>> { l2(x, y).push(z) }
pub proof fn in_list_props(s: Seq<bnf_Symbol>, l: Seq<Seq<bnf_Symbol>>, j: int)
    requires j >= 0, in_list(s, l, j) >= 0,
    ensures j <= in_list(s, l, j) < l.len(), l[in_list(s, l, j)] == s,
    decreases l.len() - j,
{
    if l[j] != s { in_list_props(s, l, j + 1); }
}
pub proof fn all_listed_at(a: Seq<bnf_Sequence>, l: Seq<Seq<bnf_Symbol>>, k: int, x: int)
    requires all_listed(a, l, k), 0 <= k <= x < a.len(),
    ensures in_list(a[x].Symbols, l, 0) >= 0,
    decreases x - k,
{
    if k < x { all_listed_at(a, l, k + 1, x); }
}
// the alternative a derivation takes, and its parts
pub proof fn taken(g: bnf_Grammar, name: Seq<u8>, i: int, l: Seq<Seq<bnf_Symbol>>, d: Der) -> (r: (int, Seq<Der>))
    requires only(g, name, i, l), derives(g, dn(name), d),
    ensures 0 <= r.0 < l.len(), derives_all(g, l[r.0], r.1), word(d) == words(r.1, 0), d is Node, r.1 == d->Node_1,
{
    named_rule_is(g, name);
    let k = d->Node_0; let ds = d->Node_1;
    all_listed_at(g.Rules[i].Tail.Sequences, l, 0, k);
    let j = in_list(alt(g, i, k), l, 0);
    in_list_props(alt(g, i, k), l, 0);
    (j, ds)
}
// each alternative is one byte of the class
pub open spec fn class_alts(a: Seq<bnf_Sequence>, c: int, k: int) -> bool
    decreases a.len() - k,
{
    if k < 0 || k >= a.len() { true } else { class_alt(a[k].Symbols, c) && class_alts(a, c, k + 1) }
}
pub open spec fn class_alt(s: Seq<bnf_Symbol>, c: int) -> bool {
    s.len() == 1 && match s[0] { bnf_Symbol::SymbolTerminal(v) => v.Name.len() == 1 && in_class(c, v.Name[0]), _ => false }
}
pub open spec fn class_only(g: bnf_Grammar, c: int) -> bool { named_rule(g, class_name(c)) == c && 0 <= c < g.Rules.len() && class_alts(g.Rules[c].Tail.Sequences, c, 0) }
pub proof fn class_alts_at(a: Seq<bnf_Sequence>, c: int, k: int, x: int)
    requires class_alts(a, c, k), 0 <= k <= x < a.len(),
    ensures class_alt(a[x].Symbols, c),
    decreases x - k,
{
    if k < x { class_alts_at(a, c, k + 1, x); }
}
pub open spec fn esc_alts() -> Seq<Seq<bnf_Symbol>> { l3(a1(dt(c1(116))), a1(dt(c1(110))), a1(dt(c1(114)))).push(a1(dt(c1(34)))).push(a1(dt(c1(92)))) }
pub open spec fn chars_of(q: u8) -> Seq<Seq<bnf_Symbol>> { l2(a1(dn(w_character())), a1(dt(c1(if q == 34 { 39 } else { 34 })))) }
pub open spec fn only_inner(g: bnf_Grammar) -> bool {
    class_only(g, 21) && class_only(g, 22) && class_only(g, 23)
    && only(g, w_opt_whitespace(), 24, l2(a1(de()), x_blank()))
    && only(g, w_rule_name(), 18, l1(x_name())) && only(g, w_rule_name_tail(), 19, l2(a1(de()), x_name_tail()))
    && only(g, w_rule_char(), 20, l3(a1(dn(w_letter())), a1(dn(w_digit())), a1(dt(c1(45)))))
    && only(g, w_escaped_char(), 17, esc_alts()) && only(g, w_escape_sequence(), 16, l1(x_esc()))
    && only(g, w_character(), 15, l3(a1(dn(w_letter())), a1(dn(w_digit())), a1(dn(w_symbol()))).push(a1(dn(w_escape_sequence()))))
    && only(g, w_character1(), 13, chars_of(34)) && only(g, w_character2(), 14, chars_of(39))
    && only(g, w_text1(), 11, l2(a1(de()), x_text(34))) && only(g, w_text2(), 12, l2(a1(de()), x_text(39)))
    && only(g, w_literal(), 10, l2(x_lit(34), x_lit(39))) && only(g, w_term(), 9, l2(a1(dn(w_literal())), x_ref()))
}
pub open spec fn only_outer(g: bnf_Grammar) -> bool {
    only(g, w_list_tail(), 8, l2(a1(de()), x_list())) && only(g, w_list(), 7, l1(x_list()))
    && only(g, w_expression_tail(), 6, l2(a1(de()), x_more_alts())) && only(g, w_expression(), 5, l1(x_body()))
    && only(g, w_content(), 4, l1(x_content())) && only(g, w_opt_content(), 3, l2(a1(dn(w_content())), a1(de())))
    && only(g, w_line(), 2, l1(x_line())) && only(g, w_more_lines(), 1, l2(a1(de()), x_more()))
    && only(g, w_EOL(), 25, l2(a1(dt(c1(10))), a1(dt(c1(13).push(10))))) && only(g, w_syntax(), 0, l1(x_syntax()))
}
pub open spec fn only_facts(g: bnf_Grammar) -> bool { only_inner(g) && only_outer(g) }

// ---- parts ---------------------------------------------------------------------------------
pub proof fn parts1(g: bnf_Grammar, x: bnf_Symbol, ds: Seq<Der>)
    requires derives_all(g, a1(x), ds),
    ensures ds.len() == 1, derives(g, x, ds[0]), words(ds, 0) == word(ds[0]),
{
    assert(a1(x)[0] == x); assert(derives(g, a1(x)[0], ds[0]));
    reveal_with_fuel(words, 2);
    assert(word(ds[0]) + Seq::<u8>::empty() =~= word(ds[0]));
}
pub proof fn parts2(g: bnf_Grammar, x: bnf_Symbol, y: bnf_Symbol, ds: Seq<Der>)
    requires derives_all(g, a2(x, y), ds),
    ensures ds.len() == 2, derives(g, x, ds[0]), derives(g, y, ds[1]), words(ds, 0) == word(ds[0]) + word(ds[1]),
{
    let a = a2(x, y);
    assert(a[0] == x && a[1] == y); assert(derives(g, a[0], ds[0])); assert(derives(g, a[1], ds[1]));
    reveal_with_fuel(words, 3);
    assert(word(ds[1]) + Seq::<u8>::empty() =~= word(ds[1]));
}
pub proof fn parts3(g: bnf_Grammar, x: bnf_Symbol, y: bnf_Symbol, z: bnf_Symbol, ds: Seq<Der>)
    requires derives_all(g, a3(x, y, z), ds),
    ensures ds.len() == 3, derives(g, x, ds[0]), derives(g, y, ds[1]), derives(g, z, ds[2]), words(ds, 0) == word(ds[0]) + word(ds[1]) + word(ds[2]),
{
    let a = a3(x, y, z);
    assert(a[0] == x && a[1] == y && a[2] == z); assert(derives(g, a[0], ds[0])); assert(derives(g, a[1], ds[1])); assert(derives(g, a[2], ds[2]));
    reveal_with_fuel(words, 4);
    assert(words(ds, 0) =~= word(ds[0]) + word(ds[1]) + word(ds[2]));
}
pub proof fn parts4(g: bnf_Grammar, x: bnf_Symbol, y: bnf_Symbol, z: bnf_Symbol, u: bnf_Symbol, ds: Seq<Der>)
    requires derives_all(g, a4(x, y, z, u), ds),
    ensures ds.len() == 4, derives(g, x, ds[0]), derives(g, y, ds[1]), derives(g, z, ds[2]), derives(g, u, ds[3]), words(ds, 0) == word(ds[0]) + word(ds[1]) + word(ds[2]) + word(ds[3]),
{
    let a = a4(x, y, z, u);
    assert(a[0] == x && a[1] == y && a[2] == z && a[3] == u);
    assert(derives(g, a[0], ds[0])); assert(derives(g, a[1], ds[1])); assert(derives(g, a[2], ds[2])); assert(derives(g, a[3], ds[3]));
    reveal_with_fuel(words, 5);
    assert(words(ds, 0) =~= word(ds[0]) + word(ds[1]) + word(ds[2]) + word(ds[3]));
}
pub proof fn parts7(g: bnf_Grammar, ds: Seq<Der>)
    requires derives_all(g, x_content(), ds),
    ensures
        ds.len() == 7, derives(g, dt(c1(60)), ds[0]), derives(g, dn(w_rule_name()), ds[1]), derives(g, dt(c1(62)), ds[2]), derives(g, dn(w_opt_whitespace()), ds[3]),
        derives(g, dt(c3(58, 58, 61)), ds[4]), derives(g, dn(w_opt_whitespace()), ds[5]), derives(g, dn(w_expression()), ds[6]),
        words(ds, 0) == c1(60) + word(ds[1]) + c1(62) + word(ds[3]) + c3(58, 58, 61) + word(ds[5]) + word(ds[6]),
{
    let a = x_content();
    assert(a[0] == dt(c1(60)) && a[1] == dn(w_rule_name()) && a[2] == dt(c1(62)) && a[3] == dn(w_opt_whitespace()) && a[4] == dt(c3(58, 58, 61)) && a[5] == dn(w_opt_whitespace()) && a[6] == dn(w_expression()));
    assert(derives(g, a[0], ds[0])); assert(derives(g, a[1], ds[1])); assert(derives(g, a[2], ds[2])); assert(derives(g, a[3], ds[3]));
    assert(derives(g, a[4], ds[4])); assert(derives(g, a[5], ds[5])); assert(derives(g, a[6], ds[6]));
    let v6 = words(ds, 6); let v5 = words(ds, 5); let v4 = words(ds, 4); let v3 = words(ds, 3); let v2 = words(ds, 2); let v1 = words(ds, 1);
    assert(words(ds, 7) =~= Seq::<u8>::empty());
    assert(v6 =~= word(ds[6]));
    assert(v5 == word(ds[5]) + v6); assert(v4 == word(ds[4]) + v5); assert(v3 == word(ds[3]) + v4); assert(v2 == word(ds[2]) + v3); assert(v1 == word(ds[1]) + v2);
    assert(words(ds, 0) == word(ds[0]) + v1);
    assert(words(ds, 0) =~= c1(60) + word(ds[1]) + c1(62) + word(ds[3]) + c3(58, 58, 61) + word(ds[5]) + word(ds[6]));
}

// ---- what derivations are written from ---------------------------------------------------------
pub proof fn i_ws(g: bnf_Grammar, d: Der) -> (n: nat)
    requires only_facts(g), derives(g, dn(w_opt_whitespace()), d),
    ensures word(d) == spaces(n),
    decreases d,
{
    let r = taken(g, w_opt_whitespace(), 24, l2(a1(de()), x_blank()), d);
    if r.0 == 0 { parts1(g, de(), r.1); 0 } else {
        parts2(g, dt(c1(32)), dn(w_opt_whitespace()), r.1);
        let n = i_ws(g, r.1[1]);
        n + 1
    }
}
pub proof fn i_class(g: bnf_Grammar, c: int, d: Der) -> (b: u8)
    requires only_facts(g), c == 21 || c == 22 || c == 23, derives(g, dn(class_name(c)), d),
    ensures in_class(c, b), word(d) == c1(b),
{
    named_rule_is(g, class_name(c));
    let k = d->Node_0; let ds = d->Node_1;
    class_alts_at(g.Rules[c].Tail.Sequences, c, 0, k);
    let s = alt(g, c, k);
    let b = s[0]->SymbolTerminal_0.Name[0];
    assert(derives(g, s[0], ds[0]));
    words1(ds[0]);
    assert(ds =~= Seq::empty().push(ds[0]));
    assert(word(ds[0]) =~= c1(b));
    b
}
pub proof fn i_name_tail(g: bnf_Grammar, d: Der)
    requires only_facts(g), derives(g, dn(w_rule_name_tail()), d),
    ensures forall|i: int| 0 <= i < word(d).len() ==> name_byte(#[trigger] word(d)[i]),
    decreases d,
{
    let r = taken(g, w_rule_name_tail(), 19, l2(a1(de()), x_name_tail()), d);
    if r.0 == 0 { parts1(g, de(), r.1); } else {
        parts2(g, dn(w_rule_char()), dn(w_rule_name_tail()), r.1);
        let c = r.1[0];
        let e = taken(g, w_rule_char(), 20, l3(a1(dn(w_letter())), a1(dn(w_digit())), a1(dt(c1(45)))), c);
        let b: u8 = if e.0 == 0 { parts1(g, dn(w_letter()), e.1); i_class(g, 21, e.1[0]) } else if e.0 == 1 { parts1(g, dn(w_digit()), e.1); i_class(g, 22, e.1[0]) } else { parts1(g, dt(c1(45)), e.1); 45 };
        assert(word(c) == c1(b) && name_byte(b));
        i_name_tail(g, r.1[1]);
        let w = word(r.1[1]);
        assert forall|i: int| 0 <= i < word(d).len() implies name_byte(#[trigger] word(d)[i]) by { if i > 0 { assert(word(d)[i] == w[i - 1]); } }
    }
}
pub proof fn i_name(g: bnf_Grammar, d: Der)
    requires only_facts(g), derives(g, dn(w_rule_name()), d),
    ensures name_ok(word(d)),
{
    let r = taken(g, w_rule_name(), 18, l1(x_name()), d);
    parts2(g, dn(w_letter()), dn(w_rule_name_tail()), r.1);
    let b = i_class(g, 21, r.1[0]);
    i_name_tail(g, r.1[1]);
    let w = word(r.1[1]);
    assert forall|i: int| 0 <= i < word(d).len() implies name_byte(#[trigger] word(d)[i]) by { if i > 0 { assert(word(d)[i] == w[i - 1]); } }
}
pub open spec fn of_letter(c: u8) -> u8 { if c == 116 { 9 } else if c == 110 { 10 } else if c == 114 { 13 } else { c } }
pub proof fn i_escaped(g: bnf_Grammar, d: Der) -> (c: u8)
    requires only_facts(g), derives(g, dn(w_escaped_char()), d),
    ensures c == 116 || c == 110 || c == 114 || c == 34 || c == 92, word(d) == c1(c),
{
    let r = taken(g, w_escaped_char(), 17, esc_alts(), d);
    let c: u8 = if r.0 == 0 { 116 } else if r.0 == 1 { 110 } else if r.0 == 2 { 114 } else if r.0 == 3 { 34 } else { 92 };
    assert(esc_alts()[r.0] == a1(dt(c1(c))));
    parts1(g, dt(c1(c)), r.1);
    c
}
pub proof fn i_piece(g: bnf_Grammar, q: u8, d: Der) -> (x: Piece)
    requires only_facts(g), q == 34 || q == 39, derives(g, dn(char_name(q)), d),
    ensures piece_ok(x, q), word(d) == wr_piece(x),
{
    let r = taken(g, char_name(q), if q == 34 { 13 } else { 14 }, chars_of(q), d);
    if r.0 == 0 {
        parts1(g, dn(w_character()), r.1);
        let e = r.1[0];
        let l = l3(a1(dn(w_letter())), a1(dn(w_digit())), a1(dn(w_symbol()))).push(a1(dn(w_escape_sequence())));
        let s = taken(g, w_character(), 15, l, e);
        if s.0 == 3 {
            parts1(g, dn(w_escape_sequence()), s.1);
            let u = taken(g, w_escape_sequence(), 16, l1(x_esc()), s.1[0]);
            parts2(g, dt(c1(92)), dn(w_escaped_char()), u.1);
            let c = i_escaped(g, u.1[1]);
            Piece { b: of_letter(c), esc: true }
        } else {
            let k = 21 + s.0;
            assert(l[s.0] == a1(dn(class_name(k))));
            parts1(g, dn(class_name(k)), s.1);
            let b = i_class(g, k, s.1[0]);
            Piece { b, esc: false }
        }
    } else {
        let b: u8 = if q == 34 { 39 } else { 34 };
        parts1(g, dt(c1(b)), r.1);
        Piece { b, esc: false }
    }
}
pub proof fn i_text(g: bnf_Grammar, q: u8, d: Der) -> (ps: Seq<Piece>)
    requires only_facts(g), q == 34 || q == 39, derives(g, dn(text_name(q)), d),
    ensures pieces_ok(ps, q), word(d) == wr_pieces(ps),
    decreases d,
{
    let r = taken(g, text_name(q), text_type(q), l2(a1(de()), x_text(q)), d);
    if r.0 == 0 { parts1(g, de(), r.1); Seq::empty() } else {
        parts2(g, dn(char_name(q)), dn(text_name(q)), r.1);
        let x = i_piece(g, q, r.1[0]);
        let t = i_text(g, q, r.1[1]);
        let ps = Seq::empty().push(x) + t;
        assert(ps.drop_first() =~= t);
        assert forall|j: int| 0 <= j < ps.len() implies piece_ok(#[trigger] ps[j], q) by { if j > 0 { assert(ps[j] == t[j - 1]); } }
        ps
    }
}
pub proof fn i_term(g: bnf_Grammar, d: Der) -> (s: SymL)
    requires only_facts(g), derives(g, dn(w_term()), d),
    ensures sym_l_ok(s), word(d) == wr_sym(s),
{
    let r = taken(g, w_term(), 9, l2(a1(dn(w_literal())), x_ref()), d);
    if r.0 == 0 {
        parts1(g, dn(w_literal()), r.1);
        let e = taken(g, w_literal(), 10, l2(x_lit(34), x_lit(39)), r.1[0]);
        let q: u8 = if e.0 == 0 { 34 } else { 39 };
        parts3(g, dt(c1(q)), dn(text_name(q)), dt(c1(q)), e.1);
        let ps = i_text(g, q, e.1[1]);
        SymL::Lit(q, ps)
    } else {
        parts3(g, dt(c1(60)), dn(w_rule_name()), dt(c1(62)), r.1);
        i_name(g, r.1[1]);
        SymL::Name(word(r.1[1]))
    }
}
pub proof fn i_syms(g: bnf_Grammar, ds: Seq<Der>) -> (l: Seq<SymW>)
    requires only_facts(g), derives_all(g, x_list(), ds),
    ensures syms_ok(l), l.len() > 0, words(ds, 0) == wr_syms(l),
    decreases ds, 0nat,
{
    parts3(g, dn(w_term()), dn(w_opt_whitespace()), dn(w_list_tail()), ds);
    let s = i_term(g, ds[0]);
    let n = i_ws(g, ds[1]);
    let t = i_ltail(g, ds[2]);
    let x = SymW { s, gap: n };
    let l = Seq::empty().push(x) + t;
    assert(l.drop_first() =~= t);
    assert forall|j: int| 0 <= j < l.len() implies sym_l_ok((#[trigger] l[j]).s) by { if j > 0 { assert(l[j] == t[j - 1]); } }
    l
}
pub proof fn i_ltail(g: bnf_Grammar, d: Der) -> (l: Seq<SymW>)
    requires only_facts(g), derives(g, dn(w_list_tail()), d),
    ensures syms_ok(l), word(d) == wr_syms(l),
    decreases d, 0nat,
{
    let r = taken(g, w_list_tail(), 8, l2(a1(de()), x_list()), d);
    if r.0 == 0 { parts1(g, de(), r.1); Seq::empty() } else { i_syms(g, r.1) }
}
pub proof fn i_list(g: bnf_Grammar, d: Der) -> (l: Seq<SymW>)
    requires only_facts(g), derives(g, dn(w_list()), d),
    ensures syms_ok(l), l.len() > 0, word(d) == wr_syms(l),
{
    let r = taken(g, w_list(), 7, l1(x_list()), d);
    i_syms(g, r.1)
}
pub proof fn alts_cons(x: AltW, t: Seq<AltW>)
    requires alt_w_ok(x), alts_w_ok(t),
    ensures alts_w_ok(Seq::empty().push(x) + t), (Seq::empty().push(x) + t).drop_first() == t, (Seq::empty().push(x) + t)[0] == x,
{
    let l = Seq::empty().push(x) + t;
    assert(l.drop_first() =~= t);
    assert forall|j: int| 0 <= j < l.len() implies alt_w_ok(#[trigger] l[j]) by { if j > 0 { assert(l[j] == t[j - 1]); } }
}
pub proof fn i_more_alts(g: bnf_Grammar, d: Der) -> (l: Seq<AltW>)
    requires only_facts(g), derives(g, dn(w_expression_tail()), d),
    ensures alts_w_ok(l), word(d) == wr_more_alts(l),
    decreases d,
{
    let r = taken(g, w_expression_tail(), 6, l2(a1(de()), x_more_alts()), d);
    if r.0 == 0 { parts1(g, de(), r.1); Seq::empty() } else {
        parts4(g, dt(c1(124)), dn(w_opt_whitespace()), dn(w_list()), dn(w_expression_tail()), r.1);
        let n = i_ws(g, r.1[1]);
        let s = i_list(g, r.1[2]);
        let t = i_more_alts(g, r.1[3]);
        let x = AltW { gap: n, syms: s };
        alts_cons(x, t);
        Seq::empty().push(x) + t
    }
}
// with the blanks before it
pub proof fn i_body(g: bnf_Grammar, d: Der, n: nat) -> (l: Seq<AltW>)
    requires only_facts(g), derives(g, dn(w_expression()), d),
    ensures alts_w_ok(l), l.len() > 0, l[0].gap == n, word(d) == wr_body(l),
{
    let r = taken(g, w_expression(), 5, l1(x_body()), d);
    parts2(g, dn(w_list()), dn(w_expression_tail()), r.1);
    let s = i_list(g, r.1[0]);
    let t = i_more_alts(g, r.1[1]);
    let x = AltW { gap: n, syms: s };
    alts_cons(x, t);
    Seq::empty().push(x) + t
}
pub proof fn i_rule(g: bnf_Grammar, d: Der) -> (r: RuleW)
    requires only_facts(g), derives(g, dn(w_content()), d),
    ensures rule_w_ok(r), word(d) == wr_rule(r),
{
    let r = taken(g, w_content(), 4, l1(x_content()), d);
    parts7(g, r.1);
    i_name(g, r.1[1]);
    let n = i_ws(g, r.1[3]);
    let m = i_ws(g, r.1[5]);
    let l = i_body(g, r.1[6], m);
    RuleW { name: word(r.1[1]), gap: n, alts: l }
}
pub proof fn i_line(g: bnf_Grammar, d: Der) -> (r: (nat, Option<RuleW>))
    requires only_facts(g), derives(g, dn(w_line()), d),
    ensures r.1 is Some ==> rule_w_ok(r.1->0), word(d) == spaces(r.0) + wr_opt(r.1),
{
    let r = taken(g, w_line(), 2, l1(x_line()), d);
    parts2(g, dn(w_opt_whitespace()), dn(w_opt_content()), r.1);
    let n = i_ws(g, r.1[0]);
    let e = taken(g, w_opt_content(), 3, l2(a1(dn(w_content())), a1(de())), r.1[1]);
    if e.0 == 0 {
        parts1(g, dn(w_content()), e.1);
        let x = i_rule(g, e.1[0]);
        (n, Some(x))
    } else { parts1(g, de(), e.1); (n, None) }
}
pub proof fn i_more(g: bnf_Grammar, d: Der) -> (l: Seq<LineW>)
    requires only_facts(g), derives(g, dn(w_more_lines()), d),
    ensures lines_ok(l), word(d) == wr_lines(l),
    decreases d,
{
    let r = taken(g, w_more_lines(), 1, l2(a1(de()), x_more()), d);
    if r.0 == 0 { parts1(g, de(), r.1); Seq::empty() } else {
        parts3(g, dn(w_EOL()), dn(w_line()), dn(w_more_lines()), r.1);
        let e = taken(g, w_EOL(), 25, l2(a1(dt(c1(10))), a1(dt(c1(13).push(10)))), r.1[0]);
        if e.0 == 0 { parts1(g, dt(c1(10)), e.1); } else { parts1(g, dt(c1(13).push(10)), e.1); }
        let y = i_line(g, r.1[1]);
        let t = i_more(g, r.1[2]);
        let x = LineW { crlf: e.0 != 0, gap: y.0, rule: y.1 };
        let l = Seq::empty().push(x) + t;
        assert(l.drop_first() =~= t);
        assert forall|j: int| 0 <= j < l.len() implies line_ok(#[trigger] l[j]) by { if j > 0 { assert(l[j] == t[j - 1]); } }
        l
    }
}
pub proof fn i_whole(g: bnf_Grammar, d: Der) -> (t: TextW)
    requires only_facts(g), derives(g, dn(w_syntax()), d),
    ensures text_ok(t), word(d) == written(t),
{
    let r = taken(g, w_syntax(), 0, l1(x_syntax()), d);
    parts3(g, dn(w_opt_whitespace()), dn(w_content()), dn(w_more_lines()), r.1);
    let n = i_ws(g, r.1[0]);
    let x = i_rule(g, r.1[1]);
    let l = i_more(g, r.1[2]);
    TextW { gap: n, rule: x, lines: l }
}

} // verus!
