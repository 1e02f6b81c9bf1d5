// Derivations by the built-in grammar. g stands for it.
verus! {

pub open spec fn c1(b: u8) -> Seq<u8> { Seq::empty().push(b) }
// alternatives
pub open spec fn a1(x: bnf_Symbol) -> Seq<bnf_Symbol> { Seq::empty().push(x) }
pub open spec fn a2(x: bnf_Symbol, y: bnf_Symbol) -> Seq<bnf_Symbol> { a1(x).push(y) }
pub open spec fn a3(x: bnf_Symbol, y: bnf_Symbol, z: bnf_Symbol) -> Seq<bnf_Symbol> { a2(x, y).push(z) }
// the place of alternative s in rule i, -1 if there is none
pub open spec fn place(g: bnf_Grammar, i: int, s: Seq<bnf_Symbol>) -> int { if 0 <= i < g.Rules.len() { has_alt(g.Rules[i].Tail.Sequences, s, 0) } else { -1 } }
pub open spec fn has_rule(g: bnf_Grammar, name: Seq<u8>, i: int, s: Seq<bnf_Symbol>) -> bool { named_rule(g, name) == i && place(g, i, s) >= 0 }

// a node of the derivation
pub proof fn node(g: bnf_Grammar, name: Seq<u8>, i: int, s: Seq<bnf_Symbol>, ds: Seq<Der>) -> (d: Der)
    requires has_rule(g, name, i, s), derives_all(g, s, ds),
    ensures derives(g, dn(name), d), word(d) == words(ds, 0), d == Der::Node(place(g, i, s), ds),
{
    named_rule_is(g, name);
    has_alt_props(g.Rules[i].Tail.Sequences, s, 0);
    Der::Node(place(g, i, s), ds)
}
pub proof fn words1(d: Der)
    ensures words(Seq::empty().push(d), 0) == word(d),
{
    reveal_with_fuel(words, 2);
    assert(word(d) + Seq::<u8>::empty() =~= word(d));
}
pub proof fn words2(d: Der, e: Der)
    ensures words(Seq::empty().push(d).push(e), 0) == word(d) + word(e),
{
    reveal_with_fuel(words, 3);
    assert(word(e) + Seq::<u8>::empty() =~= word(e));
}
pub proof fn node1(g: bnf_Grammar, name: Seq<u8>, i: int, x: bnf_Symbol, d: Der) -> (r: Der)
    requires has_rule(g, name, i, a1(x)), derives(g, x, d),
    ensures derives(g, dn(name), r), word(r) == word(d),
{
    let ds = Seq::empty().push(d);
    words1(d);
    node(g, name, i, a1(x), ds)
}
pub proof fn node2(g: bnf_Grammar, name: Seq<u8>, i: int, x: bnf_Symbol, y: bnf_Symbol, d: Der, e: Der) -> (r: Der)
    requires has_rule(g, name, i, a2(x, y)), derives(g, x, d), derives(g, y, e),
    ensures derives(g, dn(name), r), word(r) == word(d) + word(e),
{
    let ds = Seq::empty().push(d).push(e);
    words2(d, e);
    node(g, name, i, a2(x, y), ds)
}

// ---- characters -----------------------------------------------------------------------------
// the rule whose alternative byte b is: a letter, a digit or a symbol
pub open spec fn class_of(g: bnf_Grammar, b: u8) -> int {
    if place(g, 21, a1(dt(c1(b)))) >= 0 { 21 } else if place(g, 22, a1(dt(c1(b)))) >= 0 { 22 } else if place(g, 23, a1(dt(c1(b)))) >= 0 { 23 } else { -1 }
}
pub open spec fn class_name(i: int) -> Seq<u8> { if i == 21 { w_letter() } else if i == 22 { w_digit() } else { w_symbol() } }
// printable bytes from b on are in a class, but for quotes and backslash
pub open spec fn covered(g: bnf_Grammar, b: int) -> bool
    decreases 127 - b,
{
    if b < 32 || b >= 127 { true } else { (b == 34 || b == 39 || b == 92 || class_of(g, b as u8) >= 0) && covered(g, b + 1) }
}
pub proof fn covered_at(g: bnf_Grammar, b: int, x: int)
    requires covered(g, b), 32 <= b <= x < 127, x != 34, x != 39, x != 92,
    ensures class_of(g, x as u8) >= 0,
    decreases x - b,
{
    if b < x { covered_at(g, b + 1, x); }
}
pub open spec fn char_facts(g: bnf_Grammar) -> bool {
    covered(g, 32) && named_rule(g, w_letter()) == 21 && named_rule(g, w_digit()) == 22 && named_rule(g, w_symbol()) == 23
    && has_rule(g, w_character(), 15, a1(dn(w_letter()))) && has_rule(g, w_character(), 15, a1(dn(w_digit()))) && has_rule(g, w_character(), 15, a1(dn(w_symbol())))
    && has_rule(g, w_character(), 15, a1(dn(w_escape_sequence())))
    && has_rule(g, w_character1(), 13, a1(dn(w_character()))) && has_rule(g, w_character1(), 13, a1(dt(c1(39))))
    && has_rule(g, w_character2(), 14, a1(dn(w_character()))) && has_rule(g, w_character2(), 14, a1(dt(c1(34))))
    && has_rule(g, w_escape_sequence(), 16, a2(dt(c1(92)), dn(w_escaped_char())))
    && has_rule(g, w_escaped_char(), 17, a1(dt(c1(116)))) && has_rule(g, w_escaped_char(), 17, a1(dt(c1(110)))) && has_rule(g, w_escaped_char(), 17, a1(dt(c1(114))))
    && has_rule(g, w_escaped_char(), 17, a1(dt(c1(34)))) && has_rule(g, w_escaped_char(), 17, a1(dt(c1(92))))
}
pub open spec fn writable(b: u8) -> bool { 32 <= b < 127 || b == 9 || b == 10 || b == 13 }
// a byte as it is printed between quotes q is a character of such a text
pub open spec fn char_name(q: u8) -> Seq<u8> { if q == 34 { w_character1() } else { w_character2() } }
pub proof fn char_der(g: bnf_Grammar, b: u8, q: u8) -> (d: Der)
    requires char_facts(g), writable(b), q == 34 || (q == 39 && b != 39),
    ensures derives(g, dn(char_name(q)), d), word(d) == esc_byte(b, q),
{
    let e = esc_byte(b, q);
    let i = if q == 34 { 13int } else { 14int };
    if e.len() == 2 {
        let c = e[1];
        let t = Der::Text(c1(c));
        let x = node1(g, w_escaped_char(), 17, dt(c1(c)), t);
        let y = node2(g, w_escape_sequence(), 16, dt(c1(92)), dn(w_escaped_char()), Der::Text(c1(92)), x);
        let z = node1(g, w_character(), 15, dn(w_escape_sequence()), y);
        assert(word(z) =~= e);
        node1(g, char_name(q), i, dn(w_character()), z)
    } else if b == 39 || b == 34 {
        assert(c1(b) =~= e);
        node1(g, char_name(q), i, dt(c1(b)), Der::Text(c1(b)))
    } else {
        covered_at(g, 32, b as int);
        let k = class_of(g, b);
        assert(c1(b) =~= e);
        let x = node1(g, class_name(k), k, dt(c1(b)), Der::Text(c1(b)));
        let y = node1(g, w_character(), 15, dn(class_name(k)), x);
        node1(g, char_name(q), i, dn(w_character()), y)
    }
}

} // verus!
