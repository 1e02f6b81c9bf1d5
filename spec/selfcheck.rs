// The built-in grammar, its table and its parser.
verus! {

pub proof fn self_same()
    ensures same_rules(self_grammar(), documented()),
{
    assert(same_rules(self_grammar(), documented())) by (compute_only);
}
pub proof fn self_ll1()
    ensures wf(self_grammar()), !conflict(self_grammar()),
{
    assert(check_ll1(self_grammar(), 6)) by (compute_only);
    check_sound(self_grammar(), 6);
}
pub proof fn self_chars()
    ensures char_facts(self_grammar()),
{
    assert(char_facts(self_grammar())) by (compute_only);
}

pub open spec fn char_of(g: bnf_Grammar, q: u8, b: u8, d: Der) -> bool { derives(g, dn(char_name(q)), d) && word(d) == esc_byte(b, q) }

pub open spec fn char_written(g: bnf_Grammar, q: u8, b: u8) -> bool { exists|d: Der| char_of(g, q, b, d) }
// every byte that can be written in a literal is a character of it
pub open spec fn writes_all(g: bnf_Grammar) -> bool {
    forall|b: u8, q: u8| writable(b) && (q == 34 || (q == 39 && b != 39)) ==> #[trigger] char_written(g, q, b)
}
pub proof fn all_written(g: bnf_Grammar)
    requires char_facts(g),
    ensures writes_all(g),
{
    assert forall|b: u8, q: u8| writable(b) && (q == 34 || (q == 39 && b != 39)) implies #[trigger] char_written(g, q, b) by {
        let d = char_der(g, b, q);
        assert(char_of(g, q, b, d));
    }
}
pub proof fn self_facts(src: GoAny)
    ensures
        wf(self_grammar()), !conflict(self_grammar()), same_rules(self_grammar(), documented()),
        src_text(src) is Some ==> in_language(self_grammar(), src_text(src)->0) == in_language(documented(), src_text(src)->0),
        writes_all(self_grammar()),
{
    hide(conflict); hide(same_rules); hide(char_facts); hide(in_language); hide(writes_all);
    self_same(); self_ll1(); self_chars();
    let g = self_grammar();
    assert(g.Rules.len() > 0);
    if src_text(src) is Some { equal_languages(g, documented(), src_text(src)->0); }
    all_written(g);
}

// the parser for the built-in grammar
pub fn parse_by_self(Ghost(src): Ghost<GoAny>) -> (ret_: Ghost<(bnf_Grammar, Err, cst_Node, Option<GoMap<int, Seq<u8>>>, Err)>)
    ensures
        // it is the documented grammar, and the table can be made
        same_rules(ret_@.0, documented()), ret_@.1 is Nil,
        // exactly the documented texts are accepted
        src_text(src) is Some ==> (ret_@.4 is Nil <==> in_language(documented(), src_text(src)->0)),
        ret_@.4 is Nil ==> src_text(src) is Some && ret_@.2 is node && ret_@.3 is Some,
        // every printable byte can be written in a literal
        writes_all(ret_@.0),
{
    let Ghost(g) = bnf_SelfGrammar();
    proof { self_facts(src); }
    let Ghost(r) = generate_and_parse(Ghost(g), Ghost(src));
    Ghost((g, r.0, r.1, r.2, r.3))
}

} // verus!
