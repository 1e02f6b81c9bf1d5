// FromGrammar, NewLL1Parser and Parse used together, over their contracts.
verus! {

pub fn generate_and_parse(Ghost(g): Ghost<bnf_Grammar>, Ghost(src): Ghost<GoAny>) -> (ret_: Ghost<(Err, cst_Node, Option<GoMap<int, Seq<u8>>>, Err)>)
    requires wf(g),
    ensures
        ret_@.0 is Nil <==> !conflict(g),
        // the language
        ret_@.0 is Nil && src_text(src) is Some ==> (ret_@.3 is Nil <==> in_language(g, src_text(src)->0)),
        ret_@.0 is Nil && ret_@.3 is Nil ==> src_text(src) is Some,
        // the form of the result
        ret_@.0 is Nil && ret_@.3 is Nil ==> ret_@.1 is node && ret_@.2 is Some,
        ret_@.0 is Nil && !(ret_@.3 is Nil) ==> ret_@.1 is Nil && ret_@.2 is None,
{
    proof {
        assert forall|i: int, k: int| #![trigger alt(g, i, k)] is_alt(g, i, k) implies known_seq(alt(g, i, k)) by {
            let s = alt(g, i, k);
            assert(good_seq(g, s));
            assert forall|x: int| 0 <= x < s.len() implies known_sym(#[trigger] s[x]) by { if plain_seq(g, s) { assert(plain(g, s[x])); } }
        }
    }
    let Ghost(t) = tablegen_FromGrammar(Ghost(g));
    if cond(Ghost(t.2 is Nil)) {
        let ghost table = t.0->0;
        let ghost names = t.1->0;
        proof {
            if src_text(src) is Some {
                table_halts(g, table, src_text(src)->0);
                same_language(g, table, src_text(src)->0);
            }
        }
        let Ghost(p) = parser_NewLL1Parser(Ghost(table), Ghost(names));
        let Ghost(r) = parser_ll1parser_t_Parse(Ghost(p->ll1parser_t_0), Ghost(src));
        Ghost((t.2, r.0, r.1, r.2))
    } else {
        Ghost((t.2, cst_Node::Nil, Option::None, Err::Nil))
    }
}

} // verus!
