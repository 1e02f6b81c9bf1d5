// The text of a grammar, parsed by the built-in grammar and converted.
verus! {

pub proof fn self_inner()
    ensures class_facts(self_grammar()), inner_facts(self_grammar()), outer_facts(self_grammar()),
{
    assert(class_facts(self_grammar())) by (compute_only);
    assert(inner_facts(self_grammar())) by (compute_only);
    assert(outer_facts(self_grammar())) by (compute_only);
}
pub proof fn self_masks()
    ensures mask_facts(self_grammar()),
{
    assert(mask_facts(self_grammar())) by (compute_only);
}
pub proof fn self_only()
    ensures only_facts(self_grammar()),
{
    assert(only_facts(self_grammar())) by (compute_only);
}

// t is a grammar text of src
pub open spec fn text_of_src(t: TextW, src: Seq<u8>) -> bool { text_ok(t) && written(t) == src }
pub open spec fn readable(src: Seq<u8>) -> bool { exists|t: TextW| text_of_src(t, src) }
pub open spec fn reads_as(src: Seq<u8>, g: Option<bnf_Grammar>) -> bool { forall|t: TextW| #[trigger] text_of_src(t, src) ==> g == Some(said(t)) }

pub proof fn self_reads(src: Seq<u8>)
    ensures
        in_language(self_grammar(), src) <==> readable(src), wf(self_grammar()), !conflict(self_grammar()), self_grammar().Rules.len() > 0,
{
    hide(conflict); hide(char_facts); hide(class_facts); hide(inner_facts); hide(outer_facts); hide(mask_facts); hide(only_facts);
    self_ll1(); self_chars(); self_inner(); self_masks(); self_only();
    reads(self_grammar(), src);
}
pub proof fn reads(g: bnf_Grammar, src: Seq<u8>)
    requires text_facts(g), only_facts(g),
    ensures in_language(g, src) <==> readable(src),
{
    own_rule(g, 0);
    named_rule_is(g, w_syntax());
    if in_language(g, src) {
        let d = choose|d: Der| derivation_of(g, src, d);
        let t = i_whole(g, d);
        assert(text_of_src(t, src));
    }
    if readable(src) {
        let t = choose|t: TextW| text_of_src(t, src);
        let d = b_whole(g, t);
        assert(derivation_of(g, src, d));
    }
}
// the tree of a text converts to what the text says
pub proof fn converts(g: bnf_Grammar, t: Table, src: Seq<u8>, n: cst_Node)
    requires text_facts(g), table_of(g, t), parse_tree(t, src, n),
    ensures reads_as(src, conv_grammar(self_bind(), n, src)),
{
    own_rule(g, 0);
    named_rule_is(g, w_syntax());
    assert forall|x: TextW| #[trigger] text_of_src(x, src) implies conv_grammar(self_bind(), n, src) == Some(said(x)) by {
        let d = b_whole(g, x);
        assert(derivation_of(g, src, d));
        built_tree(g, t, src, d, n);
    }
}
pub proof fn self_converts(t: Table, src: Seq<u8>, n: cst_Node)
    requires table_of(self_grammar(), t), parse_tree(t, src, n),
    ensures reads_as(src, conv_grammar(self_bind(), n, src)),
{
    hide(conflict); hide(char_facts); hide(class_facts); hide(inner_facts); hide(outer_facts); hide(mask_facts);
    self_ll1(); self_chars(); self_inner(); self_masks();
    converts(self_grammar(), t, src, n);
}

pub proof fn all_known(g: bnf_Grammar)
    requires wf(g),
    ensures known_grammar(g),
{
    assert forall|i: int, k: int| #![trigger alt(g, i, k)] is_alt(g, i, k) implies known_seq(alt(g, i, k)) by {
        let s = alt(g, i, k);
        assert(good_seq(g, s));
        assert forall|x: int| 0 <= x < s.len() implies known_sym(#[trigger] s[x]) by { if plain_seq(g, s) { assert(plain(g, s[x])); } }
    }
}
// a text is accepted exactly if it is the text of a grammar, and then that grammar is the result
pub fn read_by_self(Ghost(text): Ghost<Seq<u8>>, Ghost(al_): Ghost<int>) -> (ret_: Ghost<(Err, Option<bnf_Grammar>, Err)>)
    ensures
        ret_@.0 is Nil <==> readable(text),
        ret_@.0 is Nil ==> ret_@.1 is Some && ret_@.2 is Nil && reads_as(text, ret_@.1),
{
    let Ghost(g) = bnf_SelfGrammar();
    proof {
        self_reads(text);
        all_known(g);
    }
    let Ghost(t) = tablegen_FromGrammar(Ghost(g));
    let ghost table = t.0->0;
    let ghost names = t.1->0;
    proof {
        table_halts(g, table, text);
        same_language(g, table, text);
    }
    let Ghost(p) = parser_NewLL1Parser(Ghost(table), Ghost(names));
    let Ghost(r) = parser_ll1parser_t_Parse(Ghost(p->ll1parser_t_0), Ghost(GoAny::Str(text)));
    if cond(Ghost(r.2 is Nil)) {
        proof {
            self_converts(table, text, r.0);
            shape_of_text(r.0, text.len() as int);
            let x = choose|x: TextW| text_of_src(x, text);
            assert(text_of_src(x, text));
        }
        let Ghost(b) = fromcst_SelfCSTtoASTBindings();
        let Ghost(c) = fromcst_BNFCSTtoASTBindings_ToAST(Ghost(b), Ghost(r.0), Ghost(text), Ghost(al_));
        Ghost((r.2, c.0, c.1))
    } else {
        Ghost((r.2, Option::None, Err::Nil))
    }
}

} // verus!
