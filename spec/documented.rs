// The grammar documented above SelfGrammar. Made by self/gen.py from self/documented.bnf.
verus! {

pub open spec fn dt(name: Seq<u8>) -> bnf_Symbol { bnf_Symbol::SymbolTerminal(bnf_SymbolTerminal { Name: name }) }
pub open spec fn dn(name: Seq<u8>) -> bnf_Symbol { bnf_Symbol::SymbolNonTerminal(bnf_SymbolNonTerminal { Name: name }) }
pub open spec fn de() -> bnf_Symbol { bnf_Symbol::SymbolNothing(bnf_SymbolNothing { }) }
pub open spec fn drule(name: Seq<u8>, alts: Seq<bnf_Sequence>) -> bnf_Rule { bnf_Rule { Head: bnf_SymbolNonTerminal { Name: name }, Tail: bnf_Substitution { Sequences: alts } } }

pub open spec fn w_syntax() -> Seq<u8> { Seq::<u8>::empty().push(115u8).push(121u8).push(110u8).push(116u8).push(97u8).push(120u8) }
pub open spec fn w_more_lines() -> Seq<u8> { Seq::<u8>::empty().push(109u8).push(111u8).push(114u8).push(101u8).push(45u8).push(108u8).push(105u8).push(110u8).push(101u8).push(115u8) }
pub open spec fn w_line() -> Seq<u8> { Seq::<u8>::empty().push(108u8).push(105u8).push(110u8).push(101u8) }
pub open spec fn w_opt_content() -> Seq<u8> { Seq::<u8>::empty().push(111u8).push(112u8).push(116u8).push(45u8).push(99u8).push(111u8).push(110u8).push(116u8).push(101u8).push(110u8).push(116u8) }
pub open spec fn w_content() -> Seq<u8> { Seq::<u8>::empty().push(99u8).push(111u8).push(110u8).push(116u8).push(101u8).push(110u8).push(116u8) }
pub open spec fn w_expression() -> Seq<u8> { Seq::<u8>::empty().push(101u8).push(120u8).push(112u8).push(114u8).push(101u8).push(115u8).push(115u8).push(105u8).push(111u8).push(110u8) }
pub open spec fn w_expression_tail() -> Seq<u8> { Seq::<u8>::empty().push(101u8).push(120u8).push(112u8).push(114u8).push(101u8).push(115u8).push(115u8).push(105u8).push(111u8).push(110u8).push(45u8).push(116u8).push(97u8).push(105u8).push(108u8) }
pub open spec fn w_list() -> Seq<u8> { Seq::<u8>::empty().push(108u8).push(105u8).push(115u8).push(116u8) }
pub open spec fn w_list_tail() -> Seq<u8> { Seq::<u8>::empty().push(108u8).push(105u8).push(115u8).push(116u8).push(45u8).push(116u8).push(97u8).push(105u8).push(108u8) }
pub open spec fn w_term() -> Seq<u8> { Seq::<u8>::empty().push(116u8).push(101u8).push(114u8).push(109u8) }
pub open spec fn w_literal() -> Seq<u8> { Seq::<u8>::empty().push(108u8).push(105u8).push(116u8).push(101u8).push(114u8).push(97u8).push(108u8) }
pub open spec fn w_text1() -> Seq<u8> { Seq::<u8>::empty().push(116u8).push(101u8).push(120u8).push(116u8).push(49u8) }
pub open spec fn w_text2() -> Seq<u8> { Seq::<u8>::empty().push(116u8).push(101u8).push(120u8).push(116u8).push(50u8) }
pub open spec fn w_character1() -> Seq<u8> { Seq::<u8>::empty().push(99u8).push(104u8).push(97u8).push(114u8).push(97u8).push(99u8).push(116u8).push(101u8).push(114u8).push(49u8) }
pub open spec fn w_character2() -> Seq<u8> { Seq::<u8>::empty().push(99u8).push(104u8).push(97u8).push(114u8).push(97u8).push(99u8).push(116u8).push(101u8).push(114u8).push(50u8) }
pub open spec fn w_character() -> Seq<u8> { Seq::<u8>::empty().push(99u8).push(104u8).push(97u8).push(114u8).push(97u8).push(99u8).push(116u8).push(101u8).push(114u8) }
pub open spec fn w_escape_sequence() -> Seq<u8> { Seq::<u8>::empty().push(101u8).push(115u8).push(99u8).push(97u8).push(112u8).push(101u8).push(45u8).push(115u8).push(101u8).push(113u8).push(117u8).push(101u8).push(110u8).push(99u8).push(101u8) }
pub open spec fn w_escaped_char() -> Seq<u8> { Seq::<u8>::empty().push(101u8).push(115u8).push(99u8).push(97u8).push(112u8).push(101u8).push(100u8).push(45u8).push(99u8).push(104u8).push(97u8).push(114u8) }
pub open spec fn w_rule_name() -> Seq<u8> { Seq::<u8>::empty().push(114u8).push(117u8).push(108u8).push(101u8).push(45u8).push(110u8).push(97u8).push(109u8).push(101u8) }
pub open spec fn w_rule_name_tail() -> Seq<u8> { Seq::<u8>::empty().push(114u8).push(117u8).push(108u8).push(101u8).push(45u8).push(110u8).push(97u8).push(109u8).push(101u8).push(45u8).push(116u8).push(97u8).push(105u8).push(108u8) }
pub open spec fn w_rule_char() -> Seq<u8> { Seq::<u8>::empty().push(114u8).push(117u8).push(108u8).push(101u8).push(45u8).push(99u8).push(104u8).push(97u8).push(114u8) }
pub open spec fn w_letter() -> Seq<u8> { Seq::<u8>::empty().push(108u8).push(101u8).push(116u8).push(116u8).push(101u8).push(114u8) }
pub open spec fn w_digit() -> Seq<u8> { Seq::<u8>::empty().push(100u8).push(105u8).push(103u8).push(105u8).push(116u8) }
pub open spec fn w_symbol() -> Seq<u8> { Seq::<u8>::empty().push(115u8).push(121u8).push(109u8).push(98u8).push(111u8).push(108u8) }
pub open spec fn w_opt_whitespace() -> Seq<u8> { Seq::<u8>::empty().push(111u8).push(112u8).push(116u8).push(45u8).push(119u8).push(104u8).push(105u8).push(116u8).push(101u8).push(115u8).push(112u8).push(97u8).push(99u8).push(101u8) }
pub open spec fn w_EOL() -> Seq<u8> { Seq::<u8>::empty().push(69u8).push(79u8).push(76u8) }

// <syntax>
pub open spec fn doc_0() -> bnf_Rule {
    drule(w_syntax(), Seq::<bnf_Sequence>::empty()
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dn(w_opt_whitespace())).push(dn(w_content())).push(dn(w_more_lines())) })
    )
}
// <more-lines>
pub open spec fn doc_1() -> bnf_Rule {
    drule(w_more_lines(), Seq::<bnf_Sequence>::empty()
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(de()) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dn(w_EOL())).push(dn(w_line())).push(dn(w_more_lines())) })
    )
}
// <line>
pub open spec fn doc_2() -> bnf_Rule {
    drule(w_line(), Seq::<bnf_Sequence>::empty()
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dn(w_opt_whitespace())).push(dn(w_opt_content())) })
    )
}
// <opt-content>
pub open spec fn doc_3() -> bnf_Rule {
    drule(w_opt_content(), Seq::<bnf_Sequence>::empty()
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dn(w_content())) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(de()) })
    )
}
// <content>
pub open spec fn doc_4() -> bnf_Rule {
    drule(w_content(), Seq::<bnf_Sequence>::empty()
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(60u8))).push(dn(w_rule_name())).push(dt(Seq::<u8>::empty().push(62u8))).push(dn(w_opt_whitespace())).push(dt(Seq::<u8>::empty().push(58u8).push(58u8).push(61u8))).push(dn(w_opt_whitespace())).push(dn(w_expression())) })
    )
}
// <expression>
pub open spec fn doc_5() -> bnf_Rule {
    drule(w_expression(), Seq::<bnf_Sequence>::empty()
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dn(w_list())).push(dn(w_expression_tail())) })
    )
}
// <expression-tail>
pub open spec fn doc_6() -> bnf_Rule {
    drule(w_expression_tail(), Seq::<bnf_Sequence>::empty()
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(de()) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(124u8))).push(dn(w_opt_whitespace())).push(dn(w_list())).push(dn(w_expression_tail())) })
    )
}
// <list>
pub open spec fn doc_7() -> bnf_Rule {
    drule(w_list(), Seq::<bnf_Sequence>::empty()
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dn(w_term())).push(dn(w_opt_whitespace())).push(dn(w_list_tail())) })
    )
}
// <list-tail>
pub open spec fn doc_8() -> bnf_Rule {
    drule(w_list_tail(), Seq::<bnf_Sequence>::empty()
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(de()) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dn(w_term())).push(dn(w_opt_whitespace())).push(dn(w_list_tail())) })
    )
}
// <term>
pub open spec fn doc_9() -> bnf_Rule {
    drule(w_term(), Seq::<bnf_Sequence>::empty()
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dn(w_literal())) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(60u8))).push(dn(w_rule_name())).push(dt(Seq::<u8>::empty().push(62u8))) })
    )
}
// <literal>
pub open spec fn doc_10() -> bnf_Rule {
    drule(w_literal(), Seq::<bnf_Sequence>::empty()
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(34u8))).push(dn(w_text1())).push(dt(Seq::<u8>::empty().push(34u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(39u8))).push(dn(w_text2())).push(dt(Seq::<u8>::empty().push(39u8))) })
    )
}
// <text1>
pub open spec fn doc_11() -> bnf_Rule {
    drule(w_text1(), Seq::<bnf_Sequence>::empty()
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(de()) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dn(w_character1())).push(dn(w_text1())) })
    )
}
// <text2>
pub open spec fn doc_12() -> bnf_Rule {
    drule(w_text2(), Seq::<bnf_Sequence>::empty()
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(de()) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dn(w_character2())).push(dn(w_text2())) })
    )
}
// <character1>
pub open spec fn doc_13() -> bnf_Rule {
    drule(w_character1(), Seq::<bnf_Sequence>::empty()
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(39u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dn(w_character())) })
    )
}
// <character2>
pub open spec fn doc_14() -> bnf_Rule {
    drule(w_character2(), Seq::<bnf_Sequence>::empty()
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(34u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dn(w_character())) })
    )
}
// <character>
pub open spec fn doc_15() -> bnf_Rule {
    drule(w_character(), Seq::<bnf_Sequence>::empty()
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dn(w_letter())) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dn(w_digit())) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dn(w_symbol())) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dn(w_escape_sequence())) })
    )
}
// <escape-sequence>
pub open spec fn doc_16() -> bnf_Rule {
    drule(w_escape_sequence(), Seq::<bnf_Sequence>::empty()
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(92u8))).push(dn(w_escaped_char())) })
    )
}
// <escaped-char>
pub open spec fn doc_17() -> bnf_Rule {
    drule(w_escaped_char(), Seq::<bnf_Sequence>::empty()
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(116u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(110u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(114u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(34u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(92u8))) })
    )
}
// <rule-name>
pub open spec fn doc_18() -> bnf_Rule {
    drule(w_rule_name(), Seq::<bnf_Sequence>::empty()
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dn(w_letter())).push(dn(w_rule_name_tail())) })
    )
}
// <rule-name-tail>
pub open spec fn doc_19() -> bnf_Rule {
    drule(w_rule_name_tail(), Seq::<bnf_Sequence>::empty()
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(de()) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dn(w_rule_char())).push(dn(w_rule_name_tail())) })
    )
}
// <rule-char>
pub open spec fn doc_20() -> bnf_Rule {
    drule(w_rule_char(), Seq::<bnf_Sequence>::empty()
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dn(w_letter())) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dn(w_digit())) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(45u8))) })
    )
}
// <letter>
pub open spec fn doc_21() -> bnf_Rule {
    drule(w_letter(), Seq::<bnf_Sequence>::empty()
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(65u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(66u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(67u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(68u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(69u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(70u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(71u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(72u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(73u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(74u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(75u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(76u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(77u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(78u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(79u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(80u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(81u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(82u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(83u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(84u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(85u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(86u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(87u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(88u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(89u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(90u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(97u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(98u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(99u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(100u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(101u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(102u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(103u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(104u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(105u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(106u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(107u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(108u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(109u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(110u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(111u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(112u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(113u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(114u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(115u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(116u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(117u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(118u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(119u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(120u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(121u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(122u8))) })
    )
}
// <digit>
pub open spec fn doc_22() -> bnf_Rule {
    drule(w_digit(), Seq::<bnf_Sequence>::empty()
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(48u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(49u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(50u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(51u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(52u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(53u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(54u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(55u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(56u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(57u8))) })
    )
}
// <symbol>
pub open spec fn doc_23() -> bnf_Rule {
    drule(w_symbol(), Seq::<bnf_Sequence>::empty()
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(124u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(32u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(33u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(35u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(36u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(37u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(38u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(40u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(41u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(42u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(43u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(44u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(45u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(46u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(47u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(58u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(59u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(62u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(61u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(60u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(63u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(64u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(91u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(93u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(94u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(95u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(96u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(123u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(125u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(126u8))) })
    )
}
// <opt-whitespace>
pub open spec fn doc_24() -> bnf_Rule {
    drule(w_opt_whitespace(), Seq::<bnf_Sequence>::empty()
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(32u8))).push(dn(w_opt_whitespace())) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(de()) })
    )
}
// <EOL>
pub open spec fn doc_25() -> bnf_Rule {
    drule(w_EOL(), Seq::<bnf_Sequence>::empty()
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(10u8))) })
        .push(bnf_Sequence { Symbols: Seq::<bnf_Symbol>::empty().push(dt(Seq::<u8>::empty().push(13u8).push(10u8))) })
    )
}
pub open spec fn documented() -> bnf_Grammar {
    bnf_Grammar { Rules: Seq::<bnf_Rule>::empty().push(doc_0()).push(doc_1()).push(doc_2()).push(doc_3()).push(doc_4()).push(doc_5()).push(doc_6()).push(doc_7()).push(doc_8()).push(doc_9()).push(doc_10()).push(doc_11()).push(doc_12()).push(doc_13()).push(doc_14()).push(doc_15()).push(doc_16()).push(doc_17()).push(doc_18()).push(doc_19()).push(doc_20()).push(doc_21()).push(doc_22()).push(doc_23()).push(doc_24()).push(doc_25()) }
}

} // verus!
