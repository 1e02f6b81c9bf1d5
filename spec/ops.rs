// Parser tables and their symbols.
verus! {

pub type Table = GoMap<int, GoMap<u8, Seq<parser_ParserOp>>>;

pub open spec fn op_nt(n: int) -> parser_ParserOp { parser_ParserOp::nonTerminal_t(parser_nonTerminal_t { name: n }) }
pub open spec fn op_t(v: Seq<u8>) -> parser_ParserOp { parser_ParserOp::terminal_t(parser_terminal_t { value: v }) }
pub open spec fn op_c(b: u8) -> parser_ParserOp { parser_ParserOp::opChar_t(parser_opChar_t { value: b }) }
pub open spec fn op_f(name: int, pos: int, amount: int) -> parser_ParserOp { parser_ParserOp::function_t(parser_function_t { name: name, pos: pos, amount: amount }) }
pub open spec fn op_eos() -> parser_ParserOp { parser_ParserOp::opEOS_t(parser_opEOS_t { }) }


// symbols a table may hold: terminals and nonterminals
pub open spec fn sym_ok(o: parser_ParserOp) -> bool { o is nonTerminal_t || o is terminal_t }
pub open spec fn cell_ok(c: Seq<parser_ParserOp>) -> bool { forall|i: int| 0 <= i < c.len() ==> sym_ok(#[trigger] c[i]) }
pub open spec fn table_ok(t: Table) -> bool {
    forall|n: int, b: u8| #![trigger t.m[n].m[b]] t.m.dom().contains(n) && t.m[n].m.dom().contains(b) ==> cell_ok(t.m[n].m[b])
}

// the next source byte, 0 at the end of input
pub open spec fn look(src: Seq<u8>, p: int) -> u8 { if 0 <= p < src.len() { src[p] } else { 0u8 } }

// the cell selected by a row and a byte. Row -2 is the built-in end of line.
pub open spec fn expand(t: Table, n: int, b: u8) -> Option<Seq<parser_ParserOp>> {
    if n >= 0 {
        if t.m.dom().contains(n) && t.m[n].m.dom().contains(b) { Some(t.m[n].m[b]) } else { None }
    } else if n == -2 && b == 10u8 { Some(seq![op_t(seq![10u8])]) }
    else if n == -2 && b == 13u8 { Some(seq![op_t(seq![13u8]), op_t(seq![10u8])]) }
    else { None }
}

} // verus!
