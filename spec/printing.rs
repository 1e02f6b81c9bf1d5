// The text of grammars.
verus! {

// every byte replaced by f
pub open spec fn fm(s: Seq<u8>, f: spec_fn(u8) -> Seq<u8>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { fm(s.drop_last(), f) + f(s.last()) }
}
pub open spec fn swap_for(b: u8, n: Seq<u8>) -> spec_fn(u8) -> Seq<u8> { |c: u8| if c == b { n } else { seq![c] } }
pub open spec fn then(f: spec_fn(u8) -> Seq<u8>, h: spec_fn(u8) -> Seq<u8>) -> spec_fn(u8) -> Seq<u8> { |c: u8| fm(f(c), h) }

pub proof fn fm_cat(s: Seq<u8>, r: Seq<u8>, f: spec_fn(u8) -> Seq<u8>)
    ensures fm(s + r, f) == fm(s, f) + fm(r, f),
    decreases r.len(),
{
    if r.len() == 0 { assert(s + r =~= s); assert(fm(s, f) + fm(r, f) =~= fm(s, f)); } else {
        assert((s + r).drop_last() =~= s + r.drop_last());
        fm_cat(s, r.drop_last(), f);
        assert(fm(s, f) + fm(r.drop_last(), f) + f(r.last()) =~= fm(s, f) + fm(r, f));
    }
}
pub proof fn fm_then(s: Seq<u8>, f: spec_fn(u8) -> Seq<u8>, h: spec_fn(u8) -> Seq<u8>)
    ensures fm(fm(s, f), h) == fm(s, then(f, h)),
    decreases s.len(),
{
    if s.len() > 0 { fm_then(s.drop_last(), f, h); fm_cat(fm(s.drop_last(), f), f(s.last()), h); }
}
pub proof fn fm_same(s: Seq<u8>, f: spec_fn(u8) -> Seq<u8>, h: spec_fn(u8) -> Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] f(s[i]) == h(s[i]),
    ensures fm(s, f) == fm(s, h),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies #[trigger] f(s.drop_last()[i]) == h(s.drop_last()[i]) by { assert(f(s[i]) == h(s[i])); }
        fm_same(s.drop_last(), f, h);
        assert(f(s[s.len() - 1]) == h(s[s.len() - 1]));
    }
}
pub proof fn fm_one(b: u8, f: spec_fn(u8) -> Seq<u8>)
    ensures fm(seq![b], f) == f(b),
{
    assert(seq![b].drop_last() =~= Seq::<u8>::empty());
    reveal_with_fuel(fm, 2);
    assert(Seq::<u8>::empty() + f(b) =~= f(b));
}
pub proof fn fm_two(b: u8, c: u8, f: spec_fn(u8) -> Seq<u8>)
    ensures fm(seq![b, c], f) == f(b) + f(c),
{
    assert(seq![b, c] =~= seq![b] + seq![c]);
    fm_cat(seq![b], seq![c], f); fm_one(b, f); fm_one(c, f);
}
// strings.ReplaceAll of one byte
pub proof fn replaced(s: Seq<u8>, b: u8, n: Seq<u8>)
    ensures str_replace_all(s, seq![b], n) == fm(s, swap_for(b, n)),
    decreases s.len(),
{
    if s.len() > 0 {
        let r = s.drop_first();
        assert(s =~= seq![s[0]] + r);
        fm_cat(seq![s[0]], r, swap_for(b, n));
        fm_one(s[0], swap_for(b, n));
        assert(s.subrange(0, 1) =~= seq![s[0]]);
        assert(s.subrange(1, s.len() as int) =~= r);
        replaced(r, b, n);
        if s[0] != b { assert(seq![s[0]][0] != seq![b][0]); }
    }
}

// how a byte is written between quotes q
pub open spec fn esc_byte(b: u8, q: u8) -> Seq<u8> {
    if b == 92 { seq![92u8, 92u8] } else if b == 9 { seq![92u8, 116u8] } else if b == 10 { seq![92u8, 110u8] } else if b == 13 { seq![92u8, 114u8] }
    else if b == 34 && q == 34 { seq![92u8, 34u8] } else { seq![b] }
}
pub open spec fn esc(q: u8) -> spec_fn(u8) -> Seq<u8> { |b: u8| esc_byte(b, q) }
// single quotes if there is a double quote and no single quote inside
pub open spec fn quote_of(name: Seq<u8>) -> u8 { if name.contains(34u8) && !name.contains(39u8) { 39 } else { 34 } }
pub open spec fn quoted(name: Seq<u8>) -> Seq<u8> { seq![quote_of(name)] + fm(name, esc(quote_of(name))) + seq![quote_of(name)] }
pub open spec fn in_brackets(name: Seq<u8>) -> Seq<u8> { seq![60u8] + name + seq![62u8] }

pub open spec fn sym_text(s: bnf_Symbol) -> Seq<u8> {
    match s {
        bnf_Symbol::SymbolNonTerminal(v) => in_brackets(v.Name),
        bnf_Symbol::SymbolTerminal(t) => quoted(t.Name),
        bnf_Symbol::SymbolNothing(_) => seq![34u8, 34u8],
        bnf_Symbol::Other(x) => other_bnf_Symbol_String(x),
        bnf_Symbol::Nil => Seq::empty(),
    }
}
pub open spec fn no_nil(s: Seq<bnf_Symbol>) -> bool { forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i] is Nil) }
pub open spec fn no_nil_rule(r: bnf_Rule) -> bool { forall|k: int| 0 <= k < r.Tail.Sequences.len() ==> no_nil(#[trigger] r.Tail.Sequences[k].Symbols) }
// one space before each symbol
pub open spec fn alt_text(s: Seq<bnf_Symbol>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { alt_text(s.drop_last()) + seq![32u8] + sym_text(s.last()) }
}
// " |" between alternatives
pub open spec fn alts_text(a: Seq<bnf_Sequence>) -> Seq<u8>
    decreases a.len(),
{
    if a.len() == 0 { Seq::empty() } else { alts_text(a.drop_last()) + if a.len() > 1 { seq![32u8, 124u8] } else { Seq::empty() } + alt_text(a.last().Symbols) }
}
pub open spec fn rule_text(r: bnf_Rule) -> Seq<u8> { in_brackets(r.Head.Name) + seq![32u8, 58u8, 58u8, 61u8] + alts_text(r.Tail.Sequences) }
// newlines between rules
pub open spec fn rules_text(rs: Seq<bnf_Rule>) -> Seq<u8>
    decreases rs.len(),
{
    if rs.len() == 0 { Seq::empty() } else { rules_text(rs.drop_last()) + if rs.len() > 1 { seq![10u8] } else { Seq::empty() } + rule_text(rs.last()) }
}

pub proof fn joined(l: Seq<Seq<u8>>, rs: Seq<bnf_Rule>)
    requires l.len() == rs.len(), forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == rule_text(rs[i]),
    ensures str_join(l, seq![10u8]) == rules_text(rs),
    decreases l.len(),
{
    if l.len() > 0 {
        let a = l.drop_last(); let b = rs.drop_last();
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == rule_text(b[i]) by { assert(l[i] == rule_text(rs[i])); }
        joined(a, b);
        assert(l.last() == rule_text(rs.last()));
        if l.len() == 1 { assert(rules_text(rs) =~= l[0]); }
    }
}

// Replacements of single bytes one after the other, in whichever order they come:
// the backslash first, then the others.
pub open spec fn tab(t: bool, n: bool, r: bool, q: bool) -> spec_fn(u8) -> Seq<u8> {
    |b: u8| if b == 92 { seq![92u8, 92u8] } else if b == 9 && t { seq![92u8, 116u8] } else if b == 10 && n { seq![92u8, 110u8] }
        else if b == 13 && r { seq![92u8, 114u8] } else if b == 34 && q { seq![92u8, 34u8] } else { seq![b] }
}
pub open spec fn half(name: Seq<u8>, t: bool, n: bool, r: bool, q: bool) -> Seq<u8> { fm(name, tab(t, n, r, q)) }
pub broadcast proof fn step_backslash(s: Seq<u8>, o: Seq<u8>, w: Seq<u8>)
    ensures o =~= seq![92u8] && w =~= seq![92u8, 92u8] ==> #[trigger] str_replace_all(s, o, w) == half(s, false, false, false, false),
{
    replaced(s, 92, seq![92u8, 92u8]);
    fm_same(s, swap_for(92, seq![92u8, 92u8]), tab(false, false, false, false));
}
proof fn step(s: Seq<u8>, t: bool, n: bool, r: bool, q: bool, b: u8, c: u8, t2: bool, n2: bool, r2: bool, q2: bool)
    requires b == 9 && c == 116 && !t && t2 && (n2, r2, q2) == (n, r, q) || b == 10 && c == 110 && !n && n2 && (t2, r2, q2) == (t, r, q)
        || b == 13 && c == 114 && !r && r2 && (t2, n2, q2) == (t, n, q) || b == 34 && c == 34 && !q && q2 && (t2, n2, r2) == (t, n, r),
    ensures str_replace_all(half(s, t, n, r, q), seq![b], seq![92u8, c]) == half(s, t2, n2, r2, q2),
{
    let w = seq![92u8, c];
    let f = tab(t, n, r, q); let h = swap_for(b, w); let g = tab(t2, n2, r2, q2);
    replaced(fm(s, f), b, w);
    fm_then(s, f, h);
    assert forall|x: u8| #[trigger] then(f, h)(x) == g(x) by {
        if f(x).len() == 1 {
            fm_one(x, h);
        } else {
            let d = f(x)[1];
            assert(f(x) =~= seq![92u8, d]);
            fm_two(92, d, h);
            assert(seq![92u8] + seq![d] =~= seq![92u8, d]);
        }
    }
    fm_same(s, then(f, h), g);
}
pub broadcast proof fn step_other(s: Seq<u8>, t: bool, n: bool, r: bool, q: bool, o: Seq<u8>, w: Seq<u8>)
    ensures ({
        let a = #[trigger] str_replace_all(half(s, t, n, r, q), o, w);
        &&& !t && o =~= seq![9u8] && w =~= seq![92u8, 116u8] ==> a == half(s, true, n, r, q)
        &&& !n && o =~= seq![10u8] && w =~= seq![92u8, 110u8] ==> a == half(s, t, true, r, q)
        &&& !r && o =~= seq![13u8] && w =~= seq![92u8, 114u8] ==> a == half(s, t, n, true, q)
        &&& !q && o =~= seq![34u8] && w =~= seq![92u8, 34u8] ==> a == half(s, t, n, r, true)
    }),
{
    if !t { step(s, t, n, r, q, 9, 116, true, n, r, q); }
    if !n { step(s, t, n, r, q, 10, 110, t, true, r, q); }
    if !r { step(s, t, n, r, q, 13, 114, t, n, true, q); }
    if !q { step(s, t, n, r, q, 34, 34, t, n, r, true); }
}
// all at once
pub broadcast proof fn swap_all(s: Seq<u8>, f: spec_fn(u8) -> Seq<u8>)
    ensures #[trigger] str_swap(s, f) == fm(s, f),
    decreases s.len(),
{
    if s.len() > 0 { swap_all(s.drop_last(), f); }
}
pub broadcast proof fn swap_escapes(s: Seq<u8>, f: spec_fn(u8) -> Seq<u8>)
    ensures
        (forall|b: u8| #[trigger] f(b) =~= esc_byte(b, 34)) ==> #[trigger] str_swap(s, f) == half(s, true, true, true, true),
        (forall|b: u8| #[trigger] f(b) =~= esc_byte(b, 39)) ==> str_swap(s, f) == half(s, true, true, true, false),
{
    swap_all(s, f);
    if forall|b: u8| #[trigger] f(b) =~= esc_byte(b, 34) { fm_same(s, f, tab(true, true, true, true)); }
    if forall|b: u8| #[trigger] f(b) =~= esc_byte(b, 39) { fm_same(s, f, tab(true, true, true, false)); }
}
pub broadcast group escapes { step_backslash, step_other, swap_escapes }
pub proof fn escaped(name: Seq<u8>)
    ensures half(name, true, true, true, false) == fm(name, esc(39)), half(name, true, true, true, true) == fm(name, esc(34)),
        fm(name, esc(39)).contains(34u8) == name.contains(34u8), fm(name, esc(39)).contains(39u8) == name.contains(39u8),
{
    fm_same(name, tab(true, true, true, false), esc(39));
    fm_same(name, tab(true, true, true, true), esc(34));
    esc_quotes(name);
}
pub proof fn esc_quotes(name: Seq<u8>)
    ensures fm(name, esc(39)).contains(34u8) == name.contains(34u8), fm(name, esc(39)).contains(39u8) == name.contains(39u8),
    decreases name.len(),
{
    if name.len() > 0 {
        let n = name.drop_last();
        esc_quotes(n);
        let a = fm(n, esc(39)); let l = esc_byte(name.last(), 39);
        cat_contains(a, l, 34); cat_contains(a, l, 39);
        assert(name =~= n + seq![name.last()]);
        cat_contains(n, seq![name.last()], 34); cat_contains(n, seq![name.last()], 39);
        one_contains(name.last(), 34); one_contains(name.last(), 39);
        let x = name.last();
        if x == 92 || x == 9 || x == 10 || x == 13 {
            assert(l.len() == 2);
            assert(!l.contains(34u8) && !l.contains(39u8)) by { assert(l[0] == 92); assert(l[1] == 92 || l[1] == 116 || l[1] == 110 || l[1] == 114); }
        } else { one_contains(x, 34); }
    }
}
pub proof fn cat_contains(a: Seq<u8>, b: Seq<u8>, x: u8)
    ensures (a + b).contains(x) == (a.contains(x) || b.contains(x)),
{
    if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert((a + b)[i] == x); }
    if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert((a + b)[a.len() + i] == x); }
    if (a + b).contains(x) { let i = choose|i: int| 0 <= i < (a + b).len() && (a + b)[i] == x; if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); } }
}
pub proof fn one_contains(a: u8, x: u8)
    ensures seq![a].contains(x) == (a == x),
{
    assert(seq![a][0] == a);
}

// ---- reading it back ---------------------------------------------------------------
// what an escape stands for
pub open spec fn unesc_byte(c: u8) -> Option<u8> {
    if c == 92 { Some(92u8) } else if c == 116 { Some(9u8) } else if c == 110 { Some(10u8) } else if c == 114 { Some(13u8) } else if c == 34 { Some(34u8) } else { None }
}
// the content between quotes q; None if a quote q that is not escaped would end it early
pub open spec fn unesc(s: Seq<u8>, q: u8) -> Option<Seq<u8>>
    decreases s.len(),
{
    if s.len() == 0 { Some(Seq::empty()) } else if s[0] == q { None } else if s[0] != 92 {
        match unesc(s.drop_first(), q) { Some(r) => Some(seq![s[0]] + r), None => None }
    } else if s.len() == 1 { None } else {
        match (unesc_byte(s[1]), unesc(s.skip(2), q)) { (Some(c), Some(r)) => Some(seq![c] + r), _ => None }
    }
}
// undoing the escapes gives back the content
pub proof fn reads_back(name: Seq<u8>, q: u8)
    requires q == 34 || (q == 39 && !name.contains(39u8)),
    ensures unesc(fm(name, esc(q)), q) == Some(name),
    decreases name.len(),
{
    if name.len() > 0 {
        let r = name.drop_first();
        let b = name[0];
        assert(name =~= seq![b] + r);
        fm_cat(seq![b], r, esc(q));
        fm_one(b, esc(q));
        cat_contains(seq![b], r, 39u8); one_contains(b, 39u8);
        reads_back(r, q);
        let l = esc_byte(b, q); let t = fm(r, esc(q));
        let s = l + t;
        if l.len() == 1 { assert(s.drop_first() =~= t); assert(s[0] == b); } else { assert(s.skip(2) =~= t); assert(s[0] == 92 && s[1] == l[1]); }
    }
}
// what stands between the quotes
pub proof fn quoted_reads_back(name: Seq<u8>)
    ensures
        quoted(name).len() >= 2, quoted(name)[0] == quoted(name).last(),
        unesc(quoted(name).subrange(1, quoted(name).len() - 1), quoted(name)[0]) == Some(name),
{
    let q = quote_of(name);
    reads_back(name, q);
    assert(quoted(name).subrange(1, quoted(name).len() - 1) =~= fm(name, esc(q)));
}

} // verus!
