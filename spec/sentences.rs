// FIRST in terms of derivations: a byte is in FIRST of a sequence exactly if it
// begins a sentential form derived from it, 0 exactly if the sequence derives
// the empty string.
verus! {

// a partial derivation: the symbol itself, or an alternative of its rule derived further
pub enum Sent { Itself, Node(int, Seq<Sent>) }

pub open spec fn sent(g: bnf_Grammar, s: bnf_Symbol, d: Sent) -> bool
    decreases d,
{
    match d {
        Sent::Itself => true,
        Sent::Node(k, ds) => s is SymbolNonTerminal && {
            let i = rule_of(g, s->SymbolNonTerminal_0.Name);
            i >= 0 && is_alt(g, i, k) && ds.len() == alt(g, i, k).len()
            && forall|x: int| 0 <= x < ds.len() ==> sent(g, alt(g, i, k)[x], #[trigger] ds[x])
        },
    }
}
pub open spec fn sents(g: bnf_Grammar, s: Seq<bnf_Symbol>, ds: Seq<Sent>) -> bool {
    ds.len() == s.len() && forall|x: int| 0 <= x < ds.len() ==> sent(g, s[x], #[trigger] ds[x])
}
// the sentential form derived
pub open spec fn form(g: bnf_Grammar, s: bnf_Symbol, d: Sent) -> Seq<bnf_Symbol>
    decreases d, 0nat,
{
    match d {
        Sent::Itself => if s is SymbolNothing { Seq::empty() } else { seq![s] },
        Sent::Node(k, ds) => if s is SymbolNonTerminal { forms(g, alt(g, rule_of(g, s->SymbolNonTerminal_0.Name), k), ds, 0) } else { Seq::empty() },
    }
}
pub open spec fn forms(g: bnf_Grammar, s: Seq<bnf_Symbol>, ds: Seq<Sent>, x: nat) -> Seq<bnf_Symbol>
    decreases ds, ds.len() - x,
{
    if x >= ds.len() || x >= s.len() { Seq::empty() } else { form(g, s[x as int], ds[x as int]) + forms(g, s, ds, x + 1) }
}
// b begins the form f; 0 if f is empty
pub open spec fn leads_with(f: Seq<bnf_Symbol>, b: u8) -> bool {
    if b == 0 { f.len() == 0 } else { f.len() > 0 && f[0] is SymbolTerminal && f[0]->SymbolTerminal_0.Name.len() > 0 && f[0]->SymbolTerminal_0.Name[0] == b }
}
pub open spec fn can_begin(g: bnf_Grammar, s: Seq<bnf_Symbol>, b: u8) -> bool { exists|ds: Seq<Sent>| sents(g, s, ds) && leads_with(#[trigger] forms(g, s, ds, 0), b) }

pub proof fn forms_shift(g: bnf_Grammar, s: Seq<bnf_Symbol>, d: Sent, es: Seq<Sent>, x: nat)
    requires 0 < x <= s.len(), s.len() == es.len() + 1,
    ensures forms(g, s, seq![d] + es, x) == forms(g, s.drop_first(), es, (x - 1) as nat),
    decreases s.len() - x,
{
    if x < s.len() { forms_shift(g, s, d, es, x + 1); assert((seq![d] + es)[x as int] == es[x - 1]); assert(s.drop_first()[x - 1] == s[x as int]); }
}

pub proof fn sent_first(g: bnf_Grammar, v: bnf_SymbolNonTerminal, d: Sent, b: u8)
    requires wf(g), sent(g, bnf_Symbol::SymbolNonTerminal(v), d), leads_with(form(g, bnf_Symbol::SymbolNonTerminal(v), d), b),
    ensures rule_of(g, v.Name) >= 0, first(g, rule_of(g, v.Name), b),
    decreases d, 0nat,
{
    let s = bnf_Symbol::SymbolNonTerminal(v);
    match d {
        Sent::Itself => { assert(form(g, s, d)[0] == s); }
        Sent::Node(k, ds) => {
            let i = rule_of(g, v.Name);
            let a = alt(g, i, k);
            assert(good_seq(g, a));
            assert(a.skip(0) =~= a);
            sents_first(g, a, ds, 0, b);
            assert(altf(g, firsts(g), i, k, b));
            first_closed(g, i, b);
        }
    }
}
pub proof fn sents_first(g: bnf_Grammar, s: Seq<bnf_Symbol>, ds: Seq<Sent>, x: nat, b: u8)
    requires wf(g), sents(g, s, ds), x <= s.len(), good_seq(g, s) || plain_seq(g, s), leads_with(forms(g, s, ds, x), b),
    ensures seqf(g, firsts(g), s.skip(x as int), b),
    decreases ds, s.len() - x,
{
    if x < s.len() {
        let r = s.skip(x as int);
        assert(r[0] == s[x as int]);
        assert(r.drop_first() =~= s.skip(x as int + 1));
        let d = ds[x as int];
        assert(sent(g, s[x as int], d));
        let f = form(g, s[x as int], d);
        let h = forms(g, s, ds, x + 1);
        match s[x as int] {
            bnf_Symbol::SymbolTerminal(t) => { assert(f == seq![s[x as int]]); assert((f + h)[0] == s[x as int]); assert(b != 0); }
            bnf_Symbol::SymbolNothing(_) => { assert(s.len() == 1) by { if plain_seq(g, s) { assert(plain(g, s[x as int])); } } assert(f + h =~= Seq::<bnf_Symbol>::empty()); }
            bnf_Symbol::SymbolNonTerminal(v) => {
                if f.len() > 0 {
                    assert((f + h)[0] == f[0]);
                    sent_first(g, v, d, b);
                    assert(firsts(g)(rule_of(g, v.Name), b));
                } else {
                    assert(f + h =~= h);
                    sent_first(g, v, d, 0);
                    assert(firsts(g)(rule_of(g, v.Name), 0));
                    sents_first(g, s, ds, x + 1, b);
                }
            }
            _ => { assert(plain(g, s[x as int])); }
        }
    }
}
pub proof fn begins(g: bnf_Grammar, n: nat, s: Seq<bnf_Symbol>, b: u8) -> (ds: Seq<Sent>)
    requires wf(g), seqf(g, lev(g, n), s, b), good_seq(g, s) || plain_seq(g, s),
    ensures sents(g, s, ds), leads_with(forms(g, s, ds, 0), b),
    decreases n, s.len(),
{
    if s.len() == 0 { return Seq::empty(); }
    let r = s.drop_first();
    match s[0] {
        bnf_Symbol::SymbolNonTerminal(v) => {
            let i = rule_of(g, v.Name);
            assert(plain_seq(g, s)) by { if s.len() == 1 { assert(plain(g, s[0])); } }
            assert(plain_seq(g, r)) by { assert forall|x: int| 0 <= x < r.len() implies plain(g, #[trigger] r[x]) by { assert(plain(g, s[x + 1])); } }
            let go = b != 0 && lev(g, n)(i, b);
            let c = if go { b } else { 0 };
            assert(lev(g, n)(i, c));
            assert(n > 0);
            let m = (n - 1) as nat;
            assert(fst_by(g, lev(g, m), i, c));
            let k = choose|k: int| altf(g, lev(g, m), i, k, c);
            assert(good_seq(g, alt(g, i, k)));
            let kids = begins(g, m, alt(g, i, k), c);
            let d = Sent::Node(k, kids);
            let es = if go { Seq::new(r.len(), |x: int| Sent::Itself) } else { begins(g, n, r, b) };
            let ds = seq![d] + es;
            assert(sents(g, s, ds)) by { assert forall|x: int| 0 <= x < ds.len() implies sent(g, s[x], #[trigger] ds[x]) by { if x > 0 { assert(ds[x] == es[x - 1]); assert(sent(g, r[x - 1], es[x - 1])); } } }
            forms_shift(g, s, d, es, 1);
            let f = form(g, s[0], d);
            assert(ds[0] == d);
            let h = forms(g, r, es, 0);
            assert(forms(g, s, ds, 0) == f + h);
            if go { assert((f + h)[0] == f[0]); } else { assert(f + h =~= h); }
            ds
        }
        _ => {
            let ds = Seq::new(s.len(), |x: int| Sent::Itself);
            assert(sents(g, s, ds));
            reveal_with_fuel(forms, 3);
            let h = forms(g, s, ds, 1);
            assert(ds[0] == Sent::Itself);
            match s[0] {
                bnf_Symbol::SymbolTerminal(t) => { assert((seq![s[0]] + h)[0] == s[0]); assert(b != 0) by { if plain_seq(g, s) { assert(plain(g, s[0])); } } }
                bnf_Symbol::SymbolNothing(_) => { assert(s.len() == 1) by { if plain_seq(g, s) { assert(plain(g, s[0])); } } assert(forms(g, s, ds, 0) =~= Seq::<bnf_Symbol>::empty()); }
                _ => { }
            }
            ds
        }
    }
}
pub proof fn first_means(g: bnf_Grammar, s: Seq<bnf_Symbol>, b: u8)
    requires wf(g), good_seq(g, s) || plain_seq(g, s),
    ensures seqf(g, firsts(g), s, b) <==> can_begin(g, s, b),
{
    if seqf(g, firsts(g), s, b) {
        let n = seqf_rank(g, s, b);
        let ds = begins(g, n, s, b);
        assert(sents(g, s, ds) && leads_with(forms(g, s, ds, 0), b));
    }
    if can_begin(g, s, b) {
        let ds = choose|ds: Seq<Sent>| sents(g, s, ds) && leads_with(#[trigger] forms(g, s, ds, 0), b);
        assert(s.skip(0) =~= s);
        sents_first(g, s, ds, 0, b);
    }
}

} // verus!
