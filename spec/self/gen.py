#!/usr/bin/env python3
"""documented.bnf (the comment above SelfGrammar, copied) -> ../documented.rs, ../../refute/documented.go"""
import os, re
H = os.path.dirname(os.path.abspath(__file__))
lines = open(H + "/documented.bnf").read().replace("\\\n", " ").split("\n")
ESC = {"n": "\n", "r": "\r", "t": "\t", "\\": "\\", '"': '"'}

def toks(s):
    i = 0
    while i < len(s):
        c = s[i]
        if c == " ":
            i += 1
        elif c == "|":
            yield ("|", None); i += 1
        elif c == "<":
            j = s.index(">", i); yield ("n", s[i + 1:j]); i = j + 1
        elif c in "\"'":
            # the comment writes the backslash of <symbol> bare; see DESIGN.md, C18
            if s[i:i + 3] == '"\\"' and s[i + 3:i + 5] in (" |", " ", ""):
                i += 3; yield ("bare", None); continue
            j, t = i + 1, ""
            while s[j] != c:
                if s[j] == "\\":
                    t += ESC[s[j + 1]]; j += 2
                else:
                    t += s[j]; j += 1
            yield ("t", t) if t else ("e", None)
            i = j + 1
        else:
            raise SystemExit("cannot read %r" % s[i:])

def b(s):
    return "Seq::<u8>::empty()" + "".join(".push(%du8)" % x for x in s.encode())

out = ["// The grammar documented above SelfGrammar. Made by self/gen.py from self/documented.bnf.", "verus! {", "",
       "pub open spec fn dt(name: Seq<u8>) -> bnf_Symbol { bnf_Symbol::SymbolTerminal(bnf_SymbolTerminal { Name: name }) }",
       "pub open spec fn dn(name: Seq<u8>) -> bnf_Symbol { bnf_Symbol::SymbolNonTerminal(bnf_SymbolNonTerminal { Name: name }) }",
       "pub open spec fn de() -> bnf_Symbol { bnf_Symbol::SymbolNothing(bnf_SymbolNothing { }) }",
       "pub open spec fn drule(name: Seq<u8>, alts: Seq<bnf_Sequence>) -> bnf_Rule { bnf_Rule { Head: bnf_SymbolNonTerminal { Name: name }, Tail: bnf_Substitution { Sequences: alts } } }", ""]
names = []
rules = []
for l in lines:
    m = re.match(r" *<([^>]*)> *::= (.*)$", l)
    if not m:
        if l.strip(): raise SystemExit("cannot read %r" % l)
        continue
    alts, cur = [], []
    for k, v in list(toks(m[2])) + [("|", None)]:
        if k == "|":
            if cur != ["bare"]: alts.append(cur)
            cur = []
        elif k == "bare": cur.append("bare")
        else: cur.append((k, v))
    rules.append((m[1], alts))
w = lambda s: "w_" + s.replace("-", "_")
for n, _ in rules:
    out.append("pub open spec fn %s() -> Seq<u8> { %s }" % (w(n), b(n)))
out.append("")
for i, (n, alts) in enumerate(rules):
    out.append("// <%s>" % n)
    out.append("pub open spec fn doc_%d() -> bnf_Rule {" % i)
    out.append("    drule(%s(), Seq::<bnf_Sequence>::empty()" % w(n))
    for a in alts:
        s = "Seq::<bnf_Symbol>::empty()"
        for k, v in a:
            s += ".push(%s)" % {"t": lambda: "dt(%s)" % b(v), "n": lambda: "dn(%s())" % w(v), "e": lambda: "de()"}[k]()
        out.append("        .push(bnf_Sequence { Symbols: %s })" % s)
    out.append("    )\n}")
out.append("pub open spec fn documented() -> bnf_Grammar {\n    bnf_Grammar { Rules: Seq::<bnf_Rule>::empty()" + "".join(".push(doc_%d())" % i for i in range(len(rules))) + " }\n}")
out.append("\n} // verus!")
open(H + "/../documented.rs", "w").write("\n".join(out) + "\n")

import json
go = ["package main", "", "// The grammar documented above SelfGrammar, one rule a line. Made by spec/self/gen.py.", "var documentedText = []string{"]
go += ["\t%s," % json.dumps(" ".join(l.replace('| "\\" |', "|").split(" ")).strip()) for l in lines if l.strip()]
go += ["}"]
open(H + "/../../refute/documented.go", "w").write("\n".join(go) + "\n")
