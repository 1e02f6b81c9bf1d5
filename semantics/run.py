#!/usr/bin/env python3
"""Does gover translate Go the way Go runs?

Compiles and runs the functions of pkg/sem, writes what each returned as its
contract, and has gover and Verus prove these contracts from the source alone.
Then the negation of each contract, and the freedom from panics of the functions
that do panic, have to be refused."""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(HERE)
only = sys.argv[1:]
d = tempfile.mkdtemp(prefix="sem")
def sh(c, **k):
    return subprocess.run(c, capture_output=True, text=True, **k)
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", HOME=os.environ.get("HOME", "/root"))
def must(r, what):
    if r.returncode:
        print(what, r.stdout[-2000:], r.stderr[-2000:]); sys.exit(2)
    return r.stdout
must(sh(["go", "build", "-o", d + "/gover", "."], cwd=TOP + "/gover", env=env), "gover")
shutil.copytree(HERE + "/pkg", d + "/m/pkg"); shutil.copy(HERE + "/go.mod", d + "/m")
names = [k[4:] for k in must(sh([d + "/gover", "-list", "-repo", d + "/m"]), "list").split() if re.match(r"sem\.[A-Z]\w*$", k) and k != "sem.SetCounter"]
if only: names = [n for n in names if n in only]
calls = "".join('\tshow("%s", sem.%s)\n' % (n, n) for n in names)
os.mkdir(d + "/m/cmd")
open(d + "/m/cmd/main.go", "w").write('''package main
import ("encoding/json"; "fmt"; "os"; "reflect"; "sem.test/sem/pkg/sem")
var out = map[string]any{}
func show(n string, f any) {
	defer func() { if r := recover(); r != nil { out[n] = "PANIC" } }()
	var l []any
	for _, v := range reflect.ValueOf(f).Call(nil) {
		switch v.Kind() {
		case reflect.String: l = append(l, map[string]any{"b": []int{}, "s": bytesOf(v.String())})
		case reflect.Int, reflect.Bool, reflect.Slice: l = append(l, v.Interface())
		default: l = append(l, map[string]any{"u": fmt.Sprint(v.Interface()), "t": v.Type().String()})
		}
	}
	out[n] = l
}
func bytesOf(s string) []int { r := []int{}; for i := 0; i < len(s); i++ { r = append(r, int(s[i])) }; return r }
func main() {
''' + calls + '''	json.NewEncoder(os.Stdout).Encode(out)
}
''')
got = json.loads(must(sh(["go", "run", "./cmd"], cwd=d + "/m", env=env), "run"))
shutil.rmtree(d + "/m/cmd")
def lit(v):
    if v is True: return "true"
    if v is False: return "false"
    if isinstance(v, int): return "(%d) as int" % v
    if isinstance(v, list): return "seq![" + ", ".join("%dint" % x if x >= 0 else "(%d) as int" % x for x in v) + "]" if v else "Seq::<int>::empty()"
    if "u" in v: return v["u"] + "u64"
    return "seq![" + ", ".join("%du8" % x for x in v["s"]) + "]" if v["s"] else "Seq::<u8>::empty()"
def eq(n):
    r = got[n]
    if len(r) == 1: return ["result =~= " + lit(r[0]) if not isinstance(r[0], bool) else "result == " + lit(r[0])]
    return [("result%d =~= %s" if not isinstance(v, bool) else "result%d == %s") % (i, lit(v)) for i, v in enumerate(r)]
panics = [n for n in names if n.endswith("_panic")]
for n in names:
    if (got[n] == "PANIC") != (n in panics) and n != "Overflow_panic": print("code:", n, got[n]); sys.exit(2)
refuse = [n for n in names if n.endswith("_refuse")]
plain = [n for n in names if n not in panics + refuse]
def run(tag, spec, fns):
    open(d + "/%s.gspec" % tag, "w").write(spec)
    must(sh([d + "/gover", "-repo", d + "/m", "-specs", d + "/%s.gspec" % tag, "-mods", "", "-prelude", TOP + "/spec/prelude.rs",
         "-roots", ",".join("sem." + n for n in fns), "-out", d + "/c.rs", "-obl", d + "/o.json", "-debug"]), "translate")
    o = json.load(open(d + "/o.json"))
    bad = {}
    for x in o["obligations"]:
        if x.get("failed"): bad.setdefault(x["func"][4:], x["failed"])
    for n in o["notes"] or []: print("note:", n)
    r = sh(["verus", "c.rs", "--multiple-errors", "50", "--rlimit", "40"], cwd=d)
    t = r.stdout + r.stderr
    if "verification results" not in t: print("\n".join(re.findall(r"(?m)^error\[.*\n.*|^error: [^p].*\n.*", t))[:3000], t[-600:]); sys.exit(2)
    lines = open(d + "/c.rs").read().split("\n")
    for m in re.finditer(r"(?m)^error: ([^\n]*)\n(?:[^\n]*\n)*?\s*--> c.rs:(\d+)", t):
        i = int(m.group(2))
        while i > 0 and not re.match(r"pub mod f_", lines[i - 1]): i -= 1
        bad.setdefault(re.match(r"pub mod f_sem_(\w+) ", lines[i - 1]).group(1), m.group(1))
    return bad
A = run("a", "".join("@func sem.%s()\n" % n + "".join("@ensures value%d: %s\n" % (i, e) for i, e in enumerate(eq(n))) + "\n" for n in plain), plain)
B = run("b", "".join("@func sem.%s()\n@ensures other: !(%s)\n\n" % (n, " && ".join("(%s)" % e for e in eq(n))) for n in plain)
        + "".join("@func sem.%s()\n@ensures any: true\n\n" % n for n in panics)
        + "".join("@func sem.%s()\n@ensures value: %s\n\n" % (n, " && ".join("(%s)" % e for e in eq(n))) for n in refuse), names)
shutil.copy(d + "/c.rs", "/tmp/sem_b.rs") if os.environ.get("KEEP") else None
for n in plain:
    if n in A: print("NOT PROVED  %s = %s: %s" % (n, got[n], A[n]))
for n in names:
    if n not in B: print("UNSOUND     %s: %s accepted" % (n, "panic" if n in panics else "a wrong result"))
print("%d functions: %d results proved, %d wrong claims and panics refused" % (len(names), len(plain) - len(A), len([n for n in names if n in B])))
shutil.rmtree(d)
sys.exit(1 if [n for n in names if n not in B] else 0)
