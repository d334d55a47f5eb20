#!/usr/bin/env python3
"""Enumerates programs over the grammars of scene! and class! and writes them, with what each is to show, as Rust source.

usage: gen_macros.py <quick|thorough> <out.rs>

Every program is one line of the output: `fn pN() -> String { .. }` (a scene) or `mod kN { .. }` (a class).
What it is to show is computed here, from the description of the program, and not from the macros.
"""
import itertools, sys

TIER, OUT = sys.argv[1], sys.argv[2]
QUICK = TIER == "quick"
progs = []      # (family, text, function, expected)
lines = []

def raw(s): return 'r####"' + s + '"####'
def dbg(s):
    """Rust's {:?} of a str, for the characters used here."""
    out = '"'
    for c in s: out += {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t'}.get(c, c)
    return out + '"'

# ------------------------------------------------------------------------------------------------ scenes

class N:
    """A node: class, arguments, name, settings, children; each value is (source, debug form)."""
    def __init__(self, cls, args=None, name=None, sets=(), kids=(), form="", parens=None):
        self.cls, self.args, self.name, self.sets, self.kids, self.form, self.parens = cls, args or [], name, list(sets), list(kids), form, parens
class L:
    """A link to a scene in a variable."""
    def __init__(self, var, scene): self.var, self.scene = var, scene

SHORT = {"P": "P", "Q": "Q", "inner::R": "R", "inner::deeper::S": "S"}
FIELDS = {"P": ["a", "b", "c", "d", "e"], "Q": ["x", "y", "t"], "inner::R": ["k"], "inner::deeper::S": ["z"]}
START  = {"P": {"a": "0", "b": '"b"', "c": "1", "d": "0", "e": "[]"}, "Q": {"t": "0"}, "inner::R": {}, "inner::deeper::S": {"z": '"s"'}}
ARGS   = {"P": [], "Q": ["x", "y"], "inner::R": ["k"], "inner::deeper::S": []}

ticks = 0
def tick(src, d):
    """An expression whose every evaluation is counted."""
    global ticks
    ticks += 1
    return (f"tick({ticks}, {src})", d)

def text(n):
    if isinstance(n, L): return "$" + n.var
    s = n.cls
    if n.args or n.parens is not None:
        s += "(" + ", ".join(a[0] for a in n.args) + ("," if n.parens == "comma" and n.args else "") + ")"
    if n.name is not None: s += ": " + n.name[0]
    kids = ", ".join(text(k) for k in n.kids)
    if n.kids and "k" in n.form: kids += ","                       # trailing comma after the last child
    br = f"[{kids}]"
    show_kids = bool(n.kids) or "e" in n.form                      # an empty list of children may be written or not
    sets = ", ".join(f"{k}: {v[0]}" for k, v in n.sets)
    if n.sets or "b" in n.form:                                    # braces
        inner = sets
        if show_kids: inner += (", " if sets else "") + br
        elif "s" in n.form and sets: inner += ","                  # trailing comma after the last setting
        s += " { " + inner + " }"
    elif show_kids: s += " " + br
    return s

def shown(n, clone=False):
    """What the dump of the built scene is; a linked scene is a clone, whose unique fields are void."""
    if isinstance(n, L): return shown(n.scene, True)
    v = dict(START[n.cls])
    for k, a in zip(ARGS[n.cls], n.args): v[k] = a[1]
    for k, a in n.sets: v[k] = a[1]
    if clone and n.cls == "P": v["c"] = "-"
    name = n.name[1] if n.name is not None else SHORT[n.cls]
    return f"{SHORT[n.cls]}({','.join(v[f] for f in FIELDS[n.cls])}):{dbg(name)}[{' '.join(shown(k, clone) for k in n.kids)}]"

def scene_prog(family, n, pre="", post="", more=""):
    """The program builds the scene and shows it, the ticks counted, and whatever `post` appends to `out`."""
    i = len(progs)
    t = text(n)
    body = f"{pre} let s_: NodeScene = scene! {{ {t} }}; let mut out: String = dump(&s_); out += &ticked(); {post} gone(s_); out"
    lines.append(f"fn p{i}() -> String {{ {body} }}")
    progs.append((family, (pre + " " if pre else "") + "scene! { " + t + " }" + (" " + post if post else ""), f"p{i}", shown(n) + TICKED() + more))

def TICKED():
    """What `ticked()` returns: every tick of the program exactly once."""
    global ticks
    s = " once:" + str(ticks); ticks = 0
    return s

def nm(s, src=None): return (src or dbg(s), s)

NAMES = [None, nm("n"), nm("a b"), nm(""), nm("é漢"), nm('q"\\', 'r#"q"\\"#'), nm("P"), nm("a/b"), nm("x\ny"), nm(" n "), nm(" "), nm("\tn"), nm("N"), nm("root"), nm("é n\n"), nm("n", 'r"n"'), nm("$n"), nm("{n}"), nm("n;[]")]
STR   = lambda s: (f"{dbg(s)}.to_string()", dbg(s))

# Settings of P: every field with expressions of every form.
VAL = {
    "a": [("5", "5"), ("-3", "-3"), ("1 + 2 * 3", "7"), ("{ let q = 4; q * q }", "16"), ("if true { 8 } else { 9 }", "8"), ("(|u: i64| u + 1)(6)", "7"), ("i64::MAX", str(2**63 - 1)), ("match 3 { 3 => 30, _ => 0 }", "30"), ("TEN as i64", "10"), ("loop { break 12; }", "12"), ("!0", "-1"), ("[4, 5, 6][1]", "5")],
    "b": [STR("v"), ('format!("{}-{}", 1, 2)', '"1-2"'), ("String::new()", '""'), ('vec!["p", "q"].join("+")', '"p+q"'), ('["m", "n"].iter().map(|s| s.to_string()).collect::<String>()', '"mn"')],
    "c": [("7", "7"), ("u8::MAX", "255"), ("b'A'", "65")],
    "d": [("-1", "-1"), ("1 << 4", "16"), ("i32::MIN", str(-2**31))],
    "e": [("vec![1, 2]", "[1, 2]"), ("Vec::new()", "[]"), ("(0..3).collect::<Vec<i64>>()", "[0, 1, 2]"), ("vec![0; 2]", "[0, 0]")],
}
FORMS = ["", "e", "b", "be", "s", "es"]

# One node on its own.
for parens in (None, "", ):
    for name in NAMES:
        for form in FORMS: scene_prog("single nodes", N("P", name=name, form=form, parens=parens))
for f in "abcde":
    for v in VAL[f]:
        for form in ("", "s", "e"): scene_prog("single settings", N("P", sets=[(f, tick(*v))], form=form))
for k in range(2, 6):
    for fs in itertools.permutations("abcde", k):
        for form in (("",) if QUICK and k > 2 else ("", "s", "e")):
            if QUICK and k > 3 and fs > tuple(reversed(fs)): continue
            scene_prog("several settings", N("P", name=nm("n") if len(progs) % 2 else None, sets=[(f, tick(*VAL[f][(len(progs) + j) % len(VAL[f])])) for j, f in enumerate(fs)], form=form))
if not QUICK:
    for f, g in itertools.permutations("abcde", 2):
        for v in VAL[f]:
            for w in VAL[g]: scene_prog("pairs of settings", N("P", sets=[(f, tick(*v)), (g, tick(*w))]))
# Arguments.
for x in VAL["a"]:
    for y in VAL["b"]:
        for parens in ("", "comma"):
            for st in ([], [("t", ("9", "9"))], [("x", ("100", "100"))], [("y", STR("w")), ("t", ("3", "3"))]):
                if QUICK and (len(progs) % 2): 
                    scene_prog("arguments", N("Q", args=[tick(*x), tick(*y)], parens=parens, sets=[(k, tick(*v)) for k, v in st], form="e")); continue
                scene_prog("arguments", N("Q", args=[tick(*x), tick(*y)], parens=parens, name=nm("q"), sets=[(k, tick(*v)) for k, v in st]))

def shapes(n):
    """All ordered trees of n nodes, as nested lists of children."""
    def forests(n):
        if n == 0: yield []; return
        for first in range(1, n + 1):
            for a in forests(first - 1):
                for r in forests(n - first): yield [a] + r
    return list(forests(n - 1))

def build(shape, pick, ctr):
    """A scene of that shape; pick(i) gives the description of the i-th node in pre-order."""
    i = ctr[0]; ctr[0] += 1
    n = pick(i)
    n.kids = [build(k, pick, ctr) for k in shape]
    return n

def node(cls, j, style):
    """The j-th node, in one of several styles of writing."""
    args = {"P": lambda: [], "Q": lambda: [tick(f"{j}", f"{j}"), tick(f'"y{j}".to_string()', f'"y{j}"')], "inner::R": lambda: [tick(f"{j}", f"{j}")], "inner::deeper::S": lambda: []}[cls]()
    sets = {"P": [("a", (f"{j}0", f"{j}0" if j else "0")), ("b", STR(f"b{j}"))], "Q": [("t", (f"{j}1", f"{j}1" if j else "1"))], "inner::R": [], "inner::deeper::S": [("z", STR(f"z{j}"))]}[cls]
    sets = [(k, tick("0" if v[0] == "00" else "1" if v[0] == "01" else v[0], v[1])) for k, v in sets] if style & 1 else []
    return N(cls, args=args, name=nm(f"n{j}") if style & 2 else None, sets=sets, form=["", "k", "b", "bk", "e", "be"][style // 4 % 6])

CL = ["P", "Q", "inner::R", "inner::deeper::S"]
st = 0
for n in range(2, 5 if QUICK else 6):
    for shape in shapes(n):
        for cs in itertools.product(CL[:4 if n < 4 else 3 if n < 5 else 2], repeat=n):
            if QUICK and n == 4 and cs > tuple(reversed(cs)): continue
            st += 1
            scene_prog(f"trees of {n}", build(shape, lambda i: node(cs[i], i, (st * 7 + i * 5) % 24), [0]))
for shape in shapes(3):
    for styles in itertools.product(range(0, 24, 2 if QUICK else 1), repeat=3):
        if sum(styles) % (3 if QUICK else 5): continue
        scene_prog("styles", build(shape, lambda i: node(CL[(i + styles[0]) % 2], i, styles[i]), [0]))
scene_prog("wide and deep", N("P", kids=[node(CL[i % 4], i, i) for i in range(40)]))
d = node("P", 0, 3)
for i in range(1, 40): e = node(CL[i % 4], i, i); e.kids = [d]; d = e
scene_prog("wide and deep", d)
d = N("P", name=nm("leaf"))
for i in range(6): d = N("P", name=nm(f"l{i}"), kids=[d, L("scene", N("P", name=nm("o"))), node("Q", i, 3)] if i % 2 else [node("inner::R", i, 2), d])
scene_prog("wide and deep", d, pre='let scene = scene! { P: "o" };')

# Links. The linked scenes are built by the macro as well; `o` has a unique field, which a clone does not have.
O = [N("P", name=nm("o")), N("Q", args=[("1", "1"), STR("z")], name=nm("o"), kids=[N("P", name=nm("p"), sets=[("c", ("9", "9"))])]), N("inner::R", args=[("4", "4")], name=nm("o"), kids=[N("P", name=nm("u")), N("P", name=nm("v"), kids=[N("P", name=nm("w"))])])]
VARS = ["scene", "node", "child", "name", "params", "children", "s", "r#type"]
AFTER = 'out += " "; out += &dump(&{v});'
for var in VARS:
    for o in O:
        pre = f"let {var}: NodeScene = scene! {{ {text(o)} }};"
        post = AFTER.replace("{v}", var) + f" gone({var});"
        more = " " + shown(o)
        places = [
            L(var, o),
            N("P", kids=[L(var, o)]),
            N("P", name=nm("r"), kids=[N("P", name=nm("m"), kids=[L(var, o)])]),
            N("P", name=nm("r"), kids=[L(var, o), N("P", name=nm("m")), L(var, o)]),
            N("P", name=nm("r"), kids=[N("Q", args=[("2", "2"), STR("f")], kids=[N("P", name=nm("m")), L(var, o)], form="k"), L(var, o)]),
            N("P", name=nm("r"), sets=[("a", ("5", "5"))], kids=[L(var, o), N("inner::R", args=[("3", "3")], kids=[N("inner::deeper::S", kids=[L(var, o)])])]),
            N("P", name=nm("r"), kids=[L(var, o)] * 4),
        ]
        for p in places: scene_prog("links", p, pre=pre, post=post, more=more)
for v1, v2 in itertools.permutations(VARS[:5], 2):
    o1, o2 = O[0], O[2]
    pre = f"let {v1}: NodeScene = scene! {{ {text(o1)} }}; let {v2}: NodeScene = scene! {{ {text(o2)} }};"
    post = f"gone({v1}); gone({v2});"
    for p in (N("P", name=nm("r"), kids=[L(v1, o1), L(v2, o2)]), N("P", name=nm("r"), kids=[N("P", kids=[L(v2, o2), L(v1, o1)]), L(v2, o2)])):
        scene_prog("two links", p, pre=pre, post=post)
# The same link at all places of a shape.
for n in range(2, 5):
    for shape in shapes(n):
        for mask in range(1, 1 << n):
            def put(sh, ctr):
                i = ctr[0]; ctr[0] += 1
                kids = [put(k, ctr) for k in sh]
                if not sh and mask >> i & 1 and i: return L("scene", O[1])
                return N(CL[3 if i % 2 else 0], name=nm(f"n{i}"), kids=kids)
            if QUICK and n == 4 and mask % 3: continue
            scene_prog("links in trees", put(shape, [0]), pre=f"let scene: NodeScene = scene! {{ {text(O[1])} }};", post=AFTER.replace("{v}", "scene") + " gone(scene);", more=" " + shown(O[1]))
# A linked scene stays independent of where it was linked.
for k, edit in enumerate(['setting(&scene, 77);', 'setting(&s_.children()[0], 77);', 'scene.append(scene!{ P: "late" });']):
    o = N("P", name=nm("o"))
    if k == 0:   want = " " + shown(N("P", kids=[L("scene", o)])) + " " + shown(N("P", name=nm("o"), sets=[("a", ("77", "77"))]))
    elif k == 1: want = " " + shown(N("P", kids=[N("P", name=nm("o"), sets=[("a", ("77", "77")), ("c", ("", "-"))])])) + " " + shown(o)
    else:        want = " " + shown(N("P", kids=[L("scene", o)])) + " " + shown(N("P", name=nm("o"), kids=[N("P", name=nm("late"))]))
    scene_prog("links are copies", N("P", kids=[L("scene", o)]), pre='let mut scene: NodeScene = scene! { P: "o" };', post=edit + ' out += " "; out += &dump(&s_); out += " "; out += &dump(&scene); gone(scene);', more=want)

# Variables of the user, of all names the macros might use themselves.
for var in ["node", "scene", "name", "child", "params", "settings", "children", "root", "this", "value", "wrap", "key", "args"]:
    pre = f"let {var}: i64 = 6;"
    for n in (N("Q", args=[(var, "6"), STR("y")]), N("P", sets=[("a", (var, "6"))]), N("P", sets=[("a", (f"{var} + 1", "7")), ("b", (f"{var}.to_string()", '"6"'))], kids=[N("Q", args=[(f"{var} * 2", "12"), (f"{var}.to_string()", '"6"')], sets=[("t", (var, "6"))], kids=[N("P", sets=[("a", (f"-{var}", "-6"))])])])):
        scene_prog("variables", n, pre=pre)
        scene_prog("variables", N("P", kids=[n]), pre=pre)
scene_prog("variables", N("P", kids=[N("P", sets=[("a", ("node.0", "3")), ("b", ("node.1.clone()", '"w"'))])]), pre='let node = (3i64, "w".to_string());')
scene_prog("nested", N("P", sets=[("a", ('{ let s = scene! { P [P, P] }; let n = s.children().len() as i64; gone(s); n }', "2"))], kids=[N("Q", args=[('{ let node = scene! { P: "in" }; let n = dump(&node).len() as i64; gone(node); n }', str(len(shown(N("P", name=nm("in")))))), STR("y")])]))
scene_prog("nested", N("P", name=nm("r"), kids=[L("scene", N("P", name=nm("A"), kids=[L("scene", N("P", name=nm("B"), kids=[L("scene", N("P", name=nm("C")))]))]))]),
           pre='let scene = scene! { P: "C" }; let scene = { let t = scene! { P: "B" [$scene] }; gone(scene); t }; let scene = { let t = scene! { P: "A" [$scene] }; gone(scene); t };', post="gone(scene);")
# Inside of a method, a generic function, a closure and a loop.
for i, (pre, x) in enumerate([("let me = Holder { v: 4 };", "4")]):
    k = len(progs)
    lines.append(f"fn p{k}() -> String {{ struct H {{ v: i64 }} impl H {{ fn make(&self) -> NodeScene {{ scene! {{ Q(self.v, self.v.to_string()) {{ t: self.v + 1, [P {{ a: self.v }}] }} }} }} }} let s_ = H {{ v: 4 }}.make(); let out = dump(&s_); gone(s_); out }}")
    progs.append(("places", "scene! in a method, using self", f"p{k}", 'Q(4,"4",5):"Q"[P(4,"b",1,0,[]):"P"[]]'))
k = len(progs)
lines.append(f'fn p{k}() -> String {{ fn make<T: Into<i64> + Copy>(v: T) -> NodeScene {{ scene! {{ P {{ a: v.into(), [Q(v.into(), String::new())] }} }} }} let s_ = make(3i32); let out = dump(&s_); gone(s_); out }}')
progs.append(("places", "scene! in a generic function", f"p{k}", 'P(3,"b",1,0,[]):"P"[Q(3,"",0):"Q"[]]'))
k = len(progs)
lines.append(f'fn p{k}() -> String {{ let mut out = String::new(); for node in 0..3i64 {{ let f = |scene: i64| scene! {{ P: "p" {{ a: node, [Q(scene, "k".to_string())] }} }}; let s_ = f(node + 10); out += &dump(&s_); gone(s_); }} out }}')
progs.append(("places", "scene! in a closure in a loop", f"p{k}", "".join(f'P({i},"b",1,0,[]):"p"[Q({i + 10},"k",0):"Q"[]]' for i in range(3))))
k = len(progs)
lines.append(f'fn p{k}() -> String {{ macro_rules! two {{ ($c:ident, $n:literal, $e:expr) => {{ scene! {{ $c: $n {{ a: $e, [$c {{ a: $e + 1 }}] }} }} }} }} let node = 5i64; let s_ = two!(P, "m", node); let out = dump(&s_); gone(s_); out }}')
progs.append(("places", "scene! written by another macro", f"p{k}", 'P(5,"b",1,0,[]):"m"[P(6,"b",1,0,[]):"P"[]]'))

# ------------------------------------------------------------------------------------------------ classes

# type: (source, debug of the default, [(expression, debug)])
TYPES = [
    ("i64", "0", [("7", "7"), ("-(TEN as i64)", "-10")]),
    ("String", '""', [('"s".to_string()', '"s"'), ('format!("f{}", 1)', '"f1"')]),
    ("Vec<u8>", "[]", [("vec![1, 2]", "[1, 2]"), ("vec![9; 3]", "[9, 9, 9]")]),
    ("Option<i64>", "None", [("Some(4)", "Some(4)"), ("Some(-4)", "Some(-4)")]),
    ("(i32, String)", '(0, "")', [('(3, "t".to_string())', '(3, "t")'), ("(-3, String::new())", '(-3, "")')]),
    ("[u8; 3]", "[0, 0, 0]", [("[1, 2, 3]", "[1, 2, 3]"), ("[4; 3]", "[4, 4, 4]")]),
    ("BTreeMap<String, i64>", "{}", [('BTreeMap::from([("k".to_string(), 5)])', '{"k": 5}'), ("(0..2).map(|i| (i.to_string(), i)).collect()", '{"0": 0, "1": 1}')]),
    ("bool", "false", [("true", "true"), ("!false", "true")]),
    ("char", "'\\0'", [("'x'", "'x'"), ("char::from(65)", "'A'")]),
    ("f64", "0.0", [("1.5", "1.5"), ("-0.25", "-0.25")]),
]
# (keyword, where the start value comes from)
WAYS = [("", "="), ("", "let"), ("", "arg"), ("export ", "="), ("export ", "let"), ("export ", "arg"), ("unique ", "="), ("unique ", "let"), ("unique ", "arg"), ("export default ", ""), ("export default ", "="), ("default ", "")]
WRAP = {"": "Field", "export ": "ExportableField", "unique ": "UniqueField", "export default ": "ExportableField", "default ": "DefaultField"}

def class_prog(family, fields, cname="Klass", attrs=("", ""), pub="pub ", extra="", extra_run="", extra_want="", extends="", order=0):
    """A class with fields (name, way, type index, value index, public), constructed twice, cloned, changed, saved and loaded."""
    global ticks
    i = len(progs)
    decl, lets, params, call, vals, starts = [], [], [], [], [], []
    for name, (kw, way), ti, vi, p in fields:
        ty, dflt, vs = TYPES[ti]
        src, d = vs[vi % 2]
        if way == "": d = dflt
        vals.append((name, kw, d, dflt))
        if way in ("=", "let"):
            ticks += 1; src = f"tick({ticks}, {src})"
        decl.append(f"{attrs[0]}{'pub ' if p else ''}{kw}let {name}: {ty}" + (f" = {src}" if way == "=" else "") + ";")
        if way == "let": lets.append(f"let {name}: {ty} = {src};")
        if way == "arg": params.append(f"{name}: {ty}"); call.append(src)
        starts.append(f"let _: &{WRAP[kw]}<{ty}> = &n.{name};")
    nt = ticks; ticks = 0
    init = f"{attrs[1]}hk _init({', '.join(params)}) {{ {' '.join(lets)} }}" if params or lets or order & 2 else ""
    parts = decl + ([init] if init else [])
    if order & 1: parts.reverse()
    src = f"{attrs[0]}{pub}declare {cname}{extends}; {' '.join(parts)} {extra}"
    fs = ", ".join(f"n.{f[0]}.show()" for f in fields) or "String::new()"
    look = f"fn look(n: &{cname}) -> String {{ [{fs}].join(\",\") }}"
    run = (f"pub fn run() -> String {{ let n: {cname} = {cname}::new({', '.join(call)}); {' '.join(starts)} let mut out: String = format!(\"{{}}|{{}}\", n.name(), look(&n)); out += &ticked(); "
           f"let c: {cname} = n.clone(); out += \"|\"; out += &look(&c); {extra_run} "
           f"let s: NodeScene = NodeScene::new(c); let doc: String = s.save_to_str().expect(\"save\"); gone(s); out += \"|\"; out += &keys(&doc); "
           f"let l: NodeScene = NodeScene::load_from_str(&doc).expect(\"load\"); out += \"|\"; out += &with(&l, |n: &{cname}| look(n)); gone(l); out }}")
    lines.append(f"mod k{i} {{ use super::*; class! {{ {src} }} {look} {run} }}")
    cl = lambda kw, d: "-" if kw == "unique " else d
    ld = lambda kw, d, df: {"": "-", "unique ": "-", "default ": df}.get(kw, d)
    want = f"{cname}|{','.join(d for _, _, d, _ in vals)} once:{nt}|{','.join(cl(kw, d) for _, kw, d, _ in vals)}{extra_want}|{','.join(sorted(n for n, kw, _, _ in vals if kw.startswith('export')))}|{','.join(ld(kw, d, df) for _, kw, d, df in vals)}"
    progs.append((family, "class! { " + src + " }", f"k{i}::run", want))

for w in WAYS:
    for ti in range(len(TYPES)):
        for p in (0, 1):
            if QUICK and (ti + p + WAYS.index(w)) % 2: continue
            class_prog("one field", [("x", w, ti, p, p)])
for w in itertools.product(WAYS, repeat=2):
    for t in range(1 if QUICK else 3):
        k = len(progs)
        class_prog("two fields", [("x", w[0], (k + 3 * t) % 10, 0, 1), ("y", w[1], (k // 2 + 5 + t) % 10, 1, k % 2)], order=k % 2)
for perm in itertools.permutations(range(5)) if not QUICK else [p for j, p in enumerate(itertools.permutations(range(5))) if j % 6 == 0]:
    kw = [("", "let"), ("export ", "="), ("unique ", "arg"), ("export default ", ""), ("default ", "")]
    class_prog("five kinds", [("abcde"[j], kw[j], (j + len(progs)) % 10, 0, 1) for j in perm], order=len(progs) % 2)
class_prog("no fields", [])
class_prog("no fields", [], order=2)
class_prog("no fields", [], order=2, attrs=("", "/** a constructor */ "))
for names in (["node", "scene"], ["owned_state", "map"], ["r#type", "r#fn"], ["name_", "_x"], ["x1", "X_1"], ["value", "item"]):
    for ws in ((WAYS[0], WAYS[3]), (WAYS[5], WAYS[9]), (WAYS[4], WAYS[6])):
        class_prog("names of fields", [(names[0], ws[0], 0, 0, 1), (names[1], ws[1], 1, 0, 1)])
# Settings of fields with names of all kinds, by turns in all orders.
for names in (["a", "A", "b"], ["A", "a", "_a"], ["ab", "aB", "AB"], ["x", "x_", "x1"], ["r#type", "kind", "r#Type"], ["é", "É", "e"], ["name", "node", "scene"], ["self_", "this", "based"], ["set", "wrap", "new"], ["rid", "owner", "children"], ["r#fn", "f", "r#n"], ["i", "j", "ij"], ["r#true_", "is_owner", "parent"], ["void", "clone", "default"], ["field", "value", "key"]):
    for perm in itertools.permutations(names):
        for kws in (("", "export ", "unique "), ("export ", "export ", ""), ("export default ", "default ", "export ")):
            i = len(progs)
            decl = " ".join(f"pub {kw}let {f}: i64{';' if kw.endswith('default ') else f' = {j};'}" for j, (f, kw) in enumerate(zip(names, kws)))
            src = f"pub declare Klass; {decl}"
            sc = "scene! { Klass { " + ", ".join(f"{f}: {10 + names.index(f)}" for f in perm) + " } }"
            fs = ", ".join(f"n.{f}.show()" for f in names)
            lines.append(f"mod k{i} {{ use super::*; class! {{ {src} }} fn look(n: &Klass) -> String {{ [{fs}].join(\",\") }} pub fn run() -> String {{ let s: NodeScene = {sc}; let mut out = with(&s, look); let doc = s.save_to_str().expect(\"save\"); let l = NodeScene::load_from_str(&doc).expect(\"load\"); out += \"|\"; out += &with(&l, look); gone(l); gone(s); out }} }}")
            progs.append(("names of settings", "class! { " + src + " } " + sc, f"k{i}::run", "10,11,12|" + ",".join(str(10 + j) if kw.startswith("export") else "0" if kw == "default " else "-" for j, kw in enumerate(kws))))
for cname in ["A", "lower", "Under_Score", "_Lead", "X1", "Ünïcode", "漢", "NODE", "Tp", "Self_"]:
    class_prog("names of classes", [("x", WAYS[3], 0, 0, 1)], cname=cname)
    class_prog("names of classes", [("x", WAYS[5], 1, 0, 1)], cname=cname, pub="")
for attrs in (("/// A comment.\n", ""), ("#[allow(dead_code)] ", "#[inline] "), ("/** doc */ #[allow(unused)] ", "/** doc */ #[allow(unused)] ")):
    for w in WAYS: class_prog("attributes", [("x", w, 0, 0, 1), ("y", WAYS[3], 1, 0, 0)], attrs=(attrs[0].replace("\n", " ") if not attrs[0].startswith("///") else "/** A comment. */ ", attrs[1]))

# Classes called like things of the standard library or of this one, and classes where such names mean something else.
STD = ["Box", "String", "Result", "Option", "Vec", "Default", "Clone", "Copy", "Debug", "Drop", "Fn", "FnOnce", "From", "Into", "Iterator", "ToString", "ToOwned", "PartialEq", "Send", "Sized", "Some", "Ok", "Err", "Any", "Rc", "Deref"]
OWN = ["Signal", "Field", "ExportableField", "Node", "NodeBase", "NodeTree", "Tp", "Tree", "Abstract", "Register", "FieldMap", "Log", "RID", "TreeOption"]
SCOPES = ["", "use std::io::Result;", "use std::fmt::Result;", "use std::io::{ Result, Error };", "type Result<T> = std::result::Result<T, u8>;", "struct Box;", "struct String;", "enum E { Ok, Err, Some, None } use E::*;", "struct Ok(u8);", "trait Default { fn default_() {} }",
          "trait Clone {} trait Debug {}", "struct Option; struct Vec; struct Result;", "type Box<T> = std::rc::Rc<T>;", "type String = std::path::PathBuf;", "fn drop() {} fn new() {} fn void() {} fn clone() {}"]
for j, (cname, scope) in enumerate([(c, "") for c in STD + OWN] + [("Klass", sc) for sc in SCOPES] + [("Box", "use std::io::Result;"), ("Result", "struct String;")]):
    for inner in (["pub export default let x: i64;", "pub export let x: i64 = 0; pub unique let u: u8 = 1; pub default let d: u8; pub let r: u8 = 2; pub signal sg(a: u8, b: u8); hk process(&mut self, _delta: f32) { self.x += 1; }"]):
        i = len(progs)
        src = f"pub declare {cname}; {inner}"
        run = (f"pub fn run() -> String {{ let n = c::{cname}::new(); let mut out: String = format!(\"{{}}|{{}}\", n.name(), n.x.show()); let k = n.clone(); "
               "let s: NodeScene = NodeScene::new(k); let doc: String = s.save_to_str().expect(\"save\"); gone(s); "
               f"let l: NodeScene = NodeScene::load_from_str(&doc).expect(\"load\"); out += \"|\"; out += &with(&l, |n: &c::{cname}| format!(\"{{}} {{}}\", n.x.show(), n.name_as_type().ends_with(\"::c::{cname}\"))); gone(l); out }}")
        lines.append(f"mod k{i} {{ use super::*; mod c {{ #[allow(unused_imports)] use super::*; #[allow(dead_code, unused_imports)] mod names {{ }} #[allow(unused)] {scope or 'use std as std_;'} class! {{ {src} }} }} {run} }}")
        progs.append(("names in scope", scope + " class! { " + src + " }", f"k{i}::run", f"{cname}|0|0 true"))

# Fields of types that have methods like those of the library.
METHODS = ["fn wrap(self) -> u8 { 99 }", "fn wrap(&self) -> u8 { 99 }", "fn new(_a: u8, _b: u8) -> u8 { 99 }", "fn clone(&self) -> u8 { 99 }", "fn void() -> u8 { 99 }", "fn from_value(_v: u8) -> u8 { 99 }", "fn to_value(&self) -> u8 { 99 }", "fn is_ghost_export(&self) -> bool { true }",
           "fn is_ghost_export_type() -> bool { true }", "fn default() -> u8 { 99 }", "fn deref(&self) -> u8 { 99 }", "fn as_inner(&self) -> u8 { 99 }", "fn into_iter(self) -> u8 { 99 }", "fn remove(&mut self, _x: u8) {}", "fn base(&self) -> u8 { 99 }"]
for m in METHODS:
    for kw in ("", "export ", "unique ", "export default ", "default "):
        if kw == "default " and " default()" in m: continue   # such a type has two ideas of its default
        i = len(progs)
        first = "0" if "default " in kw and "export" not in kw else "4"
        void = "n.x.is_void()" if kw in ("", "unique ") else "false"
        decl = f"pub {kw}let x: Odd" + (";" if kw == "default " else " = Odd(4);")
        src = f"pub declare Klass; {decl}"
        lines.append(f"mod k{i} {{ use super::*; #[derive(Debug, Clone, Default, PartialEq)] pub struct Odd(i64); impl Odd {{ pub {m} }} "
                     "impl Exportable for Odd { fn to_value(&self) -> toml::Value { self.0.into() } fn from_value(v: toml::Value) -> Option<Self> { v.as_integer().map(Odd) } } "
                     f"class! {{ {src} }} fn at(n: &Klass) -> String {{ if {void} {{ String::from(\"-\") }} else {{ let o: &Odd = &n.x; format!(\"{{}}\", o.0) }} }} "
                     "pub fn run() -> String { let mut out: String = at(&Klass::new()); let s: NodeScene = scene! { Klass { x: Odd(6) } }; out += \"|\"; out += &with(&s, |n: &Klass| at(n)); let doc: String = s.save_to_str().expect(\"save\"); gone(s); "
                     "let l: NodeScene = NodeScene::load_from_str(&doc).expect(\"load\"); out += \"|\"; out += &with(&l, |n: &Klass| at(n)); gone(l); out } }")
        loaded = {"": "-", "unique ": "-", "default ": "0"}.get(kw, "6")
        progs.append(("methods of their own", m + " class! { " + src + " } scene! { Klass { x: Odd(6) } }", f"k{i}::run", f"{first}|6|{loaded}"))

# Constants, functions and signals.
MEMBERS = [
    ("const K: i64 = 5;", 'out += &format!("|{}", {C}::K);', "|5"),
    ("pub const T: &'static str = \"t\\\"\";", 'out += &format!("|{}", {C}::T);', '|t"'),
    ("const ARR: [u8; 2] = [1, 2];", 'out += &format!("|{:?}", {C}::ARR);', "|[1, 2]"),
    ("fn plain() -> i64 { 3 }", 'out += &format!("|{}", {C}::plain());', "|3"),
    ("pub fn add(&self, q: i64) -> i64 { *self.x + q }", 'out += &format!("|{}", n.add(1));', "|8"),
    ("fn change(&mut self, q: i64) { self.x += q; }", 'let mut m = n.clone(); m.change(10); out += &format!("|{} {}", *m.x, *n.x);', "|17 7"),
    ("pub fn generic<T: Into<i64>>(&self, t: T) -> i64 where T: Copy { t.into() + *self.x }", 'out += &format!("|{}", n.generic(2i32));', "|9"),
    ("signal none();", 'let _: &Signal<()> = &n.none; out += &fired(&n.none, ());', "|()"),
    ("pub signal one(a: i64);", 'let _: &Signal<i64> = &n.one; out += &fired(&n.one, 4);', "|4"),
    ("signal two(a: i64, b: String);", 'let _: &Signal<(i64, String)> = &n.two; out += &fired(&n.two, (4, "f".to_string()));', '|(4, "f")'),
    ("pub signal three(a: u8, b: Option<u8>, c: Vec<bool>);", 'let _: &Signal<(u8, Option<u8>, Vec<bool>)> = &n.three; out += &fired(&n.three, (1, None, vec![true]));', "|(1, None, [true])"),
    ("/** doc */ pub signal docd(_t: (i8, i8));", 'let _: &Signal<(i8, i8)> = &n.docd; out += &fired(&n.docd, (1, 2));', "|(1, 2)"),
]
for k in range(1, 3 if QUICK else 4):
    for ms in itertools.permutations(range(len(MEMBERS)), k):
        if k == 2 and QUICK and ms[0] > ms[1]: continue
        if k == 3 and list(ms) != sorted(ms): continue
        m = [MEMBERS[j] for j in ms]
        class_prog("members", [("x", WAYS[len(progs) % 6], 0, 0, 1)], extra=" ".join(x[0] for x in m), extra_run=" ".join(x[1].replace("{C}", "Klass") for x in m), extra_want="".join(x[2] for x in m), order=len(progs) % 2)
m = MEMBERS
class_prog("members", [("x", WAYS[0], 0, 0, 1)], extra=" ".join(x[0] for x in m), extra_run=" ".join(x[1].replace("{C}", "Klass") for x in m), extra_want="".join(x[2] for x in m))
# Constructors that compute.
for body, params, call, want in [
    ("let x: i64 = p * 2;", "p: i64", "21", "42"), ("let x = p.len() as i64;", "p: &str", '"four"', "4"), ("let mut x: i64 = 0; for i in 0..p { x += i; }", "p: i64", "5", "10"),
    ("let x = { let y = p + q; y * y };", "p: i64, q: i64", "1, 2", "9"), ("let (x, _y) = (p, 3);", "p: i64", "8", "8"), ("let p: i64 = p + 1; let x: i64 = p;", "p: i64", "8", "9"), ("let x: i64 = if p { 1 } else { 2 }; let _ = x;", "p: bool", "false", "2"),
    ("if p { note(\"early\"); } let x: i64 = 1;", "p: bool", "true", "1"), ("", "mut x: i64", "3", "3"), ("x += 1;", "mut x: i64", "3", "4"), ("let x: i64 = p.iter().sum();", "p: Vec<i64>", "vec![1, 2, 3]", "6"), ("let [x, _] = p;", "p: [i64; 2]", "[6, 7]", "6")]:
    for kw in ("", "export ", "unique "):
        i = len(progs)
        src = f"pub declare Klass; pub {kw}let x: i64; hk _init({params}) {{ {body} }}"
        lines.append(f"mod k{i} {{ #[allow(unused_mut)] use super::*; class! {{ {src} }} pub fn run() -> String {{ let n = Klass::new({call}); n.x.show() + &noted() }} }}")
        progs.append(("constructors", "class! { " + src + " }", f"k{i}::run", want + ("early," if "note" in body else "")))

# Arguments and variables of the constructor that are called like other fields, and settings that are.
for kw, d in (("", "7"), ("export ", "7"), ("unique ", "7"), ("export default ", "7")):
    for body, params, call in [("", "x: i64", "9"), ("let x: i64 = 9;", "", ""), ("let y = x;", "x: i64", "9"), ("let x: i64 = y + 1;", "y: i64", "9"), ("", "x: i64, y: i64", "3, 4"), ("", "y: i64, x: i64", "4, 3"), ("x += y; y += x;", "mut x: i64, mut y: i64", "3, 4")]:
        for pos in (0, 1):
            i = len(progs)
            y = "pub let y: i64 = 8;" if "y" not in body and "y" not in params or body == "let y = x;" else "pub let y: i64 = 8;" if pos else "pub let y: i64;"
            parts = [f"pub {kw}let x: i64 = 7;", y]
            if pos: parts.reverse()
            # A field with a value written for it has that value, whatever the constructor has of the same name.
            if "=" in y: wy = "8"
            else: wy = {"let x: i64 = y + 1;": "9", "": "4", "x += y; y += x;": "11"}[body]
            src = f"pub declare Klass; {' '.join(parts)} hk _init({params}) {{ {body} }}"
            lines.append(f"mod k{i} {{ #[allow(unused)] use super::*; class! {{ {src} }} pub fn run() -> String {{ let n = Klass::new({call}); n.x.show() + \",\" + &n.y.show() }} }}")
            progs.append(("shadows", "class! { " + src + " }", f"k{i}::run", d + "," + wy))

# Hooks: every subset, in both orders, as part of a running tree and loaded from a document.
HOOKS = ["loaded", "ready", "process", "terminal", "process_mode"]
BODY = {"loaded": 'hk loaded(&mut self) { note("loaded"); self.x += 1; }', "ready": '/** doc */ hk ready(&mut self) { note("ready"); self.own(); }', "process": 'hk process(&mut self, delta: f32) { let _: f32 = delta; note("process"); }',
        "terminal": 'hk terminal(&mut self, reason: TerminationReason) { note(&format!("{reason:?}")); }', "process_mode": "hk process_mode(&self) -> ProcessMode { {MODE} }"}
for mode in ("ProcessMode::Inverse", "let m = ProcessMode::Always; m"):
    for mask in range(32):
        if "Always" in mode and not mask & 16: continue
        for rev in ((mask % 2,) if QUICK else (0, 1)):
            for init in ("", "hk _init() {}", "hk _init(v: i64) { let y: i64 = v; }"):
                if QUICK and (mask + len(init)) % 2: continue
                hs = [h for j, h in enumerate(HOOKS) if mask >> j & 1]
                if rev: hs.reverse()
                i = len(progs)
                src = "pub declare Klass; pub export let x: i64 = 0; " + ("let y: i64; " if "y" in init else "") + init + " " + " ".join(BODY[h].replace("{MODE}", mode) for h in hs) + ' fn own(&self) { note("own"); }'
                lines.append(f"mod k{i} {{ use super::*; class! {{ {src} }} pub fn run() -> String {{ let n = Klass::new({'5' if 'y' in init else ''}); life(n) }} }}")
                has = set(hs)
                def lifetime(loaded):
                    o = []
                    if loaded and "loaded" in has: o.append("loaded")
                    if "ready" in has: o += ["ready", "own"]
                    if "process" in has and not ("process_mode" in has and "Inverse" in mode): o += ["process", "process"]
                    if "process" in has and "process_mode" in has: o.append("process")        # while the tree is paused
                    if "terminal" in has: o.append("Freed")
                    return "".join(x + "," for x in o)
                progs.append(("hooks", "class! { " + src + " }", f"k{i}::run", lifetime(False) + ";" + lifetime(True)))

# Attributes that leave a hook, a constructor, a function or a constant in, or out.
for what, there, gone in [(f"hook {h}", BODY[h].replace("{MODE}", "ProcessMode::Inverse"), None) for h in HOOKS]:
    for attr, on in (("#[cfg(any())] ", False), ("#[cfg(all())] ", True), ("#[cfg(not(any()))] #[allow(unused)] ", True), ("/** doc */ #[cfg(any())] ", False), ("#[cfg(all())] #[cfg(any())] ", False), ("#[cfg_attr(all(), cfg(any()))] ", False), ("#[cfg_attr(any(), cfg(any()))] ", True)):
        for others in ([], [h for h in HOOKS if h not in what.split()]):
            i = len(progs)
            own = there[len("/** doc */ "):] if there.startswith("/**") else there
            src = "pub declare Klass; pub export let x: i64 = 0; " + attr + own + " " + " ".join(BODY[h].replace("{MODE}", "ProcessMode::Inverse") for h in others) + ' fn own(&self) { note("own"); }'
            lines.append(f"mod k{i} {{ use super::*; class! {{ {src} }} pub fn run() -> String {{ life(Klass::new()) }} }}")
            has = set(others) | ({what.split()[1]} if on else set())
            def lifetime(loaded):
                o = []
                if loaded and "loaded" in has: o.append("loaded")
                if "ready" in has: o += ["ready", "own"]
                if "process" in has: o += ["process"] if "process_mode" in has else ["process", "process"]
                if "terminal" in has: o.append("Freed")
                return "".join(x + "," for x in o)
            progs.append(("conditions", "class! { " + src + " }", f"k{i}::run", lifetime(False) + ";" + lifetime(True)))
for a, b_, want in (("#[cfg(any())] ", "#[cfg(all())] ", "2"), ("#[cfg(all())] ", "#[cfg(any())] ", "1")):
    for fmt, use in (("{0}fn f() -> i64 {{ 1 }} {1}fn f() -> i64 {{ 2 }}", "Klass::f()"), ("{0}const K: i64 = 1; {1}const K: i64 = 2;", "Klass::K"), ("{0}pub fn g(&self) -> i64 {{ 1 }} {1}pub fn g(&self) -> i64 {{ 2 }}", "Klass::new().g()")):
        i = len(progs)
        src = "pub declare Klass; pub let x: i64 = 0; " + fmt.format(a, b_)
        lines.append(f"mod k{i} {{ use super::*; class! {{ {src} }} pub fn run() -> String {{ format!(\"{{}}\", {use}) }} }}")
        progs.append(("conditions", "class! { " + src + " }", f"k{i}::run", want))

# Public members are used from outside of the module of their class.
PUBLIC = [("pub const K: i64 = 5;", "K::K.to_string()", "5"), ("pub fn f() -> i64 { 3 }", "K::f().to_string()", "3"), ("pub fn g(&self, q: i64) -> i64 { q + 1 }", "n.g(1).to_string()", "2"),
          ("pub signal s0();", "fired(&n.s0, ())", "|()"), ("pub signal s1(a: i64);", "fired(&n.s1, 4)", "|4"), ("pub signal s2(a: i64, b: u8);", "fired(&n.s2, (4, 5))", "|(4, 5)"), ("pub signal s3(a: i64, b: u8, c: bool);", "fired(&n.s3, (4, 5, true))", "|(4, 5, true)"),
          ("pub let f0: i64 = 6;", "n.f0.show()", "6"), ("pub export let f1: i64 = 7;", "n.f1.show()", "7"), ("pub unique let f2: i64 = 8;", "n.f2.show()", "8"), ("pub default let f3: i64;", "n.f3.show()", "0"), ("pub export default let f4: i64;", "n.f4.show()", "0")]
for k in range(1, 3):
    for ms in itertools.combinations(PUBLIC, k):
        for init in ("", "hk _init() {} "):
            if k == 2 and QUICK and init: continue
            i = len(progs)
            src = "pub declare K; " + init + " ".join(m[0] for m in ms)
            lines.append(f"mod k{i} {{ use super::*; mod behind {{ use node_tree::prelude::*; class! {{ {src} }} }} use behind::K; pub fn run() -> String {{ let n: K = K::new(); [{', '.join(m[1] for m in ms)}].join(\" \") }} }}")
            progs.append(("public members", "class! { " + src + " }", f"k{i}::run", " ".join(m[2] for m in ms)))
i = len(progs)
src = "pub declare K; " + " ".join(m[0] for m in PUBLIC)
lines.append(f"mod k{i} {{ use super::*; mod behind {{ use node_tree::prelude::*; class! {{ {src} }} }} use behind::K; pub fn run() -> String {{ let n: K = K::new(); [{', '.join(m[1] for m in PUBLIC)}].join(\" \") }} }}")
progs.append(("public members", "class! { " + src + " }", f"k{i}::run", " ".join(m[2] for m in PUBLIC)))

# Traits to extend.
for k in range(4):
    for names in itertools.permutations(["Speak", "Count", "Third"], k):
        i = len(progs)
        src = "pub declare Klass" + (" extends " + ", ".join(names) if names else "") + "; pub let x: i64 = 3;"
        lines.append(f"mod k{i} {{ use super::*; class! {{ {src} }} impl Speak for Klass {{ fn speak(&self) -> i64 {{ *self.x }} }} impl Count for Klass {{ fn count(&self) -> i64 {{ *self.x + 1 }} }} impl Third for Klass {{ fn third(&self) -> i64 {{ *self.x + 2 }} }} pub fn run() -> String {{ casts(Klass::new()) }} }}")
        progs.append(("extends", "class! { " + src + " }", f"k{i}::run", " ".join(str(3 + j) if t in names else "no" for j, t in enumerate(["Speak", "Count", "Third"]))))
# Several classes side by side.
for a, b in (("AB", "Ab"), ("aB", "ab"), ("Node1", "Node_1"), ("X", "Y"), ("é", "É")):
    i = len(progs)
    src = f"class! {{ pub declare {a}; pub export let x: i64 = 1; }} class! {{ pub declare {b}; pub export let x: i64 = 2; pub let y: i64 = 3; }}"
    lines.append(f"mod k{i} {{ use super::*; {src} pub fn run() -> String {{ let s = scene! {{ {a} [{b}, {a}] }}; let doc = s.save_to_str().expect(\"save\"); gone(s); let l = NodeScene::load_from_str(&doc).expect(\"load\"); let c = l.children(); let out = format!(\"{{}} {{}} {{}}\", with(&l, |n: &{a}| n.x.show() + n.name()), with(&c[0], |n: &{b}| n.x.show() + &n.y.show() + n.name()), with(&c[1], |n: &{a}| n.x.show() + n.name())); gone(l); out }} }}")
    progs.append(("side by side", src, f"k{i}::run", f"1{a} 2-{b} 1{a}"))
# Connections.
for arrow, n in (("->", 3), ("~>", 1)):
    for var in ("tp", "node", "scene", "tp_", "args"):
        for vis in ("", "pub "):
            i = len(progs)
            src = f"pub declare Klass; {vis}signal sig(v: i64); hk ready(&mut self) {{ let {var}: Tp<Ear> = self.get_child(0).unwrap(); let _: RID = connect! {{ sig {arrow} {var}.hear }}; for i in 0..3 {{ self.sig.emit(i); }} }}"
            lines.append(f"mod k{i} {{ use super::*; class! {{ pub declare Ear; fn hear(&self, v: &i64) {{ note(&v.to_string()); }} }} class! {{ {src} }} pub fn run() -> String {{ let s = scene! {{ Klass [Ear] }}; drop(Lab::new(s)); noted() }} }}")
            progs.append(("connections", "class! { " + src + " }", f"k{i}::run", "".join(f"{j}," for j in range(n))))

# Attributes of constructors, functions and classes take effect.
for attr, on in (("", False), ("#[track_caller] ", True), ("#[inline] #[track_caller] ", True), ("/** doc */ #[track_caller] ", True), ("#[cfg_attr(all(), track_caller)] ", True), ("#[cfg_attr(any(), track_caller)] ", False), ("#[allow(unused)] ", False), ("#[track_caller] #[inline(never)] #[allow(unused)] ", True)):
    here = "std::panic::Location::caller().column() as i64"
    for what, body, use in (
        ("hk _init() { let x: i64 = HERE; } ", "pub let x: i64;", ("*Klass::new().x", "*Klass::new().x")),
        ("hk _init(y_: i64) { let x: i64 = HERE; } ", "pub let x: i64; pub let y: i64 = 4;", ("*Klass::new(1).x", "*Klass::new(1).x")),
        ("fn f() -> i64 { HERE } ", "", ("Klass::f()", "Klass::f()")),
        ("pub fn g(&self, q: i64) -> i64 { HERE + q } ", "", ("Klass::new().g(0)", "Klass::new().g(0)")),
        ("fn h(&mut self) -> i64 { HERE } ", "pub let x: i64 = 2;", ("Klass::new().h()", "Klass::new().h()"))):
        for order in (0, 1):
            i = len(progs)
            parts = [attr + what.replace("HERE", here), body]
            if order: parts.reverse()
            src = "pub declare Klass; " + " ".join(parts)
            lines.append(f"mod k{i} {{ use super::*; class! {{ {src} }} pub fn run() -> String {{ (({use[0]}) != ({use[1]})).to_string() }} }}")
            progs.append(("attributes in effect", "class! { " + src + " }", f"k{i}::run", "true" if on else "false"))
for attr, want in (("", "false"), ("#[repr(align(128))] ", "true"), ("/** doc */ #[repr(C)] #[repr(align(128))] ", "true"), ("#[cfg_attr(all(), repr(align(128)))] ", "true"), ("#[cfg_attr(any(), repr(align(128)))] ", "false")):
    i = len(progs)
    src = attr + "pub declare Klass; pub let x: u8 = 1;"
    lines.append(f"mod k{i} {{ use super::*; class! {{ {src} }} pub fn run() -> String {{ (std::mem::align_of::<Klass>() >= 128).to_string() }} }}")
    progs.append(("attributes in effect", "class! { " + src + " }", f"k{i}::run", want))

# Many members of one kind, and nodes in scenes with as many arguments and settings.
for n in ((6, 7, 8, 9, 12, 13, 16, 17, 26, 33) if QUICK else range(6, 41)):
    for way in range(3):
        # Fields by turns of all kinds with a value of their own, or by argument, or by a statement of the constructor.
        i = len(progs)
        kws = ["", "export ", "unique ", "export ", ""]
        fields = [(f"f{j}", kws[(j + way) % 5]) for j in range(n)]
        decl = " ".join(f"pub {kw}let {f}: i64" + (f" = {j * 3};" if way == 0 else ";") for j, (f, kw) in enumerate(fields))
        init = "" if way == 0 else f"hk _init({', '.join(f'{f}: i64' for f, _ in fields)}) {{}}" if way == 1 else "hk _init() { " + " ".join(f"let {f}: i64 = {j * 3};" for j, (f, _) in enumerate(fields)) + " }"
        args = ", ".join(str(j * 3) for j in range(n)) if way == 1 else ""
        fs = ", ".join(f"n.{f}.show()" for f, _ in fields)
        src = f"pub declare Klass; {decl} {init}"
        sets = ", ".join(f"{f}: {j * 5 + 1}" for j, (f, _) in enumerate(fields) if j % 3 != 1)
        sc = f"scene! {{ Klass({args}): \"top\" {{ {sets}, [Klass({args}), $o, Klass({args}) {{ f{n - 1}: 77 }}] }} }}"
        lines.append(f"mod k{i} {{ use super::*; class! {{ {src} }} fn look(n: &Klass) -> String {{ [{fs}].join(\",\") }} pub fn run() -> String {{ let o: NodeScene = scene! {{ P }}; let s: NodeScene = {sc}; let c = s.children(); let mut out = with(&s, |n: &Klass| look(n) + n.name()); out += &with(&c[0], look); out += &with(&c[2], look); out += \";\"; let doc = c[2].save_to_str().expect(\"save\"); let l = NodeScene::load_from_str(&doc).expect(\"load\"); out += &with(&l, look); gone(l); gone(s); gone(o); out }} }}")
        v = [str(j * 3) for j in range(n)]
        top = [str(j * 5 + 1) if j % 3 != 1 else x for j, x in enumerate(v)]
        last = v[:-1] + ["77"]
        progs.append(("many members", "class! { " + src + " } " + sc, f"k{i}::run", ",".join(top) + "top" + ",".join(v) + ",".join(last) + ";" + ",".join(x if kw == "export " else "-" for x, (_, kw) in zip(last, fields))))
    i = len(progs)
    src = "pub declare Klass; " + " ".join(f"const C{j}: i64 = {j}; pub fn f{j}(&self) -> i64 {{ {j} + Self::C{j} }} pub signal s{j}(a: i64);" for j in range(n))
    lines.append(f"mod k{i} {{ use super::*; class! {{ {src} }} pub fn run() -> String {{ let n = Klass::new(); let mut out = String::new(); {' '.join(f'out += &format!(chr_, Klass::C{j}, n.f{j}(), fired(&n.s{j}, {j}));' for j in range(n))} out }} }}".replace("chr_", '"{} {} {} "'))
    progs.append(("many members", "class! { " + src + " }", f"k{i}::run", "".join(f"{j} {2 * j} |{j} " for j in range(n))))
for n in range(0, 13):
    i = len(progs)
    src = "pub declare Klass; pub signal s(" + ", ".join(f"a{j}: {['i64', 'u8', 'bool', 'String'][j % 4]}" for j in range(n)) + ");"
    vals = [["{0}", "{0}", "true", '"{0}".to_string()'][j % 4].format(j) for j in range(n)]
    shows = [["{0}", "{0}", "true", '"{0}"'][j % 4].format(j) for j in range(n)]
    arg = "()" if n == 0 else vals[0] if n == 1 else "(" + ", ".join(vals) + ")"
    lines.append(f"mod k{i} {{ use super::*; class! {{ {src} }} pub fn run() -> String {{ fired(&Klass::new().s, {arg}) }} }}")
    progs.append(("many members", "class! { " + src + " }", f"k{i}::run", "|()" if n == 0 else "|" + shows[0] if n == 1 else "|(" + ", ".join(shows) + ")"))
for n in (6, 7, 8, 9, 16, 17, 33, 65, 130):
    scene_prog("many children", N("P", kids=[node("P", j, j % 24) if j % 3 else L("scene", N("P", name=nm("o"))) for j in range(n)]), pre='let scene = scene! { P: "o" };', post="gone(scene);")

with open(OUT, "w") as f:
    f.write("\n".join(lines) + "\n")
    f.write("pub const PROGRAMS: &[(&str, &str, fn() -> String, &str)] = &[\n")
    for fam, t, fn, want in progs: f.write(f"({raw(fam)}, {raw(t)}, {fn}, {raw(want)}),\n")
    f.write("];\n")
fams = {}
for p in progs: fams[p[0]] = fams.get(p[0], 0) + 1
print(len(progs), fams)
