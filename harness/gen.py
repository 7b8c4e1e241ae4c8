"""Random projects: schema, documents in directories, configuration. Valid unless a fault is put in.

Left out on purpose, as known findings (known-findings.txt) or because GraphQL or TypeScript calls it
invalid: response keys whose paths join to one type name (K3), one response key for two fields of one
object type (K5), @skip and @include (K2), faults in fragments outside of the root directory (K4),
documents named like a global type."""
import glob
import os
import posixpath
import re

from gql import BUILTIN, Doc, Field, FieldDef, Inline, Schema, Spread, TypeDef, Var, named
from oracle import Config

WORDS = ["id", "name", "size", "owner", "items", "state", "node", "peer", "kind", "at", "of", "on2", "data", "list", "link", "type", "a", "b", "c0", "zeta", "Upper", "ID2", "null2", "query", "fragment"]
NASTY = ["plain words", "", " ", "two\nlines", "a */ b", "a /* b", "**//", "*/*/", "/*/*", "*/ export type X = {}; /*", "**//**//", "***///", "tab\there", "é∑ 漢字", "`ticks` \"quotes\" 'single'", "trailing\n", "\n\nleading", "*", "/", "a*\n/b", "****////", "/**/ **/ /**", "@deprecated", "// line", "*\u2028/", "\r\nwin"]


ODD_FILES = ["with space", "dots.in.name", "\u00e9\u6f22", ".hidden", "UPPER", "a-b", "-dash", "x.graphql", "graphql", "index", "long" * 20, "q.d.ts", "@at", "1"]
LONG = [30, 31, 32, 33, 39, 40, 41, 48, 63, 64, 65, 80, 99, 100, 101, 120, 128, 150, 200, 255, 256, 257]
COUNTS = [7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40]
_MINED = None


def mined():
    """identifiers and numbers of the source: a condition on a name or a size has to name it somewhere"""
    global _MINED
    if _MINED is None:
        words, nums = set(), set()
        for f in glob.glob(os.path.join(os.environ.get("QLC_REPO", "/repo"), "src", "**", "*.rs"), recursive=True):
            try:
                with open(f, encoding="utf-8", errors="replace") as h:
                    t = h.read()
            except OSError:
                continue
            for q in re.findall(r'"((?:[^"\\\n]|\\.)*)"', t):
                words.update(w for w in re.findall(r"[A-Za-z0-9_]+", q) if len(w) < 40)
            words.update(re.findall(r"b?'([A-Za-z0-9_])'", t))
            nums.update(int(n.replace("_", "")) for n in re.findall(r"\b([0-9][0-9_]{0,4})(?:usize|u\d+|i\d+)?\b", t))
        nums = sorted(n for n in nums if 2 <= n <= 400)
        _MINED = (sorted(words), nums, sorted({m for n in nums for m in (n - 1, n, n + 1) if 1 < m <= 300}))
    return _MINED


def some_count(rng):
    m = [n for n in mined()[2] if n <= 120]
    return rng.choice(COUNTS + m + m)


def odd_name(rng, base, pre=None):
    """a valid GraphQL name that something may trip over; never one of the reserved `__` names"""
    words, _, nums = mined()
    k = rng.randrange(14)
    if k == 0:
        n = base + rng.choice(["1", "10", "2", "99", "_1", "0", "_", "__x"])
    elif k == 1:
        n = (base + "Abcdefghij" * 40)[: rng.choice(LONG + nums)]
    elif k == 2:
        n = rng.choice([base.lower(), base.upper(), base.swapcase(), base.capitalize(), base[:1].lower() + base[1:]])
    elif k == 3:
        n = (pre or "Api").strip("$") + rng.choice([base, base.lower(), "", "_" + base])
    elif k == 4:
        n = base + (pre or "Api").strip("$")
    elif k in (5, 6) and words:
        w = rng.choice(words)
        n = rng.choice([w, base + w, w + base, base + "_" + w, w.capitalize(), base + w.capitalize(), w.capitalize() + base])
    elif k == 7:
        n = rng.choice(["class", "default", "export", "type", "null", "true", "enum", "import", "constructor", "toString", "prototype", "interface", "readonly", "of", "length"])
    elif k == 8:
        n = rng.choice(["A", "z", "_", "_x", "x_", "a_b", "A__B", "_0", "Zz", "aA", "Aa", "AA", "aa"])
    elif k == 9:
        n = rng.choice(["Ints", "IDs", "Id", "id", "ID1", "StringX", "MyString", "Str", "BooleanFlag", "int", "Floaty", "DateTimeInt", "Integer", "Bool", "BigInt", "UUID", "bool", "float"])
    elif k == 10:
        n = rng.choice(["Query", "Mutation", "Subscription", "Fragment", "Input", "Enum", "List", "Type", "Connection", "Edge"]) + rng.choice(["", "s", "Root", "Type"])
        n = rng.choice([n, base + n])
    elif k == 11:
        n = base + rng.choice(["s", "es", "Input", "Enum", "Type", "List", "Connection", "Variables", "_other", "Null", "Array", "Id", "ID", "V2"])
    elif k == 12:
        n = "".join(rng.choice("abcXYZ019_") for _ in range(rng.randrange(1, 9)))
    else:
        n = base[::-1]
    n = re.sub(r"\W", "", n)
    if not n or n[0].isdigit():
        n = "n" + n
    while n.startswith("__"):
        n = n[1:]
    return n


NOT_TYPES = set(BUILTIN) | {"Query", "Mutation", "Subscription", "any", "string", "number", "boolean", "null", "never", "undefined", "unknown", "void", "object", "symbol", "bigint",
                            "graphqlDocument", "QueryDocumentNode", "MutationDocumentNode", "FragmentDocumentNode", "SubscriptionDocumentNode", "class", "default", "export", "type", "true", "false",
                            "enum", "import", "interface", "readonly", "of", "function", "const", "var", "let", "new", "this"}


class Names:
    """an injective renaming"""

    def __init__(self, rng, rate, pre, banned=()):
        self.rng, self.rate, self.pre, self.map, self.used = rng, rate, pre, {}, set(banned)

    def keep(self, names):
        self.used |= set(names)
        return self

    def __call__(self, n):
        if n in self.map:
            return self.map[n]
        m = n
        if self.rng.random() < self.rate:
            for _ in range(6):
                m = odd_name(self.rng, n, self.pre)
                if m not in self.used:
                    break
            else:
                m = n
        if m in self.used:
            k = 0
            while m in self.used:
                k += 1
                m = n + "q%d" % k
        self.map[n] = m
        self.used.add(m)
        return m


def renamed(ref, f):
    return f(ref) if isinstance(ref, str) else (ref[0], renamed(ref[1], f))


def rename(rng, schema, docs, pre):
    """the same project with other names: what holds does not depend on what things are called"""
    rate = rng.choice([0, 0.2, 0.5, 0.9])
    if rate == 0:
        return schema, docs
    roots = {"Query", "Mutation"}
    tn = Names(rng, rate, pre, NOT_TYPES)
    ty = lambda n: n if n in roots or n in BUILTIN else tn(n)
    fn, inp, val, var, doc = Names(rng, rate, pre), Names(rng, rate, pre), Names(rng, rate, pre), Names(rng, rate, pre), Names(rng, rate, pre)
    fn.map["__typename"] = "__typename"
    types = []
    for t in schema.types.values():
        if t.name in BUILTIN:
            continue
        g = inp if t.kind == "INPUT_OBJECT" else fn
        types.append(TypeDef(t.kind, ty(t.name), [FieldDef(g(f.name), renamed(f.ref, ty), f.desc, f.deprecated) for f in t.fields], [ty(p) for p in t.possible], [val(v) for v in t.values], t.desc))
    names = set(tn.map.values()) | {pre + n if pre else n for n in tn.map.values()}
    doc.keep(names | NOT_TYPES | {"on"})

    def sels(xs):
        out = []
        for s in xs:
            if isinstance(s, Field):
                out.append(Field(fn(s.name), fn(s.alias) if s.alias else None, sels(s.sels), s.args, s.directives))
            elif isinstance(s, Inline):
                out.append(Inline(ty(s.on), sels(s.sels), s.directives))
            else:
                out.append(Spread(doc(s.name), s.directives))
        return out
    for d in docs:
        d.sels = sels(d.sels)
        d.name = doc(d.name) if d.name else None
        d.on = ty(d.on) if d.on else None
        d.variables = [Var(var(v.name), renamed(v.ref, ty), v.default) for v in d.variables]
    return Schema(types), docs


def name_clash(project):
    """whether two generated types of one module get one name (known finding K3), or one of them the
    name of a global type or custom scalar"""
    p = project
    objs = [t.name for t in p.schema.types.values() if t.kind == "OBJECT"]
    glob_names = set()
    for t in p.schema.types.values():
        if t.kind in ("ENUM", "INPUT_OBJECT"):
            glob_names.add(t.name)
        elif t.kind == "SCALAR" and t.name not in BUILTIN:
            glob_names.add(p.config.scalar(t.name))
    for d in p.docs:
        e = p.expect(d)
        seen = {}
        paths = {path for path, _ in e.keydocs} | {(e.name,)}
        for path in paths:
            for alt in [None, "$$other"] + objs:
                text = "_".join(path + ((alt,) if alt else ()))
                if seen.setdefault(text, (path, alt)) != (path, alt) and (alt is None or seen[text][1] is None or seen[text][0] != path):
                    return True
        if d.variables and e.name + "Variables" in seen:
            return True
        if glob_names & (set(seen) | {e.name + "Variables"}):
            return True
    return False


def wrap(rng, name, deep=False):
    """a random type reference around the named type"""
    r = name
    if rng.random() < 0.45:
        r = ("N", r)
    depth = rng.choice([0, 0, 0, 0, 1, 1, 1, 2, 2, 3, 4] if not deep else [1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12])
    for _ in range(depth):
        r = ("L", r)
        if rng.random() < 0.5:
            r = ("N", r)
    return r


def many(rng, words, lo, hi, big):
    """some of the words, and now and then a lot of names"""
    out = rng.sample(words, min(len(words), rng.randrange(lo, hi)))
    if big and rng.random() < 0.5:
        out += ["%s%d" % (rng.choice(["w", "W", "v_", "x"]), i) for i in range(some_count(rng))]
    return list(dict.fromkeys(out))


def gen_schema(rng, rich_docs=False, deep=False, n_obj=None):
    types = []
    big = rng.random() < 0.12
    scalars = ["DateTime", "JSON", "Money"][: rng.randrange(1, 4)]
    enums = ["Color", "Mode", "Role"][: rng.randrange(1, 4)]
    desc = (lambda p=0.3: rng.choice(NASTY) if rng.random() < (0.9 if rich_docs else p) else None)
    for s in scalars:
        types.append(TypeDef("SCALAR", s, desc=desc()))
    for e in enums:
        vs = many(rng, ["RED", "GREEN", "blue", "Low", "HIGH", "default", "A1", "class", "_", "A_B", "a10", "a2", "Red", "red"], 1, 6, big)
        types.append(TypeDef("ENUM", e, values=vs, desc=desc()))
    objs = ["User", "Host", "Disk", "Team", "Note", "Area"][: n_obj or rng.randrange(2, 7)]
    if big and rng.random() < 0.3:
        objs += ["Obj%d" % i for i in range(rng.choice([3, 6, 12]))]
    ifaces = ["Entity", "Named", "Lonely"][: rng.randrange(0, 4)]
    unions = ["Either", "Thing"][: rng.randrange(0, 3)]
    inputs = ["FilterIn", "PageIn", "SortIn", "DeepIn"][: rng.randrange(1, 5)]
    leaves = list(BUILTIN) + scalars + enums
    impl = {i: rng.sample(objs, rng.randrange(1, len(objs) + 1)) for i in ifaces}
    if "Lonely" in impl:
        impl["Lonely"] = impl["Lonely"][:1]
    outs = objs + ifaces + unions
    dep = lambda: rng.random() < 0.25

    def a_field(name):
        target = rng.choice(leaves) if rng.random() < 0.55 else rng.choice(outs)
        return FieldDef(name, wrap(rng, target, deep), desc(), dep())

    ifields = {i: [a_field(n) for n in rng.sample(WORDS, rng.randrange(1, 4))] for i in ifaces}
    # of one object type, a field has one type, whichever interface it is seen through
    pool = {}
    for i in ifaces:
        ifields[i] = [pool.setdefault(f.name, f) for f in ifields[i]]
    for o in objs:
        fs = {}
        for i in ifaces:
            if o in impl[i]:
                for f in ifields[i]:
                    fs[f.name] = FieldDef(f.name, f.ref, desc() if rng.random() < 0.5 else f.desc, dep() if rng.random() < 0.3 else f.deprecated)
        for n in many(rng, WORDS, 1, 6, big):
            fs.setdefault(n, a_field(n))
        types.append(TypeDef("OBJECT", o, fields=list(fs.values()), desc=desc()))
    for i in ifaces:
        types.append(TypeDef("INTERFACE", i, fields=ifields[i], possible=impl[i], desc=desc()))
    for u in unions:
        types.append(TypeDef("UNION", u, possible=rng.sample(objs, rng.randrange(1, len(objs) + 1)), desc=desc()))
    for k, i in enumerate(inputs):
        fs = []
        for n in many(rng, WORDS, 1, 6, big):
            target = rng.choice(leaves if rng.random() < 0.5 else inputs)
            fs.append(FieldDef(n, wrap(rng, target, deep), desc(), rng.random() < 0.1))
        types.append(TypeDef("INPUT_OBJECT", i, fields=fs, desc=desc()))
    for root in ("Query", "Mutation"):
        fs = [FieldDef("q" + x, wrap(rng, x, deep), desc(), dep()) for x in outs]
        fs += [FieldDef("l" + x, wrap(rng, x, deep), desc(), dep()) for x in rng.sample(leaves, min(len(leaves), 4))]
        types.append(TypeDef("OBJECT", root, fields=fs, desc=desc()))
    return Schema(types)


class DocGen:
    def __init__(self, rng, schema):
        self.rng, self.s = rng, schema
        self.frags = []          # fragment documents so far
        self.depth = 3
        self.narrow = 0.15       # how often a fragment on a type that cannot be
        self.big = rng.random() < 0.1
        self.dirs = lambda: ""

    def complexes(self):
        return [t for t in self.s.types.values() if t.kind in ("OBJECT", "INTERFACE", "UNION") and t.possible is not None and t.name not in ("Query", "Mutation")]

    def field(self, parent, used, depth):
        rng = self.rng
        t = self.s.types[parent]
        names = ["__typename"] + ([f.name for f in t.fields] if t.kind != "UNION" else [])
        names = [n for n in names if depth > 0 or not self.s.is_complex(named(self.s.field(parent, n).ref))] or ["__typename"]
        n = rng.choice(names) if rng.random() < 0.9 else "__typename"
        fd = self.s.field(parent, n)
        # an alias always stands for the same field name, so that keys never conflict
        alias = None
        if rng.random() < 0.25:
            alias = ("t" if n == "__typename" else n) + rng.choice(["X", "Y", "2"])
            if rng.random() < 0.15:
                alias = rng.choice(WORDS + [n])  # the name of another field, perhaps
        args = rng.choice(["", "", "", "", "(x: 1)", "(s: \"a}b\", l: [1, 2])", "(s: \"\u00e9\u6f22\")", "(o: {a: $v, b: [ENUM, null, true]})"]) if n != "__typename" else ""
        self.dirs = lambda: rng.choice(["@live", "@x(a: 1)", "@client @y"]) if rng.random() < 0.05 else ""
        sels = []
        if self.s.is_complex(named(fd.ref)):
            sels = self.sels(named(fd.ref), depth - 1)
        return Field(n, alias, sels, args, self.dirs())

    def sels(self, parent, depth):
        rng = self.rng
        out = []
        poss = set(self.s.possible(parent))
        n = rng.randrange(1, 5)
        if self.big and rng.random() < 0.15:
            n = some_count(rng) if depth <= 1 else 7
        for _ in range(n):
            k = rng.random()
            if k < 0.6 or parent in ("Query", "Mutation"):
                out.append(self.field(parent, None, depth))
            elif k < 0.85 and depth > 0:
                cands = [t.name for t in self.complexes() if poss & set(self.s.possible(t.name)) or rng.random() < self.narrow]
                on = rng.choice(cands or [parent])
                out.append(Inline(on, self.sels(on, depth - 1)))
            else:
                cands = [f for f in self.frags if poss & set(self.s.possible(f.on)) or rng.random() < self.narrow]
                if cands:
                    out.append(Spread(rng.choice(cands).name))
                else:
                    out.append(self.field(parent, None, depth))
        return out


def spreads(sels):
    for s in sels:
        if isinstance(s, Spread):
            yield s.name
        else:
            yield from spreads(s.sels)


def type_clash(project):
    """whether a document has one key with two named types on one object type (known finding K5)
    or another thing the oracle does not cover"""
    p = project
    work = [0]

    def walk(frags, sels, entries, parent, concretes):
        for s in sels:
            work[0] += 1
            if work[0] > 8000:
                raise OverflowError
            if isinstance(s, Field):
                fd = p.schema.field(parent, s.name)
                for t in concretes:
                    e = entries[t].setdefault(s.key, {"defs": [], "subs": []})
                    e["defs"].append(fd)
                    e["subs"] += s.sels
            else:
                on, sub = (s.on, s.sels) if isinstance(s, Inline) else (frags[s.name].on, frags[s.name].sels)
                n = [t for t in p.schema.possible(on) if t in concretes]
                walk(frags, sub, {t: entries[t] for t in n}, on, n)

    def check(frags, parent, sels, depth):
        if depth > 12:
            return True
        entries = {t: {} for t in p.schema.possible(parent)}
        walk(frags, sels, entries, parent, list(entries))
        for keys in entries.values():
            for e in keys.values():
                if len({(repr(d.ref), d.name) for d in e["defs"]}) > 1:
                    return True
                t = named(e["defs"][0].ref)
                if p.schema.is_complex(t) and check(frags, t, e["subs"], depth + 1):
                    return True
        return False

    for d in p.docs:
        frags, missing, _ = p.scope(d)
        try:
            if check(frags, d.root_type(), d.sels, 0):
                return True
        except OverflowError:
            return True  # too big to be worth it
    return False


DIRS = ["", "", "x", "x/y", "z", "deep/er/one"]


def gen_docs(rng, schema, n=None, depth=3, prefix=None, variables=True, subscriptions=False):
    g = DocGen(rng, schema)
    g.depth = depth
    docs = []
    nf = rng.randrange(0, 4) if rng.random() < 0.95 else rng.choice([5, 6, 9, 12])
    odd = rng.random() < 0.25
    stem = lambda x: x + rng.choice(ODD_FILES) if odd and rng.random() < 0.5 else rng.choice(["", ".", "-", "@"]) + x if odd else x
    for k in range(nf):
        on = rng.choice(g.complexes()).name
        d = Doc("fragment", "Frag%d" % k, g.sels(on, depth - 1), on=on)
        d.path = posixpath.join(rng.choice(DIRS), stem("frag%d" % k) + ".graphql")
        g.frags.append(d)
        docs.append(d)
    inputs = [t.name for t in schema.types.values() if t.kind in ("ENUM", "INPUT_OBJECT", "SCALAR")]
    for k in range(n or rng.randrange(1, 4)):
        kind = rng.choice(["query", "query", "mutation"] + (["subscription"] if subscriptions else []))
        root = "Mutation" if kind == "mutation" else "Query"
        d = Doc(kind, "Op%d" % k, g.sels(root, depth))
        if variables and rng.random() < 0.6:
            for v in many(rng, WORDS, 1, 6, g.big):
                t = rng.choice(inputs if rng.random() < 0.7 else list(BUILTIN))
                ref = rng.choice([t, ("N", t), ("L", t), ("N", ("L", t)), ("L", ("N", t)), ("N", ("L", ("N", t)))])
                d.variables.append(Var(v, ref, rng.choice(["null", "3", "[]", "{a: \"=\"}", "E"]) if rng.random() < 0.08 else None))
        if k == 0 and rng.random() < 0.15:
            d.name = None
        d.path = posixpath.join(rng.choice(DIRS), stem("op%d%s" % (k, rng.choice(["", ".v2", "-x"]))) + ".graphql")
        docs.append(d)
    by_name = {d.name: d for d in docs if d.kind == "fragment"}
    for d in docs:
        imports = []
        for s in dict.fromkeys(spreads(d.sels)):
            f = by_name[s]
            # what a fragment imports itself need not be imported again
            here = posixpath.dirname(d.path)
            style = rng.randrange(3)
            rel = posixpath.relpath(f.path, here or ".")
            rel = rel if rel.startswith((".", "/")) and posixpath.normpath(posixpath.join(here, rel)) == f.path and not rel.startswith(".hidden") else "./" + rel
            text = rel if style == 0 else prefix + f.path if style == 1 and prefix is not None else f.path
            # a path from the root that reads like another kind of path
            if text is f.path and (text.startswith(".") or prefix is not None and text.startswith(prefix)):
                text = rel
            imports.append(text)
        rng.shuffle(imports)
        d.imports = imports
        if rng.random() < 0.3:
            d.header = "".join(rng.choice(["\n", "# note\n", "  \n", ""]) + '#import "%s"%s\n' % (i, rng.choice(["", " ", " # x"])) for i in imports)
    return docs


def gen_config(rng):
    """(effective Config, command line, config file, how the config file is given)"""
    c, args, cfg = Config(), [], {}

    def both(opt, key, values, attr, text=str):
        a = rng.choice(values) if rng.random() < 0.35 else None
        b = rng.choice(values) if rng.random() < 0.35 else None
        if a is not None:
            args.extend([opt, text(a)])
        if b is not None:
            cfg[key] = b
        v = a if a is not None else b
        if v is not None:
            setattr(c, attr, v)
        return a

    def flag(opt, key):
        a = rng.random() < 0.3
        b = rng.choice([None, None, True, False])
        if a:
            args.append(opt)
        if b is not None:
            cfg[key] = b
        return a or bool(b)

    c.custom = flag("--use-custom-scalars", "useCustomScalars")
    c.readonly = not flag("--disable-readonly-types", "disableReadonlyTypes")
    c.deprecations = flag("--show-deprecation-warnings", "showDeprecationWarnings")
    if "--use-custom-scalars" in args:
        both("--custom-scalar-prefix", "customScalarPrefix", ["Api", "P", "$S", "T_", "api", "ApiApi"], "prefix")
    elif rng.random() < 0.35:
        cfg["customScalarPrefix"] = c.prefix = rng.choice(["Api", "P", "$S", "T_", "api"])
    both("--root-dir-import-prefix", "rootDirImportPrefix", ["@/", "~/", "src/"], "import_prefix")
    both("--global-types-module-name", "globalTypesModuleName", ["gql-globals", "globals.gen", "types2"], "globals_module")
    both("--typed-graphql-documentnode-module-name", "typedGraphqlDocumentnodeModuleName", ["my/doc-node", "nodes"], "typed_module")
    both("--num-threads", "numThreads", [0, 1, 2, 7], "threads")
    if c.import_prefix is not None and rng.random() < 0.3:
        c.globals_module = c.import_prefix + "shared-globals"
        if "--global-types-module-name" in args:
            k = args.index("--global-types-module-name")
            args[k + 1] = c.globals_module
        else:
            cfg["globalTypesModuleName"] = c.globals_module
    return c, args, cfg
