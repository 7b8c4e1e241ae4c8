"""Scenarios: each runs the real qlc once or more on a generated input and compares what it did with
what the property says.  A scenario is a function (rng, binary) -> [(Diff, Case)]."""
import copy
import json
import os
import posixpath
import random
import re

import gen
import oracle
import runner
from gql import Doc, Field, FieldDef, Inline, Schema, Spread, TypeDef, Var, named, parse_sdl, print_doc
from oracle import Config, Diff, Project
from runner import Case


def pair(diffs, case):
    return [(d, case) for d in diffs]


def new_project(rng, **kw):
    while True:
        s = gen.gen_schema(rng, rich_docs=rng.random() < 0.3, deep=rng.random() < 0.25)
        c, args, cfg = gen.gen_config(rng)
        docs = gen.gen_docs(rng, s, prefix=c.import_prefix, subscriptions=rng.random() < 0.2, **kw)
        s, docs = gen.rename(rng, s, docs, c.prefix)
        p = Project(s, docs, c)
        if not gen.type_clash(p) and not gen.name_clash(p):
            return p, args, cfg


def project(rng, binary):
    p, args, cfg = new_project(rng, depth=rng.choice([2, 3, 3, 4, 5]))
    root = rng.choice([".", ".", ".", "proj", "a b/c.d"])
    files, argv = runner.layout(p, args, cfg, rng, root)
    if root != ".":
        argv[-1] = rng.choice(["%s", "./%s", "%s/", "@@DIR@@/%s", "x/../%s"]) % root
        if argv[-1].startswith("x/"):
            files["x/.keep"] = ""
    case = Case(files, argv).run(binary)
    return pair(runner.compare(p, case, root), case)


def deep(rng, binary):
    """selections nested many levels, through fields, inline fragments and spreads, with merges on the way"""
    s = parse_sdl("""interface Node { id: ID! next: Node! many: [Node!] old: Int @deprecated c: Color } enum Color { RED }
        type Aa implements Node { id: ID! next: Node! many: [Node!] old: Int @deprecated c: Color a: Float s: Date }
        type Bb implements Node { id: ID! next: Node! many: [Node!] old: Int @deprecated c: Color b: [Boolean!]! }
        union Un = Aa | Bb  scalar Date  type Query { node: Node un: Un aa: Aa! }""")
    c, args = Config(), []
    if rng.random() < 0.5:
        c.deprecations, args = True, ["--show-deprecation-warnings"]
    n = rng.choice([4, 5, 6, 7, 8, 9, 10, 12, 14, 16])
    frags = []

    def level(parent, d):
        t = s.types[parent]
        names = ["__typename"] + [f.name for f in t.fields if not s.is_complex(named(f.ref))]
        out = [Field(x) for x in rng.sample(names, rng.randrange(1, min(3, len(names)) + 1))]
        if d > 0:
            links = [f.name for f in t.fields if s.is_complex(named(f.ref))]
            k = rng.random()
            if k < 0.55 and links:
                x = rng.choice(links)
                out.append(Field(x, x + "Al" if rng.random() < 0.2 else None, level(named(s.field(parent, x).ref), d - 1)))
                if rng.random() < 0.3:
                    out.append(Field(x, None, [Field(rng.choice(["__typename", "id"]))]))
            elif k < 0.75 or not links and k < 0.9:
                on = rng.choice(["Aa", "Bb", "Node", "Un"])
                out.append(Inline(on, level(on, d - 1)))
            elif parent != "Query" and len(frags) < 25:
                on = rng.choice(["Aa", "Bb", "Node", "Un"])
                f = Doc("fragment", "Dp%d" % len(frags), [], on=on, path="%sf%d.graphql" % (rng.choice(["", "x/", "x/y/"]), len(frags)))
                frags.append(f)
                f.sels = level(on, d - 1)
                out.append(Spread(f.name))
            elif links:
                x = rng.choice(links)
                out.append(Field(x, None, level(named(s.field(parent, x).ref), d - 1)))
        rng.shuffle(out)
        return out
    q = Doc("query", "Deep", [Field(x, None, level(named(s.field("Query", x).ref), n)) for x in rng.sample(["node", "un", "aa"], rng.randrange(1, 3))], path="x/deep.graphql")
    docs = frags + [q]
    by = {f.name: f for f in frags}
    for d in docs:
        d.imports = [by[x].path for x in dict.fromkeys(gen.spreads(d.sels))]
    p = Project(s, docs, c)
    if gen.type_clash(p) or gen.name_clash(p):
        return None
    files, argv = runner.layout(p, args, {}, rng)
    case = Case(files, argv).run(binary)
    return pair(runner.compare(p, case), case)


def inputs(rng, binary):
    """input objects that refer to each other and to enums in every way, and documents that use some"""
    n = rng.choice([1, 2, 3, 4, 6, 9, 12, 20])
    es = ["En%d" % i for i in range(rng.randrange(1, 6))]
    ins = ["In%d" % i for i in range(n)]
    types = [TypeDef("SCALAR", "Date")] + [TypeDef("ENUM", e, values=rng.sample(["A", "B", "C_D", "e"], rng.randrange(1, 4)), desc=rng.choice([None, "about"])) for e in es]
    shape = rng.choice(["graph", "chain", "tree", "self"])
    for i, x in enumerate(ins):
        fs = [FieldDef(w, gen.wrap(rng, rng.choice(es + ["Int", "Date", "ID"]), rng.random() < 0.1), rng.choice([None, None, "doc"]), rng.random() < 0.1) for w in rng.sample(gen.WORDS, rng.randrange(0, 3))]
        if shape == "chain":
            to = ins[i + 1:i + 2]
        elif shape == "tree":
            to = ins[2 * i + 1:2 * i + 3]
        elif shape == "self":
            to = [x] + ins[i + 1:i + 2]
        else:
            to = rng.sample(ins, rng.randrange(0, min(3, n) + 1))
        fs += [FieldDef("to%d" % k, gen.wrap(rng, y, rng.random() < 0.1)) for k, y in enumerate(to)]
        types.append(TypeDef("INPUT_OBJECT", x, fields=fs or [FieldDef("only", "Int")]))
    types.append(TypeDef("OBJECT", "Query", fields=[FieldDef("id", "ID")] + [FieldDef("f" + e, gen.wrap(rng, e)) for e in es]))
    s = Schema(types)
    c, args = Config(), []
    docs = []
    for k in range(rng.choice([1, 1, 2, 3, 5])):
        d = Doc("query", "Op%d" % k, [Field("id")] + [Field("f" + e) for e in rng.sample(es, rng.choice([0, 0, 1]))], path="%sop%d.graphql" % (rng.choice(["", "d/"]), k))
        d.variables = [Var("v%d" % i, rng.choice([t, ("N", t), ("L", ("N", t)), ("L", t), ("N", ("L", t))])) for i, t in enumerate(rng.sample(ins + es + ["Date"], rng.randrange(0, 3)))]
        docs.append(d)
    s, docs = gen.rename(rng, s, docs, None)
    p = Project(s, docs, c)
    if gen.name_clash(p):
        return None
    files, argv = runner.layout(p, args, {}, rng)
    case = Case(files, argv).run(binary)
    return pair(runner.compare(p, case), case)


# ---- abstract types, heavily (C05, C06) ----------------------------------------------------------

def abstract(rng, binary):
    """few fields on many object types, so that selections repeat, merge and narrow"""
    objs = ["Aa", "Bb", "Cc", "Dd"][: rng.randrange(2, 5)]
    leafs = {"x": ("N", "Int"), "y": "String", "e": "Color", "l": ("L", ("N", "Int"))}
    kid = {"k": "Any", "m": ("L", "Some")}
    types = [TypeDef("ENUM", "Color", values=["RED", "BLUE"])]
    vary = {o: rng.random() < 0.4 for o in objs}
    fields = {}
    for o in objs:
        fs = [FieldDef(n, r) for n, r in list(leafs.items()) + list(kid.items())]
        # a field of one name with another type on this type alone
        fs.append(FieldDef("v", rng.choice(["Int", ("N", "Int"), "Boolean", ("L", "Int"), "Color"]) if vary[o] else "Int",
                           rng.choice([None, "doc " + o]), rng.random() < 0.2))
        fields[o] = fs
        types.append(TypeDef("OBJECT", o, fields=fs))
    types.append(TypeDef("INTERFACE", "Any", fields=[FieldDef(n, r) for n, r in list(leafs.items()) + list(kid.items())], possible=list(objs)))
    types.append(TypeDef("INTERFACE", "Some", fields=[FieldDef("x", leafs["x"])], possible=rng.sample(objs, rng.randrange(1, len(objs) + 1))))
    types.append(TypeDef("UNION", "Un", possible=rng.sample(objs, rng.randrange(1, len(objs) + 1))))
    types.append(TypeDef("OBJECT", "Query", fields=[FieldDef("any", "Any"), FieldDef("some", ("L", ("N", "Some"))), FieldDef("un", ("N", "Un")), FieldDef("aa", "Aa")]))
    s = Schema(types)

    def sels(parent, depth):
        out = []
        for _ in range(rng.randrange(1, 5)):
            if rng.random() < 0.55:
                t = s.types[parent]
                names = ["__typename"] + ([f.name for f in t.fields] if t.kind != "UNION" else [])
                n = rng.choice(names)
                fd = s.field(parent, n)
                if s.is_complex(named(fd.ref)):
                    if depth <= 0:
                        n, fd = "__typename", s.field(parent, "__typename")
                        out.append(Field(n))
                        continue
                    out.append(Field(n, None, sels(named(fd.ref), depth - 1)))
                else:
                    out.append(Field(n, (n.strip("_") + "Al") if rng.random() < 0.15 else None))
            else:
                on = rng.choice(objs + ["Any", "Some", "Un"])
                if frags and rng.random() < 0.4:
                    out.append(Spread(rng.choice(frags).name))
                elif depth > 0:
                    out.append(Inline(on, sels(on, depth - 1)))
        return out or [Field("__typename")]
    frags, docs = [], []
    for k in range(rng.randrange(0, 3)):
        on = rng.choice(objs + ["Any", "Some", "Un"])
        d = Doc("fragment", "Fr%d" % k, sels(on, 2), on=on, path="fr%d.graphql" % k)
        d.imports = [f.path for f in frags]
        frags.append(d)
        docs.append(d)
    q = Doc("query", "Main", [Field(n, None, sels(named(s.field("Query", n).ref), 3)) for n in rng.sample(["any", "some", "un", "aa"], rng.randrange(1, 4))], path="main.graphql")
    q.imports = [f.path for f in frags]
    docs.append(q)
    c, args = Config(), []
    if rng.random() < 0.5:
        c.deprecations, args = True, ["--show-deprecation-warnings"]
    s, docs = gen.rename(rng, s, docs, None)
    p = Project(s, docs, c)
    if gen.type_clash(p) or gen.name_clash(p):
        return None
    files, argv = runner.layout(p, args, {}, rng)
    case = Case(files, argv).run(binary)
    return pair(runner.compare(p, case), case)


# ---- one fault in a valid project (C07, C14, C19) ------------------------------------------------

def walk(schema, sels, parent, out):
    """(list, index, parent type) of every selection, and every list as an insertion point"""
    out["lists"].append((sels, parent))
    for i, x in enumerate(sels):
        out["sels"].append((sels, i, parent))
        if isinstance(x, Field):
            if x.sels:
                walk(schema, x.sels, named(schema.field(parent, x.name).ref), out)
        elif isinstance(x, Inline):
            walk(schema, x.sels, x.on, out)


def importers(p, doc):
    """the documents whose scope has the file of doc"""
    return [d for d in p.docs if d is not doc and doc.path in p.scope(d)[2]]


FAULTS = ["unknown-field", "leaf-selection", "no-selection", "unknown-spread", "variable-type", "variable-lists", "no-condition", "anonymous",
          "two", "empty", "syntax", "self-cycle", "cycle", "condition-unknown", "condition-leaf", "condition-input", "root-fragment-leaf", "root-fragment-unknown",
          "enum-selection", "typename-selection", "unmatched-field", "comment-only"]


def fault(rng, binary, kind=None):
    p, args, cfg = new_project(rng)
    s = p.schema
    d = rng.choice(p.docs)
    kind = kind or rng.choice(FAULTS)
    spots = {"sels": [], "lists": []}
    walk(s, d.sels, d.root_type(), spots)
    ins, parent = rng.choice(spots["lists"])
    at = rng.randrange(len(ins) + 1)
    node, text, raw, loose = None, None, None, False

    def fresh(pred):
        t = s.types[parent]
        names = [f.name for f in (t.fields if t.kind in ("OBJECT", "INTERFACE") else [])]
        names = [n for n in names if pred(s.field(parent, n))]
        return rng.choice(names) if names else None
    if kind == "unknown-field":
        node = Field(rng.choice(["nope", "idx", "__type", "Name0"]))
        if s.field(parent, node.name):
            return None
        text = "unknown field `%s`" % node.name
    elif kind == "unmatched-field":
        # a field that only another type has
        t = s.types[parent]
        others = [f.name for o in s.types.values() if o.kind == "OBJECT" for f in o.fields if s.field(parent, f.name) is None]
        if not others:
            return None
        node = Field(rng.choice(others))
        text = "unknown field `%s`" % node.name
    elif kind in ("leaf-selection", "enum-selection"):
        n = fresh(lambda f: not s.is_complex(named(f.ref)) and (kind == "leaf-selection" or s.kind(named(f.ref)) == "ENUM"))
        if n is None:
            return None
        node = Field(n, "zz", [Field("id")])
        text = "unexpected selection on field of type `%s`" % named(s.field(parent, n).ref)
    elif kind == "typename-selection":
        node = Field("__typename", "zz", [Field("id")])
        text = "unexpected selection on field of type `__typename`"
    elif kind == "no-selection":
        n = fresh(lambda f: s.is_complex(named(f.ref)))
        if n is None:
            return None
        node = Field(n, "zz")
        text = "expected selection on field of type `%s`" % named(s.field(parent, n).ref)
    elif kind == "unknown-spread":
        node = Spread(rng.choice(["Nope", "Frag", "Frag00"]))
        text = "unknown spread fragment name `%s`" % node.name
    elif kind == "no-condition":
        node = Inline(None, [Field("__typename")])
        text = "fragment missing type condition on inline fragment"
    elif kind == "condition-unknown":
        node = Inline("Nowhere", [Field("__typename")])
        text = "failed lookup of type `Nowhere`"
        loose = True
    elif kind == "condition-leaf":
        t = rng.choice([t.name for t in s.types.values() if t.kind in ("SCALAR", "ENUM")])
        node = Inline(t, [Field("__typename")])
        text = "unexpected selection on field of type `%s`" % t
    elif kind == "condition-input":
        t = rng.choice([t.name for t in s.types.values() if t.kind == "INPUT_OBJECT"])
        node = Inline(t, [Field("__typename")])
        text = "`%s`" % t
        loose = True
    elif kind in ("variable-type", "variable-lists"):
        if d.kind == "fragment":
            return None
        if kind == "variable-type":
            node = Var("zz", rng.choice(["Nope", ("N", "Nope"), ("L", "Nope"), ("N", ("L", ("N", "Nope")))]))
            text = "unknown type for variable `Nope`"
        else:
            base = rng.choice(["Int", ("N", "Int")])
            inner = rng.choice([("L", base), ("N", ("L", base))])
            node = Var("zz", rng.choice([("L", inner), ("N", ("L", inner))]))
            text = None  # list of lists, or unprocessable: reported either way, at the variable
        d.variables.insert(rng.randrange(len(d.variables) + 1), node)
    elif kind == "anonymous":
        if d.kind != "query" or d.variables:
            return None
        d.kind = "anonymous"
        node = d
        text = "unsupported selection set as operation"
    elif kind in ("root-fragment-leaf", "root-fragment-unknown"):
        if d.kind != "fragment" or importers(p, d):
            return None
        if kind == "root-fragment-leaf":
            d.on = rng.choice([t.name for t in s.types.values() if t.kind in ("SCALAR", "ENUM")])
            text = "unexpected selection on field of type `%s`" % d.on
        else:
            d.on, text, loose = "Nowhere", "failed lookup of type `Nowhere`", True
        d.sels = [Field("__typename")]
        node = d
    elif kind in ("self-cycle", "cycle"):
        if d.kind != "fragment":
            return None
        text = "cyclic fragment"
        if kind == "self-cycle":
            ins.insert(at, Spread(d.name))
            d.imports.append("./" + posixpath.basename(d.path))
        else:
            o = Doc("fragment", "Loop", [Field("__typename"), Spread(d.name)], on=d.on, imports=[])
            o.path = posixpath.join(rng.choice(gen.DIRS), "loop.graphql")
            o.imports.append("./" + posixpath.relpath(d.path, posixpath.dirname(o.path) or "."))
            p.docs.append(o)
            p.by_path[o.path] = o
            ins.insert(at, Spread("Loop"))
            d.imports.append("./" + posixpath.relpath(o.path, posixpath.dirname(d.path) or "."))
        d.header = None
    elif kind == "two":
        raw = print_doc(d) + "\nquery Second { __typename }\n"
        text = "multi definition files unsupported"
    elif kind == "empty":
        raw = rng.choice(["", "\n", "   \n\n"])
    elif kind == "comment-only":
        raw = "# nothing here\n"
    elif kind == "syntax":
        raw = print_doc(d)
        if rng.random() < 0.5:
            raw = raw.rstrip().rstrip("}")
        else:
            raw = raw.replace("{", "{ ( ", 1) if rng.random() < 0.5 else raw + "\n}"
    if isinstance(node, (Field, Inline, Spread)):
        ins.insert(at, node)
    files, argv = runner.layout(p, args, cfg, rng)
    if raw is not None:
        files[d.path] = raw
    case = Case(files, argv).run(binary)
    out = runner.crash(case)
    if out:
        return pair(out, case)
    msgs = oracle.messages(case.stdout)
    out, body = oracle.compare_exit(case.rc, msgs)
    errors = [m for m in body if m.level != "warning"]
    created = case.created()
    # documents that may legitimately be affected
    cyc = kind in ("self-cycle", "cycle")
    affected = {x.path for x in importers(p, d)} | {d.path}
    if kind == "cycle":
        affected |= {"%s" % x.path for x in p.docs if x.name == "Loop"} | {x.path for x in importers(p, p.by_path[[y.path for y in p.docs if y.name == "Loop"][0]])}
    label = "[%s in %s] " % (kind, d.path)
    if not errors:
        out.append(Diff({"C07"} | ({"C16"} if cyc else set()), label + "accepted"))
    q = d.path[:-len(".graphql")] + ".graphql.d.ts"
    if posixpath.normpath(q) in created:
        out.append(Diff({"C07", "C20"}, label + "output written for the rejected document"))
    mine = [m for m in errors if m.file is None or posixpath.normpath(m.file) == d.path]
    for m in errors:
        if m.file is not None and posixpath.normpath(m.file) not in affected:
            out.append(Diff({"C07", "C19"}, label + "error reported in %s: %s" % (m.file, m)))
    if text is not None and not any(text in m.text for m in mine):
        out.append(Diff({"C07", "C19"}, label + "no error says %r: %s" % (text, errors)))
    local = kind in ("unknown-field", "unmatched-field", "leaf-selection", "enum-selection", "typename-selection", "no-selection", "unknown-spread", "no-condition",
                     "condition-unknown", "condition-leaf", "condition-input", "variable-type", "variable-lists", "anonymous", "root-fragment-leaf", "root-fragment-unknown")
    if local and len(errors) > 1:
        out.append(Diff({"C07", "C14"}, label + "%d errors for one fault: %s" % (len(errors), errors)))
    if local and not loose and errors:
        want = node.pos
        if not any((m.line, m.col) == want for m in mine):
            out.append(Diff({"C19"}, label + "error is at %s, the fault is at %s" % ([(m.line, m.col) for m in mine], want)))
    if kind == "two" and mine:
        n = print_doc(d).count("\n") + 2
        if (mine[0].line, mine[0].col) != (n, 1):
            out.append(Diff({"C19"}, label + "error is at %s:%s, the second definition at %d:1" % (mine[0].line, mine[0].col, n)))
    if cyc:
        for m in mine:
            if m.line is not None and (m.line, m.col) != d.pos and posixpath.normpath(m.file) == d.path:
                out.append(Diff({"C19"}, label + "error is at %s:%s, the definition at %s" % (m.line, m.col, d.pos)))
    out += runner.sources(case, body)
    # everything else is as if the fault were not there
    for o in p.docs:
        if o.path in affected:
            continue
        oq = o.path[:-len(".graphql")] + ".graphql.d.ts"
        if oq not in created:
            out.append(Diff({"C07", "C15"}, label + "no output for the unrelated %s" % o.path))
        else:
            out += oracle.compare_doc(p, o, p.expect(o), created[oq])
    return pair(out, case)


# ---- imports (C08) -------------------------------------------------------------------------------

SIMPLE = "type Query { id: ID! name: String peer: Query }"


def simple_schema():
    return json.dumps(parse_sdl(SIMPLE).introspection())


def keys_of(text):
    return sorted(re.findall(r"^  readonly (\w+):", text, re.M))


def imports(rng, binary):
    """which imports are followed, and where to: a chain of fragments in directories, each selecting
    its own alias, reached by random import styles, in the presence of decoys"""
    n = rng.randrange(1, 6) if rng.random() < 0.9 else rng.choice([7, 9, 12, 17])
    prefix = rng.choice([None, "@/", "~", "src/", "./"])
    root = rng.choice([".", "proj", "proj/nested"])
    dirs = ["", "x", "x/y", "z", "src"]
    args = ["--no-color", root]
    if prefix is not None:
        args += ["--root-dir-import-prefix", prefix]
    frags = []
    same = rng.random() < 0.3  # files of one name in several directories
    if root != ".":
        dirs.append("../out")
    for k in range(n):
        d = rng.choice(dirs)
        if same:
            d = posixpath.join(d, "only%d" % k)
        frags.append({"name": "F%d" % k, "path": posixpath.join(d, "same.graphql" if same else "f%d.graphql" % k), "imports": []})
    main = {"name": None, "path": posixpath.join(rng.choice([d for d in dirs if d != "../out"]), "main.graphql"), "imports": []}

    def ref(src, dst):
        here = posixpath.dirname(src["path"]) or "."
        rel = posixpath.relpath(posixpath.join("/v", root, dst["path"]), posixpath.join("/v", root, here))
        rel = rel if rel.startswith(".") else "./" + rel
        k = rng.randrange(4)
        if k == 0 and prefix is not None:
            return prefix + dst["path"]
        if prefix == "./":
            # everything that starts with a dot and a slash is from the root then
            return "./" + dst["path"]
        if k == 1 and not dst["path"].startswith(".") and not (prefix is not None and dst["path"].startswith(prefix)):
            return dst["path"]
        if k == 2:
            parts = rel.split("/")
            return "/".join(parts[:-1] + [".", parts[-1]]) if len(parts) > 1 else rel
        return rel
    # a random graph, cycles of imports (not of spreads) included
    for f in frags:
        for g in rng.sample(frags, rng.randrange(0, min(3, n) + 1)):
            f["imports"].append(ref(f, g))
    for g in rng.sample(frags, rng.randrange(0, n + 1)):
        main["imports"].append(ref(main, g))
    fault = rng.choice([None, None, None, "missing", "operation", "not-import", "unterminated", "space"])
    lines = []
    stop = None
    styles = ['#import "%s"', '#import "%s" ', '#import "%s" # "tail', '#import "%s"; # x', '#import "%s']
    for i in main["imports"]:
        if rng.random() < 0.4:
            lines.append(rng.choice(["", "# comment", "   ", "#", "# import of nothing"]))
        st = rng.choice(styles)
        if st.endswith("tail"):
            st = styles[0]  # what follows the last quote is ignored, so no quote may follow
        lines.append(st % i)
    bad_line = None
    decoy = frags[-1]
    if fault == "missing":
        lines.insert(rng.randrange(len(lines) + 1), '#import "./gone.graphql"')
        bad_line = lines.index('#import "./gone.graphql"') + 1
    elif fault == "operation":
        lines.insert(rng.randrange(len(lines) + 1), '#import "other.graphql"')
        bad_line = lines.index('#import "other.graphql"') + 1
    elif fault == "unterminated":
        lines.append('#import "')
    elif fault == "space":
        lines.append(' #import "%s"' % decoy["path"])  # indented: ends the list of imports
    files = {}

    full = lambda q: posixpath.normpath(posixpath.join("/v", root, q))

    def resolve(src, text):
        if prefix is not None and text.startswith(prefix):
            return full(text[len(prefix):])
        if text.startswith("."):
            return full(posixpath.join(posixpath.dirname(src["path"]), text))
        return full(text)
    by_path = {full(f["path"]): f for f in frags}

    def scope(src):
        seen, todo = [], [src]
        while todo:
            s = todo.pop()
            for i in s["imports"]:
                g = by_path.get(resolve(s, i))
                if g is not None and g not in seen:
                    seen.append(g)
                    todo.append(g)
        return seen
    reach = scope(main)
    body = ["query Main {", "  id"] + ["  ...%s" % g["name"] for g in reach]
    unreached = [f for f in frags if f not in reach]
    probe = None
    if unreached and rng.random() < 0.5:
        probe = rng.choice(unreached)
        body.append("  ...%s" % probe["name"])
    late = '#import "%s"' % decoy["path"]
    body.append("}")
    if rng.random() < 0.5:
        body.insert(1, late)  # after the first line of the document: a comment, not an import
    at = lambda path: posixpath.normpath(posixpath.join(root, path))
    files[at(main["path"])] = "\n".join(lines + body) + "\n"
    for k, f in enumerate(frags):
        files[at(f["path"])] = "".join('#import "%s"\n' % i for i in f["imports"]) + "fragment %s on Query {\n  k%d: id\n}\n" % (f["name"], k)
    # decoys: files of the same name where a wrong resolution would look
    for f in frags:
        for d in ("..", "src", "x", ""):
            q = posixpath.normpath(posixpath.join(root, d, posixpath.basename(f["path"])))
            if q not in files and not q.startswith("..") and posixpath.dirname(q) != "" and rng.random() < 0.3:
                files[q] = "fragment Decoy%s%s on Query { name }\n" % (f["name"], re.sub(r"\W", "", q))
    if fault == "operation":
        files[at("other.graphql")] = "query Other { id }\n"
    files[at("schema.json")] = simple_schema()
    case = Case(files, args).run(binary)
    out = runner.crash(case)
    if out:
        return pair([Diff(d.tags | {"C08"}, d.text) for d in out], case)
    msgs = oracle.messages(case.stdout)
    out, mb = oracle.compare_exit(case.rc, msgs)
    errors = [m for m in mb if m.level != "warning"]
    created = case.created()
    q = at(main["path"])[:-len(".graphql")] + ".graphql.d.ts"
    here = at(main["path"])
    about = [m for m in errors if m.file is not None and posixpath.normpath(m.file) == here]
    if probe is not None:
        if not any("unknown spread fragment name `%s`" % probe["name"] in m.text for m in errors):
            out.append(Diff({"C08", "C07"}, "fragment %s is in scope without an import of its file (%s)" % (probe["name"], errors)))
    else:
        want = sorted(["id"] + ["k%d" % frags.index(g) for g in reach])
        got = keys_of(created.get(q, ""))
        if got != want:
            out.append(Diff({"C08"}, "the document has %s, expected %s (%s)" % (got, want, errors)))
    if bad_line is not None:
        hit = [m for m in about if m.line == bad_line]
        word = "could not read" if fault == "missing" else "cannot import non-fragment"
        if not hit or not any(word in m.text for m in hit):
            out.append(Diff({"C08", "C19"}, "the faulty import of line %d is not reported: %s" % (bad_line, errors)))
        elif hit[0].col != 9 or hit[0].caret != 9:
            out.append(Diff({"C19"}, "the faulty import is reported at column %s" % hit[0].col))
        if case.rc != 1:
            out.append(Diff({"C08", "C14"}, "exit status %s with a faulty import" % case.rc))
    elif probe is None and fault in (None, "not-import", "space") and errors:
        out.append(Diff({"C08"}, "errors without a faulty import: %s" % errors))
    out += runner.sources(case, mb)
    return pair(out, case)


# ---- determinism (C11) ---------------------------------------------------------------------------

def determinism(rng, binary):
    p, args, cfg = new_project(rng, n=rng.randrange(2, 5))
    args = [a for a in args]
    if "--num-threads" in args:
        k = args.index("--num-threads")
        del args[k:k + 2]
    cfg.pop("numThreads", None)
    files, argv = runner.layout(p, args, cfg, rng)
    if rng.random() < 0.15:
        # which of several fragments of one name counts is not said, but it has to be the same one each time
        twins = ["twin%d.graphql" % k for k in range(rng.randrange(2, 5))]
        for k, t in enumerate(twins):
            files[t] = "fragment Twin on Query { %s: __typename }\n" % "abcd"[k]
        files["twins.graphql"] = "".join('#import "./%s"\n' % t for t in twins) + "query Twins { ...Twin }\n"
    first = None
    for k in range(4):
        f = dict(files)
        sp = p.config.schema_path or "schema.json"
        f[sp] = json.dumps(p.schema.introspection(random.Random(rng.random())))
        case = Case(f, argv + ["--num-threads", str([1, 2, 8, 5][k])]).run(binary)
        bad = runner.crash(case)
        if bad:
            return pair(bad, case)
        got = {x: t for x, t in case.created().items() if x != sp}
        if first is None:
            first = (got, case.rc)
        elif got != first[0]:
            names = sorted(x for x in set(got) | set(first[0]) if got.get(x) != first[0].get(x))
            return pair([Diff({"C11"}, "%s differ between runs" % names)], case)
        elif case.rc != first[1]:
            return pair([Diff({"C11", "C14"}, "exit status %s and %s" % (first[1], case.rc))], case)
    return []


# ---- configuration (C13) -------------------------------------------------------------------------

def config(rng, binary):
    """where the configuration and the schema are found, and which of two settings counts"""
    root = rng.choice([".", "proj"])
    s = parse_sdl("scalar Date type Query { id: ID! at: Date old: Date @deprecated }")
    decoy = json.dumps(parse_sdl("type Query { wrong: ID! }").introspection())
    doc = "query Main { id at old }\n"
    good = json.dumps(s.introspection())
    files = {posixpath.normpath(posixpath.join(root, "main.graphql")): doc}
    args = ["--no-color", root]
    cfg = {}
    where = rng.choice([".qlcrc.json", "conf/qlc.json", "other.json", None])
    cwd = "work"
    base = "work"
    at = lambda q: posixpath.normpath(posixpath.join(base, q))
    # the schema
    k = rng.choice(["cli", "config", "both", "default"])
    default = posixpath.join(root, "schema.json")
    if where is None and k in ("config", "both"):
        k = "cli"
    if k == "default":
        want = default
    elif k in ("cli", "both"):
        want = rng.choice(["s/one.json", "../outside.json"])
        args += [rng.choice(["--schema-path", "-s"]), want]
    if k in ("config", "both"):
        rel = rng.choice(["two.json", "../up.json", "sub/two.json"])
        cfg["schemaFile"] = rel
        in_config = posixpath.join(posixpath.dirname(where), rel)
        if k == "config":
            want = in_config
        else:
            files[at(in_config)] = decoy
    files = {at(f): t for f, t in files.items() if not f.startswith(base + "/")} | {f: t for f, t in files.items() if f.startswith(base + "/")}
    if want != default:
        files[at(default)] = decoy
    files[at(want)] = good

    def two(opt, key, a, b, dflt):
        """the setting that counts: the command line, then the file"""
        use = rng.choice(["none", "cli", "config", "both"])
        if where is None and use in ("config", "both"):
            use = "cli"
        if use in ("cli", "both"):
            args.extend([opt, a])
        if use in ("config", "both"):
            cfg[key] = b
        return {"none": dflt, "cli": a, "both": a, "config": b}[use]

    def flag(opt, key):
        use = rng.choice(["none", "cli", "config", "both", "config-false", "cli-config-false"])
        if where is None and "config" in use:
            use = "cli" if "cli" in use else "none"
        if use in ("cli", "both", "cli-config-false"):
            args.append(opt)
        if use in ("config", "both"):
            cfg[key] = True
        if use.endswith("config-false"):
            cfg[key] = False
        return use in ("cli", "both", "config", "cli-config-false")
    custom = flag("--use-custom-scalars", "useCustomScalars")
    mutable = flag("--disable-readonly-types", "disableReadonlyTypes")
    warn = flag("--show-deprecation-warnings", "showDeprecationWarnings")
    pre = None
    if "--use-custom-scalars" in args:
        pre = two("--custom-scalar-prefix", "customScalarPrefix", "CliP", "CfgP", None)
    elif where is not None and rng.random() < 0.5:
        cfg["customScalarPrefix"] = pre = "CfgP"
    node = two("--typed-graphql-documentnode-module-name", "typedGraphqlDocumentnodeModuleName", "cli/node", "cfg/node", "@notarize/qlc-cli/typed-documentnode")
    two("--num-threads", "numThreads", rng.choice(["1", "3"]), rng.choice([0, 2]), None)
    if where is not None:
        files[at(where)] = json.dumps(cfg)
        if where != ".qlcrc.json":
            args += [rng.choice(["--config-file", "-c"]), where]
            if rng.random() < 0.5:
                # not the one that was asked for
                files[at(".qlcrc.json")] = json.dumps({"schemaFile": "nowhere.json", "disableReadonlyTypes": not mutable})
    case = Case(files, args, cwd=cwd).run(binary)
    out = runner.crash(case)
    if out:
        return pair(out, case)
    created = case.created()
    text = created.get(at(posixpath.join(root, "main.graphql.d.ts")))
    if case.rc != 0 or text is None:
        return pair([Diff({"C13"}, "no output, status %s: %s" % (case.rc, case.stdout[:300]))], case)
    scalar = "any" if not custom else (pre or "") + "Date"
    ro = "" if mutable else "readonly "
    for line in ["  %sid: string;" % ro, "  %sat: %s | null;" % (ro, scalar)]:
        if line not in text.split("\n"):
            out.append(Diff({"C13"}, "no line %r in %r" % (line, text)))
    if 'import type { QueryDocumentNode } from "%s";' % node not in text:
        out.append(Diff({"C13", "C10"}, "document node not imported from %r" % node))
    if ("deprecated field `old`" in case.stdout) != warn:
        out.append(Diff({"C13", "C18"}, "deprecation warnings are %s" % ("off" if warn else "on")))
    return pair(out, case)


def config_bad(rng, binary):
    """configuration that cannot be read is reported, and nothing is compiled"""
    files = {"schema.json": simple_schema(), "main.graphql": "query Main { id }\n"}
    k = rng.choice(["missing", "broken", "type", "default-broken"])
    args = ["--no-color", "."]
    if k == "missing":
        args += ["--config-file", "gone.json"]
    elif k == "default-broken":
        files[".qlcrc.json"] = rng.choice(["{", "", "[1]", "nope"])
    else:
        files["c.json"] = rng.choice(["{", "", "not json", '{"numThreads": }']) if k == "broken" else rng.choice(['{"numThreads": "x"}', '{"useCustomScalars": 1}', '{"schemaFile": {}}', '{"numThreads": -1}'])
        args += ["--config-file", "c.json"]
    case = Case(files, args).run(binary)
    out = runner.crash(case)
    if not out:
        o, body = oracle.compare_exit(case.rc, oracle.messages(case.stdout))
        out += o
        if case.rc != 1 or len(body) != 1:
            out.append(Diff({"C13"}, "unreadable configuration: status %s, %s" % (case.rc, body)))
        if case.created():
            out.append(Diff({"C13", "C20"}, "compiled with unreadable configuration: %s" % sorted(case.created())))
    return pair(out, case)


# ---- discovery (C15), outputs (C20) --------------------------------------------------------------

def tree(rng, binary):
    """a directory tree: every regular file with the extension is compiled, once, and nothing else"""
    root = rng.choice([".", "root dir", "a/b"])
    args = ["--no-color", root, "--num-threads", rng.choice(["1", "2", "4", "16"])]
    files, want, errors = {}, set(), 0
    names = ["q.graphql", "with space.graphql", "dots.in.name.graphql", "é.graphql", "UPPER.graphql", ".hidden.graphql", "x.graphql.graphql", "d.d.ts.graphql"]
    others = ["q.gql", "q.graphqls", "graphql", "q.graphql.bak", "q.GRAPHQL", "README", ".graphql", "q.graphql~", "note.ts", "stale.graphql.d.ts"]
    depth = rng.choice([1, 2, 3, 6, 12])
    dirs = [""]
    if depth == 12:
        dirs += ["/".join(["a"] * i) for i in range(1, 13)]
    for _ in range(rng.randrange(1, 8) * depth):
        d = rng.choice(dirs)
        if d.count("/") < depth:
            dirs.append(posixpath.join(d, rng.choice(["a", "b", "dir.graphql", ".hid", "node_modules", "c d"])))
    dirs = sorted(set(dirs))
    n = 0
    for d in dirs:
        for f in rng.sample(names, rng.randrange(0, 4)):
            n += 1
            files[posixpath.normpath(posixpath.join(root, d, f))] = "query Op%d { id }\n" % n
            want.add(posixpath.normpath(posixpath.join(root, d, f[:-len(".graphql")] + ".graphql.d.ts")))
        for f in rng.sample(others, rng.randrange(0, 3)):
            files.setdefault(posixpath.normpath(posixpath.join(root, d, f)), "query Not { nope }\n")
    # two documents with one output
    files[posixpath.normpath(posixpath.join(root, "schema.json"))] = simple_schema()
    files["outside.graphql" if root != "." else ".unused"] = "query Outside { nope }\n"
    for f in list(files):
        if any(g != f and g.startswith(f + "/") for g in files):
            del files[f]  # a name cannot be a file and a directory
    want = {w for w in want if w[:-len(".d.ts")] in files}
    modes, faults = {}, []
    if rng.random() < 0.3 and runner.USER:
        # a directory that may not be read
        lock = posixpath.normpath(posixpath.join(root, rng.choice(["locked", "a/locked", "locked.graphql"])))
        if lock not in files and posixpath.dirname(lock) not in files:
            files[posixpath.join(lock, "in.graphql")] = "query Locked { id }\n"
            modes[lock] = 0o000
            faults.append(lock)
    if want and rng.random() < 0.2:
        # an output that cannot be written, for it is a directory
        w = rng.choice(sorted(want))
        if w not in files:
            files[w] = None
            want.discard(w)
            faults.append(w)
    case = Case(files, args, modes=modes).run(binary)
    out = runner.crash(case)
    if out:
        return pair([Diff(d.tags | {"C15"}, d.text) for d in out], case)
    created = set(case.created())
    if case.deleted():
        out.append(Diff({"C20"}, "files deleted: %s" % case.deleted()))
    o, body = oracle.compare_exit(case.rc, oracle.messages(case.stdout))
    out += o
    for f in faults:
        if not any("could not" in m.text and "`./%s`" % f in m.text.replace("`", "`./", 1).replace("././", "./") for m in body):
            out.append(Diff({"C15"} if f in modes else {"C20"}, "%s is not reported: %s" % (f, body)))
    if len(body) != len(faults):
        out.append(Diff({"C15", "C14"}, "%d messages, expected %d: %s" % (len(body), len(faults), body)))
    if created != want:
        out.append(Diff({"C15"} if want - created else {"C15", "C20"}, "compiled %s, not %s" % (sorted(created - want), sorted(want - created))))
    for w in want & created:
        name = re.search(r"query (\w+)", files[w[:-len(".d.ts")]]).group(1)
        if "export type %s = {" % name not in case.created()[w]:
            out.append(Diff({"C15", "C20"}, "%s is not the output of its document" % w))
    if case.rc != (1 if faults else 0):
        out.append(Diff({"C15"}, "status %s: %s" % (case.rc, case.stdout[:300])))
    return pair(out, case)


def tree_errors(rng, binary):
    """every faulty document is reported exactly once, whatever the number of threads"""
    n = rng.randrange(1, 40) if rng.random() < 0.9 else rng.choice([64, 100, 128, 200, 300])
    bad = {k for k in range(n) if rng.random() < 0.3}
    warn = {k for k in range(n) if k not in bad and rng.random() < 0.3}
    files = {"schema.json": json.dumps(parse_sdl("type Query { id: ID! old: ID @deprecated }").introspection())}
    for k in range(n):
        d = rng.choice(["", "x/", "x/y/", "z/"])
        files["%sd%d.graphql" % (d, k)] = "query D%d { id %s }\n" % (k, "nope%d" % k if k in bad else "old" if k in warn else "")
    case = Case(files, ["--no-color", ".", "--show-deprecation-warnings", "--num-threads", rng.choice(["0", "1", "3", "8"])]).run(binary)
    out = runner.crash(case)
    if out:
        return pair(out, case)
    o, body = oracle.compare_exit(case.rc, oracle.messages(case.stdout))
    out += o
    got = sorted(m.text for m in body if m.level != "warning")
    want = sorted("unknown field `nope%d`" % k for k in bad)
    if got != want:
        out.append(Diff({"C14", "C15"}, "errors %s, expected %s" % (got, want)))
    if sum(m.level == "warning" for m in body) != len(warn):
        out.append(Diff({"C14", "C15", "C18"}, "%d warnings, expected %d" % (sum(m.level == "warning" for m in body), len(warn))))
    if len(case.created()) != n - len(bad):
        out.append(Diff({"C15"}, "%d outputs, expected %d" % (len(case.created()), n - len(bad))))
    return pair(out, case)


def globals_at(rng, binary):
    """where the shared types go"""
    s = parse_sdl("enum Color { RED } type Query { c: Color! id: ID }")
    root = rng.choice([".", "p", "p/q"])
    prefix = rng.choice([None, "@/", "src/", "@"])
    name = rng.choice(["graphql-globals", "gen", "types.gen", "a.b.ts", "sub/gen", "gen.js", "@scope"])
    mod = name
    args = ["--no-color", root]
    if prefix is not None:
        args += ["--root-dir-import-prefix", prefix]
        if rng.random() < 0.6:
            mod = prefix + name
    if mod != "graphql-globals":
        args += ["--global-types-module-name", mod]
    used = rng.random() < 0.7
    at = lambda q: posixpath.normpath(posixpath.join(root, q))
    files = {at("schema.json"): json.dumps(s.introspection()), at("sub/m.graphql"): "query M { %s }\n" % ("c" if used else "id")}
    rest = mod[len(prefix):] if prefix is not None and mod.startswith(prefix) else mod
    target = rest if "." in posixpath.basename(rest).lstrip(".") else rest + ".ts"
    case = Case(files, args).run(binary)
    out = runner.crash(case)
    if out:
        return pair(out, case)
    want = {at("sub/m.graphql.d.ts")} | ({at(target)} if used else set())
    created = case.created()
    if "/" in target and posixpath.dirname(at(target)) not in {posixpath.dirname(f) for f in files} and used:
        # the directory does not exist: reported, not created
        if case.rc != 1:
            out.append(Diff({"C20", "C14"}, "shared types could not be written, status %s" % case.rc))
        return pair(out, case)
    if set(created) != want:
        out.append(Diff({"C20"}, "written: %s, expected: %s" % (sorted(created), sorted(want))))
    elif used:
        if 'import type { Color } from "%s";' % mod not in created[at("sub/m.graphql.d.ts")]:
            out.append(Diff({"C10", "C20", "C13"}, "shared types are not imported from %r" % mod))
    if case.rc != 0:
        out.append(Diff({"C20"}, "status %s: %s" % (case.rc, case.stdout[:200])))
    return pair(out, case)


# ---- strange input (C16), malformed schemas (C17) ------------------------------------------------

def weird(rng, binary):
    p, args, cfg = new_project(rng)
    files, argv = runner.layout(p, args, cfg, rng)
    targets = [f for f in files if f.endswith(".graphql")]
    for _ in range(rng.randrange(1, 4)):
        f = rng.choice(targets)
        t = files[f] if isinstance(files[f], bytes) else files[f].encode()
        k = rng.randrange(12)
        i = rng.randrange(len(t) + 1)
        if k == 0:
            t = t[:i]
        elif k == 1:
            t = t[:i] + bytes(rng.randrange(256) for _ in range(rng.randrange(1, 6))) + t[i:]
        elif k == 2:
            j = rng.randrange(len(t) + 1)
            t = t[:min(i, j)] + t[max(i, j):]
        elif k == 3:
            t = t[:i] + rng.choice([b'#import "', b"\n#import \"\n", b"...", b"{", b"}", b"(", b"$", b"\"", b"@", b"\xef\xbb\xbf", b"\r", b"\0", b"#", "é".encode(), b"on ", b"fragment "]) + t[i:]
        elif k == 4:
            t = b'#import "' + rng.choice([b"", b".", b"..", b"/", b"/etc", b"./" + b"x" * 300, b"\xc3\xa9", b"\0", b'"', b"@/", b"./."]) + rng.choice([b'"\n', b"\n", b'" "\n', b'"']) + t
        elif k == 5:
            t = b"\xef\xbb\xbf" + t
        elif k == 6:
            t = t.replace(b"\n", b"\r\n")
        elif k == 7:
            t = b'#import "./' + posixpath.basename(f).encode() + b'"\n' + t
        elif k == 8:
            t = t.replace(b"{", b"{ ...Frag0 ", rng.randrange(3))
        elif k == 9:
            g = rng.choice(targets)
            t = b'#import "' + g.encode() + b'"\n' + t
        elif k == 10:
            t = re.sub(rb"\b(on|query|fragment|Query|User|Host)\b", lambda m: rng.choice([m.group(0), b"Color", b"FilterIn", b"ID", b"Nope", b"__typename"]), t)
        elif k == 11:
            n = rng.choice([5, 20])
            t = t + b"{ id " * n
        files[f] = t
    case = Case(files, argv).run(binary)
    out = runner.crash(case)
    if not out:
        out, _ = oracle.compare_exit(case.rc, oracle.messages(case.stdout))
    return pair(out, case)


def cyclic(rng, binary):
    """imports and spreads in circles end; so do input objects that contain themselves"""
    n = rng.randrange(1, 5)
    sp = rng.random() < 0.6
    files = {"schema.json": json.dumps(parse_sdl("input I { i: I j: [J!] } input J { k: K } input K { i: I! e: E } enum E { A } type Query { id: ID! peer: Query e(i: I): E }").introspection())}
    for k in range(n):
        nxt = (k + 1) % n
        files["f%d.graphql" % k] = '#import "./f%d.graphql"\nfragment F%d on Query { k%d: id peer { id %s } }\n' % (nxt, k, k, "...F%d" % nxt if sp else "")
    files["main.graphql"] = '#import "f0.graphql"\nquery Main($i: I) { id e(i: $i) ...F0 }\n'
    case = Case(files, ["--no-color", "."]).run(binary)
    out = runner.crash(case)
    if out:
        return pair([Diff(d.tags | ({"C07"} if sp else {"C08", "C09"}), d.text) for d in out], case)
    out, body = oracle.compare_exit(case.rc, oracle.messages(case.stdout))
    if sp:
        if not any("cyclic fragment" in m.text for m in body):
            out.append(Diff({"C07", "C16"}, "cyclic fragments accepted"))
    else:
        if case.rc != 0:
            out.append(Diff({"C08"}, "rejected: %s" % body))
        g = case.created().get("graphql-globals.ts", "")
        names = sorted(re.findall(r"^export \w+ (\w+)", g, re.M))
        if names != ["E", "I", "J", "K"]:
            out.append(Diff({"C09"}, "shared types are %s" % names))
    return pair(out, case)


def schema_fault(rng, binary):
    p, args, cfg = new_project(rng)
    files, argv = runner.layout(p, args, cfg, rng)
    sp = p.config.schema_path or "schema.json"
    j = json.loads(files[sp])
    types = j["data"]["__schema"]["types"]

    def of(*kinds):
        c = [t for t in types if t["kind"] in kinds]
        return rng.choice(c) if c else None

    def some_type_ref(pred):
        refs = []
        for t in types:
            for f in (t["fields"] or []) + (t["inputFields"] or []):
                r = f["type"]
                while r:
                    if pred(r):
                        refs.append(r)
                    r = r.get("ofType")
        return rng.choice(refs) if refs else None
    k = rng.choice(["fields", "inputFields", "possibleTypes", "enumValues", "kind", "ofType", "name", "refkind", "json", "no-data", "no-types", "type-no-name", "field-no-type", "empty", "missing", "drop-key"])
    raw = None
    def without(t, key):
        """null, or not there at all"""
        if rng.random() < 0.5:
            t[key] = None
        else:
            del t[key]
        # what else the type has does not make up for it
        for other in ("fields", "inputFields", "possibleTypes", "enumValues", "interfaces", "description"):
            if other != key and rng.random() < 0.3:
                if other in t and t[other] is not None and other != "description":
                    t[other] = []
                elif other in t and t[other] is None and rng.random() < 0.5:
                    t[other] = "" if other == "description" else []
    # the fault may be in a type that no document uses, and in a type of any shape
    for i in range(rng.randrange(0, 3)):
        types.insert(rng.randrange(len(types) + 1), {"kind": rng.choice(["OBJECT", "INTERFACE", "UNION", "ENUM", "INPUT_OBJECT", "SCALAR"]), "name": "Extra%d" % i, "description": None,
                     "fields": [], "inputFields": [], "interfaces": [], "enumValues": [], "possibleTypes": []})
    if k == "fields":
        without(of("OBJECT", "INTERFACE"), "fields")
    elif k == "inputFields":
        without(of("INPUT_OBJECT"), "inputFields")
    elif k == "possibleTypes":
        t = of("INTERFACE", "UNION")
        if t is None:
            return None
        without(t, "possibleTypes")
    elif k == "enumValues":
        without(of("ENUM"), "enumValues")
    elif k == "drop-key":
        t = of("OBJECT", "ENUM", "INPUT_OBJECT")
        del t[{"OBJECT": "fields", "ENUM": "enumValues", "INPUT_OBJECT": "inputFields"}[t["kind"]]]
    elif k == "kind":
        rng.choice(types)["kind"] = rng.choice(["", "object", "THING", "LIST", "NON_NULL", "OBJECTS", "INPUT", "Enum", "scalar", "INPUT_OBJECTS", " OBJECT"])
    elif k == "ofType":
        r = some_type_ref(lambda r: r["kind"] in ("LIST", "NON_NULL"))
        if r is None:
            return None
        if rng.random() < 0.5:
            r["ofType"] = None
        else:
            del r["ofType"]
    elif k == "name":
        r = some_type_ref(lambda r: r["kind"] not in ("LIST", "NON_NULL"))
        r["name"] = None
    elif k == "refkind":
        some_type_ref(lambda r: r["kind"] not in ("LIST", "NON_NULL"))["kind"] = rng.choice(["", "Enum", "INPUT", "OBJECTS"])
    elif k == "json":
        raw = files[sp][: rng.randrange(len(files[sp]) - 1)]
    elif k == "no-data":
        j = rng.choice([{}, [], {"data": None}, {"errors": []}, j["data"]["__schema"], 3])
    elif k == "no-types":
        j["data"]["__schema"]["types"] = rng.choice([None, {}, "x", [1], [None]])
    elif k == "type-no-name":
        rng.choice(types)["name"] = rng.choice([None, 3, []])
    elif k == "field-no-type":
        rng.choice([f for t in types for f in t["fields"] or []])["type"] = rng.choice([None, 3, "Int", []])
    elif k == "empty":
        raw = ""
    files[sp] = raw if raw is not None else json.dumps(j)
    if k == "missing":
        del files[sp]
    case = Case(files, argv).run(binary)
    out = runner.crash(case)
    if out:
        return pair([Diff(d.tags | {"C17"}, d.text) for d in out], case)
    o, body = oracle.compare_exit(case.rc, oracle.messages(case.stdout))
    out += o
    if case.rc != 1 or len(body) != 1 or not (("could not read" if k == "missing" else "malformed schema") in body[0].text):
        out.append(Diff({"C17"}, "[%s] status %s, %s" % (k, case.rc, body)))
    if case.created():
        out.append(Diff({"C17", "C20"}, "[%s] written with a malformed schema: %s" % (k, sorted(case.created()))))
    return pair(out, case)


def docs_nasty(rng, binary):
    """documentation that tries to leave its comment"""
    frag = ["*/", "/*", "*", "/", "**//", "\n", " ", "x", "*/ export type Z = {}; /*", "\r\n", "é", "`", "//", "@deprecated", "\t"]
    text = lambda: "".join(rng.choice(frag) for _ in range(rng.randrange(0, 9)))
    d = [text() for _ in range(8)]
    s = Schema([TypeDef("ENUM", "Color", values=["RED", "BLUE"], desc=d[0]), TypeDef("INPUT_OBJECT", "In", fields=[FieldDef("c", "Color", d[1]), FieldDef("d", "Int", d[2], True)], desc=d[3]),
                TypeDef("OBJECT", "Query", fields=[FieldDef("a", "Int", d[4], rng.random() < 0.5), FieldDef("b", ("L", "Color"), d[5]), FieldDef("q", "Query", d[6], rng.random() < 0.5), FieldDef("n", "Int", None, rng.random() < 0.5)], desc=d[7])])
    q = Doc("query", "Main", [Field("a"), Field("b"), Field("n"), Field("q", None, [Field("a"), Field("n")])], variables=[Var("i", "In")], path="m.graphql")
    p = Project(s, [q], Config())
    files, argv = runner.layout(p, [], {}, rng)
    case = Case(files, argv).run(binary)
    return pair([Diff(x.tags | {"C12"}, x.text) if x.tags & {"C05", "C09", "C03"} else x for x in runner.compare(p, case)], case)


# ---- type references, exhaustively up to a depth (C01, C02, C03, C04) -----------------------------

def refs(depth, names):
    layer = [n for n in names] + [("N", n) for n in names]
    out = list(layer)
    for _ in range(depth):
        layer = [("L", r) for r in layer] + [("N", ("L", r)) for r in layer]
        out += layer
    return out


_ALL = None


def type_refs(rng, binary, depth=5):
    """every nesting of lists and non-null up to the depth, as output, input field and variable"""
    global _ALL
    base = rng.choice(["Int", "ID", "String", "Float", "Boolean", "Date", "Color"])
    rs = refs(depth, [base])
    inp = refs(depth, [base, "In"])
    kid = refs(min(depth, 3), ["Query"])
    fields = [FieldDef("f%d" % i, r) for i, r in enumerate(rs)] + [FieldDef("g%d" % i, r) for i, r in enumerate(kid)]
    s = Schema([TypeDef("SCALAR", "Date"), TypeDef("ENUM", "Color", values=["RED"]), TypeDef("INPUT_OBJECT", "In", fields=[FieldDef("h%d" % i, r) for i, r in enumerate(inp)]),
                TypeDef("OBJECT", "Query", fields=fields)])
    c, args, cfg = Config(), [], {}
    if rng.random() < 0.5:
        c.custom, args = True, ["--use-custom-scalars"]
        if rng.random() < 0.5:
            c.prefix = "Pre"
            args += ["--custom-scalar-prefix", "Pre"]
    for k in range(6):
        r = base
        for _ in range(rng.randrange(depth, 24)):
            r = ("N", r) if not isinstance(r, tuple) and rng.random() < 0.5 else r
            r = ("L", r)
            r = ("N", r) if rng.random() < 0.5 else r
        fields.append(FieldDef("deep%d" % k, r))
        s.types["In"].fields.append(FieldDef("deep%d" % k, r))
    vs = [Var("v%d" % i, r) for i, r in enumerate(refs(1, [base, "In", "Date", "Color"]))]
    q = Doc("query", "Main", [Field(f.name, None, [Field("f0")] if f.name[0] == "g" else None) for f in fields], variables=vs, path="m.graphql")
    p = Project(s, [q], c)
    files, argv = runner.layout(p, args, cfg, rng)
    case = Case(files, argv).run(binary)
    return pair(runner.compare(p, case), case)


def leaf_names(rng, binary):
    """scalars and enums of every kind of name, each in a result, a variable and an input field"""
    c, args = Config(), []
    if rng.random() < 0.8:
        c.custom, args = True, ["--use-custom-scalars"]
        if rng.random() < 0.8:
            c.prefix = rng.choice(["Api", "P", "T_", "A", "x", "Scalar", "Custom"])
            args += ["--custom-scalar-prefix", c.prefix]
    n = rng.randrange(2, 14)
    names = gen.Names(rng, 0.9, c.prefix, gen.NOT_TYPES | {"In", "Main", "MainVariables"})
    leaves = [names("%s%d" % (rng.choice(["Scalar", "Date", "Color", "a", "Z"]), i)) for i in range(n)]
    used = set()
    types, fs, ins, vs = [], [], [], []
    for i, x in enumerate(leaves):
        scalar = rng.random() < 0.7
        if scalar and c.scalar(x) in used or not scalar and x in used:
            continue
        used |= {x, c.scalar(x)}
        types.append(TypeDef("SCALAR", x) if scalar else TypeDef("ENUM", x, values=["A", "B"]))
        refs_ = [x, ("N", x), ("L", x), ("N", ("L", x)), ("L", ("N", x)), ("N", ("L", ("N", x)))]
        fs.append(FieldDef("f%d" % i, rng.choice(refs_)))
        ins.append(FieldDef("i%d" % i, rng.choice(refs_)))
        vs.append(Var("v%d" % i, rng.choice(refs_)))
    if not types or {t.name for t in types if t.kind == "ENUM"} & {c.scalar(t.name) for t in types if t.kind == "SCALAR"} or used & {"In", "Main", "MainVariables"}:
        return None
    s = Schema(types + [TypeDef("INPUT_OBJECT", "In", fields=ins), TypeDef("OBJECT", "Query", fields=fs)])
    q = Doc("query", "Main", [Field(f.name) for f in fs], variables=vs + [Var("i", "In")], path="m.graphql")
    p = Project(s, [q], c)
    files, argv = runner.layout(p, args, {}, rng)
    case = Case(files, argv).run(binary)
    return pair(runner.compare(p, case), case)


def schema_edge(rng, binary):
    """empty lists of members are members: nothing is wrong with the schema"""
    p, args, cfg = new_project(rng)
    j = p.schema
    for i in range(rng.randrange(1, 5)):
        k = rng.choice(["OBJECT", "INTERFACE", "UNION", "ENUM", "INPUT_OBJECT", "SCALAR"])
        n = "Extra%d" % i
        j.types[n] = TypeDef(k, n, fields=[FieldDef("x", "Int")] if k in ("OBJECT", "INTERFACE", "INPUT_OBJECT") and rng.random() < 0.3 else [])
    files, argv = runner.layout(p, args, cfg, rng)
    sp = p.config.schema_path or "schema.json"
    js = json.loads(files[sp])
    for t in js["data"]["__schema"]["types"]:
        # members that the kind does not call for do not matter, and neither does what else is said
        if rng.random() < 0.2:
            for key, kinds in (("fields", ("OBJECT", "INTERFACE")), ("inputFields", ("INPUT_OBJECT",)), ("possibleTypes", ("INTERFACE", "UNION")), ("enumValues", ("ENUM",))):
                if t["kind"] not in kinds and rng.random() < 0.5:
                    if rng.random() < 0.5:
                        t[key] = []
                    else:
                        t.pop(key, None)
            t["appliedDirectives"] = [{"name": "x"}]
            t.pop("interfaces", None)
    files[sp] = json.dumps(js)
    case = Case(files, argv).run(binary)
    return pair([Diff(d.tags | {"C17"}, d.text) if d.tags & {"C07"} else d for d in runner.compare(p, case)], case)


# ---- which scenarios are evidence about which property ---------------------------------------------

SCENARIOS = {
    "C01": [(type_refs, 60), (project, 1500), (deep, 300)],
    "C02": [(type_refs, 40), (project, 1500), (inputs, 1000), (leaf_names, 600)],
    "C03": [(type_refs, 60), (project, 1000), (inputs, 1500)],
    "C04": [(type_refs, 30), (leaf_names, 2500), (project, 1200), (inputs, 500)],
    "C05": [(abstract, 2500), (project, 1500), (deep, 1000)],
    "C06": [(abstract, 4500), (project, 800), (deep, 800)],
    "C07": [(fault, 4000), (cyclic, 100), (imports, 500), (project, 800), (deep, 300), (schema_edge, 200)],
    "C08": [(imports, 4500), (cyclic, 200), (project, 600)],
    "C09": [(inputs, 3500), (project, 1200), (cyclic, 200)],
    "C10": [(project, 1800), (globals_at, 600), (inputs, 600), (leaf_names, 300)],
    "C11": [(determinism, 900), (inputs, 500)],
    "C12": [(docs_nasty, 3500), (project, 1000)],
    "C13": [(config, 3000), (config_bad, 400), (project, 800), (globals_at, 500)],
    "C14": [(tree_errors, 600), (fault, 2000), (project, 600), (config_bad, 300), (tree, 200)],
    "C15": [(tree, 1000), (tree_errors, 800)],
    "C16": [(weird, 2500), (cyclic, 300), (fault, 800), (imports, 600), (schema_fault, 400)],
    "C17": [(schema_fault, 2500), (schema_edge, 800), (project, 500)],
    "C18": [(project, 1500), (abstract, 2000), (deep, 800), (tree_errors, 200)],
    "C19": [(fault, 3000), (imports, 1500), (project, 800), (abstract, 500)],
    "C20": [(globals_at, 1500), (tree, 600), (project, 800)],
}
