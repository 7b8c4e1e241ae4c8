"""What qlc has to emit for a project, computed from the GraphQL specification alone, and the
comparison with what it did emit. A difference is a Diff(tags, text): tags are the properties it
can be evidence against."""
import os
import posixpath
import re

import tsread
from gql import BUILTIN, Field, Inline, Spread, named, ref_str


class Diff:
    def __init__(self, tags, text):
        self.tags, self.text = set(tags), text

    def __repr__(self):
        return "%s: %s" % (",".join(sorted(self.tags)), self.text)


class Config:
    """The effective configuration"""

    def __init__(self):
        self.readonly = True
        self.custom = False
        self.prefix = None
        self.import_prefix = None
        self.globals_module = "graphql-globals"
        self.typed_module = "@notarize/qlc-cli/typed-documentnode"
        self.deprecations = False
        self.root = "."          # as given on the command line
        self.schema_path = None  # relative to the working directory

    def scalar(self, name):
        if name in BUILTIN:
            return BUILTIN[name]
        if not self.custom:
            return "any"
        return (self.prefix or "") + name


# ---- expected ---------------------------------------------------------------------------------

class Entry:
    def __init__(self):
        self.defs, self.subs = [], []


class Expect:
    """Expectation of one document file"""

    def __init__(self):
        self.errors = []      # (name mentioned, (line, col) or None)
        self.warnings = []    # ("narrow", spread type, pos) / ("deprecated", field, pos)
        self.alts = None      # the set of alternatives of the data type
        self.keydocs = {}
        self.variables = None
        self.used = set()
        self.kind = self.name = None
        self.covariant = False


class Project:
    def __init__(self, schema, docs, config):
        self.schema, self.docs, self.config = schema, docs, config
        self.by_path = {d.path: d for d in docs}

    # ---- imports
    def resolve(self, doc, text):
        c = self.config
        if c.import_prefix is not None and text.startswith(c.import_prefix):
            return posixpath.normpath(text[len(c.import_prefix):])
        if text.startswith("."):
            return posixpath.normpath(posixpath.join(posixpath.dirname(doc.path), text))
        return posixpath.normpath(text)

    def scope(self, doc):
        """Fragments in scope: those of the files imported, directly or not"""
        seen, todo, missing = {}, [doc], []
        files = set()
        while todo:
            d = todo.pop()
            for i in d.imports:
                p = self.resolve(d, i)
                if p in files:
                    continue
                files.add(p)
                t = self.by_path.get(p)
                if t is None:
                    missing.append((d, i))
                else:
                    if t.kind == "fragment":
                        seen[t.name] = t
                    todo.append(t)
        return seen, missing, files

    def expect(self, doc):
        e = Expect()
        e.kind, e.name = doc.kind, doc.name or {"query": "Query", "mutation": "Mutation", "subscription": "Subscription"}.get(doc.kind)
        frags, missing, files = self.scope(doc)
        root = doc.root_type()
        entries = {t: {} for t in self.schema.possible(root)}
        self.collect(e, frags, entries, doc.sels, root, list(entries), 0)
        e.alts = self.alts(e, frags, entries, (e.name,))
        if doc.variables:
            e.variables = {}
            for v in doc.variables:
                e.variables[v.name] = (not (v.ref[0] == "N" and not isinstance(v.ref, str)), self.ty(e, v.ref, None))
        return e

    def collect(self, e, frags, entries, sels, parent, concretes, jump):
        """jump: 0 in the document itself, 1 at a spread of it, 2 further in"""
        for s in sels:
            if isinstance(s, Field):
                fd = self.schema.field(parent, s.name)
                for t in concretes:
                    en = entries[t].setdefault(s.key, Entry())
                    en.defs.append(fd)
                    if s.sels:
                        en.subs.append((s.sels, jump))
                if s.sels:
                    # warnings of the sub selection, once, whatever is merged with it
                    sub = named(fd.ref)
                    scratch = {t: {} for t in self.schema.possible(sub)}
                    self.collect(e, frags, scratch, s.sels, sub, list(scratch), jump)
                if fd.deprecated and jump == 0 and self.config.deprecations:
                    e.warnings.append(("deprecated", fd.name, s.pos))
                continue
            if isinstance(s, Inline):
                on, sub, j = s.on, s.sels, (0 if jump == 0 else 2)
            else:
                f = frags[s.name]
                on, sub, j = f.on, f.sels, (1 if jump == 0 else 2)
            poss = self.schema.possible(on)
            narrowed = [t for t in poss if t in concretes]
            if j != 2 and not narrowed:
                e.warnings.append(("narrow", on, s.pos))
            inner = {t: entries[t] for t in narrowed}
            self.collect(e, frags, inner, sub, on, narrowed, j)

    def merged(self, frags, entry):
        sub = named(entry.defs[0].ref)
        entries = {t: {} for t in self.schema.possible(sub)}
        quiet = Expect()
        for sels, jump in entry.subs:
            self.collect(quiet, frags, entries, sels, sub, list(entries), 2)
        return entries

    def alts(self, e, frags, entries, path):
        out = set()
        for t, keys in entries.items():
            shape = []
            for key, en in keys.items():
                fd = en.defs[0]
                e.keydocs.setdefault((path, key), set()).update((d.desc, d.deprecated) for d in en.defs)
                if fd.name == "__typename":
                    shape.append((key, ("lit", t)))
                elif self.schema.is_complex(named(fd.ref)):
                    inner = self.alts(e, frags, self.merged(frags, en), path + (key,))
                    shape.append((key, self.ty(e, fd.ref, inner)))
                else:
                    shape.append((key, self.ty(e, fd.ref, None)))
            out.add(frozenset(shape))
        return frozenset(out)

    def ty(self, e, ref, inner):
        if isinstance(ref, str):
            return ("null", self.bare(e, ref, inner))
        if ref[0] == "N":
            x = ref[1]
            return self.bare(e, x, inner) if isinstance(x, str) else ("list", self.ty(e, x[1], inner))
        return ("null", ("list", self.ty(e, ref[1], inner)))

    def bare(self, e, name, inner):
        if inner is not None:
            return ("obj", inner)
        if self.schema.kind(name) == "SCALAR":
            return ("name", self.config.scalar(name))
        e.used.add(name)
        return ("name", name)

    # ---- globals
    def closure(self, names):
        out, todo = set(), list(names)
        while todo:
            n = todo.pop()
            if n in out:
                continue
            out.add(n)
            t = self.schema.types[n]
            if t.kind == "INPUT_OBJECT":
                todo += [named(f.ref) for f in t.fields if self.schema.kind(named(f.ref)) in ("ENUM", "INPUT_OBJECT")]
        return out


# ---- reading what was emitted --------------------------------------------------------------------

def norm_doc(desc, deprecated):
    text = (desc or "") + ("@deprecated" if deprecated else "")
    return re.sub(r"[\s*/]", "", text)


def doc_text(comment):
    return "" if comment is None else re.sub(r"[\s*/]", "", comment)


class Seen:
    """The emitted module, with local aliases resolved"""

    def __init__(self, module, globals_mod=None):
        self.m = module
        self.docs = {}

    def alts(self, ty, path=(), depth=0):
        if depth > 60:
            raise tsread.Bad("cyclic alias")
        if ty[0] == "ref" and len(ty) == 2 and ty[1] in self.m.types:
            return self.alts(self.m.types[ty[1]][0], path, depth + 1)
        if ty[0] == "union":
            out = frozenset()
            for p in ty[1]:
                out |= self.alts(p, path, depth + 1)
            return out
        if ty[0] == "obj":
            names = [m.name for m in ty[1]]
            if len(set(names)) != len(names):
                raise tsread.Bad("duplicate property in one object type: %s" % sorted(names))
            lits = None
            for m in ty[1]:
                if m.optional:
                    raise tsread.Bad("optional property `%s` in data" % m.name)
                self.docs.setdefault((path, m.name), []).append((m.doc, m.readonly))
                l = self.literals(m.ty)
                if l is not None:
                    if lits is not None and lits != l:
                        raise tsread.Bad("type names disagree: %s %s" % (lits, l))
                    lits = l
            out = set()
            for t in (lits or [None]):
                shape = []
                for m in ty[1]:
                    if self.literals(m.ty) is not None:
                        shape.append((m.name, ("lit", t)))
                    else:
                        shape.append((m.name, self.canon(m.ty, path + (m.name,), depth + 1)))
                out.add(frozenset(shape))
            return frozenset(out)
        raise tsread.Bad("data type is %r" % (ty,))

    def literals(self, ty):
        parts = ty[1] if ty[0] == "union" else [ty]
        if all(p[0] == "lit" for p in parts):
            return tuple(p[1] for p in parts)
        return None

    def canon(self, ty, path=(), depth=0):
        if ty[0] == "union":
            rest = [p for p in ty[1] if p != ("ref", "null")]
            if len(rest) != 1 or len(ty[1]) != 2:
                raise tsread.Bad("unexpected union %r" % (ty,))
            inner = self.canon(rest[0], path, depth)
            return inner if inner[0] == "null" else ("null", inner)
        if ty[0] == "arr":
            return ("list", self.canon(ty[1], path, depth))
        if ty[0] == "ref" and len(ty) == 2:
            if ty[1] in self.m.types:
                return ("obj", self.alts(ty, path, depth))
            return ("name", ty[1])
        raise tsread.Bad("unexpected type %r" % (ty,))


# ---- comparing -----------------------------------------------------------------------------------

def show(x):
    if isinstance(x, frozenset):
        return "<" + " or ".join(sorted("{" + "; ".join("%s: %s" % (k, show(v)) for k, v in sorted(s, key=lambda kv: kv[0])) + "}" for s in x)) + ">"
    if x[0] == "null":
        return show(x[1]) + " | null"
    if x[0] == "list":
        return "(" + show(x[1]) + ")[]"
    if x[0] == "lit":
        return '"%s"' % x[1]
    if x[0] == "obj":
        return show(x[1])
    return str(x[1])


def wraps(t):
    w = []
    while t[0] in ("null", "list"):
        w.append(t[0])
        t = t[1]
    return w, t


def keys_only(alts):
    """alternatives with leaf types and wrappers left out"""
    return frozenset(frozenset((k, keys_only(wraps(v)[1][1]) if wraps(v)[1][0] == "obj" else (wraps(v)[1][1] if wraps(v)[1][0] == "lit" else None)) for k, v in s) for s in alts)


def key_paths(alts, path=()):
    out = set()
    for s in alts:
        for k, v in s:
            out.add(path + (k,))
            b = wraps(v)[1]
            if b[0] == "obj":
                out |= key_paths(b[1], path + (k,))
    return out


def facts(alts, path=()):
    """(wrappers by path, leaves by path)"""
    w, l = set(), set()
    for s in alts:
        for k, v in s:
            ws, b = wraps(v)
            w.add((path + (k,), tuple(ws)))
            if b[0] == "obj":
                w2, l2 = facts(b[1], path + (k,))
                w |= w2
                l |= l2
            else:
                l.add((path + (k,), b))
    return w, l


def classify(want, got):
    if want == got:
        return set()
    tags = set()
    if key_paths(want) != key_paths(got):
        tags.add("C05")
    else:
        ww, wl = facts(want)
        gw, gl = facts(got)
        if ww != gw:
            tags.add("C01")
        if {x for x in wl if x[1][0] != "lit"} != {x for x in gl if x[1][0] != "lit"}:
            tags.add("C04")
    if keys_only(want) != keys_only(got):
        tags.add("C06")
        if len(want) == 1:
            tags.add("C05")
    return tags or {"C06"}


NODE = {"query": "QueryDocumentNode", "mutation": "MutationDocumentNode", "fragment": "FragmentDocumentNode", "subscription": "SubscriptionDocumentNode"}


def compare_doc(project, doc, e, text):
    c = project.config
    out = []
    try:
        m = tsread.read(text)
        seen = Seen(m)
    except tsread.Bad as x:
        tags = {"C05", "C12"}
        if "duplicate declaration" in str(x):
            tags = {"C05", "C06"}
        return [Diff(tags, "%s: unreadable output: %s" % (doc.path, x))]
    where = doc.path
    try:
        if e.name not in m.types:
            return [Diff({"C05", "C10"}, "%s: no type `%s`" % (where, e.name))]
        got = seen.alts(("ref", e.name), (e.name,))
        tags = classify(e.alts, got)
        if tags:
            out.append(Diff(tags, "%s: data type is %s, expected %s" % (where, show(got), show(e.alts))))
        else:
            for (path, key), ms in seen.docs.items():
                want = {norm_doc(d, dep) for d, dep in e.keydocs.get((path, key), ())}
                for doc_comment, ro in ms:
                    if doc_text(doc_comment) not in want:
                        out.append(Diff({"C12"}, "%s: documentation of `%s` is %r, expected one of %s" % (where, key, doc_comment, sorted(want))))
                    if ro != c.readonly:
                        out.append(Diff({"C13"}, "%s: readonly of `%s` is %s" % (where, key, ro)))
    except tsread.Bad as x:
        out.append(Diff({"C05", "C06"}, "%s: %s" % (where, x)))
    vname = e.name + "Variables"
    try:
        if e.variables is None:
            if vname in m.types:
                out.append(Diff({"C02"}, "%s: variables type without variables" % where))
        elif vname not in m.types or m.types[vname][0][0] != "obj":
            out.append(Diff({"C02"}, "%s: no variables type" % where))
        else:
            ms = m.types[vname][0][1]
            got = {x.name: (x.optional, seen.canon(x.ty)) for x in ms}
            if len(got) != len(ms):
                out.append(Diff({"C02"}, "%s: duplicate variable" % where))
            if got != e.variables:
                tags = {"C02"}
                if any(k in got and wraps(got[k][1])[1] != wraps(v[1])[1] for k, v in e.variables.items()):
                    tags.add("C04")
                out.append(Diff(tags, "%s: variables are %s, expected %s" % (where, {k: (o, show(v)) for k, (o, v) in got.items()}, {k: (o, show(v)) for k, (o, v) in e.variables.items()})))
    except tsread.Bad as x:
        out.append(Diff({"C02"}, "%s: %s" % (where, x)))
    # names that nothing declares or imports
    imported = {n for names, _ in m.imports for n in names}
    node = NODE[doc.kind] if doc.kind != "subscription" else None
    want_imports = [([node], c.typed_module)]
    if e.used:
        want_imports.append((sorted(e.used), c.globals_module))
    got_imports = [(sorted(n), mod) for n, mod in m.imports]
    if doc.kind == "subscription":
        # known finding K1: which node type is imported
        want_imports, got_imports = want_imports[1:], got_imports[1:]
    if sorted(got_imports) != sorted((sorted(n), mod) for n, mod in want_imports):
        tags = {"C10"}
        if {mod for _, mod in got_imports} != {mod for _, mod in want_imports}:
            tags.add("C13")
        out.append(Diff(tags, "%s: imports are %s, expected %s" % (where, got_imports, want_imports)))
    if len(imported) != sum(len(n) for n, _ in m.imports):
        out.append(Diff({"C10"}, "%s: imported twice" % where))
    if m.annotation is None or m.exported is None:
        out.append(Diff({"C10"}, "%s: no document node" % where))
    else:
        args = [("ref", e.name)]
        if doc.kind != "fragment":
            args.append(("ref", vname if e.variables is not None else "never"))
        a = m.annotation
        if len(a) != 3 or list(a[2]) != args or (node is not None and a[1] != node):
            out.append(Diff({"C10"}, "%s: document node is annotated %r" % (where, a)))
    if m.enums:
        out.append(Diff({"C09"}, "%s: enum declared in a document module" % where))
    return out


def compare_globals(project, names, text):
    out = []
    c = project.config
    want = project.closure(names)
    if text is None:
        return [Diff({"C09", "C20"}, "no global types file, expected %s" % sorted(want))] if want else []
    try:
        m = tsread.read(text)
    except tsread.Bad as x:
        return [Diff({"C03", "C09", "C12"}, "unreadable global types: %s" % x)]
    got = set(m.types) | set(m.enums)
    if got != want:
        out.append(Diff({"C09"}, "global types are %s, expected %s" % (sorted(got), sorted(want))))
    if m.imports or m.annotation:
        out.append(Diff({"C09"}, "global types file imports or declares something"))
    seen = Seen(m)
    seen.m = type("M", (), {"types": {}})()  # references stay names
    for n in sorted(got & want):
        t = project.schema.types[n]
        if t.kind == "ENUM":
            if n not in m.enums:
                out.append(Diff({"C09", "C04"}, "`%s` is not an enum" % n))
                continue
            vs, doc = m.enums[n]
            if sorted(vs) != sorted((v, v) for v in t.values):
                out.append(Diff({"C04"}, "enum `%s` has %s, expected %s" % (n, vs, t.values)))
            if doc_text(doc) != norm_doc(t.desc, False):
                out.append(Diff({"C12"}, "documentation of enum `%s` is %r, expected %r" % (n, doc, t.desc)))
        else:
            if n not in m.types or m.types[n][0][0] != "obj":
                out.append(Diff({"C03", "C09"}, "`%s` is not an object type" % n))
                continue
            ms = m.types[n][0][1]
            e = Expect()
            want_f = {f.name: (not (not isinstance(f.ref, str) and f.ref[0] == "N"), project.ty(e, f.ref, None)) for f in t.fields}
            try:
                got_f = {x.name: (x.optional, seen.canon(x.ty)) for x in ms}
            except tsread.Bad as x:
                out.append(Diff({"C03"}, "`%s`: %s" % (n, x)))
                continue
            if got_f != want_f or len(ms) != len(got_f):
                tags = {"C03"}
                if any(k in got_f and wraps(got_f[k][1])[1] != wraps(v[1])[1] for k, v in want_f.items()):
                    tags.add("C04")
                out.append(Diff(tags, "input object `%s` has %s, expected %s" % (n, {k: (o, show(v)) for k, (o, v) in got_f.items()}, {k: (o, show(v)) for k, (o, v) in want_f.items()})))
            else:
                for x in ms:
                    f = t.field(x.name)
                    if doc_text(x.doc) != norm_doc(f.desc, f.deprecated):
                        out.append(Diff({"C12"}, "documentation of `%s.%s` is %r" % (n, x.name, x.doc)))
    return out


# ---- messages ------------------------------------------------------------------------------------

MSG = re.compile(r"^(warning|error|program error): (.*)$")
LOC = re.compile(r"^ *--> (.*?)(?::(\d+)(?::(\d+))?)?$")


class Message:
    def __init__(self, level, text):
        self.level, self.text = level, text
        self.file = self.line = self.col = self.source = self.caret = None
        self.help = None

    def __repr__(self):
        return "%s: %s (%s:%s:%s)" % (self.level, self.text, self.file, self.line, self.col)


def messages(stdout):
    out = []
    prev = None
    for line in stdout.split("\n"):
        m = MSG.match(line)
        if m:
            prev = Message(m.group(1), m.group(2))
            out.append(prev)
            continue
        if prev is None:
            continue
        m = LOC.match(line)
        if m and prev.file is None:
            prev.file = m.group(1)
            prev.line = int(m.group(2)) if m.group(2) else None
            prev.col = int(m.group(3)) if m.group(3) else None
            continue
        m = re.match(r"^(\d+) \| (.*)$", line)
        if m and prev.source is None:
            prev.source = (int(m.group(1)), m.group(2))
            continue
        m = re.match(r"^ *\| ( *)\^$", line)
        if m:
            prev.caret = len(m.group(1)) + 1
            continue
        m = re.match(r"^ *= help: (.*)$", line)
        if m:
            prev.help = m.group(1)
    return out


def tail(msgs):
    """split off the two closing counts"""
    errors = warnings = None
    body = list(msgs)
    if body and body[-1].level == "warning":
        m = re.fullmatch(r"(\d+) warning(s?) emitted", body[-1].text)
        if m:
            warnings = (int(m.group(1)), m.group(2))
            body.pop()
    if body and body[-1].level == "error":
        m = re.fullmatch(r"failure due to (\d+) error(s?)", body[-1].text)
        if m:
            errors = (int(m.group(1)), m.group(2))
            body.pop()
    return body, errors, warnings


def compare_exit(rc, msgs):
    """C14: the status and the counts say what was printed"""
    out = []
    body, errors, warnings = tail(msgs)
    ne = sum(m.level != "warning" for m in body)
    nw = sum(m.level == "warning" for m in body)
    if rc != (1 if ne else 0):
        out.append(Diff({"C14"}, "exit status %s with %d errors" % (rc, ne)))
    if errors != ((ne, "s" if ne > 1 else "") if ne else None):
        out.append(Diff({"C14"}, "%d errors printed, count says %s" % (ne, errors)))
    if warnings != ((nw, "s" if nw > 1 else "") if nw else None):
        out.append(Diff({"C14"}, "%d warnings printed, count says %s" % (nw, warnings)))
    return out, body
