"""Schema and document model of the replay harness: data classes, printers, SDL reader.

Nothing in here knows how qlc works; it is plain GraphQL (October 2021 spec).
"""
import json
import re

BUILTIN = {"Int": "number", "Float": "number", "String": "string", "ID": "string", "Boolean": "boolean"}


# ---- type references -------------------------------------------------------------------------
# a type reference is a name (str), ("L", ref) or ("N", ref)

def named(ref):
    while not isinstance(ref, str):
        ref = ref[1]
    return ref


def ref_str(ref):
    if isinstance(ref, str):
        return ref
    if ref[0] == "L":
        return "[" + ref_str(ref[1]) + "]"
    return ref_str(ref[1]) + "!"


def parse_ref(text):
    text = text.strip()
    if text.endswith("!"):
        return ("N", parse_ref(text[:-1]))
    if text.startswith("["):
        assert text.endswith("]"), text
        return ("L", parse_ref(text[1:-1]))
    return text


class FieldDef:
    def __init__(self, name, ref, desc=None, deprecated=False):
        self.name, self.ref, self.desc, self.deprecated = name, ref, desc, deprecated


class TypeDef:
    def __init__(self, kind, name, fields=None, possible=None, values=None, desc=None):
        # kind: OBJECT INTERFACE UNION ENUM SCALAR INPUT_OBJECT
        self.kind, self.name = kind, name
        self.fields = fields or []
        self.possible = possible or []
        self.values = values or []
        self.desc = desc

    def field(self, name):
        for f in self.fields:
            if f.name == name:
                return f
        return None


class Schema:
    def __init__(self, types):
        self.types = {t.name: t for t in types}
        for b in BUILTIN:
            self.types.setdefault(b, TypeDef("SCALAR", b))

    def kind(self, name):
        return self.types[name].kind if name in self.types else None

    def is_complex(self, name):
        return self.kind(name) in ("OBJECT", "INTERFACE", "UNION")

    def possible(self, name):
        t = self.types[name]
        return [name] if t.kind == "OBJECT" else list(t.possible)

    def field(self, type_name, field_name):
        """FieldDef of a selectable field, the meta field included; None if there is none"""
        t = self.types.get(type_name)
        if t is None or t.kind not in ("OBJECT", "INTERFACE", "UNION"):
            return None
        if field_name == "__typename":
            return FieldDef("__typename", ("N", "__typename"))
        if t.kind == "UNION":
            return None
        return t.field(field_name)

    def ref_json(self, ref):
        if isinstance(ref, str):
            return {"kind": self.kind(ref) or "OBJECT", "name": ref, "ofType": None}
        return {"kind": "LIST" if ref[0] == "L" else "NON_NULL", "name": None, "ofType": self.ref_json(ref[1])}

    def introspection(self, rng=None):
        types = []
        for t in self.types.values():
            j = {"kind": t.kind, "name": t.name, "description": t.desc, "fields": None, "inputFields": None,
                 "interfaces": None, "enumValues": None, "possibleTypes": None}
            if t.kind in ("OBJECT", "INTERFACE"):
                j["fields"] = [{"name": f.name, "description": f.desc, "args": [], "type": self.ref_json(f.ref),
                                "isDeprecated": f.deprecated, "deprecationReason": "x" if f.deprecated else None}
                               for f in t.fields]
                if rng:
                    rng.shuffle(j["fields"])
            if t.kind == "INPUT_OBJECT":
                j["inputFields"] = [{"name": f.name, "description": f.desc, "type": self.ref_json(f.ref),
                                     "isDeprecated": f.deprecated, "defaultValue": None} for f in t.fields]
                if rng:
                    rng.shuffle(j["inputFields"])
            if t.kind in ("INTERFACE", "UNION"):
                j["possibleTypes"] = [{"kind": "OBJECT", "name": p, "ofType": None} for p in t.possible]
                if rng:
                    rng.shuffle(j["possibleTypes"])
            if t.kind == "ENUM":
                # what is said about a value, and its deprecation, is not part of the output
                odd = lambda: rng is not None and rng.random() < 0.2
                j["enumValues"] = [{"name": v, "description": "*/ about " + v if odd() else None, "isDeprecated": odd(), "deprecationReason": None} for v in t.values]
                if rng:
                    rng.shuffle(j["enumValues"])
            types.append(j)
        extra = {}
        if rng and rng.random() < 0.3:
            # as servers answer it
            s = {"kind": "NON_NULL", "name": None, "ofType": {"kind": "SCALAR", "name": "String", "ofType": None}}
            types.append({"kind": "OBJECT", "name": "__Schema", "description": "meta", "inputFields": None, "interfaces": [], "enumValues": None, "possibleTypes": None, "specifiedByURL": None,
                          "fields": [{"name": "types", "description": None, "args": [{"name": "a", "description": None, "type": s, "defaultValue": "1"}], "isDeprecated": False, "deprecationReason": None,
                                      "type": {"kind": "LIST", "name": None, "ofType": {"kind": "OBJECT", "name": "__Schema", "ofType": None}}}]})
            types.append({"kind": "ENUM", "name": "__TypeKind", "description": None, "fields": None, "inputFields": None, "interfaces": None, "possibleTypes": None,
                          "enumValues": [{"name": "SCALAR", "description": None, "isDeprecated": False, "deprecationReason": None}]})
            extra = {"mutationType": {"name": "Mutation"}, "subscriptionType": None, "directives": [{"name": "skip", "locations": ["FIELD"], "args": []}]}
        if rng:
            rng.shuffle(types)
        return {"data": {"__schema": dict({"queryType": {"name": "Query"}, "types": types}, **extra)}}


# ---- documents -------------------------------------------------------------------------------

class Field:
    def __init__(self, name, alias=None, sels=None, args="", directives=""):
        self.name, self.alias, self.sels, self.args, self.directives = name, alias, sels or [], args, directives
        self.pos = None

    @property
    def key(self):
        return self.alias or self.name


class Inline:
    def __init__(self, on, sels, directives=""):
        self.on, self.sels, self.directives = on, sels, directives
        self.pos = None


class Spread:
    def __init__(self, name, directives=""):
        self.name, self.directives = name, directives
        self.pos = None


class Var:
    def __init__(self, name, ref, default=None):
        self.name, self.ref, self.default = name, ref, default
        self.pos = None


class Doc:
    """One document file.  kind: query mutation subscription fragment anonymous (a bare selection set)"""

    def __init__(self, kind, name, sels, on=None, variables=None, imports=None, path=None):
        self.kind, self.name, self.sels, self.on = kind, name, sels, on
        self.variables = variables or []
        self.imports = imports or []      # import strings, as written between the quotes
        self.path = path                  # path relative to the project root
        self.header = None                # raw header text instead of one import line each

    def root_type(self):
        return {"query": "Query", "mutation": "Mutation", "subscription": "Query",
                "fragment": self.on, "anonymous": "Query"}[self.kind]


class Printer:
    """Prints a document, recording the 1-based line and column of each node."""

    def __init__(self, rng=None):
        self.rng, self.out, self.line, self.col = rng, [], 1, 1

    def w(self, text):
        self.out.append(text)
        for ch in text:
            if ch == "\n":
                self.line, self.col = self.line + 1, 1
            else:
                self.col += 1

    def here(self):
        return (self.line, self.col)

    def sep(self, indent):
        r = self.rng
        if r is None:
            self.w("\n" + "  " * indent)
            return
        k = r.random()
        if k < 0.6:
            self.w("\n" + "  " * indent)
        elif k < 0.7:
            self.w(" ")
        elif k < 0.8:
            self.w(", ")
        elif k < 0.9:
            self.w(" # note { } on \"x\"\n" + " " * r.randrange(4))
        else:
            self.w("\n\n" + " " * r.randrange(6))

    def sels(self, sels, indent):
        self.w("{")
        for s in sels:
            self.sep(indent)
            if isinstance(s, Field):
                s.pos = self.here()
                if s.alias:
                    self.w(s.alias + ":" + ("" if self.rng and self.rng.random() < 0.2 else " "))
                self.w(s.name + s.args)
                if s.directives:
                    self.w(" " + s.directives)
                if s.sels:
                    self.w(" ")
                    self.sels(s.sels, indent + 1)
            elif isinstance(s, Inline):
                # the position of a fragment is that of the token after the dots
                self.w("...")
                if s.on is not None:
                    self.w(" ")
                    s.pos = self.here()
                    self.w("on " + s.on)
                else:
                    s.pos = (self.line, self.col + 1)
                if s.directives:
                    self.w(" " + s.directives)
                self.w(" ")
                self.sels(s.sels, indent + 1)
            else:
                self.w("...")
                s.pos = self.here()
                self.w(s.name)
                if s.directives:
                    self.w(" " + s.directives)
        self.w("\n" + "  " * (indent - 1) + "}")

    def doc(self, d):
        if d.header is not None:
            self.w(d.header)
        else:
            for i in d.imports:
                self.w('#import "%s"\n' % i)
        d.pos = self.here()
        if d.kind == "fragment":
            self.w("fragment %s on %s " % (d.name, d.on))
        elif d.kind != "anonymous":
            self.w(d.kind + ((" " + d.name) if d.name else ""))
            if d.variables:
                self.w("(")
                for i, v in enumerate(d.variables):
                    if i:
                        self.w(", ")
                    v.pos = self.here()
                    self.w("$%s: %s" % (v.name, ref_str(v.ref)))
                    if v.default is not None:
                        self.w(" = " + v.default)
                self.w(")")
            self.w(" ")
        self.sels(d.sels, 1)
        self.w("\n")
        return "".join(self.out)


def print_doc(d, rng=None):
    return Printer(rng).doc(d)


# ---- SDL reader (enough for tests/fixtures/schema_generation/schema.graphql) -------------------

_TOK = re.compile(r'"""(?:.|\n)*?"""|"(?:[^"\\\n]|\\.)*"|[A-Za-z_][A-Za-z_0-9]*|#[^\n]*|[^\s,]')


def parse_sdl(text):
    toks = [t for t in _TOK.findall(text) if not t.startswith("#")]
    pos = 0
    types, implements = {}, {}

    def peek():
        return toks[pos] if pos < len(toks) else None

    def take(want=None):
        nonlocal pos
        t = toks[pos]
        assert want is None or t == want, (t, want, toks[pos - 5:pos + 5])
        pos += 1
        return t

    def description():
        if peek() and peek().startswith('"'):
            t = take()
            return t[3:-3].strip() if t.startswith('"""') else t[1:-1]
        return None

    def ref():
        if peek() == "[":
            take()
            r = ("L", ref())
            take("]")
        else:
            r = take()
        if peek() == "!":
            take()
            r = ("N", r)
        return r

    def parens():
        depth = 0
        while True:
            t = take()
            depth += t == "("
            depth -= t == ")"
            if depth == 0:
                return

    def directives():
        names = []
        while peek() == "@":
            take()
            names.append(take())
            if peek() == "(":
                parens()
        return names

    while peek() is not None:
        desc = description()
        kw = take()
        if kw == "schema":
            take("{")
            while take() != "}":
                pass
            continue
        name = take()
        if kw == "scalar":
            directives()
            types[name] = TypeDef("SCALAR", name, desc=desc)
        elif kw == "union":
            directives()
            take("=")
            members = []
            while True:
                if peek() == "|":
                    take()
                members.append(take())
                if peek() != "|":
                    break
            types[name] = TypeDef("UNION", name, possible=members, desc=desc)
        elif kw == "enum":
            directives()
            take("{")
            values = []
            while peek() != "}":
                description()
                values.append(take())
                directives()
            take("}")
            types[name] = TypeDef("ENUM", name, values=values, desc=desc)
        else:
            if peek() == "implements":
                take()
                while peek() not in ("{", "@"):
                    t = take()
                    if t != "&":
                        implements.setdefault(t, []).append(name)
            directives()
            take("{")
            fields = []
            while peek() != "}":
                fd = description()
                fname = take()
                if peek() == "(":
                    parens()
                take(":")
                fref = ref()
                if peek() == "=":
                    take()
                    take()
                fields.append(FieldDef(fname, fref, fd, "deprecated" in directives()))
            take("}")
            kind = {"type": "OBJECT", "interface": "INTERFACE", "input": "INPUT_OBJECT"}[kw]
            types[name] = TypeDef(kind, name, fields=fields, desc=desc)
    for iface, impls in implements.items():
        types[iface].possible = impls
    return Schema(list(types.values()))


if __name__ == "__main__":
    import sys
    print(json.dumps(parse_sdl(open(sys.argv[1]).read()).introspection()))
