"""Reader of the TypeScript that qlc emits. Strict: anything it does not know is an error."""
import re

TOK = re.compile(
    r'(?P<ws>\s+)|(?P<doc>/\*(?:.|\n)*?\*/)|(?P<line>//[^\n]*)|(?P<str>"(?:[^"\\\n]|\\.)*")'
    r'|(?P<id>[A-Za-z_$][A-Za-z_0-9$]*)|(?P<op>[{}()\[\]<>|;:,=?])|(?P<bad>.)')


class Bad(Exception):
    pass


class Tok:
    __slots__ = ("kind", "text", "doc", "at")

    def __init__(self, kind, text, doc, at):
        self.kind, self.text, self.doc, self.at = kind, text, doc, at


def tokens(src):
    out, doc = [], None
    for m in TOK.finditer(src):
        k = m.lastgroup
        if k in ("ws", "line"):
            continue
        if k == "doc":
            doc = m.group() if doc is None else doc + m.group()
            continue
        if k == "bad":
            raise Bad("stray %r at offset %d" % (m.group(), m.start()))
        out.append(Tok(k, m.group(), doc, m.start()))
        doc = None
    if doc is not None:
        out.append(Tok("eof", "", doc, len(src)))
    return out


class Member:
    def __init__(self, name, optional, readonly, ty, doc):
        self.name, self.optional, self.readonly, self.ty, self.doc = name, optional, readonly, ty, doc


class Module:
    def __init__(self):
        self.imports = []      # (names, module)
        self.types = {}        # name -> type
        self.enums = {}        # name -> ([(member, value)], doc)
        self.order = []
        self.annotation = None
        self.exported = None


class Reader:
    def __init__(self, src):
        self.t, self.i = tokens(src), 0

    def peek(self, k=0):
        return self.t[self.i + k].text if self.i + k < len(self.t) else None

    def take(self, want=None):
        if self.i >= len(self.t):
            raise Bad("unexpected end, wanted %r" % want)
        t = self.t[self.i]
        if want is not None and t.text != want:
            raise Bad("wanted %r, found %r at offset %d" % (want, t.text, t.at))
        self.i += 1
        return t

    def ident(self):
        t = self.take()
        if t.kind != "id":
            raise Bad("wanted a name, found %r at offset %d" % (t.text, t.at))
        return t.text

    def union(self):
        parts = [self.postfix()]
        while self.peek() == "|":
            self.take()
            parts.append(self.postfix())
        return parts[0] if len(parts) == 1 else ("union", parts)

    def postfix(self):
        t = self.primary()
        while self.peek() == "[":
            self.take("[")
            self.take("]")
            t = ("arr", t)
        return t

    def primary(self):
        t = self.take()
        if t.text == "(":
            x = self.union()
            self.take(")")
            return x
        if t.text == "{":
            return self.members()
        if t.kind == "str":
            return ("lit", t.text[1:-1])
        if t.kind == "id":
            if self.peek() == "<":
                self.take("<")
                args = [self.union()]
                while self.peek() == ",":
                    self.take()
                    args.append(self.union())
                self.take(">")
                return ("ref", t.text, args)
            return ("ref", t.text)
        raise Bad("no type at offset %d: %r" % (t.at, t.text))

    def members(self):
        ms = []
        while self.peek() != "}":
            doc = self.t[self.i].doc if self.i < len(self.t) else None
            readonly = False
            if self.peek() == "readonly" and self.peek(1) not in (":", "?"):
                self.take()
                readonly = True
            name = self.ident()
            optional = False
            if self.peek() == "?":
                self.take()
                optional = True
            self.take(":")
            ty = self.union()
            self.take(";")
            ms.append(Member(name, optional, readonly, ty, doc))
        self.take("}")
        return ("obj", ms)

    def module(self):
        m = Module()
        first = True
        while self.peek() is not None:
            t = self.t[self.i]
            if t.kind == "eof":
                break
            if first:
                # the header comment
                if not (t.doc or "").startswith("/* eslint-disable */"):
                    raise Bad("no header")
                t.doc = t.doc[len("/* eslint-disable */"):] or None
                first = False
            if t.text == "import":
                self.take()
                self.take("type")
                self.take("{")
                names = [self.ident()]
                while self.peek() == ",":
                    self.take()
                    names.append(self.ident())
                self.take("}")
                self.take("from")
                mod = self.take()
                if mod.kind != "str":
                    raise Bad("import from %r" % mod.text)
                self.take(";")
                m.imports.append((names, mod.text[1:-1]))
            elif t.text == "declare":
                self.take()
                self.take("const")
                m.exported = self.ident()
                self.take(":")
                m.annotation = self.union()
                self.take(";")
            elif t.text == "export":
                doc = t.doc
                self.take()
                k = self.take().text
                if k == "default":
                    if self.ident() != m.exported:
                        raise Bad("exports another constant")
                    self.take(";")
                    continue
                name = self.ident()
                if name in m.order:
                    raise Bad("duplicate declaration of `%s`" % name)
                m.order.append(name)
                if k == "type":
                    self.take("=")
                    m.types[name] = (self.union(), doc)
                    self.take(";")
                elif k == "enum":
                    self.take("{")
                    vs = []
                    while self.peek() != "}":
                        v = self.ident()
                        self.take("=")
                        s = self.take()
                        if s.kind != "str":
                            raise Bad("enum value")
                        self.take(",")
                        vs.append((v, s.text[1:-1]))
                    self.take("}")
                    m.enums[name] = (vs, doc)
                else:
                    raise Bad("export %s" % k)
            else:
                raise Bad("unexpected %r at offset %d" % (t.text, t.at))
        return m


def read(src):
    return Reader(src).module()
