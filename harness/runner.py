"""Builds qlc from /repo's working tree and runs it on projects in scratch directories."""
import json
import os
import shutil
import subprocess
import tempfile
import hashlib
import posixpath
import re

from gql import print_doc
import oracle
from oracle import Diff

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QLC_REPO", "/repo")
TARGET = os.path.join(ROOT, ".build", "qlc")


class BuildFailed(Exception):
    pass


def build():
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="", CARGO_TARGET_DIR=TARGET)
    env.pop("CARGO_BUILD_TARGET", None)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(REPO, "Cargo.toml")],
                       capture_output=True, text=True, env=env, cwd=REPO)
    if r.returncode:
        raise BuildFailed(r.stderr[-3000:])
    return os.path.join(TARGET, "debug", "qlc")


class Record:
    """what was run, for the evidence"""

    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.samples = []

    def add(self, case):
        h = hashlib.sha256(repr((sorted(case.files.items(), key=lambda x: x[0]), case.args, case.cwd)).encode("utf-8", "replace")).digest()[:12]
        self.evaluations += 1
        if h in self.distinct or not any(p.endswith((".graphql", ".qlcrc.json")) for p in case.files):
            return
        self.distinct.add(h)
        if len(self.samples) < 2:
            docs = {p: t for p, t in case.files.items() if isinstance(t, str) and p.endswith(".graphql")}
            self.samples.append({"args": case.args, "documents": {p: docs[p][:600] for p in list(docs)[:3]}, "exit_status": case.rc,
                                 "written": sorted(case.created())[:8]})


    def merge(self, other):
        self.evaluations += other.evaluations
        self.distinct |= other.distinct
        self.samples = (self.samples + other.samples)[:2]


RECORD = Record()
BINARY = None
USER = {}


def prepare(binary, work):
    """a copy of the binary that an unprivileged user may run, and that user"""
    global BINARY, USER
    os.chmod(work, 0o755)
    BINARY = os.path.join(work, "qlc")
    shutil.copy2(binary, BINARY)
    os.chmod(BINARY, 0o755)
    if os.getuid() == 0:
        try:
            subprocess.run([BINARY, "--version"], user=65534, group=65534, extra_groups=[], capture_output=True, timeout=20, cwd="/", check=True)
            USER = {"user": 65534, "group": 65534, "extra_groups": []}
        except Exception:
            USER = {}


class Case:
    """One run: the files to lay out, the command line, and what it did"""

    def __init__(self, files, args, cwd=".", timeout=20, modes=None):
        """a text may say @@DIR@@ for the absolute path of the scratch directory; a file of None is a directory"""
        self.files, self.args, self.cwd, self.timeout, self.modes = files, args, cwd, timeout, modes or {}
        self.rc = self.stdout = self.stderr = None
        self.after = {}
        self.hung = False

    def run(self, binary):
        d = tempfile.mkdtemp(prefix="qlc-harness-")
        try:
            self.files = {p: t.replace("@@DIR@@", d) if isinstance(t, str) else t for p, t in self.files.items()}
            for p, text in self.files.items():
                full = os.path.join(d, p)
                if text is None:
                    os.makedirs(full, exist_ok=True)
                    continue
                os.makedirs(os.path.dirname(full), exist_ok=True)
                mode = "wb" if isinstance(text, bytes) else "w"
                with open(full, mode, **({} if mode == "wb" else {"newline": ""})) as f:
                    f.write(text)
            if USER:
                for base, ds, fs in os.walk(d):
                    for x in [base] + [os.path.join(base, f) for f in fs]:
                        os.chown(x, 65534, 65534)
            for p, m in self.modes.items():
                os.chmod(os.path.join(d, p), m)
            env = {"PATH": os.environ.get("PATH", ""), "HOME": d, "RUST_BACKTRACE": "0"}
            try:
                r = subprocess.run([binary] + [a.replace("@@DIR@@", d) for a in self.args], cwd=os.path.join(d, self.cwd), capture_output=True, timeout=self.timeout, env=env, **USER)
                self.rc = r.returncode
                self.stdout = r.stdout.decode("utf-8", "replace").replace(d + "/", "@@DIR@@/")
                self.stderr = r.stderr.decode("utf-8", "replace")
            except subprocess.TimeoutExpired as x:
                self.hung = True
                self.rc, self.stdout, self.stderr = None, (x.stdout or b"").decode("utf-8", "replace"), (x.stderr or b"").decode("utf-8", "replace")
            for p in self.modes:
                os.chmod(os.path.join(d, p), 0o755)
            for base, _, fs in os.walk(d):
                for f in fs:
                    full = os.path.join(base, f)
                    with open(full, "rb") as h:
                        self.after[os.path.relpath(full, d)] = h.read()
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if self.hung and self.timeout < 60:
            # only what still hangs with the machine to itself for a minute counts as hanging
            again = Case(self.files, self.args, self.cwd, 60, self.modes).run(binary)
            self.__dict__.update(again.__dict__)
        RECORD.add(self)
        return self

    def created(self):
        out = {}
        for p, b in self.after.items():
            was = self.files.get(p)
            if was is None or (was.encode() if isinstance(was, str) else was) != b:
                out[p] = b.decode("utf-8", "replace")
        return out

    def deleted(self):
        return [p for p, t in self.files.items() if t is not None and p not in self.after]

    def to_json(self):
        return {"files": {p: (t.decode("latin-1") if isinstance(t, bytes) else t) for p, t in self.files.items()}, "modes": self.modes, "args": self.args, "cwd": self.cwd,
                "exit_status": self.rc, "hung": self.hung, "stdout": self.stdout, "stderr": self.stderr, "created": self.created()}


def crash(case):
    """C16: every run ends by itself with status 0 or 1, and never by a panic or a signal"""
    out = []
    if case.hung:
        out.append(Diff({"C16"}, "did not end within %d s" % case.timeout))
    elif case.rc not in (0, 1) or "panicked at" in (case.stderr or "") or "overflowed its stack" in (case.stderr or ""):
        out.append(Diff({"C16"}, "crashed: status %s, %s" % (case.rc, (case.stderr or "").strip()[:300])))
    return out


STALE = "// stale\n" + "export type Stale = never;\n" * 400


def layout(project, args, cfg, rng=None, root="."):
    """files and command line of a project whose root directory is `root`"""
    files = {}
    for d in project.docs:
        files[posixpath.normpath(posixpath.join(root, d.path))] = print_doc(d, rng)
    sp = project.config.schema_path or posixpath.normpath(posixpath.join(root, "schema.json"))
    files[sp] = json.dumps(project.schema.introspection(rng))
    if cfg:
        files[".qlcrc.json"] = json.dumps(cfg)
    if rng and rng.random() < 0.15:
        # what an earlier run left behind
        for d in project.docs + [None]:
            q = posixpath.normpath(posixpath.join(root, d.path + ".d.ts" if d else globals_path(project.config)))
            if rng.random() < 0.6 and q not in files:
                files[q] = STALE
    if rng and rng.random() < 0.08:
        for d in project.docs:
            q = posixpath.normpath(posixpath.join(root, d.path))
            files[q] = files[q].replace("\n", "\r\n")
    argv = ["--no-color"] + list(args) + ([root] if root != "." or (rng and rng.random() < 0.5) else [])
    return files, argv


def globals_path(c):
    name = c.globals_module
    if c.import_prefix is not None and name.startswith(c.import_prefix):
        name = name[len(c.import_prefix):]
    if not os.path.splitext(posixpath.basename(name))[1]:
        name += ".ts"
    return name


def compare(project, case, root=".", valid=True):
    """all differences between a run of a valid project and what it should have done"""
    diffs = crash(case)
    if diffs:
        return diffs
    msgs = oracle.messages(case.stdout)
    out, body = oracle.compare_exit(case.rc, msgs)
    if case.rc != 0:
        out.append(Diff({"C07", "C08"}, "valid project rejected: %s" % [str(m) for m in body if m.level != "warning"]))
    created = case.created()
    want_files, used = set(), set()
    want_warn = []
    for d in project.docs:
        p = posixpath.normpath(posixpath.join(root, d.path))
        q = p[:-len(".graphql")] + ".graphql.d.ts"
        e = project.expect(d)
        want_warn += [(w, p) for w in e.warnings]
        used |= e.used
        if d.variables:
            used |= {oracle.named(v.ref) for v in d.variables if project.schema.kind(oracle.named(v.ref)) in ("ENUM", "INPUT_OBJECT")}
        want_files.add(q)
        if q not in created:
            if case.rc == 0:
                out.append(Diff({"C15", "C20"}, "no output for %s" % p))
            continue
        out += oracle.compare_doc(project, d, e, created[q])
    # a file that a document does not yield stays as it was
    gp = posixpath.normpath(posixpath.join(root, globals_path(project.config)))
    if used:
        want_files.add(gp)
    if case.rc == 0:
        out += oracle.compare_globals(project, used, created.get(gp))
    if case.deleted():
        out.append(Diff({"C20"}, "files deleted: %s" % case.deleted()))
    extra = set(created) - want_files
    if extra:
        out.append(Diff({"C20"}, "unexpected files written: %s" % sorted(extra)))
    if case.rc == 0:
        out += compare_warnings(project, body, want_warn)
    out += sources(case, body)
    return out


def sources(case, body):
    """C19: the quoted source line is the line of the file that the message points at"""
    out = []
    for m in body:
        if m.file is None or m.line is None:
            continue
        p = posixpath.normpath(posixpath.join(case.cwd, m.file) if not m.file.startswith("@@DIR@@/") else m.file[len("@@DIR@@/"):])
        text = case.files.get(p)
        if text is None:
            out.append(Diff({"C19"}, "message points at unknown file %s" % m.file))
            continue
        lines = text.split("\n")
        if not (1 <= m.line <= len(lines)):
            out.append(Diff({"C19"}, "line %s of %s does not exist" % (m.line, m.file)))
            continue
        line = lines[m.line - 1].rstrip("\r")
        if m.source is None or m.source != (m.line, line):
            out.append(Diff({"C19"}, "message quotes %r for line %d %r" % (m.source, m.line, line)))
        if m.caret != m.col:
            out.append(Diff({"C19"}, "caret under column %s, position says %s" % (m.caret, m.col)))
    return out


def compare_warnings(project, body, want):
    out = []
    got = []
    for m in body:
        if m.level != "warning":
            continue
        plain = re.sub("`[^`]*`", "", m.text)
        if "narrowing" in plain:
            kind, name = "narrow", m.text.split("`")[1]
        elif "deprecated" in plain:
            kind, name = "deprecated", m.text.split("`")[1]
        else:
            kind, name = "?", m.text
        got.append((kind, name, posixpath.normpath((m.file or "?").replace("@@DIR@@/", "")), (m.line, m.col)))
    w = [(k, n, p, pos) for (k, n, pos), p in want]
    if sorted(x[:3] for x in got) != sorted(x[:3] for x in w):
        out.append(Diff({"C18"}, "warnings are %s, expected %s" % (sorted(got), sorted(w))))
    elif sorted(got) != sorted(w):
        out.append(Diff({"C19"}, "warnings are at %s, expected %s" % (sorted(got), sorted(w))))
    return out
