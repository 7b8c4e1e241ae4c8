"""Genuine defects that are recorded and not repaired (known-findings.txt): each is run again on every
check of its property, and printed while it lasts.  The generators of the sweeps keep clear of exactly
these inputs; a different violation of the same property is still reported."""
import json
import os
import re
from gql import parse_sdl
from runner import Case

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE = os.path.join(ROOT, "known-findings.txt")
SDL = """
type Query { id: ID! name: String node: Node one: One }
interface Node { id: ID! }
type One implements Node { id: ID! v: Int w_x: Two w: Three }
type Two implements Node { id: ID! v: String! }
type Three { x: One y: Int }
"""


def case(binary, docs, root="."):
    files = {p: t for p, t in docs.items()}
    files["schema.json"] = json.dumps(parse_sdl(SDL).introspection(None))
    return Case(files, ["--no-color", "-s", "schema.json", root]).run(binary)


def k1(binary):
    c = case(binary, {"a.graphql": "subscription S { id }\n"})
    return "QueryDocumentNode<" in c.created().get("a.graphql.d.ts", "")


def k2(binary):
    c = case(binary, {"a.graphql": "query Q($b: Boolean!) { id @skip(if: $b) }\n"})
    return "readonly id: string;" in c.created().get("a.graphql.d.ts", "")


def k3(binary):
    c = case(binary, {"a.graphql": "query Q { one { w_x { v } w { x { id } } } }\n"})
    names = re.findall(r"export type (\w+) =", c.created().get("a.graphql.d.ts", ""))
    return len(names) != len(set(names))


def k4(binary):
    c = case(binary, {"root/a.graphql": '#import "../out/f.graphql"\nquery Q { name node { ...F } }\n', "out/f.graphql": "fragment F on Node { id missing }\n"}, "root")
    return c.rc == 0


def k5(binary):
    c = case(binary, {"a.graphql": "query Q { one { id: w { y } id } }\n"})
    t = c.created().get("root/a.graphql.d.ts", "") or c.created().get("a.graphql.d.ts", "")
    return c.rc == 0 and t.count(" id: ") > 1


FINDINGS = {"K1": k1, "K2": k2, "K3": k3, "K4": k4, "K5": k5}


def report(prop, binary):
    out = []
    try:
        with open(FILE) as f:
            lines = f.read().splitlines()
    except OSError:
        return out
    for l in lines:
        m = re.match(r"(K\d+): property=(\w+) (.*)", l)
        if m and m.group(2) == prop and FINDINGS[m.group(1)](binary):
            out.append("KNOWN-FINDING: property=%s %s (%s)" % (prop, m.group(3), m.group(1)))
    return out
