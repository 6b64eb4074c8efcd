"""Y01: the Python graph classes against a table model.

One run is one history: choices come from a tape (seeded, or given by a replay
file), every step is an edit of a `Hugr` of hugr-py through its public methods, and
after every step all of its queries are compared with a model that is a plain table
of nodes and links. At scheduled points the graph is saved; the stored form is
loaded by the Rust implementation (the real `hugr` binary) and by Python and both
are compared with the model; a restart drops the graph in memory and goes on with
the stored one; a torn stored form has to be refused.
"""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback
import types

VERIF = os.environ.get("VERIF_DIR") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HUGR_BIN = os.path.join(VERIF, "target/release/hugr")


ENV = {**os.environ, "RUST_BACKTRACE": "0", "RUST_LIB_BACKTRACE": "0", "NO_COLOR": "1"}


def _load():
    # The compiled extension module is only needed for the model formats; a stand-in
    # that refuses everything keeps the Python classes independent of it.
    rust = types.ModuleType("hugr._hugr")

    def missing(name):
        if name[0].isupper():
            return type(name, (Exception,), {})

        def refuse(*_a, **_k):
            raise RuntimeError(name)

        return refuse

    rust.__getattr__ = missing
    rust.current_model_version = lambda: (1, 0, 0)
    sys.modules["hugr._hugr"] = rust
    sys.path.insert(0, os.path.join(REPO, "hugr-py/src"))


_load()
from hugr import ops, tys, val  # noqa: E402
from hugr.build.dfg import Dfg  # noqa: E402
from hugr.build.function import Module  # noqa: E402
from hugr.build.tracked_dfg import TrackedDfg  # noqa: E402
from hugr.std.logic import Not  # noqa: E402
from hugr.hugr import Hugr  # noqa: E402
from hugr.hugr.node_port import Direction, InPort, Node, OutPort  # noqa: E402


class Violation(Exception):
    pass


class Tape:
    def __init__(self, seed=None, given=None):
        self.rng = random.Random(seed) if given is None else None
        self.given = given
        self.log = []

    def below(self, n):
        if n <= 1:
            return 0
        if self.rng is not None:
            v = self.rng.randrange(n)
        else:
            i = len(self.log)
            v = self.given[i] % n if i < len(self.given) else 0
        self.log.append(v)
        return v

    def pick(self, xs):
        return xs[self.below(len(xs))]


class MNode:
    def __init__(self, kind, a, b, parent, nout):
        self.kind, self.a, self.b, self.parent = kind, a, b, parent
        self.children, self.meta = [], {}
        self.nin, self.nout = 0, nout

    def copy(self):
        n = MNode(self.kind, self.a, self.b, self.parent, self.nout)
        n.children, n.meta, n.nin = list(self.children), dict(self.meta), self.nin
        return n


CONTAINERS = ("module", "dfg", "func")
NO_ORDER = ("module", "func", "const")
# ports that links may use: inputs, outputs
INS = {"module": lambda a, b: 0, "func": lambda a, b: 0, "const": lambda a, b: 0, "load": lambda a, b: 1}
OUTS = {"module": lambda a, b: 0, "func": lambda a, b: 0}


def n_in(n):
    return INS.get(n.kind, lambda a, b: a)(n.a, n.b)


def n_out(n):
    return OUTS.get(n.kind, lambda a, b: b)(n.a, n.b)


def num_out_attr(n):
    return {"module": 0, "func": 1}.get(n.kind, n.b)


def make_op(kind, a, b):
    bools = [tys.Bool]
    if kind == "tuple":
        return ops.MakeTuple(bools * a)
    if kind == "untuple":
        return ops.UnpackTuple(bools * b)
    if kind == "noop":
        return ops.Noop(tys.Bool)
    if kind == "dfg":
        op = ops.DFG(bools * a)
        op._set_out_types(bools * b)
        return op
    if kind == "func":
        op = ops.FuncDefn("f", bools * a, [])
        op._set_out_types(bools * b)
        return op
    if kind == "const":
        return ops.Const(val.TRUE)
    if kind == "load":
        return ops.LoadConst(tys.Bool)
    raise AssertionError(kind)


class Graph:
    """A graph of the code under test next to its model."""

    def __init__(self):
        self.h = None
        self.nodes = {}
        self.links = []
        self.handle = {}
        self.root = None
        self.entry = None
        self.dead = []
        self.stored = None

    def note_link(self, l):
        s, so, d, do = l
        self.links.append(l)
        self.nodes[s].nout = max(self.nodes[s].nout, so + 1)
        self.nodes[d].nin = max(self.nodes[d].nin, do + 1)

    def unlink(self, l):
        if l in self.links:
            self.links.remove(l)

    def snapshot(self):
        return (
            {k: n.copy() for k, n in self.nodes.items()},
            list(self.links),
            self.root,
            self.entry,
        )


def eq(what, got, want):
    if got != want:
        raise Violation(f"{what}: got {got}, expected {want}")


class Run:
    def __init__(self, tape):
        self.t = tape
        self.next_id = 0
        self.history = []
        self.graphs = []
        self.stats = collections.Counter()
        self.states = set()

    # ---------------------------------------------------------------- steps
    def say(self, s):
        self.history.append(s)

    def fresh(self):
        self.next_id += 1
        return f"n{self.next_id}"

    def new_graph(self):
        g = Graph()
        style = self.t.below(3)
        if style == 0:
            g.h = Hugr()
            self.say(f"g{len(self.graphs)} = Hugr()")
        elif style == 1:
            a = self.t.below(3)
            op = ops.FuncDefn("f", [tys.Bool] * a, [])
            op._set_out_types([tys.Bool])
            g.h = Hugr(op)
            self.say(f"g{len(self.graphs)} = Hugr(FuncDefn {a})")
        else:
            g.h = Hugr()
            self.say(f"g{len(self.graphs)} = Hugr() with metadata on the root")
        i = self.fresh()
        root = g.h.module_root
        g.h[root].metadata["id"] = i
        g.nodes[i] = MNode("module", 0, 0, None, 0)
        g.nodes[i].meta = {"id": i}
        g.handle[i] = root
        g.root = g.entry = i
        if style == 1:
            j = self.fresh()
            n = g.h.entrypoint
            g.h[n].metadata["id"] = j
            m = MNode("func", a, 1, i, 1)
            m.meta = {"id": j}
            g.nodes[j] = m
            g.nodes[i].children.append(j)
            g.handle[j] = n
            g.entry = j
        self.graphs.append(g)
        return g

    def step_add(self, g):
        kind = self.t.pick(["tuple", "untuple", "noop", "dfg", "dfg", "func", "const", "load"])
        a, b = {
            "tuple": lambda: (1 + self.t.below(3), 1),
            "untuple": lambda: (1, 1 + self.t.below(3)),
            "noop": lambda: (1, 1),
            "dfg": lambda: (1 + self.t.below(2), 1 + self.t.below(2)),
            "func": lambda: (self.t.below(2), 1),
            "const": lambda: (0, 1),
            "load": lambda: (0, 1),
        }[kind]()
        parents = [k for k, n in g.nodes.items() if n.kind in CONTAINERS]
        p = self.t.pick(parents)
        default = self.t.below(4) == 0
        if default:
            p = g.entry
        outs = None if self.t.below(2) else b
        i = self.fresh()
        m = MNode(kind, a, b, p, outs or 0)
        how = self.t.below(2)
        if how == 0:
            h = g.h.add_node(make_op(kind, a, b), None if default else g.handle[p], num_outs=outs, metadata={"id": i})
        else:
            h = g.h.add_node(make_op(kind, a, b), None if default else g.handle[p], num_outs=outs)
            h.metadata["id"] = i
        m.meta = {"id": i}
        live = {x.idx for x in g.handle.values()}
        if h.idx in live:
            raise Violation(f"a new node got the slot {h.idx} of a node that is in the graph")
        if any(h.idx == x for x in g.dead):
            self.stats["freed slot reused"] += 1
            g.dead = [x for x in g.dead if x != h.idx]
        g.nodes[i] = m
        g.nodes[p].children.append(i)
        g.handle[i] = h
        self.say(f"{self.name(g)}: {i} = add {kind} {a}->{b} under {p}{' (default)' if default else ''} num_outs={outs} slot {h.idx}")
        self.stats["node added"] += 1

    def name(self, g):
        return f"g{self.graphs.index(g)}"

    def ports(self, g):
        src = [(i, o) for i, n in g.nodes.items() for o in range(n_out(n))]
        dst = [(i, o) for i, n in g.nodes.items() for o in range(n_in(n))]
        return src, dst

    def step_link(self, g):
        src, dst = self.ports(g)
        if not src or not dst:
            return
        # a few ports get many links
        s = self.t.pick(src[: 3 + self.t.below(len(src))])
        d = self.t.pick(dst[: 3 + self.t.below(len(dst))])
        g.h.add_link(g.handle[s[0]].out(s[1]), g.handle[d[0]].inp(d[1]))
        g.note_link((*s, *d))
        self.say(f"{self.name(g)}: link {s[0]}.{s[1]} -> {d[0]}.{d[1]}")
        self.stats["link added"] += 1

    def step_order(self, g):
        xs = [i for i, n in g.nodes.items() if n.kind not in NO_ORDER]
        if not xs:
            return
        s, d = self.t.pick(xs), self.t.pick(xs)
        g.h.add_order_link(g.handle[s], g.handle[d])
        if (s, -1, d, -1) not in g.links:
            g.note_link((s, -1, d, -1))
        self.say(f"{self.name(g)}: order {s} -> {d}")
        self.stats["order link added"] += 1

    def step_unlink(self, g):
        if g.links and self.t.below(8):
            l = self.t.pick(g.links)
        else:
            src, dst = self.ports(g)
            if not src or not dst:
                return
            l = (*self.t.pick(src), *self.t.pick(dst))
            if l not in g.links:
                self.stats["absent link deleted"] += 1
        g.h.delete_link(g.handle[l[0]].out(l[1]), g.handle[l[2]].inp(l[3]))
        g.unlink(l)
        self.say(f"{self.name(g)}: unlink {l[0]}.{l[1]} -> {l[2]}.{l[3]}")
        self.stats["link deleted"] += 1

    def step_delete(self, g):
        xs = [i for i, n in g.nodes.items() if not n.children and i not in (g.entry, g.root)]
        if not xs:
            return
        i = self.t.pick(xs)
        h = g.handle[i]
        linked = any(l[0] == i or l[2] == i for l in g.links)
        idx = h.idx
        self.say(f"{self.name(g)}: delete {i} slot {idx}")
        data = g.h.delete_node(h)
        eq(f"metadata of deleted {i}", dict(data.metadata), g.nodes[i].meta)
        n = g.nodes.pop(i)
        g.nodes[n.parent].children.remove(i)
        g.links = [l for l in g.links if l[0] != i and l[2] != i]
        del g.handle[i]
        g.dead.append(idx)
        self.stats["linked node deleted" if linked else "node deleted"] += 1

    def step_insert(self, g):
        others = [x for x in self.graphs if x is not g and x.nodes[x.entry].kind != "module" and len(x.nodes) < 14]
        if not others or len(g.nodes) > 30:
            return
        src = self.t.pick(others)
        parents = [k for k, n in g.nodes.items() if n.kind in CONTAINERS]
        p = self.t.pick(parents)
        default = self.t.below(3) == 0
        if default:
            p = g.entry
        mapping = g.h.insert_hugr(src.h, None if default else g.handle[p])
        self.say(f"{self.name(g)}: insert {self.name(src)} under {p}")
        inside, queue = [], [src.entry]
        while queue:
            i = queue.pop(0)
            inside.append(i)
            queue.extend(src.nodes[i].children)
        by_idx = {k.idx: v for k, v in mapping.items()}
        eq("nodes inserted", sorted(by_idx), sorted(src.handle[i].idx for i in inside))
        live = {x.idx for x in g.handle.values()}
        new = {}
        for i in inside:
            h = by_idx[src.handle[i].idx]
            if h.idx in live:
                raise Violation(f"an inserted node got the slot {h.idx} of a node that is in the graph")
            live.add(h.idx)
            if h.idx in g.dead:
                self.stats["freed slot reused"] += 1
            g.dead = [x for x in g.dead if x != h.idx]
            j = self.fresh()
            new[i] = j
            old = src.nodes[i]
            m = MNode(old.kind, old.a, old.b, p if i == src.entry else new[old.parent], old.nout)
            m.meta = dict(old.meta)
            eq(f"metadata of the copy of {i}", dict(g.h[h].metadata), m.meta)
            m.meta["id"] = j
            g.h[h].metadata["id"] = j
            g.nodes[j] = m
            g.nodes[m.parent].children.append(j)
            g.handle[j] = h
        for s, so, d, do in src.links:
            if s in new and d in new:
                g.note_link((new[s], so, new[d], do))
        self.stats["graph inserted"] += 1

    def step_meta(self, g):
        i = self.t.pick(list(g.nodes))
        key = self.t.pick(["k", "Ü", "a b"])
        value = self.t.pick([1, "x", None, [1, {"y": 2}], True])
        if self.t.below(3) == 0 and key in g.nodes[i].meta:
            del g.h[g.handle[i]].metadata[key]
            del g.nodes[i].meta[key]
        else:
            g.h[g.handle[i]].metadata[key] = value
            g.nodes[i].meta[key] = value
        self.say(f"{self.name(g)}: metadata {i} {key}={value}")
        self.stats["metadata edited"] += 1

    def step_entry(self, g):
        i = self.t.pick([k for k, n in g.nodes.items() if n.kind in CONTAINERS])
        g.h.entrypoint = g.handle[i]
        g.entry = i
        self.say(f"{self.name(g)}: entrypoint {i}")

    def step_save(self, g):
        s = g.h.to_str()
        g.stored = (s, g.snapshot())
        self.say(f"{self.name(g)}: save ({len(g.nodes)} nodes, {len(g.links)} links)")
        self.stats["saved"] += 1
        self.compare_rust(g, s)
        back = Hugr.from_str(s)
        self.compare_loaded(g.nodes, g.links, g.root, g.entry, back)
        self.states.add(hashlib.blake2b(s[s.index("{"):].encode(), digest_size=8).digest())

    def step_restart(self, g):
        """The process ends: what is left is what was stored last."""
        if g.stored is None:
            return
        s, (nodes, links, root, entry) = g.stored
        back = Hugr.from_str(s)
        handle = self.compare_loaded(nodes, links, root, entry, back)
        lost = len(g.nodes) - len(nodes)
        g.nodes = {k: n.copy() for k, n in nodes.items()}
        g.links, g.root, g.entry, g.h, g.handle, g.dead = list(links), root, entry, back, handle, []
        for n in g.nodes.values():
            n.nin, n.nout = 0, num_out_attr(n)
        for s_, so, d, do in g.links:
            g.nodes[s_].nout = max(g.nodes[s_].nout, so + 1)
            g.nodes[d].nin = max(g.nodes[d].nin, do + 1)
        self.say(f"{self.name(g)}: restart from the stored form ({lost} nodes lost)")
        self.stats["fault: restart from the stored form"] += 1

    def step_torn(self, g):
        if g.stored is None:
            return
        s = g.stored[0]
        cut = self.t.below(len(s))
        self.say(f"{self.name(g)}: load the stored form cut at {cut} of {len(s)}")
        self.stats["fault: torn stored form"] += 1
        try:
            Hugr.from_str(s[:cut])
        except Exception:
            return
        if s[cut:].strip():
            raise Violation(f"a stored form cut at {cut} of {len(s)} characters was loaded")

    # ---------------------------------------------------------------- checks
    def check(self, g):
        h = g.h
        idx = {g.handle[i].idx: i for i in g.nodes}
        eq("number of nodes", (len(h), h.num_nodes()), (len(g.nodes), len(g.nodes)))
        eq("nodes", sorted(n.idx for n in h), sorted(idx))
        eq("links", collections.Counter((s.node.idx, s.offset, d.node.idx, d.offset) for s, d in h.links()),
           collections.Counter((g.handle[s].idx, so, g.handle[d].idx, do) for s, so, d, do in g.links))
        eq("entrypoint", idx.get(h.entrypoint.idx), g.entry)
        eq("root", idx.get(h.module_root.idx), g.root)
        out, inn = collections.defaultdict(collections.Counter), collections.defaultdict(collections.Counter)
        for s, so, d, do in g.links:
            out[s, so][d, do] += 1
            inn[d, do][s, so] += 1

        def named(ports):
            return collections.Counter((idx.get(p.node.idx, p.node.idx), p.offset) for p in ports)

        for i, m in g.nodes.items():
            n = g.handle[i]
            data = h[n]
            eq(f"parent of {i}", idx.get(data.parent.idx) if data.parent else None, m.parent)
            eq(f"children of {i}", [idx.get(c.idx, c.idx) for c in h.children(n)], m.children)
            eq(f"metadata of {i}", dict(data.metadata), m.meta)
            eq(f"metadata of {i} through its handle", dict(n.metadata), m.meta)
            eq(f"ports of {i}", (h.num_in_ports(n), h.num_out_ports(n)), (m.nin, m.nout))
            eq(f"ports of {i}", (h.num_ports(n, Direction.INCOMING), h.num_ports(n, Direction.OUTGOING)), (m.nin, m.nout))
            tot_in = tot_out = 0
            seen_in, seen_out = collections.Counter(), collections.Counter()
            for o in range(-1, max(m.nout, n_out(m))):
                got = named(h.linked_ports(n.out(o)))
                eq(f"targets of {i}.{o}", got, out[i, o])
                tot_out += sum(out[i, o].values())
                for (x, _), c in out[i, o].items():
                    seen_out[x] += c
            for o in range(-1, max(m.nin, n_in(m))):
                got = named(h.linked_ports(n.inp(o)))
                eq(f"sources of {i}.{o}", got, inn[i, o])
                tot_in += sum(inn[i, o].values())
                for (x, _), c in inn[i, o].items():
                    seen_in[x] += c
            eq(f"incoming and outgoing of {i}", (h.num_incoming(n), h.num_outgoing(n)), (tot_in, tot_out))
            eq(f"output neighbours of {i}", collections.Counter(idx.get(x.idx) for x in h.output_neighbours(n)), seen_out)
            eq(f"input neighbours of {i}", collections.Counter(idx.get(x.idx) for x in h.input_neighbours(n)), seen_in)
            eq(f"order successors of {i}", collections.Counter(idx.get(x.idx) for x in h.outgoing_order_links(n)),
               collections.Counter({k[0]: c for k, c in out[i, -1].items()}))
            eq(f"order predecessors of {i}", collections.Counter(idx.get(x.idx) for x in h.incoming_order_links(n)),
               collections.Counter({k[0]: c for k, c in inn[i, -1].items()}))
            eq(f"outgoing links of {i}", {p.offset: named(t) for p, t in h.outgoing_links(n) if t},
               {o: c for (x, o), c in out.items() if x == i and c})
            eq(f"incoming links of {i}", {p.offset: named(t) for p, t in h.incoming_links(n) if t},
               {o: c for (x, o), c in inn.items() if x == i and c})
        order, queue = [], [g.entry]
        while queue:
            i = queue.pop(0)
            order.append(i)
            queue.extend(g.nodes[i].children)
        eq("descendants of the entrypoint", [idx.get(n.idx) for n in h.descendants()], order)
        for i, m in g.nodes.items():
            if m.children:
                self.check_order(g, i, idx)
        for s, so, d, do in g.links[:3]:
            if not h.has_link(g.handle[s].out(so), g.handle[d].inp(do)):
                raise Violation(f"has_link denies {s}.{so} -> {d}.{do}")
        for x in g.dead:
            try:
                h[Node(x)]
            except KeyError:
                continue
            raise Violation(f"slot {x} of a deleted node is still in use")

    def check_order(self, g, region, idx):
        """sorted_region_nodes: every child once, along the links of the region."""
        kids = set(g.nodes[region].children)
        inner = [(s, d) for s, _, d, _ in g.links if s in kids and d in kids]
        left, edges = set(kids), set(inner)
        while True:
            free = left - {d for s, d in edges if s in left}
            if not free:
                break
            left -= free
        try:
            got = [idx.get(n.idx) for n in g.h.sorted_region_nodes(g.handle[region])]
        except ValueError:
            if not left:
                raise Violation(f"the region of {region} is said to have a cycle") from None
            return
        if left:
            raise Violation(f"the region of {region} has a cycle but was sorted")
        eq(f"sorted nodes of {region}", sorted(got), sorted(kids))
        at = {i: k for k, i in enumerate(got)}
        for s, d in edges:
            if at[s] >= at[d]:
                raise Violation(f"sorted nodes of {region}: {d} comes before {s}")

    @staticmethod
    def canonical(nodes, root):
        order, stack = [], [root]
        while stack:
            i = stack.pop(0)
            order.append(i)
            stack.extend(nodes[i].children)
        return order

    def compare_rust(self, g, s, kinds=True):
        p = subprocess.run([HUGR_BIN, "convert", "-", "-f", "json"], input=s.encode(), capture_output=True, env=ENV)
        if p.returncode != 0:
            raise Violation(f"the Rust implementation refuses the stored form: {p.stderr.decode(errors='replace')[:300]}")
        out = p.stdout
        mod = json.loads(out[out.index(b"{"):])["modules"][0]
        ids = [(m or {}).get("id") for m in mod["metadata"]]
        order = self.canonical(g.nodes, g.root)
        eq("nodes loaded by Rust", ids, order)
        for k, i in enumerate(order):
            m, n = g.nodes[i], mod["nodes"][k]
            eq(f"parent of {i} loaded by Rust", ids[n["parent"]], m.parent or i)
            eq(f"metadata of {i} loaded by Rust", {a: b for a, b in mod["metadata"][k].items()}, m.meta)
            if kinds:
                eq(f"operation of {i} loaded by Rust", self.rust_kind(n), (m.kind, m.a, m.b))
            else:
                eq(f"operation of {i} loaded by Rust", n["op"], m.kind)
        eq("entrypoint loaded by Rust", ids[mod["entrypoint"]], g.entry)

        def off(o):
            return -1 if o is None else o

        eq("links loaded by Rust",
           collections.Counter((ids[a], off(ao), ids[b], off(bo)) for (a, ao), (b, bo) in mod["edges"]),
           collections.Counter(g.links))
        self.stats["stored form loaded by Rust"] += 1

    @staticmethod
    def rust_kind(n):
        op = n["op"]
        if op == "Extension":
            name = {"MakeTuple": "tuple", "UnpackTuple": "untuple", "Noop": "noop"}[n["name"]]
            return name, len(n["signature"]["input"]), len(n["signature"]["output"])
        if op == "DFG":
            return "dfg", len(n["signature"]["input"]), len(n["signature"]["output"])
        if op == "FuncDefn":
            return "func", len(n["signature"]["body"]["input"]), len(n["signature"]["body"]["output"])
        if op == "Const":
            return "const", 0, 1
        if op == "LoadConstant":
            return "load", 0, 1
        return op.lower(), 0, 0

    def compare_loaded(self, nodes, links, root, entry, back):
        got = {}
        for n in back:
            i = back[n].metadata.get("id")
            if i in got or i not in nodes:
                raise Violation(f"node {i} loaded back twice or not in the graph")
            got[i] = n
        eq("nodes loaded back", sorted(got), sorted(nodes))
        name = {n.idx: i for i, n in got.items()}
        for i, m in nodes.items():
            d = back[got[i]]
            eq(f"parent of {i} loaded back", name[d.parent.idx] if d.parent else None, m.parent)
            eq(f"children of {i} loaded back", [name[c.idx] for c in back.children(got[i])], m.children)
            eq(f"metadata of {i} loaded back", dict(d.metadata), m.meta)
        eq("links loaded back", collections.Counter((name[s.node.idx], s.offset, name[d.node.idx], d.offset) for s, d in back.links()),
           collections.Counter(links))
        eq("entrypoint loaded back", name[back.entrypoint.idx], entry)
        return {i: n for i, n in got.items()}

    # ---------------------------------------------------------------- builders
    def build(self):
        """Several builders open at once, continued in scheduled order."""
        mod = Module()
        h = mod.hugr
        bools = [tys.Bool]
        wired = collections.Counter()
        funcs, open_ = [], []

        def wire(p):
            p = p.out_port()
            return p.node.idx, p.offset

        def note(node, ins, shift=0):
            for o, w in enumerate(ins):
                wired[(*wire(w), node.to_node().idx, o + shift)] += 1

        class Scope:
            """A dataflow region that is being built."""

            def __init__(self, b, parent, outs, done, first=False):
                self.b, self.parent, self.outs, self.done, self.first = b, parent, outs, done, first
                self.wires, self.closed, self.children, self.dom = list(b.inputs()), [], 0, []
                if parent is not None:
                    parent.children += 1
                open_.append(self)

            def all_wires(self):
                s, ws = self, list(self.dom)
                while s is not None:
                    ws = s.wires + ws
                    s = s.parent
                return ws

        def plain(sc, n, ins, outs, shift=0):
            note(n, ins, shift)
            sc.wires += [n.out(o) for o in range(outs)]
            sc.closed.append(n)

        def open_func(k):
            a, b = self.t.below(3), 1 + self.t.below(2)
            declared = self.t.below(2)
            f = mod.define_function(f"f{k}", bools * a, bools * b if declared else None)
            if declared:
                funcs.append((f, a, b))

            def done(outs):
                if not declared:
                    funcs.append((f, a, b))

            Scope(f, None, b, done)
            self.say(f"open f{k} {a}->{b} declared={declared}")

        def close(sc):
            ws = sc.all_wires()
            if not ws:
                ws = [sc.b.load(val.TRUE)]
            outs = [self.t.pick(ws[-4:] if self.t.below(2) else ws) for _ in range(sc.outs)]
            sc.b.set_outputs(*outs)
            note(sc.b.output_node, outs)
            open_.remove(sc)
            if sc.parent is not None:
                sc.parent.children -= 1
            sc.done(outs)
            self.say(f"close a region with {sc.outs} outputs")

        def ext_wires(sc, n):
            ws = sc.all_wires()
            if not ws:
                c = sc.b.load(val.TRUE)
                sc.wires.append(c)
                ws = [c]
            return [self.t.pick(ws) for _ in range(n)]

        inserted = []
        for k in range(1 + self.t.below(2)):
            open_func(k)
        budget = 8 + self.t.below(25)
        while open_:
            sc = self.t.pick(open_)
            budget -= 1
            what = self.t.pick(["noop", "not", "tuple", "load", "nested", "cond", "loop", "cfg", "call", "order", "insert", "close"])
            nested_ok = budget > 0 and len(open_) < 8
            if what == "close" or budget < 0:
                if sc.children == 0:
                    close(sc)
            elif what in ("noop", "not"):
                ins = ext_wires(sc, 1)
                n = sc.b.add_op(ops.Noop(tys.Bool) if what == "noop" else Not, *ins)
                plain(sc, n, ins, 1)
                self.say(f"{what} {wire(ins[0])}")
            elif what == "tuple":
                k = 1 + self.t.below(3)
                ins = ext_wires(sc, k)
                n = sc.b.add_op(ops.MakeTuple(), *ins)
                note(n, ins)
                u = sc.b.add_op(ops.UnpackTuple(), n)
                plain(sc, u, [n.out(0)], k)
                self.say(f"tuple of {k}")
            elif what == "load":
                n = sc.b.load(val.TRUE)
                sc.wires.append(n.out(0))
                self.say("load")
            elif what == "call" and funcs:
                f, a, b = self.t.pick(funcs)
                ins = ext_wires(sc, a)
                n = sc.b.call(f.parent_node, *ins)
                wired[(f.parent_node.idx, 0, n.idx, a)] += 1
                plain(sc, n, ins, b)
                self.say(f"call {a}->{b}")
            elif what == "order" and len(sc.closed) >= 1:
                src = self.t.pick(sc.closed)
                ins = ext_wires(sc, 1)
                n = sc.b.add_op(ops.Noop(tys.Bool), *ins)
                plain(sc, n, ins, 1)
                sc.b.add_state_order(src, n)
                self.say(f"order {src.idx} -> {n.idx}")
            elif what == "nested" and nested_ok:
                k, m = self.t.below(3), 1 + self.t.below(2)
                ins = ext_wires(sc, k)
                d = sc.b.add_nested(*ins)
                Scope(d, sc, m, lambda outs, sc=sc, d=d, ins=ins, m=m: plain(sc, d.parent_node, ins, m))
                self.say(f"open DFG {k}->{m}")
            elif what == "loop" and nested_ok:
                k = self.t.below(3)
                ins = ext_wires(sc, k)
                d = sc.b.add_tail_loop([], ins)
                Scope(d, sc, k + 1, lambda outs, sc=sc, d=d, ins=ins, k=k: plain(sc, d.parent_node, ins, k))
                self.say(f"open loop over {k}")
            elif what == "cond" and nested_ok:
                k, m = self.t.below(3), 1 + self.t.below(2)
                ins = ext_wires(sc, 1 + k)
                c = sc.b.add_conditional(*ins)
                left = [2]

                def done(outs, sc=sc, c=c, ins=ins, m=m, left=left):
                    left[0] -= 1
                    if left[0] == 0:
                        plain(sc, c.parent_node, ins, m)

                order = [0, 1] if self.t.below(2) else [1, 0]
                for i in order:
                    Scope(c.add_case(i), sc, m, done)
                self.say(f"open conditional {k}->{m} cases {order}")
            elif what == "cfg" and nested_ok:
                k = self.t.below(3)
                ins = ext_wires(sc, k)
                c = sc.b.add_cfg(*ins)
                entry = c.add_entry()
                shape = self.t.below(3)

                def middle(esc, sc=sc, c=c, ins=ins, entry=entry, shape=shape):
                    # the entry block has two successors
                    def finish():
                        plain(sc, c.parent_node, ins, 1)

                    n = 2 if shape == 1 else 1
                    left = [n]
                    for i in range(n):
                        b = c.add_successor(entry[i])

                        def done(outs, b=b, left=left):
                            c.branch_exit(b[0])
                            if shape == 2:
                                c.branch(b[1], b)
                            else:
                                c.branch_exit(b[1])
                            left[0] -= 1
                            if left[0] == 0:
                                finish()

                        s = Scope(b, sc, 2, done)
                        s.dom = list(esc.wires)
                    if shape != 1:
                        c.branch_exit(entry[1])

                esc = Scope(entry, sc, 2, None)
                esc.done = lambda outs, middle=middle, esc=esc: middle(esc)
                self.say(f"open CFG of {k} shape {shape}")
            elif what == "insert":
                if not inserted or self.t.below(2):
                    d = Dfg(*bools * (1 + self.t.below(2)))
                    ws = list(d.inputs())
                    for _ in range(1 + self.t.below(3)):
                        n = d.add_op(ops.Noop(tys.Bool), self.t.pick(ws))
                        ws.append(n.out(0))
                    d.set_outputs(ws[-1], self.t.pick(ws))
                    inserted.append(d)
                d = self.t.pick(inserted)
                ins = ext_wires(sc, len(d.inputs()))
                n = sc.b.insert_nested(d, *ins)
                plain(sc, n, ins, 2)
                self.say(f"insert a built DFG with {len(ins)} inputs")
        self.stats["program built"] += 1
        self.check_built(h, wired, {})

    def build_tracked(self):
        """A program built over tracked wires, against a list of wires."""
        n_in = 1 + self.t.below(3)
        auto = bool(self.t.below(2))
        d = TrackedDfg(*[tys.Bool] * n_in, track_inputs=auto)
        wired, metas = collections.Counter(), {}
        wires = [(d.input_node.idx, o) for o in range(n_in)]
        port = dict(zip(wires, d.inputs(), strict=True))
        tracked = list(wires) if auto else []
        self.say(f"TrackedDfg of {n_in} track_inputs={auto}")
        for k in range(5 + self.t.below(25)):
            live = [i for i, w in enumerate(tracked) if w is not None]
            what = self.t.pick(["add", "add", "add", "wire", "track", "untrack", "dead"])
            if what == "add" and live or what == "wire":
                by_index = what == "add"
                i = self.t.pick(live) if by_index else None
                w = tracked[i] if by_index else self.t.pick(wires)
                op = Not if self.t.below(2) else ops.Noop(tys.Bool)
                meta = {"k": k} if self.t.below(2) else None
                n = d.add(op(i if by_index else port[w]), metadata=meta)
                wired[(*w, n.idx, 0)] += 1
                out = (n.idx, 0)
                wires.append(out)
                port[out] = n.out(0)
                if by_index:
                    tracked[i] = out
                if meta:
                    metas[n.idx] = meta
                self.say(f"add on {'index ' + str(i) if by_index else w} metadata {meta}")
            elif what == "track":
                w = self.t.pick(wires)
                eq("index of the tracked wire", d.track_wire(port[w]), len(tracked))
                tracked.append(w)
                self.say(f"track {w}")
            elif what == "untrack" and live:
                i = self.t.pick(live)
                p = d.untrack_wire(i).out_port()
                eq("untracked wire", (p.node.idx, p.offset), tracked[i])
                tracked[i] = None
                self.say(f"untrack {i}")
            elif what == "dead":
                dead = [i for i, w in enumerate(tracked) if w is None] + [len(tracked)]
                i = self.t.pick(dead)
                before = len(d.hugr)
                try:
                    d.add(Not(i))
                except IndexError:
                    self.say(f"index {i} refused")
                    eq("nodes after a refused command", len(d.hugr), before)
                    continue
                raise Violation(f"index {i} is not tracked but was accepted")
            eq("tracked wires", [None if w is None else (w.out_port().node.idx, w.out_port().offset) for w in d.tracked], tracked)
        if not any(w is not None for w in tracked):
            d.track_wire(port[wires[-1]])
            tracked.append(wires[-1])
        d.set_tracked_outputs()
        for o, w in enumerate(w for w in tracked if w is not None):
            wired[(*w, d.output_node.idx, o)] += 1
        self.stats["program built over tracked wires"] += 1
        self.check_built(d.hugr, wired, metas)

    def check_built(self, h, wired, metas):
        # every wire that was asked for is there, and the tables agree
        links = collections.Counter((s.node.idx, s.offset, d.node.idx, d.offset) for s, d in h.links())
        for w, c in wired.items():
            if links[w] < c:
                raise Violation(f"the wire {w} is not in the program")
        for n, m in metas.items():
            eq(f"metadata of node {n}", dict(h[Node(n)].metadata), m)
        g = Graph()
        g.h = h
        self.graphs.append(g)
        names = {}
        for n, data in h.nodes():
            i = f"n{n.idx}"
            names[n.idx] = i
            data.metadata["id"] = i
            meta = dict(data.metadata)
            m = MNode(data.op._to_serial(Node(0)).op, 0, 0, None, h.num_out_ports(n))
            m.nin = h.num_in_ports(n)
            m.meta = meta
            g.nodes[i] = m
            g.handle[i] = n
        for n, data in h.nodes():
            if data.parent is not None:
                g.nodes[names[n.idx]].parent = names[data.parent.idx]
                g.nodes[names[data.parent.idx]].children.append(names[n.idx])
        g.links = [(names[a], ao, names[b], bo) for (a, ao, b, bo), c in links.items() for _ in range(c)]
        g.root, g.entry = names[h.module_root.idx], names[h.entrypoint.idx]
        self.check(g)
        s = h.to_str()
        self.compare_rust(g, s, kinds=False)
        self.compare_loaded(g.nodes, g.links, g.root, g.entry, Hugr.from_str(s))
        self.states.add(hashlib.blake2b(s[s.index("{"):].encode(), digest_size=8).digest())
        p = subprocess.run([HUGR_BIN, "validate", "-"], input=s.encode(), capture_output=True, env=ENV)
        if p.returncode != 0:
            raise Violation(f"Rust finds the built program invalid: {p.stderr.decode(errors='replace')[:400]}")
        self.stats["built program validated by Rust"] += 1

    def go(self):
        if self.t.below(4) == 3:
            return self.build_tracked() if self.t.below(5) == 4 else self.build()
        self.new_graph()
        steps = 10 + self.t.below(50)
        weights = [("add", 10), ("link", 12), ("order", 5), ("unlink", 8), ("delete", 6), ("insert", 1), ("meta", 2),
                   ("entry", 1), ("save", 2), ("restart", 2), ("torn", 1), ("new", 1)]
        bag = [k for k, w in weights for _ in range(w)]
        for _ in range(steps):
            g = self.t.pick(self.graphs)
            what = self.t.pick(bag)
            if what == "new":
                if len(self.graphs) < 3:
                    self.new_graph()
                continue
            if what == "add" and len(g.nodes) > 30:
                continue
            getattr(self, "step_" + what)(g)
            for x in self.graphs:
                self.check(x)
        for g in self.graphs:
            self.step_save(g)


class Stuck(Exception):
    pass


def execute(seed=None, given=None):
    """One history. Returns (message or None, run)."""
    run = Run(Tape(seed, given))

    def stuck(*_):
        raise Stuck

    signal.signal(signal.SIGALRM, stuck)
    signal.alarm(30)
    try:
        run.go()
        return None, run
    except Violation as e:
        return str(e), run
    except Stuck:
        return "no progress within 30 s", run
    except Exception as e:  # the code under test may not fail on these edits
        tb = traceback.extract_tb(e.__traceback__)
        return f"{type(e).__name__}: {e} at {os.path.basename(tb[-1].filename)} in {tb[-1].name}", run
    finally:
        signal.alarm(0)


def shrink(given, budget):
    end = time.time() + budget
    best, (msg, run) = list(given), execute(given=given)
    best = list(run.t.log)
    size = max(1, len(best) // 2)
    while size >= 1 and time.time() < end:
        i, changed = 0, False
        while i < len(best) and time.time() < end:
            for cand in (best[:i] + best[i + size:], best[:i] + [0] * size + best[i + size:]):
                if cand == best:
                    continue
                m, r = execute(given=cand)
                log = list(r.t.log)
                if m is not None and (len(log), log) < (len(best), best):
                    best, msg, run, changed = log, m, r, True
                    break
            else:
                i += size
        if not changed or size > 1:
            size = size // 2 if size > 1 else (1 if changed else 0)
    return best, msg, run


def run_seed(base, k):
    return int.from_bytes(hashlib.blake2b(f"Y01 {base} {k}".encode(), digest_size=8).digest(), "big")


def worker(w, width, base, end, out):
    stats, states, hist, n, k, recheck = collections.Counter(), set(), set(), 0, w, 0
    samples, steps, mismatch, fail = [], 0, 0, None
    while time.time() < end:
        seed = run_seed(base, k)
        msg, run = execute(seed=seed)
        n += 1
        steps += len(run.history)
        stats.update(run.stats)
        states |= run.states
        hist.add(hashlib.blake2b("\n".join(run.history).encode(), digest_size=8).digest())
        if k < 3:
            samples.append({"run": k, "seed": seed, "choices": len(run.t.log), "history": run.history[:40]})
        if msg is not None:
            best, m, r = shrink(run.t.log, 15)
            fail = {"property": "Y01", "base": base, "run": k, "seed": seed, "tape": best, "message": m, "history": r.history}
            break
        if n % 50 == 1:
            msg2, run2 = execute(given=run.t.log)
            recheck += 1
            if msg2 != msg or run2.history != run.history:
                mismatch += 1
        k += width
    out.put((n, steps, stats, states, hist, samples, recheck, mismatch, fail))


def main():
    if sys.argv[1] == "replay":
        f = json.load(open(sys.argv[2]))
        msg, run = execute(given=f["tape"])
        for line in run.history:
            print("  " + line)
        if msg is None:
            print("not reproduced")
            return 0
        same = msg == f["message"] and run.history == f["history"]
        print(msg)
        print("reproduced exactly" if same else "fails differently from the recording")
        print(f"VIOLATION property=Y01 replay={sys.argv[2]}")
        return 1
    tier = sys.argv[1]
    base = int(os.environ.get("VERIF_SEED", "1"))
    cap = float(os.environ.get("Y01_CAP", "15" if tier == "quick" else "600"))
    width = int(os.environ.get("Y01_WIDTH", "8"))
    start = time.time()
    out = mp.get_context("fork").Queue()
    ps = [mp.get_context("fork").Process(target=worker, args=(w, width, base, start + cap, out)) for w in range(width)]
    for p in ps:
        p.start()
    total = [0, 0, collections.Counter(), set(), set(), [], 0, 0]
    fails, answers = [], 0
    while answers < width:
        try:
            r = out.get(timeout=5)
        except Exception:
            if not any(p.is_alive() for p in ps) and out.empty():
                break
            if time.time() > start + cap + 120:
                break
            continue
        answers += 1
        for i, v in enumerate(r[:8]):
            if isinstance(v, (int, list)):
                total[i] = total[i] + v
            elif isinstance(v, set):
                total[i] |= v
            else:
                total[i].update(v)
        if r[8]:
            fails.append(r[8])
    for p in ps:
        p.join(2)
        if p.is_alive():
            p.kill()
    if answers < width:
        print("a worker gave no answer")
        return 2
    n, steps, stats, states, hist, samples, recheck, mismatch = total
    wall = time.time() - start
    faults = {k[7:]: v for k, v in stats.items() if k.startswith("fault: ")}
    ev = {
        "property": "Y01", "tier": tier, "seed": base, "level": "exploration", "wall_s": round(wall, 2),
        "violations": len(fails),
        "assumptions": ["nodes are deleted leaves first; links use ports that the operation has", "model formats are not used: the compiled extension module is replaced by one that refuses"],
        "coverage": {
            "evaluations": n, "distinct_nontrivial": len(hist),
            "rule": "each run is a random history of edits, saves, restarts and torn loads over up to three graphs; distinct by the full history",
            "samples": sorted(samples, key=lambda s: s["run"])[:3],
            "runs_per_hour": int(n / wall * 3600), "seeds_per_hour": int(n / wall * 3600),
            "simulated_operations": steps,
            "simulated_time": "no clock: time is the number of edits", "faults_injected": faults,
            "probes": {k: v for k, v in sorted(stats.items()) if not k.startswith("fault: ")},
            "distinct_states": {"count": len(states), "measure": "distinct stored forms (hash)"},
            "determinism_rechecks": recheck, "determinism_mismatches": mismatch,
            "real_components": "hugr-py's Hugr, Node, BiMap, operations, serialization and envelopes; the hugr binary loads every stored form",
            "stubs": "hugr._hugr (compiled extension module, used for the model formats only)",
        },
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence/Y01.json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, ensure_ascii=False)
    if mismatch:
        print(f"{mismatch} runs were not repeatable")
        return 2
    if fails:
        fail = min(fails, key=lambda x: len(x["tape"]))
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, f"replays/Y01-{fail['seed']}.json")
        with open(path, "w") as f:
            json.dump(fail, f, indent=1, ensure_ascii=False)
        for line in fail["history"]:
            print("  " + line)
        print(fail["message"])
        print(f"VIOLATION property=Y01 replay={path}")
        return 1
    if n < 20:
        print("too few runs")
        return 2
    print(f"Y01 held: {n} runs, {steps} edits, {wall:.1f} s; " + ", ".join(f"{k}={v}" for k, v in sorted(stats.items())))
    return 0


if __name__ == "__main__":
    sys.exit(main())
