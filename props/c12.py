"""Graph editing: histories of public edits next to a plain model of the graph; loading and exporting models."""
import json

import numpy as np
import onnx
import onnxgen
import prog
from core import Info, Reject, Suite, Violation
from onnx import helper, numpy_helper

# ------------------------------------------------------------------ the plain model of a graph
SH = [2, 3]
F = 1
BOOL = 9
I64 = 7
UN = {"Neg": np.negative, "Abs": np.abs, "Identity": lambda a: a, "Floor": np.floor, "Sign": np.sign}
BIN = {"Add": np.add, "Sub": np.subtract, "Min2": np.minimum}


class SN:
    def __init__(self, name, op, ins, outs, attrs=None, bodies=None, value=None, dom=""):
        self.name, self.op, self.ins, self.outs, self.attrs, self.bodies, self.value, self.dom = name, op, list(ins), list(outs), attrs or {}, bodies or {}, value, dom


class SG:
    """What a graph is expected to be: nodes by name, and the recorded shapes and types of their outputs."""

    def __init__(self, parent=None, owner=None):
        self.parent, self.owner = parent, owner
        self.nodes, self.inputs, self.outputs = {}, [], []
        self.shape, self.dtype = {}, {}

    def producer(self, t):
        for n in self.nodes.values():
            if t in n.outs:
                return n
        return None

    def lookup(self, t):
        g = self
        while g is not None:
            n = g.producer(t)
            if n is not None:
                return n, g
            g = g.parent
        return None, None

    def graphs(self):
        yield self
        for n in self.nodes.values():
            for b in n.bodies.values():
                yield from b.graphs()

    def tensors(self):
        return [o for n in self.nodes.values() for o in n.outs if o]

    def consumers(self, t):
        """names of the nodes of this graph and of its bodies which take t"""
        return sorted(n.name for g in self.graphs() for n in g.nodes.values() if t in n.ins)

    def all_inputs(self, n):
        """everything the node needs, with what its bodies take from outside"""
        out = [i for i in n.ins if i]
        for b in n.bodies.values():
            for g in b.graphs():
                for m in g.nodes.values():
                    out += [i for i in m.ins if i and b.lookup_inside(i, g) is None]
        return out

    def lookup_inside(self, t, g):
        """producer of t as seen from g, searching no further out than this graph"""
        while g is not None:
            n = g.producer(t)
            if n is not None:
                return n
            if g is self:
                return None
            g = g.parent
        return None

    def depends(self, t, name, seen=None):
        """does tensor t of this graph need the node with that name?"""
        seen = set() if seen is None else seen
        n = self.producer(t)
        if n is None or n.name in seen:
            return False
        if n.name == name:
            return True
        seen.add(n.name)
        return any(self.depends(i, name, seen) for i in self.all_inputs(n))

    def live(self, outs=None):
        todo, seen = list(outs if outs is not None else self.outputs) + [i for i in self.inputs], {}
        while todo:
            n = self.producer(todo.pop())
            if n is None or n.name in seen:
                continue
            seen[n.name] = n
            todo += self.all_inputs(n)
        return seen

    def evaluate(self, t, env):
        if t in env:
            return env[t]
        n, g = self.lookup(t)
        if n is None:
            raise Reject("nothing makes %s" % t)
        if g is not self:
            raise AssertionError("evaluated in the wrong scope")
        v = [None if not i else self.fetch(i, env) for i in n.ins]
        op = n.op
        if op == "Const":
            r = [n.value]
        elif op in UN:
            r = [UN[op](v[0])]
        elif op == "Add":
            r = [v[0] + v[1]]
        elif op == "Sub":
            r = [v[0] - v[1]]
        elif op == "Sum":
            r = [sum(v[1:], v[0])]
        elif op == "Max":
            a = v[0]
            for b in v[1:]:
                a = np.maximum(a, b)
            r = [a]
        elif op == "Clip":
            a = v[0]
            lo, hi = (v + [None, None])[1:3]
            a = np.maximum(a, lo) if lo is not None else a
            r = [np.minimum(a, hi) if hi is not None else a]
        elif op == "If":
            b = n.bodies["then_branch" if v[0] else "else_branch"]
            e = Env(env)
            r = [b.fetch(o, e) for o in b.outputs]
        elif op == "Loop":
            b = n.bodies["body"]
            state = v[2:]
            for it in range(int(v[0])):
                e = Env(env)
                e[b.inputs[0]], e[b.inputs[1]] = np.int64(it), np.bool_(True)
                for i, s in zip(b.inputs[2:], state):
                    e[i] = s
                state = [b.fetch(o, e) for o in b.outputs[1:]]
            r = state
        else:
            raise AssertionError(op)
        for o, x in zip(n.outs, r):
            env[o] = x
        return env[t]

    def fetch(self, t, env):
        g, e = self, env
        while g is not None:
            if t in e.own:
                return e.own[t]
            if g.producer(t) is not None:
                return g.evaluate(t, e)
            g, e = g.parent, e.up
        raise Reject("nothing makes %s" % t)


class Env:
    def __init__(self, up=None):
        self.up, self.own = up, {}

    def __contains__(self, t):
        return t in self.own

    def __getitem__(self, t):
        return self.own[t]

    def __setitem__(self, t, v):
        self.own[t] = v


# ------------------------------------------------------------------ the pair of graphs
class Pair:
    def __init__(self, spec):
        from tf2onnx.graph import Graph
        self.k = 0
        self.opset = spec["opset"]
        self.g = Graph([], output_shapes={}, dtypes={}, opset=spec["opset"], output_names=[])
        self.s = SG()
        self.map = {id(self.s): self.g}
        self.done = []

    def new(self, stem):
        self.k += 1
        return "%s%d" % (stem, self.k)

    def graph(self, sg):
        return self.map[id(sg)]

    def const(self, sg, value, name=None):
        name = name or self.new("c")
        value = np.asarray(value)
        self.graph(sg).make_const(name, value)
        self.add(sg, SN(name, "Const", [], [name], value=value), list(value.shape), {"float32": F, "bool": BOOL, "int64": I64}[str(value.dtype)])
        return name

    def add(self, sg, n, shape=None, dtype=F):
        sg.nodes[n.name] = n
        for o in n.outs:
            sg.shape[o], sg.dtype[o] = shape, dtype

    def scalar(self, sg, value, dtype):
        """a constant of the outermost graph"""
        return self.const(sg, np.array(value, dtype))

    def input(self, sg, shape=SH, dtype=F, name=None):
        name = name or self.new("x")
        g = self.graph(sg)
        g.add_graph_input(name, dtype, list(shape))
        n = g.get_node_by_output(name)
        self.add(sg, SN(n.name, "Placeholder", [], [name]), list(shape), dtype)
        sg.inputs.append(name)
        return name

    def node(self, sg, op, ins, name=None, outs=None, bodies=None, with_shape=True, n_out=1, dom=""):
        name = name or self.new("n")
        g = self.graph(sg)
        kw = {}
        if with_shape:
            kw = {"shapes": [list(SH)] * (len(outs) if outs else n_out), "dtypes": [F] * (len(outs) if outs else n_out)}
        if bodies:
            kw["branches"] = {k: self.graph(b) for k, b in bodies.items()}
        if outs:
            node = g.make_node(op, list(ins), outputs=list(outs), name=name, domain=dom, **kw)
        else:
            node = g.make_node(op, list(ins), output_count=n_out, name=name, domain=dom, **kw)
        if node.name != name:
            raise Violation("make_node(name=%r) makes a node named %r" % (name, node.name))
        for b in (bodies or {}).values():
            b.parent, b.owner = sg, name
        self.add(sg, SN(name, op, ins, node.output, bodies=bodies, dom=dom), list(SH))
        if not with_shape:
            for o in node.output:
                self.adopt(sg, o)
        return sg.nodes[name]

    def adopt(self, sg, o):
        """what was inferred for a new tensor: it has to be true, and stays as it is from now on"""
        g = self.graph(sg)
        sh, dt = g.get_shape(o), g.get_dtype(o)
        if dt not in (None, F):
            raise Violation("inferred type of %s is %s" % (o, dt))
        if sh is not None and (len(sh) != 2 or any(a not in (-1, b) for a, b in zip(sh, SH))):
            raise Violation("inferred shape of %s is %s" % (o, sh))
        sg.shape[o], sg.dtype[o] = None if sh is None else list(sh), dt

    def new_body(self, sg):
        b = SG(sg)
        self.map[id(b)] = self.graph(sg).create_new_graph_with_same_config()
        return b

    # ---- what a body may take from outside
    def visible(self, sg, dtype=F, avoid=None):
        """tensors a node of sg can take, without those which need node `avoid` of sg"""
        out, g, owner = [], sg, avoid
        while g is not None:
            for n in g.nodes.values():
                for o in n.outs:
                    if o and kind(g, n, o) == dtype and (owner is None or not g.depends(o, owner)):
                        out.append(o)
            owner = g.owner
            g = g.parent
        return out


def kind(g, n, o):
    """the type of the tensor, whatever is recorded for it"""
    if n.op == "Const":
        return {"float32": F if list(n.value.shape) == SH else -1, "bool": BOOL, "int64": I64}[str(n.value.dtype)]
    if n.op == "Placeholder" and g.parent is not None and o in g.inputs[:2]:
        return (I64, BOOL)[g.inputs.index(o)]
    return n.attrs.get("kind", F)


# ------------------------------------------------------------------ generating histories
KINDS = [(8, "unary"), (6, "binary"), (4, "variadic"), (2, "clip"), (4, "const"), (4, "if"), (3, "loop"), (2, "input"), (4, "output"),
         (6, "remove"), (4, "remove_unsafe"), (6, "remake"), (10, "replace_all"), (6, "replace_all_ops"), (8, "replace_input"), (4, "replace_inputs"),
         (4, "remove_input"), (6, "insert_in"), (8, "insert_out"), (3, "rename_node"), (3, "set_shape"), (2, "set_dtype"), (2, "copy_shape"),
         (2, "copy_const"), (3, "prune"), (2, "sort"), (2, "reset"), (3, "queries"), (2, "rename_tensors"), (2, "move_body")]


def gen_edits(d):
    n = d.int(6, 26)
    return {"opset": d.choice([13, 14, 15, 16, 17, 18, 12, 11]), "inputs": d.int(1, 3), "start": [[d.weighted(KINDS[:8])] + d.ints(5, 0, 30) for _ in range(d.int(1, 7))],
            "ops": [[d.weighted(KINDS)] + d.ints(5, 0, 30) for _ in range(n)], "seed": d.seed()}


def at(seq, i):
    return seq[i % len(seq)]


def apply(p, op, a, top):
    """Applies one edit to both; returns what was done, or None where the edit doesn't apply here."""
    sgs = list(p.s.graphs())
    sg = p.s if a[0] % 3 == 0 else at(sgs, a[0] // 3)
    g = p.graph(sg)
    movable = [n for n in sg.nodes.values() if n.op not in ("Placeholder",)]
    real = [n for n in movable if n.op != "Const"]
    vis = p.visible(sg)
    if op == "unary":
        if not vis:
            return None
        n = p.node(sg, at(sorted(UN), a[1]), [at(vis, a[2])], with_shape=a[3] % 3 > 0)
        return "%s(%s)" % (n.op, n.ins)
    if op == "binary":
        if not vis:
            return None
        n = p.node(sg, at(["Add", "Sub"], a[1]), [at(vis, a[2]), at(vis, a[3])], with_shape=a[4] % 3 > 0)
        return "%s(%s)" % (n.op, n.ins)
    if op == "variadic":
        if not vis:
            return None
        n = p.node(sg, at(["Sum", "Max"], a[1]), [at(vis, a[2] + j * a[3]) for j in range(1 + a[4] % 4)], with_shape=a[4] % 3 > 0)
        return "%s(%s)" % (n.op, n.ins)
    if op == "clip":
        if not vis:
            return None
        lo = p.const(sg, np.array(-1.5, np.float32)) if a[1] % 2 else ""
        hi = p.const(sg, np.array(2.0, np.float32)) if a[2] % 3 or not lo else None
        n = p.node(sg, "Clip", [at(vis, a[3]), lo] + ([hi] if hi else []))
        return "Clip(%s)" % n.ins
    if op == "const":
        v = (np.random.RandomState(a[1] * 31 + a[2]).randint(-6, 7, SH) * 0.5).astype(np.float32)
        return "const %s" % p.const(sg, v)
    if op in ("if", "loop"):
        if not vis or len(sgs) > 6 or depth(sg) > 2:
            return None
        n_out = 1 + a[1] % 2
        if op == "if":
            cond = p.scalar(sg, a[2] % 2 == 0, bool)
            bodies = {}
            for j, k in enumerate(("then_branch", "else_branch")):
                b = p.new_body(sg)
                b.owner = None
                for o in range(n_out):
                    x = at(p.visible(b), a[3] + 3 * j + o)
                    m = p.node(b, at(["Neg", "Abs", "Add", "Identity"], a[4] + j + o), [x] if at(["Neg", "Abs", "Add", "Identity"], a[4] + j + o) != "Add" else [x, at(p.visible(b), a[5 - 1] + o)])
                    b.outputs.append(m.outs[0])
                p.graph(b).outputs = list(b.outputs)
                bodies[k] = b
            n = p.node(sg, "If", [cond], bodies=bodies, n_out=n_out)
        else:
            trips = p.scalar(sg, 1 + a[2] % 3, np.int64)
            b = p.new_body(sg)
            p.input(b, [], I64)
            c = p.input(b, [], BOOL)
            state = [p.input(b) for _ in range(n_out)]
            gb = p.graph(b)
            co = p.new("n")
            gb.make_node("Identity", [c], name=co, shapes=[[]], dtypes=[BOOL])
            p.add(b, SN(co, "Identity", [c], [co + ":0"], attrs={"kind": BOOL}), [], BOOL)
            b.outputs.append(co + ":0")
            for o in range(n_out):
                m = p.node(b, "Sub", [at(state, a[3] + o), at([t for t in p.visible(b) if kind_at(b, t) == F], a[4] + o)])
                b.outputs.append(m.outs[0])
            gb.outputs = list(b.outputs)
            n = p.node(sg, "Loop", [trips, ""] + [at(vis, a[3] + o) for o in range(n_out)], bodies={"body": b}, n_out=n_out)
        return "%s -> %s" % (op, n.outs)
    if op == "input":
        if sg is not p.s:
            return None
        return "input %s" % p.input(sg)
    if op == "output":
        if sg is not p.s:
            return None
        c = [t for t in sg.tensors() if kind_of(sg, t) == F and t not in sg.outputs and sg.producer(t).op not in ("Placeholder", "Const")
             and sg.shape.get(t) is not None and sg.dtype.get(t) is not None]
        if not c:
            return None
        t = at(c, a[1])
        g.add_graph_output(t)
        sg.outputs.append(t)
        return "output %s" % t
    if op in ("remove", "remove_unsafe"):
        unused = [n for n in movable if not any(sg.consumers(o) for o in n.outs if o) and not set(n.outs) & set(sg.outputs)]
        if op == "remove":
            if not unused:
                return None
            n = at(unused, a[1])
            g.remove_node(n.name)
            drop(sg, n)
            return "remove %s" % n.name
        # take the node away, then replace what it made
        c = [n for n in movable if len(n.outs) == 1 and kind_of(sg, n.outs[0]) == F and not set(n.outs) & set(sg.outputs)]
        if not c:
            return None
        n = at(c, a[1])
        o = n.outs[0]
        new = [t for t in p.visible(sg, avoid=n.name) if t != o]
        if not new:
            return None
        t = at(new, a[2])
        g.remove_node(n.name)
        drop(sg, n)
        g.replace_all_inputs(o, t)
        rewire(sg, o, t)
        return "remove %s and use %s" % (n.name, t)
    if op == "remake":
        c = [n for n in real if not n.bodies and n.op in UN or n.op in ("Add", "Sub", "Sum", "Max")]
        c = [n for n in c if kind_of(sg, n.outs[0]) == F]
        if not c:
            return None
        n = at(c, a[1])
        ins = [at(p.visible(sg, avoid=n.name), a[2] + j) for j in range(1 + a[3] % 3)] if p.visible(sg, avoid=n.name) else None
        if ins is None:
            return None
        g.remove_node(n.name)
        drop(sg, n)
        p.node(sg, "Sum", ins, name=n.name if a[4] % 2 else None, outs=n.outs, with_shape=a[4] % 3 > 0)
        return "remake %s of %s" % (n.outs, ins)
    if op in ("replace_all", "replace_all_ops"):
        c = [t for t in sg.tensors() if kind_of(sg, t) == F]
        if not c:
            return None
        old = at(c, a[1])
        users = [n for n in sg.nodes.values() if old in n.ins or any(old in m.ins for b in n.bodies.values() for h in b.graphs() for m in h.nodes.values())]
        new = [t for t in sg.tensors() if kind_of(sg, t) == F and not any(sg.depends(t, u.name) for u in users)]
        if not new:
            return None
        t = at(new, a[2])
        if op == "replace_all":
            g.replace_all_inputs(old, t)
        else:
            g.replace_all_inputs(old, t, ops=g.get_nodes())
        rewire(sg, old, t)
        return "%s %s by %s" % (op, old, t)
    if op in ("replace_input", "replace_inputs", "insert_in"):
        c = [n for n in real if any(i and kind_at(sg, i) == F for i in n.ins) and n.op != "Clip" and n.op not in ("Loop", "If") or n.op in ("Loop", "Clip")]
        if not c:
            return None
        n = at(c, a[1])
        node = g.get_node_by_name(n.name)
        idx = [j for j, i in enumerate(n.ins) if i and kind_at(sg, i) == F]
        if not idx:
            return None
        j = at(idx, a[2])
        old = n.ins[j]
        new = p.visible(sg, avoid=n.name)
        if op == "insert_in":
            name = p.new("n")
            k = at(["Neg", "Identity", "Abs"], a[3])
            first = n.ins.index(old)
            given = a[4] % 2 or first != j
            g.insert_new_node_on_input(node, k, old, name=name, input_index=j if given else None)
            o = name + ":0"
            p.add(sg, SN(name, k, [old], [o]))
            n.ins[j] = o
            p.adopt(sg, o)
            return "insert %s into input %d of %s" % (k, j, n.name)
        if not new:
            return None
        t = at(new, a[3])
        if op == "replace_inputs":
            if n.op in ("Loop", "Clip"):
                return None
            ins = [at(new, a[3] + k * a[4]) for k in range(len(n.ins))]
            g.replace_inputs(node, list(ins))
            n.ins = ins
            return "inputs of %s: %s" % (n.name, ins)
        if a[4] % 2:
            g.replace_input(node, old, t, j)
            n.ins[j] = t
        else:
            g.replace_input(node, old, t)
            n.ins = [t if i == old else i for i in n.ins]
        return "replace input %s of %s by %s%s" % (old, n.name, t, " at %d" % j if a[4] % 2 else "")
    if op == "remove_input":
        c = [n for n in real if n.op in ("Sum", "Max") and len(n.ins) > 1]
        if not c:
            return None
        n = at(c, a[1])
        j = a[2] % len(n.ins)
        node = g.get_node_by_name(n.name)
        if a[3] % 2 or n.ins.count(n.ins[j]) > 1:
            g.remove_input(node, n.ins[j], j)
        else:
            g.remove_input(node, n.ins[j])
        del n.ins[j]
        return "remove input %d of %s" % (j, n.name)
    if op == "insert_out":
        c = [t for t in sg.tensors() if kind_of(sg, t) == F]
        if not c:
            return None
        t = at(c, a[1])
        name = p.new("n")
        k = at(["Neg", "Identity", "Abs"], a[2])
        g.insert_new_node_on_output(k, t, name=name)
        o = name + ":0"
        rewire(sg, t, o)
        p.add(sg, SN(name, k, [t], [o]))
        p.adopt(sg, o)
        return "insert %s on %s" % (k, t)
    if op == "rename_node":
        c = [n for n in real if n.outs and all(kind_of(sg, o) == F for o in n.outs)]
        if not c or any(sg.shape.get(o) is None or sg.dtype.get(o) is None for o in at(c, a[1]).outs):
            return None
        n = at(c, a[1])
        name = p.new("r")
        g.change_node_name(g.get_node_by_name(n.name), name)
        outs = ["%s:%d" % (name, i) for i in range(len(n.outs))]
        shapes = [(sg.shape.get(o), sg.dtype.get(o)) for o in n.outs]
        drop(sg, n)
        for o, q in zip(n.outs, outs):
            rewire(sg, o, q)
        sg.outputs = [outs[n.outs.index(o)] if o in n.outs else o for o in sg.outputs]
        m = SN(name, n.op, n.ins, outs, bodies=n.bodies, dom=n.dom)
        p.add(sg, m)
        for b in n.bodies.values():
            b.owner = name
        for o, (s, dt) in zip(outs, shapes):
            sg.shape[o], sg.dtype[o] = s, dt
        return "rename %s to %s" % (n.name, name)
    if op in ("set_shape", "set_dtype", "copy_shape"):
        c = [t for t in vis if not is_const(sg, t)]
        if not c:
            return None
        t = at(c, a[1])
        _, h = sg.lookup(t)
        if op == "set_shape":
            v = at([[2, 3], [-1, 3], [2, -1], [-1, -1], [2, 3]], a[2])
            g.set_shape(t, at([list, tuple, np.array], a[3])(v))
            h.shape[t] = list(v)
        elif op == "set_dtype":
            g.set_dtype(t, F)
            h.dtype[t] = F
        else:
            src = at(vis, a[2])
            _, h2 = sg.lookup(src)
            g.copy_shape(src, t)
            if h2.shape.get(src) is not None:
                h.shape[t] = list(h2.shape[src])
        return "%s %s" % (op, t)
    if op == "copy_const":
        c = [n for n in sg.nodes.values() if n.op == "Const"]
        if not c:
            return None
        n = at(c, a[1])
        name = p.new("c")
        g.copy_const(g.get_node_by_name(n.name), name)
        p.add(sg, SN(name, "Const", [], [name], value=n.value), list(n.value.shape), sg.dtype[n.outs[0]])
        return "copy %s" % n.name
    if op == "prune":
        if not sg.outputs:
            return None
        g.delete_unused_nodes(sg.outputs)
        prune(sg)
        return "prune"
    if op == "sort":
        g.topological_sort(g.get_nodes())
        seen = set()
        for n in g.get_nodes():
            for i in sg.all_inputs(sg.nodes[n.name]):
                if sg.producer(i) is not None and i not in seen:
                    raise Violation("after topological_sort node %s comes before what makes its input %s" % (n.name, i))
            seen.update(n.output)
        return "sort"
    if op == "reset":
        nodes = list(g.get_nodes())
        k = a[1] % max(1, len(nodes))
        g.reset_nodes(nodes[k:] + nodes[:k])
        return "reset"
    if op == "queries":
        c = [n for n in sg.nodes.values()]
        if not c:
            return None
        some = [at(c, a[1] + j * a[2]) for j in range(1 + a[3] % 4)]
        names = {n.name for n in some}
        nodes = [g.get_node_by_name(n) for n in sorted(names)]
        want = all(set(sg.consumers(o)) <= names for n in some for o in n.outs if o)
        got = g.is_safe_to_remove_nodes(nodes)
        if got != want:
            raise Violation("is_safe_to_remove_nodes(%s) is %s" % (sorted(names), got))
        want = sorted(n for n in names if all(set(sg.consumers(o)) <= names for o in sg.nodes[n].outs if o))
        got = sorted(n.name for n in g.safe_to_remove_nodes(nodes))
        if got != want:
            raise Violation("safe_to_remove_nodes(%s) gives %s, expected %s" % (sorted(names), got, want))
        outs = [o for n in some for o in n.outs if o]
        want = sorted(needed(sg, outs))
        got = sorted(n.name for n in g.extract_sub_graph_nodes(outs))
        if got != want:
            raise Violation("extract_sub_graph_nodes(%s) gives %s, expected %s" % (outs, got, want))
        return "queries"
    if op == "rename_tensors":
        if sg is not p.s:
            return None
        c = [t for t in sg.tensors() if not is_const(sg, t)]
        if not c:
            return None
        t, q = at(c, a[1]), p.new("t")
        if any(t in n.ins for h in sg.graphs() if h is not sg for n in h.nodes.values()) and not top.get("rename_in_bodies", True):
            return None
        g.rename_tensors({t: q})
        n = sg.producer(t)
        n.outs = [q if o == t else o for o in n.outs]
        rewire(sg, t, q)
        sg.inputs = [q if o == t else o for o in sg.inputs]
        sg.outputs = [q if o == t else o for o in sg.outputs]
        sg.shape[q], sg.dtype[q] = sg.shape.pop(t, None), sg.dtype.pop(t, None)
        return "rename tensor %s to %s" % (t, q)
    if op == "move_body":
        # the idiom of handlers: a node with bodies is made again, with the same bodies
        c = [n for n in real if n.bodies]
        if not c:
            return None
        n = at(c, a[1])
        name = p.new("n")
        bodies = g.get_node_by_name(n.name).get_body_graphs()
        g.remove_node(n.name)
        drop(sg, n)
        g.make_node(n.op, list(n.ins), name=name, outputs=list(n.outs), shapes=[list(SH)] * len(n.outs), dtypes=[F] * len(n.outs), branches=bodies)
        p.add(sg, SN(name, n.op, n.ins, n.outs, bodies=n.bodies), list(SH))
        for b in n.bodies.values():
            b.owner = name
        return "make %s again as %s" % (n.name, name)
    raise AssertionError(op)


def kind_of(sg, t):
    n = sg.producer(t)
    return kind(sg, n, t)


def kind_at(sg, t):
    n, g = sg.lookup(t)
    return None if n is None else kind(g, n, t)


def is_const(sg, t):
    n, _ = sg.lookup(t)
    return n.op == "Const"


def depth(sg):
    n = 0
    while sg is not None:
        sg, n = sg.parent, n + 1
    return n


def drop(sg, n):
    del sg.nodes[n.name]
    for o in n.outs:
        sg.shape.pop(o, None)
        sg.dtype.pop(o, None)


def rewire(sg, old, new):
    for h in sg.graphs():
        for n in h.nodes.values():
            n.ins = [new if i == old else i for i in n.ins]


def needed(sg, outs):
    todo, seen = list(outs), set()
    while todo:
        n = sg.producer(todo.pop())
        if n is None or n.name in seen:
            continue
        seen.add(n.name)
        todo += sg.all_inputs(n)
    return seen


def prune(sg):
    # bodies first: a node which a dead part of a body takes is still taken while pruning its graph
    keep = needed(sg, list(sg.outputs) + list(sg.inputs))
    for n in list(sg.nodes.values()):
        if n.name not in keep:
            drop(sg, n)
    for n in sg.nodes.values():
        for b in n.bodies.values():
            if b.outputs:
                prune(b)


def invariants(p, after):
    for sg in p.s.graphs():
        g = p.graph(sg)
        have = sorted(n.name for n in g.get_nodes())
        if have != sorted(sg.nodes):
            raise Violation("%s: nodes are %s, expected %s" % (after, have, sorted(sg.nodes)))
        if [n.output[0] for n in g.inputs] != sg.inputs:
            raise Violation("%s: inputs are %s, expected %s" % (after, g.input_names, sg.inputs))
        if list(g.outputs) != sg.outputs:
            raise Violation("%s: outputs are %s, expected %s" % (after, g.outputs, sg.outputs))
        for name, n in sg.nodes.items():
            node = g.get_node_by_name(name)
            if node is None or node.type != n.op or (n.op != "Placeholder" and list(node.input) != n.ins) or list(node.output) != n.outs:
                raise Violation("%s: node %s is %s %s -> %s, expected %s %s -> %s" % (after, name, node and node.type, node and node.input, node and node.output, n.op, n.ins, n.outs))
            if node.graph is not g:
                raise Violation("%s: node %s does not belong to its graph" % (after, name))
            bodies = node.get_body_graphs() or {}
            if sorted(bodies) != sorted(n.bodies) or any(bodies[k] is not p.graph(b) for k, b in n.bodies.items()):
                raise Violation("%s: bodies of %s are %s, expected %s" % (after, name, sorted(bodies), sorted(n.bodies)))
            for b in bodies.values():
                if b.parent_graph is not g:
                    raise Violation("%s: a body of %s does not know its parent" % (after, name))
            made = [None if not i else sg.lookup(i)[0] for i in n.ins]
            got = [x and x.name for x in node.inputs]
            if got != [m and m.name for m in made]:
                raise Violation("%s: inputs of %s come from %s, expected %s" % (after, name, got, [m and m.name for m in made]))
        broken = sorted({i for n in sg.nodes.values() for i in n.ins if i and sg.lookup(i)[0] is None})
        if sorted(g.check_integrity()) != broken:
            raise Violation("%s: check_integrity() gives %s, expected %s" % (after, g.check_integrity(), broken))
    every = {t for sg in p.s.graphs() for t in sg.tensors()} | {i for sg in p.s.graphs() for n in sg.nodes.values() for i in n.ins if i}
    for sg in p.s.graphs():
        g = p.graph(sg)
        mine = set(sg.tensors())
        for t in sorted(every):
            n, h = sg.lookup(t)
            x = g.get_node_by_output(t)
            if (x and x.name) != (n and n.name):
                raise Violation("%s: %s is made by %s, expected %s" % (after, t, x and x.name, n and n.name))
            x = g.get_node_by_output_in_current_graph(t)
            if (x is None) != (t not in mine):
                raise Violation("%s: %s is %sa tensor of graph %s" % (after, t, "" if x else "not ", sg.owner))
            if n is None:
                if g.get_shape(t) is not None or g.get_dtype(t) is not None:
                    raise Violation("%s: %s does not exist any more but has shape %s and type %s" % (after, t, g.get_shape(t), g.get_dtype(t)))
                continue
            want = h.shape.get(t), h.dtype.get(t)
            got = g.get_shape(t), g.get_dtype(t)
            if tuple(got) != tuple(want):
                raise Violation("%s: shape and type of %s are %s, expected %s" % (after, t, got, want))
            if g.get_rank(t) != (None if want[0] is None else len(want[0])):
                raise Violation("%s: rank of %s is %s" % (after, t, g.get_rank(t)))
            if h is sg:
                users = sorted(x.name for x in g.find_output_consumers(t))
                if users != sg.consumers(t):
                    raise Violation("%s: %s is taken by %s, expected %s" % (after, t, users, sg.consumers(t)))
                safe = g.is_safe_to_remove_nodes([g.get_node_by_name(n.name)])
                if safe != (not any(sg.consumers(o) for o in n.outs if o)):
                    raise Violation("%s: is_safe_to_remove_nodes(%s) is %s" % (after, n.name, safe))


def run_edits(spec):
    p = Pair(spec)
    for _ in range(spec["inputs"]):
        p.input(p.s)
    log, kinds = [], []
    try:
        for o in spec["start"] + spec["ops"]:
            try:
                what = apply(p, o[0], o[1:], spec)
            except (Violation, Reject):
                raise
            except Exception as e:  # noqa: BLE001
                raise Violation("edit %s raises %s: %s" % (o, type(e).__name__, str(e)[:300])) from e
            if what:
                log.append(what)
                kinds.append(o[0])
                invariants(p, what)
        export(p)
    except Violation as e:
        raise Violation("%s\n history: %s" % (e, "; ".join(log[-14:]))) from e
    return Info(len(log) > 5 and len(p.s.outputs) > 0, kinds + (["bodies"] if len(list(p.s.graphs())) > 1 else []), evals=len(log) + 1)


def export(p):
    s, g = p.s, p.g
    if not s.outputs:
        c = [t for t in s.tensors() if kind_of(s, t) == F and s.producer(t).op not in ("Placeholder", "Const") and s.shape.get(t) is not None and s.dtype.get(t) is not None]
        if not c:
            raise Reject("nothing to export")
        g.add_graph_output(c[-1])
        s.outputs.append(c[-1])
    for sg in s.graphs():
        if any(i and sg.lookup(i)[0] is None for n in sg.nodes.values() for i in n.ins):
            raise Reject("broken on purpose")
    r = np.random.RandomState(5)
    feeds = {i: (r.randint(-8, 9, SH) * 0.5).astype(np.float32) for i in s.inputs}
    prune(s)
    env = Env()
    for k, v in feeds.items():
        env[k] = v
    refs = [s.fetch(o, env) for o in s.outputs]
    try:
        m = g.make_model("verif", graph_name="edited")
    except Exception as e:  # noqa: BLE001
        raise Violation("exporting raises %s: %s" % (type(e).__name__, str(e)[:300])) from e
    if [i.name for i in m.graph.input] != s.inputs or [o.name for o in m.graph.output] != s.outputs:
        raise Violation("the exported model has inputs %s and outputs %s, expected %s and %s" % (
            [i.name for i in m.graph.input], [o.name for o in m.graph.output], s.inputs, s.outputs))
    same_nodes(m.graph, s)
    try:
        onnx.checker.check_model(m, full_check=True)
        got = prog.session(m.SerializeToString()).run(None, feeds)
    except Exception as e:  # noqa: BLE001
        raise Violation("the exported model is not valid or does not run: %s" % str(e)[:400]) from e
    for o, a, b in zip(s.outputs, refs, got):
        x = prog.diff(np.asarray(a, np.float32), b)
        if x:
            raise Violation("output %s of the exported model: %s" % (o, x))


def same_nodes(gp, sg):
    want = sorted((n.op, tuple(n.ins), tuple(n.outs)) for n in sg.nodes.values() if n.op not in ("Const", "Placeholder"))
    got = sorted((n.op_type, tuple(n.input), tuple(n.output)) for n in gp.node)
    if got != want:
        raise Violation("the exported graph has nodes %s, expected %s" % ([x for x in got if x not in want], [x for x in want if x not in got]))
    consts = {n.outs[0]: n.value for n in sg.nodes.values() if n.op == "Const"}
    have = {i.name: numpy_helper.to_array(i) for i in gp.initializer}
    if sorted(have) != sorted(consts):
        raise Violation("the exported graph has initialisers %s, expected %s" % (sorted(have), sorted(consts)))
    for k, v in consts.items():
        if have[k].dtype != v.dtype or have[k].shape != v.shape or not np.array_equal(have[k], v):
            raise Violation("initialiser %s changed its value" % k)
    by = {n.outs[0]: n for n in sg.nodes.values() if n.bodies}
    for n in gp.node:
        if n.output[0] in by:
            attrs = {a.name: a.g for a in n.attribute if a.HasField("g")}
            b = by[n.output[0]].bodies
            if sorted(attrs) != sorted(b):
                raise Violation("exported node %s has bodies %s, expected %s" % (n.name, sorted(attrs), sorted(b)))
            for k in b:
                if [o.name for o in attrs[k].output] != b[k].outputs or [i.name for i in attrs[k].input] != b[k].inputs:
                    raise Violation("body %s of %s has inputs %s and outputs %s" % (k, n.name, [i.name for i in attrs[k].input], [o.name for o in attrs[k].output]))
                same_nodes(attrs[k], b[k])


# ------------------------------------------------------------------ loading and exporting
CONSTS = ["float32", "float64", "float16", "int64", "int32", "int8", "uint8", "uint16", "bool", "uint64", "string"]


def gen_model(d):
    spec = onnxgen.gen(d)
    x = {}
    x["consts"] = [{"dtype": d.choice(CONSTS), "shape": d.shape(0, 3, dim=3) if not d.prob(12) else d.choice([[0], [2, 0], [0, 3]]), "seed": d.seed(),
                    "special": d.prob(40), "how": d.choice(["init", "node", "typed"]), "doc": d.prob(20), "live": not d.prob(20)} for _ in range(d.int(0, 3))]
    x["plain"] = [{"attr": d.choice(["value_float", "value_floats", "value_int", "value_ints", "value_string", "value_strings"]), "n": d.int(0, 3), "seed": d.seed()}
                  for _ in range(d.int(0, 2))]
    x["rnn"] = d.choice([None, None, "", "seq", "h", "all"])
    x["ms"] = d.prob(30)
    x["props"] = {"ir_version": d.choice([7, 8, 8, 9]), "producer_name": d.choice(["", "someone"]), "producer_version": d.choice(["", "1.2"]), "domain": d.choice(["", "ai.test"]),
                  "model_version": d.choice([0, 3, 2 ** 40]), "doc_string": d.choice(["", "a model"])}
    x["meta"] = {"k%d" % i: d.choice(["", "v", "\u00e9\n{}"]) for i in range(d.int(0, 2))}
    x["gname"], x["gdoc"] = d.choice(["g", "main graph"]), d.choice(["", "doc of the graph"])
    x["custom"] = d.prob(25) and {"attrs": d.subset(["f", "i", "s", "fs", "is", "ss", "t"], 0), "n_in": d.int(1, 3), "n_out": d.int(1, 2), "seed": d.seed()}
    x["clash"] = d.prob(30)
    x["passthrough"] = d.prob(12)
    x["const_out"] = d.prob(12)
    x["infer"] = d.prob(30)
    spec["extra"] = x
    return spec


def special(c):
    r = np.random.RandomState(c["seed"])
    n = int(np.prod(c["shape"])) if c["shape"] else 1
    if c["dtype"] == "string":
        a = np.array([[b"", b"a", "\u00fc\u4e2d".encode(), b"x y\n", b"0"][r.randint(5)] for _ in range(n)], dtype=object)
    elif c["dtype"] == "bool":
        a = r.randint(0, 2, n).astype(bool)
    else:
        dt = np.dtype(c["dtype"])
        if c["special"]:
            pool = [np.nan, np.inf, -np.inf, -0.0, np.finfo(dt).tiny, np.finfo(dt).max, 1.1] if dt.kind == "f" else [np.iinfo(dt).min, np.iinfo(dt).max, 0, 1]
            a = np.array([pool[r.randint(len(pool))] for _ in range(n)], dtype=dt)
        else:
            a = (r.randn(n) * 3).astype(dt)
    return a.reshape(c["shape"])


def tensor_of(c, name):
    a = special(c)
    if c["dtype"] == "string" or c["how"] == "typed":
        vals = a.flatten()
        if c["dtype"] == "float16":
            vals = vals.astype(np.float32)
        return helper.make_tensor(name, helper.np_dtype_to_tensor_dtype(a.dtype) if c["dtype"] != "string" else onnx.TensorProto.STRING, a.shape, vals.tolist())
    return numpy_helper.from_array(a, name)


def build_model(spec):
    m = onnxgen.build(spec)
    x, g = spec["extra"], m.graph
    consts, outs = {}, []

    def out(name, elem, shape):
        g.output.append(helper.make_tensor_value_info(name, elem, shape))
    for i, c in enumerate(x["consts"]):
        name = "k_%d" % i
        t = tensor_of(c, name)
        if c["doc"]:
            t.doc_string = "a constant"
        if c["how"] == "node":
            g.node.insert(0, helper.make_node("Constant", [], [name], name="const_%d" % i, value=t))
        else:
            g.initializer.append(t)
        if c["live"]:
            g.node.append(helper.make_node("Identity", [name], [name + "_out"], name="kn_%d" % i))
            out(name + "_out", t.data_type, c["shape"])
            consts[name] = special(c)
    for i, c in enumerate(x["plain"]):
        r = np.random.RandomState(c["seed"])
        k, name = c["attr"], "p_%d" % i
        one = {"float": lambda: float(np.float32(r.randn())), "int": lambda: int(r.randint(-2**40, 2**40)), "string": lambda: "s%d" % r.randint(99)}[k[6:].rstrip("s")]
        v = [one() for _ in range(c["n"])] if k.endswith("s") else one()
        elem = {"float": 1, "int": 7, "string": 8}[k[6:].rstrip("s")]
        if k.endswith("s"):
            a = helper.make_attribute(k, v, attr_type={"float": 6, "int": 7, "string": 8}[k[6:].rstrip("s")])
            n = helper.make_node("Constant", [], [name], name="plain_%d" % i)
            n.attribute.append(a)
        else:
            n = helper.make_node("Constant", [], [name], name="plain_%d" % i, **{k: v})
        g.node.insert(0, n)
        g.node.append(helper.make_node("Identity", [name], [name + "_out"], name="pn_%d" % i))
        out(name + "_out", elem, [c["n"]] if k.endswith("s") else [])
        a = np.array(v, {"float": np.float32, "int": np.int64, "string": object}[k[6:].rstrip("s")])
        consts[name] = np.array([s.encode() for s in np.atleast_1d(a)], dtype=object).reshape(a.shape) if elem == 8 else a
    if x["rnn"] is not None:
        r = np.random.RandomState(7)
        for nm, sh in (("rx", [3, 2, 4]), ("rw", [1, 9, 4]), ("rr", [1, 9, 3])):
            g.initializer.append(numpy_helper.from_array(r.randn(*sh).astype(np.float32), nm))
        o = {"": ["ry", ""], "seq": ["ry"], "h": ["", "rh"], "all": ["ry", "rh"]}[x["rnn"]]
        g.node.append(helper.make_node("GRU", ["rx", "rw", "rr"], o, name="gru", hidden_size=3))
        for q in o:
            if q:
                out(q, 1, [3, 1, 2, 3] if q == "ry" else [1, 2, 3])
    if x["ms"]:
        g.initializer.append(numpy_helper.from_array(np.array([[0.5, -1.0]], np.float32), "msx"))
        g.node.append(helper.make_node("Gelu", ["msx"], ["msy"], name="msgelu", domain="com.microsoft"))
        out("msy", 1, [1, 2])
        m.opset_import.append(helper.make_opsetid("com.microsoft", 1))
    if x["custom"]:
        c = x["custom"]
        r = np.random.RandomState(c["seed"])
        vals = {"f": 1.5, "i": 7, "s": "text", "fs": [0.5, 2.0], "is": [3, 4, 5], "ss": ["a", "bc"], "t": numpy_helper.from_array(r.randn(2).astype(np.float32), "tt")}
        ins = [g.input[r.randint(len(g.input))].name for _ in range(c["n_in"])]
        if c["n_in"] == 3:
            ins[1] = ""
        o = ["cu_%d" % i for i in range(c["n_out"])]
        g.node.append(helper.make_node("Mystery", ins, o, name="mystery", domain="my.domain", **{k: vals[k] for k in c["attrs"]}))
        for q in o:
            out(q, 1, ["n", 2])
        m.opset_import.append(helper.make_opsetid("my.domain", 4))
    if x["passthrough"]:
        i = g.input[0]
        g.node.append(helper.make_node("Identity", [i.name], [i.name + "_copy"], name="copy"))
        g.output.append(helper.make_tensor_value_info(i.name + "_copy", i.type.tensor_type.elem_type, None))
        g.output[-1].type.tensor_type.shape.CopyFrom(i.type.tensor_type.shape)
    if x["const_out"]:
        g.initializer.append(numpy_helper.from_array(np.arange(3, dtype=np.float32), "const_out"))
        out("const_out", 1, [3])
        consts["const_out"] = np.arange(3, dtype=np.float32)
    if x["clash"]:
        names = [n.name for n in g.node if n.name]

        def walk(gp, top):
            k = 0
            for n in gp.node:
                if not top and names:
                    n.name = names[k % len(names)]
                    k += 1
                    if k > len(names):
                        n.name = "inner_%d" % k
                for a in n.attribute:
                    if a.HasField("g"):
                        walk(a.g, False)
        walk(g, True)
    g.name, g.doc_string = x["gname"], x["gdoc"]
    for k, v in x["props"].items():
        if v:
            setattr(m, k, v)
    if x["meta"]:
        helper.set_model_props(m, x["meta"])
    if x["infer"]:
        m = onnx.shape_inference.infer_shapes(m)
    return m, consts


def norm_attr(a):
    """an attribute without graphs, comparable"""
    if a.HasField("t"):
        t = numpy_helper.to_array(a.t)
        return a.name, "t", str(t.dtype), t.shape, t.tobytes()
    return a.name, a.SerializeToString()


def live_nodes(gp, extra=()):
    prod = {o: n for n in gp.node for o in n.output if o}
    todo, seen, out = [o.name for o in gp.output] + list(extra), set(), []
    while todo:
        n = prod.get(todo.pop())
        if n is None or id(n) in seen:
            continue
        seen.add(id(n))
        out.append(n)
        todo += list(n.input) + list(taken_outside(n))
    return out


def taken_outside(n):
    for a in n.attribute:
        if a.HasField("g"):
            made = {i.name for i in a.g.input} | {i.name for i in a.g.initializer} | {o for m in a.g.node for o in m.output}
            for m in live_nodes(a.g):
                for i in list(m.input) + list(taken_outside(m)):
                    if i and i not in made:
                        yield i
            for o in a.g.output:
                if o.name not in made:
                    yield o.name


def census(gp):
    """the live computation: operators with their attributes, bodies included"""
    out = []
    for n in live_nodes(gp):
        if n.op_type in ("Constant", "Identity"):
            continue
        out.append((n.op_type, n.domain, tuple(sorted(norm_attr(a) for a in n.attribute if not a.HasField("g"))), len([i for i in n.input if i]),
                    tuple(bool(o) for o in n.output), tuple((a.name, census(a.g)) for a in n.attribute if a.HasField("g"))))
    return tuple(sorted(out, key=repr))


def run_model(spec):
    from tf2onnx.graph import GraphUtil
    try:
        m, consts = build_model(spec)
        onnx.checker.check_model(m, full_check=True)
    except Exception as e:  # noqa: BLE001
        raise Reject("not a valid model: %s" % str(e)[-300:])
    x = spec["extra"]
    before = m.SerializeToString()
    try:
        r = GraphUtil.optimize_model_proto(m, catch_errors=False, optimizers={})
    except Exception as e:  # noqa: BLE001
        if x["const_out"] and isinstance(e, ValueError) and "graph output 'const_out'" in str(e):
            return Info(False, ["refused: an initialiser is an output"])
        raise Violation("loading and exporting raises %s: %s" % (type(e).__name__, str(e)[:400])) from e
    if m.SerializeToString() != before:
        raise Violation("the caller's model was modified")
    try:
        onnx.checker.check_model(r, full_check=True)
    except Exception as e:  # noqa: BLE001
        raise Violation("the exported model is not valid: %s" % str(e)[:400]) from e
    for k in ("ir_version", "producer_name", "producer_version", "domain", "model_version", "doc_string"):
        if getattr(m, k) != getattr(r, k) and k != "ir_version":
            raise Violation("%s is %r, was %r" % (k, getattr(r, k), getattr(m, k)))
    if sorted((o.domain, o.version) for o in m.opset_import) != sorted((o.domain, o.version) for o in r.opset_import):
        raise Violation("opset imports are %s, were %s" % (r.opset_import, m.opset_import))
    if {p.key: p.value for p in m.metadata_props} != {p.key: p.value for p in r.metadata_props}:
        raise Violation("metadata is %s, was %s" % (r.metadata_props, m.metadata_props))
    if (r.graph.name, r.graph.doc_string) != (m.graph.name, m.graph.doc_string) and m.graph.doc_string:
        raise Violation("graph is named %r, was %r" % ((r.graph.name, r.graph.doc_string), (m.graph.name, m.graph.doc_string)))

    def io(v):
        return v.name, v.type.tensor_type.elem_type, [d.dim_value if d.HasField("dim_value") else None for d in v.type.tensor_type.shape.dim]
    if [io(v) for v in m.graph.input] != [io(v) for v in r.graph.input]:
        raise Violation("inputs are %s, were %s" % ([io(v) for v in r.graph.input], [io(v) for v in m.graph.input]))
    if [io(v) for v in m.graph.output] != [io(v) for v in r.graph.output]:
        # inference may have found out more
        for a, b in zip(m.graph.output, r.graph.output):
            a, b = io(a), io(b)
            if a[:2] != b[:2] or len(a[2]) != len(b[2]) or any(p is not None and q is not None and p != q for p, q in zip(a[2], b[2])):
                raise Violation("output is %s, was %s" % (b, a))
    if len(r.graph.output) != len(m.graph.output):
        raise Violation("outputs are %s" % [o.name for o in r.graph.output])
    a, b = census(m.graph), census(r.graph)
    if a != b:
        raise Violation("operators are not the same: gained %s, lost %s" % (repr([q[:3] for q in b if q not in a])[:300], repr([q[:3] for q in a if q not in b])[:300]))
    have = {t.name: t for t in r.graph.initializer}
    for k, v in consts.items():
        if k not in have:
            n = [n for n in r.graph.node if k in n.output]
            if k == "const_out" and n and n[0].op_type == "Identity" and n[0].input[0] in have:
                t = have[n[0].input[0]]
            else:
                raise Violation("constant %s is lost" % k)
        else:
            t = have[k]
        w = numpy_helper.to_array(t)
        if v.dtype == object:
            ok = w.shape == v.shape and [q if isinstance(q, bytes) else str(q).encode() for q in w.flatten()] == list(v.flatten())
        else:
            ok = w.dtype == v.dtype and w.shape == v.shape and w.tobytes() == v.tobytes()
        if not ok:
            raise Violation("constant %s is %s %s %s, was %s %s %s" % (k, w.dtype, w.shape, w.flatten()[:4], v.dtype, v.shape, v.flatten()[:4]))
    if not x["custom"]:
        feeds = onnxgen.feeds(spec)
        try:
            s0 = prog.session(m.SerializeToString())
            refs = s0.run(None, feeds)
            if any(prog.diff(p, q) for p, q in zip(refs, s0.run(None, feeds))):
                raise Reject("the runtime does not compute the same result twice")
        except Reject:
            raise
        except Exception as e:  # noqa: BLE001
            raise Reject("the runtime does not run the model itself: %s" % str(e)[:300])
        try:
            got = prog.session(r.SerializeToString()).run(None, feeds)
        except Exception as e:  # noqa: BLE001
            raise Violation("the exported model does not run: %s" % str(e)[:400]) from e
        for o, p, q in zip(m.graph.output, refs, got):
            w = prog.diff(p, q)
            if w:
                raise Violation("output %s: %s" % (o.name, w))
    cl = ["const:" + c["dtype"] for c in x["consts"]] + [c["attr"] for c in x["plain"]] + [k for k in ("ms", "custom", "clash", "passthrough", "const_out") if x[k]]
    return Info(len(a) > 0, cl + sorted({n[0] for n in a}), evals=2)


def describe_model(spec):
    return {"nodes": [n["op"] for n in spec["nodes"]], "extra": spec["extra"]}


# ------------------------------------------------------------------ the builder of operators whose schema changed
def gen_builder(d):
    sh = d.shape(1, 4, dim=4)
    op = d.choice(["slice", "slice", "reduce_sum", "reduce_max", "reduce_min", "reduce_mean", "reduce_prod", "reduce_sum_square", "squeeze", "unsqueeze"])
    r = len(sh)
    spec = {"opset": d.int(9, 18), "op": op, "shape": sh, "seed": d.seed(), "const": d.choice(["list", "list", "tensor"]), "return_node": d.bool(), "named": d.bool(),
            "typed": d.bool()}
    if op == "slice":
        axes = d.subset(range(r), 1)
        spec["axes"] = None if d.prob(20) else [a - r if d.prob(30) else a for a in axes]
        n = len(axes)
        steps = spec["opset"] >= 10 and spec["axes"] is not None and d.prob(40)
        spec["steps"] = [d.choice([1, 2, -1]) for _ in range(n)] if steps else None
        spec["starts"], spec["ends"] = d.ints(n, -4, 4), [d.choice([-3, -2, -1, 0, 1, 2, 3, 9, 2 ** 31 - 1 if not steps else 8]) for _ in range(n)]
    elif op == "squeeze":
        ones = [i for i in range(r) if d.prob(50)]
        for i in ones:
            sh[i] = 1
        ones = [i for i in range(r) if sh[i] == 1]
        spec["axes"] = None if d.prob(25) or not ones else [a - r if d.prob(30) and spec["opset"] >= 11 else a for a in d.subset(ones, 1)]
    elif op == "unsqueeze":
        k = d.int(1, 2)
        spec["axes"] = [a - r - k if d.prob(30) and spec["opset"] >= 11 else a for a in d.subset(range(r + k), k, k)]
    else:
        spec["axes"] = d.choice([None, "given", "given", "given", "empty"])
        if spec["axes"] == "given":
            spec["axes"] = [a - r if d.prob(30) and spec["opset"] >= 11 else a for a in d.subset(range(r), 1)]
        elif spec["axes"] == "empty":
            spec["axes"] = []
        spec["keep"] = d.choice([None, 0, 1])
        spec["noop"] = d.choice([None, None, 0])
    return spec


def run_builder(spec):
    from tf2onnx.graph import Graph
    from tf2onnx.graph_builder import GraphBuilder
    g = Graph([], output_shapes={}, dtypes={}, opset=spec["opset"], output_names=[])
    g.add_graph_input("x", 1, list(spec["shape"]))
    x = (np.random.RandomState(spec["seed"]).randint(-6, 7, spec["shape"]) * 0.5).astype(np.float32)
    n = [0]

    def arg(v):
        if v is None or spec["const"] == "list":
            return None if v is None else list(v)
        n[0] += 1
        return g.make_const("arg%d" % n[0], np.array(v, np.int64)).output[0]
    op, axes = spec["op"], spec["axes"]
    kw = {"data": "x"}
    if op == "slice":
        kw.update(starts=arg(spec["starts"]), ends=arg(spec["ends"]))
        if axes is not None:
            kw["axes"] = arg(axes)
        if spec["steps"]:
            kw["steps"] = arg(spec["steps"])
        index = [slice(None)] * len(spec["shape"])
        want = x
        for k, a in enumerate(axes if axes is not None else range(len(spec["starts"]))):
            st, en, step = spec["starts"][k], spec["ends"][k], spec["steps"][k] if spec["steps"] else 1
            dim = spec["shape"][a]
            st2 = st + dim if st < 0 else st
            en2 = en + dim if en < 0 else en
            st2 = max(0, min(dim if step > 0 else dim - 1, st2))
            en2 = max(0 if step > 0 else -1, min(dim, en2))
            index[a] = slice(st2, None if en2 == -1 else en2, step)
        want = x[tuple(index)]
    elif op in ("squeeze", "unsqueeze"):
        if axes is not None:
            kw["axes"] = arg(axes)
        if op == "squeeze":
            want = np.squeeze(x, None if axes is None else tuple(axes))
        else:
            want = np.expand_dims(x, tuple(axes))
    else:
        if axes is not None:
            kw["axes"] = arg(axes)
        if spec["keep"] is not None:
            kw["keepdims"] = spec["keep"]
        if spec["noop"] is not None:
            kw["noop_with_empty_axes"] = spec["noop"]
        f = {"reduce_sum": np.sum, "reduce_max": np.max, "reduce_min": np.min, "reduce_mean": np.mean, "reduce_prod": np.prod,
             "reduce_sum_square": lambda a, **k: np.sum(a * a, **k)}[op]
        want = f(x, axis=tuple(axes) if axes else None, keepdims=spec["keep"] != 0)
    opts = {}
    if spec["named"]:
        opts["name"] = "wanted"
    if spec["typed"]:
        opts.update(shapes=[list(want.shape)], dtypes=[1])
    if op in ("slice", "squeeze", "unsqueeze") and spec["return_node"]:
        opts["return_node"] = True
    try:
        r = getattr(GraphBuilder(g), "make_" + op)(kw, **opts)
        out = r if isinstance(r, str) else r.output[0]
        if spec["named"] and g.get_node_by_output(out).name != "wanted":
            raise Violation("the node is named %s" % g.get_node_by_output(out).name)
        g.add_graph_output(out, 1, list(want.shape))
        m = g.make_model("x")
        onnx.checker.check_model(m, full_check=True)
        got = prog.session(m.SerializeToString()).run(None, {"x": x})[0]
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation("%s at opset %d: %s: %s" % (op, spec["opset"], type(e).__name__, str(e)[:300])) from e
    w = prog.diff(np.asarray(want, np.float32), got)
    if w:
        raise Violation("%s at opset %d of %s, axes %s: %s" % (op, spec["opset"], spec["shape"], axes, w))
    return Info(True, [op, "opset%d" % spec["opset"]])


SUITES = [
    Suite("edits", gen_edits, run_edits, quick=8000, describe=lambda s: [o[0] for o in s["start"] + s["ops"]]),
    Suite("round-trip", gen_model, run_model, quick=6000, describe=describe_model),
    Suite("builder", gen_builder, run_builder, quick=2500),
]
