"""C14: operations keep their identity: only equal operations are taken for one another."""

from engine.core import Fake, unit
from vlib import qops

C = "quantify_scheduler.helpers.collections"
O = "quantify_scheduler.operations.operation"
S = "quantify_scheduler.schedules.schedule"


def raw(op, arrays=False):
    """content for identity: the data of the operation and what it has besides"""
    return qops.content(op, arrays)[3:]


def show(x):
    try:
        return str(x)[:300]
    except Exception as e:
        return f"? {e!r}"


@unit("C14.operations", "C14", modes=("fuzz",), fuzz=3000, shards=4, budget=60,
      targets=[f"{C}:make_hash", f"{O}:Operation.__hash__", f"{O}:Operation.__eq__", f"{O}:Operation.hash"])
def operations(vc):
    """two operations that differ in one argument have different hashes; the same arguments give the same hash"""
    import copy

    a, cls, (args, kw) = qops.operation(vc)
    b = qops.operation(vc, cls=cls)[0] if cls in ("stitched", "long") else qops.neighbour(vc, cls, args, kw)
    same = raw(a) == raw(b)
    vc.prove("different operations have different identities", same or (a.hash != b.hash and not a == b and hash(a) != hash(b)), (show(a), show(b)))
    vc.prove("equal operations have the same identity", raw(a, True) != raw(b, True) or (a.hash == b.hash and a == b and hash(a) == hash(b)), (show(a), show(b)))
    c = copy.deepcopy(a)
    vc.prove("a copy has the same identity", c == a and c.hash == a.hash and raw(c) == raw(a), show(kw))


@unit("C14.add", "C14", fuzz=300, assumptions=["identity hashes are represented by values that may or may not be equal"],
      targets=[f"{S}:Schedule.add", f"{S}:Schedule._add", f"{S}:Schedule._validate_add_arguments",
               f"{S}:Schedulable.add_timing_constraint"])
def add(vc):
    """adding an operation keeps what was there, in order, and records exactly the reference, the points and the time that were given"""
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.operation import Operation

    class Op(Operation):
        hash = property(lambda self: self.identity)

    s = Schedule("s")
    if vc.symbolic:  # the real methods on a real object
        f = vc.fn(f"{S}:Schedule.add")
    added = []
    for i in range(vc.length("operations", 1, 2 if vc.symbolic else 5)):
        op = object.__new__(Op)
        op.data, op.identity = {"name": f"op{i}"}, vc.choice("identity", ["h0", "h1"] if vc.symbolic else ["h0", "h1", "h2"])
        rel = vc.real(f"rel{i}", -1, 1)
        label = vc.choice("label", [None, "a"] if vc.symbolic else [None, "a", "b"])
        kw = {"rel_time": rel, "label": label}
        if vc.bool("points"):
            kw.update(ref_pt=vc.choice("pt", ["start", "end"]), ref_pt_new=vc.choice("pt new", ["start", "center"]))
        if added and vc.bool("reference"):
            kw["ref_op"] = vc.choice("ref", [x[0] for x in added])
        taken = label is not None and label in [x[0]["name"] for x in added]
        o = vc.run(f, s, op, **kw) if vc.symbolic else vc.run(s.add, op, **kw)
        vc.prove("rejected only when the label is in use", o.ok != taken)
        if not o.ok:
            continue
        added.append((o.value, op, kw))
        vc.prove("the schedulables are those that were added, in order",
                 list(s.schedulables.values()) == [x[0] for x in added] and list(s.schedulables) == [x[0]["name"] for x in added])
        vc.prove("the given label is used", label is None or o.value["name"] == label)
        for sc, x, k in added:
            vc.prove("a schedulable refers to an operation with the identity of the one that was added",
                     s.operations[sc["operation_id"]].identity == x.identity)
            (t,) = sc["timing_constraints"]
            ref = k.get("ref_op")
            vc.prove("the timing constraint is what was given", vc.And(
                vc.eq(t.rel_time, k["rel_time"]), t.ref_pt == k.get("ref_pt"), t.ref_pt_new == k.get("ref_pt_new"),
                t.ref_schedulable == (None if ref is None else ref["name"])))


@unit("C14.schedule", "C14", modes=("fuzz",), fuzz=1500, shards=4, budget=60,
      targets=[f"{S}:Schedule.add", f"{S}:Schedule._add", f"{C}:make_hash"])
def schedule(vc):
    """whatever is added, every schedulable refers to an operation with the content of the one that was added"""
    ops = []
    s = qops.schedule(vc, n=(1, 6), ops=ops)
    cls = None
    for _ in range(vc.length("similar operations", 0, 4)):
        op, cls, (args, kw) = qops.operation(vc, cls=cls)
        for o in [op, *([] if cls in ("stitched", "long") else [qops.neighbour(vc, cls, args, kw)])]:
            s.add(o)
            ops.append(o)
    for sc, o in zip(s.schedulables.values(), ops):
        got = s.operations[sc["operation_id"]]
        vc.prove("a schedulable refers to the operation that was added", type(got) is type(o) and raw(got) == raw(o), show(o))
    vc.prove("one schedulable for each operation", len(s.schedulables) == len(ops))


@unit("C14.containers", "C14", modes=("fuzz",), fuzz=2000, targets=[f"{C}:make_hash"])
def containers(vc):
    """nested dictionaries, sequences and arrays: equal content, equal hash, whatever the order of keys and the type of numbers;
    different content, different hash"""
    import numpy as np

    def gen(depth):
        k = vc.choice("kind", ["number", "number", "text", "complex", "dict", "list", "array", "none"] if depth else
                      ["number", "text", "complex", "none"])
        if k == "number":
            return qops.number(vc)
        if k == "complex":
            return vc.choice("c", qops.COMPLEX)
        if k == "text":
            return vc.choice("t", ["", "a", "b", "-1", "-2", "1.0"])
        if k == "none":
            return None
        if k == "list":
            x = [gen(depth - 1) for _ in range(vc.length("n", 0, 3))]
            return x if vc.bool("list") else tuple(x)
        if k == "array":
            x = np.array([vc.choice("x", [0.5, -0.5, 1.0, -1.0, -2.0]) for _ in range(vc.length("n", 1, 4))])
            return x.reshape(2, -1) if len(x) % 2 == 0 and vc.bool("2d") else x
        return {vc.choice("key", ["a", "b", "c", "d"]): gen(depth - 1) for _ in range(vc.length("n", 0, 3))}

    def variant(x):
        """the same content in another form"""
        if isinstance(x, dict):
            return {k: variant(x[k]) for k in reversed(list(x))}
        if isinstance(x, list):
            return tuple(variant(v) for v in x)
        if isinstance(x, tuple):
            return [variant(v) for v in x]
        if isinstance(x, bool) or isinstance(x, np.ndarray) or isinstance(x, str) or x is None or isinstance(x, np.generic):
            return x
        if isinstance(x, int) and abs(x) < 2**50:
            return float(x)
        if isinstance(x, float) and x == int(x):
            return int(x)
        return x

    def leaf(x):
        """the same but for one leaf"""
        if isinstance(x, dict) and x:
            k = vc.choice("at", sorted(x))
            return {**x, k: leaf(x[k])}
        if isinstance(x, (list, tuple)) and x:
            i = vc.choice("at", range(len(x)))
            return type(x)([*x[:i], leaf(x[i]), *x[i + 1:]])
        return gen(0)

    def edit(x):
        """the same but for the structure at one place"""
        if isinstance(x, (dict, list, tuple)) and x and vc.bool("deeper"):
            if isinstance(x, dict):
                k = vc.choice("at", sorted(x))
                return {**x, k: edit(x[k])}
            i = vc.choice("at", range(len(x)))
            return type(x)([*x[:i], edit(x[i]), *x[i + 1:]])
        if isinstance(x, dict):
            what = vc.choice("edit", ["add", "remove", "rename", "swap"])
            k = vc.choice("key", ["a", "b", "c", "d"])
            if what == "add" or not x:
                return {**x, k: vc.choice("new", [None, 0, False, "", gen(0)])}
            k = vc.choice("at", sorted(x))
            if what == "swap":
                j = vc.choice("and", sorted(x))
                return {**x, k: x[j], j: x[k]}
            rest = {j: v for j, v in x.items() if j != k}
            return rest if what == "remove" else {**rest, vc.choice("key", ["a", "b", "c", "d"]): x[k]}
        if isinstance(x, (list, tuple)):
            what = vc.choice("edit", ["add", "remove", "swap"])
            i = vc.length("at", 0, len(x))
            if what == "add" or not x:
                return type(x)([*x[:i], vc.choice("new", [None, 0, gen(0), *x[:1]]), *x[i:]])
            if what == "remove":
                return type(x)([*x[:i], *x[i + 1:]])
            return type(x)([*x[i:], *x[:i]])
        if isinstance(x, np.ndarray):
            return vc.choice("array", [x[::-1], x.T, x.reshape(-1), x[:1]])
        return vc.choice("wrap", [[x], {"a": x}, [x, x]])

    f = vc.fn(f"{C}:make_hash")
    a = gen(2)
    b = vc.choice("other", [variant, leaf, leaf, edit, edit, lambda x: gen(2)])(a)
    ha, hb = vc.call(f, a), vc.call(f, b)
    if qops.content(a, True) == qops.content(b, True):
        vc.prove("equal content has equal hashes", ha == hb, (a, b))
    else:
        vc.prove("different content has different hashes", ha != hb or qops.content(a) == qops.content(b), (a, b))
