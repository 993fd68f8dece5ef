"""C21: atoms are named attribute mappings"""

import copy

from hypothesis import strategies as st

import lattpy as lp
from vlib.core import Property, check

PROP = Property(
    "C21",
    ["attribute names are identifiers without leading underscore and not the names of the "
     "methods and fixed properties of an atom",
     "attributes that don't exist are created by item access"],
)

NAMES = ["A", "B", "C", "Fe", "a", "A ", "AB", "1", "Ångström", "0"]
KEYS = ["color", "radius", "energy", "spin", "q", "x1", "Color", "radius2", "mass"]
VALUES = st.one_of(
    st.none(), st.booleans(), st.integers(-3, 3), st.floats(-2, 2, allow_nan=False),
    st.sampled_from(["r", "", "#fff", "A"]), st.lists(st.integers(0, 3), max_size=3),
    st.dictionaries(st.sampled_from("uv"), st.lists(st.integers(0, 3), max_size=2),
                    max_size=2),
)


@st.composite
def histories(draw):
    ops = []
    key = st.sampled_from(KEYS)
    which = st.integers(0, 4)
    for _ in range(draw(st.integers(2, 14))):
        kind = draw(st.sampled_from(["new", "copy", "copy", "setitem", "setitem", "setattr",
                                     "setattr", "del", "pop", "update", "default", "mutate",
                                     "mutate", "clear", "popitem", "lattice"]))
        op = [kind, draw(which)]
        if kind == "new":
            args = {}
            if draw(st.booleans()):
                args["name"] = draw(st.sampled_from(NAMES + [None, ""]))
            if draw(st.booleans()):
                args["weight"] = draw(st.sampled_from([1.0, 0.5, 2, 0, -1.5]))
            for k in draw(st.lists(key, max_size=3, unique=True)):
                args[k] = draw(VALUES)
            op.append(args)
            op.append(draw(st.booleans()))
        elif kind in ("setitem", "setattr", "default"):
            op += [draw(key), draw(VALUES)]
        elif kind in ("del", "pop", "mutate"):
            op.append(draw(key))
        elif kind == "update":
            op.append({k: draw(VALUES) for k in draw(st.lists(key, max_size=3, unique=True))})
        elif kind == "copy":
            op.append(draw(st.booleans()))
        ops.append(op)
    return {"ops": ops}


def raises(exc, func):
    try:
        func()
    except exc:
        return True
    return False


class Entry:
    def __init__(self, atom, name, weight, params):
        self.atom, self.name, self.weight, self.params = atom, name, weight, params


def same(a, b):
    return type(a) is type(b) and a == b


def compare(entry):
    atom, params = entry.atom, entry.params
    check(atom.name == entry.name, "name: %r != %r", atom.name, entry.name)
    check(atom.weight == entry.weight, "weight: %r != %r", atom.weight, entry.weight)
    check(len(atom) == len(params), "number of attributes: %s != %s", len(atom), len(params))
    check(sorted(atom) == sorted(params), "attributes: %s != %s", sorted(atom), sorted(params))
    check(sorted(atom.keys()) == sorted(params), "keys")
    check(dict(atom.items()).keys() == params.keys(), "items")
    data = atom.dict()
    check(data.get("name") == entry.name and data.get("index") == atom.index, "dict")
    check(set(data) >= set(params), "dict without attributes")
    for k in KEYS:
        if k in params:
            v = params[k]
            check(k in atom, "attribute %s is missing", k)
            for got in (atom[k], getattr(atom, k), atom.get(k), atom.get(k, "default"),
                        data[k], dict(atom.items())[k]):
                check(same(got, v), "attribute %s: %r != %r", k, got, v)
        else:
            check(k not in atom, "unexpected attribute %s", k)
            check(raises(KeyError, lambda: atom[k]), "no error for the missing key %s", k)
            check(raises(AttributeError, lambda: getattr(atom, k)),
                  "no error for the missing attribute %s", k)
            check(atom.get(k) is None and atom.get(k, "default") == "default", "get")
            check(k not in data, "missing attribute in dict")
            check(raises(KeyError, lambda: atom.__delitem__(k)), "missing key is deleted")
            check(raises(KeyError, lambda: atom.pop(k)), "missing key is removed")
            check(atom.pop(k, 5) == 5, "default of pop")
    check(entry.name in repr(atom), "representation: %s", repr(atom))


def compare_pairs(entries):
    indices = [e.atom.index for e in entries]
    check(indices == sorted(set(indices)), "indices are not increasing: %s", indices)
    for a in entries:
        check((a.atom == a.name) is True and (a.atom != a.name) is False, "name %s", a.name)
        check((a.name == a.atom) is True, "name %s == atom", a.name)
        check(hash(a.atom) == hash(a.name), "hash of the name")
        for name in NAMES:
            if name != a.name:
                check(not a.atom == name and a.atom != name, "%s == %s", a.name, name)
        for other in (None, 1, 2.5, (a.name,), [a.name], {"name": a.name}):
            check(not (a.atom == other), "atom == %r", other)
            check(a.atom != other, "atom != %r", other)
        for b in entries:
            eq = a.name == b.name
            check((a.atom == b.atom) == eq, "%s == %s", a.name, b.name)
            check((a.atom != b.atom) == (not eq), "%s != %s", a.name, b.name)
            check(a.atom.is_identical(b.atom) == eq, "%s is identical to %s", a.name, b.name)
            if eq:
                check(hash(a.atom) == hash(b.atom), "hashes of equal atoms")
    # atoms in sets and dictionaries
    check(len({e.atom for e in entries}) == len({e.name for e in entries}), "set of atoms")


@PROP.sub(
    "history",
    histories,
    5000,
    "histories of atoms compared with dictionaries: items, attributes, deletions, copies, "
    "comparisons; non-trivial: an attribute was changed after a copy",
    corpus=[{"ops": [["new", 0, {}, False], ["copy", 0, False], ["del", 1, "color"],
                     ["copy", 1, True], ["setitem", 1, "radius", 5.0]]}],
)
def history(case, ctx):
    first = lp.Atom()
    entries = [Entry(first, "A", 1.0, {"color": None, "radius": 0.2})]
    copied = False
    for op in case["ops"]:
        kind, e = op[0], entries[op[1] % len(entries)]
        atom = e.atom
        if kind == "new":
            kw = copy.deepcopy(op[2])
            params = {"color": None, "radius": 0.2}
            params.update({k: v for k, v in op[2].items() if k in KEYS})
            if op[3] and "name" in kw:
                new = lp.Atom(kw.pop("name"), **kw)
            else:
                new = lp.Atom(**kw)
            entries.append(Entry(new, op[2].get("name") or "A", op[2].get("weight", 1.0),
                                 copy.deepcopy(params)))
        elif kind == "copy":
            new = copy.copy(atom) if op[2] else atom.copy()
            check(type(new) is lp.Atom and new is not atom, "copy")
            entries.append(Entry(new, e.name, e.weight, copy.deepcopy(e.params)))
            copied = True
        elif kind == "setitem":
            atom[op[2]] = copy.deepcopy(op[3])
            e.params[op[2]] = copy.deepcopy(op[3])
            ctx.nontrivial(copied)
        elif kind == "setattr":
            try:
                setattr(atom, op[2], copy.deepcopy(op[3]))
            except AttributeError:
                check(op[2] not in e.params, "attribute %s can't be set", op[2])
            else:
                e.params[op[2]] = copy.deepcopy(op[3])
                ctx.nontrivial(copied)
        elif kind == "del":
            if op[2] in e.params:
                del atom[op[2]]
                del e.params[op[2]]
                ctx.nontrivial(copied)
        elif kind == "pop":
            if op[2] in e.params:
                check(same(atom.pop(op[2]), e.params.pop(op[2])), "removed value")
        elif kind == "popitem":
            if e.params:
                k, v = atom.popitem()
                check(k in e.params and same(v, e.params.pop(k)), "removed item")
            else:
                check(raises(KeyError, atom.popitem), "item of an empty atom")
        elif kind == "update":
            atom.update(copy.deepcopy(op[2]))
            e.params.update(copy.deepcopy(op[2]))
        elif kind == "default":
            check(same(atom.setdefault(op[2], copy.deepcopy(op[3])),
                       e.params.setdefault(op[2], copy.deepcopy(op[3]))), "setdefault")
        elif kind == "clear":
            atom.clear()
            e.params.clear()
        elif kind == "mutate":
            # change a stored list or dictionary in place
            for val in (atom.get(op[2]), e.params.get(op[2])):
                if isinstance(val, list):
                    val.append(77)
                    ctx.label("mutated")
                elif isinstance(val, dict):
                    val.setdefault("u", []).append(78)
                    ctx.label("mutated")
        elif kind == "lattice":
            # the attributes are kept by a lattice
            latt = lp.Lattice([[1.0]])
            latt.add_atom(0.0, atom)
            got = latt.get_atom(0)
            check(got == atom and got.name == e.name, "atom of a lattice")
            for k, v in e.params.items():
                check(same(got[k], v), "attribute %s of the atom of a lattice", k)
            check(latt.atoms[0].weight == e.weight, "weight of the atom of a lattice")
        for entry in entries:
            compare(entry)
    compare_pairs(entries)
    if len(entries) > 2:
        ctx.label("several atoms")
