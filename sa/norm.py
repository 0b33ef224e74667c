"""Loops written with a worklist or in slices, as the loops over elements they are.

Two forms are rewritten, in the syntax tree, before anything is analysed:

* a list is emptied element by element:   while xs: x = xs.pop(); ...
* an iterator is consumed in slices:      while True: b = list(islice(it, n)); if not b: break; ...

or ended by the first slice that is shorter than n, before or after it is used.
"""

import ast
import copy

FRESH = {"list", "sorted", "deque", "collections.deque"}


def name_of(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
        return f"{e.value.id}.{e.attr}"
    return None


def mentions(nodes, name):
    return [n for s in nodes for n in ast.walk(s) if isinstance(n, ast.Name) and n.id == name]


def target(s):
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
        return s.targets[0].id
    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
        return s.target.id
    return None


def fresh(e):
    """A list of its own."""
    return isinstance(e, (ast.List, ast.ListComp)) or isinstance(e, ast.Call) and name_of(e.func) in FRESH


def leaves(body):
    """break or continue of the loop with this body."""
    st = list(body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Break, ast.Continue)):
            return True
        if isinstance(n, (ast.For, ast.While)):
            st.extend(n.orelse)
        elif not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            st.extend(ast.iter_child_nodes(n))
    return False


def drained(fn, block, i):
    """while xs: x = xs.pop()  ->  for x in reversed(xs)"""
    w = block[i]
    if not (isinstance(w.test, ast.Name) and w.body and not w.orelse):
        return None
    xs, first = w.test.id, w.body[0]
    if not (isinstance(first, ast.Assign) and len(first.targets) == 1 and isinstance(first.value, ast.Call)):
        return None
    f, args = first.value.func, first.value.args
    if not (isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == xs) or first.value.keywords:
        return None
    if f.attr == "pop" and not args:
        back = True
    elif f.attr == "popleft" and not args or f.attr == "pop" and len(args) == 1 and isinstance(args[0], ast.Constant) and args[0].value == 0:
        back = False
    else:
        return None
    if mentions(w.body[1:], xs) or mentions([first.targets[0]], xs):
        return None
    made = [s for s in block[:i] if target(s) == xs]
    if not made or not all(fresh(s.value) for s in made):
        return None
    # nothing else sees that the list is empty afterwards
    inside = set(map(id, ast.walk(w)))
    for n in mentions([fn], xs):
        if id(n) not in inside and (n.lineno > w.end_lineno or isinstance(n.ctx, ast.Store) and not any(n is getattr(s, "target", None) or n in getattr(s, "targets", ()) for s in made)):
            return None
    for s in ast.walk(fn):
        if isinstance(s, (ast.FunctionDef, ast.Lambda)) and s is not fn and mentions([s], xs):
            return None
    it = ast.Name(xs, ast.Load())
    if back:
        it = ast.Call(ast.Name("reversed", ast.Load()), [it], [])
    new = ast.For(first.targets[0], it, w.body[1:] or [ast.Pass()], [], None)
    return [fill(new, w)]


def sliced(block, i):
    """while True: b = list(islice(it, n)); if not b: break; ..."""
    w = block[i]
    if w.orelse:
        return None
    rest, last = w.body, True
    if isinstance(w.test, ast.NamedExpr):
        b, val = w.test.target.id, w.test.value
    elif isinstance(w.test, ast.Constant) and w.test.value and len(w.body) > 2:
        b, val, cut = target(w.body[0]), getattr(w.body[0], "value", None), w.body[1]
        if b and cuts(cut, f"not {b}"):
            rest = w.body[2:]
        elif b and isinstance(val, ast.Call) and val.args and isinstance(val.args[0], ast.Call) and len(val.args[0].args) == 2:
            n = ast.unparse(val.args[0].args[1])
            short = (f"len({b}) < {n}", f"len({b}) != {n}", f"{n} > len({b})", f"{n} != len({b})")
            if cuts(cut, *short):
                rest, last = w.body[2:], False
            elif cuts(w.body[-1], *short):
                rest, last = w.body[1:-1], None
            else:
                return None
        else:
            return None
    else:
        return None
    if not (isinstance(val, ast.Call) and name_of(val.func) in ("list", "tuple") and len(val.args) == 1 and isinstance(val.args[0], ast.Call)):
        return None
    s = val.args[0]
    if name_of(s.func) not in ("islice", "itertools.islice") or len(s.args) != 2 or s.keywords or not isinstance(s.args[0], ast.Name):
        return None
    it, n = s.args
    if mentions(rest, it.id) or leaves(rest) or any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) for x in mentions(rest, b)):
        return None
    item = f"{b}__item"
    empty = ast.Assign([ast.Name(b, ast.Store())], ast.List([], ast.Load()))
    add = ast.Expr(ast.Call(ast.Attribute(ast.Name(b, ast.Load()), "append", ast.Load()), [ast.Name(item, ast.Load())], []))
    full = ast.Compare(ast.Call(ast.Name("len", ast.Load()), [ast.Name(b, ast.Load())], []), [ast.GtE()], [n])
    loop = ast.For(ast.Name(item, ast.Store()), it, [add, ast.If(full, rest + [copy.deepcopy(empty)], [])], [], None)
    end = copy.deepcopy(rest)
    if last is not None:
        end = [ast.If(ast.Name(b, ast.Load()), end, [])] if last else []
    return [fill(x, w) for x in [empty, loop] + end]


def cuts(s, *tests):
    """if <one of the tests>: break"""
    return isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Break) and not s.orelse and ast.unparse(s.test) in tests


def fill(new, old):
    ast.copy_location(new, old)
    for n in ast.walk(new):
        if hasattr(n, "lineno"):
            continue
        if "lineno" in n._attributes:
            ast.copy_location(n, old)
    return new


def normalise(tree):
    for fn in [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]:
        for n in list(ast.walk(fn)):
            for field in ("body", "orelse", "finalbody"):
                block = getattr(n, field, None)
                if not isinstance(block, list):
                    continue
                i = 0
                while i < len(block):
                    new = None
                    if isinstance(block[i], ast.While):
                        new = drained(fn, block, i) or sliced(block, i)
                    if new:
                        block[i : i + 1] = new
                        i += len(new)
                    else:
                        i += 1
    return tree
