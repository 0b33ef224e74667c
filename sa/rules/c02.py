"""Path from every row read to every row written.

For every statement or file write that outputs rows, the value written is
traced back to the rows of the query on the source.  `filtered`: no path
reaches the row without passing through the loop that applies the configured
filters.  `chain`: that loop applies every element of the chain, in order and
unconditionally, each to the result of the one before.  `complete`: the chain
has exactly one filter per configured filter, built in order, each from the
columns the previous one leaves.  `key`: filters are looked up under the same
table key as the query whose rows they filter.  `columns`: the names attached
to the values are the columns the chain leaves, not the columns it is given.
"""

from ..rule import *  # noqa
from ._s import SV

FLOORS = {"filtered": 2, "chain": 2, "complete": 2, "key": 2, "columns": 2}


def check(ctx, rep):
    for mode in ("database", "directory"):
        v = SV(ctx, mode)
        sinks = v.sinks()
        if not sinks:
            broken(f"no row output found for {mode} output")
        done = set()
        for x, val in sinks:
            check_sink(mode, v, rep, x, val, done)


def check_sink(mode, v, rep, x, val, done):
    stop = lambda t: v.is_chain(t) or v.is_call(t, ".filter_view")
    rows = [t for t in v.deep(val) if v.is_row(t)]
    if not rows:
        rep.unk("filtered", mode, x, "no source row reaches this write")
        return
    raw = [t for t in v.deep(val, stop=stop) if v.is_row(t)]
    rep.check(not raw, "filtered", mode, x, "a source row can be written without passing through the configured filters")
    for m in v.chains(val):
        if m in done:
            continue
        done.add(m)
        check_chain(mode, v, rep, x, m)
    # names of the values written
    conf = mk("attr", mk("sym", "config"), "filters")
    for d in v.row_dicts(val):
        for c in v.contribs(d):
            if c.key is None:
                continue
            seqs = [(g, k) for g, k in v.alts(c.key) if k.op == "at"]
            for g0, k in seqs:
                for g, n in v.alts(k.a[0]):
                    over = any(is_filter_loop(v, t, conf) for t in v.deep(n))
                    if over or unfiltered(v, and_(g0, g)):
                        rep.ok("columns", mode, x)
                    elif any(v.is_call(t, ".keys") for t in subterms(n)) and not any(t.op == "attr" and t.a[1] == "columns_out" for t in v.deep(n)):
                        rep.bad("columns", mode, x, "values are written under the unfiltered column names")
                    else:
                        rep.unk("columns", mode, x, show(n, 4)[:200])


def unfiltered(v, g):
    """The condition says that no filter is configured."""
    if g.op == "or":
        return all(unfiltered(v, x) for x in g.a)
    for x in literals(g):
        if x.op == "or" and unfiltered(v, x):
            return True
        if x.op == "not" and x.a[0].op == "exists" and any(y.op == "attr" and y.a[1] == "filters" for y in subterms(x.a[0].a[0])):
            return True
        if x.op == "is" and x.a[1] is NONE and x.a[0].op == "attr" and x.a[0].a[1] == "columns_out":
            return True  # never: these are tuples
    return False


def is_filter_loop(v, t, conf):
    if t.op == "attr" and t.a[1] == "columns_out" and t.a[0].op == "item" and is_const(t.a[0].a[1], -1):
        # of the last filter of a list holding one for each configured one
        return any(True for _ in _confs(v, t.a[0].a[0]))
    if t.op != "mu":
        return False
    b = v.e.backs.get(t)
    return b is not None and any(y.op == "attr" and y.a[1] == "columns_out" for y in subterms(b)) and any(y.op == "attr" and y.a[1] == "filters" for y in subterms(t.a[0]))


def check_chain(mode, v, rep, x, m):
    loop, init = m.a[0], m.a[2]
    back = v.e.backs[m]
    seq = loop.a[0]
    elem = mk("at", seq, loop)
    calls = [y for y in v.fx if y.name == ".filter_view" and y.result is not None and any(t is m for t in subterms(y.result))]
    inst = mode
    built = [t for t in subterms(back) if v.is_call(t, ".construct_filter") and t.a[0].a[0].op == "at"]
    if not built and seq.op in ("tuple", "obj") and not list(_confs(v, seq)):
        return  # fixed sequence of views known to the analysis; its parts are chains themselves
    if not v.is_call(back, ".filter_view"):
        if back.op == "phi" and any(a is m or not v.is_call(a, ".filter_view") for _, a in v.alts(back)):
            rep.bad("chain", inst, x, f"a filter is only applied when {show(back.a[0], 4)}")
        else:
            rep.unk("chain", inst, x, show(back, 4)[:200])
    else:
        recv, arg = back.a[0].a[0], back.a[1]
        conds = [g for y in calls for g, tag in y.guards if tag in ("branch", "continue", "break", "return") and v.varies(g, loop)]
        rev = any(l.rev for y in calls for l in y.loops if l.term is loop)
        if len(arg) != 1 or arg[0] is not m:
            fresh = bool(arg) and not v.uses(arg[0], m)
            rep.check(False if fresh else None, "chain", inst, x, "a filter is not applied to the result of the previous one")
        elif conds:
            rep.bad("chain", inst, x, f"a filter is only applied when {show(conds[0], 4)}")
        elif any(v.exits(y, loop) for y in calls):
            rep.bad("chain", inst, x, "the filter chain can be left before its last filter")
        elif rev:
            rep.bad("chain", inst, x, "filters are applied in reverse order")
        elif seq.op == "slice" or v.uses(recv, lambda t: t.op == "slice" and t.a[0] is seq):
            rep.bad("chain", inst, x, "only a part of the filter chain is applied")
        elif v.is_call(seq, "builtins.sorted", "builtins.set", "builtins.reversed"):
            rep.bad("chain", inst, x, "filters are not applied in the configured order")
        elif recv is elem or recv in built:
            rep.ok("chain", inst, x)
        else:
            rep.unk("chain", inst, x, show(recv, 4)[:200])
    if partial(v, init):
        rep.bad("chain", inst, x, "the configured filters are given a row some columns of which were already taken out")
    # construction of the chain
    confs = [(t, None) for t in built] or [(c.val, c) for c in _confs(v, seq)]
    if not confs:
        rep.unk("complete", inst, x, "construction of the chain not recognised")
        return
    conf = mk("attr", mk("sym", "config"), "filters")
    for val, c in confs:
        recv = val.a[0].a[0]
        s = recv.a[0]
        src = [t for t in v.deep(s) if t.op == "item" and t.a[0] is conf]
        if not src:
            rep.unk("complete", inst, x, show(s, 4)[:200])
            continue
        item = src[0]
        fx = [y for y in v.fx if y.name == ".construct_filter" and y.result is val]
        bad = None
        if any(l.rev for y in fx for l in y.loops if l.term is recv.a[1]) or (c and any(l.rev for l in c.loops if l.term is recv.a[1])):
            bad = "filters are built in reverse order"
        elif any(l.sort or l.unordered for y in fx + ([c] if c else []) for l in y.loops if l.term is recv.a[1]):
            bad = "filters are not built in the configured order"
        elif any(t.op == "slice" for t in v.deep(s)):
            bad = "only a part of the configured filters is built"
        elif any(v.is_call(t, "builtins.sorted", "builtins.reversed", "builtins.set", "random.shuffle") for t in v.deep(s)):
            bad = "filters are not built in the configured order"
        elif any(v.exits(y, recv.a[1]) for y in fx):
            bad = "the construction of the chain can stop before the last configured filter"
        elif c and c.op == "insert":
            bad = "filters are not appended to the chain"
        outer = {g for y in v.reads for g, _ in y.guards}
        for g, tag in [p for y in fx for p in y.guards]:
            if tag in ("branch", "continue", "break") and g not in outer and not missing(v, g, conf) and v.uses(g, item.a[1]) and g not in {z for x2, _ in v.sinks() for z, _ in x2.guards}:
                bad = bad or f"configured filters are only built when {show(g, 4)[:150]}"
        for g, a in v.alts(s):
            if not v.uses(a, conf) and nothing(v, a) and not missing(v, g, conf):
                bad = bad or f"configured filters are left out when {show(g, 4)[:150]}"
        conds = [g for y in fx + ([c] if c else []) for g, tag in y.guards if tag in ("branch", "continue", "break") and v.varies(g, recv.a[1])]
        if conds:
            bad = f"a configured filter is left out unless {show(conds[0], 4)}"
        arg = val.a[1][0] if val.a[1] else None
        if arg is not None:
            through = v.e.backs.get(arg) if arg.op == "mu" else arg
            if through is None or not v.uses(through, lambda t: t.op == "attr" and t.a[1] == "columns_out"):
                bad = bad or "a filter is built from columns other than those the previous filter leaves"
            elif arg.op == "mu" and through.op == "phi":
                bad = bad or f"the columns a filter leaves are only passed on when {show(through.a[0], 4)}"
        rep.check(bad is None, "complete", inst, x, bad or "")
        # same key as the query
        keys = set()
        for y in v.reads:
            if any(v.is_row(t) and t.a[0] is y.result for t in v.deep(m)):
                keys |= v.query_keys(y)
        if not keys:
            rep.unk("key", inst, x)
        else:
            rep.check(item.a[1] in keys, "key", inst, x, f"filters are looked up under {show(item.a[1], 5)[:150]}, the query under {show(next(iter(keys)), 5)[:150]}")


def nothing(v, t):
    return (t.op in ("tuple", "list") and not t.a) or (t.op == "obj" and not v.contribs(t) and v.cls(t) is None) or t is NONE


def missing(v, g, conf):
    """The condition is about what is configured: it may say that there is nothing."""
    return any(v.uses(x, conf) for x in (g.a if g.op == "or" else literals(g)))


def partial(v, t, depth=0):
    """The sequence is a selection by position from the row, not a copy of it."""
    if depth > 6 or v.is_row(t):
        return False
    if t.op == "phi":
        return any(partial(v, a, depth + 1) for _, a in v.alts(t))
    if v.is_call(t, "builtins.list", "builtins.tuple"):
        return bool(t.a[1]) and partial(v, t.a[1][0], depth + 1)
    if t.op == "obj":
        for c in v.contribs(t):
            if c.op == "extend" and c.val is not None and partial(v, c.val, depth + 1):
                return True
            if c.op == "add" and c.loops and c.val is not None and c.val.op in ("item", "at"):
                # the loop is over positions, and they are not all positions
                if c.val.op == "item" and c.val.a[1].op == "at" and c.val.a[1].a[1] is c.loops[-1].term:
                    return True
                if any(v.varies(g, c.loops[-1].term) for g, _ in c.guards) and v.is_row(c.val.a[0]):
                    return True
    return False


def _confs(v, seq, depth=0):
    """Contributions to a chain that construct configured filters."""
    if depth > 6:
        return
    if seq.op == "phi":
        for _, s in v.alts(seq):
            yield from _confs(v, s, depth + 1)
    elif seq.op == "obj":
        for c in v.contribs(seq):
            if c.val is None:
                continue
            if v.is_call(c.val, ".construct_filter") and c.val.a[0].a[0].op == "at":
                yield c, c.loops
            elif c.op == "extend":
                yield from _confs(v, c.val, depth + 1)
