"""Edits that keep the behaviour: a thirteenth set, around the rules for the graph and what is selected."""

SO = "solver.py"

REV = '''    RG = {u: (set(edges) if union else set()) for u, edges in G.items()}
    for u, edges in G.items():
        for v in edges:
            RG[v].add(u)
    return RG
'''
for new in ('''    RG = {u: (set(edges) if union else set()) for u, edges in G.items()}
    for u, edges in G.items():
        for v in edges:
            RG[v] = RG[v] | {u}
    return RG
''', '''    RG = {u: (set(edges) if union else set()) for u, edges in G.items()}
    for u, edges in G.items():
        for v in edges:
            RG[v] = {*RG[v], u}
    return RG
''', '''    RG: GraphT = {}
    for u, edges in G.items():
        RG.setdefault(u, set())
        for v in edges:
            RG.setdefault(v, set()).add(u)
            if union:
                RG[u].add(v)
    return RG
''', '''    RG: GraphT = {}
    for u in G:
        if u not in RG:
            RG[u] = set()
        if union:
            RG[u].update(G[u])
        for v in G[u]:
            if v in RG:
                RG[v].add(u)
            else:
                RG[v] = {u}
    return RG
''', '''    return {
        v: (set(G[v]) if union else set()) | {u for u in G if v in G[u]} for v in G
    }
''', '''    RG = {u: (set(edges) if union else set()) for u, edges in G.items()}
    for u, edges in G.items():
        for v in edges:
            sources = set(RG[v])
            sources.add(u)
            RG[v] = sources
    return RG
'''):
    N(SO, REV, new)

ORD = '''    vis = {source}
    H = [source]
    result = [source]
    while H:
        H = toposort_reachable(G, H, vis)
        result.extend(H)
        vis.update(H)
        G, RG = RG, G

    return result
'''
for new in ('''    H = [source]
    result = [source]
    while H:
        H = toposort_reachable(G, H, {*result})
        result += H
        G, RG = RG, G

    return result
''', '''    layers = [[source]]
    while layers[-1]:
        vis = {u for layer in layers for u in layer}
        layers.append(toposort_reachable(G, layers[-1], vis))
        G, RG = RG, G

    return [u for layer in layers for u in layer]
''', '''    vis = frozenset([source])
    H = [source]
    result = [source]
    while H:
        H = toposort_reachable(G, H, set(vis))
        vis = vis.union(H)
        result = result + H
        G, RG = RG, G

    return result
''', '''    placed = dict.fromkeys([source])
    H = [source]
    while H:
        H = toposort_reachable(G, H, set(placed))
        placed.update(dict.fromkeys(H))
        G, RG = RG, G

    return list(placed)
''', '''    def _layers(here, there, H, vis):
        if not H:
            return []
        following = toposort_reachable(here, H, set(vis))
        return H + _layers(there, here, following, vis | set(following))

    return _layers(G, RG, [source], {source})
''', '''    vis = {source}
    H = [source]
    result = [source]
    while H:
        vis = {*vis, *H}
        H = toposort_reachable(G, H, vis)
        result.extend(H)
        G, RG = RG, G

    return result
'''):
    N(SO, ORD, new)

SEL = '''            self.config.select + self.config.passthrough,
'''
for new in ('''            list(itertools.chain(self.config.select, self.config.passthrough)),
''', '''            [
                pattern
                for patterns in (self.config.select, self.config.passthrough)
                for pattern in patterns
            ],
''', '''            (
                self.config.select + self.config.passthrough
                if self.config.passthrough
                else self.config.select
            ),
''', '''            list(dict.fromkeys(self.config.select + self.config.passthrough)),
'''):
    N(P, "import logging\n", "import itertools\nimport logging\n", P, SEL, new)

MUX = '''        for condition, condition_filter in zip(self.conditions, self.condition_filters):
            if condition.match(value):
                return condition_filter.filter_view(values_in)
        return list(values_in)
'''
for new in ('''        matching = [
            nested
            for condition, nested in zip(self.conditions, self.condition_filters)
            if condition.match(value)
        ]
        if not matching:
            return list(values_in)
        return matching[0].filter_view(values_in)
''', '''        matching = [
            nested
            for condition, nested in reversed(
                list(zip(self.conditions, self.condition_filters))
            )
            if condition.match(value)
        ]
        if matching:
            return matching[-1].filter_view(values_in)
        return list(values_in)
'''):
    N(F, MUX, new)

KEYS = '''            table.foreign_keys = [
                fk
                for fk in table.foreign_keys
                if (fk.dst_schema, fk.dst_table) != (dst_schema, dst_table_name)
            ]
'''
for new in ('''            for fk in list(table.foreign_keys):
                if (fk.dst_schema, fk.dst_table) == (dst_schema, dst_table_name):
                    table.foreign_keys.remove(fk)
''', '''            ignored = {
                fk
                for fk in table.foreign_keys
                if (fk.dst_schema, fk.dst_table) == (dst_schema, dst_table_name)
            }
            table.foreign_keys = [
                fk for fk in table.foreign_keys if fk not in ignored
            ]
''', '''            table.foreign_keys = list(
                filter(
                    lambda fk: (fk.dst_schema, fk.dst_table)
                    != (dst_schema, dst_table_name),
                    table.foreign_keys,
                )
            )
'''):
    N(P, KEYS, new)

TOP = '''        return [  # type: ignore
            self.tables[parse_table_name(u)] for u in toposort(self.as_graph())
        ]
'''
for new in ('''        by_key = {(table.schema, table.name): table for table in self.tables.values()}
        return [by_key[parse_table_name(u)] for u in toposort(self.as_graph())]
''', '''        return list(
            map(self.tables.__getitem__, map(parse_table_name, toposort(self.as_graph())))
        )
'''):
    N(M, TOP, new)
