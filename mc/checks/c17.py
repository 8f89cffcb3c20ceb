"""C17: the decomposition tree keeps every alternative and returns the cheapest finished one."""
from __future__ import annotations

import itertools

from mc.core import require

PROPERTY = "C17"
RULE = ("every tree that a sequence of up to n additions can build (every parent choice), with every assignment of costs (ties included) and "
        "of finished leaves, compared with brute force over root-to-leaf paths: lookup, size, depth, finished marks, cheapest path, its cost and graph; "
        "also when the queries are asked between additions, and additions below a parent that is not there")
BOUNDS = {"quick": "trees of up to 5 nodes, costs from 3 values, all finished sets; queries between additions on trees of up to 4; wide, deep and mixed trees of up to 12 nodes with up to 2 finished leaves", "thorough": "trees of up to 6 nodes, costs from 3 values; large ones of up to 14 nodes"}


def cases(tier, seed):
    n = 6 if tier == "thorough" else 5
    for size in range(1, n + 1):
        for parents in itertools.product(*[range(k) for k in range(1, size)]):
            yield {"parents": list(parents), "between": size <= 4}
    for size in range(6, 15 if n > 5 else 13):  # wide and deep ones
        for a in range(1, 4):
            yield {"parents": [max(0, k - a) if k % 2 else 0 for k in range(size - 1)], "large": True}
        yield {"parents": [0] * (size - 1), "large": True}
        yield {"parents": list(range(size - 1)), "large": True}


class Graph:
    def __init__(self, k):
        self.k = k


def build(costs, parents, keys, finished=(), between=False, tree=None):
    from mqt.qudits.core import NAryTree

    t = NAryTree()
    graphs = [Graph(i) for i in range(len(costs))]
    for i in range(len(costs)):
        t.add(keys[i], f"rot{i}", f"u{i}", graphs[i], costs[i], 20 - costs[i], (9.0, 9.0), [f"pulse{i}"], None if i == 0 else keys[parents[i - 1]])
        node = t.find_node(t.root, keys[i])
        if i in finished:
            node.finished = True
        if between:
            queries(t, costs[:i + 1], parents[:i], keys, [f for f in finished if f <= i], graphs, f"after {i + 1} additions")
    return t, graphs


def descend(parents, n):
    kids = {i: [] for i in range(n)}
    for c, p in enumerate(parents, 1):
        kids[p].append(c)
    return kids


def queries(t, costs, parents, keys, finished, graphs, key, rec=None):
    n = len(costs)
    kids = descend(parents, n)
    up = [None, *parents]

    def depth(i):
        return 1 + max(map(depth, kids[i])) if kids[i] else 0

    def path(i):
        return [i] if up[i] is None else [*path(up[i]), i]

    require(t.size == n, f"size {t.size} before refreshing, expected {n}", key)
    require(t.total_size == n and t.size == n, f"size {t.total_size}, expected {n}", key)
    require(not t.is_empty(), "tree with nodes says it is empty", key)
    for i in range(n):
        node = t.find_node(t.root, keys[i])
        require(node is not None and node.key == keys[i] and node.rotation == f"rot{i}" and node.current_cost == costs[i] and node.graph is graphs[i]
                and node.PI_PULSES == [f"pulse{i}"] and node.u_of_level == f"u{i}", f"node {keys[i]} lost or changed", key)
        require(node.parent_key == (None if up[i] is None else keys[up[i]]), f"parent of {keys[i]}", key)
        require(t.depth(keys[i]) == depth(i), f"depth below {keys[i]}", key)
    require(t.find_node(t.root, 991) is None, "a key that was never added was found", key)
    for i in range(n):
        leaves = [j for j in range(n) if not kids[j] and i in path(j) and j in finished]
        nodes, cost, graph = t.retrieve_decomposition(t.find_node(t.root, keys[i]))
        if not leaves:
            require(nodes == [] and cost[0] == float("inf"), f"a decomposition below {keys[i]} where none is finished", key)
            continue
        best = min(costs[j] for j in leaves)
        require(cost == (best, 20 - best), f"cost {cost} below {keys[i]}, cheapest finished is {best}", key)
        got = [x.key for x in nodes]
        ok = [j for j in leaves if costs[j] == best]
        require(got in [[keys[x] for x in path(j)[path(j).index(i):]] for j in ok], f"path {got} below {keys[i]} is not a cheapest finished one", key)
        require(graph is graphs[keys.index(got[-1])], "graph of another node", key)
        if rec:
            rec.step()


def check(case, rec):
    from mqt.qudits.core import NAryTree
    from mqt.qudits.exceptions import NodeNotFoundError

    parents = case["parents"]
    n = len(parents) + 1
    require(NAryTree().is_empty(), "a new tree is not empty", "empty")
    kids = descend(parents, n)
    leaves = [i for i in range(n) if not kids[i]]
    if case.get("large"):
        for k in range(3):
            for fin in itertools.combinations(leaves, min(k, len(leaves))):
                costs = [3.0 - 0.1 * (i * 5 % 7) for i in range(n)]
                t, graphs = build(costs, parents, list(range(n)), fin)
                queries(t, costs, parents, list(range(n)), fin, graphs, f"parents={parents} finished={fin}", rec)
                rec.trace()
                rec.state((tuple(parents), fin))
        return
    for leafcosts in itertools.product((1.0, 2.0, 2.5), repeat=len(leaves)):
        for k in range(len(leaves) + 1):
            for fin in itertools.combinations(leaves, k):
                for inner in (0.5, 3.0):
                    costs = [inner + 0.01 * i for i in range(n)]
                    for leaf, c in zip(leaves, leafcosts):
                        costs[leaf] = c
                    for keys in (list(range(n)), [7, 0, 5, 3, 11, 2][:n]):
                        key = f"parents={parents} costs={costs} finished={fin} keys={keys}"
                        t, graphs = build(costs, parents, keys, fin)
                        queries(t, costs, parents, keys, fin, graphs, key, rec)
                        queries(t, costs, parents, keys, fin, graphs, key + " asked again")
                        rec.trace()
                        rec.state((tuple(parents), tuple(costs), fin, tuple(keys)))
    t, graphs = build([1.0] * n, parents, list(range(n)))
    before = str(t)
    try:
        t.add(50, "r", "u", Graph(0), 1.0, 1.0, (9.0, 9.0), [], 77)
        require(False, "addition below a missing parent accepted", f"{parents}")
    except NodeNotFoundError:
        pass
    require(str(t) == before and t.size == n and t.total_size == n, "a refused addition changed the tree", f"{parents}")
    if case["between"]:
        # asking in between only marks nodes on the way to finished leaves
        costs = [2.0 + 0.1 * (i % 3) for i in range(n)]
        for k in range(len(leaves) + 1):
            for fin in itertools.combinations(leaves, k):
                build(costs, parents, list(range(n)), fin, between=True)
                rec.trace()
