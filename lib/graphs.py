"""Reference graph algorithms for oracles (boring on purpose)."""
import itertools


def reach(n, edges):
    """reach[u][v]: v reachable from u by at least one edge (Warshall)."""
    r = [[False] * n for _ in range(n)]
    for u, v in edges:
        r[u][v] = True
    for k in range(n):
        for i in range(n):
            if r[i][k]:
                row = r[k]
                ri = r[i]
                for j in range(n):
                    if row[j]:
                        ri[j] = True
    return r


def component(n, edges, starts):
    """Undirected component of the starts."""
    adj = {i: set() for i in range(n)}
    for u, v in edges:
        adj[u].add(v)
        adj[v].add(u)
    seen = set(starts)
    todo = list(starts)
    while todo:
        u = todo.pop()
        for v in adj[u]:
            if v not in seen:
                seen.add(v)
                todo.append(v)
    return seen


def order_error(order, expected, n, edges):
    """None, or what is wrong with this execution order."""
    if sorted(order) != sorted(expected):
        return 'order %s does not contain exactly the blocks %s once' % (order, sorted(expected))
    pos = {b: i for i, b in enumerate(order)}
    r = reach(n, edges)
    for u, v in edges:
        if u != v and u in pos and v in pos and not r[v][u] and pos[u] > pos[v]:
            return 'order %s: %d feeds %d but runs later' % (order, u, v)
    return None


def subsets(items, upto=None):
    items = list(items)
    for k in range(len(items) + 1 if upto is None else min(upto, len(items)) + 1):
        yield from itertools.combinations(items, k)
