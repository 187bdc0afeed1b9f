"""Nesting structures. A tree is a list of (name path tuple, scale); a forest is given by the parent of each node."""
import itertools
from functools import lru_cache


@lru_cache(None)
def forests(n_nodes, max_depth=99):
    """All ordered forests with n nodes whose nests have at least two children, as nested tuples"""
    if n_nodes == 0:
        return ((),)
    out = []
    for first in range(1, n_nodes + 1):
        for t in trees(first, max_depth):
            for rest in forests(n_nodes - first, max_depth):
                out.append((t,) + rest)
    return tuple(out)


@lru_cache(None)
def trees(n_nodes, max_depth):
    if n_nodes == 1:
        return ((),)
    if max_depth <= 1:
        return ()
    return tuple(f for f in forests(n_nodes - 1, max_depth - 1) if len(f) >= 2)


def models(n_nodes, max_depth=99):
    """Forests which are valid models: two or more top-level nodes"""
    return [f for f in forests(n_nodes, max_depth) if len(f) >= 2]


def parents(forest):
    """Parent positions in depth-first order (-1 for the top level)"""
    out = []

    def walk(children, parent):
        for c in children:
            out.append(parent)
            walk(c, len(out) - 1)
    walk(forest, -1)
    return out


def orders(par, limit=None):
    """All orders of insertion in which parents come before their children"""
    n = len(par)
    out = []

    def rec(done, acc):
        if limit is not None and len(out) >= limit:
            return
        if len(acc) == n:
            out.append(tuple(acc))
            return
        for i in range(n):
            if i not in done and (par[i] < 0 or par[i] in done):
                rec(done | {i}, acc + [i])
    rec(frozenset(), [])
    return out


def canonical_orders(par):
    """All orders of insertion, up to isomorphism of the resulting sequence of parent positions"""
    seen, out = set(), []
    for o in orders(par):
        pos = {node: i for i, node in enumerate(o)}
        key = tuple(-1 if par[node] < 0 else pos[par[node]] for node in o)
        if key not in seen:
            seen.add(key)
            out.append(list(key))
    return out


def sequences(n_nodes, max_depth=99):
    """All distinct construction sequences of valid models with n nodes: each is the list of parent positions, in the
    order of insertion (a parent's position being smaller than its children's)"""
    out = []
    for combo in itertools.product(*[range(-1, i) for i in range(n_nodes)]):
        kids = [0] * n_nodes
        top = 0
        depth = []
        for i, p in enumerate(combo):
            if p < 0:
                top += 1
                depth.append(1)
            else:
                kids[p] += 1
                depth.append(depth[p] + 1)
        if top >= 2 and all(k != 1 for k in kids) and max(depth) <= max_depth:
            out.append(list(combo))
    return out


def build(model, seq, scales=None, names=None):
    """Adds the nodes to a model in the order of the sequence; returns the nodes"""
    nodes = []
    for i, p in enumerate(seq):
        name = names[i] if names else f'n{(i * 5) % 13}{"abcdefghijklmnopqrstuvwxyz"[i % 26]}{i // 26 or ""}'
        kw = {} if scales is None else {'logsum_scale': scales[i]}
        nodes.append((model if p < 0 else nodes[p]).add_choice(name, **kw))
    return nodes


def depth_of(seq):
    d = []
    for p in seq:
        d.append(1 if p < 0 else d[p] + 1)
    return d


def reference(u, seq, scales, scaling):
    """Recursive nested logit formula. u: units x nodes. Returns probabilities (0 for nests), top logsum, node terms"""
    import numpy as np
    n = len(seq)
    kids = [[j for j in range(n) if seq[j] == i] for i in range(n)]
    terms, p = np.zeros(u.shape), np.zeros(u.shape)

    def term(i):
        parent = seq[i]
        by = scales[parent] if scaling and parent >= 0 else 1.0
        if kids[i]:
            inside = 0.0
            for j in kids[i]:
                inside = inside + term(j)
            v = u[:, i] + scales[i] * np.log(inside)
        else:
            v = u[:, i]
        terms[:, i] = np.exp(v / by)
        return terms[:, i]

    def share(i, siblings, above):
        total = sum(terms[:, j] for j in siblings)
        cond = np.where(total > 0, terms[:, i] / np.where(total > 0, total, 1.0), 0.0)
        here = cond * above
        if kids[i]:
            for j in kids[i]:
                share(j, kids[i], here)
        else:
            p[:, i] = here

    with np.errstate(all='ignore'):
        roots = [i for i in range(n) if seq[i] < 0]
        top = sum(term(i) for i in roots)
        for i in roots:
            share(i, roots, np.ones(len(u)))
    return p, top, terms
