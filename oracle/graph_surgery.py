from gutil import *
from collections import defaultdict
STATS = {}
OPS = ['add_nodes', 'add_edges', 'add_arcs', 'add_edge', 'add_arc', 'remove_nodes', 'remove_edges', 'remove_arcs', 'remove_edge', 'remove_arc', 'sub', 'cut_in', 'cut_out']

def cases(rng, n):
    for i in range(n):
        d = rand_graph(rng); m = M.of(d); ops = []
        for _ in range(rng.randint(1, 4)):
            op = rng.choice(OPS); new = rng.random() < .5; ns = sorted(m.n); order = topo(m)
            if op == 'add_nodes': arg = rand_subset(rng, ns, .3) + rand_subset(rng, ['n1', 'n2', 'n3'])
            elif op in ('add_edges', 'add_edge'):
                arg = [[order[i], order[j]] for i in range(len(order)) for j in range(i + 1, len(order)) if rng.random() < .3]
                rng.shuffle(arg)
            elif op in ('add_arcs', 'add_arc'):
                arg = [[order[i], order[j]] for i in range(len(order)) for j in range(len(order)) if i != j and rng.random() < .2]
            elif op in ('remove_edges', 'remove_edge'): arg = [list(e) for e in rand_subset(rng, sorted(m.e))]; rng.shuffle(arg)
            elif op in ('remove_arcs', 'remove_arc'): arg = [sorted(e, reverse=rng.random() < .5) for e in rand_subset(rng, sorted(map(sorted, m.a)))]
            else: arg = rand_subset(rng, ns); rng.shuffle(arg)
            if op in ('add_edge', 'add_arc', 'remove_edge', 'remove_arc'):
                if not arg: continue
                arg = arg[:1]
            ops.append([op, new, arg]); m = apply_model(m, op, arg)
        yield dict(graph=d, ops=ops)

def topo(m):
    out, left = [], set(m.n)
    while left:
        r = sorted(v for v in left if not (m.pa(v) & left)); out += r; left -= set(r)
    return out

def apply_model(m, op, arg):
    if op == 'add_nodes': return M(m.n | set(arg), m.e, m.a)
    if op in ('add_edges', 'add_edge'): return M(m.n, m.e | {tuple(e) for e in arg}, m.a)
    if op in ('add_arcs', 'add_arc'): return M(m.n, m.e, m.a | {frozenset(e) for e in arg})
    if op == 'remove_nodes': return m.sub(m.n - set(arg))
    if op in ('remove_edges', 'remove_edge'): return M(m.n, m.e - {tuple(e) for e in arg}, m.a)
    if op in ('remove_arcs', 'remove_arc'): return M(m.n, m.e, m.a - {frozenset(e) for e in arg})
    if op == 'sub': return m.sub(arg)
    if op == 'cut_in': return m.cut_in(arg)
    if op == 'cut_out': return m.cut_out(arg)

def check(case):
    d = case['graph']; c = defaultdict(list) if len(d['nodes']) % 2 else {}
    for n in d['nodes']: c[n] = []
    for u, v in d['edges']: c[v].append(u)
    arcs = [tuple(a) for a in d['arcs']]
    c0 = {k: list(v) for k, v in c.items()}; arcs0 = list(arcs)
    g = CausalGraph(c, latent_confounding_arcs=arcs or None); m = M.of(d); n = len(d['nodes'])
    r = differs(g, m, 'after construction: ')
    if r: return r
    for op, new, arg in case['ops']:
        before, bm = g, m
        m = apply_model(m, op, arg); tup = [tuple(e) for e in arg] if arg and not isinstance(arg[0], str) else list(arg)
        arg0 = list(tup)
        if op == 'add_nodes': r = g.add_nodes(tup, new=new)
        elif op == 'add_edges': r = g.add_edges_from(tup, new=new)
        elif op == 'add_arcs': r = g.add_edges_from(tup, new=new, observed=False)
        elif op == 'remove_nodes': r = g.remove_nodes(set(tup), new=new)
        elif op == 'remove_edges': r = g.remove_edges_from(tup, new=new)
        elif op == 'remove_arcs': r = g.remove_edges_from(tup, new=new, observed=False)
        elif op == 'cut_in': r = g.remove_incoming_edges(set(tup), new=new)
        elif op == 'cut_out': r = g.remove_outgoing_edges(set(tup), new=new)
        elif op == 'sub': r = g.build_sub_graph(set(tup)); new = True
        else:
            new = False
            if op == 'add_edge': g.add_edge(*tup[0])
            if op == 'add_arc': g.add_edge(*tup[0], observed=False)
            if op == 'remove_edge': g.remove_edge(tup[0])
            if op == 'remove_arc': g.remove_edge(tup[0], observed=False)
        if new: g = r
        msg = differs(g, m, 'after %s(%s, new=%s): ' % (op, arg, new))
        if msg: return msg
        if new:
            msg = differs(before, bm, 'original after %s(%s, new=True): ' % (op, arg))
            if msg: return msg
            # the copy is independent of the original
            g2 = g; g2.add_nodes(['fresh1', 'fresh2']); g2.add_edge('fresh1', 'fresh2')
            for v in sorted(bm.n & m.n): g2.add_edge('fresh1', v)
            msg = differs(before, bm, 'original after changing the result of %s: ' % op)
            if msg: return msg
            g2.remove_nodes(['fresh1', 'fresh2'])
        if tup != arg0: return 'argument of %s changed' % op
        STATS[op] = STATS.get(op, 0) + 1
    if {k: list(v) for k, v in c.items()} != c0: return 'the parent table given to the constructor changed: %s -> %s' % (c0, dict(c))
    if arcs != arcs0: return 'the arc list given to the constructor changed'
    return None

def shrink(case):
    for i in range(len(case['ops'])):
        yield dict(case, ops=case['ops'][:i] + case['ops'][i + 1:])
