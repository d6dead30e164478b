"""Random edit histories of Python graphs, with everything their queries say after every step."""
import json, random, signal, sys
import native  # noqa
native.load()
from hugr import ops, tys
from hugr.hugr import Hugr
from hugr.hugr.node_port import Node, Direction

def name(o):
    n = type(o).__name__
    return n if n in ('Module', 'DFG', 'Input') else 'operation'
def ports(h, n):
    o = [[p.offset, [[q.node.idx, q.offset] for q in h.linked_ports(p)]] for p in [n.out(k) for k in range(-1, h.num_out_ports(n))]]
    i = [[p.offset, [[q.node.idx, q.offset] for q in h.linked_ports(p)]] for p in [n.inp(k) for k in range(-1, h.num_in_ports(n))]]
    return [x for x in o if x[1]], [x for x in i if x[1]]
def shape(h):
    ns = []
    for n, d in h.nodes():
        o, i = ports(h, n)
        ns.append({'i': n.idx, 'p': -1 if d.parent is None else d.parent.idx, 'ch': [c.idx for c in h.children(n)], 'm': json.dumps(d.metadata, sort_keys=True),
                   'op': name(d.op), 'outs': o, 'ins': i,
                   'out2': [[p.offset, [[q.node.idx, q.offset] for q in l]] for p, l in sorted(h.outgoing_links(n)) if l],
                   'in2': [[p.offset, [[q.node.idx, q.offset] for q in l]] for p, l in sorted(h.incoming_links(n)) if l],
                   'nbo': sorted(x.idx for x in h.output_neighbours(n)), 'nbi': sorted(x.idx for x in h.input_neighbours(n)),
                   'no2': h.num_outgoing(n), 'ni2': h.num_incoming(n), 'oo': sorted(x.idx for x in h.outgoing_order_links(n)), 'oi': sorted(x.idx for x in h.incoming_order_links(n))})
    return {'ns': ns, 'ls': sorted([s.node.idx, s.offset, t.node.idx, t.offset] for s, t in h.links()), 'n': h.num_nodes(), 'len': len(h), 'ep': h.entrypoint.idx, 'root': h.module_root.idx,
            'desc': sorted(x.idx for x in h.descendants()), 'all': sorted(x.idx for x in h.descendants(h.module_root))}
def stored(h):
    t = h.to_str()
    j = json.loads(t[t.index('{'):])['modules'][0]
    off = lambda o: -1 if o is None else o
    return {'ns': [{'p': x['parent'], 'op': x['op'], 'm': json.dumps(m or {}, sort_keys=True)} for x, m in zip(j['nodes'], j['metadata'])],
            'ls': sorted([s, off(so), t, off(to)] for (s, so), (t, to) in j['edges']), 'ep': j['entrypoint']}
def op(r):
    return r.choice([lambda: (ops.Noop(tys.Bool), 0), lambda: (ops.Noop(tys.Bool), 0), lambda: (ops.DFG([tys.Bool], _outputs=[tys.Bool]), 1), lambda: (ops.Input([tys.Bool] * 3), 0), lambda: (ops.MakeTuple([tys.Bool] * 3), 0)])()
def case(seed):
    r = random.Random(seed)
    hs = [Hugr(), Hugr()]
    evs, lin = [], [{h.module_root.idx: 1} for h in hs]
    post = [shape(h) for h in hs]
    reuse = [False, False]
    first = post
    dels = r.random() < .8
    for _ in range(r.randint(5, 30)):
        s = 0 if r.random() < .7 else 1
        h, cont = hs[s], lin[s]
        ns = [n for n, _ in h.nodes()]
        leaf = [n for n in ns if h[n].parent is not None]
        k = r.choices(['add', 'link', 'order', 'unlink', 'del', 'insert', 'meta', 'entry', 'store', 'load'], [30, 30, 8, 12 if dels else 0, 6 if dels else 0, 4 if s == 0 else 0, 5, 3, 4, 2])[0]
        e = {'ev': k, 's': s + 1}
        if k == 'add':
            o, c = op(r); p = r.choice([n for n in ns if n.idx in cont])
            no = r.choice([None, 0, 1, 2, 3]); m = r.choice([None, {'a': r.randint(0, 9)}, {'b': [1, 'x']}])
            n = h.add_node(o, p, num_outs=no, metadata=dict(m) if m else m)
            if c: cont[n.idx] = 1
            else: cont.pop(n.idx, None)
            e.update(p=p.idx, no=no or 0, m=json.dumps(m or {}, sort_keys=True), op=name(o), r=n.idx)
        elif k == 'link':
            if not leaf: continue
            a, b, x, y = r.choice(leaf), r.choice(leaf), r.randint(0, 2), r.randint(0, 2)
            h.add_link(a.out(x), b.inp(y)); e.update(l=[a.idx, x, b.idx, y])
        elif k == 'order':
            a = [n for n in leaf if type(h[n].op).__name__ not in ('Module', 'Input')]
            if len(a) < 2: continue
            a, b = r.sample(a, 2); h.add_order_link(a, b); e.update(l=[a.idx, -1, b.idx, -1])
        elif k == 'unlink':
            ls = list(h.links())
            if ls and r.random() < .85: a, b = r.choice(ls)
            elif leaf: a, b = r.choice(leaf).out(r.randint(0, 2)), r.choice(leaf).inp(r.randint(0, 2))
            else: continue
            e['has'] = h.has_link(a, b)
            h.delete_link(a, b); e.update(l=[a.node.idx, a.offset, b.node.idx, b.offset])
        elif k == 'del':
            q = [n for n in leaf if not h.children(n) and n != h.entrypoint]
            if not q: continue
            n = r.choice(q); d = h.delete_node(n); cont.pop(n.idx, None); e.update(n=n.idx, r=name(d.op))
        elif k == 'insert':
            p = r.choice([n for n in ns if n.idx in cont])
            g = hs[1]
            m = h.insert_hugr(g, p)
            for a, b in m.items():
                if a.idx in lin[1]: cont[b.idx] = 1
                else: cont.pop(b.idx, None)
            e.update(p=p.idx, r=sorted([a.idx, b.idx] for a, b in m.items()))
        elif k == 'meta':
            if not ns: continue
            n = r.choice(ns); v = r.randint(10, 19); h[n].metadata['k'] = v
            e.update(n=n.idx, m=json.dumps(h[n].metadata, sort_keys=True))
        elif k == 'entry':
            n = r.choice([n for n in ns if n.idx in cont]); h.entrypoint = n; e.update(n=n.idx)
        elif k == 'store':
            if reuse[s]: continue
            e['r'] = stored(h)
        elif k == 'load':
            if reuse[s]: continue
            hs[s] = Hugr.from_str(h.to_str()); h = hs[s]
            live = [n.idx for n in ns]
            lin[s] = {j: 1 for j, i in enumerate(live) if i in cont}
            e['r'] = live
        evs.append(e)
        new = [shape(h) for h in hs]
        # the position of a deleted node was taken again
        if k == 'add' and any(x['i'] > e['r'] for x in new[s]['ns']): reuse[s] = True
        if k == 'insert' and sorted(x['i'] for x in new[s]['ns'])[-len(e['r']):] != sorted(b for _, b in e['r']): reuse[s] = True
        e['post'] = new
    return {'id': str(seed), 'ev': 'edits', 'first': first, 'evs': evs}
def directed():
    """the position of a deleted node is taken again, then the program is stored and loaded"""
    h, g = Hugr(), Hugr()
    r = h.module_root
    evs, first = [], [shape(h), shape(g)]
    def ev(e): e['s'] = 1; e['post'] = [shape(h), shape(g)]; evs.append(e)
    def add():
        o = ops.DFG([tys.Bool], _outputs=[tys.Bool]); n = h.add_node(o, r)
        ev(dict(ev='add', p=0, no=0, m='{}', op='DFG', r=n.idx)); return n
    x = add(); add()
    h.delete_node(x); ev(dict(ev='del', n=x.idx, r='DFG'))
    add()
    h = Hugr.from_str(h.to_str()); ev(dict(ev='load', r=[0, 1, 2]))
    return {'id': 'directed-reuse', 'ev': 'edits', 'first': first, 'evs': evs}
def main():
    seed, n, chunks, out = int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    import multiprocessing as mp
    ps = [mp.Process(target=run, args=(seed, n, chunks, c, out)) for c in range(chunks)]
    for p in ps: p.start()
    for p in ps: p.join()
    sys.exit(max(abs(p.exitcode) for p in ps))
def run(seed, n, chunks, c, out):
    def late(*_): raise TimeoutError('no end after 20 s')
    signal.signal(signal.SIGALRM, late)
    with open('%s.%d.ndjson' % (out, c), 'w') as f:
        f.write('{}\n')
        for k in range(c, n, chunks):
            s = seed * 1000003 + k
            open('%s.%d.cur' % (out, c), 'w').write(str(s))
            signal.alarm(20)
            try: j = directed() if k == 0 else case(s)
            except Exception as e:
                import traceback
                j = {'id': str(s), 'ev': 'crash', 'what': type(e).__name__ + ': ' + str(e)[:200] + ' @ ' + ' < '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in reversed(traceback.extract_tb(e.__traceback__)[-3:]))}
            f.write(json.dumps(j) + '\n')
if __name__ == '__main__': main()
