"""Loader for the MIR dump."""
import json, os, re
from . import build

class Fn:
    __slots__ = ('id', 'name', 'path', 'args', 'crate', 'local', 'ik', 'span', 'argc', 'spread', 'locals', 'names',
                 'blocks', 'kind', '_pdom', '_reach', '_succ', '_hdr', 'prog', '_native', '_pty', 'unsafe', 'tf', 'preds')
    def __init__(s, d, prog):
        s.prog = prog
        s.id = d.get('id') or d['name']; s.name = d['name']; s.path = d.get('path', d['name']); s.args = d.get('args', [])
        s.crate = d.get('crate', ''); s.local = d.get('local', 1); s.ik = d.get('ik', ''); s.span = d['span']
        s.argc = d.get('argc'); s.spread = d.get('spread'); s.locals = d.get('locals'); s.names = d.get('names')
        s.blocks = d.get('blocks'); s.kind = [k for k in ('foreign', 'intrinsic', 'skipped', 'nobody') if k in d]
        s.unsafe = d.get('unsafe', 0); s.tf = d.get('tf', []); s.preds = d.get('preds', [])
        s._pdom = None; s._succ = None; s._hdr = None; s._native = 0; s._pty = {}
    def succ(s):
        if s._succ is None:
            r = []
            for b in s.blocks:
                t = b['t']; k = t[0]
                if k == 'goto': x = [t[1]]
                elif k == 'switch': x = [y[1] for y in t[2]] + [t[3]]
                elif k == 'call': x = [] if t[4] is None else [t[4]]
                elif k == 'assert': x = [t[4]]
                elif k == 'drop': x = [t[2]]
                else: x = []
                r.append(x)
            s._succ = r
        return s._succ
    def pdom(s):
        """immediate post-dominators; virtual exit = -1; blocks that cannot reach a return map to None"""
        if s._pdom is not None: return s._pdom
        succ = s.succ(); n = len(succ)
        rets = [i for i, b in enumerate(s.blocks) if b['t'][0] == 'ret']
        pred = [[] for _ in range(n)]
        for i, x in enumerate(succ):
            for y in x: pred[y].append(i)
        can = set(rets); st = list(rets)
        while st:
            x = st.pop()
            for y in pred[x]:
                if y not in can: can.add(y); st.append(y)
        # reverse postorder on the reversed graph
        order = []; seen = set()
        EX = -1
        rs = lambda b: (rets if b == EX else [p for p in pred[b] if p in can])
        stack = [(EX, iter(rs(EX)))]; seen.add(EX)
        while stack:
            b, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y); stack.append((y, iter(rs(y)))); break
            else:
                order.append(b); stack.pop()
        order.reverse()
        num = {b: i for i, b in enumerate(order)}
        idom = {EX: EX}
        ch = True
        def inter(a, b):
            while a != b:
                while num[a] > num[b]: a = idom[a]
                while num[b] > num[a]: b = idom[b]
            return a
        while ch:
            ch = False
            for b in order[1:]:
                ps = [x for x in succ[b] if x in can]
                if b in rets: ps = ps + [EX]
                new = None
                for x in ps:
                    if x in idom: new = x if new is None else inter(x, new)
                if new is not None and idom.get(b) != new:
                    idom[b] = new; ch = True
        s._pdom = idom
        return idom

class Prog:
    def __init__(s, path):
        s.ty = {}; s.fn = {}; s.alloc = {}; s.consts = {}; s.items = []; s.gfn = {}
        ended = False
        with open(path) as f:
            for l in f:
                d = json.loads(l); k = d['k']
                if k == 'ty': s.ty[d['id']] = d
                elif k == 'fn': x = Fn(d, s); s.fn[x.id] = x
                elif k == 'gfn': x = Fn(d, s); s.gfn[x.name] = x
                elif k == 'alloc': s.alloc[d['id']] = d
                elif k == 'const': s.consts[d['name']] = d
                elif k == 'sess': s.tf = d['tf']
                elif k == 'item': s.items.append(d)
                elif k == 'end': ended = True
        if not ended: raise build.BuildError('truncated MIR dump')
        s.by_path = {}
        for x in s.fn.values():
            s.by_path.setdefault(x.path, []).append(x)
        s.ty_by_name = {t['name']: i for i, t in s.ty.items()}
    def find(s, suffix, local=True):
        """the local, non-closure functions whose path ends in `suffix`"""
        r = []
        for x in s.fn.values():
            if local and not x.local: continue
            if x.path == suffix or x.path.endswith('::' + suffix): r.append(x)
        return r
    def one(s, suffix):
        r = [x for x in s.find(suffix) if x.blocks is not None]
        if len(r) != 1: raise MissingAnchor('%s: %d candidates' % (suffix, len(r)))
        return r[0]
    def fieldidx(s, tid, name, var=0):
        for i, f in enumerate(s.ty[tid]['v'][var]['f']):
            if f[0] == name: return i
        raise MissingAnchor('field %s of %s' % (name, s.ty[tid]['name']))
    def adt(s, name):
        r = [i for i, t in s.ty.items() if t['t'] == 'adt' and (t['def'] == name or t['def'].endswith('::' + name))]
        if len(r) != 1: raise MissingAnchor('type %s: %d candidates' % (name, len(r)))
        return r[0]

class MissingAnchor(Exception):
    pass

_cache = {}
def load(profile='debug', repo=None, extra=()):
    k = (profile, repo, extra)
    if k not in _cache:
        out = build.dump(profile, repo=repo, extra=extra)
        try: _cache[k] = Prog(out)
        finally: os.unlink(out)
    return _cache[k]
