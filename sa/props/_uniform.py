"""Is a value the same on all processes?"""
from ._cfg import *

UNIFORM = ('mpi.allreduce', 'mpi.bcast', 'mpi.allgather', 'mpi.Allgather')
OWN = ('mpi.scan', 'mpi.exscan', 'mpi.reduce', 'mpi.gather', 'mpi.scatter', 'mpi.alltoall', 'mpi.recv', 'time.', 'random.', 'numpy.random.',
       'os.getpid', 'tempfile.', 'uuid.', 'secrets.', 'platform.node', 'socket.')
FILE_COLL = ('Open', 'Set_size', 'Set_view', 'Set_info', 'Set_atomicity', 'Preallocate', 'Sync', 'Close', 'Write_all', 'Read_all', 'Write_at_all',
             'Read_at_all', 'Write_ordered', 'Read_ordered', 'Write_shared_all')


class Uniform:
    def __init__(self, r):
        self.phi = {}
        for l in r.ip.loops:
            for loc, (p, i, nx) in l.eqs.items():
                self.phi[p] = (i, nx)
        self.memo = {}

    def own(self, t):
        """a part of the value that differs between processes, or None"""
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None         # loop-carried values: greatest fixpoint
        r = self.memo[t] = self._own(t)
        return r

    def _own(self, t):
        if t is RANK or t.op == 'sym' and T.info(t).get('rankdep'):
            return t
        if t in self.phi:
            for x in self.phi[t]:
                if isinstance(x, T.Term):
                    o = self.own(x)
                    if o is not None:
                        return o
            return None
        if t.op == 'call' and isinstance(t.args[0], str):
            f = t.args[0]
            if f.startswith(UNIFORM):
                return None
            if f.startswith(OWN):
                return t
        if t.op in ('getitem', 'dim') and t.args[0].op in ('shape', 'call') and (t.args[0].op == 'shape' or t.args[0].args[0] == 'shape'):
            x = t.args[0].args[-1]
            d = models.shp(x) if T.kind(x) == 'arr' else None
            k = t.args[1]
            if k.op == 'ix' and len(k.args) == 1:
                k = k.args[0]
            k = T.intval(k)
            if d is not None and k is not None and -len(d) <= k < len(d):
                return self.own(d[k])
        if t.op in ('len', 'size') and T.kind(t.args[0]) == 'arr':
            d = models.shp(t.args[0])
            if d is not None:
                for x in (d[:1] if t.op == 'len' else d):
                    o = self.own(x)
                    if o is not None:
                        return o
                return None
        if t.op == 'rec':
            ps, nexts, inits, v, k = T.rec_parts(t)
            todo = [v, k, *nexts, *inits]
        else:
            todo = T.children(t)
        for c in todo:
            o = self.own(c)
            if o is not None:
                return o
        return None
