"""Contracts are written once against this interface; symv.SymV discharges them, concv.ConcV replays them on the real build."""

REGISTRY = {}

class Contract:
    def __init__(self, pid, name, fn, fns, opts):
        self.pid, self.name, self.fn, self.fns, self.opts = pid, name, fn, fns, opts

def contract(pid, name, fns=(), **opts):
    """fns: the /repo functions whose behaviour the contract specifies.
    opts: mode='proof' (default) | 'bounded' (concrete only), runs=N, budget=s, paths=N, unroll=N, while_cut=(...)"""
    def deco(f):
        REGISTRY.setdefault(pid, []).append(Contract(pid, name, f, list(fns), opts))
        return f
    return deco

class Skip(BaseException):
    """concrete evaluation whose inputs do not satisfy the precondition"""
class Violated(Exception):
    def __init__(self, oblig, msg): Exception.__init__(self, '%s: %s' % (oblig, msg)); self.oblig = oblig; self.msg = msg
