"""SMT terms: one universal value sort V, sequences of V, integers and booleans."""
import z3

_V = z3.Datatype("V")
_Q = z3.SeqSort(z3.DatatypeSort("V"))
_V.declare("vnone")
_V.declare("vbool", ("vb", z3.BoolSort()))
_V.declare("vint", ("vi", z3.IntSort()))
_V.declare("vstr", ("vs", z3.StringSort()))
_V.declare("vtup", ("tq", _Q))
_V.declare("vlist", ("lq", _Q))
_V.declare("vobj", ("oc", z3.IntSort()), ("oq", _Q))
_V.declare("vatom", ("va", z3.IntSort()))
V = _V.create()
Q = z3.SeqSort(V)
I = z3.IntSort()
B = z3.BoolSort()

SORTS = {"I": I, "B": B, "V": V, "Q": Q}

truthy_uf = z3.Function("truthy", V, B)
ord_uf = z3.Function("ord", V, I)
unord_uf = z3.Function("unord", I, V)
hash_uf = z3.Function("hash", V, I)
EMPTY = z3.Empty(Q)


class Atoms:
    """Identity atoms for real (native) objects embedded in V."""

    def __init__(self):
        self.ids = {}
        self.keep = []

    def of(self, o):
        k = id(o)
        if k not in self.ids:
            self.ids[k] = len(self.ids) + 1
            self.keep.append(o)
        return V.vatom(-self.ids[k])


ATOMS = Atoms()


class ClsIds:
    def __init__(self):
        self.ids = {}
        self.rev = []

    def of(self, c):
        if c not in self.ids:
            self.ids[c] = len(self.rev)
            self.rev.append(c)
        return self.ids[c]


CLS = ClsIds()


def seq_of(ts):
    ts = [z3.Unit(t) for t in ts]
    if not ts:
        return EMPTY
    if len(ts) == 1:
        return ts[0]
    return z3.Concat(*ts)


def v_truth(t):
    return z3.If(V.is_vnone(t), z3.BoolVal(False),
           z3.If(V.is_vbool(t), V.vb(t),
           z3.If(V.is_vint(t), V.vi(t) != 0,
           z3.If(V.is_vtup(t), z3.Length(V.tq(t)) > 0,
           z3.If(V.is_vlist(t), z3.Length(V.lq(t)) > 0,
           z3.If(V.is_vstr(t), z3.Length(V.vs(t)) > 0, truthy_uf(t)))))))
