"""Families of federations the federation-level checks run.  A suite takes a random generator and returns
(Net, topology name)."""
from . import gen

SUITES = {}


def suite(f):
    SUITES[f.__name__] = f
    return f


def _topo(r):
    return r.choice(["flat", "tree", "deep"])


@suite
def val(r):
    return gen.fed_net(r, "val"), _topo(r)


@suite
def val_plain(r):
    return gen.fed_net(r, "val", rich=False), _topo(r)


@suite
def vt(r):
    return gen.fed_net(r, "vt"), _topo(r)


@suite
def tgt(r):
    return gen.fed_net(r, "tgt"), _topo(r)


@suite
def msg2(r):
    return gen.fed_net(r, "msg", nf=2), _topo(r)


@suite
def lock(r):
    """untargeted endpoints on three or four federates advancing in lock step"""
    nf = r.choice([3, 3, 4])
    return gen.lock_net(r, nf, r.choice([1, 2, nf])), _topo(r)


@suite
def rich_val(r):
    """repeated values with change filters, requests for the end of time, input delays"""
    return gen.fed_net(r, "val", small=0.4, maxreq=0.4, ind=0.2, noint=0.2), _topo(r)


@suite
def rich_tgt(r):
    return gen.fed_net(r, "tgt", maxreq=0.4, burst=0.15, ind=0.2), _topo(r)


@suite
def rich_msg2(r):
    return gen.fed_net(r, "msg", nf=2, maxreq=0.4, burst=0.15, ind=0.2), _topo(r)


@suite
def x_max_plain(r):
    return gen.fed_net(r, "tgt", rich=False, maxreq=0.7), _topo(r)


@suite
def x_max_two(r):
    return gen.fed_net(r, "tgt", nf=2, maxreq=0.7), _topo(r)


@suite
def x_max_val(r):
    return gen.fed_net(r, "val", rich=False, maxreq=0.7), _topo(r)


@suite
def iter_val(r):
    """iterative time requests (forced and on demand)"""
    return gen.fed_net(r, "val", small=0.3, iter=0.4), _topo(r)


@suite
def iter_tgt(r):
    return gen.fed_net(r, "tgt", iter=0.4), _topo(r)


@suite
def evt_val(r):
    return gen.fed_net(r, "val", evt=0.3), _topo(r)


@suite
def evt_tgt(r):
    return gen.fed_net(r, "tgt", evt=0.3), _topo(r)


@suite
def restr_vt(r):
    return gen.fed_net(r, "vt", restr=0.4), _topo(r)


def _wait(r, kind):
    """one federate waits for the current time (two that hear from each other may not)"""
    net = gen.fed_net(r, kind, init=r.random() < 0.5)
    f = r.choice(sorted(net.feds))
    net.feds[f]["opt"]["wait"] = True
    return net, _topo(r)


@suite
def wait_val(r):
    return _wait(r, "val")


@suite
def wait_tgt(r):
    return _wait(r, "tgt")


@suite
def force_val(r):
    return gen.fed_net(r, "val", small=0.3, iter=0.4, force=0.5, solo=True), _topo(r)


@suite
def force_tgt(r):
    return gen.fed_net(r, "tgt", iter=0.4, force=0.5, solo=True), _topo(r)


@suite
def mix_val(r):
    return gen.fed_net(r, "val", small=0.3, iter=0.4, force=0.3), _topo(r)


@suite
def mix_tgt(r):
    return gen.fed_net(r, "tgt", iter=0.4, force=0.3), _topo(r)


@suite
def xiter_val(r):
    """iterative entries to executing mode"""
    return gen.fed_net(r, "val", small=0.2, xiter=0.7), _topo(r)


@suite
def xiter_tgt(r):
    return gen.fed_net(r, "tgt", xiter=0.7), _topo(r)


@suite
def xneed_val(r):
    """entries to executing mode that iterate as long as there is new data"""
    return gen.fed_net(r, "val", small=0.2, xiter=0.7, xreq=(2,)), _topo(r)


@suite
def xneed_tgt(r):
    return gen.fed_net(r, "tgt", xiter=0.7, xreq=(2,)), _topo(r)


@suite
def xforce_val(r):
    return gen.fed_net(r, "val", small=0.2, xiter=0.7, xreq=(1,)), _topo(r)


@suite
def xforce_tgt(r):
    return gen.fed_net(r, "tgt", xiter=0.7, xreq=(1,)), _topo(r)


@suite
def xtwo_val(r):
    return gen.fed_net(r, "val", nf=2, small=0.2, xiter=1, xreq=(2,), rich=False), _topo(r)


@suite
def xtwo_tgt(r):
    return gen.fed_net(r, "tgt", nf=2, xiter=1, xreq=(2,), rich=False), _topo(r)


@suite
def xtwof_val(r):
    return gen.fed_net(r, "val", nf=2, small=0.2, xiter=1, xreq=(1,), rich=False), _topo(r)


@suite
def flt2(r):
    """filters on endpoints of their own federate"""
    return gen.flt_net(r), _topo(r)


@suite
def flt2r(r):
    """filters owned by any federate"""
    return gen.flt_net(r, local=False), _topo(r)


@suite
def flt3(r):
    return gen.flt_net(r, nf=3), _topo(r)


@suite
def flt3r(r):
    return gen.flt_net(r, nf=3, local=False), _topo(r)


def _one_kind(k, nf=3, local=True):
    def f(r):
        return gen.flt_net(r, nf=nf, local=local, kinds=[k]), _topo(r)
    return f


for _k in ("delay", "append", "dropif", "reroute", "clone", "rdrop", "redest"):
    SUITES["k_" + _k] = _one_kind(_k)
    SUITES["kr_" + _k] = _one_kind(_k, local=False)


@suite
def wire_val(r):
    return gen.wire_net(r, "val"), _topo(r)


@suite
def wire_tgt(r):
    return gen.wire_net(r, "tgt"), _topo(r)


@suite
def wire_vt(r):
    return gen.wire_net(r, "vt"), _topo(r)


@suite
def wire_one(r):
    return gen.wire_net(r, "val", nf=2, alias=0.0, dup=False), "flat"


@suite
def wire_plain(r):
    return gen.wire_net(r, "val", alias=0.0, dup=False), _topo(r)


@suite
def wire_onet(r):
    return gen.wire_net(r, "tgt", nf=2, alias=0.0, dup=False), "flat"


# ------------------------------------------------------------------ the same programs with asynchronous calls
ASYNC = dict(enterInit=("enterInitAsync", "enterInitComplete"), enterExec=("execAsync", "execComplete"), time=("timeAsync", "timeComplete"), finalize=("finalizeAsync", "finalizeComplete"))


def _async(r, prog, share):
    out = []
    for op in prog:
        op = dict(op)
        if "body" in op:
            op["body"] = _async(r, op["body"], share)
        if op["op"] in ASYNC and not op.get("forceIter") and r.random() < share:
            a, c = ASYNC[op["op"]]
            out.append(dict(op, op=a))
            for _ in range(r.choice([0, 0, 1, 3])):
                out.append(dict(op="asyncDone"))
            d = dict(op=c)
            if op.get("iter"):
                d["iter"] = op["iter"]
            out.append(d)
        else:
            out.append(op)
    return out


def _asuite(base, name):
    def g(r):
        net, topo = SUITES[base](r)
        share = r.choice([1.0, 1.0, 0.5])
        plain = net.scenario

        def scenario(t):
            sc = plain(t)
            for a in sc["actors"]:
                a["prog"] = _async(r, a["prog"], share)
            return sc
        net.scenario = scenario
        return net, topo
    SUITES[name] = g


for _b in ("val", "vt", "tgt", "msg2", "iter_val", "iter_tgt", "rich_val", "rich_tgt", "xtwo_val", "mix_val", "lock"):
    _asuite(_b, "async_" + _b)
