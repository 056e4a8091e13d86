"""Scenario generators.  A scenario is (driver scenario, FedCore configuration)."""
import random

FDEF = dict(period=0, offset=0, delta=1, ind=0, outd=0, unint=False, wait=False, maxit=50, late=False)


class Net:
    """Builds a federation: feds, their interfaces and programs, plus the specification's configuration."""

    def __init__(self, rng):
        self.r = rng
        self.feds = {}      # name -> dict(core, opts, reg=[ops], prog=[ops])
        self.order = []
        self.pubs = {}
        self.ins = {}
        self.eps = {}
        self.flt = {}
        self.setup = []
        self.post = []      # main ops after the setup (cores created), before the federates start

    def fed(self, name, core="c", **opt):
        o = dict(FDEF)
        o.update({k: v for k, v in opt.items() if k in FDEF})
        self.feds[name] = dict(core=core, opt=o, flags=opt.get("flags", {}), props=opt.get("props", {}), reg=[], prog=[], extra=opt.get("extra", {}))
        self.order.append(name)
        return name

    def pub(self, f, pid, otc=False, vt="int", key=None, **kw):
        self.pubs[pid] = dict(f=f, otc=otc)
        self.feds[f]["reg"].append(dict(op="regPub", id=pid, key=key or pid, vt=vt, **kw))
        if otc:
            self.feds[f]["reg"].append(dict(op="opt", id=pid, o2="only_transmit_on_change", v=1))

    def inp(self, f, iid, srcs, ouc=False, noint=False, vt="int", default=None, how="src", key=None, **kw):
        self.ins[iid] = dict(f=f, src=list(srcs), ouc=ouc, noint=noint, **{"def": "null" if default is None else str(default)})
        reg = self.feds[f]["reg"]
        if how == "sub" and len(srcs) == 1:
            op = dict(op="sub", id=iid, target=kw.pop("target", srcs[0]), vt=vt)
            if default is not None:
                op["default"] = default
            reg.append(op)
        else:
            op = dict(op="regIn", id=iid, key=key or iid, vt=vt, **kw)
            if default is not None:
                op["default"] = default
            reg.append(op)
            if how == "src":
                for p in srcs:
                    reg.append(dict(op="src", id=iid, t=p))
        if ouc:
            reg.append(dict(op="opt", id=iid, o2="only_update_on_change", v=1))
        if noint:
            reg.append(dict(op="opt", id=iid, o2="ignore_interrupts", v=1))

    def ep(self, f, eid, targeted=False, tgt=(), so=False, ro=False, key=None):
        self.eps[eid] = dict(f=f, key=key or eid, rank=0, sf=[], df=[], targeted=targeted, tgt=list(tgt), so=so, ro=ro)
        reg = self.feds[f]["reg"]
        reg.append(dict(op="regEp", id=eid, key=key or eid, targeted=targeted))
        for t in tgt:
            reg.append(dict(op="dst", id=eid, t=t))

    def cfg(self):
        for n, e in enumerate(sorted(self.eps, key=lambda x: self.eps[x]["key"])):
            self.eps[e]["rank"] = n
        return dict(feds=list(self.order), fc={f: self.feds[f]["opt"] for f in self.order}, pubs=self.pubs, ins=self.ins,
                    eps=self.eps, flt=self.flt)

    def scenario(self, topo=None):
        nf = len([f for f in self.order if not self.feds[f]["opt"]["late"]])
        cores = []
        for f in self.order:
            if self.feds[f]["core"] not in cores:
                cores.append(self.feds[f]["core"])
        setup = list(self.setup)
        if not setup:
            setup = topology(self.r, cores, {c: len([f for f in self.order if self.feds[f]["core"] == c and not self.feds[f]["opt"]["late"]]) for c in cores}, topo)
        actors = []
        for n, f in enumerate(self.order):
            F = self.feds[f]
            o = F["opt"]
            props = dict(F["props"])
            if o["period"]:
                props["period"] = o["period"]
            if o["offset"]:
                props["offset"] = o["offset"]
            if o["delta"] != 1:
                props["time_delta"] = o["delta"]
            if o["ind"]:
                props["input_delay"] = o["ind"]
            if o["outd"]:
                props["output_delay"] = o["outd"]
            if o["maxit"] != 50:
                props["max_iterations"] = o["maxit"]
            flags = dict(F["flags"])
            if o["unint"]:
                flags["uninterruptible"] = True
            if o["wait"]:
                flags["wait"] = True
            op = dict(op="fed", core=F["core"], props=props, flags=flags, base=(n + 1) * 1000, **F["extra"])
            actors.append(dict(name=f, prog=[op] + F["reg"] + F["prog"]))
        return dict(setup=setup + self.post, actors=actors)


def topology(r, cores, counts, topo=None):
    """Brokers and cores: one broker; or a tree of brokers."""
    topo = topo or r.choice(["flat", "flat", "tree", "deep"])
    n = sum(counts.values())
    s = [dict(op="broker", name="root", init="-f %d" % n)]
    par = {c: "root" for c in cores}
    if topo == "tree":
        s.append(dict(op="broker", name="sub1", init="-f 1 --broker=root"))
        for c in cores[1:] if len(cores) > 1 else cores:
            par[c] = "sub1"
    elif topo == "deep":
        s.append(dict(op="broker", name="sub1", init="-f 1 --broker=root"))
        s.append(dict(op="broker", name="sub2", init="-f 1 --broker=sub1"))
        for k, c in enumerate(cores):
            par[c] = ["sub2", "sub1", "root"][k % 3]
    for c in cores:
        s.append(dict(op="core", name=c, init="-f %d --broker=%s" % (max(1, counts[c]), par[c])))
    return s


def rnd_opts(r, rich=True, prof=None):
    o = {}
    x = r.random()
    if x < 0.55:
        o["period"] = r.choice([2, 3, 5, 7, 10])
        if rich and r.random() < 0.35:
            o["offset"] = r.choice([1, 2, 3, 4])
    elif x < 0.8:
        o["delta"] = r.choice([2, 3, 5])
        if rich and r.random() < 0.2:
            o["period"] = r.choice([2, 3])
    if rich:
        if r.random() < 0.2:
            o["outd"] = r.choice([1, 2, 3])
        if r.random() < 0.15:
            o["unint"] = True
    if prof:
        if r.random() < prof["ind"]:
            o["ind"] = r.choice([1, 2, 3])
        if r.random() < prof["wait"]:
            o["wait"] = True
        if r.random() < prof["evt"]:
            o.setdefault("flags", {})["event_triggered"] = True
        if r.random() < prof["restr"]:
            o.setdefault("flags", {})["restrictive"] = True
    if o.get("offset") and o["offset"] == o.get("delta", 1):
        o["offset"] += 1
    return o


# What a family of federations exercises beyond the basics; probabilities.
BASE = dict(small=0.0, maxreq=0.0, burst=0.0, wait=0.0, ind=0.0, iter=0.0, force=0.0, solo=False, xiter=0.0, xreq=(1, 2, 2), evt=0.0, restr=0.0, ouc=0.15, otc=0.15, noint=0.1, multi=0.2)


def body(r, n, f, pubs, eps, dests, horizon, prof=BASE):
    ops = []
    for p in pubs:
        if r.random() < 0.75:
            for _ in range(1 if r.random() < 0.85 else 2):
                op = dict(op="pub", id=p)
                if n.pubs[p].get("small"):
                    op["v"] = r.choice([1, 1, 2])
                else:
                    op["auto"] = True
                ops.append(op)
    for e in eps:
        if r.random() < 0.6:
            for _ in range(r.choice([6, 20]) if r.random() < prof["burst"] else 1):
                op = dict(op="send", id=e, p="%s-%d" % (f, r.randrange(1000000)))
                if dests is not None:   # targeted endpoints send to all their targets
                    op["d"] = r.choice(dests)
                if r.random() < 0.25:
                    op["t"] = r.randrange(1, horizon)
                ops.append(op)
    return ops


def steps(r, horizon, prof=BASE):
    x = r.random()
    if prof["iter"] and r.random() < prof["iter"]:
        it = 1 if r.random() < prof["force"] else 2
        return dict(op="time", dt=r.choice([1, 2, 3, 4, 6, 9]), iter=it)
    if x < 0.4:
        return dict(op="time", t=2000000000 if r.random() < prof["maxreq"] else horizon)
    return dict(op="time", dt=r.choice([1, 2, 3, 4, 6, 9, 15]))


def longest_path(edges):
    """Longest simple path (in edges) of a small directed graph."""
    succ = {}
    for a, b in edges:
        if a != b:
            succ.setdefault(a, set()).add(b)

    def go(x, seen):
        return max([1 + go(y, seen | {y}) for y in succ.get(x, ()) if y not in seen] or [0])
    return max([go(x, {x}) for x in succ] or [0])


# The timing protocol looks at most two dependency hops ahead (DESIGN.md, finding F1), so generated
# networks keep every simple chain of direct (value or targeted) dependencies within two hops.
MAXHOPS = 2


def long_cycle(edges):
    """Is there a simple cycle through three or more federates?"""
    succ = {}
    for a, b in edges:
        if a != b:
            succ.setdefault(a, set()).add(b)

    def go(start, x, seen):
        for y in succ.get(x, ()):
            if y == start and len(seen) > 2:
                return True
            if y not in seen and go(start, y, seen | {y}):
                return True
        return False
    return any(go(x, x, {x}) for x in succ)


def fed_net(r, kind="val", nf=None, ncores=None, horizon=None, rich=True, init=True, maxhops=None, **extra):
    """kind: val (publications/inputs), msg (untargeted endpoints), tgt (targeted endpoints), vt (val + tgt)"""
    n = Net(r)
    prof = dict(BASE, **extra)
    hops = maxhops or MAXHOPS
    nf = nf or r.choice([2, 2, 3, 3, 4])
    ncores = ncores or r.choice([1, 1, 2, min(3, nf)])
    H = horizon or r.choice([12, 20, 30])
    names = ["f%d" % (k + 1) for k in range(nf)]
    for k, f in enumerate(names):
        n.fed(f, core="c%d" % (k % ncores + 1), **rnd_opts(r, rich, prof))
    edges = set()

    def allow(new):
        if longest_path(edges | set(new)) > hops or (hops == MAXHOPS and long_cycle(edges | set(new))):
            return False
        edges.update(new)
        return True
    if kind in ("val", "vt"):
        for f in names:
            for j in range(r.choice([0, 1, 1, 2])):
                small = r.random() < prof["small"]
                n.pub(f, "p%s%s" % (f[1:], "ab"[j]), otc=rich and r.random() < prof["otc"] * (3 if small else 1))
                if small:
                    n.pubs["p%s%s" % (f[1:], "ab"[j])]["small"] = True
        for f in r.sample(names, len(names)):
            cand = [p for p in n.pubs if n.pubs[p]["f"] != f]
            r.shuffle(cand)
            for j in range(r.choice([0, 1, 1, 2])):
                if j < len(cand):
                    if rich and r.random() < prof["multi"] and len(cand) > j + 1:
                        if allow([(n.pubs[p]["f"], f) for p in cand[j:j + 2]]):
                            n.inp(f, "i%s%s" % (f[1:], "ab"[j]), cand[j:j + 2])
                    elif allow([(n.pubs[cand[j]]["f"], f)]):
                        n.inp(f, "i%s%s" % (f[1:], "ab"[j]), [cand[j]], how=r.choice(["src", "sub"]),
                              noint=rich and r.random() < prof["noint"],
                              ouc=rich and r.random() < prof["ouc"] * (3 if n.pubs[cand[j]].get("small") else 1),
                              default=77 if r.random() < 0.2 else None)
    targeted = kind in ("tgt", "vt")
    if kind in ("msg", "tgt", "vt"):
        have = [f for f in names if r.random() < 0.8] or names[:2]
        for f in r.sample(have, len(have)):
            tg = []
            if targeted:
                for g in r.sample(have, len(have)):
                    if g != f and len(tg) < 2 and r.random() < 0.7 and allow([(f, g)]):
                        tg.append("e" + g[1:])
            n.ep(f, "e%s" % f[1:], targeted=targeted, tgt=tg)
    dests = [n.eps[e]["key"] for e in n.eps]
    solo = r.choice(names) if prof["solo"] else None
    base_prof = prof
    for f in names:
        prof = base_prof if solo in (None, f) else dict(base_prof, force=0.0, iter=0.0)
        F = n.feds[f]
        pubs = [p for p in n.pubs if n.pubs[p]["f"] == f]
        eps = [e for e in n.eps if n.eps[e]["f"] == f]
        if targeted:
            eps = [e for e in eps if n.eps[e]["tgt"]]
            others = None
        else:
            others = [d for d in dests if d not in [n.eps[e]["key"] for e in eps]] or dests
        P = F["prog"]
        P.append(dict(op="enterInit"))
        if init:
            P += body(r, n, f, pubs, eps, others, H, prof)
        if r.random() < prof["xiter"]:
            P.append(dict(op="execLoop", iters=[r.choice(prof["xreq"]) for _ in range(r.choice([1, 2, 3, 5]))], body=body(r, n, f, pubs, eps, others, H, prof)))
        else:
            P.append(dict(op="enterExec"))
        P += body(r, n, f, pubs, eps, others, H, prof)
        if r.random() < 0.5:
            P.append(dict(op="loop", until=H, cap=60 if prof["iter"] == 0 else 12, body=[steps(r, H, dict(prof, force=0.0))] + body(r, n, f, pubs, eps, others, H, prof)))
        else:
            for _ in range(r.randrange(2, 8)):
                P.append(steps(r, H, prof))
                P += body(r, n, f, pubs, eps, others, H, prof)
            if r.random() < 0.6:
                P.append(dict(op="loop", until=H, body=[dict(op="time", t=H)]))
        P.append(dict(op="finalize"))
    return n


def lock_net(r, nf, nc):
    """Untargeted endpoints, every federate on the same period: see DESIGN.md, finding F4."""
    n = Net(r)
    P = r.choice([2, 3, 5])
    H = 20
    names = ["f%d" % (k + 1) for k in range(nf)]
    for k, f in enumerate(names):
        n.fed(f, core="c%d" % (k % nc + 1), period=P)
    for f in names:
        n.ep(f, "e" + f[1:])
    for f in names:
        e = "e" + f[1:]
        others = [x for x in n.eps if x != e]
        G = n.feds[f]["prog"]
        G += [dict(op="enterInit")] + body(r, n, f, [], [e], others, H) + [dict(op="enterExec")]
        for k in range(6):
            G += [dict(op="time", dt=P)] + body(r, n, f, [], [e], others, H)
        G.append(dict(op="finalize"))
    return n


# ------------------------------------------------------------------ filters
def add_filter(n, r, k, owner, kind, eps_on, side, keys, where="fed"):
    """One filter, attached to the endpoints eps_on as source or destination filter."""
    x = "x%d" % k
    if side == "dst" and kind in ("reroute", "redest", "clone"):
        # on to another endpoint of the same federate (further on would be a message in flight no one waits for, finding F4),
        # one without a destination filter of its own (no cycles)
        keys = [e for e in n.eps if n.eps[e]["f"] in {n.eps[q]["f"] for q in eps_on} and not n.eps[e]["df"] and e not in eps_on]
        if not keys:
            return
    d = dict(kind=kind, dt=0, str="", to=[])
    op = dict(op="filter", id=x, key=x)
    if kind == "delay":
        d["dt"] = r.choice([1, 2, 3, 5])
        op.update(kind="delay", delay=d["dt"])
    elif kind == "retime":
        d["kind"] = "delay"
        d["dt"] = r.choice([1, 2, 4])
        op.update(kind="custom", fn="retime", dt=d["dt"])
    elif kind == "append":
        d["str"] = "+" + "abcdefghijklmnop"[k % 16]
        op.update(kind="custom", fn="append", s=d["str"])
    elif kind == "dropif":
        d["str"] = r.choice("13579")
        op.update(kind="custom", fn="dropif", s=d["str"])
    elif kind == "reroute":
        d["to"] = [r.choice(keys)]
        op.update(kind="reroute", set=dict(newdestination=d["to"][0]))
    elif kind == "redest":
        d["kind"] = "reroute"
        d["to"] = [r.choice(keys)]
        op.update(kind="custom", fn="redest", dest=d["to"][0])
    elif kind == "clone":
        d["to"] = [r.choice(keys)]
        op.update(kind="clone", deliver=d["to"][0])
    elif kind == "rdrop":
        op.update(kind="drop", set=dict(prob=0.5))
    n.flt[x] = d
    reg = n.feds[owner]["reg"]
    reg.append(op)
    for e in eps_on:
        n.eps[e]["sf" if side == "src" else "df"].append(x)
        reg.append(dict(op="src" if side == "src" else "dst", id=x, t=n.eps[e]["key"]))
    return x


KINDS = ["delay", "retime", "append", "append", "dropif", "reroute", "redest", "clone", "clone", "rdrop"]


def flt_net(r, nf=2, local=True, kinds=KINDS, lock=True, **extra):
    """Untargeted endpoints, several per federate, with filters; in lock step, for the filters' own federates take part in
    the timing (finding F4)."""
    prof = dict(BASE, **extra)
    n = Net(r)
    nc = r.choice([1, 2, nf])
    P = r.choice([2, 3, 5])
    H = 20
    names = ["f%d" % (k + 1) for k in range(nf)]
    for k, f in enumerate(names):
        n.fed(f, core="c%d" % (k % nc + 1), **(dict(period=P) if lock else rnd_opts(r, False, prof)))
    for f in names:
        for j in range(r.choice([1, 1, 2])):
            n.ep(f, "e%s%s" % (f[1:], "ab"[j]))
    keys = [n.eps[e]["key"] for e in n.eps]
    k = 0
    for f in names:
        mine = [e for e in n.eps if n.eps[e]["f"] == f]
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            side = r.choice(["src", "src", "dst"])
            kind = r.choice(kinds)
            pool = mine if local else list(n.eps)
            on = r.sample(pool, min(len(pool), r.choice([1, 1, 2])))
            if side == "dst" and kind != "clone":
                on = [e for e in on if not any(n.flt[x]["kind"] != "clone" for x in n.eps[e]["df"])]
            if side == "dst":
                if any(e in n.flt[x]["to"] for x in n.flt if n.flt[x]["kind"] in ("reroute", "clone") and any(x in n.eps[q]["df"] for q in n.eps) for e in on):
                    continue
            if not local:
                on = [e for e in on if not n.eps[e]["sf" if side == "src" else "df"]]
            if not on:
                continue
            k += 1
            add_filter(n, r, k, f, kind, on, side, keys)
    for f in names:
        mine = [e for e in n.eps if n.eps[e]["f"] == f]
        others = [x for x in keys if x not in [n.eps[e]["key"] for e in mine]]
        G = n.feds[f]["prog"]
        G += [dict(op="enterInit")] + body(r, n, f, [], mine, others, H) + [dict(op="enterExec")]
        for _ in range(6):
            G += [dict(op="time", dt=P) if lock else steps(r, H, prof)] + body(r, n, f, [], mine, others, H)
        if not lock and r.random() < 0.7:
            G.append(dict(op="loop", until=H, body=[dict(op="time", t=H)]))
        G.append(dict(op="finalize"))
    return n


# ------------------------------------------------------------------ wiring
def wire_net(r, kind="val", dup=True, **extra):
    """The same federations, but every connection is made in a randomly chosen way: by either end, by name or by alias,
    by core or broker, before or after the other end exists, more than once; names may be local to their federate."""
    n = fed_net(r, kind, multi=0.0, **extra)
    cores = sorted({n.feds[f]["core"] for f in n.order})
    name = {}           # interface -> full name
    for f in n.order:
        for op in n.feds[f]["reg"]:
            if op["op"] in ("regPub", "regIn", "regEp", "sub"):
                i = op["id"]
                if op["op"] == "sub":
                    op["op"] = "regIn"
                    op["key"] = i
                    op.pop("target", None)
                style = r.randrange(4)
                if style == 0:
                    op["global"] = False
                    op["key"] = r.choice(["v", "w", "in/x"]) + i[-2:]
                    name[i] = f + "/" + op["key"]
                elif style == 1:
                    op["key"] = r.choice(["a/b/", "g.", "", "Zone 1:"]) + i
                    name[i] = op["key"]
                else:
                    name[i] = op["key"]
                if i in n.eps:
                    n.eps[i]["key"] = name[i]
    keep = {f: [op for op in n.feds[f]["reg"] if op["op"] not in ("src", "dst")] for f in n.order}
    late = {f: [] for f in n.order}
    links = [(p, i, "v") for i in n.ins for p in n.ins[i]["src"]] + [(e, t, "e") for e in n.eps for t in n.eps[e]["tgt"]]
    owner = {**{i: n.ins[i]["f"] for i in n.ins}, **{p: n.pubs[p]["f"] for p in n.pubs}, **{e: n.eps[e]["f"] for e in n.eps}}
    pre = []
    aliases = {}

    def alias(i):
        if i in aliases and r.random() < 0.7:
            return aliases[i]
        a = "alias_%s_%d" % (i, r.randrange(100))
        aliases[i] = a
        f = r.choice(n.order)
        w = r.randrange(4)
        if w == 0:
            late[owner[i]].append(dict(op="ialias", id=i, a=a))
        elif w == 1:
            late[f].append(dict(op="calias", core=n.feds[f]["core"], a=name[i], b=a))
        elif w == 2:
            pre.append(dict(op="calias", core=r.choice(cores), a=name[i], b=a))
        else:
            (pre if r.random() < 0.5 else late[f]).append(dict(op="balias", broker="root", a=name[i], b=a))
        return a

    def nm(i):
        return alias(i) if r.random() < extra.get("alias", 0.25) else name[i]
    for a, b, k in links:
        for _ in range(2 if dup and r.random() < 0.15 else 1):
            w = r.randrange(6)
            f = r.choice(n.order)
            if w in (0, 1):
                late[owner[b]].append(dict(op="src", id=b, t=nm(a)))
            elif w in (2, 3):
                late[owner[a]].append(dict(op="dst", id=a, t=nm(b)))
            elif w == 4:
                # a federate has its own core do it: that is done before it enters initializing mode
                where = None if r.random() < 0.5 else f
                op = dict(op="cdataLink" if k == "v" else "clinkEp", core=n.feds[f]["core"] if where else r.choice(cores), a=nm(a), b=nm(b))
                (late[f] if where else pre).append(op)
            else:
                op = dict(op="bdataLink" if k == "v" else "blinkEp", broker="root", a=nm(a), b=nm(b))
                (pre if r.random() < 0.5 else late[f]).append(op)
    # connections to things that do not exist do no harm
    for i in list(n.ins) + [e for e in n.eps if kind in ("tgt", "vt")]:
        if r.random() < 0.15:
            late[owner[i]].append(dict(op="opt", id=i, o2="optional", v=1))
            late[owner[i]].append(dict(op="src", id=i, t="nothing_%d" % r.randrange(9)))
    n.post = pre
    for f in n.order:
        regs = keep[f]
        r.shuffle(late[f])
        seq = list(regs)
        for op in late[f]:
            lo = 0
            if "id" in op:
                lo = 1 + max(j for j, x in enumerate(seq) if x.get("id") == op["id"] and x["op"].startswith("reg"))
            seq.insert(r.randrange(lo, len(seq) + 1), op)
        n.feds[f]["reg"] = seq
    # untargeted messages are addressed by full name
    return n
