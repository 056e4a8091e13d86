"""Federation-level checks of the parts of the interface outside FedCore: a generator gives a scenario and a configuration,
the recorded calls and returns become the events of the module's trace checker."""
import json, random
from . import harness, tlc
from .fedcheck import run_params

GEN = {}
BIG = 2000000000


def gen(name):
    def d(f):
        GEN[name] = f
        return f
    return d


def _clip(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return max(-BIG, min(BIG, v))
    if isinstance(v, float):
        return str(v)
    if isinstance(v, dict):
        return {k: _clip(x) for k, x in v.items()}
    if isinstance(v, list):
        return [_clip(x) for x in v]
    return "null" if v is None else v


def events(raw, keep=("c", "r", "cb")):
    out = []
    for e in raw:
        if e["k"] in keep:
            out.append(_clip(e))
        elif e["k"] in ("stuck", "wall"):
            out.append(dict(k="stuck"))
        elif e["k"] == "down" and e["v"] != 1:
            out.append(dict(k="down"))
        elif e["k"] in ("crash", "exc", "end"):
            out.append(dict(k=e["k"]))
    return out


def judge(items, raws, runs, module, rules):
    tr = []
    for i in range(len(runs)):
        it = items[runs[i]["scn"]]
        tr.append(dict(id=i, cfg=it["cfg"], ev=it.get("conv", events)(raws[i])))
    return tr, tlc.check_traces(tr, module=module, rules=rules)


def run(ctx, parts, module, rules=("*",)):
    """parts: [(generator, scenarios, schedules per scenario)]"""
    rules = list(rules) + ["progress.crash", "progress.stuck", "progress.down"]
    for name, ns, per in parts:
        n = max(1, int(ns * ctx.scale))
        r = random.Random("%s/%d" % (name, ctx.seed))
        done = 0
        while done < n:
            k = min(150, n - done)
            items = [GEN[name](r) for _ in range(k)]
            runs = [dict(scn=j, **run_params(r, q)) for j in range(k) for q in range(per)]
            raws = harness.run_batch([it["sc"] for it in items], runs)
            tr, (bad, ok, g, d) = judge(items, raws, runs, module, rules)
            ctx.states += d
            ctx.transitions += g
            ctx.traces += len(runs)
            ctx.suite_stats[name] = ctx.suite_stats.get(name, 0) + len(runs)
            for t in tr:
                if len(t["ev"]) > 8:
                    ctx.nontrivial.add(hash(json.dumps(t["ev"], sort_keys=True)))
            if len(ctx.samples) < 3:
                ctx.samples.append(dict(suite=name, run=runs[0], events=len(tr[0]["ev"]), first=tr[0]["ev"][:8]))
            for i in sorted(bad):
                it = items[runs[i]["scn"]]
                again = dict(runs[i], scn=0)
                for attempt in range(3):
                    r2 = harness.run_batch([it["sc"]], [again], parallel=1)
                    t2, (b2, ok2, g2, d2) = judge([it], r2, [again], module, rules)
                    if b2:
                        ctx.violation(dict(suite=name, rules=b2[0][1], position=b2[0][0], scenario=it["sc"], cfg=it["cfg"], run=again, events=t2[0]["ev"][:b2[0][0]]),
                                      "%s: %s at event %d" % (name, ",".join(b2[0][1]), b2[0][0]))
                        break
                else:
                    ctx.unconfirmed += 1
                if len(ctx.violations) >= 3:
                    return
            done += k
            if ctx.out_of_time():
                return


def step(parts, module, rules=("*",)):
    return lambda ctx: run(ctx, parts, module, rules)


def infra(r, nf, late=0):
    """setup operations for nf federates; returns (ops, core of each federate, brokers)"""
    nc = r.choice([1, 2, 2, nf])
    nc = min(nc, nf)
    cores = ["c%d" % (i + 1) for i in range(nc)]
    of = [cores[i % nc] for i in range(nf)]
    s = [dict(op="broker", name="root", init="-f %d" % (nf - late))]
    par = {c: "root" for c in cores}
    brokers = ["root"]
    topo = r.choice(["flat", "flat", "tree", "deep"])
    if topo != "flat":
        s.append(dict(op="broker", name="sub1", init="-f 1 --broker=root"))
        brokers.append("sub1")
        par[cores[-1]] = "sub1"
    if topo == "deep":
        s.append(dict(op="broker", name="sub2", init="-f 1 --broker=sub1"))
        brokers.append("sub2")
        par[cores[0]] = "sub2"
    for c in cores:
        s.append(dict(op="core", name=c, init="-f %d --broker=%s" % (of.count(c), par[c])))
    return s, of, brokers, par


# ------------------------------------------------------------------ commands
WORDS = ["go", "stop it", "set x 5", "a,b;c", "\"quoted word\" x", "UPPER", "x" * 90, "{\"json\":1}", "0", "notification", "terminated"]


def _conv_cmd(raw):
    out = events(raw)
    for e in out:
        if e["k"] == "r" and e.get("c", "").endswith(" unprocessed commands\""):
            e["c"] = "STATUS"
    return [e for e in out if e["k"] not in ("c", "r") or e["o"] in ("cmd", "ccmd", "bcmd", "getCmd", "waitCmd") and not (e["k"] == "c" and e["o"].endswith("Cmd"))]


@gen("cmd")
def g_cmd(r):
    nf = r.choice([2, 2, 3, 4])
    setup, of, brokers, par = infra(r, nf)
    names = ["f%d" % (i + 1) for i in range(nf)]
    want = {f: 0 for f in names}
    progs = {f: [[], []] for f in names}
    n = 0
    for ph in (0, 1):
        for k, f in enumerate(names):
            seq = []
            for _ in range(r.choice([0, 1, 2, 4, 8])):
                t = r.choice(names + [x for x in names if x != f] * 2)
                m = r.choice(["ordered", "fast", "fast", "default"])
                n += 1
                x = "%s %d" % (r.choice(WORDS), n)
                c = x
                y = r.random()
                if y < 0.08:
                    c = "  " + x + "  "
                elif y < 0.16:
                    c = x + " # a comment"
                if y < 0.7:
                    seq.append(dict(op="cmd", t=t, c=c, x=x, mode=m, y="plain"))
                    want[t] += 1
                elif y < 0.78:
                    t = r.choice(names + [of[k], "core", "root", par[of[k]], "broker"])
                    xs = {"core": of[k], "broker": par[of[k]]}.get(t, t)
                    seq.append(dict(op="cmd", t=t, c="echo", x="echo_reply", xs=xs, mode=m, y="echo"))
                    want[f] += 1
                elif y < 0.84:
                    seq.append(dict(op="cmd", t=t, c="command_status", x="STATUS", xs=t, mode=m, y="echo"))
                    want[f] += 1
                elif y < 0.9:
                    seq.append(dict(op="cmd", t=t, c="notify", x="notify_response", xs=t, mode=m, y="echo"))
                    want[f] += 1
                    if r.random() < 0.4:
                        seq.append(dict(op="cmd", t=t, c="notify", x="notify_response", xs=t, mode=m, y="echo"))
                        want[f] += 1
                    n += 1
                    seq.append(dict(op="cmd", t=t, c="end %d" % n, x="end %d" % n, mode=m, y="plain"))
                    want[t] += 1
                elif y < 0.95:
                    core = r.choice(of)
                    seq.append(dict(op="ccmd", core=core, t=t, c=c, x=x, mode=m, y="plain", **r.choice([dict(src=""), dict(src="someone"), dict(src=r.choice(names))])))
                    want[t] += 1
                else:
                    seq.append(dict(op="bcmd", broker=r.choice(brokers), t=t, c=c, x=x, mode=m, y="plain"))
                    want[t] += 1
            progs[f][ph] = seq
    actors = []
    for k, f in enumerate(names):
        P = [dict(op="fed", core=of[k], props={}, flags={})]
        P.append(dict(op="enterInit"))
        P += progs[f][0]
        early = r.randrange(0, 3)
        P += [dict(op="getCmd")] * early
        P.append(dict(op="enterExec"))
        P += progs[f][1]
        for _ in range(r.randrange(3)):
            P.append(dict(op="time", dt=1))
        P.append(dict(op="drainCmd", n=want[f]))
        # nobody leaves before everybody has everything: commands to a federate that left are lost
        P.append(dict(op="signal", n=k))
        P += [dict(op="await", n=j) for j in range(nf)]
        P += [dict(op="getCmd")] * 2
        P.append(dict(op="finalize"))
        actors.append(dict(name=f, prog=P))
    return dict(sc=dict(setup=setup, actors=actors), cfg=dict(feds=names), conv=_conv_cmd)


# ------------------------------------------------------------------ modes
S0, I1, X2, F3, E4, PI5, PX6, PT7, PIT8, PF9 = range(10)


def _mo_next(m, o, it, pend):
    """the mode after a call (None: refused); only used to choose calls"""
    if o in ("enterInit", "enterInitComplete"):
        return I1 if m in (S0, PI5, I1) else None
    if o == "enterInitAsync":
        return PI5 if m in (S0, PI5) else I1 if m == I1 else None
    if o == "enterInitIter":
        return S0 if m == S0 else None
    if o in ("enterExec", "execComplete"):
        it = pend if m == PX6 else it if o == "enterExec" else 0
        return (I1 if it == 1 else X2) if m in (S0, PI5, I1, PX6) else X2 if m in (X2, PT7, PIT8) else None
    if o == "execAsync":
        return PX6 if m in (S0, PI5, I1) else m if m in (PX6, X2, PT7, PIT8) else None
    if o == "time":
        return m if m in (X2, F3, 10) else None
    if o == "timeAsync":
        return (PT7 if it == 0 else PIT8) if m == X2 else None
    if o == "timeComplete":
        return X2 if m == (PT7 if it == 0 else PIT8) else None
    if o in ("finalize", "finalizeComplete"):
        return m if m in (F3, E4) else F3
    if o == "finalizeAsync":
        return m if m in (F3, E4, PF9) else PF9
    if o == "complete":
        return {PI5: I1, PX6: I1 if pend == 1 else X2, PT7: X2, PIT8: X2, PF9: F3}.get(m, m)
    if o == "localError":
        return E4
    if o in ("pub", "send"):
        return m if m in (I1, X2) else None
    return m


MO_ALL = ["enterInit", "enterInitComplete", "enterInitAsync", "enterInitIter", "enterExec", "execComplete", "execAsync", "time", "time", "timeAsync", "timeAsync",
          "timeComplete", "timeComplete", "finalizeComplete", "complete", "pub", "send", "asyncDone", "mode", "finalize", "finalizeAsync"]


@gen("modes")
def g_modes(r):
    nf = r.choice([1, 1, 2, 3])
    setup, of, brokers, par = infra(r, nf)
    names = ["f%d" % (i + 1) for i in range(nf)]
    iterations = r.choice([0, 0, 0, 1, 2])
    actors = []
    for k, f in enumerate(names):
        P = [dict(op="fed", core=of[k], props={}, flags={}, dump=False), dict(op="cbs"),
             dict(op="regPub", id="p" + f, key="p" + f, vt="int"), dict(op="regEp", id="e" + f, key="e" + f, targeted=True)]
        m, pend, pmax = S0, 0, False
        left = iterations
        last = r.randrange(6, 30)
        i = 0
        while i < last or m not in (F3, E4):
            i += 1
            if m == S0 and left:
                if r.random() < 0.5:
                    P.append(dict(op="enterInitIter"))
                    left -= 1
                    continue
                ok = ["pub", "send", "time", "timeAsync", "timeComplete", "mode", "asyncDone", "complete"]
            elif i < last * 2 // 3:
                ok = [x for x in MO_ALL if not x.startswith("final") or m == PF9]
            elif i >= last:
                ok = ["finalize", "finalizeAsync", "finalizeComplete"] if m != S0 or nf == 1 else ["enterInit", "enterExec"]
            else:
                ok = MO_ALL
            o = r.choice(ok)
            if r.random() < 0.5 and _mo_next(m, o, 0, pend) is None:
                o = r.choice(ok)
            if o == "enterInitIter" and m == S0:
                continue
            if o.startswith("final") and m == S0 and nf > 1:
                continue
            it = r.choice([0, 0, 0, 1, 2]) if o in ("enterExec", "execAsync", "time", "timeAsync", "timeComplete") else 0
            if o == "timeComplete" and m in (PT7, PIT8) and r.random() < 0.8:
                it = 0 if m == PT7 else 2
            d = dict(op=o)
            if it:
                d["iter"] = it
            if o in ("time", "timeAsync", "pub", "send"):
                d["evenHalted"] = True
            if o in ("time", "timeAsync"):
                mx = i > last // 2 and r.random() < 0.1 and it != 1
                if mx:
                    d["t"] = 9223372036854775807
                else:
                    d["dt"] = r.choice([1, 2, 5, 100] + ([0, -3] if it == 0 else []))
            if o == "pub":
                d.update(id="p" + f, v=i, quiet=True)
            if o == "send":
                d.update(id="e" + f, p="x", quiet=True)
            P.append(d)
            n = _mo_next(m, o, it, pend)
            if n is not None:
                if o == "time" and m == X2 and mx or m in (PT7, PIT8) and n == X2 and pmax:
                    n = 10
                if o in ("execAsync", "timeAsync"):
                    pmax = o == "timeAsync" and mx if m == X2 else pmax
                    if m in (S0, PI5, I1, X2) and n in (PX6, PT7, PIT8):
                        pend = it
                m = n
        actors.append(dict(name=f, prog=P))
    return dict(sc=dict(setup=setup, actors=actors), cfg=dict(feds=names), conv=_conv_modes)


MO_OPS = set(MO_ALL) | {"localError", "disconnect"}


def _conv_modes(raw):
    return [e for e in events(raw) if e["k"] not in ("c", "r", "cb") or (e["k"] != "cb" and e["o"] in MO_OPS) or (e["k"] == "cb" and e["cb"] in ("init", "exec", "mode", "treq", "tupd", "tret"))]


# ------------------------------------------------------------------ settings
SE_FLAGS = ["observer", "uninterruptible", "source_only", "only_transmit_on_change", "only_update_on_change", "wait", "strict_type", "event_triggered",
            "reentrant", "ignore_time_mismatch", "ignore_unit_mismatch", "json", "connections_optional",
            "realtime", "restrictive", "terminate_on_error", "interruptible"]
SE_TIME = ["time_delta", "period", "offset", "input_delay", "output_delay", "rt_lag", "rt_lead", "grant_timeout", "stoptime"]
SE_INT = ["max_iterations", "index_group", "log_level"]
SE_OPT = dict(pub=["only_transmit_on_change", "buffer_data", "time_restricted"],
              inp=["only_update_on_change", "strict_type", "ignore_unit", "ignore_interrupts", "multi_input", "priority", "time_restricted"],
              ep=["receive_only", "source_only"])
SE_CNT = ["required", "optional", "single", "multiple"]
SE_CONV = dict(setProp=("set", "p"), getProp=("get", "p"), setFlag=("set", "p"), getFlag=("get", "p"), opt=("set", "o2"), getopt=("get", "o2"),
               tag=("set", "tag"), getTag=("get", "tag"), info=("set", None), getInfo=("get", None), ftag=("set", "tag"), getFtag=("get", "tag"))


def _conv_settings(raw):
    out, calls = [], {}
    for e in events(raw):
        o = e.get("o")
        if e["k"] == "c" and o in SE_CONV:
            calls[e["f"]] = e
            kind, pk = SE_CONV[o]
            if kind == "set":
                out.append(dict(k="set", o=o, who=e.get("id", e["f"]), p="info" if pk is None else o[-3:] + "." + e[pk] if "tag" in o.lower() else e[pk], v="true" if o == "tag" and e["v"] == "" else _str(e["v"])))
        elif e["k"] == "r" and o in SE_CONV:
            c = calls[e["f"]]
            if "err" in e:
                out.append(dict(k="err", o=o, e=e["err"]))
                continue
            kind, pk = SE_CONV[o]
            if kind == "get":
                out.append(dict(k="get", o=o, who=c.get("id", c["f"]), p="info" if pk is None else o[-3:].lower() + "." + c[pk] if "tag" in o.lower() else c[pk], v=_str(e["v"])))
        elif e["k"] not in ("c", "r", "cb"):
            out.append(e)
    return out


def _str(v):
    return v if isinstance(v, (int, str)) else str(v)


@gen("settings")
def g_settings(r):
    strict = r.random() < 0.4  # connection requirements would fail the initialization
    nf = 1 if strict else r.choice([1, 2])
    setup, of, brokers, par = infra(r, nf)
    names = ["f%d" % (i + 1) for i in range(nf)]
    actors = []
    for k, f in enumerate(names):
        P = [dict(op="fed", core=of[k], props={}, flags={}, dump=False),
             dict(op="regPub", id="p" + f, key="p" + f, vt="int"), dict(op="regIn", id="i" + f, key="i" + f, vt="int"), dict(op="regEp", id="e" + f, key="e" + f, targeted=True)]
        flags, times = r.sample(SE_FLAGS, r.randrange(2, 10)), r.sample(SE_TIME, r.randrange(1, 6))
        opts = [(x + f, o) for x, kd in (("p", "pub"), ("i", "inp"), ("e", "ep")) for o in r.sample(SE_OPT[kd] + (SE_CNT if strict else []), r.randrange(1, 4 if not strict else 6) if kd != "ep" or strict else 2)]
        tags = r.sample(["a", "b", "tag with blank", "A"], 2)
        objs = ["p" + f, "i" + f, "e" + f]

        def one(w):
            x = r.random()
            if x < 0.3:
                p = r.choice(flags)
                return dict(op="setFlag", p=p, v=bool(r.randrange(2))) if w else dict(op="getFlag", p=p)
            if x < 0.5:
                p = r.choice(times)
                return dict(op="setProp", p=p, v=r.choice([1, 2, 7, 1000, 123456789])) if w else dict(op="getProp", p=p)
            if x < 0.6:
                p = r.choice(SE_INT)
                return dict(op="setProp", p=p, v=r.choice([0, 1, 5, 12])) if w else dict(op="getProp", p=p)
            if x < 0.8:
                i, p = r.choice(opts)
                return dict(op="opt", id=i, o2=p, v=r.randrange(2)) if w else dict(op="getopt", id=i, o2=p)
            if x < 0.87:
                t, i = r.choice(tags), r.choice(objs)
                return dict(op="tag", id=i, tag=t, v=r.choice(["", "x", "two words", "{\"q\":1}", "y" * 70])) if w else dict(op="getTag", id=i, tag=t)
            if x < 0.93:
                t = r.choice(tags)
                return dict(op="ftag", tag=t, v=r.choice(["", "x", "two words", "{\"q\":1}", "y" * 70])) if w else dict(op="getFtag", tag=t)
            i = r.choice(objs)
            return dict(op="info", id=i, v=r.choice(["", "info text", "{\"q\":1}"])) if w else dict(op="getInfo", id=i)
        for _ in range(r.randrange(10, 60)):
            P.append(one(r.random() < 0.5))
        if not strict:
            P.append(dict(op="enterInit"))
        P += [one(False) for _ in range(12)]
        P.append(dict(op="finalize"))
        actors.append(dict(name=f, prog=P))
    return dict(sc=dict(setup=setup, actors=actors), cfg=dict(feds=names), conv=_conv_settings)
