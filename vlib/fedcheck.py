"""Federation-level checks: generate federations, run them on the real library under controlled schedules, and let TLC
decide whether the recorded history is a behaviour of spec/FedCore.tla."""
import json, os, random, time
from . import harness, norm, suites, tlc

ALWAYS = ["progress.stuck", "progress.crash", "progress.down", "progress.unfinished", "api.error", "api.exception"]


def run_params(r, j):
    pol = r.choice([0, 0, 1, 1, 2])
    d = dict(seed=r.randrange(1, 1 << 30), policy=pol, wall=120)
    if pol == 0:
        d["p"] = r.choice([0.02, 0.1, 0.3, 0.6])
    elif pol == 1:
        d["changes"] = r.choice([1, 2, 3, 5])
        d["horizon"] = r.choice([500, 2000, 6000])
    return d


def judge(raws, cfgs, runs, rules, module="FedTrace"):
    tr = [dict(id=i, cfg=cfgs[runs[i]["scn"]], ev=norm.normalise(raws[i], cfgs[runs[i]["scn"]])) for i in range(len(runs))]
    return tr, tlc.check_traces(tr, module=module, rules=rules)


def events_count(raw):
    return sum(1 for e in raw if e["k"] in ("c", "r", "d"))


def run(ctx, parts, rules):
    """parts: [(suite, scenarios, schedules per scenario)].  Returns when every history was judged."""
    rules = list(rules) + ALWAYS
    for name, ns, per in parts:
        ns = max(1, int(ns * ctx.scale))
        r = random.Random("%s/%d" % (name, ctx.seed))
        done = 0
        while done < ns:
            k = min(ns - done, 150)
            scs, cfgs, runs = [], [], []
            for j in range(k):
                net, topo = suites.SUITES[name](r)
                scs.append(net.scenario(topo))
                cfgs.append(net.cfg())
                for q in range(per):
                    runs.append(dict(scn=j, **run_params(r, q)))
            raws = harness.run_batch(scs, runs)
            tr, (bad, ok, g, n) = judge(raws, cfgs, runs, rules)
            ctx.states += n
            ctx.transitions += g
            ctx.traces += len(runs)
            ctx.suite_stats[name] = ctx.suite_stats.get(name, 0) + len(runs)
            for i in range(len(runs)):
                ev = tr[i]["ev"]
                if sum(1 for e in ev if e["k"] in ("grant", "pub", "send", "read", "dump")) >= 6:
                    ctx.nontrivial.add(hash(json.dumps(ev, sort_keys=True)))
            if len(ctx.samples) < 3:
                ctx.samples.append(dict(suite=name, run=runs[0], federates=cfgs[0]["feds"], events=len(tr[0]["ev"]), first=tr[0]["ev"][:12]))
            for i in sorted(bad):
                confirm(ctx, name, scs[runs[i]["scn"]], cfgs[runs[i]["scn"]], runs[i], rules, tr[i], bad[i])
                if len(ctx.violations) >= 3:
                    return
            done += k
            if ctx.out_of_time():
                return


def confirm(ctx, name, sc, cfg, run_, rules, tr, verdict):
    """A rejected history counts only if running the same scenario under the same schedule is rejected again."""
    again = dict(run_, scn=0)
    for attempt in range(3):
        raws = harness.run_batch([sc], [again], parallel=1)
        t2, (bad, ok, g, n) = judge(raws, [cfg], [again], rules)
        if bad:
            ctx.violation(dict(suite=name, rules=bad[0][1], position=bad[0][0], scenario=sc, cfg=cfg, run=again, events=t2[0]["ev"][:bad[0][0]]),
                          "%s: %s at event %d" % (name, ",".join(bad[0][1]), bad[0][0]))
            return
    ctx.unconfirmed += 1
