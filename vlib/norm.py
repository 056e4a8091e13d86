"""Turn a recorded history of the real library (driver ndjson) into the events of spec/FedTrace.tla."""
MAXT = 2000000000
UNSET = -9223372036854775808


def val(v):
    if v == UNSET:
        return "null"
    return str(v)


def msg(m):
    if not isinstance(m, dict):
        return dict(t=0, s="?", os="?", d="?", od="?", p="null")
    return dict(t=m["t"] if m["t"] >= 0 else -MAXT, s=m["s"], os=m["os"], d=m["d"], od=m["od"], p=m["p"])


def marks(cfg, p):
    return [x["str"] for x in cfg["flt"].values() if x["kind"] == "dropif" and x["str"] in p]


LIFE = {"enterInit": "init", "enterInitComplete": "init", "enterExec": "exec", "execComplete": "exec",
        "time": "time", "timeComplete": "time"}


def normalise(raw, cfg, expect_err=()):
    """raw: list of driver events; cfg: FedCore configuration (JSON form). Returns the event list."""
    out = []
    feds = set(cfg["feds"])
    deferred = {}
    asyncop = {}
    def bad(*b, **kw):
        out.append(dict(k="bad", b=list(b), **kw))
    for e in raw:
        k = e["k"]
        f = e.get("f", "")
        if k == "stuck":
            bad("progress.stuck")
        elif k in ("crash",):
            bad("progress.crash")
        elif k == "wall":
            bad("progress.stuck")
        elif k == "exc":
            bad("api.exception")
        elif k == "down":
            if e["v"] != 1:
                bad("progress.down")
        elif k == "end":
            out.append(dict(k="end"))
        elif k == "d":
            if f in feds:
                ins = [dict(id=i["id"], v=val(i["v"]), u=i["u"], lt=i["lt"], u2=i["u2"]) for i in e["in"] if i["id"] in cfg["ins"] and "v" in i]
                eps = [dict(id=x["id"], n=x["n"], m=[msg(m) for m in x["m"]]) for x in e["ep"] if x["id"] in cfg["eps"] and "m" in x]
                full = 1 if len(ins) == sum(1 for i in cfg["ins"].values() if i["f"] == f) and len(eps) == sum(1 for i in cfg["eps"].values() if i["f"] == f) else 0
                out.append(dict(k="dump", f=f, g=e["g"], ins=ins, eps=eps, full=full))
        elif k == "c":
            o = e["o"]
            if f not in feds:
                if o == "barrier":
                    deferred[("bar", f)] = e["t"]
                elif o == "clearBarrier":
                    out.append(dict(k="bar", t=MAXT))
                continue
            if o in ("enterInit", "enterInitAsync"):
                out.append(dict(k="initc", f=f))
            elif o in ("enterExec", "execAsync"):
                if o == "execAsync":
                    asyncop[f] = e
                out.append(dict(k="execc", f=f, it=e.get("iter", 0)))
            elif o in ("time", "timeAsync"):
                out.append(dict(k="req", f=f, t=e["t"], it=e.get("iter", 0)))
            elif o == "pub" and e["id"] in cfg["pubs"]:
                out.append(dict(k="pub", f=f, p=e["id"], v=val(e["v"])))
            elif o == "send" and e["id"] in cfg["eps"]:
                out.append(dict(k="send", f=f, e=e["id"], d=e.get("d", ""), t=e.get("t", -MAXT), p=e["p"], mk=marks(cfg, e["p"])))
            elif o in ("finalize", "finalizeAsync", "disconnect", "destroy"):
                out.append(dict(k="fin", f=f))
            elif o in ("localError", "globalError"):
                out.append(dict(k="err", f=f))
            elif o == "barrier":
                pass
            elif o == "clearBarrier":
                out.append(dict(k="bar", t=MAXT))
        elif k == "r":
            o = e["o"]
            if f not in feds:
                if o == "barrier" and "err" not in e:
                    out.append(dict(k="bar", t=deferred.get(("bar", f), MAXT)))
                elif "err" in e and (f, e["n"]) not in expect_err:
                    bad("api.error", why=e.get("msg", ""))
                continue
            if "err" in e:
                bad("api.error", f=f, why=e.get("msg", ""))
                continue
            if o in ("enterInit", "enterInitComplete"):
                out.append(dict(k="initr", f=f))
            elif o in ("enterExec", "execComplete"):
                out.append(dict(k="execr", f=f, st=e["st"], t=e["t"] if e["t"] > -MAXT else -MAXT))
            elif o in ("time", "timeComplete"):
                out.append(dict(k="grant", f=f, st=e["st"], t=e["t"]))
            elif o == "get" and e.get("id", "") in cfg["ins"]:
                pass
    return out
