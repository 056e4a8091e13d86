"""Component checks: operation sequences replayed on one component of the library; TLC decides whether what was observed is
a behaviour of the component's specification."""
import json, os, random, shutil, subprocess, tempfile
from . import harness, tlc

GEN = {}


def gen(name):
    def deco(f):
        GEN[name] = f
        return f
    return deco


def run_comp(exe, runs, parallel=harness.JOBS, timeout=600):
    d = tempfile.mkdtemp(prefix="vcmp")
    try:
        b = os.path.join(d, "batch.json")
        json.dump(dict(runs=runs), open(b, "w"))
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:exitcode=99", UBSAN_OPTIONS="halt_on_error=1")
        subprocess.run([os.path.join(harness.BUILD, exe), b, d, str(parallel)], timeout=timeout, check=True, env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        res = []
        for k in range(len(runs)):
            ev = []
            try:
                for line in open(os.path.join(d, "%d.ndjson" % k)):
                    try:
                        ev.append(json.loads(line))
                    except ValueError:
                        pass
            except FileNotFoundError:
                pass
            if not ev or ev[-1]["k"] not in ("end", "crash", "exc"):
                ev.append(dict(k="crash", sig=-1))
            if ev[-1]["k"] == "crash":
                # the sanitizer's leak report comes after "end"
                ev = [e for e in ev if e["k"] != "end"]
                try:
                    t = open(os.path.join(d, "%d.err" % k), errors="replace").read()
                    ev[-1]["why"] = "\n".join([x for x in t.splitlines() if "ERROR" in x or "runtime error" in x or " #" in x][:8])
                except FileNotFoundError:
                    pass
            res.append(ev)
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(runs, evs, module, rules):
    tr = [dict(id=i, cfg={k: v for k, v in runs[i].items() if k != "ops"}, ev=evs[i]) for i in range(len(runs))]
    return tlc.check_traces(tr, module=module, rules=list(rules) + ["progress.crash"])


def run(ctx, exe, name, module, count, rules=("*",), per=200):
    n = max(1, int(count * ctx.scale))
    r = random.Random("%s/%d" % (name, ctx.seed))
    done = 0
    while done < n:
        k = min(per, n - done)
        runs = [GEN[name](r) for _ in range(k)]
        evs = run_comp(exe, runs)
        bad, ok, g, d = judge(runs, evs, module, rules)
        ctx.states += d
        ctx.transitions += g
        ctx.traces += k
        ctx.suite_stats[name] = ctx.suite_stats.get(name, 0) + k
        for e in evs:
            if len(e) > 5:
                ctx.nontrivial.add(hash(json.dumps(e, sort_keys=True)))
        if len(ctx.samples) < 3:
            ctx.samples.append(dict(suite=name, events=len(evs[0]), first=evs[0][:2]))
        for i in sorted(bad):
            e2 = run_comp(exe, [runs[i]], 1)
            b2 = judge([runs[i]], e2, module, rules)[0]
            if b2:
                ctx.violation(dict(suite=name, rules=b2[0][1], position=b2[0][0], run=runs[i], events=e2[0][:b2[0][0]]),
                              "%s: %s at operation %d" % (name, ",".join(b2[0][1]), b2[0][0]))
            else:
                ctx.unconfirmed += 1
            if len(ctx.violations) >= 3:
                return
        done += k
        if ctx.out_of_time():
            return


def step(exe, name, module, count, rules=("*",)):
    return lambda ctx: run(ctx, exe, name, module, count, rules)


# ------------------------------------------------------------------ SmallBuffer
def _data(r):
    n = r.choice([0, 1, 2, 5, 17, 40, 62, 63, 64, 65, 70, 90, 128])
    return [r.randrange(0, 256) for _ in range(n)]


@gen("buf")
def g_buf(r):
    ops = []
    names = ["new", "newS", "newD", "newN", "newV", "newC", "newM", "asgC", "asgC", "asgM", "asgM", "asgM", "asgS", "asgS", "asgSelf", "setN", "setE", "setBad",
             "appN", "appE", "appBad", "appS", "push", "push", "pop", "resize", "resizeV", "resizeV", "huge", "reserve", "clear", "at", "setAt", "idx", "nul", "nul",
             "give", "give", "span", "span", "span", "rel", "rel", "swap", "swap", "swap", "lock", "lock", "peek"]
    size = r.choice([3, 2, 3])
    for _ in range(r.randrange(15, 45)):
        o = r.choice(names)
        op = dict(o=o, i=r.randrange(1, size + 1), j=r.randrange(1, size + 1))
        if o in ("newS", "newD", "asgS", "setN", "setE", "setBad", "appN", "appE", "appBad", "appS", "give", "span"):
            op["d"] = _data(r)
            if o.startswith("app") and r.random() < 0.6:
                op["d"] = op["d"][:r.randrange(1, 12)]
        if o == "give":
            op["n"] = max(1, len(op["d"]) + r.choice([0, 0, 1, 8, 30]))
        elif o == "span":
            op["n"] = min(160, len(op["d"]) + r.choice([0, 0, 1, 8, 30]))
            op["j"] = r.randrange(1, 4)
        elif o == "peek":
            op["j"] = r.randrange(1, 4)
        elif o in ("newN", "newV", "resize", "resizeV", "reserve"):
            op["n"] = r.choice([0, 1, 5, 30, 60, 63, 64, 65, 71, 72, 73, 80, 100, 140])
        elif o in ("at", "setAt", "idx"):
            op["n"] = r.choice([0, 0, 1, 4, 39, 62, 63, 64, 65, 89, 127])
        if o in ("newV", "push", "resizeV", "setAt", "idx"):
            op["v"] = r.randrange(0, 256)
        elif o == "lock":
            op["v"] = r.choice([1, 1, 0])
        ops.append(op)
        if o == "lock" and op["v"] == 1 and r.random() < 0.5:
            ops.append(dict(o="lock", i=op["i"], j=1, v=0)) if r.random() < 0.3 else None
    for k in (1, 2, 3):
        ops.append(dict(o="peek", i=1, j=k))
    return dict(comp="buf", ops=ops)


# ------------------------------------------------------------------ UnknownHandleManager
@gen("uhm")
def g_uhm(r):
    keys = ["a", "b", "c"][:r.choice([1, 2, 3])]
    ops = []
    for _ in range(r.randrange(6, 30)):
        x = r.random()
        k = r.choice(keys)
        if x < 0.45:
            ops.append(dict(o="add", kd=r.choice("pief"), key=k, h=[r.randrange(1, 4), r.randrange(0, 3)], fl=r.choice([0, 0, 1, 1, 2, 2, 3, 4, 5, 6])))
        elif x < 0.53:
            ops.append(dict(o="addR", kd=r.choice("pief"), key=k, h=[r.randrange(1, 4), r.randrange(0, 3)], fl=r.randrange(0, 8)))
        elif x < 0.68:
            ops.append(dict(o="link", kd=r.choice("dest"), key=k, t=r.choice(keys + ["z"])))
        elif x < 0.84:
            ops.append(dict(o="clear", kd=r.choice("pief"), key=k))
        elif x < 0.92:
            ops.append(dict(o="clearFed", fed=r.randrange(1, 4)))
        else:
            ops.append(dict(o="clearIf", kd=r.choice(["", "p", "i", "e", "f"]), key=r.choice(["", k]), fed=r.choice([0, 0, 1, 2])))
    return dict(comp="uhm", keys=keys + ["z"], ops=ops)


# ------------------------------------------------------------------ ProfilerBuffer
@gen("prof")
def g_prof(r):
    ops = []
    n = 0
    for _ in range(r.randrange(5, 25)):
        x = r.random()
        if x < 0.5:
            n += 1
            ops.append(dict(o="add", s=r.choice(["m%d" % n, "m%d" % n, "", "two\nlines%d" % n, "x" * 300 + str(n)]), mv=r.choice([0, 1])))
        elif x < 0.7:
            ops.append(dict(o="file", f=r.choice(["f", "f", "g", "", "bad"]), app=r.choice([0, 1])))
        elif x < 0.88:
            ops.append(dict(o="write"))
        else:
            ops.append(dict(o="renew"))
    return dict(comp="prof", files=["f", "g"], ops=ops)


# ------------------------------------------------------------------ value conversions
NAN = 999999998
PTYPES = ["double", "int", "complex", "vector", "complex_vector", "named_point", "bool", "string", "time", "json"]


def _q2s(q):
    return ("-" if q < 0 else "") + str(abs(q) // 4) + ["", ".25", ".5", ".75"][abs(q) % 4]


def _q(r):
    return r.choice([0, 4, -4, 8, 12, 1, 2, 3, 5, -7, 10, 399, -4000, 40000, r.randrange(-300, 300)])


def _vec(r):
    return r.choice([[], [_q(r)], [_q(r)], [_q(r), _q(r)], [12, 16], [20, 48], [-12, 16], [0, 0], [4, 8, 8], [8, 12, 24], [4, 4, 4, 4], [_q(r) for _ in range(3)], [0, 12], [12, 0]])


def _cx(r):
    return r.choice([[12, 16], [-12, 16], [12, -16], [0, 4], [_q(r), 0], [_q(r), _q(r)], [20, 48], [0, 0]])


def _val(r, p):
    k = r.choice(["d", "i", "c", "v", "cv", "np", "b", "s", "t"])
    v = dict(k=k, s="", f="")
    if k == "d":
        v["n"] = [_q(r)]
    elif k == "i":
        v["n"] = [r.choice([0, 1, -1, 7, 250000000, -500000000, 1000, r.randrange(-10000, 10000)])]
        if abs(v["n"][0]) > 100000 and p != "time" and p != "int":
            v["n"] = [3]
    elif k == "c":
        v["n"] = _cx(r)
    elif k == "v":
        v["n"] = _vec(r) or ([4] if p in ("json", "string", "named_point") else [])
    elif k == "cv":
        v["n"] = sum([_cx(r) for _ in range(r.choice([1, 1, 2, 2, 3]))], [])
    elif k == "np":
        if r.random() < 0.7:
            v.update(n=[_q(r)], s=r.choice(["value", "power", "off", "no", ""]))
        else:
            v.update(n=[NAN], s=r.choice(["alpha", "on", "off", "no"]), f="word")
    elif k == "b":
        v["n"] = [r.choice([0, 1])]
    elif k == "t":
        v["n"] = [r.choice([0, 1, 2, 3, 4, 7, 8, -4, 5, -8])]
    else:
        f = r.choice(["num", "num", "cx", "vec", "word", "word"])
        if f == "num":
            n = [_q(r)]
            s = _q2s(n[0])
        elif f == "cx":
            n = [_q(r), r.choice([4, -4, 16, 7, 10])]
            if p in ("double", "int", "bool"):
                n = r.choice([[12, 16], [-12, 16], [20, 48], [12, -16]])
            s = r.choice(["[%s,%s]" % (_q2s(n[0]), _q2s(n[1])), "%s%s%sj" % (_q2s(n[0]), "" if n[1] < 0 else "+", _q2s(n[1]))])
        elif f == "vec":
            n = r.choice([[4, 8, 8], [8, 12, 24], [12, 16], [4, 4, 4, 4], [_q(r) for _ in range(3)]])
            s = "[" + ",".join(_q2s(x) for x in n) + "]"
        else:
            n = []
            s = r.choice(["hello", "true", "false", "off", "on", "f", "N", "no", "disabled", "enable", "OFF", "yes", "FALSE", "abc def", "xyz"])
        v.update(n=n, s=s, f=f)
    return v


LOSSLESS = dict(d=["double", "string", "complex", "vector", "complex_vector", "named_point", "json"],
                i=["int", "string", "time", "json", "named_point"],
                s=["string"], c=["complex", "vector", "complex_vector"], v=["vector"], cv=["complex_vector"], np=["named_point"],
                t=["time", "int"])


def _rawd(r):
    import struct
    x = r.random()
    if x < 0.4:
        return struct.pack("<d", r.uniform(-1e6, 1e6))
    if x < 0.6:
        return struct.pack("<d", r.choice([0.1, 1e300, -1e-300, 5e-324, 1.7976931348623157e308, 3.0, -2.5, 1e17, 123456789.123456789, 1 / 3]))
    while True:
        b = bytes(r.randrange(256) for _ in range(8))
        y = struct.unpack("<d", b)[0]
        if y == y and abs(y) < 1e308:
            return b


def _raw(r, k, p):
    import struct
    if k == "d":
        return _rawd(r)
    if k in "it":
        big = [0, 1, -1, 2**53 + 1, -2**53 - 1, 2**62 + 12345, 9223372036854775000, -9223372036854775000, 2**31, -2**31 - 1]
        return struct.pack("<q", r.choice(big) if r.random() < 0.5 else r.randrange(-2**62, 2**62))
    if k == "s":
        n = r.choice([1, 2, 7, 8, 9, 15, 16, 17, 30, 62, 63, 64, 65, 66, 100, 255, 256, 257, 1000, 70000])
        return bytes(r.randrange(256) for _ in range(n))
    if k == "c":
        return _rawd(r) + struct.pack("<d", r.choice([1.5, -3.25, 1e10, 1e-9]))
    if k == "v":
        return b"".join(_rawd(r) for _ in range(r.choice([0, 1, 2, 3, 7, 8, 50, 3000])))
    if k == "cv":
        return b"".join(_rawd(r) for _ in range(2 * r.choice([1, 2, 3, 7, 8, 50, 1500])))
    return _rawd(r) + bytes(r.randrange(1, 256) for _ in range(r.choice([0, 1, 5, 40, 64, 100, 300])))


@gen("conv")
def g_conv(r):
    ops = []
    for _ in range(r.randrange(15, 40)):
        if r.random() < 0.75:
            p = r.choice(PTYPES)
            ops.append(dict(o="conv", p=p, x=_val(r, p), y=r.choice(["d", "i", "c", "v", "cv", "np", "b", "s", "t"])))
        else:
            k = r.choice(list(LOSSLESS))
            p = r.choice(LOSSLESS[k])
            ops.append(dict(o="same", p=p, x=k, hin=_raw(r, k, p).hex()))
    return dict(comp="conv", ops=ops)

CMDS = [-1, 0, 10, 12, 20, 32, 60, 75, 89, 105, 110, 160, 190, 200, 500, 525, 600, 1037, 60000, -10, -60, 2147483647, -2147483648]


def codec_msg(r, big=False):
    def i32():
        return str(r.choice([0, 1, -1, r.randrange(-2**31, 2**31), r.randrange(131072, 131100), 1879048192, 2**31 - 1, -2**31, r.randrange(256), 0xF3, 0x7B]))

    def by(n):
        k = r.randrange(4)
        if k == 0:
            return bytes(r.choice(b'abcXYZ_09{}"\\/') for _ in range(n)).hex()
        if k == 1:
            return bytes(r.choice([0, 0xF3, 0xFA, 0xFC, 10, 255, 0x7B]) for _ in range(n)).hex()
        if k == 2:
            return "".join(r.choice(["61", "c3a9", "e282ac", "00", "f09f9880"]) for _ in range(n))
        return bytes(r.randrange(256) for _ in range(n)).hex()

    def t():
        return str(r.choice([0, 1, -1, r.randrange(-2**63, 2**63), 2**63 - 1, -2**63, 10**9, r.randrange(10**12), r.randrange(10**18)]))
    a = r.choice(CMDS)
    if r.random() < 0.3:
        a = r.choice([-1, r.randrange(1, 2000)])
    if a == 500 or a == -1:
        a = -1
    n = r.choice([0, 0, 1, 2, 7, 30, 63, 64, 65, 100, 255, 256, 257, 700])
    m = dict(a=a, id=i32(), s=i32(), sh=i32(), d=i32(), dh=i32(), c=str(r.choice([0, 1, 255, 256, 65535, r.randrange(65536)])), f=str(r.choice([0, 1, 65535, r.randrange(65536)])),
             q=str(r.choice([0, 1, 2**32 - 1, r.randrange(2**32)])), t=t(), te=t(), td=t(), ts=t(), p="" if a == -1 else by(n), g=[])
    if a == -1:
        pass
    else:
        m["g"] = [by(r.choice([0, 1, 5, 20, 300])) for _ in range(r.choice([0, 0, 0, 1, 2, 3, 4, 4, 5, 9, 9]))]
        if r.random() < 0.02:
            m["g"] = [by(r.randrange(3)) for _ in range(r.choice([127, 128, 200, 254]))]
        if big:
            m["pn"] = r.choice([4095, 65535, 65536, 70000, 200000])
    return m


@gen("codec")
def gen_codec(r):
    ops = []
    style = r.randrange(4)
    for _ in range(r.randrange(8, 30)):
        k = r.random()
        m = codec_msg(r, r.random() < 0.06)
        if style == 0 or k < 0.25:
            for _ in range(r.randrange(1, 4)):
                ops.append(dict(o="send", how=r.choice(["pkt", "pkt", "pktj"]), m=m))
                m = codec_msg(r, r.random() < 0.06)
            for _ in range(r.randrange(0, 4)):
                ops.append(dict(o="deliver", b=r.choice([0, 1, 3, 4, 5, 6, 40, 51, 52, 60, r.randrange(200), 1000, 10**7])))
        elif k < 0.6:
            how = r.choice(["str", "vec", "json", "pkt", "pktj", "swap", "arr", "arrx"])
            ops.append(dict(o="rt", how=how, via=r.choice(["str", "vec", "arr"]), m=m, dirty=r.random() < 0.4, keep=r.random() < 0.5,
                            tail="" if how == "json" else r.choice(["", "", "00", "f3", "f3fafc", "7b7d", "000102030405060708090a"])))
        elif k < 0.7:
            ops.append(dict(o="cut", how=r.choice(["str", "pkt", "pktj", "json", "swap"]), via=r.choice(["str", "arr"]), m=m,
                            at=[0.02, 0.3, 0.7, 1.0] + [round(r.random(), 4) for _ in range(6)]))
        elif k < 0.75:
            ops.append(dict(o="small", m=m, f=r.choice([1.0, 0.0, 0.99, 0.5, round(r.random(), 4)])))
        elif k < 0.85:
            m = codec_msg(r)
            g = [codec_msg(r)["p"] for _ in range(4)]
            ops.append(dict(o="msg", m=dict(p=m["p"], g=g, t=m["t"], id=m["id"], f=m["f"]), ctor=r.random() < 0.5, mv=r.random() < 0.5))
        elif k < 0.95:
            for _ in range(r.choice([1, 2, 5, 258]) if r.random() < 0.3 else 2):
                ops.append(dict(o="pack", m=codec_msg(r)))
            if r.random() < 0.6:
                ops.append(dict(o="unpack"))
        else:
            ops.append(dict(o="copy", m=m, y=r.choice(["cc", "ca", "mc", "ma"])))
    ops.append(dict(o="deliver", b=10**8))
    ops.append(dict(o="unpack"))
    return dict(comp="codec", ops=ops)
