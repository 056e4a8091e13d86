"""Running TLC: trace batches against a trace specification, and exhaustive models."""
import json, os, re, subprocess, tempfile, shutil
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"


class ToolError(Exception):
    pass


def _classpath():
    import glob
    d = os.path.dirname(JAR)
    return ":".join([JAR] + sorted(x for x in glob.glob(d + "/*.jar") if x != JAR))


def run_tlc(module, cfg, env=None, workers=8, timeout=800, extra=(), heap="6g", cwd=None):
    meta = tempfile.mkdtemp(prefix="tlcmeta")
    try:
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-DTLA-Library=" + SPEC, "-cp", _classpath(), "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
        p = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        raise ToolError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def states(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def check_traces(traces, module="FedTrace", timeout=800, workers=8, rules=("*",)):
    """traces: [{id, cfg, ev}]. Returns ({id: (pos, [conditions])} rejected, accepted count, generated, distinct)."""
    if not traces:
        raise ToolError("no traces")
    d = tempfile.mkdtemp(prefix="vtr")
    try:
        f = os.path.join(d, "traces.json")
        json.dump(dict(traces=traces, rules=sorted(rules)), open(f, "w"))
        rc, out = run_tlc(module + ".tla", module + ".cfg", env={"TRACES": f}, workers=workers, timeout=timeout)
        okset = set(int(x) for x in re.findall(r'<<"OK", (\d+), ', out))
        bad = {}
        flat = re.sub(r"\s+", " ", out)
        for m in re.finditer(r'<< ?"VERDICT", (\d+), (\d+), \{([^}]*)\} ?>>', flat):
            bad[int(m.group(1))] = (int(m.group(2)), [x.strip().strip('"') for x in m.group(3).split(",")])
        if len(okset) + len(bad) != len(traces):
            open("/tmp/tlc_fail.log", "w").write(out)
            raise ToolError("TLC judged %d of %d traces (rc %d): %s" % (len(okset) + len(bad), len(traces), rc, out[-1500:]))
        g, n = states(out)
        return bad, okset, g, n
    finally:
        shutil.rmtree(d, ignore_errors=True)
