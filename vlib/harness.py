"""Build the harness from /repo's working tree and run scenarios under the controlled scheduler."""
import fcntl, json, os, shutil, subprocess, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, ".build", "full")
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = 8


class BuildError(Exception):
    pass


MIRROR = os.path.join(ROOT, ".build", "mirror")


def sync():
    """Mirror the parts of /repo the harness compiles, by content: a file is rewritten only when its bytes differ, so
    incremental builds depend on what the tree says and not on its timestamps."""
    want = set()
    for top in ("src", "config", "ThirdParty"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = [x for x in ds if x != ".git"]
            for f in fs:
                p = os.path.join(d, f)
                if os.path.isfile(p):
                    want.add(os.path.relpath(p, REPO))
    want.add("CMakeLists.txt")
    for rel in want:
        a, b = os.path.join(REPO, rel), os.path.join(MIRROR, rel)
        with open(a, "rb") as fh:
            data = fh.read()
        try:
            with open(b, "rb") as fh:
                if fh.read() == data:
                    continue
        except (FileNotFoundError, IsADirectoryError):
            os.makedirs(os.path.dirname(b), exist_ok=True)
        with open(b, "wb") as fh:
            fh.write(data)
    for d, ds, fs in os.walk(MIRROR):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.relpath(p, MIRROR) not in want:
                os.unlink(p)


def build(targets=("driver",)):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(ROOT, ".build", "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        log = os.path.join(ROOT, ".build", "build.log")
        sync()
        with open(log, "w") as lf:
            if not os.path.exists(os.path.join(BUILD, "build.ninja")):
                r = subprocess.run(["cmake", "-S", os.path.join(ROOT, "harness"), "-B", BUILD, "-G", "Ninja", "-DREPO=" + MIRROR], stdout=lf, stderr=lf)
                if r.returncode:
                    raise BuildError("cmake failed, see " + log)
            r = subprocess.run(["ninja", "-C", BUILD] + list(targets), stdout=lf, stderr=lf)
        if r.returncode:
            raise BuildError("build failed: " + open(log).read()[-3000:])


def run_batch(scenarios, runs, parallel=JOBS, timeout=800):
    """scenarios: list; runs: [{scn, seed, policy...}]. Returns the list of raw event lists, one per run."""
    d = tempfile.mkdtemp(prefix="vdrv")
    try:
        b = os.path.join(d, "batch.json")
        json.dump(dict(scenarios=scenarios, runs=runs), open(b, "w"))
        subprocess.run([os.path.join(BUILD, "driver"), b, d, str(parallel)], timeout=timeout, check=True,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        res = []
        for k in range(len(runs)):
            f = os.path.join(d, "%d.ndjson" % k)
            ev = []
            try:
                with open(f) as fh:
                    for line in fh:
                        line = line.strip()
                        if line:
                            try:
                                ev.append(json.loads(line))
                            except ValueError:
                                pass
            except FileNotFoundError:
                pass
            if not ev or ev[-1]["k"] not in ("end", "stuck", "crash", "wall", "exc"):
                ev.append(dict(k="crash", sig=-1))
            res.append(ev)
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)
