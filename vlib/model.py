"""Exhaustive checks of Federation.tla: the rules FedTrace judges with, explored in every order on small federations.
What they decide does not depend on the code; a failure here is a fault of the specification (exit 2), never a VIOLATION."""
import os, tempfile
from . import tlc
CFG = """SPECIFICATION Spec
CONSTANTS H = %d
 NPub = %d
 NIter = %d
 Shape = "%s"
INVARIANTS NothingIntoThePast CausalOrder ReadsRight MessagesRight Together
PROPERTIES TimeMoves
"""


def step(quick, thorough):
    """each a list of (shape, H, NPub, NIter)"""
    def run(ctx):
        for shape, h, n, it in (quick if ctx.tier == "quick" else quick + thorough):
            with tempfile.TemporaryDirectory(prefix="vmod") as d:
                f = os.path.join(d, "m.cfg")
                open(f, "w").write(CFG % (h, n, it, shape))
                rc, out = tlc.run_tlc("Federation.tla", f, timeout=3000 if ctx.tier == "thorough" else 400, heap="10g")
            if rc != 0 or "No error has been found" not in out:
                open("/tmp/tlc_fail.log", "w").write(out)
                raise tlc.ToolError("Federation.tla (%s) is not consistent: %s" % (shape, out[-800:]))
            g, n2 = tlc.states(out)
            ctx.states += n2
            ctx.transitions += g
            ctx.notes["model " + shape] = "H=%d, %d sends, %d iterations: %d distinct states, no error" % (h, n, it, n2)
    return run
