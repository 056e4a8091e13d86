"""Which steps decide which property."""
from . import apicheck, comp, fedcheck, model


def fed(parts, rules):
    return lambda ctx: fedcheck.run(ctx, parts, rules)


GRANT = ["grant.mono", "grant.rate", "grant.grid", "grant.interrupted", "grant.result", "iter.unasked"]
PROPS = {
    "C01": dict(level="model_checking", steps=[model.step([("oneway", 2, 1, 0)], [("oneway", 4, 1, 0), ("bothways", 3, 1, 0), ("chain", 2, 1, 0), ("join", 2, 1, 0)]),
        fed([("val", 120, 2), ("vt", 80, 2), ("tgt", 60, 2), ("msg2", 60, 2), ("lock", 40, 2), ("rich_val", 60, 2), ("rich_tgt", 60, 2),
                                                    ("rich_msg2", 40, 2), ("evt_val", 40, 2), ("iter_val", 40, 2), ("mix_tgt", 40, 2), ("wait_val", 40, 2), ("wait_tgt", 30, 2)],
                                                  ["grant.causal", "pub.past", "send.past", "grant.wait"])]),
    "C02": dict(level="model_checking", steps=[fed([("val", 120, 2), ("vt", 80, 2), ("tgt", 60, 2), ("msg2", 60, 2), ("lock", 30, 2), ("rich_val", 80, 2), ("rich_tgt", 80, 2),
                                                    ("rich_msg2", 40, 2), ("evt_val", 40, 2), ("evt_tgt", 40, 2), ("iter_val", 40, 2), ("wait_val", 40, 2), ("wait_tgt", 30, 2)],
                                                  ["grant.late", "grant.early", "grant.empty", "grant.result"])]),
    "C03": dict(level="model_checking", steps=[fed([("val", 150, 2), ("tgt", 80, 2), ("msg2", 60, 2), ("rich_val", 100, 2), ("rich_tgt", 60, 2), ("iter_val", 60, 2), ("evt_val", 40, 2), ("wait_val", 40, 2), ("wait_tgt", 30, 2)], GRANT + ["read.time"])]),
    "C04": dict(level="model_checking", steps=[fed([("val", 100, 3), ("vt", 60, 3), ("tgt", 60, 3), ("msg2", 60, 3), ("lock", 60, 3),
                                                    ("rich_val", 60, 2), ("rich_tgt", 60, 2), ("rich_msg2", 40, 2), ("evt_tgt", 40, 2), ("iter_tgt", 40, 2), ("mix_val", 40, 2), ("wait_val", 40, 2), ("wait_tgt", 30, 2)], [])]),
    "C05": dict(level="model_checking", steps=[fed([("val", 150, 2), ("vt", 60, 2), ("msg2", 60, 2), ("lock", 40, 2)],
                                                  ["init.barrier", "exec.barrier", "exec.time", "exec.result", "exec.iter-unasked", "life.initret", "life.execret", "read.value"])]),
    "C06": dict(level="model_checking", steps=[model.step([], [("oneway", 2, 1, 1), ("messages", 2, 1, 1)]),
        
        fed([("iter_val", 80, 2), ("iter_tgt", 60, 2), ("force_val", 80, 2), ("mix_val", 60, 2), ("mix_tgt", 60, 2)],
            ["iter.time", "iter.spurious", "iter.missed", "iter.unasked", "iter.force-ignored", "grant.mono", "grant.grid", "grant.late", "grant.early",
             "read.value", "read.updated", "msg.lost", "msg.early"]),
        fed([("xtwo_val", 100, 2), ("xtwo_tgt", 60, 2), ("xtwof_val", 60, 2)],
            ["exec.iter-missed", "exec.iter-spurious", "exec.iter-unasked", "exec.force-ignored", "exec.result", "exec.time", "exec.barrier"])]),
    "C07": dict(level="model_checking", steps=[model.step([("join", 1, 1, 0)], [("join", 2, 2, 0), ("oneway", 2, 2, 0)]),
        fed([("val", 200, 2), ("vt", 100, 2), ("rich_val", 150, 2), ("iter_val", 60, 2), ("evt_val", 40, 2), ("wait_val", 60, 2)], ["read.value", "read.lastupdate"])]),
    "C08": dict(level="model_checking", steps=[fed([("val", 200, 2), ("vt", 100, 2), ("rich_val", 200, 2), ("iter_val", 60, 2)], ["read.updated", "read.clear", "read.lastupdate"])]),
    "C09": dict(level="model_checking", steps=[model.step([("msgone", 2, 1, 0)], [("msgone", 4, 1, 0), ("messages", 3, 1, 0)]),
        fed([("tgt", 120, 2), ("msg2", 120, 2), ("lock", 60, 2), ("vt", 60, 2), ("rich_tgt", 120, 2), ("rich_msg2", 100, 2),
                                                    ("iter_tgt", 40, 2), ("evt_tgt", 40, 2), ("wait_tgt", 60, 2)],
                                                  ["msg.unknown", "msg.dup", "msg.early", "msg.lost", "msg.order", "msg.count", "send.past"])]),
    "C10": dict(level="model_checking", steps=[fed([("wire_val", 180, 2), ("wire_tgt", 180, 2), ("wire_vt", 180, 2)],
                                                  ["read.value", "read.updated", "msg.unknown", "msg.dup", "msg.early", "msg.lost", "msg.count", "grant.late", "grant.causal",
                                                   "pub.past", "send.past", "init.barrier", "exec.barrier"])]),
    "C11": dict(level="model_checking", steps=[fed([("flt2", 150, 3), ("flt3", 150, 3), ("k_delay", 20, 2), ("k_append", 20, 2), ("k_dropif", 20, 2), ("k_reroute", 20, 2),
                                                    ("k_clone", 30, 2), ("k_rdrop", 20, 2), ("k_redest", 20, 2)],
                                                  ["msg.unknown", "msg.dup", "msg.early", "msg.lost", "msg.order", "msg.count", "send.past"])]),
    "C18": dict(level="model_checking", steps=[apicheck.step([("cmd", 250, 2)], "CommandsTrace")]),
    "C19": dict(level="model_checking", steps=[apicheck.step([("settings", 400, 1)], "SettingsTrace")]),
    "C21": dict(level="model_checking", steps=[fed([("async_" + b, 40, 2) for b in ("val", "vt", "tgt", "msg2", "lock", "iter_val", "iter_tgt", "mix_val")], ["*"])]),
    "C22": dict(level="model_checking", steps=[apicheck.step([("modes", 300, 2)], "ModesTrace")]),
    "C24": dict(level="model_checking", comp=True, targets=("comps",), steps=[comp.step("comps", "buf", "SmallBufferTrace", 800)]),
    "C25": dict(level="model_checking", comp=True, targets=("comps",), steps=[comp.step("comps", "uhm", "UnresolvedTrace", 600)]),
    "C26": dict(level="model_checking", comp=True, targets=("comps",), steps=[comp.step("comps", "prof", "ProfilerTrace", 500)]),
    "C28": dict(level="model_checking", comp=True, targets=("comps2",), steps=[comp.step("comps2", "conv", "ConvertTrace", 1500)]),
    "C32": dict(level="model_checking", comp=True, targets=("comps2",), steps=[comp.step("comps2", "codec", "CodecTrace", 1500)]),
}
