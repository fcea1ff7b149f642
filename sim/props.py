"""The checks, one per property."""

from . import sockgen as sg
from . import fullprops as fp
from . import transport as tr
from . import crash as cr
from . import ffs
from . import mpijob
from . import multisys
from . import remd as rx
from . import drvpeer
from . import interactive as ia
from . import depgraph as dg
from .check import Check, drop_items, lower, setval

_makers = {}


def prop(f):
    _makers[f.__name__] = f
    return f


def get(pid):
    return _makers[pid]()


RULE_SOCK = (
    "A case is one simulated execution of a forcefield server with 1-4 clients drawn from the seed"
    " (transport, batching, matching, message segmentation, latencies, thread schedule, client faults);"
    " non-trivial: at least ten task switches; distinct by the sequence of task switches."
)


@prop
def P01():
    return Check(
        "P01",
        {
            "quiet": (900, 40000, sg.gen_quiet),
            "deaths": (900, 40000, sg.gen_deaths),
            "stalls": (500, 20000, sg.gen_stalls),
            "lock": (150, 8000, sg.gen_lock),
        },
        sg.runner_for({"attribution"}),
        sg.REDUCERS,
        rule=RULE_SOCK,
    )


@prop
def P02():
    return Check(
        "P02",
        {
            "quiet": (500, 20000, sg.gen_quiet),
            "deaths": (900, 40000, sg.gen_deaths),
            "stalls": (600, 30000, sg.gen_stalls),
            "silent": (300, 30000, sg.gen_silent),
            "lock": (100, 5000, sg.gen_lock),
        },
        sg.runner_for({"liveness"}),
        sg.REDUCERS,
        rule=RULE_SOCK,
    )


@prop
def P03():
    return Check(
        "P03",
        {
            "once": (900, 40000, sg.gen_once),
            "lock": (200, 8000, sg.gen_once_lock),
            "deaths": (700, 30000, sg.gen_deaths),
            "stalls": (300, 15000, sg.gen_stalls),
        },
        sg.runner_for({"protocol"}),
        sg.REDUCERS,
        rule=RULE_SOCK,
    )


@prop
def P04():
    return Check(
        "P04",
        {"bad": (1800, 80000, sg.gen_bad)},
        sg.runner_for({"attribution", "liveness", "dropped"}),
        sg.REDUCERS,
        rule=RULE_SOCK,
    )


@prop
def P05():
    return Check(
        "P05",
        {
            "lock": (700, 30000, sg.gen_lock),
            "lockdeaths": (500, 30000, sg.gen_lock_deaths),
            "sticky": (500, 20000, sg.gen_sticky),
        },
        sg.runner_for({"lock", "match", "liveness", "shutdown"}),
        sg.REDUCERS,
        rule=RULE_SOCK,
    )


@prop
def P06():
    return Check(
        "P06",
        {
            "quiet": (500, 20000, sg.gen_quiet),
            "deaths": (400, 20000, sg.gen_deaths),
            "stalls": (200, 10000, sg.gen_stalls),
            "stop": (700, 30000, sg.gen_stop),
            "eod": (400, 20000, sg.gen_eod),
        },
        sg.runner_for({"shutdown"}),
        sg.REDUCERS,
        rule=RULE_SOCK,
    )


RULE_FULL = (
    "A case is one history of whole i-PI runs (one or more lives of the program on one simulated disk) drawn from the seed;"
    " non-trivial: at least five task switches; distinct by the sequence of task switches and the outcomes."
)


@prop
def P07():
    return Check(
        "P07",
        {
            "quiet": (120, 6000, tr.gen("quiet")),
            "deaths": (100, 6000, tr.gen("deaths")),
            "stalls": (50, 4000, tr.gen("stalls")),
            "bad": (60, 4000, tr.gen("bad")),
            "direct": (70, 3000, tr.gen_direct),
        },
        tr.run,
        [sg._drop_client_any, lower(["steps"]), setval(["net"], {}), setval(["threads"], None), setval(["sched", "gap"], 0)],
        RULE_FULL,
        refs=tr.refs,
    )


@prop
def P08():
    return Check(
        "P08",
        {
            "job": (900, 30000, mpijob.gen),
            "stop": (400, 15000, mpijob.gen_stop),
            "setup": (150, 4000, mpijob.gen_mismatch),
        },
        mpijob.runner_for({"attribution", "liveness", "once", "shutdown", "setup"}),
        mpijob.REDUCERS,
        rule="A case is one simulated MPI job: i-PI's side of the forcefields and 1-8 driver ranks, drawn from the seed (batches, groups, systems, message delays, eager or rendezvous sends, thread schedule); non-trivial: at least ten task switches; distinct by the sequence of task switches.",
    )


@prop
def P12():
    return Check(
        "P12",
        {"soft": (400, 6000, fp.gen_soft), "limit": (200, 3000, fp.gen_limit)},
        fp.run_soft,
        [drop_items(["lives"]), setval(["safe"], 1)],
        "soft",
        refs=fp.refs,
    )


def _threads_off(scn):
    if scn.get("threads") not in (None, False):
        yield dict(scn, threads=False)


RED_LIVES = [drop_items(["lives"]), setval(["safe"], 1), _threads_off, setval(["out", "ps"], 1), setval(["out", "pf"], 1), setval(["out", "ts"], 1), setval(["out", "tf"], 1)]


@prop
def P13():
    return Check(
        "P13",
        {
            "chk": (800, 12000, cr.gen_chk),
            "crashes": (200, 5000, cr.gen(["kill", "kill", "torn", "soft"])),
        },
        cr.run({"resume", "outputs", "chk"}),
        RED_LIVES,
        RULE_FULL,
        refs=cr.refs,
    )


CRASH_SETUPS = ["nve1", "nvt_pile_g", "nvt_gle", "npt_isotropic", "mts", "geop_bfgs", "remd", "two_nve", "remd_nve", "sc"]


@prop
def P14():
    return Check(
        "P14",
        {
            "kill": (120, 5000, cr.gen(["kill", "torn"], CRASH_SETUPS, fresh=0.2)),
            "power": (120, 5000, cr.gen(["power", "tornpower"], CRASH_SETUPS, fresh=0.2)),
            "disk": (80, 4000, cr.gen(["disk"], CRASH_SETUPS, fresh=0.2)),
        },
        cr.run({"chk"}),
        RED_LIVES,
        RULE_FULL,
        refs=cr.refs,
    )


@prop
def P15():
    return Check(
        "P15",
        {
            "kill": (120, 5000, cr.gen(["kill", "torn"], CRASH_SETUPS)),
            "power": (120, 5000, cr.gen(["power", "tornpower"], CRASH_SETUPS)),
            "disk": (80, 4000, cr.gen(["disk"], CRASH_SETUPS)),
        },
        cr.run({"outputs"}),
        RED_LIVES,
        RULE_FULL,
        refs=cr.refs,
    )


@prop
def P16():
    return Check(
        "P16",
        {
            "backup": (150, 6000, cr.gen(["kill", "torn", "power", "soft", "disk", "tornpower"], CRASH_SETUPS, fresh=0.6, nlives=(2, 3, 4))),
        },
        cr.run({"lost"}),
        RED_LIVES,
        RULE_FULL,
        refs=cr.refs,
    )


@prop
def P09():
    return Check(
        "P09",
        {
            "single": (300, 20000, ffs.gen_single),
            "batch": (250, 15000, ffs.gen_batch),
            "committee": (350, 20000, ffs.gen_committee),
            "rotations": (200, 10000, ffs.gen_rotations),
            "stop": (250, 15000, ffs.gen_stop),
        },
        ffs.runner_for({"attribution", "liveness", "once", "shutdown"}),
        ffs.REDUCERS,
        rule="A case is one simulated execution of an in-process forcefield serving 1-3 systems; non-trivial: at least ten task switches; distinct by the sequence of task switches.",
    )


_p10 = ffs.runner_for({"failure", "attribution", "shutdown"})


@prop
def P10():
    return Check(
        "P10",
        {"fail": (500, 30000, ffs.gen_fail), "runs": (250, 8000, fp.gen_fail)},
        lambda scn: fp.run_fail(scn) if "setup" in scn else _p10(scn),
        ffs.REDUCERS + [setval(["out", "ps"], 1), setval(["out", "ts"], 1), setval(["threads"], None)],
        rule="A case is one forcefield workload (as P09) or one whole run in which an evaluation of the potential raises an exception; distinct by the sequence of task switches.",
        refs=lambda scn: fp.refs(scn) if "setup" in scn else [],
    )


@prop
def P18():
    return Check(
        "P18",
        {"net": (1200, 60000, dg.gen), "fail": (600, 30000, dg.gen_fail)},
        dg.runner_for({"stale", "once", "liveness"}),
        dg.REDUCERS,
        rule="A case is one random network of dependent quantities, written by one thread per system and read by 1-4 threads each, drawn from the seed; non-trivial: at least ten task switches; distinct by the sequence of task switches.",
    )


@prop
def P17():
    return Check(
        "P17",
        {"talk": (1200, 50000, drvpeer.gen), "gone": (1200, 50000, drvpeer.gen_gone)},
        drvpeer.runner_for({"answer", "end", "liveness"}),
        drvpeer.REDUCERS,
        rule="A case is one conversation of the Python driver with a scripted server, drawn from the seed (transport, batch, messages sent without waiting, cuts of the byte stream, the byte at which the server vanishes); non-trivial: at least ten task switches; distinct by the sequence of task switches.",
    )


@prop
def P19():
    return Check(
        "P19",
        {"pieces": (400, 8000, ia.gen)},
        ia.run,
        RED_LIVES[:3] + [setval(["out", "ps"], 1), setval(["out", "ts"], 1)],
        RULE_FULL,
        refs=ia.refs,
    )


@prop
def P11():
    return Check(
        "P11",
        {
            "direct": (160, 5000, multisys.gen("direct")),
            "quiet": (80, 3000, multisys.gen("quiet")),
            "deaths": (60, 3000, multisys.gen("deaths")),
            "sizes": (60, 2000, multisys.gen("sizes")),
        },
        multisys.run,
        [multisys.drop_system, sg._drop_client_any, setval(["net"], {}), _threads_off, setval(["sched", "gap"], 0)],
        RULE_FULL,
    )


@prop
def P20():
    return Check(
        "P20",
        {
            "whole": (160, 6000, rx.gen("whole")),
            "soft": (90, 4000, rx.gen("soft")),
            "kill": (60, 4000, rx.gen("kill")),
        },
        rx.run,
        [rx.drop_life, rx.plain, _threads_off, setval(["sched", "gap"], 0)],
        RULE_FULL,
    )
