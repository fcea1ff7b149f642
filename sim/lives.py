"""Histories of whole runs: start, stop, crash, restart; compared with an
uninterrupted reference run of the same set-up."""

import copy
import json
import re

from . import fullrun, ipigen, oracle

_refs = {}

QUIET = {"seed": 1, "gap": 0, "quantum": 5000, "choice": "rand"}
REFOUT = {"ps": 1, "pf": 1, "ts": 1, "tf": 1, "cs": 0, "ref": True}


class RefError(Exception):
    pass


def plain_ff(ff):
    """The same potential without transport: direct, not threaded."""
    out = {}
    for k, v in (ff or {}).items():
        out[k] = {a: v[a] for a in ("offset", "pbc") if a in v}
    return out


def ref_key(setup, steps=None, ff=None, seed=4711):
    return json.dumps([setup, steps, plain_ff(ff), seed], sort_keys=True)


def reference(setup, steps=None, ff=None, seed=4711):
    key = ref_key(setup, steps, ff, seed)
    if key in _refs:
        return _refs[key]
    tags = ipigen.CAT[setup]["tags"]
    thr = False if "multi" in tags and "det" not in tags else None
    files = ipigen.make(setup, REFOUT, steps=steps, ff=plain_ff(ff), seed=seed, threads=thr)
    r = fullrun.life(
        {"sched": QUIET, "input": "input.xml", "files": files, "max_ticks": 60_000_000, "_wall": 300}
    )
    if r["status"] != "ended" or r.get("outcome") != ("exit", None):
        raise RefError(
            "the reference run of %s ended with %s %s %s" % (setup, r["status"], r.get("detail"), r.get("outcome"))
        )
    ref = {"ticks": r["stats"]["ticks"], "chk": {}, "props": {}, "traj": {}, "names": [], "extra": {}}
    for p, d in r["files"].items():
        n = p[len("/simroot/") :] if p.startswith("/simroot/") else p
        if n.startswith("sim.ref_"):
            st, flat = oracle.chk(d, n)
            ref["chk"][st] = flat
            ref.setdefault("raw", {})[st] = d
        elif n == "RESTART":
            ref["final"] = oracle.chk(d, n)
        elif re.search(r"\.t\d+(_\d+)?\.xyz$", n) and n not in files:
            ref["traj"][n] = {s: (y, v) for s, y, v in oracle.xyz(d, n)}
        elif n.startswith("sim.") or ".out" in n or n.endswith("sim.out"):
            if n.endswith(".out"):
                h, rows = oracle.props(d, n)
                ref["props"][n] = (h, {s: v for s, v in rows})
            else:
                ref["names"].append(n)
        elif n not in files:
            ref["names"].append(n)
        if n in ref["names"]:
            ref["extra"][n] = lines_of(d)
    # (some kinds of motion end by themselves, in the middle of a step)
    ref["steps"] = max(ref["chk"])
    ref["chk"].setdefault(*ref["final"])
    _refs[key] = ref
    return ref


def lines_of(data):
    """The lines of a file that is neither properties, frames nor a checkpoint."""
    out = []
    for l in data.decode("utf-8", "replace").replace("}{", "}\n{").split("\n"):
        if l.strip() and not l.lstrip().startswith("#"):
            out.append(oracle.tokens(l))
    return out


def judge_extra(files, ref, setup, viol, cls="outputs"):
    """The other files of a run that has come to its end: only files that the
    uninterrupted run also writes, with lines that it also writes."""
    rt, at = tol(setup)
    known = set(ref["extra"]) | set(ref["props"]) | set(ref["traj"])
    for n, d in files.items():
        if n in ref["extra"]:
            if n.endswith((".eigvec", ".mode")):
                continue  # (defined up to signs and rotations)
            want = ref["extra"][n]
            scale = max([abs(x) for l in want for x in l if isinstance(x, float)] or [0.0])
            i = 0
            for l in lines_of(d):
                j = i
                while j < len(want) and oracle.differ(l, want[j], rt, max(at, 1e-2 * rt * scale)):
                    j += 1
                if j == len(want):
                    # (records written again after going back to an earlier checkpoint)
                    j = 0
                    while j < len(want) and oracle.differ(l, want[j], rt, max(at, 1e-2 * rt * scale)):
                        j += 1
                if j == len(want):
                    viol.append((cls, "%s has a line that the uninterrupted run does not write: %s" % (n, l[:8])))
                    break
                i = j + 1
        elif n.startswith("sim.") and n not in known and not n.startswith("sim.chk"):
            viol.append((cls, "%s is not a file that the uninterrupted run writes" % n))
    for n in ref["extra"]:
        # (written at the end of the run, or at every step)
        if n not in files and ("vib" in ipigen.CAT[setup]["tags"] or n.endswith(("actout", "SWP", "remd_idx"))):
            viol.append((cls, "%s is missing" % n))


def with_output(chk, xml):
    """A checkpoint of the reference run, with the outputs of the given input."""
    want = re.search(r"<output.*</output>", xml, re.S).group(0)
    text = chk.decode()
    new = re.sub(r"<output.*?</output>", lambda m: want, text, count=1, flags=re.S)
    assert new != text
    m = re.search(r"threading='(\w+)'", xml.split(">")[0])
    head, sep, tail = new.partition("<simulation")
    attrs, _, rest = tail.partition(">")
    attrs = re.sub(r"\s+threading='\w+'", "", attrs)
    if m:
        attrs += " threading='%s'" % m.group(1)
    new = head + sep + attrs + ">" + rest
    return new.encode()


def short(p):
    return p[len("/simroot/") :] if p.startswith("/simroot/") else p


def tol(setup):
    r = ipigen.CAT[setup]["rtol"]
    return r, 1e-7


def judge_chk(data, name, ref, setup, viol, cls="restart-state"):
    """A checkpoint must be a state of the reference trajectory.  Returns its step."""
    try:
        st, flat = oracle.chk(data, name)
    except oracle.Corrupt as e:
        viol.append((cls, str(e)))
        return None
    if st not in ref["chk"]:
        viol.append((cls, "%s is at step %d, which the reference run never reaches" % (name, st)))
        return None
    rt, at = tol(setup)
    # (the replica index list is only filled in when the first step begins)
    d = oracle.chk_diff(flat, ref["chk"][st], rt, at, IGNORE + (("repindex",) if st == 0 else ()))
    if d:
        viol.append((cls, "%s says step %d but is not the state of the reference run at that step: %s" % (name, st, d)))
    return st


IGNORE = ("/ffsocket", "/ffdirect", "/prng/seed")


def judge_outputs(files, ref, setup, out, viol, upto=None, need_all=True, dup=True, first=0, cls="outputs", partial=False):
    """Every output file only holds rows of the reference run, complete ones, and
    (need_all) all of them up to step upto."""
    rt, at = tol(setup)
    upto = ref["steps"] if upto is None else upto
    files = {short(p): d for p, d in files.items()}
    pre = out.get("prefix", "sim")

    def expect(stride):
        return [s for s in range(first, upto + 1) if s % stride == 0]

    for n, (h, rows) in ref["props"].items():
        m = n.replace("sim.", pre + ".")
        if m not in files:
            if need_all:
                viol.append((cls, "%s is missing" % m))
            continue
        try:
            hh, rr = oracle.props(files[m], m)
        except oracle.Corrupt as e:
            viol.append((cls, str(e)))
            continue
        if hh != h and not (partial and not rr):
            viol.append((cls, "%s has a different header (%d lines instead of %d)" % (m, len(hh), len(h))))
        seq(m, [(s, v) for s, v in rr], {s: v for s, v in rows.items()}, expect(out["ps"]), rt, at, viol, need_all, dup, cls)
    for n, frames in ref["traj"].items():
        m = n.replace("sim.", pre + ".")
        if m not in files:
            if need_all:
                viol.append((cls, "%s is missing" % m))
            continue
        try:
            fr = oracle.xyz(files[m], m)
        except oracle.Corrupt as e:
            viol.append((cls, str(e)))
            continue
        seq(
            m,
            [(s, list(y) + v) for s, y, v in fr],
            {s: list(y) + v for s, (y, v) in frames.items()},
            expect(out["ts"]),
            max(rt, 2e-5),
            1e-5,
            viol,
            need_all,
            dup,
            cls,
        )


def seq(name, got, want, expect, rt, at, viol, need_all, dup, cls):
    seen = set()
    last = None
    exp = set(expect)
    for s, v in got:
        if s not in want:
            viol.append((cls, "%s has a record for step %d, which the reference never reaches" % (name, s)))
            return
        if s not in exp:
            viol.append((cls, "%s has an unexpected record for step %d" % (name, s)))
            return
        if s in seen and not dup:
            viol.append((cls, "%s has two records for step %d" % (name, s)))
            return
        d = oracle.differ(v, want[s], rt, at)
        if d:
            viol.append((cls, "%s differs from the reference at step %d: %s" % (name, s, d)))
            return
        seen.add(s)
        last = s
    if need_all:
        miss = [s for s in expect if s not in seen]
        if miss:
            viol.append((cls, "%s has no record for steps %s" % (name, miss[:6])))


def stats_of(rs):
    out = {}
    for r in rs:
        for k, v in r.get("stats", {}).items():
            if k == "counters":
                c = out.setdefault("counters", {})
                for a, b in v.items():
                    c[a] = c.get(a, 0) + b
            elif k in ("ticks", "now", "switches"):
                out[k] = out.get(k, 0) + v
    out["lives"] = len(rs)
    return out


def key_of(rs):
    return tuple(r.get("stats", {}).get("shash", 0) for r in rs) + tuple(
        (r["status"], str(r.get("outcome"))[:40]) for r in rs
    )


def resolve(events, ref):
    out = []
    for e in events:
        e = dict(e)
        if "frac" in e:
            e["tick"] = int(e.pop("frac") * ref["ticks"])
        out.append(e)
    return out


def life_scn(scn, l, inp, files, ref):
    return {
        "sched": l.get("sched", QUIET),
        "net": l.get("net", scn.get("net", {})),
        "fs": l.get("fs", {}),
        "input": inp,
        "files": files,
        "clients": l.get("clients", scn.get("clients", [])),
        "addr": scn.get("addr"),
        "events": resolve(l.get("events", []), ref),
        "max_ticks": 60_000_000,
        "max_time": scn.get("max_time", 2000.0),
        "powerloss": l.get("powerloss"),
        "verbosity": scn.get("verbosity", "quiet"),
        "_wall": scn.get("_wall", 120),
    }


def harness_of(r):
    if r["status"] == "harness":
        return r["detail"]
    if r["status"] == "livelock":
        return None
    return None
