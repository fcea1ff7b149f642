"""Histories with crashes, power losses and disk faults: what is on disk after
each of them, and what continuing from it gives."""

import re

from . import fullrun, ipigen, lives, oracle
from .fullprops import ffcfg, make_files, sched

ALL = sorted(n for n, c in ipigen.CAT.items())
# (chk_<step> of runs that write it with overwrite='False')
CHK = re.compile(r"^(#)?sim\.chk(_(\d+))?(\.new)?(#\d+#)?$")


def out_cfg(rng, cs=(1, 1, 2, 3)):
    o = {
        "ps": rng.choice([1, 1, 1, 2]),
        "pf": rng.choice([1, 1, 1, 2, 3]),
        "ts": rng.choice([1, 2, 3]),
        "tf": rng.choice([1, 1, 2]),
        "cs": rng.choice(cs),
        "over": rng.random() < 0.7,
    }
    return o


def fs_fault(rng, kinds=("crash",)):
    kind = rng.choice(kinds)
    what = rng.choice(["chk", "chk", "chk", "out", "xyz", "RESTART", ""])
    f = {"kind": kind, "frac": rng.choice([0.0, 0.1, 0.5, 0.9, 1.0]), "path": what}
    f["op"] = rng.choice(["write", "write", "open", "rename", "fsync", "any"] if what in ("chk", "", "RESTART") else ["write", "write", "fsync", "any"])
    f["skip"] = rng.choice([0, 1, 2, 3, 4, 6, 9, 14, 20]) if what != "RESTART" else rng.choice([0, 0, 1, 2])
    if kind in ("enospc", "eio"):
        f["times"] = rng.choice([1, 1, 2, 1000])
    return f


def one_life(rng, kind):
    """kind: kill, torn, power, disk, soft, full"""
    l = {"sched": sched(rng), "events": [], "kind": kind}
    frac = round(rng.uniform(0.15, 1.02), 4)
    if kind == "kill":
        l["events"].append({"what": "kill", "frac": frac})
    elif kind == "power":
        l["events"].append({"what": "kill", "frac": frac})
        l["powerloss"] = rng.randrange(1 << 30)
    elif kind == "torn":
        l["fs"] = {"faults": [fs_fault(rng)]}
    elif kind == "tornpower":
        l["fs"] = {"faults": [fs_fault(rng)]}
        l["powerloss"] = rng.randrange(1 << 30)
    elif kind == "disk":
        l["fs"] = {"faults": [fs_fault(rng, ("enospc", "eio"))]}
    elif kind == "soft":
        l["events"].append({"what": rng.choice(["sigterm", "exitfile"]), "frac": frac})
    return l


def gen(kinds, setups=ALL, fresh=0.0, cs=(1, 1, 2, 3), nlives=(1, 1, 2, 3)):
    def g(rng, i):
        setup = rng.choice(setups)
        scn = {"setup": setup, "out": out_cfg(rng, cs), "ff": ffcfg(rng, setup), "lives": []}
        scn["safe"] = rng.choice([1, 1, 1, 2])
        c = ipigen.CAT[setup]
        if "multi" in c["tags"]:
            scn["threads"] = "det" in c["tags"] and rng.random() < 0.7
        for _ in range(rng.choice(nlives)):
            l = one_life(rng, rng.choice(kinds))
            l["from"] = "input" if rng.random() < fresh else rng.choice(["newest", "newest", "any"])
            if fresh >= 0.5 and rng.random() < 0.3:
                l["rm"] = rng.randrange(1000)  # the user removes one of the backups
            scn["lives"].append(l)
        return scn

    return g


def refs(scn):
    return [(scn["setup"], scn.get("steps"), scn["ff"])]


def gen_chk(rng, i):
    """Continue from one of the checkpoints of the uninterrupted run."""
    setup = ALL[i % len(ALL)]
    scn = {"setup": setup, "out": out_cfg(rng), "ff": ffcfg(rng, setup), "lives": [], "safe": 1}
    c = ipigen.CAT[setup]
    if "multi" in c["tags"]:
        scn["threads"] = "det" in c["tags"] and rng.random() < 0.7
    # which one, as a fraction of the run; and possibly more stops later
    scn["start"] = round((0.37 * (i // len(ALL)) + 0.37 * rng.random()) % 1, 4)
    for _ in range(rng.choice([0, 0, 1, 2])):
        l = one_life(rng, rng.choice(["kill", "soft"]))
        l["from"] = rng.choice(["newest", "any"])
        scn["lives"].append(l)
    return scn


def split(files, before, start):
    """What this life added to each file: {name: bytes}."""
    out = {}
    fresh = {n for n in files if n.startswith("#") and n not in before} if start == 0 else set()
    for n, d in files.items():
        b = before.get(n)
        if any(f.startswith("#%s#" % n) for f in fresh):
            # backed up and started again
            out[n] = d
        elif b is not None and d[: len(b)] == b:
            out[n] = d[len(b) :]
        else:
            out[n] = d
    return out


def rows_of(data, name, kind):
    """Records of a file, ignoring one torn record at the end; (rows, torn)."""
    torn = False
    if kind == "props":
        cut = data.rfind(b"\n") + 1
        if cut < len(data):
            torn = True
        h, r = oracle.props(data[:cut], name)
        return [(s, v) for s, v in r], torn, h
    # frames: drop an incomplete last one
    cut = data.rfind(b"\n") + 1
    if cut < len(data):
        torn = True
    lines = data[:cut].split(b"\n")[:-1]
    i = 0
    while i < len(lines):
        try:
            n = int(lines[i])
        except ValueError:
            raise oracle.Corrupt("%s: expected an atom count, found %r" % (name, lines[i][:60]))
        if i + 2 + n > len(lines):
            torn = True
            break
        i += 2 + n
    fr = oracle.xyz(b"".join(x + b"\n" for x in lines[:i]), name)
    return [(s, list(y) + v) for s, y, v in fr], torn, None


def judge_disk(scn, ref, files, before, start, viol, ended, faulty, numbered=True):
    """The disk after one life: records of this life, and checkpoints.

    start: the step this life began at; ended: it ran to its end by itself.
    Returns the last step for which there is evidence."""
    setup, out = scn["setup"], scn["out"]
    rt, at = lives.tol(setup)
    new = split(files, before, start)
    recs = {}
    for kind, table, stride, flush in (
        ("props", ref["props"], out["ps"], out["pf"]),
        ("traj", ref["traj"], out["ts"], out["tf"]),
    ):
        for n, want in table.items():
            if n not in files:
                recs[n] = ([], False, stride, flush)
                continue
            try:
                rr, torn, head = rows_of(new[n], n, kind)
            except oracle.Corrupt as e:
                viol.append(("outputs", str(e)))
                continue
            if kind == "props" and head is not None and start == 0 and rr and head != want[0]:
                viol.append(("outputs", "%s has a different header" % n))
            w = want[1] if kind == "props" else {s: list(y) + v for s, (y, v) in want.items()}
            lives.seq(
                n, rr, w, [s for s in range(0, ref["steps"] + 1) if s % stride == 0],
                max(rt, 2e-5) if kind == "traj" else rt, 1e-5 if kind == "traj" else at, viol, False, False, "outputs",
            )
            if torn and ended:
                viol.append(("outputs", "%s ends in the middle of a record although the run ended" % n))
            recs[n] = (rr, torn, stride, flush)
    # checkpoints
    chks = {}
    for n, d in sorted(files.items()):
        m = CHK.match(n)
        base = "RESTART" in n and not n.endswith(".new")
        if not (m and not m.group(4)) and not base:
            continue
        try:
            st, flat = oracle.chk(d, n)
        except oracle.Corrupt as e:
            viol.append(("chk", "after the crash, %s" % e))
            continue
        if st not in ref["chk"]:
            viol.append(("chk", "%s is at step %d, which the reference never reaches" % (n, st)))
            continue
        if before.get(n) != d:
            dd = oracle.chk_diff(flat, ref["chk"][st], rt, at, lives.IGNORE + (("repindex",) if st == 0 else ()))
            if dd:
                viol.append(("chk", "%s says step %d but is not the state of the reference run: %s" % (n, st, dd)))
        chks[n] = st
        if m and m.group(3) and not n.startswith("#") and out.get("cs") and not out.get("over") and numbered and before.get(n) != d:
            # numbered like those of the uninterrupted run
            if st != int(m.group(3)) * out["cs"]:
                viol.append(("resume", "%s holds step %d, but that of an uninterrupted run step %d" % (n, st, int(m.group(3)) * out["cs"])))
    if viol:
        return None, chks
    # how far did it get?
    top = start
    for n, (rr, torn, stride, flush) in recs.items():
        for s, _ in rr:
            top = max(top, s)
    old = set(before.values())
    for n, st in chks.items():
        if files[n] not in old:
            top = max(top, st)
    full = min(top, ref["steps"]) if ended else top - 1  # every output of this step is complete
    first = 0 if start == 0 else start + 1
    for n, (rr, torn, stride, flush) in recs.items():
        due = [s for s in range(first, full + 1) if s % stride == 0]
        if not ended:
            due = due[: len(due) - len(due) % flush] if flush > 0 else []
        have = {s for s, _ in rr}
        miss = [s for s in due if s not in have]
        if miss and not faulty:
            viol.append(("outputs", "%s has lost the records of steps %s (step %d was reached)" % (n, miss[:5], top)))
    if out.get("cs") and not faulty:
        need = full - full % out["cs"]
        if need >= first:
            if out["over"]:
                ok = [n for n, st in chks.items() if "chk" in n and st >= need]
                if not ok:
                    viol.append(("chk", "no checkpoint of step %d or later although step %d was reached" % (need, top)))
            else:
                for s in range(first, need + 1):
                    if s % out["cs"] == 0 and s not in [st for n, st in chks.items() if "chk" in n]:
                        viol.append(("chk", "checkpoint of step %d is missing although step %d was reached" % (s, top)))
                        break
    return top, chks


def judge_lost(files, before, viol, inplace):
    """Nothing that was there before the life has gone (appending is fine)."""
    vals = list(files.items())
    for n, b in before.items():
        if n.endswith(".new") or n == "EXIT":
            continue
        if n in files and files[n][: len(b)] == b:
            continue
        if not any(d == b for m, d in vals if m.startswith("#") and n.strip("#") in m or m == n):
            viol.append(("lost", "the contents of %s are gone" % n))


def run(classes):
    def go(scn):
        r = _run(scn)
        r["viol"] = [v for v in r["viol"] if v[0] in classes or v[0] in ("stuck",)]
        return r

    return go


def _run(scn):
    from .fullprops import result

    ref = lives.reference(scn["setup"], scn.get("steps"), scn["ff"])
    files = make_files(scn)
    viol, rs = [], []
    image, inp, start = None, "input.xml", 0
    if scn.get("start") is not None:
        start = int(scn["start"] * ref["steps"])
        inp = "start.chk"
        data = lives.with_output(ref["raw"][start], files["input.xml"])
        image = {"/simroot/start.chk": data}
    i = 0
    done = False
    numbered = scn.get("start") is None
    while not done:
        # (from a checkpoint of step 0, that checkpoint is written again)
        numbered = numbered and (start > 0 or inp == "input.xml")
        last = i >= len(scn["lives"])
        l = scn["lives"][i] if not last else {"kind": "full"}
        ls = lives.life_scn(scn, l, inp, files, ref)
        before = {lives.short(p): d for p, d in (image or {}).items()}
        r = fullrun.life(ls, image)
        rs.append(r)
        if r["status"] == "harness":
            return result(scn, viol, rs, r["detail"])
        if r["status"] in ("deadlock", "livelock", "timeout"):
            viol.append(("stuck", "life %d never ends: %s %s" % (i, r["status"], r["detail"])))
            r["trace"] += r.get("threads", [])
            break
        faulted = any(k.startswith("fs_fault_e") for k in r["stats"].get("counters", {}))
        o = r.get("outcome")
        killed = r["status"] == "killed"
        if not killed and not faulted:
            if o[0] == "raised" or o[1] not in (None, 0):
                viol.append(("resume", "%s, life %d (from %s, step %d) ends with %s" % (scn["setup"], i, inp, start, str(o)[:600])))
                break
        img = r.get("pl_files") if (killed and l.get("powerloss")) else r["files"]
        cur = {lives.short(p): d for p, d in img.items()}
        ended = not killed and not r["marks"].get("events") and not faulted
        v = []
        # a run that meets a disk error and still reports success has all its records
        silent = faulted and not killed and not r["marks"].get("events") and o == ("exit", None)
        top, chks = judge_disk(scn, ref, cur, before, start, v, ended or silent, faulted and not silent, numbered)
        judge_lost(cur, before, v, inp)
        if ended:
            judge_end(scn, ref, cur, start, v)
            lives.judge_extra(cur, ref, scn["setup"], v)
        if v:
            viol += [(c, "%s, life %d (%s from %s, step %d): %s" % (scn["setup"], i, l.get("kind"), inp, start, m)) for c, m in v]
            break
        if last:
            done = True
            break
        # the next life: from a checkpoint, or from scratch
        image = {p: d for p, d in img.items() if lives.short(p) != "EXIT"}
        if ended:
            break
        i += 1
        nxt = scn["lives"][i] if i < len(scn["lives"]) else {"from": "newest"}
        old = sorted(p for p in image if lives.short(p).startswith("#"))
        if nxt.get("rm") is not None and old:
            del image[old[nxt["rm"] % len(old)]]
        names = {lives.short(p) for p in image}
        avail = sorted((st, n) for n, st in chks.items() if st < ref["steps"] and n in names)
        if nxt.get("from") == "input" or not avail:
            inp, start = "input.xml", 0
            # from scratch: outputs of earlier attempts are backed up
        else:
            st, n = avail[-1] if nxt.get("from") != "any" else avail[(7 * i + len(avail) // 2) % len(avail)]
            inp, start = n, st
            if n not in before or before.get(n) != cur.get(n):
                pass
    return result(scn, viol, rs)


def judge_end(scn, ref, cur, start, viol):
    """The run came to its end: final state and final checkpoints."""
    if "RESTART" not in cur:
        viol.append(("resume", "no RESTART at the end"))
        return
    try:
        st, flat = oracle.chk(cur["RESTART"], "RESTART")
    except oracle.Corrupt as e:
        viol.append(("resume", str(e)))
        return
    if st != ref["final"][0]:
        viol.append(("resume", "the final RESTART is at step %d instead of %d" % (st, ref["final"][0])))
        return
    d = oracle.chk_diff(flat, ref["final"][1], *lives.tol(scn["setup"]), lives.IGNORE)
    if d:
        viol.append(("resume", "the final state differs from that of the uninterrupted run: %s" % d))
