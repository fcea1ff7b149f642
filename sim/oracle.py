"""Reading i-PI's output files and comparing them with a reference run."""

import re
import xml.etree.ElementTree as ET


class Corrupt(Exception):
    pass


def props(data, name):
    """Returns (header lines, [(step, values)])."""
    text = data.decode("utf-8", "replace")
    head, rows = [], []
    lines = text.split("\n")
    if lines and lines[-1] != "":
        raise Corrupt("%s does not end with a newline: %r" % (name, lines[-1][:60]))
    ncol = None
    for ln in lines[:-1]:
        if ln.startswith("#"):
            if rows:
                raise Corrupt("%s: header repeated after data" % name)
            head.append(ln)
            continue
        try:
            v = [float(x) for x in ln.split()]
        except ValueError:
            raise Corrupt("%s: unreadable line %r" % (name, ln[:80]))
        if ncol is None:
            ncol = len(v)
        if len(v) != ncol or not v:
            raise Corrupt("%s: line with %d instead of %d columns: %r" % (name, len(v), ncol, ln[:80]))
        rows.append((int(round(v[0])), v))
    return head, rows


_step = re.compile(r"Step:\s+(\d+)\s+Bead:\s+(\d+)")


def xyz(data, name):
    """Returns [(step, [symbols], [numbers])] of an xyz trajectory."""
    text = data.decode("utf-8", "replace")
    if text and not text.endswith("\n"):
        raise Corrupt("%s ends in the middle of a line" % name)
    lines = text.split("\n")[:-1]
    out = []
    i = 0
    while i < len(lines):
        try:
            n = int(lines[i])
        except ValueError:
            raise Corrupt("%s: expected an atom count, found %r" % (name, lines[i][:80]))
        if i + 2 + n > len(lines):
            raise Corrupt("%s ends in the middle of a frame" % name)
        m = _step.search(lines[i + 1])
        if not m:
            raise Corrupt("%s: bad comment line %r" % (name, lines[i + 1][:120]))
        cell = [float(x) for x in lines[i + 1].split(":")[1].split()[:6]]
        sym, val = [], list(cell)
        for ln in lines[i + 2 : i + 2 + n]:
            p = ln.split()
            if len(p) != 4:
                raise Corrupt("%s: bad atom line %r" % (name, ln[:80]))
            sym.append(p[0])
            try:
                val += [float(x) for x in p[1:]]
            except ValueError:
                raise Corrupt("%s: bad atom line %r" % (name, ln[:80]))
        out.append((int(m.group(1)), sym, val))
        i += 2 + n
    return out


def close(a, b, rtol, atol):
    if a == b:
        return True
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def differ(a, b, rtol, atol):
    """First differing position, or None."""
    if len(a) != len(b):
        return "length %d / %d" % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return "entry %d: %r / %r" % (i, x, y)
        elif not close(x, y, rtol, atol):
            return "entry %d: %.9g / %.9g" % (i, x, y)
    return None


SKIP = {"output", "total_steps", "total_time"}


def chk(data, name):
    """Flattens a checkpoint: (step, [(path, [tokens])])."""
    try:
        root = ET.fromstring(data.decode("utf-8"))
    except (ET.ParseError, UnicodeDecodeError) as e:
        raise Corrupt("%s is not a complete checkpoint: %s" % (name, e))
    if root.tag != "simulation":
        raise Corrupt("%s has no simulation" % name)
    out = []

    def walk(node, path):
        cnt = {}
        for a in sorted(node.attrib):
            if path == "":
                continue
            out.append((path + "@" + a, [node.attrib[a].strip()]))
        text = (node.text or "").strip()
        if text:
            out.append((path, tokens(text)))
        for ch in node:
            if path == "" and ch.tag in SKIP:
                continue
            i = cnt[ch.tag] = cnt.get(ch.tag, -1) + 1
            walk(ch, "%s/%s%s" % (path, ch.tag, "[%d]" % i if i else ""))

    walk(root, "")
    st = root.find("step")
    step = int(st.text) if st is not None else 0
    out = [(p, t) for p, t in out if not p.startswith("/step")]
    return step, out


_tok = re.compile(r"[\[\]\(\){},:\s]+")


def tokens(text):
    out = []
    for t in _tok.split(text):
        if not t:
            continue
        try:
            out.append(float(t))
        except ValueError:
            out.append(t)
    return out


def chk_diff(a, b, rtol, atol, skip=()):
    """First difference of two flattened checkpoints, or None."""
    da, db = dict(a), dict(b)
    for p in da:
        if any(s in p for s in skip):
            continue
        if p not in db:
            return "%s only in the first (%r)" % (p, da[p][:4])
        at = atol
        if rtol >= 1e-3 and "prng" not in p:
            # iterative searches amplify the rounding of the checkpoints: small elements
            # of a matrix are compared on the scale of the whole
            at = max([atol] + [1e-2 * rtol * abs(x) for x in db[p] if isinstance(x, float)])
        d = differ(da[p], db[p], rtol, at)
        if d:
            return "%s: %s" % (p, d)
    for p in db:
        if p not in da and not any(s in p for s in skip):
            return "%s only in the second (%r)" % (p, db[p][:4])
    return None
