"""What a deviation of the code from the specification says about a property.

A deviation is a call (or a whole recording) of which the specification
demands something else.  `tags` says in what respect it deviates; ACCEPT says
which respects contradict which property.
"""
import json

ERRPOS = {"BadFd": (1, 2), "BadIdent": (2,), "BadSubst": (2,), "Unmatched": (2,), "Incomplete": (2, 4), "Unexpected": (2,)}


def no_pos(ret):
    if ret and ret[0] == "err" and ret[1]:
        e = list(ret[1])
        for i in ERRPOS.get(e[0], ()):
            e[i] = None
        return ["err", e]
    return ret


def is_comment(v):
    return v == ["n"] or (isinstance(v, list) and len(v) == 2 and v[0] == "c" and isinstance(v[1], str))


def no_comments(v):
    if isinstance(v, list):
        return [no_comments(x) for x in v if not is_comment(x)]
    return v


def only_comments(v, out):
    if isinstance(v, list):
        if is_comment(v):
            out.append(v)
        else:
            for x in v:
                only_comments(x, out)
    return out


def call_tags(entry, want):
    """entry: a recorded call; want: the specification's version of it."""
    t = set()
    ret = entry["ret"][:2]
    ev = entry["ev"]
    if ret[0] == "panic":
        t.add("panic")
    if not want.get("prompt", True):
        t.add("prompt")
    if not want.get("shown", True):
        t.add("shown")
    if ret != want["ret"] or ev != want["ev"]:
        a, b = [ev, no_pos(ret)], [want["ev"], no_pos(want["ret"])]
        if a == b:
            t.add("errpos")
        else:
            if only_comments(a, []) != only_comments(b, []):
                t.add("comments")
            if no_comments(a) != no_comments(b):
                if a[1] != b[1] and "err" in (a[1][0], b[1][0]):
                    t.add("errkind" if a[1][0] == b[1][0] else "accept" if a[1][0] == "ok" else "reject")
                    if a[1][0] == b[1][0] and a[0] != b[0]:
                        t.add("struct")
                else:
                    t.add("struct")
            elif a != b and not (t & {"comments"}):
                t.add("comments")
    elif entry["pos"] and entry["pos"] != want["pos"]:
        near = want.get("near") or []
        t.add("blank" if entry["pos"] in near else "pos")
    return t


def whole_tags(x, want):
    t = set()
    if want["what"] == "lex":
        if want.get("panic"):
            t.add("panic")
        toks = [e[1] for e in x["lex"]]
        ws = want["want"]
        if not want["tokens"]:
            n = len(ws) - 1
            got = [k for k in toks if k[0] == "tok"]
            text = "".join(k[2] for k in got)
            wtext = "".join(k[2] for k in ws if k[0] == "tok")
            seen = [k[0] for k in toks]
            first = seen.index("none") if "none" in seen else len(seen)
            if text != wtext or any(k[2] == "" for k in got):
                t.add("lossy")
            if "none" not in seen or any(k != "none" for k in seen[first:]):
                t.add("notfused")
            if [k[1:3] for k in got] != [k[1:3] for k in ws if k[0] == "tok"]:
                t.add("tokens")
            if [k[3:] for k in got] != [k[3:] for k in ws if k[0] == "tok"]:
                t.add("display")
        if not want["hint"]:
            t.add("hint")
        if not want["prompt"]:
            t.add("lexprompt")
    elif want["what"] == "after":
        t.add("panic" if want["ends"] else "endless")
    elif want["what"] == "default":
        for k in ("ast", "same", "empty"):
            if not want[k]:
                t.add(k)
    else:
        t.add("misc:" + want["kind"])
    return t


STRUCT = {"struct", "accept", "reject", "errkind", "panic"}
ACCEPT = {
    "C01": {"panic", "lossy", "notfused", "hint", "lexprompt"},
    "C02": {"panic", "tokens", "display", "misc:tok", "misc:num"},
    "C03": {"panic", "hang", "abort", "endless"},
    "C04": set(),           # decided on pairs of recordings
    "C05": {"errpos", "pos", "posbad", "misc:adv"},
    "C06": STRUCT | {"errpos"},
    "C07": STRUCT | {"comments"},
    "C08": {"comments", "panic"},
    "C09": set(),           # decided on pairs of recordings
    "C10": STRUCT, "C11": STRUCT, "C12": STRUCT, "C13": STRUCT,
    "C14": STRUCT | {"pos", "errpos"},
    "C15": STRUCT, "C16": STRUCT,
    "C17": STRUCT | {"errpos", "comments"},
    "C18": STRUCT,
    "C19": {"ast", "same", "empty", "misc:bword", "panic"},
    "C20": {"shown", "misc:param", "misc:tok", "misc:num", "misc:err"},
    "C21": {"prompt"},
    "C22": STRUCT | {"errpos", "pos", "blank", "comments"},
}


# --- monitors on the recordings themselves --------------------------------

BYTES = {}


def nbytes(c):
    if len(c) > 1:
        if c not in BYTES:
            BYTES[c] = len(chr(int(c[3:-1], 16)).encode())
        return BYTES[c]
    return 1


def positions_true(x):
    """Every reported position is a true one, and designates its token's text."""
    cs = x["cs"]
    at, b, line, col = {}, 0, 1, 1
    offs = {}
    for i, c in enumerate(cs):
        at[b] = (line, col)
        offs[b] = i
        b += nbytes(c)
        if c == "\n":
            line, col = line + 1, 1
        else:
            col += nbytes(c)
    at[b] = (line, col)
    offs[b] = len(cs)

    def true(p):
        return at.get(p[0]) == (p[1], p[2])

    def text(p, t):
        return true(p) and "".join(cs[offs[p[0]]:]).startswith(t)

    for n, e in enumerate(x["out"]):
        if e["pos"] and not true(e["pos"]):
            return n
        r = e["ret"]
        if r[0] == "err":
            k = r[1]
            ok = (all(true(k[i]) for i in ERRPOS.get(k[0], ()))
                  and (k[0] not in ("BadSubst", "Unmatched", "Unexpected") or text(k[2], k[1][1]))
                  and (k[0] != "BadIdent" or text(k[2], k[1]))
                  and (k[0] != "Incomplete" or text(k[2], k[1])))
            if not ok:
                return n
    return None


def endless(x):
    """More commands than tokens, or a call that never comes to an end."""
    cmds = sum(1 for e in x["out"] if e["op"][0] in ("complete_command", "next") and e["ret"][0] == "ok" and e["ret"][1])
    toks = len(x["toks"]) if "toks" in x else len(x["cs"])
    return cmds > toks


def results(x):
    """The results of the calls or steps of a recording, without what is internal."""
    return [(e["ev"], e["ret"]) for e in x["out"][1:]]


def iterates_like_calls(it, calls):
    """C04: iteration yields what repeated complete_command gives, once, then None for ever, doing nothing."""
    got, want = results(it), results(calls)
    ops = [e["op"][0] for e in it["out"][1:]]
    k = ops.index("next") if "next" in ops else len(ops)
    if got[:k] != want[:k]:
        return False
    for i in range(k, len(want)):
        if want[i][1][0] != "ok" or not want[i][1][1]:
            want = want[:i + 1]
            break
    n = min(len(got), len(want))
    if got[:n] != want[:n]:
        return False
    over = False
    tp = cp = 0
    for e in it["out"][1 + k:]:
        if over and (e["ret"] != ["ok", []] or e["ev"] or e["tp"] != tp or e["cp"] != cp):
            return False
        if e["ret"][0] != "ok" or not e["ret"][1]:
            over = True
        tp, cp = e["tp"], e["cp"]
    return True


def aborts_like(failing, free, k):
    """C09: the failing recording is the free one up to call k, which returns exactly its error."""
    a = [(e["op"], e["ev"], e["ret"]) for e in failing["out"]]
    b = [(e["op"], e["ev"], e["ret"]) for e in free["out"]]
    seen = 0
    for i, (op, ev, ret) in enumerate(a):
        custom = ret[0] == "err" and ret[1][0] == "Custom"
        if seen + len(ev) < k:
            if custom or i >= len(b) or b[i] != (op, ev, ret):
                return False
            seen += len(ev)
            continue
        # this call contains builder call k
        if i >= len(b) or seen + len(ev) != k or ev != b[i][1][:len(ev)]:
            return False
        if ret[0] != "err" or ret[1] != ["Custom", k] or ret[2] != "custom error %d" % k or ret[3] != ret[2]:
            return False
        # afterwards only an iterator goes on, and yields nothing
        return all(o[0] == "next" and r == ["ok", []] and not v for o, v, r in a[i + 1:])
    return len(a) == len(b)
