"""C17: dataset loading is faithful or fails, never silently partial."""
from sim import env
from sim.engine import blame_harness

CASES = {"quick": 12000, "thorough": 500000}
RULE = ("a case is one file on a simulated disk read by both readers: intact, truncated at a byte, or with a damaged row "
        "(missing, extra, blank or non-numeric cells), under random short reads and, in some reads, an I/O error at a chosen "
        "byte followed by a second attempt; the result must be what an independent parse of the bytes gives, or an error "
        "when a row does not match the header; distinct by file content and fault")
REAL = ["i_o/utils.py"]
STUB = ["disk (in-memory files with scripted short reads and errors)"]
ASSUME = ["a file cut exactly between rows, or inside the last number so that a shorter valid number remains, cannot be told "
          "from an intact one by a format without a row count or checksum"]

NUMS = ["0", "-0", "1", "-1", "0.5", "1e-3", "-2.5E+4", "12345678", "3.", ".25", "-.5", "+7", "1e300", "0.1234567890123456789"]


def gen_file(r):
    nf = r.choice([1, 1, 2, 3, 5, 9])
    labelled = r.random() < 0.5
    head = ["id"] + (["y"] if labelled else []) + ["x%d" % i for i in range(nf)]
    if r.random() < 0.2:
        head = [h + r.choice(["", "_\u4e2d", " b", "-"]) for h in head]
    rows = []
    for i in range(r.choice([0, 1, 2, 3, 5, 8, 13, 40]) if r.random() < 0.994 else r.choice([100, 129, 257, 1030])):
        row = [r.choice(["%d", "r%d", "a b%d", "\u00e9%d", "0%d"]) % i]
        if labelled:
            row.append(r.choice(["0", "1", "-1", "yes", "no", "3.5", ""]))
        for _ in range(nf):
            row.append(r.choice(NUMS) if r.random() < 0.3 else repr(round(r.gauss(0, 10), r.randint(0, 6))))
        rows.append(row)
    if rows and r.random() < 0.02:         # lines longer than any buffer
        rows = rows[:3]
        if r.random() < 0.5:
            k = r.choice([900, 1700, 9000])
            head += ["w%d" % i for i in range(k)]
            rows = [x + ["%.4f" % r.gauss(0, 1) for _ in range(k)] for x in rows]
        else:
            i = r.randrange(len(rows))
            rows[i][0] += "z" * r.choice([255, 4096, 8192, 70000])
    if rows and r.random() < 0.1:          # repeated ids are the caller's business
        rows[-1][0] = rows[0][0]
    return {"labelled": labelled, "head": head, "rows": rows, "nl": r.choice(["\n", "\n", "\n", "\r\n"]),
            "last": r.random() < 0.7}


def text_of(f):
    s = f["nl"].join(",".join(x) for x in [f["head"]] + f["rows"])
    return s + (f["nl"] if f["last"] else "")


def damage(r, f):
    rows = [x[:] for x in f["rows"]]
    if not rows:
        return f
    i = r.randrange(len(rows)) if r.random() < 0.5 else len(rows) - 1
    k = r.choice(["missing", "extra", "blank", "word", "empty_cell", "short", "merge", "comma"])
    if k == "missing":
        rows[i].pop(r.randrange(len(rows[i])))
    elif k == "extra":
        rows[i].insert(r.randrange(len(rows[i]) + 1), r.choice(NUMS))
    elif k == "blank":
        rows.insert(i + r.randint(0, 1), [""])
    elif k == "word":
        rows[i][-r.randint(1, len(f["head"]) - 1 - f["labelled"])] = r.choice(["abc", "1.2.3", "--1", "1,5", "0x10", "?"])
    elif k == "empty_cell":
        rows[i][-1] = ""
    elif k == "short":
        rows[i] = rows[i][:r.randint(1, len(rows[i]))]
    elif k == "merge" and i + 1 < len(rows):
        rows[i:i + 2] = [rows[i] + rows[i + 1]]
    else:
        rows[i].append("")
    return dict(f, rows=rows)


def generate(rng, tier):
    f = gen_file(rng)
    spec = {"file": f, "cut": None, "err": None, "chunk": rng.choice([None, 1, 2, 3, 7, 64, "random", "random"])}
    x = rng.random()
    n = len(text_of(f).encode())
    if x < 0.3:
        spec["cut"] = rng.randrange(n + 1) if rng.random() < 0.5 else max(0, n - rng.randint(0, 30))
    elif x < 0.6:
        spec["file"] = damage(rng, f)
    if rng.random() < 0.25:
        spec["err"] = rng.choice([0, n, rng.randrange(n + 1), rng.randrange(n + 1)])
    return spec


def shrink(spec):
    f = spec["file"]
    for i in range(len(f["rows"])):
        yield dict(spec, file=dict(f, rows=f["rows"][:i] + f["rows"][i + 1:]))
    for k in ("cut", "err", "chunk"):
        if spec[k] is not None:
            yield dict(spec, **{k: None})


def parse(data, labelled):
    """The independent reading of the file's bytes: a result, or None when it must be refused."""
    try:
        s = data.decode("utf-8")
    except UnicodeDecodeError:
        return None
    lines = s.replace("\r\n", "\n").replace("\r", "\n").split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    if not lines:
        return None
    head = lines[0].split(",")
    if len(head) < 1 + labelled:
        return None
    ids, labels, feats = [], [], []
    for l in lines[1:]:
        c = l.split(",")
        if len(c) != len(head):
            return None
        try:
            feats.append([float(v) for v in c[1 + labelled:]])
        except ValueError:
            return None
        ids.append(c[0])
        labels.append(c[1] if labelled else None)
    return head[1 + labelled:], ids, feats, labels if labelled else None


def no_rows(data, labelled):
    """Nothing but (part of) a header that lacks the id or label column: an empty result is as good as an error."""
    head, _, rest = data.partition(b"\n")
    return not data or not rest and b"\r" not in head and head.count(b",") < labelled


def play(node, spec, ctx, out):
    from i_o import utils
    f = spec["file"]
    data = text_of(f).encode()
    if spec["cut"] is not None:
        data = data[:spec["cut"]]
    fs = node.fs = env.SimFS()
    fs.files["/simfs/d.csv"] = bytearray(data)
    r = ctx.rng("reads")
    state = {"err": spec["err"], "fired": False}

    def plan(path, pos, n):
        if state["err"] is not None and pos + n >= state["err"]:
            if pos >= state["err"]:
                state["fired"] = True
                node.kernel.count("disk_read_error")
                raise OSError(5, "Input/output error")
            return max(1, state["err"] - pos)
        c = spec["chunk"]
        m = n if c is None else r.randint(1, max(1, n)) if c == "random" else c
        if n and m < n:
            node.kernel.count("disk_short_read")
        return m
    fs.read_plan = plan
    if spec["cut"] is not None:
        node.kernel.count("file_truncated")
    for labelled in ([True, False] if len(f["head"]) > 2 else [f["labelled"]]):
        want = parse(data, labelled)
        fn = utils.read_from_csv_with_lable if labelled else utils.read_from_csv_with_no_lable
        state.update(err=spec["err"], fired=False)
        for attempt in (0, 1):
            state["fired"] = False
            try:
                got = fn("/simfs/d.csv")
                err = None
            except Exception as e:
                got, err = None, e
            node.kernel.note("read", labelled, attempt, type(err).__name__, node.fs.stats["read"])
            if state["fired"]:
                if err is None:
                    out.append(("error_swallowed", "a read error at byte %s was swallowed, result %.300r" % (spec["err"], got)))
                    return
                ctx.stat("read_errors_reported")
                state["err"] = None
                continue
            if want is None and err is None and no_rows(data, labelled) and not any(len(x) for x in got[1:]):
                ctx.stat("no_header_and_no_rows")
                continue
            if want is None and err is None:
                out.append(("bad_file_accepted", "%s reader returned %.400r for %.300r" % (
                    "labelled" if labelled else "unlabelled", got, data.decode("utf-8", "replace"))))
                return
            if want is not None and err is not None:
                out.append(("good_file_refused", "%s: %s for %.300r" % (type(err).__name__, err,
                                                                     data.decode("utf-8", "replace"))))
                return
            if want is None:
                ctx.stat("refused")
                break
            try:
                h, ids, fe = list(got[0]), list(got[1]), [[float(v) for v in x] for x in got[2]]
                la = list(got[3]) if labelled else None
                ok = len(got) == (4 if labelled else 3)
            except Exception as e:
                out.append(("shape", "returned %.300r (%s)" % (got, e)))
                return
            if not ok or (h, ids, fe, la) != want:
                out.append(("content", "read %.500r, the file says %.500r" % ((h, ids, fe, la), want)))
                return
            ctx.stat("rows_compared", len(ids))
            break


def execute(spec, ctx):
    out = []
    t = ctx.solo("reader", spec["seed"], lambda node: play(node, spec, ctx, out))
    if t.exc is not None and not ctx.bads:
        blame_harness(t)
        ctx.bad("error:" + type(t.exc).__name__, "%s\n%s" % (t.exc, t.tb))
    for k, m in out:
        ctx.bad(k, m)
    ctx.key(spec["file"], spec["cut"], spec["err"])
    ctx.sample = "%d rows, cut at %s, error at %s, reads of %s" % (len(spec["file"]["rows"]), spec["cut"], spec["err"],
                                                                  spec["chunk"])
