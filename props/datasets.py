"""C27: files and cached downloads are read as they were written.  C28: generators and descriptions of datasets."""
import contextlib
import csv
import datetime as dt
import email.message
import gzip
import http.client
import io
import locale
import math
import os
import shutil
import tempfile
import urllib.error
import urllib.request
import urllib.response

import networkx as nx
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vk.core import close, raises, require, same, sub, sut

from skmine.datasets import fimi, make_classification, make_transactions, periodic
from skmine.datasets import get_data_home
from skmine.datasets.utils import describe, describe_logs
from skmine.graph.graphmdl.utils import get_graph_from_file

UTF8 = "utf" in locale.getpreferredencoding(False).lower()
WIDE = "é" if UTF8 else "e"


@contextlib.contextmanager
def scratch():
    """A directory of its own, the working directory inside it (wget leaves its temporary files there)."""
    d = tempfile.mkdtemp(prefix="vk_ds_")
    old = os.getcwd()
    try:
        os.makedirs(d + "/cwd")
        os.chdir(d + "/cwd")
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


class Remote:
    """Stands in for every server: urllib.request.urlopen, which pandas, urlretrieve and wget all go through.
    faults: list of None / "refused" / "cut", one per connection, none left means no fault."""

    def __init__(self, files, faults=()):
        self.files, self.faults, self.asked = files, list(faults), []

    def __enter__(self):
        self.old = urllib.request.urlopen
        urllib.request.urlopen = self.open
        self.out = contextlib.redirect_stdout(io.StringIO())
        self.out.__enter__()
        return self

    def __exit__(self, *a):
        urllib.request.urlopen = self.old
        self.out.__exit__(*a)

    def open(self, req, *a, **k):
        url = req if isinstance(req, str) else req.full_url
        self.asked.append(url)
        f = self.faults.pop(0) if self.faults else None
        if f == "refused":
            raise urllib.error.URLError("refused")
        data = next((v for k, v in self.files.items() if url.endswith(k)), None)
        if data is None:
            raise urllib.error.HTTPError(url, 404, "not found", None, None)
        h = email.message.Message()
        h["Content-Length"] = str(len(data))
        body = io.BytesIO(data)
        if f == "cut":
            body = Cut(data)
        return urllib.response.addinfourl(body, h, url, 200)


class Cut(io.BytesIO):
    """The connection is lost half way."""

    def __init__(self, data):
        super().__init__(data[:len(data) // 2])

    def read(self, n=-1):
        r = super().read(n)
        if not r or n is None or n < 0:
            raise http.client.IncompleteRead(r)
        return r


def seq(s):
    return [list(t) for t in s]


# ------------------------------------------------------------------ C27 transactions
INTS = st.one_of(st.integers(0, 30), st.integers(-10 ** 9, 10 ** 12))
WORD = st.text("abXY01._-:#'\"NA" + WIDE, min_size=1, max_size=5)
SEPS = [" ", ",", ";", "\t", "|", "<>"]


@st.composite
def fimi_case(draw):
    ints = draw(st.booleans())
    sep = draw(st.sampled_from(SEPS))
    item = INTS if ints else WORD
    if not ints and sep not in (" ", "\t"):
        item = st.one_of(WORD, st.text("ab c", min_size=1, max_size=5).map(lambda s: "x" + s + "x"), st.text("ab ", max_size=3).map(lambda s: s + "x"))
    rows = draw(st.lists(st.lists(item, max_size=5), max_size=8))
    if draw(st.integers(0, 30)) == 0:
        rows = rows * draw(st.sampled_from([50, 400, 2000]))
    return {"int": ints, "sep": sep, "rows": rows, "trail": draw(st.lists(st.sampled_from(["", " ", "\t", "  "]), min_size=min(len(rows), 8), max_size=8)),
            "eol": draw(st.sampled_from(["\n", "\r\n"])), "last": draw(st.booleans()), "name": draw(st.sampled_from(["d.dat", "d.e.dat", "noext", "a b.txt"]))}


def text_of(case):
    lines = [case["sep"].join(map(str, r)) + case["trail"][i % len(case["trail"])] for i, r in enumerate(case["rows"])]
    s = case["eol"].join(lines)
    # a file whose last line is an empty transaction needs its end of line
    return s + (case["eol"] if lines and (case["last"] or not lines[-1]) else "")


@sub("C27", "transactions", fimi_case, quick=5000, thorough=40000)
def c_fimi(case):
    sep = case["sep"]
    rows = [[x.replace(sep, "_") if isinstance(x, str) else x for x in r] for r in case["rows"]]
    case = dict(case, rows=rows)
    with scratch() as d:
        p = os.path.join(d, case["name"])
        with open(p, "w", newline="") as fh:
            fh.write(text_of(case))
        before = open(p, "rb").read()
        with sut("fetch_file"):
            s = fimi.fetch_file(p, separator=sep, int_values=case["int"])
            got = seq(s)
        same(got, rows, "transactions")
        require(all(type(x) is (int if case["int"] else str) for t in got for x in t), "types of the items", got)
        same(s.name, os.path.splitext(case["name"])[0], "name")
        same(list(s.index), list(range(len(rows))), "index")
        same(open(p, "rb").read(), before, "content of the file afterwards")
        if case["int"]:
            with gzip.open(p + ".gz", "wt", newline="") as fh:
                fh.write(text_of(case))
            with sut("_read_dat(zip)"):
                got = seq(fimi._read_dat(p + ".gz", separator=sep, zip=True))
            same(got, rows, "transactions of the zipped file")
    return len(rows) >= 2 and len({len(r) for r in rows}) > 1, ["int" if case["int"] else "text", "sep:" + repr(sep)]


@st.composite
def big_file_case(draw):
    return {"seed": draw(st.integers(0, 2 ** 30)), "n": draw(st.integers(12000, 40000)), "long": draw(st.booleans()), "bad": draw(st.integers(1, 4000))}


@sub("C27", "big-files", big_file_case, quick=16, thorough=120, rule="every case")
def c_big(case):
    """Files of megabytes; and a file that is not text raises."""
    rnd = np.random.RandomState(case["seed"])
    rows = [list(map(int, rnd.randint(0, 10 ** 6, size=k))) for k in rnd.randint(0, 12, size=case["n"])]
    if case["long"]:
        rows[len(rows) // 2] = list(map(int, rnd.randint(0, 10 ** 6, size=100000)))
    text = "".join(" ".join(map(str, r)) + "\n" for r in rows)
    ts, ev = [int(x) for x in rnd.randint(0, 2 ** 40, size=len(rows))], ["e%d" % x for x in rnd.randint(0, 500, size=len(rows))]
    with scratch() as d:
        for name, raw in (("a.dat", text.encode()), ("a.gz", gzip.compress(text.encode(), 1)), ("l.csv", "".join("%d,%s\n" % x for x in zip(ts, ev)).encode()),
                          ("bin.dat", b"1 2\n" * case["bad"] + b"\xff\xfe\x00\x80 3\n")):
            with open(os.path.join(d, name), "wb") as fh:
                fh.write(raw)
        with sut("fetch_file"):
            a, s, b = fimi.fetch_file(d + "/a.dat", int_values=True), fimi.fetch_file(d + "/a.dat"), fimi._read_dat(d + "/a.gz", zip=True)
            l = periodic.fetch_file(d + "/l.csv")
        require(seq(a) == rows, "transactions", len(a), len(rows))
        require(seq(s) == [list(map(str, r)) for r in rows], "transactions as text", len(s), len(rows))
        require(seq(b) == rows, "transactions of the zipped file", len(b), len(rows))
        require(list(l) == ev and [int(x) for x in l.index] == ts, "events", len(l), len(ev))
        if UTF8:
            with contextlib.redirect_stdout(io.StringIO()):
                raises(Exception, lambda: fimi.fetch_file(d + "/bin.dat"), "fetch_file of a file that is not text")
    return True, []


FETCH = {"chess": "chess.dat", "connect": "connect.dat", "mushroom": "mushroom.dat", "pumsb": "pumsb.dat", "pumsb_star": "pumsb_star.dat", "kosarak": "kosarak.dat",
         "retail": "retail.dat", "accidents": "accidents.dat", "iris": "iris.D19.N150.C3.num.gz", "breast": "breast.D20.N699.C2.num", "tictactoe": "ticTacToe.D29.N958.C2.num"}
CLASS = {"mushroom": "first", "iris": "last", "breast": "last", "tictactoe": "last"}


@st.composite
def cache_case(draw):
    which = draw(st.lists(st.sampled_from(sorted(FETCH)), min_size=1, max_size=2, unique=True))
    data = {}
    for w in which:
        rows = draw(st.lists(st.lists(st.integers(1, 40), min_size=1, max_size=5), min_size=1, max_size=6))
        if w == "mushroom":
            rows = [[draw(st.integers(1, 2))] + r for r in rows]
        if draw(st.integers(0, 30)) == 0:
            rows = rows * draw(st.sampled_from([30, 400]))
        data[w] = rows
    ops = draw(st.lists(st.tuples(st.sampled_from(which), st.sampled_from(["arg", "arg", "env", "new", "sub", "copy"]), st.booleans(), st.sampled_from([None, None, None, "refused", "cut"])),
                        min_size=2, max_size=6))
    return {"data": data, "ops": ops, "trail": draw(st.booleans())}


@sub("C27", "fetched-datasets", cache_case, quick=2400, thorough=12000)
def c_cache(case):
    files = {}
    for w, rows in case["data"].items():
        t = "".join(" ".join(map(str, r)) + (" " if case["trail"] else "") + "\n" for r in rows).encode()
        files["/" + FETCH[w]] = gzip.compress(t) if w in ("iris", "breast", "tictactoe") else t
    hit = fault = False
    env = os.environ.get("SCIKIT_MINE_DATA")
    with scratch() as d:
        have = set()
        homes = {"arg": d + "/home", "env": d + "/env home", "new": d + "/a/b/new", "sub": d + "/home/inner", "copy": d + "/env home/home: 2"}
        try:
            os.environ["SCIKIT_MINE_DATA"] = homes["env"]
            for w, home, y, f in case["ops"]:
                fn = getattr(fimi, "fetch_" + w)
                kw = {} if home == "env" else {"data_home": homes[home]}
                if w in CLASS and y:
                    kw["return_y"] = True
                with Remote(files, [f]) as r:
                    if f and (w, home) not in have:
                        fault = True
                        try:
                            fn(**kw)
                        except Exception:
                            pass
                        else:
                            require(False, "a download that failed (%s) raised nothing" % f)
                    with sut("fetch_" + w):
                        got = fn(**kw)
                n = len(r.asked) - (1 if f and (w, home) not in have else 0)
                same(n, 0 if (w, home) in have else 1, "downloads of %s (fetched before: %s)" % (w, (w, home) in have))
                require(all(u.endswith("/" + FETCH[w]) for u in r.asked), "asked for", r.asked)
                hit |= (w, home) in have
                have.add((w, home))
                require(os.path.exists(os.path.join(homes[home], FETCH[w])), "kept in the data home", w)
                rows = case["data"][w]
                if "return_y" in kw:
                    X, lab = got
                    if CLASS[w] == "first":
                        same(list(lab), [r[0] if r[0] == 1 else 0 for r in rows], "labels")
                        same(seq(X), [r[1:] for r in rows], "transactions without their label")
                    else:
                        same(list(lab), [r[-1] for r in rows], "labels")
                        same(seq(X), [r[:-1] for r in rows], "transactions without their label")
                    require(list(X.index) == list(lab.index), "index of data and labels")
                else:
                    same(seq(got), rows, "transactions")
                    same(got.name, os.path.splitext(FETCH[w])[0], "name")
        finally:
            os.environ.pop("SCIKIT_MINE_DATA", None)
            if env is not None:
                os.environ["SCIKIT_MINE_DATA"] = env
    return hit, ["fault"] if fault else []


# ------------------------------------------------------------------ C27 logs
EVENT = st.one_of(st.sampled_from(["NA", "null", "nan", "None", "1", "2020", "1.0", "True", "a b", "x,y", 'say "hi"', "a;b", "p|q", "it's", "2020-01-01", "#c", "-"]),
                  st.text("abcXYZ .,;|\"'-_0129" + WIDE, min_size=1, max_size=8).map(lambda s: s.lstrip() or "e"))


@st.composite
def log_case(draw):
    n = draw(st.integers(1, 8))
    kind = draw(st.sampled_from(["int", "int", "year", "date", "format", "micro", "none", "none"]))
    if kind == "int":
        t = draw(st.lists(st.one_of(st.integers(-5, 200), st.integers(-10 ** 12, 10 ** 15), st.integers(2 ** 53, 2 ** 63 - 1), st.integers(-2 ** 63, -2 ** 53)), min_size=n, max_size=n))
    elif kind == "year":
        t = draw(st.lists(st.one_of(st.integers(1900, 2100), st.integers(19000101, 21001231)), min_size=n, max_size=n))
    else:
        some = draw(st.lists(st.integers(0, 2 ** 31), min_size=1, max_size=4))
        t = draw(st.lists(st.one_of(st.sampled_from(some), st.integers(0, 2 ** 31)), min_size=n, max_size=n))
    return {"kind": kind, "t": t, "e": draw(st.lists(EVENT, min_size=n, max_size=n)), "sep": draw(st.sampled_from([",", ",", ";", "\t", "|"])),
            "times": draw(st.sampled_from([1] * 30 + [40, 300])), "fmt": draw(st.sampled_from(["%d/%m/%Y %H:%M:%S", "%m/%d/%Y %H:%M:%S", "%Y%m%d-%H:%M:%S", "%H:%M:%S %d.%m.%y"])), "last": draw(st.booleans()), "spaces": draw(st.booleans()),
            "blank": draw(st.sampled_from([0, 0, 0, 1, 2])), "file": draw(st.sampled_from(["logs.csv", "a b.txt", "x/y.z.csv"]))}


def day(x):
    return dt.datetime(1980, 1, 1) + dt.timedelta(seconds=x)


@sub("C27", "logs", log_case, quick=6000, thorough=40000)
def c_log(case):
    k, sep = case["kind"], case["sep"]
    ev, case = case["e"] * case["times"], dict(case, t=case["t"] * case["times"])
    if k == "none":
        stamps, want = None, list(range(len(ev)))
    elif k in ("int", "year"):
        stamps, want = [str(x) for x in case["t"]], case["t"]
    elif k == "date":
        want = [day(x) for x in case["t"]]
        stamps = [x.strftime("%Y-%m-%d %H:%M:%S") for x in want]
    elif k == "micro":
        want = [day(x).replace(microsecond=x % 1000000) for x in case["t"]]
        stamps = [x.strftime("%Y-%m-%dT%H:%M:%S.%f") for x in want]
    else:
        want = [day(x) for x in case["t"]]
        stamps = [x.strftime(case["fmt"]) for x in want]
    buf = io.StringIO()
    w = csv.writer(buf, delimiter=sep, lineterminator="\n")
    sp = " " if case["spaces"] and sep != "\t" else ""
    for i, e in enumerate(ev):
        if case["blank"] and i % (case["blank"] + 1) == 0:
            buf.write("\n")  # empty lines are no records
        if stamps is None:
            w.writerow([e])
        else:
            # spaces after the separator are skipped, also before a quote
            b2 = io.StringIO()
            csv.writer(b2, delimiter=sep, lineterminator="\n").writerow([e])
            buf.write(stamps[i] + sep + sp + b2.getvalue())
    text = buf.getvalue()
    if not case["last"]:
        text = text[:-1]
    with scratch() as d:
        p = os.path.join(d, case["file"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", newline="", encoding="utf-8") as fh:
            fh.write(text)
        with sut("fetch_file"):
            s = periodic.fetch_file(p, separator=sep, **({"format": case["fmt"]} if k == "format" else {}))
            got, idx = list(s), list(s.index)
    same(got, ev, "events")
    require(all(type(e) is str for e in got), "types of the events", got)
    if k in ("none", "int", "year"):
        require(all(isinstance(x, (int, np.integer)) for x in idx), "types of the timestamps", idx)
        same([int(x) for x in idx], want, "timestamps")
    else:
        require(isinstance(s.index, pd.DatetimeIndex), "type of the timestamps", type(s.index))
        same([x.to_pydatetime() for x in idx], want, "timestamps")
    same(s.index.name, "timestamp", "name of the index")
    same(s.name, p, "name")
    return len(set(ev)) > 1, ["kind:" + k]


@st.composite
def app_case(draw):
    n = draw(st.integers(1, 8))
    ev = st.one_of(st.sampled_from(["Step_LSC", "Step, ok", "a 'b'", "The Moblees", "1", "2020"]), st.text("abXY _.,-12" + WIDE, min_size=1, max_size=8).map(lambda s: s.strip() or "e"))
    return {"which": draw(st.sampled_from(["health", "tv"])), "t": draw(st.lists(st.integers(0, 2 ** 31), min_size=n, max_size=n)), "e": draw(st.lists(ev, min_size=n, max_size=n)),
            "more": draw(st.lists(st.text("ab |,", max_size=6), min_size=n, max_size=n)),
            "faults": draw(st.lists(st.sampled_from([None, "refused", "cut"]), max_size=2)), "again": draw(st.integers(1, 2)), "file": draw(st.sampled_from([None, "mine.txt"]))}


@sub("C27", "fetched-logs", app_case, quick=700, thorough=10000)
def c_apps(case):
    times = [day(x) for x in case["t"]]
    health = case["which"] == "health"
    if health:
        times = [t.replace(microsecond=x % 1000 * 1000) for t, x in zip(times, case["t"])]
        lines = [t.strftime("%Y%m%d-%H:%M:%S:") + "%03d" % (t.microsecond // 1000) + "|" + e + "|30002312|" + m.replace("|", "/") for t, e, m in zip(times, case["e"], case["more"])]
        data = "".join(x + "\n" for x in lines).encode()
    else:
        b = io.StringIO()
        w = csv.writer(b, lineterminator="\n")
        for t, e in zip(times, case["e"]):
            w.writerow([t.strftime("%Y-%m-%d %H:%M:%S"), e])
        data = b.getvalue().encode()
    fn = periodic.fetch_health_app if health else periodic.fetch_canadian_tv
    with scratch() as d:
        kw = {"data_home": d + "/home"}
        if case["file"]:
            kw["filename"] = case["file"]
        for f in case["faults"]:
            if f is None:
                continue
            with Remote({"": data}, [f, f, f]):
                try:
                    fn(**kw)
                except Exception:
                    pass
                else:
                    require(False, "a download that failed (%s) raised nothing" % f)
        for k in range(1 + case["again"]):
            with Remote({"": data}) as r:
                with sut("fetch %s" % case["which"]):
                    s = fn(**kw)
            same(len(r.asked), 0 if k else 1, "downloads at fetch %d" % (k + 1))
            same(list(map(str, s)), case["e"], "events at fetch %d" % (k + 1))
            require(isinstance(s.index, pd.DatetimeIndex), "type of the timestamps", type(s.index))
            same([x.to_pydatetime() for x in s.index], times, "timestamps at fetch %d" % (k + 1))
            same(s.index.name, "timestamp", "name of the index")
    return len(set(case["e"])) > 1, [case["which"]]


# ------------------------------------------------------------------ C27 ubiq
@st.composite
def ubiq_case(draw):
    users = draw(st.lists(st.sampled_from(["1_M", "25_F", "10_M"]), min_size=1, max_size=2, unique=True))
    n = draw(st.integers(1, 14))
    recs = []
    for _ in range(n):
        recs.append([draw(st.sampled_from(users)), draw(st.sampled_from(["com.a", "b.c_d", "e", "f_I"])), draw(st.one_of(st.integers(0, 100), st.integers(0, 10 ** 6), st.integers(0, 10 ** 8))),
                     draw(st.sampled_from([0, 1, 59, 60, 61, 600, 5000, 100000]))])
    times = draw(st.sampled_from([1, 1, 1, 1, 12]))
    recs = [[u, p, a + 7 * i, b] for i in range(times) for u, p, a, b in recs]
    return {"recs": recs, "min": draw(st.integers(0, 3)) if times == 1 else draw(st.sampled_from([None, 10, 12, 24])), "noise": draw(st.lists(st.sampled_from(["x", "UbiqLog4UCI/1_M/log_1.txt:{\"Wifi\":{}}", ""]), max_size=2)),
            "bad": draw(st.sampled_from([None, None, None, users[0]]))}


@sub("C27", "ubiq", ubiq_case, quick=1800, thorough=12000)
def c_ubiq(case):
    t0 = dt.datetime(2013, 11, 29, 8, 15, 57)
    lines = []
    for u, p, a, b in case["recs"]:
        s, e = t0 + dt.timedelta(seconds=a), t0 + dt.timedelta(seconds=a + b)
        lines.append('UbiqLog4UCI/%s/log_11-29-2013.txt:{"Application":{"ProcessName":"%s","Start":"%s","End":"%s"}}' % (u, p, s.strftime("%m-%d-%Y %H:%M:%S"), e.strftime("%m-%d-%Y %H:%M:%S")))
    lines[1:1] = case["noise"]
    if case["bad"]:
        lines.append('UbiqLog4UCI/%s/log_11-29-2013.txt:{"Application":{"ProcessName":"z","Start":"no","End":"date"}}' % case["bad"])
    m, nt = case["min"], False
    with scratch() as d:
        with open(d + "/all.txt", "w") as fh:
            fh.write("".join(x + "\n" for x in lines))
        out = d + "/home/UbiqLog/users_ubiq"
        os.makedirs(out)
        with sut("parse_all_user"), contextlib.redirect_stdout(io.StringIO()):
            if m is None:
                periodic.parse_all_user(d + "/all.txt", out)
                m = 10
            else:
                periodic.parse_all_user(d + "/all.txt", out, min_occ=m)
        files = set(os.listdir(out))
        want = set()
        for u in {r[0] for r in case["recs"]}:
            evs = []
            for v, p, a, b in case["recs"]:
                if v == u:
                    evs += [(a, p + "_I")] if b < 60 else [(a, p + "_S"), (a + b, p + "_E")]
            cnt = {}
            for _, e in evs:
                cnt[e] = cnt.get(e, 0) + 1
            evs = sorted(x for x in evs if cnt[x[1]] > m)
            if u == case["bad"] or len(evs) <= m:
                continue
            want |= {u + "_ISE_data.dat", u + "_IS_data.dat"}
            start = t0 + dt.timedelta(seconds=evs[0][0])
            require(want <= files, "files written", sorted(files), sorted(want))
            ise = [x for i, x in enumerate(evs) if i == 0 or evs[i - 1] != x]
            isv = []
            for a, e in evs:
                if e[-1] in "IS":
                    x = (a, e[:-2])
                    if not isv or isv[-1] != x:
                        isv.append(x)
            for kind in ("ISE", "IS"):
                name = "%s_%s_data.dat" % (u, kind)
                if kind == "IS" and not isv:
                    continue
                with sut("read_ubiq_user"):
                    s, user, st_ = periodic.read_ubiq_user(os.path.join(out, name))
                    with contextlib.redirect_stdout(io.StringIO()):
                        s2 = periodic.fetch_ubiq(name, data_home=d + "/home")
                same(user, u, "user")
                same(st_, start, "start time")
                for x in (s, s2):
                    if kind == "ISE":
                        same([pd.Timestamp(i).to_pydatetime() for i in x.index], [t0 + dt.timedelta(seconds=a) for a, _ in ise], "timestamps of ISE")
                        same(list(x), [e for _, e in ise], "events of ISE")
                    else:
                        same(list(x.index), list(range(1, len(isv) + 1)), "positions of IS")
                        same(list(x), [e for _, e in isv], "events of IS")
                nt |= len(x) > 2
        same(sorted(files), sorted(want), "files written")
        raises(FileNotFoundError, lambda: periodic.fetch_ubiq("99_F_ISE_data.dat", data_home=d + "/home"), "fetch_ubiq of an unknown user")
    return nt, ["bad"] if case["bad"] else []


@st.composite
def user_case(draw):
    n = draw(st.one_of(st.integers(1, 8), st.integers(1, 60)))
    return {"user": draw(st.sampled_from(["1_M", "25_F"])), "t": draw(st.lists(st.one_of(st.integers(0, 4), st.integers(0, 10 ** 7)), min_size=n, max_size=n)),
            "e": draw(st.lists(st.sampled_from(["com.a", "b.c_d", "e", "com.a b"]), min_size=n, max_size=n)), "start": draw(st.integers(0, 2 ** 30))}


@sub("C27", "ubiq-users", user_case, quick=500, thorough=5000, rule="two records are equal")
def c_user(case):
    start = day(case["start"])
    recs = list(zip(case["t"], case["e"]))
    with scratch() as d:
        for kind in ("ISE", "IS"):
            p = "%s/%s_%s_data.dat" % (d, case["user"], kind)
            with open(p, "w") as fh:
                fh.write("### user=%s\tstart_time=%s\n" % (case["user"], start) + "".join("%d\t%s\n" % r for r in recs))
            with sut("read_ubiq_user"):
                s, user, st_ = periodic.read_ubiq_user(p)
            same((user, st_), (case["user"], start), "user and start time")
            same(list(s), [e for _, e in recs], "events")
            if kind == "ISE":
                same([pd.Timestamp(i).to_pydatetime() for i in s.index], [start + dt.timedelta(seconds=a) for a, _ in recs], "timestamps")
            else:
                same(list(s.index), list(range(1, len(recs) + 1)), "positions")
    return len(set(recs)) < len(recs), []


# ------------------------------------------------------------------ C27 data home, graph files
@st.composite
def home_case(draw):
    return {"arg": draw(st.sampled_from([None, None, None, "abs", "rel", "deep", "exists", "user", "here", "dollar"])), "env": draw(st.sampled_from([None, "env", "env/deep", "env:1/a b", "~user", "env$VK_WORD"]))}


@sub("C27", "data-home", home_case, quick=400, thorough=600)
def c_home(case):
    env, old = os.environ.get("SCIKIT_MINE_DATA"), os.environ.get("HOME")
    with scratch() as d:
        try:
            os.environ["HOME"] = d + "/me"
            os.environ["VK_WORD"] = "word"
            os.environ.pop("SCIKIT_MINE_DATA", None)
            if case["arg"] is None and case["env"] is None:
                return False, ()  # the default is beside the package
            if case["env"]:
                os.environ["SCIKIT_MINE_DATA"] = "~/data" if case["env"] == "~user" else d + "/" + case["env"]
            arg = {None: None, "abs": d + "/abs", "rel": "rel", "deep": d + "/x/y/z", "exists": d + "/cwd", "user": "~/x y", "here": ".", "dollar": d + "/a$VK_WORD"}[case["arg"]]
            want = {"user": d + "/me/x y"}.get(case["arg"], arg) or (d + "/me/data" if case["env"] == "~user" else d + "/" + case["env"])
            for _ in range(2):
                with sut("get_data_home"):
                    h = get_data_home() if arg is None else get_data_home(arg)
                same(os.path.realpath(h), os.path.realpath(want), "data home")
                require(os.path.isdir(h), "the data home exists")
        finally:
            os.environ.pop("SCIKIT_MINE_DATA", None)
            os.environ.pop("HOME", None)
            os.environ.pop("VK_WORD", None)
            if old is not None:
                os.environ["HOME"] = old
            if env is not None:
                os.environ["SCIKIT_MINE_DATA"] = env
    return True, ()


@st.composite
def gfile_case(draw):
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(1, 6), st.integers(7, 60)))
    lab = st.text("abAB12_-:" + WIDE, min_size=1, max_size=4)
    e = [list(x) for x in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=8 if n < 7 else 30, unique=True))]
    return {"v": draw(st.lists(lab, min_size=n, max_size=n)), "e": e, "el": draw(st.lists(lab, min_size=len(e), max_size=len(e))), "last": draw(st.booleans()),
            "head": draw(st.lists(st.text("ab v#1 ", max_size=6), min_size=3, max_size=3))}


@sub("C27", "graph-files", gfile_case, quick=800, thorough=8000)
def c_gfile(case):
    lines = list(case["head"]) + ["v %d 1 %s" % (i, l) for i, l in enumerate(case["v"])] + ["e %d %d %s" % (a, b, l) for (a, b), l in zip(case["e"], case["el"])]
    with scratch() as d:
        with open(d + "/g.txt", "w") as fh:
            fh.write("\n".join(lines) + ("\n" if case["last"] else ""))
        with sut("get_graph_from_file"):
            g = get_graph_from_file(d + "/g.txt")
    require(isinstance(g, nx.DiGraph), "a directed graph", type(g))
    same(dict(g.nodes(data="label")), {i + 1: l for i, l in enumerate(case["v"])}, "nodes")
    same({(a, b): x for a, b, x in g.edges(data="label")}, {(a + 1, b + 1): l for (a, b), l in zip(case["e"], case["el"])}, "edges")
    return len(case["e"]) > 1, ()


# ------------------------------------------------------------------ C28 generators
@st.composite
def tr_case(draw):
    return {"n": draw(st.one_of(st.integers(0, 30), st.integers(100, 300))), "m": draw(st.one_of(st.integers(1, 12), st.integers(1, 80), st.integers(1, 80), st.integers(80, 700))), "d": draw(st.integers(1, 99)) / 100,
            "seed": draw(st.integers(0, 2 ** 31)), "start": draw(st.sampled_from([0, 0, 1, 7, 1000, -1, -50, 32700, 65500, 2 ** 31 - 5, 2 ** 40])), "kind": draw(st.sampled_from(["int", "int", "instance", "none"])),
            "bad": [0.0, 1.0, -0.3, 1.5, 42, 1.0000001, -1e-9]}


@sub("C28", "transactions", tr_case, quick=6000, thorough=30000)
def c_tr(case):
    n, m, d = case["n"], case["m"], case["d"]

    def go():
        rs = {"int": case["seed"], "instance": np.random.RandomState(case["seed"] % 2 ** 32), "none": None}[case["kind"]]
        return make_transactions(n_transactions=n, n_items=m, density=d, random_state=rs, item_start=case["start"])

    with sut("make_transactions"):
        D = go()
        rows = [[int(x) for x in t] for t in D]
    for x in case["bad"]:
        raises(ValueError, lambda: make_transactions(5, 5, density=x), "density %r" % x)
    same(len(rows), n, "number of transactions")
    same(list(D.index), list(range(n)), "index")
    for r in rows:
        require(all(case["start"] <= x < case["start"] + m for x in r), "items are in range", r, case["start"], m)
        require(len(set(r)) == len(r), "no item twice in a transaction", r)
    if n and d <= 0.5:
        sizes = [len(r) for r in rows]
        k = 2 * d * m
        sd = math.sqrt(k) / 2
        require(abs(sum(sizes) / n - d * m) <= 0.5 + 6.5 * sd / math.sqrt(n) + 1e-9, "mean size", sum(sizes) / n, d * m)
        require(max(sizes) <= k + 1e-6, "sizes are centred around density * n_items", max(sizes), k)
    if n >= 100 and d > 0.5:
        sizes = [len(r) for r in rows]
        # sizes above n_items are cut on both sides of the middle
        require(abs(sum(sizes) / n - d * m) <= 0.5 + 6 * math.sqrt(2 * d * m) / 2, "mean size", sum(sizes) / n, d * m)
    if n >= 100 and m * d >= 1 and len({len(r) for r in rows}) > 0:
        seen = {x for r in rows for x in r}
        # each item is in a transaction with probability of about d: missing all of them is below 1e-20
        if (1 - d / 2) ** n < 1e-20:
            same(len(seen), m, "number of items that occur")
    if case["kind"] != "none":
        with sut("make_transactions again"):
            same([[int(x) for x in t] for t in go()], rows, "same random_state again")
    return n >= 2 and m >= 2, ["seed:" + case["kind"], "dense" if d > 0.5 else "sparse"]


@st.composite
def dense_case(draw):
    return {"m": draw(st.one_of(st.integers(200, 400), st.integers(255, 300))), "d": 0.99, "seed": draw(st.integers(0, 2 ** 30))}


@sub("C28", "dense", dense_case, quick=40, thorough=400, rule="every case")
def c_dense(case):
    """Sizes close to the number of items stay centred: 40 draws of 100 transactions (the deviation of their mean is about 0.4)."""
    m, d = case["m"], case["d"]
    with sut("make_transactions"):
        sizes = [len(t) for i in range(40) for t in make_transactions(n_transactions=100, n_items=m, density=d, random_state=case["seed"] + i)]
    mean = sum(sizes) / len(sizes)
    require(max(sizes) <= m, "size", max(sizes), m)
    require(abs(mean - d * m) <= 3.0, "mean size of dense transactions", mean, d * m)
    return True, ()


@st.composite
def cl_case(draw):
    k = draw(st.one_of(st.integers(1, 5), st.integers(1, 14)))
    parts = draw(st.lists(st.integers(1, 8), min_size=k, max_size=k))
    return {"n": draw(st.one_of(st.integers(1, 60), st.integers(60, 400))), "k": k, "m": draw(st.one_of(st.integers(2, 40), st.integers(2, 200))), "parts": draw(st.sampled_from([None, parts])), "sep": draw(st.integers(0, 20)) / 20,
            "dens": draw(st.sampled_from([None, draw(st.lists(st.integers(5, 95), min_size=k, max_size=k))])), "shuffle": draw(st.booleans()),
            "seed": draw(st.integers(0, 2 ** 31)), "kind": draw(st.sampled_from(["int", "int", "instance", "none"]))}


@sub("C28", "classification", cl_case, quick=4000, thorough=20000)
def c_cl(case):
    n, k, m = case["n"], case["k"], case["m"]
    w = [x / sum(case["parts"]) for x in case["parts"]] if case["parts"] else None
    dens = [x / 100 for x in case["dens"]] if case["dens"] else None

    def go(shuffle):
        rs = {"int": case["seed"], "instance": np.random.RandomState(case["seed"] % 2 ** 32), "none": None}[case["kind"]]
        D, y = make_classification(n_samples=n, n_items_per_class=m, n_classes=k, weights=w, class_sep=case["sep"], shuffle=shuffle, random_state=rs, densities=dens)
        return D, y, [[int(x) for x in t] for t in D], [int(c) for c in y]

    with sut("make_classification"):
        D, y, rows, lab = go(case["shuffle"])
    same((len(rows), len(lab)), (n, n), "number of samples and of labels")
    same(list(D.index), list(y.index), "index of samples and labels")
    step = m * case["sep"]
    for c in range(k):
        p = (w or [1 / k] * k)[c]
        require(abs(lab.count(c) - p * n) <= 1 + 1e-6, "samples of class %d" % c, lab.count(c), p * n)
        mine = [r for r, l in zip(rows, lab) if l == c]
        for r in mine:
            require(len(set(r)) == len(r), "no item twice", r)
            # a whole number of items between the alphabets, m * class_sep rounded down (either way at a rounding error)
            require(all(c * math.floor(step - 1e-6) <= x < c * math.floor(step + 1e-6) + m for x in r), "items of class %d" % c, r, step, m)
        d = (dens or [0.5] * k)[c]
        if d <= 0.5 and mine:
            require(max(map(len, mine)) <= 2 * d * m + 1e-6, "sizes in class %d" % c, max(map(len, mine)), d * m)
            require(abs(sum(map(len, mine)) / len(mine) - d * m) <= 0.5 + 6.5 * math.sqrt(2 * d * m) / 2 / math.sqrt(len(mine)) + 1e-9, "mean size in class %d" % c)
    same(set(lab) <= set(range(k)), True, "labels")
    if not case["shuffle"]:
        same(lab, sorted(lab), "labels in order without shuffling")
    elif math.log(math.factorial(n)) - sum(math.log(math.factorial(lab.count(c))) for c in range(k)) > 46:  # as many orders as make this one improbable (1e-20)
        require(lab != sorted(lab) and lab != sorted(lab, reverse=True), "shuffling leaves the classes in order", lab)
    if case["kind"] != "none":
        with sut("make_classification again"):
            _, _, rows2, lab2 = go(case["shuffle"])
            _, _, rows3, lab3 = go(not case["shuffle"])
        same((rows2, lab2), (rows, lab), "same random_state again")
        same(sorted(zip(lab3, rows3)), sorted(zip(lab, rows)), "shuffling only reorders the samples")
    for kw in ({"class_sep": -0.1}, {"class_sep": 1.1}, {"weights": [0.5] * (k + 2)}, {"weights": [1 / (k + 1)] * (k + 1)}, {"densities": [0.5] * (k + 1)}, {"n_classes": 0}, {"weights": [0.5 / k] * k},
               {"densities": [1.0] * k}, {"densities": [0.0] * k}):
        raises((AssertionError, ValueError), lambda: make_classification(**dict({"n_samples": n, "n_items_per_class": m, "n_classes": k}, **kw)), "make_classification(%r)" % kw)
    return k >= 2 and n >= 4, ["shuffle" if case["shuffle"] else "ordered"]


# ------------------------------------------------------------------ C28 descriptions
@st.composite
def desc_case(draw):
    from vk.gen import db
    b = draw(db(max_n=draw(st.sampled_from([8, 8, 30])), max_m=draw(st.sampled_from([6, 14]))))
    if not draw(st.integers(0, 3)):
        b["items"] = [(i // 2, str(i // 2))[i % 2] for i in range(len(b["items"]))]
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, 80)))
    return {"db": b, "idx": draw(st.sampled_from(["range", "rev", "str"])), "box": draw(st.sampled_from(["list", "tuple", "set", "array"])),
            "t": draw(st.lists(st.integers(0, 10 ** 6), min_size=n, max_size=n)), "e": draw(st.lists(st.sampled_from(["a", "b", "c d", "1"] if draw(st.booleans()) else ["a", "A", " a", "a ", "b", "c", "NA", "nan", "x", "1", "01", "1.0"]), min_size=n, max_size=n)),
            "time": draw(st.booleans()), "dtype": draw(st.sampled_from(["object", "string"]))}


@sub("C28", "descriptions", desc_case, quick=5000, thorough=20000)
def c_desc(case):
    rows = [[case["db"]["items"][i] for i in r] for r in case["db"]["rows"]]
    box = {"list": list, "tuple": tuple, "set": set, "array": lambda r: np.array(r, dtype=object)}[case["box"]]
    vals = [box(r) for r in rows]
    n = len(vals)
    idx = {"range": range(n), "rev": range(n)[::-1], "str": ["t%d" % i for i in range(n)]}[case["idx"]]
    s = pd.Series(vals, index=idx, dtype=object)
    with sut("describe"):
        got = describe(s)
    avg = sum(len(v) for v in vals) / n
    m = len({x for r in rows for x in r})
    same(sorted(got), ["avg_transaction_size", "density", "n_items", "n_transactions"], "keys")
    same((got["n_items"], got["n_transactions"]), (m, n), "number of items and transactions")
    close(got["avg_transaction_size"], avg, "average transaction size")
    close(got["density"], avg / m, "density")

    t = case["t"]
    base = pd.Timestamp("2020-02-28 23:59:00")
    index = pd.DatetimeIndex([base + pd.Timedelta(x, "s") for x in t]) if case["time"] else pd.Index(t)
    logs = pd.Series(case["e"], index=index, dtype=case["dtype"])
    with sut("describe_logs"):
        got = describe_logs(logs)
    per = {}
    for x, e in zip(t, case["e"]):
        per.setdefault(e, []).append(x)
    same(got["n_events"], len(per), "number of events")
    close(got["avg_nb_points_per_event"], len(t) / len(per), "average number of points per event")
    want = sum(max(v) - min(v) for v in per.values()) / len(per)
    have = got["avg_delta_per_event"]
    close(have.total_seconds() if case["time"] else have, want, "average delta per event", abs_=1e-5)
    return len(per) > 1 and n > 1, ["time" if case["time"] else "int"]
