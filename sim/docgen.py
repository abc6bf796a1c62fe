"""Specification documents: seeded generator, renderers (HTML model and Word), and
an independent reference model saying which entities and lint findings the
conversion of a generated document must give.

A document is a plain JSON value so it can be shrunk and stored in replay files:
  {"key","rev","style":"html"|"docx","figs":[...],"pad":n}
The model is written from the documented behaviour; it shares no code with Spex.
"""
import copy
import io
import json
import re
import zipfile
from html import escape

from . import seams

WORDS = ("Alpha Bravo Command Data Entry Feature Global Host Index Joint Key Log Media Name Opcode Port Queue "
         "Region Status Transfer Unit Vendor Write Zone Admin Block Cache Doorbell Event Fuse Group").split()
EXTRA = ["", "", "", "", " & co", " <b>", " \u00ae", " \u00e9\u00df", ' "q"', " 'z'", " \u4f60"]

QUIRK_KEYS = [
    ("NVM Express\u00ae NVM Command Set Specification", "1.0c"),
    ("NVM Express\u00ae Zoned Namespace Command Set Specification", "1.1c"),
    ("NVM Express\u00ae Management Interface Specification", "1.2c"),
    ("NVM Express\u00ae Key Value Command Set Specification", "1.0c"),
    ("NVM Express\u00ae Key Value Command Set Specification", "1.0"),
]
OVERRIDES = {
    "nvm": {("42_4", "00b"): "none", ("42_4", "01b"): "idle", ("42_4", "10b"): "normal", ("42_4", "11b"): "low",
            ("49_0_4", "00b"): "none", ("42_0_4", "01b"): "idle", ("49_0_4", "10b"): "normal",
            ("49_0_4", "11b"): "low", ("64_0_4", "00b"): "none", ("64_0_4", "01b"): "idle",
            ("64_0_4", "10b"): "normal", ("64_0_4", "11b"): "low"},
    "zoned": {("37", "0"): "zt", ("37", "1"): "zs", ("37", "2"): "za"},
    "mi": {("19", "2"): "misc"},
    "kv": {},
}


def quirk_of(doc):
    k = (doc["key"].lower(), doc["rev"].lower())
    for i, (a, b) in enumerate(QUIRK_KEYS):
        if (a.lower(), b) == k:
            return ("nvm", "zoned", "mi", "kv", "kv")[i]
    return None


# --------------------------------------------------------------------------
# generator


# text which means something to a formatter it must not be given to
MARKUP = ["<n>", "</red>", "of <b>x</b>", "{0}", "{", "100%s", "%(name)s", "{{x}}", "$HOME", "\\n", "&lt;p&gt;", "<!-- -->"]


class Gen:
    def __init__(self, r, token=""):
        self.r = r
        self.token = token
        self.nfig = 0
        self.used = []

    def words(self, lo, hi):
        return " ".join(self.r.choice(WORDS) for _ in range(self.r.randint(lo, hi)))

    def name(self):
        n = self.words(1, 3)
        if self.r.random() < 0.15:
            n = n.replace(" ", "-", 1)
        return n

    def brief(self):
        r = self.r
        k = r.random()
        if k < 0.25:
            return None
        b = "This " + self.words(1, 5).lower() + r.choice(EXTRA)
        if self.token and r.random() < 0.5:
            b += " " + self.token
        if k < 0.4:
            b += ". " + "More about this is found elsewhere " * 3
        elif k < 0.5:
            b = b + " and so on" * 8          # too long for a brief
        elif k < 0.8:
            b += "."
        return b

    def acr(self):
        r = self.r
        if r.random() < 0.25:
            return None
        a = "".join(r.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ") for _ in range(r.randint(2, 5)))
        if r.random() < 0.08:
            a = "2" + a
        return a

    def list(self):
        """items of a list following the description: [level, text]"""
        r = self.r
        return [[r.choice([0, 0, 1]) if i else 0, self.words(1, 3)] for i in range(r.randint(1, 4))]

    def struct_rows(self, kind, depth, n=None, cols=2):
        """rows in document order (bytes ascending, bits descending)"""
        r = self.r
        n = n or r.randint(1, 5)
        rows, off = [], 0
        for i in range(n):
            k = r.random()
            w = r.choice([1, 1, 2, 4, 8])
            if k < 0.06:
                off += r.randint(1, 3)       # gap
            elif k < 0.11 and off > 1:
                off -= 1                     # overlap
            row = {"t": "f", "lo": off, "hi": off + w - 1}
            if k > 0.9:
                row["t"] = "rsvd"
            elif k > 0.87:
                row["t"] = "obs"
            elif 0.83 < k < 0.87 and cols == 2:
                rows.append({"t": "ell"})
                off += 16
                continue
            else:
                row["name"], row["acr"], row["brief"] = self.name(), self.acr(), self.brief()
                k2 = r.random()
                if k2 < 0.04:
                    row["badrange"] = r.choice(["n/a", "TBD", "vendor"])
                elif k2 < 0.08 and w > 1:
                    row["rev"] = True        # range written low:high
                if depth < 2 and r.random() < (0.22 if depth == 0 else 0.1):
                    row["sub"] = [self.table(depth + 1) for _ in range(1 if r.random() < 0.85 else 2)]
                if r.random() < 0.07:
                    row["list"] = self.list()
                if rows and r.random() < 0.06:
                    prev = [q for q in rows if q["t"] == "f"]
                    if prev:
                        row["acr"] = r.choice(prev).get("acr") or row["acr"]
            rows.append(row)
            off += w
        if kind == "bits":
            rows.reverse()
        if r.random() < 0.03 and len(rows) > 1:
            rows.reverse()                   # wrong order
        return rows

    def value_rows(self, depth, n=None, cols=2):
        r = self.r
        n = n or r.randint(1, 5)
        rows, v = [], 0
        form = r.choice(["%Xh", "%d", "{b}b"])

        def fmt(x):
            return format(x, "02b") + "b" if form == "{b}b" else form % x
        for i in range(n):
            k = r.random()
            row = {"t": "v", "val": fmt(v)}
            if k < 0.06 and rows and rows[-1]["t"] == "v" and not rows[-1].get("covered") \
                    and not rows[-1].get("sub"):
                rows[-1]["rs"] = True        # previous value cell spans this row as well
                row["val"] = rows[-1]["val"]
                row["covered"] = True
                v -= 1
            elif k < 0.1 and v > 0:
                row["val"] = fmt(v - 1)      # duplicate value
            if k > 0.9 and not row.get("covered"):
                row["t"] = "rsvd"
            elif 0.84 < k < 0.9:
                rows.append({"t": "ell2"} if r.random() < 0.5 else {"t": "ell"})
                v += 8
                continue
            else:
                row["name"], row["brief"] = self.name(), self.brief()
                if r.random() < 0.06:
                    row["name"] = "%d %s" % (r.randint(1, 9), row["name"])
                if rows and r.random() < 0.06:
                    prev = [q for q in rows if q["t"] == "v"]
                    if prev:
                        row["name"] = r.choice(prev)["name"]
                if depth < 2 and r.random() < (0.15 if depth == 0 else 0.06):
                    row["sub"] = [self.table(depth + 1)]
                if r.random() < 0.05:
                    row["list"] = self.list()
            rows.append(row)
            v += 1
        return rows

    def table(self, depth, kind=None):
        r = self.r
        kind = kind or r.choice(["bytes", "bytes", "bits", "bits", "values", "values", "skip"] if depth else
                                ["bytes"] * 4 + ["bits"] * 4 + ["values"] * 4)
        t = {"kind": kind}
        if kind == "skip":
            t["hdr"] = r.choice([["Foo", "Bar"], ["Term", "Definition"], ["Parameter", "Support"]])
            t["rows"] = [{"t": "x", "cells": [self.words(1, 2), self.words(1, 3)]} for _ in range(r.randint(0, 2))]
            return t
        if kind in ("bytes", "bits"):
            t["attr"] = r.random() < 0.12
            t["alias"] = r.random() < 0.15
            t["rows"] = self.struct_rows(kind, depth, cols=3 if t["attr"] else 2)
            if kind == "bytes" and depth == 0 and not t["attr"] and r.random() < 0.08:
                t["dyn"] = [{"t": "dyn", "a": "(%d*N+%d)" % (w, w - 1), "b": "(%d*N)" % w if r.random() < 0.8 else "%d" % w,
                             "name": self.name(), "acr": self.acr(), "brief": self.brief()}
                            for w in [r.choice([4, 8, 16])] for _ in range(r.randint(1, 2))]
        else:
            t["alias"] = r.random() < 0.12
            t["hdr2"] = r.choice(["Definition", "Description", "Definition", "Meaning"])
            t["attr"] = r.random() < 0.1
            if t["attr"]:
                t["hdr2"] = r.choice(["Definition", "Description"])
            t["rows"] = self.value_rows(depth, cols=3 if t["attr"] else 2)
        self.embellish(t)
        return t

    def embellish(self, t):
        """shared descriptions, headings and notes between and after the rows"""
        r = self.r
        rows = t["rows"]
        if not t["attr"]:
            for a, b in zip(rows, rows[1:]):
                if r.random() < 0.07 and a["t"] == b["t"] and a["t"] in ("f", "v") and not (
                        a.get("covered") or b.get("covered") or a.get("rs") or b.get("rs")):
                    b["shared"] = True           # the description spans from the row above
        if r.random() < 0.06:
            at = r.randint(0, len(rows))
            if not self.spanned(t, at):
                rows.insert(at, {"t": "head", "text": self.words(2, 5)})
        if r.random() < 0.05 and not t.get("dyn"):
            rows.append({"t": "note", "text": "NOTES: " + self.words(2, 9)})

    @staticmethod
    def spanned(t, at):
        """does a cell span the boundary above row `at`?"""
        return at < len(t["rows"]) and bool(t["rows"][at].get("covered") or t["rows"][at].get("shared"))

    def figure(self, fid=None, kind=None):
        r = self.r
        k = r.random() if kind is None else 1.0
        if fid is None and self.used and r.random() < 0.07:
            fid = r.choice(self.used)            # a figure continued, or numbered wrongly
        elif fid is None:
            self.nfig += r.randint(1, 4)
            fid = str(self.nfig)
            if r.random() < 0.06:
                fid = r.choice(["%sa", "A.%s", "%s-1", "%s.2", "%s'or'1'='1", "%s'", '%s"']) % fid
            self.used.append(fid)
        title = self.words(1, 4) + (" " + self.token if self.token and r.random() < 0.7 else "")
        if r.random() < 0.1:
            title += " " + r.choice(MARKUP)
        if k < 0.05:
            f = self.table(0, r.choice(["bytes", "bits"]))
            f["title_kind"] = "none"
            f["title"] = title
            return f
        if k > 0.97 and kind is None:
            return {"kind": "skip", "hdr": [], "rows": [], "title_kind": "empty", "title": ""}
        if k < 0.10:
            f = self.table(0)
            f["title_kind"] = "noid"
            f["title"] = title
            return f
        f = self.table(0, "skip") if k < 0.18 else self.table(0, kind)
        f["title_kind"] = "fig"
        f["id"] = fid
        f["title"] = title
        if r.random() < 0.06:
            f["wrapped"] = True
        return f

    def poison(self, f):
        """make the figure (or a table nested in it) fail at one of its rows"""
        r = self.r
        cands = []

        def rec(t):
            if t["kind"] in ("bytes", "bits", "values"):
                cands.append(t)
            for row in t["rows"]:
                for s in row.get("sub", ()):
                    rec(s)
        rec(f)
        if not cands:
            return False
        t = cands[-1] if r.random() < 0.5 else r.choice(cands)
        at = r.randint(0, len(t["rows"]))
        if self.spanned(t, at):
            at = len(t["rows"])
        bad = {"t": "poison", "how": r.choice(["nop", "nop", "span"] + (["short"] * 3 if t["attr"] else []))}
        if t["kind"] == "values":
            bad["val"] = "%dh" % r.randint(60, 90)
        else:
            bad["lo"] = bad["hi"] = 900
        t["rows"].insert(at, bad)
        return True

    def doc(self, nfigs=None, style=None, quirk=None, poison=0, key=None, rev=None):
        r = self.r
        style = style or ("docx" if r.random() < 0.45 else "html")
        nfigs = nfigs if nfigs is not None else r.randint(1, 6)
        if key is None:
            if quirk is None:
                quirk = r.random() < 0.25
            if quirk:
                key, rev = r.choice(QUIRK_KEYS)
            else:
                key = r.choice(["NVM Express\u00ae ", "Foo & Bar ", ""]) + self.words(1, 2) + " Specification"
                rev = r.choice(["1.0", "2.0c", "1.2a", "0.9"])
        d = {"key": key, "rev": rev, "style": style, "pad": 0, "figs": []}
        q = quirk_of(d)
        if quirk_of(d) == "nvm":
            # figure 23 is special in this specification, keep ordinary figures off it
            self.nfig = 23
        if q == "kv":
            self.nfig = 41
        if q == "mi":
            self.nfig = 64
        for _ in range(nfigs):
            d["figs"].append(self.figure())
        if q is not None and r.random() < 0.8:
            f = self.quirk_fig(q)
            if f is not None:
                d["figs"].insert(r.randint(0, len(d["figs"])), f)
        if r.random() < 0.1:
            # a figure given twice, or continued under the same title
            figs = [f for f in d["figs"] if f.get("title_kind") in ("fig", "noid") and not f.get("quirk")]
            if figs:
                f = r.choice(figs)
                g = copy.deepcopy(f)
                how = r.choice(["same", "rows", "title", "cont"])
                if how == "rows":
                    g.pop("dyn", None)
                    x = self.table(0, f["kind"])
                    for k in set(x) | {"attr", "alias", "hdr2", "hdr", "rows", "dyn"}:
                        g.pop(k, None)
                        if k in x:
                            g[k] = x[k]
                elif how == "title":
                    g["title"] = g["title"].swapcase()
                elif how == "cont":
                    g["title"] += " (continued)"
                at = next(i for i, h in enumerate(d["figs"]) if h is f)
                d["figs"].insert(r.choice([at + 1, len(d["figs"])]), g)
        figs = [f for f in d["figs"] if f.get("title_kind") == "fig" and f["kind"] != "skip" and not f.get("quirk")]
        for _ in range(poison):
            if figs:
                f = figs.pop(r.randrange(len(figs)))
                self.poison(f)
        if style == "docx":
            strip_html_only(d)
            if r.random() < 0.5:
                d["wvar"] = r.randint(1, 60)
        return d

    def quirk_fig(self, q):
        r = self.r
        if q == "nvm" and r.random() < 0.6 or q == "mi" and r.random() < 0.7:
            a, b = ("23", "24") if q == "nvm" else ("64", "65")
            f = self.figure(a, "bits")
            f.update(attr=False, alias=False, quirk="two", wrapped=False)
            f["rows"] = self.struct_rows("bits", 2)
            inner = self.table(1, "bits" if r.random() < 0.7 else "bytes")
            inner.update(attr=False, alias=False)
            inner["id"], inner["title"] = b, self.words(1, 3)
            inner["rows"] = self.struct_rows(inner["kind"], 2)
            inner.pop("dyn", None)
            f["second"] = inner
            return f
        if q == "kv":
            f = self.figure("41", "bytes")
            f.update(attr=False, quirk="kv41", wrapped=False)
            f.pop("dyn", None)
            f["rows"] = [q for q in f["rows"] if q["t"] != "head"]
            at = r.randint(0, len(f["rows"]))
            if not self.spanned(f, at):
                f["rows"].insert(at, {"t": "kvnote"})
            return f
        ov = sorted(k for k in OVERRIDES[q])
        if q == "zoned":
            f = self.figure("37", "values")
            f["rows"] = [{"t": "v", "val": str(i), "name": self.name(), "brief": self.brief()} for i in range(4)]
            f["quirk"] = "ov"
            return f
        if q == "mi":
            f = self.figure("19", "values")
            f["rows"] = [{"t": "v", "val": str(i), "name": self.name(), "brief": self.brief()} for i in range(4)]
            f["quirk"] = "ov"
            return f
        if q == "nvm":
            f = self.figure("42", "bytes")
            f.update(attr=False, quirk="ov")
            f.pop("dyn", None)
            sub = {"kind": "values", "alias": False, "attr": False, "hdr2": "Definition",
                   "rows": [{"t": "v", "val": format(i, "02b") + "b", "name": self.name(), "brief": None}
                            for i in range(4)]}
            f["rows"] = [{"t": "f", "lo": 0, "hi": 3, "name": self.name(), "acr": "AB", "brief": None},
                         {"t": "f", "lo": 4, "hi": 7, "name": self.name(), "acr": "CD", "brief": None, "sub": [sub]}]
            return f
        return None


def strip_html_only(d):
    def rec(t):
        for row in t["rows"]:
            if row["t"] == "poison" and row["how"] == "span":
                row["how"] = "nop"
            for s in row.get("sub", ()):
                rec(s)
    for f in d["figs"]:
        rec(f)
        if f.get("quirk") == "two":
            pass


def sibling(doc, r):
    """a document of the very same size which differs in few characters only"""
    import copy
    d = copy.deepcopy(doc)
    spots = []

    def rec(t):
        for row in t["rows"]:
            if row.get("name"):
                spots.append((row, "name"))
            if row.get("brief"):
                spots.append((row, "brief"))
            for s in row.get("sub", ()):
                rec(s)
    for f in d["figs"]:
        rec(f)
        spots.append((f, "title"))
    o, k = spots[-1] if r.random() < 0.3 else r.choice(spots)
    ws = o[k].split(" ")
    i = max(range(len(ws)), key=lambda j: ws[j].isascii() and ws[j].isalpha())
    w = ws[i]
    if w.isascii() and w.isalpha():
        ws[i] = ("".join(chr((ord(c.lower()) - 97 + 1) % 26 + 97) for c in w)).capitalize()
        o[k] = " ".join(ws)
    return d


# --------------------------------------------------------------------------
# abstract layout shared by both renderers: a table is a list of rows, a row a list
# of cells {"th":bool,"p":[texts] or None,"tables":[...],"cs":n,"rs":n,"badspan":bool,"raw":text}


def _c(text, th=False, **kw):
    c = {"th": th, "p": [text] if text is not None else [], "tables": [], "cs": 1, "rs": 1}
    c.update(kw)
    return c


LONG_TAIL = "The remainder of this text is long enough to never fit into a brief description of the field"


def content_text(row):
    """text of the describing paragraph of a field or value row"""
    t = row["name"]
    if row.get("acr"):
        t += " (%s)" % row["acr"]
    if row.get("brief") is not None:
        t += ": " + row["brief"]
    elif is_long(row):
        t += ": "
    if is_long(row):
        if row.get("brief") is None:
            t += "See below"
        t = t.rstrip(".") + ". " + LONG_TAIL
    return t


def is_long(row):
    """more text follows the describing paragraph within the cell"""
    return bool(row.get("sub") or row.get("list"))


def effective(rows):
    """the rows with what they share with the row above filled in"""
    out = []
    for row in rows:
        if row.get("shared"):
            a = out[-1]
            row = {**{k: v for k, v in a.items() if k not in ("badrange", "rev")},
                   **{k: v for k, v in row.items() if k not in ("name", "acr", "brief", "sub", "list")}}
        out.append(row)
    return out


def content_cell(rows, i, layout):
    row = rows[i]
    n = 1
    while i + n < len(rows) and rows[i + n].get("shared"):
        n += 1
    c = _c(content_text(row), rs=n)
    c["list"] = row.get("list")
    c["tables"] = [layout(s) for s in row.get("sub", ())]
    return c


def range_text(row):
    if row.get("badrange"):
        return row["badrange"]
    lo, hi = row["lo"], row["hi"]
    if lo == hi:
        return str(lo)
    return "%d:%d" % ((lo, hi) if row.get("rev") else (hi, lo))


def layout(t):
    """rows of the table below its title row (header row first)"""
    out = []
    k = t["kind"]
    if k == "skip":
        out.append([_c(h, True) for h in t["hdr"]])
        for row in t["rows"]:
            out.append([_c(x) for x in row["cells"]])
        return out
    if k in ("bytes", "bits"):
        h = {"bytes": "Bytes", "bits": "Bits"}[k]
        if t.get("alias"):
            h = h[:-1]
        hdr = [h, "Attribute", "Description"] if t.get("attr") else [h, "Description"]
        out.append([_c(x, True) for x in hdr])
        for i, row in enumerate(t["rows"]):
            out.append(struct_row(t, row, i))
        for j, row in enumerate(t.get("dyn", ())):
            if j == 0:
                out.append([_c("Descriptor List", True, cs=2)])
            out.append([_c("%s:%s" % (row["a"], row["b"])), _c(content_text(row))])
    else:
        h = "Code" if t.get("alias") else "Value"
        hdr = [h, "Attribute", t["hdr2"]] if t.get("attr") else [h, t["hdr2"]]
        out.append([_c(x, True) for x in hdr])
        for i, row in enumerate(t["rows"]):
            out.append(value_row(t, row, i))
    if t.get("second"):
        s = t["second"]
        out.append([_c("Figure %s: %s" % (s["id"], s["title"]), cs=2)])
        out.extend(layout(s))
    return out


def struct_row(t, row, i):
    k = row["t"]
    if k in ("head", "note"):
        return [_c(row["text"], cs=ncols(t))]
    if k == "ell":
        return [_c("\u2026", cs=2)]
    if k == "kvnote":
        return [_c("The layout depends on the key (refer to Figure 39).", cs=2)]
    if k == "poison":
        cells = [_c(range_text(row)), _c(None, raw="broken")]
        if row["how"] == "span":
            cells[1] = _c("Broken Row (BR): x", badspan=True)
        if t.get("attr"):
            cells.insert(1, _c(None, raw="broken") if row["how"] == "nop" else _c("Broken"))
        return cells[:2] if row["how"] == "short" else cells
    if k in ("rsvd", "obs"):
        w = "Reserved" if k == "rsvd" else "Obsolete"
        cells = [_c(range_text(row)), _c(w)]
        if t.get("attr"):
            cells.insert(1, _c(w))
        return cells
    if row.get("shared"):
        return [_c(range_text(row))]
    cells = [_c(range_text(row)), content_cell(t["rows"], i, layout)]
    if t.get("attr"):
        cells.insert(1, _c(row["name"]))
    return cells


def value_row(t, row, i):
    k = row["t"]
    if k in ("head", "note"):
        return [_c(row["text"], cs=ncols(t))]
    if k == "ell":
        return [_c("\u2026", cs=3 if t.get("attr") else 2)]
    if k == "ell2":
        cells = [_c("\u2026"), _c("\u2026")]
        if t.get("attr"):
            cells.insert(1, _c("\u2026"))
        return cells
    if k == "poison":
        cells = [_c(row["val"]), _c(None, raw="broken")]
        if row["how"] == "span":
            cells[1] = _c("Broken: x", badspan=True)
        if t.get("attr"):
            cells.insert(1, _c(None, raw="broken") if row["how"] == "nop" else _c("Broken"))
        return cells[:2] if row["how"] == "short" else cells
    if k == "rsvd":
        cells = [_c(row["val"]), _c("Reserved")]
        if t.get("attr"):
            cells.insert(1, _c("Reserved"))
        return cells
    v = _c(row["val"], rs=2 if row.get("rs") else 1)
    if row.get("shared"):
        return [v]
    c = content_cell(t["rows"], i, layout)
    cells = ([] if row.get("covered") else [v]) + [c]
    if t.get("attr"):
        cells.insert(len(cells) - 1, _c(row["name"]))
    return cells


def title_text(f):
    return {"fig": "Figure %s: %s" % (f.get("id"), f["title"]),
            "noid": "See Figure list %s" % f["title"],
            "none": "Table of %s" % f["title"]}[f["title_kind"]]


def fig_rows(f):
    return [] if f["title_kind"] == "empty" else [[_c(title_text(f), cs=ncols(f))]] + layout(f)


def ncols(t):
    return 3 if t.get("attr") else 2


# --------------------------------------------------------------------------
# HTML renderer


def html_table(rows, ind, fid=None):
    o = [" " * ind + ("<table id='%s'>" % escape(fid) if fid else "<table>")]
    for row in rows:
        o.append(" " * ind + "<tr>")
        for c in row:
            tag = "th" if c["th"] else "td"
            a = ""
            if c["cs"] > 1:
                a += ' colspan="%d"' % c["cs"]
            if c["rs"] > 1:
                a += ' rowspan="%d"' % c["rs"]
            if c.get("badspan"):
                a += ' rowspan="x"'
            o.append(" " * ind + " <%s%s>" % (tag, a))
            if c.get("raw"):
                o.append(" " * ind + "  " + escape(c["raw"]))
            for i, p in enumerate(c["p"]):
                cut = len(p) // 2
                o.append(" " * ind + "  <p><span>%s</span>%s</p>" % (
                    escape(p[:cut] if cut else p), "<span>%s</span>" % escape(p[cut:]) if cut else ""))
            if c.get("list"):
                o.append(html_list(c["list"]))
            for sub in c["tables"]:
                o.append(html_table(sub, ind + 3))
            o.append(" " * ind + " </%s>" % tag)
        o.append(" " * ind + "</tr>")
    o.append(" " * ind + "</table>")
    return "\n".join(o)


def html_list(items):
    o, lvl = ["<ul class='ul0'>"], 0
    for n, (lv, txt) in enumerate(items):
        while lv > lvl:
            o.append("<li><ul class='ul0'>")
            lvl += 1
        while lv < lvl:
            o.append("</ul></li>")
            lvl -= 1
        o.append("<li><span>%s</span></li>" % escape(txt))
    return "".join(o) + "</ul></li>" * lvl + "</ul>"


def render_html(doc):
    o = ["<!DOCTYPE html>", '<html lang="en">', "<head>",
         ' <meta charset="utf-8" data-spec="%s" data-revision="%s"/>' % (escape(doc["key"]), escape(doc["rev"])),
         "<title>spec</title>", "</head>", "<body>"]
    pad = doc.get("pad", 0)
    line = "<p>" + "padding " * 15 + "</p>\n"
    if pad and not doc.get("padlast"):
        o.append(line * (pad // len(line) + 1))
    for f in doc["figs"]:
        rows = fig_rows(f)
        if f.get("wrapped"):
            o.append("<table><tr><td>\n" + html_table(rows, 2, f.get("id")) + "\n</td></tr></table>")
        else:
            o.append(html_table(rows, 1, f.get("id")))
    if pad and doc.get("padlast"):
        o.append(line * (pad // len(line) + 1))
    o += ["</body>", "</html>", ""]
    return "\n".join(o).encode("utf-8")


# --------------------------------------------------------------------------
# Word renderer

W = "http://schemas.openxmlformats.org/wordprocessingml/2006/main"


COLORS = ["FF0000", "00AA00", "1234AB", "777700"]


def w_run(text, style=0, var=0):
    """style: which formatting; var: what the document's named styles mean"""
    rpr = ["", "<w:b/>", '<w:color w:val="FF0000"/>', "<w:i/>"][style % 4]
    wrap = "%s"
    if var:
        k = (style * 7 + var) % 13
        rpr += ["", '<w:rStyle w:val="Ca"/>', '<w:rStyle w:val="Cb"/>', '<w:rStyle w:val="Cx"/>', '<w:strike/>',
                '<w:u w:val="single"/>', '<w:u w:val="none"/>', '<w:vertAlign w:val="superscript"/>',
                '<w:color w:val="auto"/>', '<w:b w:val="0"/>', "", "", ""][k]
        if k == 11:
            wrap = "<w:hyperlink>%s</w:hyperlink>"
        elif k == 12:
            wrap = "<w:fldSimple>%s</w:fldSimple>"
    if rpr:
        rpr = "<w:rPr>%s</w:rPr>" % rpr
    return wrap % ('<w:r>%s<w:t xml:space="preserve">%s</w:t></w:r>' % (rpr, escape(text)))


def w_par(text, style=0, var=0, ppr=""):
    cut = len(text) // 2
    if cut:
        return "<w:p>%s%s%s</w:p>" % (ppr, w_run(text[:cut], style, var), w_run(text[cut:], style, var))
    return "<w:p>%s%s</w:p>" % (ppr, w_run(text, style, var))


def w_styles(var):
    if not var:
        return ""
    col, col2 = COLORS[var % 4], COLORS[(var // 4) % 4]
    return ('<w:style w:type="character" w:styleId="Ca"><w:aliases w:val="Cx, Cy"/><w:rPr><w:b w:val="%d"/>'
            '<w:color w:val="%s"/></w:rPr></w:style>'
            '<w:style w:type="character" w:styleId="Cb"><w:basedOn w:val="Ca"/><w:rPr><w:i/><w:color w:val="%s"/>'
            '</w:rPr></w:style><w:style w:type="paragraph" w:styleId="Ca"><w:rPr><w:strike/></w:rPr></w:style>' % (
                var % 2, col, col2))


def w_numbering(var):
    o = []
    # the ids of list styles, and how many there are, differ between documents
    ids = [(0, 1), (0, 1), (4, 2), (1, 0), (2, 7)][var % 5]
    more = [n for n in (3, 5, 6) if var % (n + 1) == 1]
    for a, fmt, txt in ([(ids[0], "bullet", "o"), (ids[1], "lowerLetter" if var % 2 else "decimal", "%1.")]
                        + [(n, "decimal", "(%1)") for n in more]):
        lv = "".join('<w:lvl w:ilvl="%d"><w:numFmt w:val="%s"/><w:lvlText w:val="%s"/></w:lvl>' % (i, fmt, txt)
                     for i in range(3))
        o.append('<w:abstractNum w:abstractNumId="%d">%s</w:abstractNum>' % (a, lv))
    # which list style a number means differs between documents
    return "".join(o) + "".join('<w:num w:numId="%d"><w:abstractNumId w:val="%d"/></w:num>' % (n, ids[(n + var) % 2])
                                for n in (1, 2))


def w_table(rows, st=0, var=0):
    o = ["<w:tbl>"]
    pend = {}
    for ri, row in enumerate(rows):
        o.append("<w:tr>")
        cells, col = list(row), 0
        for at in sorted(pend.get(ri, ())):
            cells.insert(at, {"cont": True, "cs": 1})
        for c in cells:
            if c.get("cont"):
                o.append("<w:tc><w:tcPr><w:vMerge/></w:tcPr><w:p/></w:tc>")
                col += 1
                continue
            pr = ""
            if c["cs"] > 1:
                pr += '<w:gridSpan w:val="%d"/>' % c["cs"]
            if c["rs"] > 1:
                pr += '<w:vMerge w:val="restart"/>'
                for k in range(1, c["rs"]):
                    pend.setdefault(ri + k, []).append(col)
            col += c["cs"]
            if c["th"]:
                pr += '<w:shd w:fill="BFBFBF"/>'
            elif var and (ri + var) % 5 == 0:
                pr += '<w:shd w:fill="%s"/>' % ["FFFFFF", "auto", "FFEE%02d" % (var % 100)][var % 3]
            o.append("<w:tc><w:tcPr>%s</w:tcPr>" % pr)
            for i, p in enumerate(c["p"]):
                o.append(w_par(p, (len(p) + st) % 4, var))
            for lv, txt in c.get("list") or ():
                o.append(w_par(txt, 0, var, '<w:pPr><w:numPr><w:ilvl w:val="%d"/><w:numId w:val="1"/></w:numPr></w:pPr>'
                               % lv))
            for sub in c["tables"]:
                o.append(w_table(sub, st + 1, var))
            o.append("<w:p/></w:tc>")
        o.append("</w:tr>")
    o.append("</w:tbl>")
    return "".join(o)


def render_docx(doc):
    body = []
    pad = doc.get("pad", 0)
    var = doc.get("wvar", 0)
    lists = False
    for f in doc["figs"]:
        rows = fig_rows(f)
        lists = lists or '"list": [' in json.dumps(rows)
        if f.get("wrapped"):
            body.append("<w:tbl><w:tr><w:tc>%s<w:p/></w:tc></w:tr></w:tbl>" % w_table(rows, 0, var))
        else:
            body.append(w_table(rows, 0, var))
        body.append("<w:p/>")
    ns = 'xmlns:w="%s"' % W
    hd = '<?xml version="1.0" encoding="UTF-8"?>'
    document = "%s<w:document %s><w:body>%s</w:body></w:document>" % (hd, ns, "".join(body))
    header = "%s<w:hdr %s><w:p>%s</w:p></w:hdr>" % (
        hd, ns, w_run("%s, Revision %s" % (doc["key"], doc["rev"])))
    styles = "%s<w:styles %s>%s</w:styles>" % (hd, ns, w_styles(var))
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w", zipfile.ZIP_STORED) as z:
        def add(n, data):
            z.writestr(zipfile.ZipInfo(n, (2022, 1, 1, 0, 0, 0)), data)
        if pad and not doc.get("padlast"):
            add("docProps/pad.txt", b"padding " * (pad // 8))
        add("word/header1.xml", header)
        add("word/styles.xml", styles)
        if lists or var % 3 == 1:
            add("word/numbering.xml", "%s<w:numbering %s>%s</w:numbering>" % (hd, ns, w_numbering(var)))
        add("word/document.xml", document)
        if pad and doc.get("padlast"):
            add("docProps/pad.txt", b"padding " * (pad // 8))
    return buf.getvalue()


# published specifications which come with the sources
REAL = ["NVM Express TCP Transport Specification 1.0c 2022.10.03 Ratified",
        "NVM Express RDMA Transport Specification 1.0b 2022.10.04 Ratified",
        "NVM Express Key Value Command Set Specification 1.0c 2022.10.03 Ratified",
        "NVM Express PCIe Transport Specification 1.0c 2022.10.03 Ratified",
        "NVM Express Zoned Namespace Command Set Specification 1.1c 2022.10.03 Ratified"]


def render_real(doc):
    p = "%s/example/stage1/%s.html" % (seams.REPO, REAL[doc["real"]])
    try:
        with seams.REAL.get("open", open)(p, "rb") as fh:
            b = fh.read()
    except OSError:
        return render_html({"style": "html", "figs": [], "key": "none", "rev": "1"})
    if doc.get("rev"):
        # another revision: no document specific extractors apply
        b = re.sub(rb'data-revision="[^"]*"', b'data-revision="' + doc["rev"].encode() + b'"', b, count=1)
    return b


def render(doc):
    if "real" in doc:
        return render_real(doc)
    return render_docx(doc) if doc["style"] == "docx" else render_html(doc)


def render_entity(url, style, pad=0, how="general"):
    """a document which tries to include another file by an XML entity; pad: size of a comment in each part"""
    dtd = {
        "general": '<!DOCTYPE html [<!ENTITY a "aaaa"><!ENTITY v SYSTEM "%s">]>',
        "param": '<!DOCTYPE html [<!ENTITY a "aaaa"><!ENTITY v "vv"><!ENTITY %% p SYSTEM "%s">%%p;]>',
        "dtd": '<!DOCTYPE html SYSTEM "%s" [<!ENTITY a "aaaa"><!ENTITY v "vv">]>',
    }[how] % url
    filler = "<!--" + "x" * pad + "-->" if pad else ""
    if style == "html":
        return ("<?xml version='1.0'?>%s<html lang='en'><head><meta charset='utf-8' data-spec='x' data-revision='1'/>"
                "</head><body><table id='1'><tr><td colspan='2'>Figure 1: Entities &v;</td></tr><tr><th>Bytes</th>"
                "<th>Description</th></tr><tr><td>0</td><td><p>Name (NM): &v;</p></td></tr><tr><td>0</td><td><p>Name "
                "(NM): &a;</p></td></tr></table><p>&v;</p>%s</body></html>" % (dtd, filler)).encode()
    b = render_docx({"style": "docx", "key": "x", "rev": "1", "figs": [
        {"kind": "bytes", "title_kind": "fig", "id": "1", "title": "Entities EEE", "attr": False, "rows": [
            {"t": "f", "lo": 0, "hi": 0, "name": "Name", "acr": "NM", "brief": "EEE"}]}]})
    out = io.BytesIO()
    with zipfile.ZipFile(io.BytesIO(b)) as z, zipfile.ZipFile(out, "w", zipfile.ZIP_STORED) as o:
        for n in z.namelist():
            d = z.read(n)
            if n != "word/styles.xml":
                d = d.replace(b"?>", b"?>" + dtd.replace("html", "w:x", 1).encode(), 1).replace(b"EEE", b"&v;")
                end = d.rindex(b"</")
                d = d[:end] + filler.encode() + d[end:]
            o.writestr(zipfile.ZipInfo(n, (2022, 1, 1, 0, 0, 0)), d)
    return out.getvalue()


ODD = ["grid", "grid", "num0", "num0", "cycle", "badgrid", "merge", "dangling", "html-span", "html-span", "fold"]


def render_odd(r, style):
    """small documents no word processor writes, with values a reader may trip over"""
    how = r.choice(ODD)
    n = r.choice([5000, 300000, 20000000, 20000000])
    if style == "html" or how == "html-span":
        k = r.choice(["colspan", "rowspan"])
        where = r.choice(["title", "head", "row", "row"])
        at = {w: ' %s="%d"' % (k, n) if w == where else "" for w in ("title", "head", "row")}
        return ("<!DOCTYPE html><html><head><meta charset='utf-8' data-spec='x' data-revision='1'/></head><body>"
                "<table id='1'><tr><td%s><p>Figure 1: Odd</p></td></tr><tr><th%s><p>Bytes</p></th><th><p>Description"
                "</p></th></tr><tr><td%s><p>3:0</p></td><td><p>Odd (ODD): x</p></td></tr><tr><td><p>7:4</p></td><td><p>"
                "Even (EVN): y</p></td></tr></table></body></html>" % (at["title"], at["head"], at["row"])).encode()
    span = {"grid": n, "badgrid": r.choice([0, -1, -20000000, "x", ""])}.get(how)
    pr = '<w:gridSpan w:val="%s"/>' % span if span is not None else ""
    mg = "<w:vMerge/>" if how == "merge" else ""
    num = {"num0": 0, "dangling": 7}.get(how)
    item = "" if num is None else (
        '<w:p><w:pPr><w:numPr><w:ilvl w:val="%d"/><w:numId w:val="%d"/></w:numPr></w:pPr><w:r><w:t>item</w:t></w:r></w:p>'
        % (9 if how == "dangling" and r.random() < 0.3 else 0, num))
    rs = '<w:rPr><w:rStyle w:val="Ca"/></w:rPr>' if how == "cycle" else ""

    def cell(t, pr=""):
        return "<w:tc><w:tcPr>%s</w:tcPr><w:p><w:r>%s<w:t>%s</w:t></w:r></w:p>%s</w:tc>" % (pr, rs, t, item)
    rows = [cell("Figure 1: Odd", pr + (mg if r.random() < 0.5 else "")), cell("Bytes") + cell("Description"),
            cell("3:0", pr + mg) + cell("Odd (ODD): x")]
    tbl = "<w:tbl>%s</w:tbl>" % "".join("<w:tr>%s</w:tr>" % x for x in rows)
    if how == "fold":
        for _ in range(r.choice([3, 12])):
            tbl = "<w:tbl><w:tr><w:tc>%s<w:p/></w:tc></w:tr></w:tbl>" % tbl
    ns = 'xmlns:w="%s"' % W
    styles = "" if how != "cycle" else (
        '<w:style w:type="character" w:styleId="Ca"><w:basedOn w:val="Cb"/></w:style>'
        '<w:style w:type="character" w:styleId="Cb"><w:basedOn w:val="Ca"/></w:style>')
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w", zipfile.ZIP_STORED) as z:
        def add(n, data):
            z.writestr(zipfile.ZipInfo(n, (2022, 1, 1, 0, 0, 0)), data)
        add("word/header1.xml", "<w:hdr %s><w:p><w:r><w:t>x, Revision 1</w:t></w:r></w:p></w:hdr>" % ns)
        add("word/styles.xml", "<w:styles %s>%s</w:styles>" % (ns, styles))
        if num is not None:
            add("word/numbering.xml", '<w:numbering %s><w:abstractNum w:abstractNumId="0"><w:lvl w:ilvl="0"><w:numFmt '
                'w:val="bullet"/><w:lvlText w:val="o"/></w:lvl></w:abstractNum><w:num w:numId="%d"><w:abstractNumId '
                'w:val="%d"/></w:num></w:numbering>' % (ns, num, 0 if num == 0 else 3))
        add("word/document.xml", "<w:document %s><w:body>%s</w:body></w:document>" % (ns, tbl))
    return buf.getvalue()


# --------------------------------------------------------------------------
# reference model

RES, ELL, OBS = "RESERVED", "\u2026", "OBSOLETE"


class Failed(Exception):
    pass


class Model:
    """entities and lint findings expected of a document"""

    def __init__(self, doc, skip=True):
        self.doc = doc
        self.entities = []
        self.lint = []
        self.aborted = False      # run fails (first failing figure, not skipping)
        self.figs = []            # per top level table: (status, ids)
        self.q = quirk_of(doc)
        self.skip = skip
        self.noid = 0
        self.blocks = []          # (fig index, entities slice, lint slice)
        self.tried = []           # ids of all tables whose extraction is started
        for i, f in enumerate(doc["figs"]):
            e0, l0 = len(self.entities), len(self.lint)
            try:
                self.top(f)
            except Failed:
                self.blocks.append((i, e0, len(self.entities), l0, len(self.lint)))
                self.figs.append(("failed", f.get("id")))
                if not skip:
                    self.aborted = True
                    break
                continue
            self.blocks.append((i, e0, len(self.entities), l0, len(self.lint)))

    def add(self, code, fig, row=None, **ctx):
        e = {"code": code, "fig": fig, "context": ctx}
        if row is not None:
            e["row"] = row
        self.lint.append(e)

    def top(self, f):
        tk = f["title_kind"]
        if tk in ("none", "empty"):
            self.figs.append(("ignored", None))
            return
        if tk == "noid":
            self.add("T1008", "FIG_ID_MISSING[%d]" % self.noid, title=title_text(f))
            self.noid += 1
            self.figs.append(("noid", None))
            return
        title = title_text(f)
        ent = {"title": title.strip(), "fig_id": f["id"]}
        self.table(f, ent)
        self.figs.append(("skipped" if f["kind"] == "skip" else "entity", f["id"]))
        if f.get("second"):
            s = f["second"]
            self.table(s, {"fig_id": s["id"], "title": title_text({**s, "title_kind": "fig"})})

    def table(self, t, ent):
        fid = ent["fig_id"]
        self.tried.append(fid)
        try:
            fields = self.fields(t, ent, fid)
        except Failed as e:
            if not e.args:
                self.add("T1000", fid, **({"title": ent["title"]} if "title" in ent else {}))
                raise Failed("reported")
            raise
        if fields is None:
            return
        self.entities.append({**ent, "type": t["kind"], "fields": fields})

    def fields(self, t, ent, fid):
        k = t["kind"]
        if k == "skip":
            self.add("T1007", fid, columns=[h.lower() for h in t["hdr"]])
            return None
        if t.get("alias"):
            a, b = {"bytes": ("byte", "bytes"), "bits": ("bit", "bits"), "values": ("code", "value")}[k]
            self.add("T1006", fid, got=a, expected=b)
        if k == "values":
            return self.values(t, ent, fid)
        return self.struct(t, ent, fid)

    def subs(self, row, fid, key):
        for s in row.get("sub", ()):
            self.table(s, {"fig_id": "%s_%s" % (fid, key), "parent_fig_id": fid})

    @staticmethod
    def brief(row):
        b = row.get("brief")
        if is_long(row):
            b = ("See below" if b is None else b).rstrip(".") + ". " + LONG_TAIL
            # nested tables' text follows, always longer than a brief
            b = b + " " * 61
        elif b is None:
            return None
        b = b.rstrip(".").lstrip(" ") if not is_long(row) else b.lstrip(" ")
        b = b if is_long(row) else b.strip()
        if len(b) <= 60:
            return b
        b = b.split(".", 1)[0]
        return b if len(b) <= 60 else None

    @staticmethod
    def norm(s):
        return s.strip().replace(" ", "_").replace("/", "").replace("-", "_").replace("__", "_").upper()

    def rng(self, row, fid):
        if row.get("badrange"):
            self.add("R1001", fid, row["badrange"])
            return row["badrange"], row["badrange"]
        lo, hi = row["lo"], row["hi"]
        if row.get("rev") and lo != hi:
            self.add("R1002", fid, "%d:%d" % (lo, hi))
            lo, hi = hi, lo
        return {"low": lo, "high": hi}, str(lo)

    def struct(self, t, ent, fid):
        out = []
        for row in effective(t["rows"]) + list(t.get("dyn", ())):
            k = row["t"]
            if k == "head":
                continue
            if k == "note":
                break
            if k == "ell":
                out.append({"label": ELL, "range": {"low": -1, "high": -1}})
                continue
            if k == "kvnote":
                continue
            if k == "poison":
                raise Failed()
            if k in ("rsvd", "obs"):
                rg, _ = self.rng(row, fid)
                out.append({"label": RES if k == "rsvd" else OBS, "range": rg})
                continue
            if k == "dyn":
                rg = {"low": row["b"], "high": row["a"]}
                key = row["b"]
            else:
                rg, key = self.rng(row, fid)
            if t.get("attr"):
                self.add("L1003", fid, key)
                label = "".join(w[0] for w in row["name"].split())
            elif row.get("acr"):
                label = row["acr"]
            else:
                label = "".join(w[0] for w in row["name"].split())
            label = self.norm(label)
            if not (label[0].isalpha() and label.replace("_", "a").isalnum()):
                self.add("L1004", fid, key, label=label)
            self.subs(row, fid, key)
            fld = {"label": label.lower(), "range": rg}
            b = self.brief(row)
            if b:
                fld["brief"] = b
            out.append(fld)
        if t["kind"] == "bits":
            out.reverse()
        self.check_struct(out, fid)
        return out

    def check_struct(self, out, fid):
        if len(out) < 2:
            return

        def rg(f):
            return None if f["label"] == ELL or isinstance(f["range"], str) else f["range"]

        def key(f):
            return f["range"] if isinstance(f["range"], str) else str(f["range"]["low"])
        prev = rg(out[0])
        for f in out:
            cur = rg(f)
            if cur is None:
                prev = None
            elif prev is None:
                prev = cur
            elif isinstance(prev["low"], int) and isinstance(cur["low"], int) and prev["low"] > cur["low"]:
                self.add("T1004", fid)
                return
        seen = {out[0]["label"]}
        prev = rg(out[0])
        for f in out[1:]:
            if f["label"] not in (RES, ELL):
                if f["label"] in seen:
                    self.add("L1002", fid, key(f), label=f["label"])
                seen.add(f["label"])
            cur = rg(f)
            if cur is None:
                prev = None
                continue
            if prev is not None and isinstance(prev["high"], int) and isinstance(cur["low"], int):
                if prev["high"] >= cur["low"]:
                    self.add("T1001", fid, key(f))
                elif prev["high"] + 1 != cur["low"]:
                    self.add("T1002", fid, key(f))
            prev = cur

    def values(self, t, ent, fid):
        out = []
        ov = OVERRIDES.get(self.q, {})
        for row in effective(t["rows"]):
            k = row["t"]
            if k == "head":
                continue
            if k == "note":
                break
            if k in ("ell", "ell2"):
                out.append({"val": ELL, "label": ELL})
                continue
            if k == "poison":
                if row["how"] == "nop" and not t.get("attr"):
                    self.add("L1000", fid, row["val"].lower())
                raise Failed()
            val = row["val"].lower()
            if (fid, val) in ov:
                label = ov[(fid, val)]
                self.add("L1007", fid, val)
            elif k == "rsvd":
                out.append({"val": val, "label": RES})
                continue
            else:
                name = row["name"]
                if t.get("attr"):
                    name = name.lower()
                    self.add("L1003", fid, val)
                    label = name.replace(" ", "_").upper()
                else:
                    label = name.split(":")[0]
                i = 0
                while i < len(label) and label[i].isdigit():
                    i += 1
                if i:
                    label = ("%s_%s" % (label[i:].strip("_"), label[:i])).strip("_")
                label = self.norm(label)
                if not (label[0].isalpha() and label.replace("_", "a").isalnum()):
                    self.add("L1004", fid, val, label=label)
            f = {"val": val, "label": label}
            b = self.brief(row)
            if b is not None:
                f["brief"] = b
            self.subs(row, fid, val)
            out.append(f)
        if len(out) >= 2:
            labels, vals = set(), set()
            for f in out:
                if f["label"] in (RES, ELL):
                    continue
                if f["label"] in labels:
                    self.add("L1002", fid, f["val"], label=f["label"])
                labels.add(f["label"])
                if f["val"] in vals:
                    self.add("V1002", fid, f["val"])
                vals.add(f["val"])
        return out


def healed(doc):
    """the document without its poisoned rows"""
    import copy
    d = copy.deepcopy(doc)

    def rec(t):
        t["rows"] = [r for r in t["rows"] if r["t"] != "poison"]
        for r in t["rows"]:
            for s in r.get("sub", ()):
                rec(s)
    for f in d["figs"]:
        rec(f)
    return d


def lint_key(e):
    """comparable form of a reported lint entry (the wording of messages is free)"""
    d = {k: v for k, v in e.items() if k != "msg"}
    return d


def diff_json(got, model, ignore=()):
    """None if the parsed JSON output agrees with the model, else a short reason"""
    if not isinstance(got, dict) or "entities" not in got or "meta" not in got:
        return "not a model document"
    ge, me = got["entities"], model.entities
    for i in range(max(len(ge), len(me))):
        if i >= len(ge):
            return "entity missing: figure %s" % me[i]["fig_id"]
        if i >= len(me):
            return "extra entity: figure %s" % ge[i].get("fig_id")
        if ge[i] != me[i]:
            return "entity %d differs: got %.300r want %.300r" % (i, ge[i], me[i])
    if "lint" not in got["meta"]:
        return "lint section missing"
    gl = [lint_key(e) for e in got["meta"]["lint"]]
    ml = [e for e in model.lint if e["code"] not in ignore]
    for i in range(max(len(gl), len(ml))):
        if i >= len(gl):
            return "lint finding missing: %r" % (ml[i],)
        if i >= len(ml):
            return "extra lint finding: %r" % (gl[i],)
        if gl[i] != ml[i]:
            return "lint finding %d differs: got %.300r want %.300r" % (i, gl[i], ml[i])
    for e in got["meta"]["lint"]:
        if not isinstance(e.get("msg"), str) or not e["msg"]:
            return "lint finding without message"
    m = got["meta"]
    if m.get("specification") != model.doc["key"].lower() or m.get("revision") != model.doc["rev"].lower():
        return "specification or revision differ: %r %r" % (m.get("specification"), m.get("revision"))
    return None
