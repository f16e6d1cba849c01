"""
C29: ItemFile.  All texts over an alphabet holding every character with a special meaning, and all sequences of the four read functions
over lists of items, against a regular-expression tokenizer written from the documentation.
"""

import itertools
import os
import re
import tempfile

from mc import core, driver
from mc.core import Family

PROPERTY = "C29"
ASSUMPTIONS = [
    "texts of up to 6 (7) characters over a, blank, tab, newline, both quotes, #, { and }; item lists of up to 3 items",
    "an unclosed quote or brace ends at the end of its line (documented for braces); a quote or brace directly after an item ends that item",
]
sim = None
ALPHABET = "a \n\"'#{}\t"
TOKEN = re.compile(r"""(?P<d>"[^"]*(?:"|$))|(?P<s>'[^']*(?:'|$))|(?P<c>\#.*$)|(?P<b>\{[^}]*(?:\}|$))|(?P<w>[ \t]+)|(?P<i>[^ \t"'#{]+)""", re.X)


def setup():
    global sim
    driver.setup()
    sim = driver.sim


def tokens(text):
    out = []
    for line in text.replace("\r", "").split("\n"):
        for m in TOKEN.finditer(line):
            kind, s = m.lastgroup, m.group()
            if kind == "i":
                out.append(s)
            elif kind in "ds":
                closed = len(s) > 1 and s[-1] == s[0]
                body = s[1:-1] if closed else s[1:]
                if closed or body:
                    out.append(body)
    return out


def read_all(f, limit):
    out = []
    for _ in range(limit):
        try:
            out.append(f.read_item())
        except EOFError:
            return out
    return out + ["... no end of file"]


def text_check(case, st):
    text = case + "\n"
    want = tokens(text)
    if st is not None:
        st.trans(len(want) + 1)
        st.state(tuple(want))
        st.outcome(f"{len(want)} items")
    with sim.ItemFile(text) as f:
        got = read_all(f, len(want) + 3)
        again = read_all(f, 2)
    if got != want:
        return f"items of {text!r}: {got}, expected {want}"
    if again:
        return f"after the end of {text!r}: {again} instead of EOFError"


def file_check(case, st):
    text, newline = case
    data = text.replace("\n", newline)
    want = tokens(text)
    if st is not None:
        st.trans(len(want) + 1)
        st.state(tuple(want))
        st.outcome(f"{len(want)} items")
    fd, name = tempfile.mkstemp(prefix="verif_c29_")
    try:
        with os.fdopen(fd, "wb") as o:
            o.write(data.encode("utf8"))
        f = sim.ItemFile(name)
        got = read_all(f, len(want) + 3)
        again = read_all(f, 2)
        f.close()
        with sim.ItemFile(name) as g:
            got2 = read_all(g, len(want) + 3)
        with sim.ItemFile(name) as g, sim.ItemFile(name) as h:
            # two readers of one file do not disturb each other
            inter = [(read_all1(g), read_all1(h)) for _ in range(len(want) + 1)]
        still = [x for x in os.listdir("/proc/self/fd") if os.path.realpath("/proc/self/fd/" + x) == os.path.realpath(name)]
    finally:
        os.unlink(name)
    if got != want or got2 != want:
        return f"items of the file {data!r}: {got} / {got2}, expected {want}"
    if again:
        return f"after the end of the file {data!r}: {again} instead of EOFError"
    if inter != [(x, x) for x in want + [EOFError]]:
        return f"two readers of the file {data!r}: {inter}"
    if still:
        return "the file is still open after close or at the end of the with block"


def read_all1(f):
    try:
        return f.read_item()
    except EOFError:
        return EOFError


# text in the file, the item, int, float, bool (ValueError: denotes none)
V = ValueError
ITEMS = [
    ("1", "1", 1, 1.0, True),
    ("0", "0", 0, 0.0, False),
    ("-20", "-20", -20, -20.0, True),
    ("1.5", "1.5", V, 1.5, True),
    ("0,25", "0,25", V, 0.25, True),
    ("0.0", "0.0", V, 0.0, False),
    ("1e2", "1e2", V, 100.0, True),
    ("'007'", "007", 7, 7.0, True),
    ('" 12 "', " 12 ", 12, 12.0, True),
    ("true", "true", V, V, True),
    ("FALSE", "FALSE", V, V, False),
    ("' False '", " False ", V, V, False),
    ("abc", "abc", V, V, True),
    ("''", "", V, V, False),
    ('"a b"', "a b", V, V, True),
    ("None", "None", V, V, True),
    ("-0", "-0", 0, 0.0, False),
    ("'  '", "  ", V, V, False),
    ("falsehood", "falsehood", V, V, True),
    ("0x0", "0x0", V, V, True),
]
KINDS = ("item", "int", "float", "bool")


def reads_check(case, st):
    which, kinds, sep = case
    text = sep.join(ITEMS[i][0] for i in which) + "\n"
    f = sim.ItemFile(text)
    if st is not None:
        st.trans(len(kinds))
        st.state((which, kinds))
        st.outcome(len(which))
    for n, kind in enumerate(kinds):
        k = KINDS.index(kind)
        want = ITEMS[which[n]][k + 1] if n < len(which) else EOFError
        try:
            got = f.read_item() if kind == "item" else getattr(f, "read_item_" + kind)()
        except EOFError:
            got = EOFError
        except ValueError:
            got = ValueError
        if got != want or type(got) is not type(want):
            return f"reads {kinds} of {text!r}: read {n + 1} ({kind}) gave {got!r}, expected {want!r}"


def families(tier):
    full = tier == "thorough"
    n = 7 if full else 6
    texts = ["".join(t) for k in range(n + 1) for t in itertools.product(ALPHABET, repeat=k)]
    special = [a + b + c for a in ("x", "xy z", "'q r'", '"', "'", "{c}", "#", "") for b in ("", " ", "\t", "\n", "{", "}", "#", "''", '""') for c in ("w", "{a b}v", "'s t", '"s"t', "#u v", "} w", "é{€}ü", "\\n", "a\x0bb", "a,b;c")]
    files = [("".join(t), nl) for k in range(5 if full else 4) for t in itertools.product(ALPHABET, repeat=k) for nl in ("\n", "\r\n")]
    files += [(s + e, nl) for s in special for e in ("", "\n") for nl in ("\n", "\r\n")]
    m = range(len(ITEMS))
    reads = [(w, k, " ") for r in (0, 1, 2) for w in itertools.product(m, repeat=r) for k in itertools.product(KINDS, repeat=r + 2)]
    reads += [(w, k, sep) for w in itertools.product(m, repeat=2) for k in itertools.product(KINDS, repeat=2) for sep in ("\t", "\n", " # 5\n", "{6}", "\n\n  ", "{#}")]
    if full:
        reads += [(w, k, " ") for w in itertools.product(m, repeat=3) for k in itertools.product(KINDS, repeat=3)]
    return [
        Family("texts", texts + special, text_check, f"all texts of up to {n} characters over {ALPHABET!r}", setup),
        Family("files", files, file_check, "all texts of up to 3 (4) characters as a file, with both line ends", setup),
        Family("reads", reads, reads_check, "all sequences of read functions over all item lists", setup),
    ]
