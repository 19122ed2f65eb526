#!/usr/bin/env python3
"""Writes spec/data/enc.json from a dump of the forward indexes (argument 1: {"index_code_point_<name>": [...]}, the
WHATWG index files, cross-checked against Python's and Node's codecs) and the label list (argument 2).  The reverse
indexes are derived here by the Standard's definitions; EncodingMC checks them against the forward indexes."""
import json, sys
d = json.load(open(sys.argv[1]))
names = [l.split(":")[0] for l in open(sys.argv[2])]
idx = {k: d["index_code_point_" + k] for k in ["jis0208", "jis0212", "big5", "euc_kr", "gb18030", "iso_2022_jp_katakana"]}
single = []
for n in names:
    k = "index_code_point_" + {"ISO_8859_8_I": "iso_8859_8"}.get(n, n.lower())
    single.append(d[k] if k in d and len(d[k]) == 128 else [])
def rev(ix, ok=lambda p: True, last=()):
    m = {}
    for p, c in enumerate(ix):
        if c != -1 and ok(p) and (c not in m or c in last): m[c] = p
    pages = [[] for _ in range(max(m) // 256 + 1)]
    for c, p in m.items():
        if not pages[c // 256]: pages[c // 256] = [-1] * 256
        pages[c // 256][c % 256] = p
    return pages
r = {"jis0208": rev(idx["jis0208"]), "Shift_JIS": rev(idx["jis0208"], lambda p: not 8272 <= p <= 8835),
     "big5": rev(idx["big5"], lambda p: p >= (0xA1 - 0x81) * 157, (0x2550, 0x255E, 0x2561, 0x256A, 0x5341, 0x5345)),
     "euc_kr": rev(idx["euc_kr"]), "gb18030": rev(idx["gb18030"])}
labels = []
for i, l in enumerate(open(sys.argv[2])):
    for w in l.split(":", 1)[1].split(): labels.append([[ord(c) for c in w], i + 1])
# the label get_encoding_label() gives: the lower-cased name
name_labels = [[ord(c) for c in n.lower().replace("_", "-")] for n in names]
for i, n in enumerate(names):
    if n == "Shift_JIS": name_labels[i] = [ord(c) for c in "shift_jis"]
json.dump({"idx": idx, "single": single, "rev": r, "ranges": d["index_code_point_gb18030_ranges"], "labels": labels, "names": name_labels},
          open(sys.argv[3], "w"), separators=(",", ":"))
