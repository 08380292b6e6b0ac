#!/usr/bin/env python3
"""Writes harness/c06_methods.go: one hub (and receiver) method per parameter list up to three parameters."""
import itertools, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {"i": "int", "s": "string", "c": "<-chan int", "d": "chan string"}
names = ["".join(p) for n in range(4) for p in itertools.product("iscd", repeat=n)]
out = ["// Code generated by tools/gen_c06.py. DO NOT EDIT.", "package main", "", "var sigNames = []string{%s}" % ", ".join('"%s"' % n for n in names), ""]
for typ in ("sigHub", "sigReceiver"):
    for n in names:
        ps = ", ".join("p%d %s" % (i, T[c]) for i, c in enumerate(n))
        args = "".join(", p%d" % i for i in range(len(n)))
        ret, kw = (" string", "return ") if typ == "sigHub" else ("", "")
        out.append("func (h *%s) M%s(%s)%s { %sh.run(\"%s\"%s) }" % (typ, n, ps, ret, kw, n, args))
    out.append("")
open(os.path.join(V, "harness", "c06_methods.go"), "w").write("\n".join(out))
