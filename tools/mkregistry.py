#!/usr/bin/env python3
"""Writes harness/units/registry.go: every type of the pinned specifications."""
import re, os
here = os.path.dirname(os.path.abspath(__file__))
out = ["// Code generated by tools/mkregistry.py; DO NOT EDIT.", "package units", "",
       'import (', '\t"reflect"', '', '\t"github.com/zeldovich/go-rpcgen/rfc1057"', '\t"github.com/zeldovich/go-rpcgen/rfc1813"', ')', '',
       "var registry = map[string]map[string]reflect.Type{"]
for p in ("rfc1057", "rfc1813"):
    s = open(f"{here}/../harness/units/specs/{p}.x").read()
    s = re.sub(r"/\*.*?\*/", "", s, flags=re.S)
    names = []
    for m in re.finditer(r"^(?:enum|struct|union)\s+(\w+)|^typedef\s+([^;]*);", s, re.M):
        n = m.group(1) or re.findall(r"\w+", re.sub(r"[<\[].*", "", m.group(2)))[-1]
        names.append(n)
    out.append(f'\t"{p}": {{')
    for n in names:
        g = n[0].upper() + n[1:]
        out.append(f'\t\t"{n}": reflect.TypeOf((*{p}.{g})(nil)).Elem(),')
    out.append("\t},")
out.append("}")
open(f"{here}/../harness/units/registry.go", "w").write("\n".join(out) + "\n")
