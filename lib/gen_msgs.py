#!/usr/bin/env python3
"""Generates C++ message structs from /repo/msg/*.msg and /repo/srv/*.srv.

    gen_msgs.py REPO OUT

Stand-in for rosidl: same field names, types and constants, nothing else."""
import os
import re
import sys

PRIM = {"bool": "bool", "byte": "uint8_t", "char": "uint8_t", "float32": "float", "float64": "double",
        "string": "std::string", **{f"{u}int{n}": f"{u}int{n}_t" for u in ("", "u") for n in (8, 16, 32, 64)}}


def parse(text):
    fields, consts = [], []
    for line in text.split("\n"):
        line = line.split("#")[0].strip()
        if not line:
            continue
        m = re.match(r"^(\w+)\s+(\w+)\s*=\s*(.+)$", line)
        if m:
            consts.append((PRIM.get(m[1], "int32_t"), m[2], m[3].strip()))
            continue
        m = re.match(r"^([\w/]+)(\[(\d*)\])?\s+(\w+)(\s+\S+)?$", line)
        if not m:
            raise SystemExit(f"cannot parse message line: {line!r}")
        t, arr, n, name = m[1], m[2], m[3], m[4]
        if t in PRIM:
            ct = PRIM[t]
        elif "/" in t:
            pkg, ty = t.split("/")[0], t.split("/")[-1]
            ct = f"{pkg}::msg::{ty}"
        else:
            ct = f"ndt_2d::msg::{t}"
        if arr:
            ct = f"std::array<{ct}, {n}>" if n else f"std::vector<{ct}>"
        fields.append((ct, name))
    return fields, consts


def struct(name, text):
    fields, consts = parse(text)
    out = [f"struct {name}", "{", f"  NDT_STUB_PTRS({name})"]
    out += [f"  static constexpr {t} {n} = {v};" for t, n, v in consts]
    out += [f"  {t} {n}{{}};" for t, n in fields]
    return "\n".join(out + ["};"])


def snake(n):
    return re.sub(r"(?<=[a-z0-9])([A-Z])", r"_\1", n).lower()


HEAD = ("#pragma once\n#include <array>\n#include <cstdint>\n#include <memory>\n#include <string>\n#include <vector>\n"
        "#include <geometry_msgs/msg/all.hpp>\n")


def main(repo, out):
    for kind in ("msg", "srv"):
        d = os.path.join(repo, kind)
        os.makedirs(os.path.join(out, "ndt_2d", kind), exist_ok=True)
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            name, ext = os.path.splitext(f)
            text = open(os.path.join(d, f)).read()
            if ext == ".msg":
                body = f"namespace ndt_2d {{ namespace msg {{\n{struct(name, text)}\n}} }}\n"
            elif ext == ".srv":
                req, _, res = text.partition("---")
                body = (f"namespace ndt_2d {{ namespace srv {{\n{struct(name + '_Request', req)}\n"
                        f"{struct(name + '_Response', res)}\n"
                        f"struct {name} {{ using Request = {name}_Request; using Response = {name}_Response; }};\n}} }}\n")
            else:
                continue
            open(os.path.join(out, "ndt_2d", kind, snake(name) + ".hpp"), "w").write(HEAD + body)


if __name__ == "__main__":
    main(*sys.argv[1:3])
