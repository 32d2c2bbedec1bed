#!/usr/bin/env python3
"""Generate C++ message/service/config headers from the repository's own
.msg/.srv/.cfg files (plus the standard messages in /verif/ros/msg).

usage: gen_ros.py REPO OUTDIR [MSGDIR]
"""
import os, re, sys, types

PRIM = {"bool": "uint8_t", "int8": "int8_t", "uint8": "uint8_t", "byte": "int8_t",
        "int16": "int16_t", "uint16": "uint16_t", "int32": "int32_t", "uint32": "uint32_t",
        "int64": "int64_t", "uint64": "uint64_t", "float32": "float", "float64": "double",
        "string": "std::string", "time": "ros::Time", "duration": "ros::Duration"}


def fields(text):
    for line in text.splitlines():
        line = line.split("#")[0].strip()
        if not line:
            continue
        m = re.match(r"^([\w/]+)(\[\d*\])?\s+(\w+)\s*(?:=\s*(.+))?$", line)
        if not m:
            raise SystemExit("gen_ros: cannot parse message line %r" % line)
        yield m.group(1), m.group(2), m.group(3), m.group(4)


def ctype(pkg, t, incs):
    if t in PRIM:
        return PRIM[t]
    if t == "Header":
        incs.add("std_msgs/Header")
        return "::std_msgs::Header"
    if "/" not in t:
        t = pkg + "/" + t
    incs.add(t)
    return "::" + t.replace("/", "::")


def struct(pkg, name, text):
    incs, body, init = set(), [], []
    for t, arr, n, const in fields(text):
        if const is not None:
            body.append("  enum { %s = %s };" % (n, const.strip()))
            continue
        c = ctype(pkg, t, incs)
        if arr:
            k = arr[1:-1]
            c = "boost::array<%s, %s>" % (c, k) if k else "std::vector<%s>" % c
        body.append("  typedef %s _%s_type;\n  _%s_type %s;" % (c, n, n, n))
        if arr and arr != "[]":
            init.append("%s.fill(%s());" % (n, PRIM.get(t, "")))
        elif not arr and t in PRIM and t not in ("string", "time", "duration"):
            init.append("%s = 0;" % n)
    s = "struct %s {\n  %s() { %s }\n%s\n" % (name, name, " ".join(init), "\n".join(body))
    s += "  typedef boost::shared_ptr<%s> Ptr;\n  typedef boost::shared_ptr<%s const> ConstPtr;\n};\n" % (name, name)
    s += "typedef boost::shared_ptr<%s> %sPtr;\ntypedef boost::shared_ptr<%s const> %sConstPtr;\n" % (name, name, name, name)
    return s, incs


def header(out, pkg, name, body, incs):
    d = os.path.join(out, pkg)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, name + ".h"), "w") as f:
        f.write("#pragma once\n#include <string>\n#include <vector>\n#include <boost/array.hpp>\n"
                "#include <boost/shared_ptr.hpp>\n#include <ros/time.h>\n")
        for i in sorted(incs):
            f.write("#include <%s.h>\n" % i)
        f.write("namespace %s {\n%s}\n" % (pkg, body))


def gen_msgs(root, out, pkg, d):
    for fn in sorted(os.listdir(d)):
        p = os.path.join(d, fn)
        if fn.endswith(".msg"):
            name = fn[:-4]
            body, incs = struct(pkg, name, open(p).read())
            header(out, pkg, name, body, incs)
        elif fn.endswith(".srv"):
            name = fn[:-4]
            req, res = open(p).read().split("---")
            b1, i1 = struct(pkg, name + "Request", req)
            b2, i2 = struct(pkg, name + "Response", res)
            b = b1 + b2 + "struct %s { typedef %sRequest Request; typedef %sResponse Response; Request request; Response response; };\n" % (name, name, name)
            header(out, pkg, name, b, i1 | i2)


def read_cfg(path):
    """Evaluate a dynamic_reconfigure .cfg with a recording generator."""
    rec = {"consts": [], "params": [], "name": None}

    class Gen(object):
        def const(self, name, typ, value, descr=""):
            rec["consts"].append((name, value))
            return {"name": name, "value": value}

        def enum(self, consts, descr=""):
            return consts

        def add_group(self, *a, **k):
            return self

        def add(self, name, typ, level, descr="", default=None, *a, **k):
            rec["params"].append({"name": name, "type": typ, "level": level, "default": default,
                                  "min": a[0] if a else None, "max": a[1] if len(a) > 1 else None})

        def generate(self, pkg, node, name):
            rec["pkg"], rec["name"] = pkg, name
            return 0

    mods = {}
    for m in ("roslib", "dynamic_reconfigure", "dynamic_reconfigure.parameter_generator_catkin",
              "dynamic_reconfigure.parameter_generator"):
        mods[m] = types.ModuleType(m)
    mods["roslib"].load_manifest = lambda *_: None
    for m in mods.values():
        m.ParameterGenerator = Gen
        m.bool_t, m.int_t, m.double_t, m.str_t = "bool", "int", "double", "str"
    saved = {k: sys.modules.get(k) for k in mods}
    sys.modules.update(mods)
    try:
        exec(compile(open(path).read(), path, "exec"), {"__name__": "cfg"})
    except SystemExit:
        pass
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    return rec


def gen_cfg(path, out):
    rec = read_cfg(path)
    if not rec["name"]:
        raise SystemExit("gen_ros: %s did not call generate()" % path)
    T = {"bool": "bool", "int": "int", "double": "double", "str": "std::string"}
    cls = rec["name"] + "Config"
    s = "struct %s {\n" % cls
    for p in rec["params"]:
        s += "  %s %s;\n" % (T[p["type"]], p["name"])
    s += "  static %s __getDefault__() {\n    %s c = %s();\n" % (cls, cls, cls)
    for p in rec["params"]:
        d = p["default"]
        lit = ("true" if d else "false") if p["type"] == "bool" else ('"%s"' % d if p["type"] == "str" else repr(d if d is not None else 0))
        s += "    c.%s = %s;\n" % (p["name"], lit)
    s += "    return c;\n  }\n};\n"
    for n, v in rec["consts"]:
        s += "const int %s_%s = %d;\n" % (rec["name"], n, v)
    header(out, rec["pkg"], cls, s, set())
    return rec


def main(repo, out, msgdir=None):
    msgdir = msgdir or os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "ros", "msg")
    for pkg in sorted(os.listdir(msgdir)):
        gen_msgs(repo, out, pkg, os.path.join(msgdir, pkg))
    for pkg in ("sensor_fusion_comm",):
        for sub in ("msg", "srv"):
            d = os.path.join(repo, pkg, sub)
            if os.path.isdir(d):
                gen_msgs(repo, out, pkg, d)
    cfgs = []
    for pkg in ("msf_core", "msf_updates", "msf_distort"):
        d = os.path.join(repo, pkg, "cfg")
        for fn in sorted(os.listdir(d)):
            if fn.endswith(".cfg"):
                cfgs.append(gen_cfg(os.path.join(d, fn), out))
    return cfgs


if __name__ == "__main__":
    main(*sys.argv[1:])
