#!/usr/bin/env python3
"""Rewrite the double-precision operations of an LLVM-IR module (textual .ll,
clang 18) into calls of the symbolic run time (rt_sym.cpp).

A double that holds a symbolic term is a NaN with a reserved tag; loads,
stores, phis, selects, argument passing and memcpy of doubles are untouched.
Everything that *computes* with or *branches* on a double is redirected.
"""
import re
import subprocess
import sys

BIN = {"fadd": "sxi_fadd", "fsub": "sxi_fsub", "fmul": "sxi_fmul", "fdiv": "sxi_fdiv", "frem": "sxi_frem"}
FLAGS = r"(?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\s+)*"
PREDS = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "uno", "ueq", "ugt", "uge", "ult", "ule", "une", "true"]

# unary / binary library functions and intrinsics on doubles
CALLS = {
    "llvm.fabs.f64": "sxi_fabs", "fabs": "sxi_fabs",
    "llvm.sqrt.f64": "sxi_sqrt", "sqrt": "sxi_sqrt",
    "llvm.fma.f64": "sxi_fma", "llvm.fmuladd.f64": "sxi_fma", "fma": "sxi_fma",
    "llvm.minnum.f64": "sxi_fmin", "fmin": "sxi_fmin", "llvm.minimum.f64": "sxi_fmin",
    "llvm.maxnum.f64": "sxi_fmax", "fmax": "sxi_fmax", "llvm.maximum.f64": "sxi_fmax",
    "llvm.copysign.f64": "sxi_copysign", "copysign": "sxi_copysign",
    "llvm.pow.f64": "sxi_pow", "pow": "sxi_pow",
    "llvm.exp.f64": "sxi_exp", "exp": "sxi_exp",
    "llvm.log.f64": "sxi_log", "log": "sxi_log",
    "log10": "sxi_log10", "llvm.log10.f64": "sxi_log10",
    "llvm.sin.f64": "sxi_sin", "sin": "sxi_sin",
    "llvm.cos.f64": "sxi_cos", "cos": "sxi_cos",
    "llvm.floor.f64": "sxi_floor", "floor": "sxi_floor",
    "llvm.ceil.f64": "sxi_ceil", "ceil": "sxi_ceil",
    "hypot": "sxi_hypot", "exp2": "sxi_unsupported1", "tan": "sxi_unsupported1",
    "cbrt": "sxi_unsupported1", "atan": "sxi_unsupported1", "tanh": "sxi_unsupported1",
    "acos": "sxi_unsupported1", "asin": "sxi_unsupported1",
    "atan2": "sxi_unsupported2", "fmod": "sxi_unsupported2",
    "llvm.round.f64": "sxi_unsupported1", "round": "sxi_unsupported1",
    "llvm.trunc.f64": "sxi_unsupported1", "trunc": "sxi_unsupported1",
    "llvm.rint.f64": "sxi_unsupported1", "llvm.nearbyint.f64": "sxi_unsupported1",
    "ldexp": "sxi_ldexp",
}
ALLOC = {"malloc": "sx_malloc", "_Znwm": "sx_malloc", "_Znam": "sx_malloc"}

SKIP_FN = re.compile(r"N3fmt|3fmt2v|_ZNSt7__cxx11|_ZNSo|_ZStls|_ZNK3fmt|_GLOBAL__sub_I|basic_format|formatter")


def demangle_filter(names):
    p = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
    return p.stdout.splitlines()


def instrument(src, merge_select=True):
    lines = src.split("\n")
    out = []
    used = {}
    stats = {"functions": 0, "ops": 0, "cmps": 0, "merged": 0, "fns": []}
    cur = None
    skip = False
    i = 0
    # collect functions
    n = len(lines)
    re_def = re.compile(r'^define .*?@("?[^"(\s]+"?)\(')
    re_bin = re.compile(r'^(\s*%\S+ = )(fadd|fsub|fmul|fdiv|frem) ' + FLAGS + r'double ([^,]+), ([^,]+)(.*)$')
    re_neg = re.compile(r'^(\s*%\S+ = )fneg ' + FLAGS + r'double ([^,]+)(.*)$')
    re_cmp = re.compile(r'^(\s*)(%\S+) = fcmp ' + FLAGS + r'(\w+) double ([^,]+), ([^,]+)(.*)$')
    re_sel = re.compile(r'^(\s*%\S+ = )select ' + FLAGS + r'i1 (%[^,]+), double ([^,]+), double ([^,]+)(.*)$')
    re_toint = re.compile(r'^(\s*%\S+ = )(fptosi|fptoui) double (\S+) to (i\d+)(.*)$')
    re_ftr = re.compile(r'^(\s*%\S+ = )fptrunc double (\S+) to float(.*)$')
    re_ext = re.compile(r'^(\s*%\S+ = )fpext double (\S+) to x86_fp80(.*)$')
    re_call = re.compile(r'^(\s*(?:%\S+ = )?(?:tail |musttail |notail )?(?:call|invoke) .*?)@([\w.]+)(\(.*)$')
    re_cls = re.compile(r'^(\s*%\S+ = )(?:tail )?call (?:noundef )?i1 @llvm\.is\.fpclass\.f64\(double (?:noundef )?([^,]+), i32 (?:noundef )?(\d+)\)(.*)$')
    re_bit = re.compile(r'^(\s*%\S+ = )bitcast double (\S+) to i64(.*)$')
    re_vec = re.compile(r'<\d+ x double>')

    while i < n:
        l = lines[i]
        m = re_def.match(l)
        if m:
            cur = m.group(1).strip('"')
            skip = bool(SKIP_FN.search(cur))
            j = i
            body = []
            while lines[j] != "}":
                body.append(lines[j])
                j += 1
            body.append("}")
            if skip:
                out.extend(body)
            else:
                stats["functions"] += 1
                text, touched = body, 0
                # find fcmps that feed only double selects
                mergeable = {}
                if merge_select:
                    cmps = {}
                    for b in body:
                        mm = re_cmp.match(b)
                        if mm:
                            cmps[mm.group(2)] = mm
                    if cmps:
                        uses = {c: [0, 0] for c in cmps}
                        tok = re.compile(r'%[\w.$-]+|%"[^"]+"')
                        for b in body:
                            ms = re_sel.match(b)
                            for t in tok.findall(b):
                                if t in uses:
                                    uses[t][0] += 1
                            if ms and ms.group(2) in uses:
                                uses[ms.group(2)][1] += 1
                        for c, (tot, sel) in uses.items():
                            if sel > 0 and tot == sel + 1:
                                mergeable[c] = cmps[c]
                for b in body:
                    m = re_bin.match(b)
                    if m:
                        f = BIN[m.group(2)]
                        out.append(f"{m.group(1)}call double @{f}(double {m.group(3)}, double {m.group(4)})")
                        used[f] = "double (double, double)"
                        stats["ops"] += 1
                        touched += 1
                        continue
                    m = re_neg.match(b)
                    if m:
                        out.append(f"{m.group(1)}call double @sxi_fneg(double {m.group(2)})")
                        used["sxi_fneg"] = "double (double)"
                        touched += 1
                        continue
                    m = re_cmp.match(b)
                    if m:
                        touched += 1
                        if m.group(2) in mergeable:
                            continue
                        p = PREDS.index(m.group(3))
                        out.append(f"{m.group(1)}{m.group(2)} = call i1 @sxi_fcmp(i32 {p}, double {m.group(4)}, double {m.group(5)})")
                        used["sxi_fcmp"] = "i1 (i32, double, double)"
                        stats["cmps"] += 1
                        continue
                    m = re_sel.match(b)
                    if m and m.group(2) in mergeable:
                        c = mergeable[m.group(2)]
                        p = PREDS.index(c.group(3))
                        out.append(f"{m.group(1)}call double @sxi_select(i32 {p}, double {c.group(4)}, double {c.group(5)}, double {m.group(3)}, double {m.group(4)})")
                        used["sxi_select"] = "double (i32, double, double, double, double)"
                        stats["merged"] += 1
                        continue
                    m = re_toint.match(b)
                    if m:
                        w = m.group(4)
                        f = f"sxi_{m.group(2)}_{w}"
                        out.append(f"{m.group(1)}call {w} @{f}(double {m.group(3)})")
                        used[f] = f"{w} (double)"
                        continue
                    m = re_ftr.match(b)
                    if m:
                        t = f"%sxt{len(out)}"
                        out.append(f"  {t} = call double @sxi_concrete(double {m.group(2)})")
                        out.append(f"{m.group(1)}fptrunc double {t} to float")
                        used["sxi_concrete"] = "double (double)"
                        continue
                    m = re_ext.match(b)
                    if m:
                        t = f"%sxt{len(out)}"
                        out.append(f"  {t} = call double @sxi_concrete(double {m.group(2)})")
                        out.append(f"{m.group(1)}fpext double {t} to x86_fp80")
                        used["sxi_concrete"] = "double (double)"
                        continue
                    m = re_cls.match(b)
                    if m:
                        out.append(f"{m.group(1)}call i1 @sxi_fpclass(double {m.group(2)}, i32 {m.group(3)})")
                        used["sxi_fpclass"] = "i1 (double, i32)"
                        touched += 1
                        continue
                    m = re_bit.match(b)
                    if m:
                        stats.setdefault("bitcasts", []).append(cur)
                        out.append(f"{m.group(1)}call i64 @sxi_bits(double {m.group(2)})")
                        used["sxi_bits"] = "i64 (double)"
                        continue
                    m = re_call.match(b)
                    if m and m.group(2) in CALLS:
                        f = CALLS[m.group(2)]
                        rest = re.sub(r'\)\s*#\d+', ')', m.group(3))
                        rest = re.sub(r', !\w+ !\d+', '', rest)
                        out.append(f"{m.group(1)}@{f}{rest}".replace("tail call", "call"))
                        nargs = rest.count("double ")
                        if f == "sxi_ldexp":
                            used[f] = "double (double, i32)"
                        else:
                            used[f] = "double (" + ", ".join(["double"] * nargs) + ")"
                        touched += 1
                        stats["ops"] += 1
                        continue
                    if m and m.group(2) in ALLOC:
                        f = ALLOC[m.group(2)]
                        out.append(f"{m.group(1)}@{f}{m.group(3)}")
                        used[f] = "ptr (i64)"
                        continue
                    if re_vec.search(b) and not b.startswith("define"):
                        if re.search(r'= (fadd|fsub|fmul|fdiv|fneg|fcmp|shufflevector|extractelement|insertelement|call)', b):
                            raise SystemExit(f"instrument: vector double op in {cur}: {b}")
                    if re.search(r'= (?:tail )?call .*double @llvm\.', b) and "f64" in b:
                        raise SystemExit(f"instrument: unhandled intrinsic in {cur}: {b}")
                    out.append(b)
                if touched:
                    stats["fns"].append(cur)
            i = j + 1
            continue
        # drop attributes that would let later passes assume purity
        if l.startswith("attributes #"):
            l = re.sub(r'memory\([^)]*\)|\bwillreturn\b|\bnofree\b|\bnosync\b|\bmustprogress\b|\bspeculatable\b|\bnorecurse\b|alloc\w+\([^)]*\)|"alloc-family"="[^"]*"|allockind\("[^"]*"\)', '', l)
        out.append(l)
        i += 1
    # declarations
    text = "\n".join(out)
    decl = []
    for f, ty in sorted(used.items()):
        ret, args = ty.split(" ", 1)
        if not re.search(r'^(declare|define) .*@' + re.escape(f) + r'\(', text, re.M):
            decl.append(f"declare {ret} @{f}{args}")
    return text + "\n" + "\n".join(decl) + "\n", stats


if __name__ == "__main__":
    s = open(sys.argv[1]).read()
    t, st = instrument(s)
    open(sys.argv[2], "w").write(t)
    st["fns"] = len(st["fns"])
    print(st, file=sys.stderr)
