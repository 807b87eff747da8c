#!/usr/bin/env python3
"""Rewrites textual LLVM IR: floating point operations and environment calls go to the runtime."""
import re, sys

PRED = {p: i for i, p in enumerate(
    "false oeq ogt oge olt ole one ord uno ueq ugt uge ult ule une true".split())}
RENAME = {
 "printf": "__rt_printf", "fprintf": "__rt_fprintf", "puts": "__rt_puts", "putchar": "__rt_putchar",
 "fputs": "__rt_fputs", "fputc": "__rt_fputc", "putc": "__rt_fputc", "fwrite": "__rt_fwrite",
 "sprintf": "__rt_sprintf", "snprintf": "__rt_snprintf", "vprintf": "__rt_vprintf", "vfprintf": "__rt_vfprintf",
 "vsnprintf": "__rt_vsnprintf", "vsprintf": "__rt_vsprintf",
 "perror": "__rt_perror", "exit": "__rt_exit", "_exit": "__rt_exit", "abort": "__rt_abort",
 "fopen": "__rt_fopen", "freopen": "__rt_freopen", "fclose": "__rt_fclose", "fflush": "__rt_fflush",
 "sscanf": "__rt_sscanf", "__isoc99_sscanf": "__rt_sscanf", "__isoc23_sscanf": "__rt_sscanf",
 "fscanf": "__rt_fscanf", "__isoc99_fscanf": "__rt_fscanf", "__isoc23_fscanf": "__rt_fscanf",
 "strtod": "__rt_strtod", "strtof": "__rt_strtof", "atof": "__rt_atof",
 "malloc": "__rt_malloc", "calloc": "__rt_calloc", "realloc": "__rt_realloc", "free": "__rt_free",
 "clock": "__rt_clock", "time": "__rt_time", "difftime": "__rt_difftime", "clock_gettime": "__rt_clock_gettime",
 "sqrt": "__rt_sqrt", "sqrtf": "__rt_sqrtf", "pow": "__rt_pow", "hypot": "__rt_hypot", "fabs": "__rt_fabs", "fabsf": "__rt_fabsf",
 "log": "__rt_log", "log2": "__rt_log2", "log10": "__rt_log10", "exp": "__rt_exp", "ceil": "__rt_ceil", "floor": "__rt_floor",
 "round": "__rt_round", "trunc": "__rt_trunc", "fmin": "__rt_fmin", "fmax": "__rt_fmax", "rand": "__rt_rand", "srand": "__rt_srand",
 "__assert_fail": "__rt_assert_fail", "isnan": "__rt_isnan",
 "getline": "__rt_getline", "getdelim": "__rt_getdelim",
}
INTRIN = {"llvm.fabs.f64": "__rt_fabs", "llvm.fabs.f32": "__rt_fabsf", "llvm.sqrt.f64": "__rt_sqrt", "llvm.sqrt.f32": "__rt_sqrtf",
 "llvm.pow.f64": "__rt_pow", "llvm.log.f64": "__rt_log", "llvm.log2.f64": "__rt_log2", "llvm.log10.f64": "__rt_log10",
 "llvm.exp.f64": "__rt_exp", "llvm.ceil.f64": "__rt_ceil", "llvm.floor.f64": "__rt_floor", "llvm.round.f64": "__rt_round",
 "llvm.trunc.f64": "__rt_trunc", "llvm.minnum.f64": "__rt_fmin", "llvm.maxnum.f64": "__rt_fmax",
 "llvm.fmuladd.f64": "__rt_fmuladd", "llvm.fma.f64": "__rt_fmuladd", "llvm.powi.f64.i32": "__rt_powi"}
FL = r"(?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )*"
bin_re = re.compile(r"^(\s*%\S+ = )(fadd|fsub|fmul|fdiv|frem) " + FL + r"(double|float) (\S+), ([^,\s]+)")
neg_re = re.compile(r"^(\s*%\S+ = )fneg " + FL + r"(double|float) ([^,\s]+)")
cmp_re = re.compile(r"^(\s*%\S+ = )fcmp " + FL + r"(\w+) (double|float) (\S+), ([^,\s]+)")
cvt_re = re.compile(r"^(\s*%\S+ = )(fptrunc|fpext|fptosi|fptoui) (double|float) (\S+) to (\w+)")
call_re = re.compile(r"^(\s*(?:%\S+ = )?(?:tail |musttail |notail )?(?:call|invoke) )(.*)$")
sym_re = re.compile(r'@([A-Za-z_][\w.$]*)|@"([^"]+)"')

icmp_re = re.compile(r"^\s*%\S+ = icmp \w+ (i16|i32|i64) ([^,]+), ([^,\s]+)")
tr1_re = re.compile(r"^\s*%\S+ = trunc i8 (%\S+) to i1")
sw_re = re.compile(r"^\s*switch (i16|i32|i64) (%[^,\s]+),")

def main(src, dst, externalize, ichk=False):
    """ichk: comparisons and branches on integers that still hold the pattern of uninitialised memory are reported"""
    used = set(); out = []
    unsupported = []
    for line in open(src):
        line = line.rstrip("\n")
        if ichk:
            m = icmp_re.match(line) or sw_re.match(line)
            if m:
                for v in m.groups()[1:]:
                    if v.startswith("%"): f = "__sym_ichk_" + m.group(1); used.add(f); out.append("  call void @%s(%s %s)" % (f, m.group(1), v))
            m = tr1_re.match(line)
            if m: used.add("__sym_ichk_i8"); out.append("  call void @__sym_ichk_i8(i8 %s)" % m.group(1))
        m = bin_re.match(line)
        if m:
            pre, op, ty, a, b = m.groups()
            f = "__sym_%s_%s" % (op, ty); used.add(f)
            out.append("%scall %s @%s(%s %s, %s %s)" % (pre, ty, f, ty, a, ty, b)); continue
        m = neg_re.match(line)
        if m:
            pre, ty, a = m.groups(); f = "__sym_fneg_" + ty; used.add(f)
            out.append("%scall %s @%s(%s %s)" % (pre, ty, f, ty, a)); continue
        m = cmp_re.match(line)
        if m:
            pre, pr, ty, a, b = m.groups(); f = "__sym_fcmp_" + ty; used.add(f)
            out.append("%scall zeroext i1 @%s(i32 %d, %s %s, %s %s)" % (pre, f, PRED[pr], ty, a, ty, b)); continue
        m = cvt_re.match(line)
        if m:
            pre, op, ty, a, to = m.groups()
            if op in ("fptrunc", "fpext"):
                f = "__sym_" + op; used.add(f)
                out.append("%scall %s @%s(%s %s)" % (pre, to, f, ty, a))
            else:
                f = "__sym_%s_%s" % (op, ty); used.add(f)
                tmp = "%" + "vfcvt%d" % len(out)
                out.append("  %s = call i64 @%s(%s %s)" % (tmp, f, ty, a))
                if to == "i64": out.append("%sadd i64 %s, 0" % (pre, tmp))
                else: out.append("%strunc i64 %s to %s" % (pre, tmp, to))
            continue
        if re.match(r"^\s*%\S+ = (fadd|fsub|fmul|fdiv|fcmp|fneg) ", line): unsupported.append(line.strip())
        def ren(mm):
            n = mm.group(1) or mm.group(2)
            if n in RENAME: return "@" + RENAME[n]
            if n in INTRIN: return "@" + INTRIN[n]
            return mm.group(0)
        if "@" in line and not line.startswith("!") and not re.match(r'^@', line):
            d = re.match(r"^(declare|define)", line)
            line2 = sym_re.sub(ren, line)
            if d and line.startswith("define"):
                # names defined by the code itself are not redirected
                mm = re.match(r"^define [^@]*@([\w.$]+)\(", line)
                if mm and mm.group(1) in RENAME:
                    line2 = line.replace("@" + mm.group(1) + "(", "@" + RENAME[mm.group(1)] + "__user(")
                name = mm.group(1) if mm else None
                if name and name in externalize:
                    line2 = re.sub(r"^define internal ", "define ", line2)
            line = line2
        elif line.startswith("@"):
            line = line[:1] + sym_re.sub(ren, line[1:])
        out.append(line)
    decl = []
    for f in sorted(used):
        if f.startswith("__sym_fcmp"): decl.append("declare zeroext i1 @%s(i32, %s, %s)" % (f, f.split("_")[-1], f.split("_")[-1]))
        elif f.startswith("__sym_ichk"): decl.append("declare void @%s(%s)" % (f, f.split("_")[-1]))
        elif f == "__sym_fptrunc": decl.append("declare float @__sym_fptrunc(double)")
        elif f == "__sym_fpext": decl.append("declare double @__sym_fpext(float)")
        elif f.startswith("__sym_fpto"): decl.append("declare i64 @%s(%s)" % (f, f.split("_")[-1]))
        elif f.startswith("__sym_fneg"): decl.append("declare %s @%s(%s)" % (f.split("_")[-1], f, f.split("_")[-1]))
        else: ty = f.split("_")[-1]; decl.append("declare %s @%s(%s, %s)" % (ty, f, ty, ty))
    # duplicate declarations after renaming (intrinsic + libm name)
    seen = set(); res = []
    for l in out:
        m = re.match(r"^declare [^@]*@([\w.$]+)\(", l)
        if m:
            if m.group(1) in seen: continue
            seen.add(m.group(1))
        res.append(l)
    open(dst, "w").write("\n".join(res) + "\n" + "\n".join(decl) + "\n")
    for u in unsupported: print("UNSUPPORTED " + u)
    return sum(1 for l in res if "__sym_" in l)

if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2], set(sys.argv[3].split(",")) if len(sys.argv) > 3 else set())
