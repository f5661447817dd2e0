#!/usr/bin/env python3
"""tools/mutate.py FILE PROPS [--n N] [--seed S] [--out DIR]: small syntactic changes to one source file, one at a time, each judged by
the fast form of the given checks (variants ref[,port]); prints those that no check noticed, for inspection by hand."""
import os, re, sys, random, subprocess, shutil, json, argparse
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("file"); ap.add_argument("props"); ap.add_argument("--n", type=int, default=40)
ap.add_argument("--seed", type=int, default=1); ap.add_argument("--fast", default="ref"); ap.add_argument("--from-line", type=int, default=1)
a = ap.parse_args()
SUB = [(r" <= ", " < "), (r" < ", " <= "), (r" >= ", " > "), (r" > ", " >= "), (r" == ", " != "), (r" != ", " == "), (r" \+ ", " - "), (r" - ", " + "),
       (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ 1\b", " + 2"), (r" - 1\b", " - 2"), (r" << ", " >> "), (r" >> ", " << "), (r" && ", " || "), (r" \|\| ", " && "),
       (r" \| ", " & "), (r" & ", " | "), (r"\b64\b", "63"), (r"\b64\b", "65"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b8\b", "7"), (r"\+=", "-="), (r"-=", "+="), (r"\|=", "="), (r"\|=", "^="), (r"&=", "="),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+\+", "--"), (r"--", "++"), (r"~", ""), (r"\bif \(", "if (!"), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "),
       (r"uint64_t", "uint32_t"), (r"size_t", "uint32_t"), (r"1ULL", "1"), (r"uint64_t\(1\)", "1"), (r"DEL", "")]
src = open("/repo/" + a.file).read().split("\n")
muts = []
for i, x in enumerate(src):
    t = x.strip()
    if i + 1 < a.from_line or not t or t.startswith(("//", "#", "assert", "template", "typedef", "*", "using", "friend", "class", "struct", "namespace", "public", "private", "protected")):
        continue
    code = x.split("//")[0]
    for rx, rep in SUB:
        if rx == "DEL":
            if t.endswith(";") and not re.match(r"(return|const |static |uint\d+_t |size_t |bool |char|int |unsigned|std::|bit_vector_builder|T )", t):
                muts.append((i, " " * (len(x) - len(x.lstrip())) + ";"))
            continue
        for m in re.finditer(rx, code):
            if "assert" in code or '"' in code:
                continue
            n = code[:m.start()] + rep + code[m.end():]
            if n.startswith("!(") or "if (!" in n and rx.startswith(r"\bif"):
                n = re.sub(r"if \(!(.*)\) \{$", r"if (!(\1)) {", n)
            muts.append((i, n))
muts = sorted(set(muts))
random.Random(a.seed).shuffle(muts)
tot = len(muts); muts = muts[:a.n]
W = "/tmp/mut-%d" % os.getpid()
shutil.copytree("/repo", W, ignore=shutil.ignore_patterns("_build", ".git"))
st = dict(killed=0, invalid=0, missed=0)
for i, n in muts:
    y = list(src); y[i] = n
    open(W + "/" + a.file, "w").write("\n".join(y))
    res = None
    for p in a.props.split(","):
        r = subprocess.run([V + "/bin/check", p, "quick"], env=dict(os.environ, VF_FAST=a.fast, VF_REPO=W), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 1:
            res = "killed"; break
        if r.returncode == 2:
            res = "invalid"
            if "compilation failed" not in r.stdout:
                print("?? %s:%d %s\n   %s" % (a.file, i + 1, n.strip(), r.stdout[-600:]), flush=True)
            break
    res = res or "missed"
    st[res] += 1
    if res == "missed":
        print("MISSED %s:%d\n  - %s\n  + %s" % (a.file, i + 1, src[i].strip(), n.strip()), flush=True)
print("%s: %d possible, tried %s" % (a.file, tot, st), flush=True)
subprocess.run(["rm", "-rf", W])
