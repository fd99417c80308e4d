#!/usr/bin/env python3
"""Development aid: mechanical one-line changes of seq.hpp that compile and
pass the repository's tests, for measuring the checks.  Works in copies only.
usage: mutate.py survivors OUTDIR [SEED N]      find changes the tests miss
       mutate.py judge OUTDIR [CHECK...]        run checks against them"""
import json, os, random, re, subprocess, sys, shutil, time
from concurrent.futures import ThreadPoolExecutor
REPO = "/repo"
HPP = os.environ.get("MUT_FILE", "include/boost/segmented_tree/seq.hpp")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SUBS = [(r"<=", "<"), (r"(?<![<-])<(?![<=])(?= )", "<="), (r">=", ">"), (r"(?<![->])>(?![>=])(?= )", ">="), (r"==", "!="), (r"!=", "=="), (r" \+ 1\b", ""), (r" - 1\b", ""),
        (r" \+ ", " - "), (r" - ", " + "), (r"\+\+", "--"), (r"--", "++"), (r"\+=", "-="), (r"-=", "+="), (r"&&", "||"), (r"\|\|", "&&"),
        (r"std::move\(([\w.\[\]]+)\)", r"\1"), (r"_min\(\)", "_max()"), (r"_max\(\)", "_min()"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r" / 2", ""),
        (r"\bnext\b", "prev"), (r"\bprev\b", "next"), (r"_next_", "_prev_"), (r"_prev_", "_next_"), (r"\bfirst\b", "last"), (r"\blast\b", "first"),
        (r"copy_assignment", "move_assignment"), (r"move_assignment", "copy_assignment"), (r"\bforward\b", "backward"), (r"backward", "forward"),
        (r"std::true_type", "std::false_type"), (r"std::false_type", "std::true_type"), (r"other\.", ""), (r"\bindex\b", "(index + 1)"), (r"\blength\b", "(length - 1)"),
        (r"\bsource_index\b", "target_index"), (r"\btarget_index\b", "source_index"), (r"\bsz\b", "pos"), (r"\bpos\b", "0"), (r"if \((.*)\) \{$", r"if (!(\1)) {"),
        (r"if \((.*)\)$", r"if (!(\1))"), (r"^(\s*)([^ /].*;)$", r"\1"), (r"std::stable_sort", "std::sort"), (r"std::merge", "std::set_union"), (r"catch \(\.\.\.\)", "catch (int)"),
        (r"pointer->", "parent->"), (r"parent->", "pointer->")]


def mutants():
    lines = open(os.path.join(REPO, HPP)).read().split("\n")
    out = []
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#", "template", "using", "///", "typename", "friend class")) or (i < 100 and "seq.hpp" in HPP):
            continue
        for pat, rep in SUBS:
            if pat.startswith("^(") and (s.startswith(("return", "}", "break", "case", "throw")) and s != "throw;" or not s.endswith(";") or "(" not in s and "=" not in s):
                continue
            for m in re.finditer(pat, l):
                new = l[:m.start()] + m.expand(rep) + l[m.end():]
                if new != l:
                    out.append((i, l, new))
    seen, r = set(), []
    for x in out:
        if (x[0], x[2]) not in seen:
            seen.add((x[0], x[2]))
            r.append(x)
    return lines, r


def try_one(args):
    k, lines, (i, old, new), outdir = args
    d = os.path.join(outdir, "w%d" % k)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/include/boost/segmented_tree")
    for f in os.listdir(REPO + "/include/boost/segmented_tree"):
        shutil.copy(REPO + "/include/boost/segmented_tree/" + f, d + "/include/boost/segmented_tree/")
    shutil.copytree(REPO + "/common", d + "/common")
    shutil.copytree(REPO + "/test", d + "/test")
    ls = list(lines)
    ls[i] = new
    open(os.path.join(d, HPP), "w").write("\n".join(ls))
    ok = True
    try:
        for t in ("0", "512"):
            p = subprocess.run(["g++", "-DBOOST_TEST_DYN_LINK", "-DBOOST_UNIT_TEST_FRAMEWORK_DYN_LINK", "-DBOOST_UNIT_TEST_FRAMEWORK_NO_LIB", "-DTARGET_SIZE=" + t, "-I" + d + "/include",
                                "-I" + d + "/common", "-isystem", REPO + "/submodule", "-std=c++11", "-w", "-O0", "-include", "cstdint", "-include", "stdexcept",
                                "-I" + REPO + "/test/..", d + "/test/test_sequence.cpp", "-o", d + "/t" + t, "/usr/lib/x86_64-linux-gnu/libboost_unit_test_framework.so.1.83.0"],
                               capture_output=True, timeout=120)
            if p.returncode:
                ok = False
                break
            p = subprocess.run(["bash", "-c", "ulimit -v 4000000; exec " + d + "/t" + t], capture_output=True, timeout=30)
            if p.returncode:
                ok = False
                break
    except subprocess.TimeoutExpired:
        ok = False
    shutil.rmtree(d, ignore_errors=True)
    return dict(line=i + 1, old=old, new=new) if ok else None


def survivors(outdir, seed, n):
    lines, ms = mutants()
    random.Random(seed).shuffle(ms)
    ms = ms[:n]
    os.makedirs(outdir, exist_ok=True)
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as pool, open(outdir + "/survivors.ndjson", "w") as f:
        c = 0
        for r in pool.map(try_one, [(k, lines, m, outdir) for k, m in enumerate(ms)]):
            if r:
                c += 1
                f.write(json.dumps(r) + "\n")
                f.flush()
    print("mutants", len(ms), "survivors", c)


def judge(outdir, checks):
    rs = [json.loads(l) for l in open(outdir + "/survivors.ndjson")]
    done = set()
    res = outdir + "/judged.ndjson"
    if os.path.exists(res):
        done = {(x["line"], x["new"]) for x in map(json.loads, open(res))}
    base = open(os.path.join(REPO, HPP)).read().split("\n")
    for r in rs:
        if (r["line"], r["new"]) in done:
            continue
        d = os.path.join(outdir, "j")
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(REPO + "/include", d + "/include")
        shutil.copytree(REPO + "/common", d + "/common")
        shutil.copytree(REPO + "/bench", d + "/bench")
        ls = list(base)
        assert ls[r["line"] - 1] == r["old"]
        ls[r["line"] - 1] = r["new"]
        open(os.path.join(d, HPP), "w").write("\n".join(ls))
        r["by"] = {}
        for c in checks:
            p = subprocess.run([os.path.join(VERIF, "bin/check.py"), c], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick"))
            m = re.search(r"REJECT [^\n]*", p.stdout)
            r["by"][c] = p.returncode if p.returncode != 1 else (m.group(0)[:120] if m else p.stdout[:120])
            if p.returncode == 1 and not os.environ.get("ALL"):
                break
        with open(res, "a") as f:
            f.write(json.dumps(r) + "\n")
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "survivors":
        survivors(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 1, int(sys.argv[4]) if len(sys.argv) > 4 else 10 ** 9)
    else:
        judge(sys.argv[2], sys.argv[3:] or ["C07", "C01", "C02", "C04", "C06", "C08", "C10", "C09", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C03", "C05", "C21", "C22"])
