#!/usr/bin/env python3
"""Compare the Java twins of word operations with their TLA+ definitions: the
modules of spec/agree print values of every operator that has a twin; TLC
evaluates them with and without the twins on its class path."""
import os, re, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *

MODULES = ("Agree", "Agree2", "Agree3", "Agree4", "Agree5")


def printed(module, twins):
    d = os.path.join(ROOT, "spec", "agree")
    r = tlc(os.path.join(d, module + ".tla"), os.path.join(d, "Agree.cfg"), twins=twins, workers=1, timeout=400, heap="3g")
    if "Error" in r.out:
        raise CheckError("TLC error in %s:\n%s" % (module, r.out[:3000]))
    a, b = r.out.find("<<"), r.out.rfind("Model checking completed")
    text = r.out[a:b]
    text = text[:text.rfind(">>") + 2]
    return {k: v for k, v in re.findall(r'<<\s*"AGREE",\s*"(\w+)",(.*?)(?=<<\s*"AGREE"|\Z)', text, re.S)}


def agree():
    """Returns the number of compared values; raises where they differ."""
    jobs = [(m, t) for m in MODULES for t in (False, True)]
    work(), classes()
    with ThreadPoolExecutor(6) as ex:
        out = dict(zip(jobs, ex.map(lambda j: printed(*j), jobs)))
    n, size = 0, 0
    for m in MODULES:
        pure, twin = out[m, False], out[m, True]
        if not pure or pure.keys() != twin.keys():
            raise CheckError("%s: different operators printed" % m)
        for k in pure:
            if pure[k].split() != twin[k].split():
                raise CheckError("%s: the twin of %s disagrees with its definition" % (m, k))
            n += 1
            size += len(re.findall(r"\d+", pure[k]))
    return n, size


if __name__ == "__main__":
    print("%d groups of operators agree on %d numbers" % agree())
