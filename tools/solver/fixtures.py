#!/usr/bin/env python3
"""Development tool: regenerate /verif/fixtures/*.ndjson with wagner.cpp."""
import json, os, random, subprocess, sys
SETS = {"zcash": (200, 9, 0, "ZcashPoW", 140), "zclassic": (192, 7, 0, "ZcashPoW", 140), "bitcoingold": (144, 5, 0, "BgoldPoW", 140),
        "aion": (210, 9, 0, "AION0PoW", 496), "flux": (125, 4, 1, "ZelProof", 140), "beam": ("beam", 5, 0, "Beam-PoW", 44)}
rnd = random.Random(7)
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "fixtures")
os.makedirs(out, exist_ok=True)
for name, (n, k, tw, per, hl) in SETS.items():
    if len(sys.argv) > 2 and name not in sys.argv[2:]:
        continue
    c = 24 if n == "beam" else n // (k + 1)
    res = []
    for lev in [0, 0] + list(range(1, k + 2)):
        want, tries = 1, 0
        while tries < 4:
            tries += 1
            hdr = rnd.randbytes(hl).hex()
            o = subprocess.run([sys.argv[1], str(n), str(k), str(tw), per, hdr, str(lev), str(rnd.randrange(c)), "4"],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, check=True).stdout.split("\n")
            sols = [[int(x) for x in l.split()] for l in o if l]
            if sols:
                for s in sols[:2]:
                    res.append({"set": name, "n": 0 if n == "beam" else n, "k": k, "twist": bool(tw), "person": per, "header": hdr,
                                "width": 25 if n == "beam" else c + 1, "near": lev, "indices": s})
                break
        print(name, lev, len(sols), flush=True)
    with open(os.path.join(out, name + ".ndjson"), "w") as f:
        for r in res:
            f.write(json.dumps(r) + "\n")
