#!/usr/bin/env python3
"""natsearch.py ID [SECS]: random runs of every harness on the real code; on the unchanged tree nothing may be found"""
import sys
pid, secs = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 5
sys.argv = ["check.py", pid]
sys.path.insert(0, __file__.rsplit("/", 2)[0])
import check, shutil
from concurrent.futures import ThreadPoolExecutor
c = check.Check(pid, "quick", None, False, 1)
for pf in c.files:
    if not c.build_native(pf):
        print(pf.path, "does not build:", pf.nat_err[-2000:])
        continue
    def one(h):
        f, r, log = c.search(pf, h, secs)
        return h.name, f, log.strip().splitlines()[-1:] if not f else log, open(r).read()[:600] if f else ""
    with ThreadPoolExecutor(8) as ex:
        for n, f, log, r in ex.map(one, pf.harnesses):
            print("FOUND" if f else "ok", n, r if f else log)
shutil.rmtree(c.work, ignore_errors=True)
