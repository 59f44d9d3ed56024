"""debug: run the contracts of one property module:  run1.py c03 [substring] [v]"""
import sys, os, importlib, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)
from vc import build, llvm, contract


def main():
    P = importlib.import_module("props." + sys.argv[1])
    bc = build.bitcode(P.HARNESS, getattr(P, "DEFS", ()), getattr(P, "DEBUG", True))
    m = llvm.Module(bc)
    cnt = {}
    for C in P.contracts():
        if len(sys.argv) > 2 and sys.argv[2] not in C.name:
            continue
        pid = os.fork()        # one process per contract, as in the runner (symbols are interned with their bounds)
        if pid:
            os.waitpid(pid, 0)
            continue
        r = contract.run_contract(C, m)
        cnt[r.status] = cnt.get(r.status, 0) + 1
        v = len(sys.argv) > 3
        if r.status == "proved" and not v and r.time < 5:
            os._exit(0)
        print(f"{C.name:40s} {r.status:10s} t={r.time:.2f} rounds={r.rounds} loops={r.loops} nproved={r.nproved} ends={r.ends} {r.reason[-900:]}", flush=True)
        for x in r.refuted[:2]:
            print("   REF", str(x)[:300])
        for x in r.unknown[:3]:
            print("   UNK", str(x)[:600])
        if v:
            n = int(sys.argv[3]) if sys.argv[3].isdigit() else 400
            for l in r.log:
                print("   log", l[:n])
            for l in r.invs:
                print("   inv", str(l)[:2 * n])
            for l in r.invlog:
                print("   il", l[:n])
        sys.stdout.flush()
        os._exit(0)
    os._exit(0)


t = threading.Thread(target=main)
t.start()
t.join()
