"""development aid: evaluate reference functions; args: spec file names or
target substrings; -c: cap in seconds"""
import sys, os, time, signal, multiprocessing
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa import terms as T, specs as S
from sa.repo import Repo
G = {}

def one(i):
    import threading
    s = G["sp"][i]
    box = {}
    def work():
        t = time.time()
        try:
            v = S.check_spec(G["repo"], s, fast=False)
        except Exception as e:
            v = S.Verdict(s, "engine", "%s: %s" % (type(e).__name__, e), "", "")
        box["v"] = v
        v.secs = time.time()-t
    threading.stack_size(256*1024*1024)
    t = threading.Thread(target=work)
    t.start()
    t.join()
    v = box["v"]
    return v.status, v.secs, v.nodes, s.target, v.detail

def main():
    repo = Repo(os.environ.get("XBOA_REPO"))
    sp = S.load(repo)
    pats = [a for a in sys.argv[1:] if not a.startswith("-")]
    sp = [s for s in sp if not pats or any(p in s.target or p in s.fi.module.name for p in pats)]
    G.update(repo=repo, sp=sp)
    full = "-f" in sys.argv
    n = {}
    with multiprocessing.get_context("fork").Pool(min(8, len(sp)), maxtasksperchild=3) as pool:
        for st, secs, nodes, tg, d in pool.imap_unordered(one, range(len(sp)), 1):
            n[st] = n.get(st, 0) + 1
            if st != "equal" or secs > 10 or len(sp) < 12:
                print("%-10s %6.1fs %7d %s %s" % (st, secs, nodes, tg, (d if full else d[:200]) if st != "equal" else ""), flush=True)
    print(n)
main()
