"""Development tool: validate many seeds of a profile.  sweep.py PROFILES N SEED..."""
import collections, json, sys, time
from common import *
from gen import Gen, PROFILES
import vj
def main():
    profs = list(PROFILES) if sys.argv[1] == "all" else sys.argv[1].split(",")
    n = int(sys.argv[2])
    tot = 0
    for seed in sys.argv[3:]:
        for prof in profs:
            ctx = Ctx("SWEEP", "quick", int(seed))
            t = time.time()
            tr = run_harness(ctx, [{"id": i, "ops": Gen("%s/%s/%d" % (seed, prof, i), prof).trace()} for i in range(n)])
            t1 = time.time()
            bad = validate(ctx, list(tr.values()))
            ctx.close()
            tot += len(bad)
            print("%s seed %s: %d traces, exec %.0f s, tlc %.0f s, %d bad" % (prof, seed, len(tr), t1 - t, time.time() - t1, len(bad)), flush=True)
            for x, at in bad[:3]:
                print("  == trace %s matched %d%s" % (x["id"], at, " " + x.get("died", "")))
                json.dump(x, open("/tmp/bad-%s-%s-%s.json" % (prof, seed, x["id"]), "w"))
                for e in x.get("ev", [])[max(0, at - 5):at + 2]: print("    " + json.dumps(vj.show_ev(e), ensure_ascii=False)[:900])
    print("total bad", tot)
main()
