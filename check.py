#!/opt/veriftools/pyvenv/bin/python3
import os, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(ROOT, "lib"), ROOT]
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import driver
if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(driver.replay(sys.argv[2]))
    if sys.argv[1] == "--build":
        for v in sys.argv[2:] or ["std", "stress"]:
            driver.build(v)
        sys.exit(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    sys.exit(driver.run_check(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1"))))
