'''Development tool: run a little of every check, in one process, against a tree.
usage: MON_REPO_SRC=tree/src sweep.py SECONDS_PER_CHECK[,MORE...] [ids...]; prints the first violation.
'''
import os, random, sys, time, warnings
warnings.simplefilter("ignore")
sys.path[:0] = [os.environ.get("MON_VERIF", "/verif"), os.environ.get("MON_REPO_SRC", "/repo/src")]
from mon import core
core.load_real()
from mon import real
core.STEP_BUDGET = 1_500_000
ORDER = ("C17 C18 C24 C06 C21 C19 C07 C08 C01 C02 C03 C04 C05 C09 C10 C11 C23 C25 C13 C12 C22 C15 C14 C26 C27 C20 "
         "C16").split()
ids = sys.argv[2:] or ORDER
state = {p: 0 for p in ids}
mods = {p: core.load_prop(p) for p in ids}
for phase, secs in enumerate(map(float, sys.argv[1].split(","))):
    for pid in ids:
        mod = mods[pid]
        mod.CASE_SECONDS = 6
        m = core.Mon()
        real.apply({"k": "default"})
        end = time.time() + secs
        fixed = list(mod.fixed("quick")) if phase and hasattr(mod, "fixed") else []
        while time.time() < end:
            if fixed:
                case = fixed.pop()
            else:
                i = state[pid]
                state[pid] += 1
                case = mod.make(random.Random(f"sweep{pid}{i}"), i, "quick")
            try:
                bad = core.run_case(mod, case, m)
            except BaseException as e:
                bad = (f"{type(e).__name__}", None)
            if bad:
                print(f"CAUGHT {pid} {bad[0][:200]!r}")
                sys.stdout.flush()
                os._exit(1)
print("SURVIVED", sum(state.values()))
sys.stdout.flush()
os._exit(0)
