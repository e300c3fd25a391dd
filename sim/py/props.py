"""All checks by property."""
import json, shutil
import simlib
import props_defs as pd
import props_engine as pe
import props_faults as pf
import props_front as pr
import props_history as ph
import props_model as pm
import props_pool as pp
import props_progress as pg
import props_volumes as pv
import props_voxels as px

# property -> (check, judge used on replay, binary)
CHECKS = {
    "C01": (pp.c01, pp.component_judge),
    "C02": (pp.c02, pp.component_judge),
    "C03": (pp.c03, pp.judge_lifecycle),
    "C04": (pe.c04, pe.judge_c04),
    "C05": (pe.c05, pe.judge_c05),
    "C06": (pe.c06, pe.judge_c06),
    "C07": (pf.c07, pf.judge_c07),
    "C08": (pm.c08, pm.judge_c08),
    "C09": (pd.c09, pd.judge_c09),
    "C10": (pm.c10, pm.judge_c10),
    "C11": (pr.c11, pr.judge_c11),
    "C12": (pg.c12, pg.judge_c12),
    "C14": (ph.c14, ph.judge_c14),
    "C15": (pv.c15, pv.judge_c15),
    "C16": (px.c16, px.judge_c16),
    "C17": (pf.c17, pf.judge_c17),
    "C18": (ph.c18, ph.judge_c18),
    "C20": (ph.c20, ph.judge_c20),
}


def replay(path):
    j = json.load(open(path))
    case = simlib.Case.from_json(j["case"])
    if not simlib.simbuild.build([case.exe]):
        print("ERROR the code under test does not build for simulation")
        return 2
    run = simlib.run_fresh(case, "replay")
    v = CHECKS[j["property"]][1](run)
    print("outcome", run.res.outcome, "rc", run.res.rc, "hash", run.res.get("hash"), "expected hash", j["hash"])
    for n in run.res.notes()[:20] + run.res.faults():
        print(" ", n)
    shutil.rmtree(run.dir, ignore_errors=True)
    if v:
        print(f"{v[1]}\nVIOLATION property={j['property']} replay={path}")
        return 1
    print("no violation")
    return 0
