import sys, os, json, importlib, argparse, tempfile, shutil


REGISTRY = {
    "C01": "of", "C02": "of_window", "C03": "of_equiv", "C04": "of_history", "C05": "of_pileup",
    "C06": "of_baseline", "C07": "of_agree", "C08": "of_diag", "C09": "nonlin",
    "C10": "nsmb", "C11": "nsmb_con", "C12": "nsmb_build",
    "C13": "impedance", "C14": "squarewave", "C15": "didv_fit", "C16": "didv_result",
    "C17": "didv_process", "C18": "didv_priors", "C19": "resample", "C20": "psd", "C21": "noise",
    "C22": "ibis", "C23": "iv", "C24": "iverr", "C25": "outliers", "C26": "autocuts",
    "C27": "tesnoise", "C28": "simload", "C29": "traceutils", "C30": "calib", "C31": "purity", "C32": "plots", "C33": "saving", "C34": "leftout",
}


def run():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", action="append")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    # everything the code under test might write lands in a scratch directory
    scratch = tempfile.mkdtemp(prefix="qpmon-")
    os.chdir(scratch)
    os.environ["QPMON_SCRATCH"] = scratch
    try:
        from . import core
        mod = importlib.import_module("qpmon.props." + REGISTRY[a.pid])
        if a.replay:
            r = json.load(open(a.replay))
            res = core.run_case(mod, r["property"], r["scenario"], r["index"], r["seed"], r["tier"],
                                purity=getattr(mod, "PURITY", False))
            print(json.dumps(dict(status=res["status"], error=res.get("error"), notes=res["notes"]), indent=1, default=str))
            for v in res["viol"]:
                print("VIOLATED", v["mech"], "\n  ", v["detail"])
            return 1 if res["viol"] else 0
        return core.main(mod, a.pid, a.tier, a.seed, only=a.only, purity=getattr(mod, "PURITY", False))
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(run())
