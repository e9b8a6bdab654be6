"""Entry point: run.py <property id>."""
from __future__ import annotations

import importlib
import os
import sys
import traceback

os.environ.setdefault("MPLBACKEND", "Agg")
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))

import warnings  # noqa: E402

warnings.filterwarnings("ignore")

MODULES = {"C01": "c_builder", "C02": "c_builder", "C03": "c_builder",
           "C04": "c_runner", "C05": "c_runner", "C06": "c_runner", "C07": "c_runner",
           "C08": "c_facade", "C10": "c_config", "C11": "c_metadata", "C12": "c_preproc",
           "C13": "c_preproc", "C20": "c_prelim", "C21": "c_prelim", "C22": "c_prelim",
           "C50": "c_pythia", "C51": "c_pythia", "C40": "c_pilot", "C41": "c_pilot", "C90": "c_pilot", "C42": "c_cloister",
           "C23": "c_subset", "C24": "c_filter", "C60": "c_trace", "C61": "c_trace", "C62": "c_trace", "C64": "c_trace", "C63": "c_pool",
           "C70": "c_export", "C71": "c_export", "C72": "c_export", "C73": "c_export", "C80": "c_pipeline",
           "C30": "c_sifted", "C31": "c_sifted"}


def main() -> int:
    pid = sys.argv[1]
    try:
        import instancespace
        want = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
        if not os.path.realpath(instancespace.__file__).startswith(want + "/"):
            print(f"wrong tree: {instancespace.__file__}")
            return 3
        from loguru import logger
        logger.remove()
        return importlib.import_module(MODULES[pid]).main(pid)
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        print(f"ERROR property={pid}: the check could not be carried out")
        return 2


if __name__ == "__main__":
    sys.exit(main())
