#!/usr/bin/env python3
"""Usage: run.py <property id>   (environment: VERIF_SEED, VERIF_TIER)"""
import importlib, sys, pathlib
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import vlib

MODULES = {"C01": "c01_c02", "C02": "c01_c02", "C06": "c06", "C15": "c15_c16", "C16": "c15_c16", "C24": "c24", "C17": "c17", "C25": "c25", "C27": "c27",
           "C03": "c03_c05", "C04": "c03_c05", "C05": "c03_c05", "C20": "c20", "C09": "c09", "C12": "c12", "C26": "c26", "C08": "messages", "C10": "messages", "C11": "messages", "C23": "messages"}

if __name__ == "__main__":
    pid = sys.argv[1]
    if pid == "--setup":
        sys.exit(0)
    m = importlib.import_module(MODULES[pid])
    vlib.main(pid, getattr(m, pid.lower()))
