#!/usr/bin/env python3
"""check.py ID: decides one property against /repo's current working tree."""
import os, sys, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
sys.dont_write_bytecode = True
import core

CHECKS = {
    "C01": ("store_check", "c01", "model_checking"),
    "C02": ("store_check", "c02", "model_checking"),
    "C03": ("store_check", "c03", "model_checking"),
    "C04": ("query_check", "c04", "model_checking"),
    "C05": ("query_check", "c05", "model_checking"),
    "C06": ("query_check", "c06", "model_checking"),
    "C07": ("query_check", "c07", "model_checking"),
    "C08": ("stmt_check", "c08", "model_checking"),
    "C09": ("derive_check", "c09", "model_checking"),
    "C10": ("derive_check", "c10", "model_checking"),
    "C11": ("derive_check", "c11", "model_checking"),
    "C13": ("scan_check", "c13", "model_checking"),
    "C14": ("list_check", "c14", "model_checking"),
    "C15": ("naming_check", "c15", "model_checking"),
    "C18": ("conf_check", "c18", "model_checking"),
    "C16": ("gen_check", "c16", "model_checking"),
    "C17": ("genfs_check", "c17", "model_checking"),
    "C19": ("conc_check", "c19", "model_checking"),
    "C20": ("fault_check", "c20", "model_checking"),
    "C22": ("map_check", "c22", "model_checking"),
    "C12": ("value_check", "c12", "model_checking"),
    "C23": ("lock_check", "c23", "model_checking"),
    "C21": ("stmt_check", "c21", "model_checking"),
}

if __name__ == "__main__":
    mod, fn, level = CHECKS[sys.argv[1]]
    core.main(sys.argv[1], level, getattr(importlib.import_module(mod), fn))
