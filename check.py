#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: run the check of one property."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
sys.dont_write_bytecode = True

CHECKS = {}
for _p in ("C01", "C02", "C03", "C04", "C06"):
    CHECKS[_p] = "chk_expander"
CHECKS["C05"] = "chk_imports"
CHECKS["C20"] = "chk_step"
CHECKS["C07"] = "chk_clean"
CHECKS["C12"] = "chk_cache"
CHECKS["C16"] = "chk_activate"
CHECKS["C19"] = "chk_cleaner"
CHECKS["C23"] = "chk_paths"
CHECKS["C13"] = "chk_dialects"
CHECKS["C14"] = "chk_splice"
CHECKS["C21"] = "chk_rename"
CHECKS["C08"] = "chk_quote"
CHECKS["C09"] = "chk_hygiene"
CHECKS["C22"] = "chk_metatools"
CHECKS["C25"] = "chk_repl"
CHECKS["C17"] = "chk_walker"
CHECKS["C18"] = "chk_unparse"
CHECKS["C26"] = "chk_bunch"
CHECKS["C27"] = "chk_helpers"
CHECKS["C28"] = "chk_dump"
CHECKS["C29"] = "chk_captures"
CHECKS["C24"] = "chk_runmain"
CHECKS["C10"] = "chk_phases"
CHECKS["C11"] = CHECKS["C15"] = "chk_modules"


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = __import__(CHECKS[prop])
    return mod.check(prop, tier)


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    sys.exit(main())
