import importlib
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import common

MODULES = ["r_errors", "r_log", "r_maildir", "r_imap", "r_crypto", "r_generic", "r_init", "r_alloc", "r_own", "r_tls", "r_state", "r_sql", "r_web", "r_dns", "r_list", "r_use", "r_wake"]


def registry():
    reg = {}
    for m in MODULES:
        reg.update(importlib.import_module(m).CHECKS)
    return reg


if __name__ == "__main__":
    pid = sys.argv[1]
    c = registry()[pid]
    sys.exit(common.main(pid, c["level"], c["check"], c["technique"], c.get("assumptions", ())))
