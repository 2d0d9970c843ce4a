#!/usr/bin/env python3
"""check.py ID: decides one property.  Exit 0 held, 1 VIOLATION, 2 the check could not be carried out."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vlib

WHERE = {"C01": "c_chain", "C02": "c_chain", "C03": "c_chain", "C04": "c_ledger", "C05": "c_ledger", "C24": "c_ledger",
         "C06": "c_txs", "C07": "c_txs", "C25": "c_txs",
         "C10": "c_marray", "C11": "c_trie", "C12": "c_keys", "C13": "c_keys", "C14": "c_keys", "C15": "c_msig", "C16": "c_msig", "C17": "c_cred", "C19": "c_text", "C20": "c_params", "C27": "c_conf", "C23": "c_genesis", "C21": "c_algokey", "C22": "c_codec", "C26": "c_vrf", "C08": "c_payset", "C09": "c_payset", "C18": "c_payset", "C28": "c_kinds", "C29": "c_kinds", "C30": "c_history"}


def main():
    pid = sys.argv[1]
    c = vlib.Check(pid)
    try:
        getattr(importlib.import_module(WHERE[pid]), pid.lower())(c)
        rc = c.finish()
    except vlib.ToolError as e:
        print("ERROR:", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)


main()
