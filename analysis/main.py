"""check <ID> [quick|thorough]"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts, mir
from report import Report

CHECKS = {
    "C01": ("p_tokens", "check_chain"),
    "C02": ("p_tokens", "check_ws"),
    "C03": "p_content",
    "C19": "p_eq",
    "C04": ("p_format", "check_ws"),
    "C05": "p_err",
    "C06": "p_write",
    "C08": ("p_format", "check_q"),
    "C07": "p_quote",
    "C09": ("p_lang", "check_layout"),
    "C10": ("p_lang", "check_refs"),
    "C11": ("p_lang", "check_order"),
    "C13": ("p_macro", "check_order"),
    "C14": ("p_macro", "check_ws"),
    "C15": ("p_macro", "check_flow"),
    "C16": ("p_macro", "check_string"),
    "C17": ("p_macro", "check_panic"),
    "C12": ("p_lang", "check_collide"),
    "C18": "p_panic",
}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    rep = Report(pid, tier)
    try:
        progs = mir.load()
    except facts.FactsError as e:
        print("the tree does not build: %s" % e)
        return 2
    m = CHECKS[pid]
    m, fn = m if isinstance(m, tuple) else (m, "check")
    mod = importlib.import_module(m)
    try:
        getattr(mod, fn)(progs, rep)
    except Exception:
        traceback.print_exc()
        rep.ob("analysis", "internal", False, traceback.format_exc(), "imprecise|internal")
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main())
