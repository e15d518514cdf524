import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

MODULES = {"C01": "c_plan", "C02": "c_plan", "C03": "c_plan", "C04": "c_plan", "C05": "c_plan",
           "C06": "c_valid", "C07": "c_valid", "C08": "c_rows", "C09": "c_rows", "C10": "c_spell", "C11": "c_render", "C12": "c_edits", "C13": "c_tables", "C14": "c_session", "C19": "c_session", "C16": "c_env", "C17": "c_sources", "C15": "c_config", "C18": "c_sound"}

if __name__ == "__main__":
    prop = sys.argv[1]
    try:
        rc = __import__(MODULES[prop]).main(prop)
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
