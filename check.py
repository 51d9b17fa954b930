#!/opt/venv/bin/python
"""usage: check.py <property> [quick|thorough]   -- see DESIGN.md"""
import os, sys

if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("VERIF_CHILD") != "1":
    env = dict(os.environ, PYTHONHASHSEED="0", VERIF_CHILD="1", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent-verif", PYTHONWARNINGS="ignore", LC_ALL="C.UTF-8")
    env.pop("PYTHONPATH", None)
    os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python", "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import engine

DRIVERS = {
    "C21": "drv_twice", "C25": "drv_customop", "C20": "drv_tool", "C24": "drv_tool",
    "C13": "drv_bind", "C22": "drv_bind", "C16": "drv_block", "C17": "drv_helper", "C19": "drv_grammar", "C14": "drv_grammar",
    "C10": "drv_imports", "C11": "drv_imports", "C12": "drv_imports",
    "C07": "drv_convert", "C08": "drv_convert", "C09": "drv_convert", "C15": "drv_convert", "C18": "drv_convert",
    "C05": "drv_session", "C06": "drv_session",
    "C01": "drv_project", "C02": "drv_project", "C03": "drv_project", "C04": "drv_project",
}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    rep = engine.Report(pid, tier)
    mod = __import__(DRIVERS[pid])
    mod.check(pid, tier, rep)
    return rep.finish()


def guarded_main():
    try:
        return main()
    except engine.MachineryError as e:
        sys.stderr.write("MACHINERY: %s\n" % e)
        return 2


if __name__ == "__main__":
    sys.exit(guarded_main())
