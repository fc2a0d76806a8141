"""linecov.py ID...: which lines of the package the quick checks execute (a tool for us; no check uses it). Writes /tmp/cov/<pid>."""
import os, sys, importlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
sys.path[:0] = [ROOT, REPO]
PK = os.path.realpath(REPO) + "/openptv_python/"
lines = set()
mon = sys.monitoring
mon.use_tool_id(3, "linecov")
def on_line(code, line):
    f = code.co_filename
    if f.startswith(PK):
        lines.add((os.path.basename(f), line))
    return mon.DISABLE
mon.register_callback(3, mon.events.LINE, on_line)
mon.set_events(3, mon.events.LINE)
def dump():
    with open(f"/tmp/cov/{os.environ['COV_ID']}-{os.getpid()}", "w") as fp:
        for f, l in sorted(lines):
            fp.write(f"{f} {l}\n")
from mc import core, run
orig = core._batch
def batch(*a):
    out = orig(*a)
    dump()
    return out
core._batch = batch
os.environ["COV_ID"] = sys.argv[1]
import atexit
rc = run.main()
dump()
os._exit(rc)
