import importlib
import sys

from mc.lib import Check
from mc.registry import P

pid = sys.argv[1].upper()
meta = next(p for p in P if p["pid"] == pid)
chk = Check(pid, meta["level"])
with chk.guard():
    mod = importlib.import_module(f"mc.check_{pid.lower()}")
    mod.run(chk)
sys.exit(chk.finish(getattr(mod, "RULE", "") if "mod" in globals() else "",
                    getattr(mod, "ASSUME", []) if "mod" in globals() else []))
