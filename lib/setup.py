"""setup_cmd: compiles what does not depend on /repo and warms the build cache."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, registry
build.overrides()
for f in registry.FAMILIES.values():
    try: f().exe()
    except build.BuildError as e: print("warning:", str(e)[:500])
