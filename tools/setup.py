"""Nothing persists between setup and the checks, which build what they need
themselves; verify that the tools they use are there."""
import shutil, sys
missing = [t for t in ("g++", "ninja", "python3") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: " + ", ".join(missing))
print("ok")
