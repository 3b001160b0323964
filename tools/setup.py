"""Nothing to install: hypothesis is vendored and every check builds what it needs. Makes sure both work."""
import os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here+"/vendor")
import hypothesis
os.makedirs(here+"/evidence", exist_ok=True)
sys.exit(subprocess.call(["bash","/opt/vp/build.sh","ext"]))
