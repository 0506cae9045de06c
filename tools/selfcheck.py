"""setup_cmd: nothing to build (pure Python); make sure the interpreters and libraries are there."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from harness import boot  # noqa: E402

code = "from harness import boot; boot.hypothesis_path(); boot.load_package(); import neutrinomass.tensormethod.core, networkx, numpy; print('ok')"
sys.exit(subprocess.call([boot.PY, "-W", "ignore", "-c", code], env=boot.child_env(), cwd=HERE))
