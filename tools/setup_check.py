"""Nothing is built: say so if something the checks need is missing."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
code = "import vlib.harness, hypothesis, recap; print('hypothesis', hypothesis.__version__, 'recap', list(recap.__path__))"
env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1")
sys.exit(subprocess.call(["/opt/venv/bin/python", "-B", "-c", code], env=env, cwd="/"))
