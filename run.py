#!/opt/venv/bin/python
"""Run one property check:  run.py ID [--tier quick|thorough];  run.py --replay FILE."""
import os
import sys

if sys.executable != "/opt/venv/bin/python" and os.path.exists("/opt/venv/bin/python") and not os.environ.get("VERIF_NOEXEC"):
    os.environ["VERIF_NOEXEC"] = "1"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(REPO, "src"))
# hypothesis comes from the read-only tooling venv; everything else from /opt/venv
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

sys.argv[0] = os.path.abspath(sys.argv[0])
from lib import pbt  # noqa: E402

if __name__ == "__main__":
    sys.exit(pbt.main(sys.argv[1:], HERE, REPO))
