#!/usr/bin/env python3
"""Nothing is built: verify that the interpreter, libraries and node are there."""
import subprocess
import sys

subprocess.run(["/opt/venv/bin/python", "-c",
                "import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import hypothesis, cwltool, schema_salad, jsonschema, rdflib"],
               check=True)
subprocess.run(["node", "-e", "1"], check=True)
sys.exit(0)
