"""Nothing to build: checks that the tools the checks need are present."""
import shutil, sys
sys.path.append("/opt/venv/lib/python3.12/site-packages")
import z3, lxml, rdflib
print("z3", z3.get_version_string(), "cvc5", shutil.which("cvc5"))
