#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--config NAME] | --replay FILE"""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")

if __name__ == "__main__":
    from sx import driver

    sys.exit(driver.main(sys.argv[1:]))
