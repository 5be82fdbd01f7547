"""Builds what does not depend on /repo: the MIR driver and core's metadata for every target (a check builds what is missing)."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract
from concurrent.futures import ThreadPoolExecutor
from config import CONFIGS
t = time.time()
extract.driver()
with ThreadPoolExecutor(os.cpu_count() or 8) as ex: list(ex.map(extract.sysroot_for, sorted({c.triple for c in CONFIGS})))
print("setup done in %.1f s" % (time.time() - t))
