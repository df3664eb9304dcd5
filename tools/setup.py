"""Nothing is compiled: verifies that the harness can import what it needs."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot  # noqa: E402

boot.import_hypothesis()
boot.import_repo()
os.makedirs(os.path.join(boot.VERIF, 'evidence'), exist_ok=True)
print('harness ready')
