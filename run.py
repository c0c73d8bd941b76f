import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else
                          os.environ.get('VERIF_TIER', 'quick'))
from vlib import report       # noqa
rc = report.main(pid.lower(), pid, tier)
sys.stdout.flush()
os._exit(rc)
