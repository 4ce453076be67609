"""check.py <property>: decides one property on the current tree of /repo.  See ../DESIGN.md."""
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)


def main():
	prop = sys.argv[1]
	import plans
	from runner import Runner
	tier = os.environ.get('VERIF_TIER', 'quick')
	if len(sys.argv) > 2:
		tier = sys.argv[2]
	seed = int(os.environ.get('VERIF_SEED', '1') or 1)
	r = Runner(prop, tier, seed)
	try:
		plans.PLANS[prop](r)
		code = r.finish()
	finally:
		r.cleanup()
	return code


if __name__ == '__main__':
	try:
		code = main()
	except SystemExit:
		raise
	except BaseException:
		traceback.print_exc()
		code = 2
	sys.stdout.flush()
	sys.exit(code)
