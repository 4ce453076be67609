"""Nothing has to be built: this only makes sure that the tools the checks need are there and every specification parses."""
import os
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from tlc import CP, SPEC


def main():
	bad = 0
	with tempfile.TemporaryDirectory() as d:
		for f in sorted(os.listdir(SPEC)):
			if f.endswith('.tla'):
				os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
		for f in sorted(os.listdir(SPEC)):
			if f.endswith('.tla'):
				p = subprocess.run(['java', '-cp', CP, 'tla2sany.SANY', f], cwd=d, capture_output=True, text=True)
				if p.returncode or 'error' in p.stdout.lower().replace('errors: 0', ''):
					print(p.stdout[-2000:])
					bad += 1
	subprocess.run(['dot', '-V'], check=True)
	print(f'{bad} specifications do not parse')
	return bad


if __name__ == '__main__':
	sys.exit(1 if main() else 0)
