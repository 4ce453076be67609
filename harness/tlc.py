"""Runs TLC on a specification of ../spec in a scratch directory and reads back its verdict."""
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def _unlimited():
	resource.setrlimit(resource.RLIMIT_AS, (resource.getrlimit(resource.RLIMIT_AS)[1],) * 2)


class MachineryError(Exception):
	pass


class TlcResult:
	def __init__(self, text, code, wall):
		self.text, self.code, self.wall = text, code, wall
		m = re.findall(r'^(\d+) states generated, (\d+) distinct states found', text, re.M)
		self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

	@property
	def violated(self):
		return re.findall(r'Error: (?:Invariant (\S+) is violated|Action property (\S+) is violated|Temporal properties were violated)', self.text)


def run_tlc(module, cfg_text, workers=8, heap='6g', timeout=800, extra=(), printed=None):
	"""printed: takes the lines that the specification prints about its states and transitions"""
	scratch = tempfile.mkdtemp(prefix='tlc-')
	try:
		for f in os.listdir(SPEC):
			if f.endswith('.tla'):
				os.symlink(os.path.join(SPEC, f), os.path.join(scratch, f))
		with open(os.path.join(scratch, 'Run.cfg'), 'w') as f:
			f.write(cfg_text)
		cmd = [
			'java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', '-cp', CP, 'tlc2.TLC',
			'-config', 'Run.cfg', '-workers', str(workers), '-metadir', os.path.join(scratch, 'meta'), '-noGenerateSpecTE',
			*extra, module + '.tla'
		]
		t = time.time()
		late = []
		text = []
		with subprocess.Popen(cmd, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=_unlimited) as p:
			def end():
				late.append(True)
				p.kill()
			timer = threading.Timer(timeout, end)
			timer.start()
			try:
				for line in p.stdout:
					if printed is None or not printed.take(line):
						text.append(line)
			finally:
				timer.cancel()
				if p.poll() is None and sys.exc_info()[0] is not None:
					p.kill()
		if late:
			raise MachineryError(f'TLC on {module} ran out of {timeout} s')
		return TlcResult(b''.join(text).decode('utf-8', 'replace'), p.returncode, time.time() - t)
	finally:
		shutil.rmtree(scratch, ignore_errors=True)
