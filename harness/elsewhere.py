"""Another Python process, in which texts hash differently: the same question asked there must get the same answer.

Run as a program it answers one request per line; imported it offers ask(), which asks both of two such processes.
"""
import atexit
import json
import os
import select
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDS = ('0', '20221')
ANSWER_SECONDS = 120
_running = {}


class Gone(Exception):
	"""a process that ended without an answer"""


def start(hash_seed):
	env = dict(os.environ, PYTHONHASHSEED=hash_seed)
	return subprocess.Popen([sys.executable, '-B', os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
		env=env, bufsize=0)


@atexit.register
def stop():
	for (pid, _), p in list(_running.items()):
		if pid == os.getpid():
			p.stdin.close()
			p.kill()
			p.wait()
			p.stdout.close()
	_running.clear()


def line_from(p):
	buffer = b''
	end = time.time() + ANSWER_SECONDS
	while not buffer.endswith(b'\n'):
		if not select.select([p.stdout], [], [], max(0, end - time.time()))[0]:
			return None
		more = os.read(p.stdout.fileno(), 1 << 16)
		if not more:
			raise Gone('a process asked for an answer ended')
		buffer += more
	return buffer.decode()


def ask(**request):
	"""the answers of the other processes"""
	answers = []
	for s in SEEDS:
		key = (os.getpid(), s)
		p = _running.get(key)
		if p is None or p.poll() is not None:
			p = _running[key] = start(s)
		p.stdin.write((json.dumps(request) + '\n').encode())
		text = line_from(p)
		if text is None:
			p.kill()
			p.wait()
			answers.append('timeout')
		else:
			answers.append(json.loads(text)['answer'])
	return answers


def answer(request):
	import pickle
	import observe as ob
	import random
	from core import Graph, esc
	if request['what'] == 'pickled graph':
		return ob.digest(pickle.loads(bytes.fromhex(request['pickle'])))
	if request['what'] == 'pickled style':
		return digest_of_style(pickle.loads(bytes.fromhex(request['pickle'])))
	if request['what'] == 'random graph':
		random.seed(request['burn'])
		return digest_of_random(Graph.random(**request['kw']))
	raise ValueError(request['what'])


def digest_of_style(style):
	import hashlib
	return hashlib.sha1(repr(style.get_graphviz_str()).encode()).hexdigest()[:12]


def digest_of_random(g):
	import hashlib
	text = repr(([n.name for n in g.nodes], [e.id for n in g.nodes for e in n.outward_edges], [e.id for e in g.edges], g.get_graphviz_str()))
	return hashlib.sha1(text.encode('utf-8', 'backslashreplace')).hexdigest()[:10]


if __name__ == '__main__':
	sys.path.insert(0, HERE)
	out = os.fdopen(os.dup(1), 'w')
	os.dup2(2, 1)      # whatever the code prints goes nowhere
	for line in sys.stdin:
		try:
			a = answer(json.loads(line))
		except Exception as exc:
			a = f'raised {type(exc).__name__}'
		out.write(json.dumps(dict(answer=a)) + '\n')
		out.flush()
