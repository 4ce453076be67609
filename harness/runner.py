"""Runs the parts of one check, collects the verdicts TLC printed, writes the evidence and the replay file."""
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from tlc import run_tlc, MachineryError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
HISTORY_SECONDS = 240     # of processor time, for making one history
REPLAYS = os.path.join(EVIDENCE, 'replays')


class Runner:
	def __init__(self, prop, tier, seed):
		self.prop, self.tier, self.seed = prop, tier, seed
		self.t0 = time.time()
		self.scratch = tempfile.mkdtemp(prefix=f'verif-{prop}-')
		self.states = self.transitions = self.traces = self.events = 0
		self.samples = []
		self.violations = []     # dicts: where, clauses, data
		self.parts = []
		self.assumptions = []
		self.extra = {}

	@property
	def quick(self):
		return self.tier != 'thorough'

	def rng(self, salt):
		return random.Random(f'{self.seed}/{self.prop}/{salt}')

	def scale(self, quick, thorough):
		return quick if self.quick else thorough

	def cleanup(self):
		shutil.rmtree(self.scratch, ignore_errors=True)

	# ------------------------------------------------ recorded histories judged by a trace specification
	def check_traces(self, name, module, histories, constants='', heap='6g', workers=8):
		n = ev = 0
		ops = {}
		bad = {}
		total = dict(states=0, generated=0, tlc=0.0, rejected=0)
		violations_before = len(self.violations)
		done = False
		todo = self.driven(name, histories)
		while not done:
			# a file of some thousands of histories at a time
			path = os.path.join(self.scratch, f'{name}.ndjson')
			base, count, size = n, 0, 0
			with open(path, 'w') as f:
				while count < 8000 and size < 60_000_000:
					h = next(todo, None)
					if h is None:
						done = True
						break
					if not h['ev']:
						continue
					h['id'] = f'{n}:{h["id"]}'
					for e in h['ev']:
						kind = f"{e.get('op', e.get('kind', '?'))} {e['res']['k'] if 'res' in e else '-'}"
						ops[kind] = ops.get(kind, 0) + 1
						if 'kw' in e:
							e['kw'] = repr(e['kw'])
					line = json.dumps(h, separators=(',', ':'))
					f.write(line + '\n')
					size += len(line)
					n += 1
					count += 1
					ev += len(h['ev'])
			if n == 0 and len(self.violations) > violations_before:
				return {}
			if n == 0:
				raise MachineryError(f'{name}: no histories')
			if count:
				self.judge(name, module, constants, heap, workers, path, base, count, bad, total)
			os.remove(path)
			if len(bad) > 2000:
				break
		self.parts.append(dict(part=name, kind='trace validation', module=module, histories=n, events=ev,
			states=total['states'], tlc_s=round(total['tlc'], 1), done_at_s=round(time.time() - self.t0, 1), rejected=len(bad), calls=dict(sorted(ops.items()))))
		self.states += total['states']
		self.transitions += max(0, total['generated'] - n)
		self.traces += n - len(bad)
		self.events += ev
		return bad

	def judge(self, name, module, constants, heap, workers, path, base, count, bad_all, total):
		"""TLC's verdict on one file of histories"""
		cfg = (
			'SPECIFICATION Spec\nPOSTCONDITION AllConsumed\nCHECK_DEADLOCK FALSE\nCONSTANTS\n'
			f'  TraceFile = "{path}"\n  Prop = "{self.prop}"\n{constants}'
		)
		r = run_tlc(module, cfg, workers=workers, heap=heap, timeout=self.scale(800, 7200))
		bad = {}
		seen = 0
		# TLC wraps long values over several lines
		for m in re.finditer(r'<<\s*"CLAUSES",\s*"(\d+):([^"]*)",\s*(\d+),\s*"([^"]*)",\s*\{([^}]*)\}\s*>>', r.text):
			clauses = sorted(set(re.findall(r'"([^"]+)"', m.group(5))))
			bad.setdefault(int(m.group(1)), []).append((int(m.group(3)), m.group(4), clauses))
			seen += 1
		if seen != r.text.count('"CLAUSES"'):
			raise MachineryError(f'{name}: unreadable verdicts\n' + r.text[-3000:])
		evaluation_error = None
		if 'Model checking completed. No error has been found.' not in r.text:
			if bad and 'java.lang.OutOfMemory' not in r.text:
				pass
			elif re.search(r'Attempted to|TLC threw|evaluat|Error: The (first|second) argument|is not in the domain|nondeterministic|Parsing or semantic', r.text) and 'Parsing or semantic' not in r.text and 'OutOfMemory' not in r.text and 'ndDeserialize' not in r.text:
				evaluation_error = r.text[-3000:]
			else:
				raise MachineryError(f'TLC on {module}/{name}: exit {r.code}\n' + r.text[-4000:])
		total['states'] += r.distinct
		total['generated'] += r.generated
		total['tlc'] += r.wall
		if not bad and evaluation_error is None and base == 0:
			with open(path) as f:
				lines = f.read().split('\n')
			for i in {0, count // 2}:
				h = json.loads(lines[i])
				self.samples.append(dict(part=name, id=h['id'], ops=[brief(e) for e in h['ev']][:12]))
		for i in sorted(bad):
			if len([v for v in self.violations if v['part'] == name]) >= 5:
				break
			with open(path) as f:
				for k, line in enumerate(f):
					if k == i - base:
						h = json.loads(line)
			first = min(bad[i])
			self.violations.append(dict(part=name, id=h['id'], step=first[0], op=first[1], clauses=first[2],
				all=sorted(bad[i]), ops=[brief(e) for e in h['ev']][:first[0]], event=h['ev'][first[0] - 1]))
		if evaluation_error is not None:
			self.violations.append(dict(part=name, id='?', step=0, op='?', clauses=['observation-outside-the-specified-types'],
				ops=[], event=evaluation_error))
		bad_all.update(bad)

	def driven(self, name, histories):
		"""the histories; the calls that drivers make without recording them are all specified to succeed, to come back, and to
		answer what the driver can use"""
		import core
		source = iter(histories)
		before = core.HUNG[0]
		try:
			while core.HUNG[0] - before < 4:
				signal.setitimer(signal.ITIMER_VIRTUAL, HISTORY_SECONDS)
				try:
					h = next(source, None)
				finally:
					signal.setitimer(signal.ITIMER_VIRTUAL, 0)
				if h is None:
					return
				yield h
			self.violation(name, 'while driving', ['calls-do-not-come-back'], f'{core.HUNG[0] - before} calls took more than {core.OP_SECONDS} s')
		except core.OpTimeout:
			self.violation(name, 'while driving', ['a-call-does-not-come-back'], traceback.format_exc()[-3000:])
		except (MachineryError, OSError, subprocess.SubprocessError, ImportError):
			raise
		except Exception as exc:
			frames = traceback.extract_tb(exc.__traceback__)
			inside = os.path.join(os.path.realpath(os.environ.get('VERIF_REPO', '/repo')), 'abstract') + os.sep
			clause = 'a-call-that-must-succeed-raises' if any(os.path.realpath(f.filename).startswith(inside) for f in frames) \
				else 'an-answer-that-cannot-be-used'
			self.violation(name, 'while driving', [clause], traceback.format_exc()[-3000:])

	# ------------------------------------------------ the design itself
	def check_model(self, name, module, cfg, workers=8, expect_states=1, heap='6g', timeout=None, printed=None):
		r = run_tlc(module, cfg, workers=workers, heap=heap, timeout=timeout or self.scale(600, 7200), printed=printed)
		if 'Model checking completed. No error has been found.' not in r.text:
			raise MachineryError(f'the model {module}/{name} itself fails: exit {r.code}\n' + r.text[-5000:])
		if r.distinct < expect_states:
			raise MachineryError(f'the model {module}/{name} reached only {r.distinct} states')
		self.parts.append(dict(part=name, kind='model checking', module=module, states=r.distinct, generated=r.generated, tlc_s=round(r.wall, 1)))
		self.states += r.distinct
		self.transitions += r.generated
		return r

	# ------------------------------------------------ the design, and the code led through each of its transitions
	def check_replay(self, name, cfg, replay, limit, expect=100, heap='6g', model='AbstractGraph', trace='GraphTrace'):
		"""replay: makes a history from one transition; limit: how many transitions (None: all)"""
		import replay as rp
		printed = rp.Printed()
		self.check_model(name + ' (model)', model, cfg, workers=1, expect_states=2, heap=heap, printed=printed)
		replay.states, kinds = printed.states, printed.kinds
		total = sum(map(len, kinds.values()))
		if total < expect:
			raise MachineryError(f'the model {name} printed only {total} transitions')
		rng = self.rng(name)
		chosen = []
		# every kind of operation and outcome gets an equal share
		left, todo = total if limit is None else limit, sorted(kinds, key=lambda k: (len(kinds[k]), k))
		for i, k in enumerate(todo):
			n = min(len(kinds[k]), total if limit is None else left // (len(todo) - i))
			chosen += kinds[k] if n == len(kinds[k]) else rng.sample(kinds[k], n)
			left -= n
		count = len(chosen)
		chosen = (printed.read(x) for x in chosen)
		self.check_traces(name, trace, replay.histories(chosen) if hasattr(replay, 'histories') else (replay.history(t, i) for i, t in enumerate(chosen)))
		self.parts[-1].update(kind='replay of model transitions', transitions=total, replayed=count,
			of={f'{op} {out}': len(v) for (op, out), v in sorted(kinds.items())})

	def violation(self, part, id, clauses, event, ops=()):
		self.violations.append(dict(part=part, id=id, step=len(ops), op='-', clauses=sorted(clauses), ops=list(ops), event=event))

	# ------------------------------------------------ verdict
	def finish(self):
		known = load_known(self.prop)
		open_v, suppressed = [], {}
		for v in self.violations:
			k = [x for x in known if matches(x, v)]
			if k:
				suppressed[k[0]['what']] = suppressed.get(k[0]['what'], 0) + 1
			else:
				open_v.append(v)
		for x in known:
			print(f'KNOWN-FINDING: property={self.prop} {x["what"]}')
		wall = time.time() - self.t0
		os.makedirs(EVIDENCE, exist_ok=True)
		coverage = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
			events=self.events, parts=self.parts, samples=self.samples[:8] or [dict(note='see violations')])
		coverage.update(self.extra)
		evidence = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', coverage=coverage,
			assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(open_v))
		with open(os.path.join(EVIDENCE, f'{self.prop}.json'), 'w') as f:
			json.dump(evidence, f, indent=1)
		print(f'{self.prop} {self.tier}: {self.traces} traces, {self.events} events, {self.states} states, {len(open_v)} violations, {wall:.1f} s')
		if open_v:
			os.makedirs(REPLAYS, exist_ok=True)
			path = os.path.join(REPLAYS, f'{self.prop}.json')
			with open(path, 'w') as f:
				json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier, violations=open_v[:10]), f, indent=1)
			for v in open_v[:3]:
				print(f'  {v["part"]} {v["id"]} step {v["step"]} {v["op"]}: {", ".join(v["clauses"])}')
			print(f'VIOLATION property={self.prop} replay={path}')
			return 1
		return 0


def brief(e):
	return {k: v for k, v in e.items() if k not in ('post', 'gone', 'obs', 'dig') and v not in ({}, [], None)}


def load_known(prop):
	path = os.path.join(VERIF, 'known_findings.json')
	if not os.path.exists(path):
		return []
	with open(path) as f:
		return [x for x in json.load(f)['open'] if x['property'] == prop]


def matches(x, v):
	return v['part'] == x['part'] and set(v['clauses']) <= set(x['clauses']) and (x.get('id') is None or x['id'] == v['id'])
