#!/usr/bin/env python3
"""Runs the check of one property: builds the harness against /repo, runs its legs, judges the reports.

	check.py <id>          exit 0: held on everything explored; 1: a VIOLATION line was printed; 2: no answer
	check.py --setup       looks for the tools that the checks need
"""
import sys
sys.dont_write_bytecode = True
import concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")
TRIPLE = "x86_64-unknown-linux-gnu"
SEED = int(os.environ.get("VERIF_SEED") or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
BUDGET = 850 if TIER == "quick" else 4 * 3600

sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS, SETUPS  # noqa: E402


class NoAnswer(Exception):
	pass


def base_env(nightly=False):
	e = dict(os.environ)
	for k in list(e):
		if k.startswith(("CARGO_", "RUST", "VP_", "MIRI", "ASAN", "TSAN")) and k not in ("CARGO_HOME", "RUSTUP_HOME"):
			del e[k]
	e["CARGO_NET_OFFLINE"] = "true"
	e["RUSTUP_TOOLCHAIN"] = "nightly" if nightly else "stable"
	e["CARGO_TERM_COLOR"] = "never"
	return e


def sh(cmd, env, timeout, cwd=HARNESS, out=None):
	"""Runs a command in its own process group; kills the group on timeout."""
	f = open(out, "wb") if out else subprocess.DEVNULL
	try:
		p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
		try:
			return p.wait(timeout)
		except subprocess.TimeoutExpired:
			os.killpg(p.pid, signal.SIGKILL)
			p.wait()
			return None
	finally:
		if out:
			f.close()


LOCK = threading.Lock()
FRESH = set()


def fresh(target):
	"""Has the library rebuilt if its content is not that of the last build; Cargo would only look at the times of its files."""
	with LOCK:
		if target in FRESH:
			return
		FRESH.add(target)
		h = hashlib.sha256()
		for root, dirs, files in os.walk("/repo"):
			dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
			for n in sorted(files):
				p = os.path.join(root, n)
				if n.endswith((".rs", ".toml", ".lock", ".md")) and os.path.isfile(p):
					h.update(p.encode() + b"\0")
					with open(p, "rb") as f:
						h.update(hashlib.sha256(f.read()).digest())
		mark = os.path.join(target, "repo-hash")
		try:
			with open(mark) as f:
				if f.read() == h.hexdigest():
					return
		except OSError:
			pass
		for root, dirs, _ in os.walk(target):
			if os.path.basename(root) in (".fingerprint", "build"):
				# Stable and nightly toolchains lay theirs out differently.
				for d in dirs:
					if re.fullmatch(r"oct(-macros)?(-[0-9a-f]+)?", d):
						shutil.rmtree(os.path.join(root, d), ignore_errors=True)
				dirs[:] = []
			elif root.count(os.sep) - target.count(os.sep) >= 4:
				dirs[:] = []
		os.makedirs(target, exist_ok=True)
		with open(mark, "w") as f:
			f.write(h.hexdigest())


def tail(path, n=60):
	try:
		with open(path, errors="replace") as f:
			return "".join(f.readlines()[-n:])
	except OSError:
		return ""


class Run:
	def __init__(self, prop):
		self.prop, self.c = prop, CHECKS[prop]
		self.t0 = time.time()
		self.legs, self.violations, self.findings = [], [], {}
		self.dir = os.path.join(BUILD, "run", prop)
		os.makedirs(self.dir, exist_ok=True)

	def left(self):
		return max(10, BUDGET - (time.time() - self.t0))

	# Building.

	def features(self, leg):
		f = leg.get("features", self.c.get("features", ["alloc", "proc-macro", "std"]))
		f = list(f) + list(self.c.get("extra_features", []))
		return ["--no-default-features"] + (["--features", ",".join(f)] if f else [])

	def build(self, leg, kind, bin_):
		"""Builds and returns the command to run."""
		log = os.path.join(self.dir, f"build-{leg['name']}.log")
		manifest = leg.get("manifest", os.path.join(HARNESS, "Cargo.toml"))
		sel = ["--manifest-path", manifest, "--bin", bin_]
		if not leg.get("generated"):
			sel += self.features(leg)
		setup = SETUPS[kind]
		env = base_env(setup["nightly"])
		env.update(setup.get("env", {}))
		target = os.path.join(BUILD, "target-" + setup.get("dir", kind))
		env["CARGO_TARGET_DIR"] = target
		fresh(target)
		if kind == "miri":
			rc = sh(["cargo", "miri", "setup"], env, self.left(), out=log)
			if rc != 0:
				raise NoAnswer(f"miri setup failed ({rc}):\n{tail(log)}")
			return ["cargo", "miri", "run", "--offline", "-q"] + sel, env
		cmd = ["cargo", "build", "--offline"] + sel + setup["args"]
		rc = sh(cmd, env, self.left(), out=log)
		if rc is None:
			raise NoAnswer(f"building {leg['name']} timed out")
		if rc != 0:
			text = tail(log, 400)
			if leg.get("build_is_verdict") and re.search(r"^error", text, re.M) and self.library_builds():
				self.violate(leg, "does not build", f"leg {leg['name']} does not build:\n" + "\n".join(text[re.search(r"^error", text, re.M).start():].splitlines()[:150]))
				return None, env
			raise NoAnswer(f"building {leg['name']} failed:\n{text[-6000:]}")
		return [os.path.join(target, *setup["out"], bin_)], env

	def library_builds(self):
		"""Whether /repo builds as its own tests do: only then is a failed build a verdict."""
		env = base_env()
		env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target-repo")
		rc = sh(["cargo", "check", "--offline", "--manifest-path", os.path.join(HARNESS, "typ", "Cargo.toml"), "--features", "alloc,proc-macro,std"], env, self.left())
		return rc == 0

	# Running.

	def leg(self, leg):
		kind = leg.get("kind", leg["name"])
		bin_ = leg.get("bin", self.c.get("bin", self.prop.lower()))
		t = time.time()
		cmd, env = self.build(leg, kind, bin_)
		if cmd is None:
			return
		built = time.time() - t
		base = os.path.join(self.dir, leg["name"])
		rep, crumb, log = base + ".json", base + ".crumb", base + ".log"
		for p in (rep, crumb):
			if os.path.exists(p):
				os.unlink(p)
		setup = SETUPS[kind]
		env.update(setup.get("run_env", {}))
		env.update({"VERIF_SEED": str(SEED), "VERIF_TIER": TIER, "VP_LEG": leg["name"], "RUST_BACKTRACE": "0"})
		env["VP_SCALE"] = str(leg.get("scale", setup.get("scale", 1.0)))
		if kind != "miri":
			env.update({"VP_REPORT": rep, "VP_CRUMB": crumb})
		for k, v in leg.get("env", {}).items():
			env[k] = v
		if "MIRIFLAGS" in leg:
			env["MIRIFLAGS"] = leg["MIRIFLAGS"]
		if kind == "miri":
			env["VP_TRACE"] = "1"
		t = time.time()
		limit = min(self.left(), leg.get("timeout", 1e9))
		env["VP_DEADLINE"] = str(t + limit * 0.8)
		n = leg.get("shards", 1)
		if n == 1:
			rc = sh(cmd + leg.get("args", []), env, limit, out=log)
			self.judge(leg, kind, rc, rep, crumb, log, built, time.time() - t)
			return
		# The shards share one build; each takes its part of the jobs.
		if kind == "miri":
			rc = sh(cmd, dict(env, VP_SHARD="none"), limit, out=log)
			if rc != 0:
				raise NoAnswer(f"building {leg['name']} failed:\n{tail(log)}")
			built = time.time() - self.t0
			t = time.time()
			limit = min(self.left(), leg.get("timeout", 1e9))
			env["VP_DEADLINE"] = str(t + limit * 0.8)
		jobs = []
		for i in range(n):
			p = {x: f"{x}.{i}" for x in (rep, crumb, log)}
			for q in p.values():
				if os.path.exists(q):
					os.unlink(q)
			e = dict(env, VP_SHARD=f"{i}/{n}")
			if kind != "miri":
				e.update({"VP_REPORT": p[rep], "VP_CRUMB": p[crumb]})
			jobs.append((p, e))
		with concurrent.futures.ThreadPoolExecutor(n) as pool:
			rcs = list(pool.map(lambda j: sh(cmd + leg.get("args", []), j[1], limit, out=j[0][log]), jobs))
		error = None
		for i, ((p, _), rc) in enumerate(zip(jobs, rcs)):
			try:
				self.judge(dict(leg, name=f"{leg['name']} {i + 1}/{n}"), kind, rc, p[rep], p[crumb], p[log], built, time.time() - t)
			except NoAnswer as e:
				error = error or e
		if error:
			raise error

	def report(self, kind, rep, log):
		try:
			if kind == "miri":
				with open(log, errors="replace") as f:
					for line in f:
						if line.startswith("VP_REPORT_JSON "):
							return json.loads(line[15:])
				return None
			with open(rep) as f:
				return json.load(f)
		except (OSError, ValueError):
			return None

	def crumbs(self, path):
		out = []
		try:
			with open(path, "rb") as f:
				b = f.read()
		except OSError:
			return out
		for i in range(0, len(b), 4096):
			n = int.from_bytes(b[i:i + 4], "little")
			if 0 < n <= 4092:
				out.append(b[i + 4:i + 4 + n].decode(errors="replace"))
		return out

	def judge(self, leg, kind, rc, rep, crumb, log, built, wall):
		name = leg["name"]
		r = self.report(kind, rep, log)
		text = tail(log, 4000)
		note = {"leg": name, "build_s": round(built, 1), "run_s": round(wall, 1)}
		if rc is None:
			raise NoAnswer(f"leg {name} timed out; in progress: {self.crumbs(crumb)[:8]}")
		if kind == "miri":
			if "error: Undefined Behavior" in text or re.search(r"error: (memory leaked|the evaluated program (deadlocked|leaked))|error: deadlock", text):
				case = [l for l in text.splitlines() if l.startswith("[case]")][-12:]
				i = text.find("error: ")
				self.violate(leg, "undefined behaviour", f"Miri, {case}: {text[i:i + 5000]}")
				return
			if r is None:
				raise NoAnswer(f"leg {name} ended with {rc} and no report:\n{text[-4000:]}")
		elif rc < 0 or rc == 134 or r is None:
			sig = -rc if rc < 0 else 0
			san = re.search(r"==\d+==\s*ERROR: AddressSanitizer.*|WARNING: ThreadSanitizer.*|thread '.*' has overflowed its stack|memory allocation of \d+ bytes failed", text)
			if sig == signal.SIGKILL:
				raise NoAnswer(f"leg {name} was killed, probably for want of memory")
			if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP) or san:
				i = san.start() if san else max(0, len(text) - 4000)
				self.violate(leg, "crash", f"the process ended with {signal.Signals(sig).name if sig else rc}; cases in progress: {self.crumbs(crumb)}\n{text[i:i + 5000]}")
				return
			if rc == 101 and "panicked at" in text and not self.c.get("ub_only") and not re.search(r"os error|No space left|Cannot allocate", text):
				i = text.find("panicked at")
				self.violate(leg, "unexpected panic", f"a call that always succeeds panicked; in progress: {self.crumbs(crumb)}\n{text[max(0, i - 200):i + 5000]}")
				return
			raise NoAnswer(f"leg {name} ended with {rc} and no report:\n{text[-4000:]}")
		if "WARNING: ThreadSanitizer" in text:
			i = text.find("WARNING: ThreadSanitizer")
			self.violate(leg, "data race", f"ThreadSanitizer: {text[i:i + 5000]}")
		note.update({"evaluations": r["evaluations"], "distinct_nontrivial": r["distinct"], "observed": r["counters"]})
		note["samples"] = r["samples"]
		self.legs.append(note)
		if self.c.get("ub_only"):
			# Wrong results are not this check's concern.
			if r["violations"]:
				note["other_violations_seen"] = len(r["violations"])
			rc, r["violations"] = 0, []
			r["findings"] = {k: v for k, v in r["findings"].items() if k in self.c["ub_only"]}
		for k, v in r["findings"].items():
			# A finding of another property is reported by that property's check.
			if k in self.c.get("elsewhere", []):
				note.setdefault("findings_of_other_properties", []).append(k)
			else:
				self.findings.setdefault(k, v)
		for v in r["violations"]:
			self.violate(leg, v["what"], v["detail"])
		if not r["violations"]:
			if rc != 0:
				raise NoAnswer(f"leg {name} ended with {rc} though it reported nothing:\n{text[-3000:]}")
			if r["evaluations"] == 0:
				raise NoAnswer(f"leg {name} observed nothing")
			for k in leg.get("must", self.c.get("must", [])):
				if kind not in ("miri", "tsan") and not r["counters"].get(k) and not leg.get("features") and (leg.get("demands") or not leg.get("bin")):
					raise NoAnswer(f"leg {name} never observed: {k}")

	def violate(self, leg, what, detail):
		self.violations.append({"leg": leg["name"], "what": what, "detail": detail})

	# Verdict.

	def known(self):
		out = {}
		with open(os.path.join(VERIF, "known-findings.txt")) as f:
			for line in f:
				m = re.match(r"finding: property=(\w+) id=(\S+) (.*)", line)
				if m and m[1] == self.prop:
					out[m[2]] = m[3].strip()
		return out

	def finish(self):
		known = self.known()
		for k, v in self.findings.items():
			if k in known:
				print(f"KNOWN-FINDING: property={self.prop} {known[k]} [{k}; observed: {v}]")
			else:
				self.violations.append({"leg": "", "what": k, "detail": v})
		ev = {
			"property": self.prop, "tier": TIER, "seed": SEED, "level": self.c.get("level", "exploration"),
			"coverage": {
				"evaluations": sum(l["evaluations"] for l in self.legs),
				"distinct_nontrivial": max([l["distinct_nontrivial"] for l in self.legs] or [0]),
				"rule": self.c["rule"],
				"samples": [s for l in self.legs for s in l.pop("samples")][:24],
				"legs": self.legs,
				"known_findings_met": sorted(k for k in self.findings if k in known),
			},
			"assumptions": self.c.get("assumptions", []) + ["std, core and alloc behave as documented", "the reference model in harness/ states the documented data model"],
			"wall_s": round(time.time() - self.t0, 1),
			"violations": len(self.violations),
		}
		os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
		with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
			json.dump(ev, f, indent=1, ensure_ascii=False)
			f.write("\n")
		if not self.violations:
			print(f"{self.prop}: held on {ev['coverage']['evaluations']} evaluations in {ev['wall_s']} s ({', '.join(l['leg'] for l in self.legs)})")
			return 0
		os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
		path = os.path.join("replay", f"{self.prop}-{TIER}-{SEED}.json")
		with open(os.path.join(VERIF, path), "w") as f:
			json.dump({"property": self.prop, "replay": f"cd /verif && VERIF_SEED={SEED} VERIF_TIER={TIER} python3 check.py {self.prop}", "violations": self.violations}, f, indent=1, ensure_ascii=False)
			f.write("\n")
		for v in self.violations[:8]:
			print(f"[{v['leg']}] {v['what']}: {v['detail'][:1200]}")
		print(f"VIOLATION property={self.prop} replay={path}")
		return 1

	def main(self):
		error = None
		legs = self.c["legs"](TIER, SEED) if callable(self.c["legs"]) else self.c["legs"][TIER]
		for leg in legs:
			leg = {"name": leg} if isinstance(leg, str) else dict(leg)
			try:
				self.leg(leg)
			except NoAnswer as e:
				error = error or e
				print(f"[{leg['name']}] no answer: {e}", file=sys.stderr)
			if self.violations and TIER == "quick":
				break
		rc = self.finish()
		if rc == 0 and error:
			print(f"{self.prop}: no answer: {str(error)[:3000]}")
			return 2
		return rc


def setup():
	for t in ("stable", "nightly"):
		subprocess.run(["cargo", "+" + t, "--version"], check=True, env=base_env())
	subprocess.run(["cargo", "+nightly", "miri", "--version"], check=True, env=base_env(True))
	with open(os.path.join(VERIF, "MANIFEST.json")) as f:
		m = json.load(f)
	have = {c["property"] for c in m["checks"]} | {c["property"] for c in m.get("not_applicable", [])}
	with open(os.path.join(VERIF, "properties.jsonl")) as f:
		want = {json.loads(l)["id"] for l in f if l.strip()}
	assert have == want, (have ^ want)
	print("ready:", ", ".join(sorted(have)))


if __name__ == "__main__":
	if sys.argv[1:] == ["--setup"]:
		setup()
	else:
		sys.exit(Run(sys.argv[1]).main())
