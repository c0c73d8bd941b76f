"""Check driver: obligations, replay of counterexamples, known findings,
evidence, exit code."""
import json
import os
import random
import re
import signal
import sys
import time
import traceback
from fractions import Fraction
from . import boot
from .boot import tf, np
from . import alg, graph, smt, case as _case
from .alg import E, B
import mpmath

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class StopCheck(BaseException):
    """enough violations were reported"""


class _Timeout(BaseException):
    pass


def _alarm(*a):
    raise _Timeout()


class Check(object):
    def __init__(self, pid, tier, functions=(), bounds=(), assumptions=(),
                 level='model_checking'):
        self.pid = pid
        self.tier = tier
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.rng = random.Random(self.seed)
        self.t0 = time.time()
        self.functions = list(functions)
        self.bounds = list(bounds)
        self.assumptions = list(assumptions)
        self.obligations = 0
        self.held = 0
        self.inconclusive = []
        self.violations = []
        self.known_hit = []
        self.cases = 0
        self.validated = 0
        self.samples = []
        self.ops = {}
        self.vacuity = 0
        self.known = self._load_known()
        self.seenkeys = set()
        self.budget = None
        self.extra = {}
        self.time_limit = 3000 if tier == 'thorough' else 720
        # worker of a check that is spread over processes: (number, count)
        sh = os.environ.get('VERIF_SHARD')
        self.shard = tuple(int(x) for x in sh.split('/')) if sh else None
        self._nguard = 0
        self._records = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def _load_known(self):
        p = os.path.join(VERIF, 'known_findings.txt')
        out = []
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
                if m and m.group(1) == self.pid:
                    k = m.group(2)
                    out.append({'key': k.rstrip('*'),
                                'prefix': k.endswith('*'),
                                'what': m.group(3).strip()})
        return out

    # ------------------------------------------------------------ outcomes
    def hold(self, key, n=1):
        self.obligations += n
        self.held += n
        if len(self.samples) < 12:
            self.samples.append({'obligation': key, 'verdict': 'unsat'})

    def unknown(self, key, why):
        self.obligations += 1
        self.inconclusive.append({'obligation': key, 'why': str(why)[:500]})

    def violation(self, key, what, data):
        """a reproduced violation"""
        self.obligations += 1
        for k in self.known:
            if k['key'] == key or (k.get('prefix') and
                                   key.startswith(k['key'])):
                if k['key'] not in [x['key'] for x in self.known_hit]:
                    self.known_hit.append(k)
                return
        if key in self.seenkeys:
            return
        self.seenkeys.add(key)
        if self.shard:
            self.violations.append(key)
            self._records.append([key, what, data])
            # survives a crash of this process
            with open(os.environ['VERIF_SHARD_OUT'] + '.viol', 'a') as f:
                f.write(json.dumps(self._records[-1], default=_js) + '\n')
            if len(self.violations) >= 6:
                raise StopCheck()
            return
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s_%d.json' % (self.pid,
                                               len(self.violations)))
        rec = {'property': self.pid, 'obligation': key, 'what': what,
               'data': data}
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1, default=_js)
        self.violations.append({'obligation': key, 'what': what,
                                'replay': path})
        print('violation: %s: %s' % (key, what))
        print('VIOLATION property=%s replay=%s' % (self.pid, path))
        sys.stdout.flush()
        if len(self.violations) >= 6:
            raise StopCheck()

    # ------------------------------------------------------------ equality
    def equal(self, key, cs, fetch, got, want, assume=(), fns=None):
        """Obligation: symbolic value ``got`` of real tensor ``fetch`` equals
        the specification ``want`` elementwise, for all inputs.  cs: Case."""
        got, want = graph.asobj(got), graph.asobj(want)
        if got.shape != want.shape:
            # confirm on real graph
            env = cs.point(self.rng)
            try:
                out, _ = cs.run(fetch, env or {})
                if np.shape(out) != want.shape:
                    self.violation(key, 'shape %s, specified %s' % (
                        np.shape(out), want.shape), {'env': env})
                    return False
            except Exception as e:
                self.violation(key, 'real graph raised %r' % e,
                               {'env': env})
                return False
            self.unknown(key, 'shape of encoding %s differs from spec %s'
                         % (got.shape, want.shape))
            return False
        ok = True
        for i in np.ndindex(*got.shape):
            if not self._eq1(key, cs, fetch, got[i], want[i], i,
                             tuple(cs.assume) + tuple(assume), fns):
                ok = False
                break
        return ok

    def decide(self, tag, cs, items, fns=None, validate=1, assume=()):
        """items: [(name, real tensor, specified value array)].  Encode the
        graph, validate the encoding, discharge each equality."""
        fetch = [t for _, t, _ in items]
        try:
            vals = cs.sym(fetch)
        except (graph.SymError, graph.Unsupported, AssertionError) as e:
            why = '%s: %s' % (type(e).__name__, e)
            vals = None
        if vals is None:
            ok = True
            for n, t, w in items:
                w = graph.asobj(w)
                for i in np.ndindex(*w.shape):
                    v = self._candidates(tag + ':' + n, cs, t, w, i,
                                         tuple(cs.assume) + tuple(assume),
                                         fns, [], why)
                    if v is not None:
                        ok = False
                        break
            if ok:
                self.unknown(tag, 'not encoded: %s' % why)
            return False
        if cs.assume:
            if smt.reachable(cs.assume):
                self.vacuity += 1
            else:
                self.unknown(tag, 'assumptions unsatisfiable')
        if validate:
            self.validate(cs, fetch, vals, validate, fns=fns)
        ok = True
        for (n, t, w), g in zip(items, vals):
            ok = self.equal(tag + ':' + n, cs, t, g, w, assume, fns) and ok
        return ok

    def guard(self, tag, fn, *args, **kw):
        """Run one configuration; anything the engine cannot handle is an
        inconclusive obligation, never an alarm."""
        self._nguard += 1
        if self.shard and self._nguard % self.shard[1] != self.shard[0]:
            return
        # independent of how the configurations are spread over processes
        self.rng = random.Random('%d %d %s' % (self.seed, self._nguard, tag))
        left = self.time_limit - (time.time() - self.t0)
        if left < 5:
            self.unknown(tag, 'time budget of the run exhausted')
            return
        t0 = time.time()
        lim = min(left, 240 if self.thorough else 120)
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, lim, 5)
        try:
            r = fn(*args, **kw)
            return r
        except _Timeout:
            self.unknown(tag, 'configuration exceeded %d s' % lim)
        except (graph.SymError, graph.Unsupported) as e:
            self.unknown(tag, '%s: %s' % (type(e).__name__, e))
        except Exception as e:
            self._tb()
            self.unknown(tag, 'internal: %r' % e)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            if os.environ.get('VERIF_TIMES') and time.time() - t0 > 2:
                print('time %.1f %s' % (time.time() - t0, tag))

    def _tb(self):
        self._ntb = getattr(self, '_ntb', 0) + 1
        if self._ntb <= 2:
            traceback.print_exc()

    def build(self, key, fn, *args, **kw):
        """Graph construction on valid arguments: an exception from the
        library is a violation."""
        try:
            return fn(*args, **kw)
        except Exception as e:
            self.violation(key + ':build', 'construction on valid arguments '
                           'raised %r' % e, {'traceback':
                                             traceback.format_exc()[-1500:]})
            return None

    def _eq1(self, key, cs, fetch, g, w, idx, assume, fns):
        if isinstance(g, B) or isinstance(w, B):
            r = smt.prove(alg.iff(g, w), assume, rng=self.rng)
        else:
            r = smt.prove_equal(g, w, assume, fns=fns, rng=self.rng)
        if r.status == 'holds':
            self.hold(key + str(list(idx)) if idx else key)
            return True
        # counterexample candidate: replay on the real graph
        first = [(r.env, r.bools)] if r.status == 'differs' else []
        v = self._candidates(key, cs, fetch, w, idx,
                             assume, fns, first, r.detail)
        if v is None:
            self.unknown(key, '%s; replay: %s' % (r.detail, self._last))
        return False

    def _candidates(self, key, cs, fetch, w, idx, assume, fns, cands, why):
        """Replay candidate points on the real code; report a violation when
        one of them reproduces.  Returns None when none does."""
        w = w[idx] if isinstance(w, np.ndarray) else w
        cands = list(cands)
        for k in range(12):
            p = cs.point(self.rng)
            if p is not None:
                cands.append((p, {}))
        for scale in (4., 12., 40.):
            for k in range(4):
                cands.append((smt.default_point(cs.all_vars(), self.rng,
                                                scale), {}))
        self._last = None
        for env, bools in cands:
            res = self._replay(cs, fetch, w, idx, env, bools, assume, fns)
            if res is None:
                continue
            bad, detail, env2 = res
            self._last = detail
            if bad:
                self.violation(key, detail, {'index': list(idx),
                                             'inputs': _env(env2),
                                             'case': cs.name,
                                             'algebra': why})
                return True
        return None

    def _replay(self, cs, fetch, w, idx, env, bools, assume, fns):
        try:
            full = cs.complete(env, self.rng)
        except Exception:
            return None
        if not smt._holds_at(assume, full, dict(bools or {})):
            return None
        try:
            _, env2 = cs.feed_dict(full, bools)
            if not smt.in_domain(cs.all_vars(), env2) or \
                    not smt._holds_at(assume, env2, dict(bools or {})):
                return None
            out, env2 = cs.run(fetch, full, bools)
        except tf.errors.OpError as e:
            return True, 'real graph raised %s' % str(e)[:200], full
        except Exception as e:
            return None
        if not smt._holds_at(assume, env2, dict(bools or {})) or \
                not smt.in_domain(cs.all_vars(), env2):
            return None
        try:
            ev = alg.Ev(dict(env2, **(bools or {})), fns=fns)
            want = ev.b(w) if isinstance(w, B) else ev.e(w)
        except (KeyError, ZeroDivisionError, ValueError, OverflowError):
            return None
        o = np.asarray(out)[idx] if idx != () else np.asarray(out)[()]
        dt = np.asarray(out).dtype
        if isinstance(w, B):
            if bool(o) != bool(want):
                return True, 'got %s, specified %s' % (bool(o), want), env2
            return False, 'replay agrees', env2
        if mpmath.isnan(want):
            return None
        if dt.kind == 'f' and abs(float(want)) > float(
                np.finfo(dt).max) / 10 and abs(float(want)) != float('inf'):
            return None
        if not _case.num_equal(o, want, dt if dt.kind == 'f' else
                               'float64') and not rounding(
                o, want, dt, w, env2, bools, fns):
            return True, 'got %r, specified %r' % (float(o),
                                                   float(want)), env2
        return False, 'replay agrees (%r)' % float(o), env2

    def validate(self, cs, fetches, vals, n=1, fns=None):
        """Translator validation: the encoding evaluated at a random point
        agrees with the real graph."""
        ok = True
        for _ in range(n):
            for again in range(6):
                bad, extreme = self._validate1(cs, fetches, vals, fns)
                # overflow of the machine arithmetic says nothing about the
                # encoding: take another point
                if not (bad and extreme):
                    break
            for why in bad:
                self.unknown(cs.name, why)
                ok = False
            self.validated += 1
        return ok

    def _validate1(self, cs, fetches, vals, fns):
        env = cs.point(self.rng)
        if env is None:
            return [], False
        try:
            outs, env2 = cs.run(fetches, env)
        except tf.errors.OpError as e:
            return ['validation run raised %s' % str(e)[:160]], False
        ev = alg.Ev(env2, fns=fns)
        bad, extreme = [], False
        for f, o, v in zip(fetches, outs, vals):
            v = graph.asobj(v)
            o = np.asarray(o)
            if o.shape != v.shape:
                bad.append('encoding shape mismatch %s %s' % (o.shape,
                                                              v.shape))
                continue
            for i in np.ndindex(*v.shape):
                if o.dtype.kind == 'f' and (not np.isfinite(o[i]) or
                                            abs(o[i]) > 1e12):
                    extreme = True
                try:
                    w = ev.b(v[i]) if isinstance(v[i], B) else ev.e(v[i])
                except (KeyError, ZeroDivisionError):
                    continue
                if isinstance(v[i], B):
                    same = bool(o[i]) == bool(w)
                elif isinstance(w, (mpmath.mpc, complex)):
                    same, extreme = False, True
                else:
                    same = _case.num_equal(
                        o[i], w, o.dtype if o.dtype.kind == 'f'
                        else 'float64') or rounding(
                            o[i], w, o.dtype, v[i], env2, None, fns)
                if not same:
                    bad.append('encoding differs from the real graph at %s: '
                               '%s vs %s' % (f.name, o[i], w))
                    break
        return bad, extreme

    def prove(self, key, goal, assume=(), confirm=None):
        """Boolean obligation; ``confirm(env, bools)`` replays on the real
        code and returns (reproduced, detail)."""
        r = smt.prove(goal, assume, rng=self.rng)
        if r.status == 'holds':
            self.hold(key)
            return True
        if r.status == 'differs' and confirm is not None:
            rep, detail = confirm(r.env, r.bools)
            if rep:
                self.violation(key, detail, {'inputs': _env(r.env)})
                return False
            self.unknown(key, 'counterexample did not reproduce: %s' % detail)
            return False
        self.unknown(key, r.detail)
        return False

    def done_case(self, cs):
        self.cases += 1
        if cs.ev is not None:
            for k, v in cs.ev.ops_seen.items():
                self.ops[k] = self.ops.get(k, 0) + v
        cs.close()

    def dump(self, path):
        """what a worker process found"""
        rec = {k: getattr(self, k) for k in MERGED}
        rec.update(violations=self._records, known=self.known_hit,
                   ops=self.ops, samples=self.samples,
                   inconclusive=self.inconclusive, extra=self.extra,
                   stats=smt.STATS.as_dict())
        with open(path + '.part', 'w') as f:
            json.dump(rec, f, default=_js)
        os.rename(path + '.part', path)

    def merge(self, rec):
        for k in MERGED:
            setattr(self, k, getattr(self, k) + rec[k])
        self.inconclusive += rec['inconclusive']
        self.samples = (self.samples + rec['samples'][:3])[:12]
        for k, v in rec['ops'].items():
            self.ops[k] = self.ops.get(k, 0) + v
        for k in rec['known']:
            if k not in self.known_hit:
                self.known_hit.append(k)
        self.extra.setdefault('coverage', {}).update(
            rec['extra'].get('coverage', {}))
        st = self.extra.setdefault('stats', {})
        for k, v in rec['stats'].items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                st[k] = st.get(k, 0) + v
            else:
                st[k] = v
        for key, what, data in rec['violations']:
            self.obligations -= 1
            try:
                self.violation(key, what, data)
            except StopCheck:
                break

    def finish(self):
        st = smt.STATS.as_dict()
        st.update(self.extra.get('stats', {}))
        wall = time.time() - self.t0
        for k in self.known_hit:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        cov = {
            'states': int(self.obligations),
            'transitions': int(st['queries']),
            'traces_validated_against_impl': int(self.validated),
            'samples': self.samples[:12],
            'obligations': self.obligations, 'held': self.held,
            'inconclusive': self.inconclusive[:20],
            'n_inconclusive': len(self.inconclusive),
            'configurations': self.cases,
            'vacuity_witnesses': self.vacuity,
            'solver': st,
            'functions_encoded': self.functions,
            'bounds': self.bounds,
            'graph_op_types': dict(sorted(self.ops.items(),
                                          key=lambda kv: -kv[1])[:60]),
        }
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed,
            'level': 'model_checking', 'coverage': cov,
            'assumptions': self.assumptions,
            'violations': len(self.violations),
            'wall_s': round(wall, 2),
        }
        ev['coverage'].update(self.extra.get('coverage', {}))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', '%s.json' % self.pid),
                  'w') as f:
            json.dump(ev, f, indent=1, default=_js)
        for i in self.inconclusive[:10]:
            print('INCONCLUSIVE %s: %s' % (i['obligation'], i['why']))
        print('%s %s: %d obligations, %d held, %d inconclusive, '
              '%d violations, %d configurations, %d validated, '
              '%d queries, solver %.2fs, wall %.1fs' % (
                  self.pid, self.tier, self.obligations, self.held,
                  len(self.inconclusive), len(self.violations), self.cases,
                  self.validated, st['queries'], st['solver_s'], wall))
        sys.stdout.flush()
        if self.violations:
            return 1
        return 0


def rounding(got, want, dtype, expr, env, bools, fns):
    """is the difference explained by rounding errors of the size of the
    machine precision in the inputs (an ill-conditioned point)?"""
    if np.dtype(dtype).kind != 'f' or not np.isfinite(float(got)):
        return False
    eps = {'float16': 1e-3, 'float32': 2e-7}.get(np.dtype(dtype).name, 1e-15)
    rng = random.Random(5)
    spread = 0.
    try:
        for _ in range(6):
            e2 = {k: x * (1 + eps * rng.choice((-1, 1))) if isinstance(
                x, (float, int, Fraction, mpmath.mpf)) and not isinstance(
                    x, bool) else x for k, x in env.items()}
            w = alg.Ev(dict(e2, **(bools or {})), fns=fns).e(expr)
            spread = max(spread, abs(float(w) - float(want)))
    except (KeyError, ZeroDivisionError, ValueError, OverflowError,
            TypeError):
        return False
    return abs(float(got) - float(want)) <= 30 * spread


def _env(env):
    return {k: float(v) for k, v in (env or {}).items()}


def _js(o):
    if hasattr(o, 'item'):
        try:
            return o.item()
        except Exception:
            return str(o)
    if hasattr(o, 'tolist'):
        return o.tolist()
    return str(o)


def main(modname, pid, tier):
    """Run checks.<modname>.run(check)."""
    import importlib
    mod = importlib.import_module('checks.' + modname)
    ck = Check(pid, tier, **getattr(mod, 'INFO', {}))
    n = getattr(mod, 'SHARDS', 8)
    if not ck.shard and not os.environ.get('VERIF_INPROC'):
        spread(ck, modname, n)
        return ck.finish()
    try:
        mod.run(ck)
    except StopCheck:
        pass
    except Exception as e:
        ck._tb()
        ck.unknown('run', 'internal: %r' % e)
        if not ck.shard and not ck.obligations - len(ck.inconclusive):
            ck.finish()
            return 2
    if ck.shard:
        ck.dump(os.environ['VERIF_SHARD_OUT'])
        return 0
    return ck.finish()


MERGED = ('obligations', 'held', 'cases', 'validated', 'vacuity')


def spread(ck, modname, n):
    """the configurations of the check, dealt to n worker processes"""
    import shutil
    import subprocess
    import tempfile
    d = tempfile.mkdtemp(prefix='verif_shard_')
    ps = []

    def start(i):
        env = dict(os.environ, VERIF_SHARD='%d/%d' % (i, n),
                   VERIF_SHARD_OUT=os.path.join(d, '%d.json' % i),
                   OMP_NUM_THREADS='1', TF_NUM_INTRAOP_THREADS='1',
                   TF_NUM_INTEROP_THREADS='1')
        p = subprocess.Popen(
            [sys.executable, os.path.join(VERIF, 'run.py'), ck.pid,
             ck.tier], env=env, cwd=VERIF)
        ps.append(p)
        return p

    def wait(p):
        left = ck.time_limit + 60 - (time.time() - ck.t0)
        try:
            p.wait(timeout=max(5, left))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    try:
        first = [start(i) for i in range(n)]
        for i, p in enumerate(first):
            wait(p)
            out = os.path.join(d, '%d.json' % i)
            if not os.path.exists(out) and \
                    not os.path.exists(out + '.viol') and \
                    time.time() - ck.t0 < ck.time_limit / 2:
                p = start(i)                # crashed without a finding
                wait(p)
            if os.path.exists(out):
                with open(out) as f:
                    ck.merge(json.load(f))
                continue
            ck.unknown('worker %d' % i, 'ended with status %s' %
                       p.returncode)
            if os.path.exists(out + '.viol'):
                for l in open(out + '.viol'):
                    try:
                        ck.violation(*json.loads(l))
                    except StopCheck:
                        break
                    except ValueError:
                        pass
    finally:
        for p in ps:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(d, ignore_errors=True)
