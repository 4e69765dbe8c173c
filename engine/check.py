#!/usr/bin/env python3-vt
"""Decide one property: build, execute symbolically, query the solver, replay, report.

usage: check.py <property> [--tier quick|thorough] [--only SUBSTR] [-v]
"""
import argparse
import fnmatch
import json
import math
import multiprocessing as mp
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3  # noqa: E402
import build  # noqa: E402
import terms  # noqa: E402
from specs import PROPS  # noqa: E402

VERIF = build.VERIF
REL = 1e-6


# ------------------------------------------------------------------ dumps
class Path:
    __slots__ = ('conds', 'assume', 'defs', 'idefs', 'eqs', 'truths', 'status', 'ops', 'branches', 'trunc', 'fns', 'sched')

    def __init__(self, status='?'):
        self.conds, self.assume, self.defs, self.idefs, self.eqs, self.truths = [], [], [], [], [], []
        self.status, self.ops, self.branches, self.trunc, self.fns = status, 0, 0, False, []
        self.sched = {}


def parse(fname, enc, paths):
    cur, loc = None, None
    with open(fname, errors='replace') as fh:
        for line in fh:
            t = line[0]
            if line.startswith('BEGIN'):
                cur, loc = Path(), {}
            elif line.startswith('END'):
                paths.append(cur)
                cur = None
            elif cur is None:
                continue
            elif t == 'N':
                w = line.split(' ')
                op = w[2]
                if op == 'c':
                    key = ('c', Fraction(float.fromhex(w[3].strip())), None)
                elif op == 'v':
                    key = ('v', line.rstrip('\n').split(' ', 3)[3], None)
                elif len(w) == 5:
                    key = (op, loc[int(w[3])], loc[int(w[4])])
                else:
                    key = (op, loc[int(w[3])], None)
                loc[int(w[1])] = enc.intern(key)
            elif t in 'CADI':
                w = line.rstrip('\n').split(' ', 3)
                item = (loc[int(w[1])], int(w[2]), w[3] if len(w) > 3 else '')
                (cur.conds if t == 'C' else cur.assume if t == 'A' else cur.defs if t == 'D' else cur.idefs).append(item)
            elif t == 'E':
                w = line.rstrip('\n').split(' ', 3)
                cur.eqs.append((loc[int(w[1])], loc[int(w[2])], w[3]))
            elif t == 'T':
                ok, rest = line[2], line[4:].rstrip('\n')
                lab, _, det = rest.partition('\t')
                cur.truths.append((ok == '1', lab, det))
            elif t == 'S':
                w = line.split()
                cur.status, cur.ops, cur.branches, cur.trunc = w[1], int(w[2]), int(w[3]), w[4] == '1'
            elif t == 'P':
                w = line.split()
                cur.sched[w[1]] = int(w[2])
            elif t == 'F':
                cur.fns.append(int(line.split()[1], 16))
    return paths


def parse_replay(fname):
    vs, ts, status = {}, {}, None
    try:
        with open(fname, errors='replace') as fh:
            for line in fh:
                if line[0] == 'V':
                    w = line.rstrip('\n').split(' ', 3)
                    vs.setdefault(w[3], []).append((fl(w[1]), fl(w[2])))
                elif line[0] == 'T':
                    lab, _, det = line[4:].rstrip('\n').partition('\t')
                    ts.setdefault(lab, []).append((line[2] == '1', det))
                elif line[0] == 'S':
                    status = line.split()[1]
    except OSError:
        pass
    return vs, ts, status


def fl(s):
    try:
        return float(s)
    except ValueError:
        return math.nan


def mismatch(a, b, rel=REL):
    if not math.isfinite(b):
        return False
    if not math.isfinite(a):
        return True
    return abs(a - b) > rel * max(1.0, abs(a), abs(b))


# ------------------------------------------------------------------ solving
class Case:
    def __init__(self, job):
        self.__dict__.update(job)
        self.enc = terms.Enc()
        self.enc.init_maps()
        self.q = 0
        self.qtime = 0.0
        self.kinds = {'raw': 0, 'normal form': 0}
        self.rng = random.Random((self.seed, self.case, self.exe_s).__repr__())

    # ---- constraints
    def sign(self, n, mask):
        """z3 constraint: sign(n) in mask (and n's denominators are nonzero)"""
        f = self.enc.enc(n)
        num = self.enc.pz3(f[0])
        cs = []
        odd = num
        for k, e in f[1].items():
            d = self.enc.pz3(dict(k))
            cs.append(d != 0)
            if e % 2:
                odd = odd * d
        self.ats |= self.atoms_f(f)
        m = mask
        if m == 7:
            pass
        elif m == terms.ZERO:
            cs.append(num == 0)
        elif m == terms.NEG | terms.POS:
            cs.append(num != 0)
        elif m == terms.POS:
            cs.append(odd > 0)
        elif m == terms.NEG:
            cs.append(odd < 0)
        elif m == terms.POS | terms.ZERO:
            cs.append(odd >= 0)
        elif m == terms.NEG | terms.ZERO:
            cs.append(odd <= 0)
        else:
            cs.append(z3.BoolVal(False))
        return cs

    def atoms_f(self, f):
        acc = set()
        self.enc.atoms_of(f[0], acc)
        for k in f[1]:
            self.enc.atoms_of(dict(k), acc)
        return acc

    def closure(self, ats):
        """axioms of these atoms; arguments of sqrt/abs axioms bring no new function atoms without axioms"""
        out, seen = [], set()
        work = list(ats)
        while work:
            a = work.pop()
            if a in seen:
                continue
            seen.add(a)
            kind, key, zv = self.enc.atoms[a]
            out += self.enc.axioms[a]
            if kind in ('sqrt', 'abs', 'atan2') or True:
                # arguments are (num, den) keys
                if isinstance(key, tuple):
                    for part in key:
                        self._collect(part, work)
        return out

    def _collect(self, k, work):
        """atoms mentioned in a polynomial/fraction key"""
        if not isinstance(k, tuple):
            return
        for item in k:
            if isinstance(item, tuple):
                if len(item) == 2 and isinstance(item[1], Fraction) and isinstance(item[0], tuple):
                    for a, _ in item[0]:
                        work.append(a)
                else:
                    self._collect(item, work)

    def solve(self, cs, timeout):
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', int(timeout * 1000))
        s.add(*cs)
        t = time.time()
        r = s.check()
        self.q += 1
        self.qtime += time.time() - t
        if r == z3.sat:
            return 'sat', s.model()
        if r == z3.unsat:
            return 'unsat', None
        # second back end of z3
        s = z3.Solver()
        s.set('timeout', int(timeout * 1000))
        s.add(*cs)
        t = time.time()
        r = s.check()
        self.q += 1
        self.qtime += time.time() - t
        if r == z3.sat:
            return 'sat', s.model()
        if r == z3.unsat:
            return 'unsat', None
        return 'unknown', None

    def pathcons(self, p, with_conds=True):
        cs = []
        skipped = 0
        for n, m, _ in p.defs + p.assume + (p.conds if with_conds else []):
            try:
                cs += self.sign(n, m)
            except terms.TooBig:
                skipped += 1
        return cs, skipped

    def diff(self, l, r):
        """fraction of l - r, plus nonzero denominators"""
        fl_, fr = self.enc.enc(l), self.enc.enc(r)
        f = self.enc.fadd(fl_, fr, -1)
        nz = [self.enc.pz3(dict(k)) != 0 for k in set(fl_[1]) | set(fr[1])]
        self.ats |= self.atoms_f(fl_) | self.atoms_f(fr)
        return f, nz

    # ---- one equality under extra constraints
    def equal(self, l, r, extra, t):
        self.ats = set(self.ats0) if extra else set()
        enc = self.enc
        if l == r:
            # identical hash-consed terms: still put to the solver, trivially
            x = z3.Real('same')
            res, m = self.solve([x != x], t)
            self.kinds['raw'] += 1
            return res, m
        try:
            f, nz = self.diff(l, r)
        except terms.TooBig:
            f, nz = None, []
        if f is not None and not f[0]:
            # the normal forms agree; confirm with the solver on the unexpanded terms
            try:
                (a, b), (c, d) = enc.raw(l), enc.raw(r)
                lhs = a if d is None else a * d
                rhs = c if b is None else c * b
                cs = [lhs != rhs] + nz + self.closure(self.ats) + extra
                if self.rawfail < 4:
                    res, m = self.solve_fast(cs, lhs, rhs, min(t, self.t_raw))
                    if res == 'unsat':
                        self.kinds['raw'] += 1
                        return res, None
                    self.rawfail += 1
            except terms.TooBig:
                pass
            self.kinds['normal form'] += 1
            return self.solve([enc.pz3(f[0]) != 0], t)
        if f is not None:
            cs = [enc.pz3(f[0]) != 0] + nz + self.closure(self.ats) + extra
            self.kinds['normal form'] += 1
            return self.solve(cs, t)
        try:
            (a, b), (c, d) = enc.raw(l), enc.raw(r)
        except terms.TooBig:
            return 'unknown', None
        lhs = a if d is None else a * d
        rhs = c if b is None else c * b
        cs = [lhs != rhs] + ([b != 0] if b is not None else []) + ([d != 0] if d is not None else []) + self.closure(self.ats) + extra
        self.kinds['raw'] += 1
        return self.solve(cs, t)

    def solve_fast(self, cs, lhs, rhs, t):
        """identities first go through the simplifier of the solver (sum of monomials)"""
        t0 = time.time()
        s = z3.TryFor(z3.Then(z3.With('simplify', som=True, som_blowup=2000), 'smt'), int(t * 1000)).solver()
        s.add(*cs)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.q += 1
        self.qtime += time.time() - t0
        return ('unsat' if r == z3.unsat else 'sat' if r == z3.sat else 'unknown'), None

    # ---- concretisation
    def satisfied(self, p, vals, tol=1e-9):
        for n, m, _ in p.assume + p.conds:
            v = vals[n]
            if math.isnan(v):
                return False
            s = terms.ZERO if abs(v) <= tol else terms.NEG if v < 0 else terms.POS
            if not s & m:
                return False
        for n, m, _ in p.defs:
            v = vals[n]
            if math.isnan(v):
                return False
            s = terms.ZERO if abs(v) <= tol else terms.NEG if v < 0 else terms.POS
            if not s & m:
                return False
        return True

    def inputs(self):
        return [k[1] for k in self.enc.nodes if k[0] == 'v']

    def model_env(self, m):
        env = {}
        for nm in self.inputs():
            i = self.enc.atomkey.get(('v', nm))
            if i is None:
                env[nm] = 0.75
                continue
            v = m.eval(self.enc.atoms[i][2], model_completion=True)
            try:
                if z3.is_rational_value(v):
                    env[nm] = v.numerator_as_long() / v.denominator_as_long()
                else:
                    a = v.approx(20)
                    env[nm] = a.numerator_as_long() / a.denominator_as_long()
            except Exception:
                env[nm] = 0.75
        return env

    def pin(self, cs, model):
        """ask the solver for the same violation at small, simple inputs"""
        names = self.inputs()
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', 400)
        s.add(*cs)
        best = model
        t0 = time.time()
        for j, nm in enumerate(names):
            if time.time() - t0 > 4:
                break
            i = self.enc.atomkey.get(('v', nm))
            if i is None:
                continue
            zv = self.enc.atoms[i][2]
            for val in (Fraction(3 + 2 * (j % 5), 4), Fraction(1, 2), Fraction(-5, 4), Fraction(1), Fraction(0)):
                s.push()
                s.add(zv == z3.RealVal(str(val)))
                self.q += 1
                if s.check() == z3.sat:
                    best = s.model()
                    break
                s.pop()
        return best

    def candidates(self, p, model, cs, loose=False):
        """points that satisfy the path's constraints, best first"""
        out = []
        if model is not None:
            out.append(self.model_env(model))
            try:
                out.append(self.model_env(self.pin(cs, model)))
            except z3.Z3Exception:
                pass
        names = self.inputs()
        good = []
        for env in out:
            vals = terms.feval(self.enc, None, env)
            if self.satisfied(p, vals):
                good.append((env, vals))
        base = out[-1] if out else None
        for k in range(400):
            if len(good) >= 8:
                break
            if k % 4 == 0 and base is not None:
                env = {n: base[n] if self.rng.random() < 0.7 else self.rng.choice([0.25, 0.5, 0.75, 1.25, 1.5, -0.5, -1.25, 0.0, 1.0, 2.0]) for n in names}
            elif k % 4 == 1:
                env = {n: round(self.rng.uniform(0.2, 0.95), 3) for n in names}
            elif k % 4 == 2:
                env = {n: round(self.rng.uniform(-2, 2), 3) for n in names}
            else:
                env = {n: round(self.rng.uniform(1.05, 2.5), 3) for n in names}
            vals = terms.feval(self.enc, None, env)
            if self.satisfied(p, vals):
                good.append((env, vals))
        if not good and loose:
            good = [(e, None) for e in out]
        return good

    def replay(self, env):
        fd, ef = tempfile.mkstemp(dir=self.tmp, suffix='.env')
        with os.fdopen(fd, 'w') as fh:
            for k, v in env.items():
                fh.write('%s %.17g\n' % (k, v))
        of = ef[:-4] + '.out'
        # a preemption can only be steered at the accesses of the instrumented number type: that build, run at one point
        steer = env.get('schedule.loop', -1) >= 0
        for again in (False, True):
            try:
                pr = subprocess.run([self.exe_s if steer else self.exe_r, 'run', self.case, of, '1', ef], stdout=subprocess.DEVNULL,
                                    stderr=subprocess.DEVNULL, timeout=60, env=dict(os.environ, VH_CONCRETE='1'))
                rc = pr.returncode
            except subprocess.TimeoutExpired:
                rc = -99
            if rc not in (-9, -99):     # ended from outside, or out of time: once more
                break
        r = parse_replay(of)
        if r[2] is None:
            r = (r[0], r[1], 'DIED:%d' % rc)
        return ef, r

    def confirm(self, kind, label, p, model, cs):
        """replay on the real code; returns a violation record or None"""
        for env, vals in self.candidates(p, model, cs, kind == 'crash')[:6]:
            env = dict(env, **p.sched)
            ef, (vs, ts, status) = self.replay(env)
            rec = None
            if kind in ('eq', 'def'):
                for lab, lst in vs.items():
                    if kind == 'eq' and lab != label:
                        continue
                    for a, b in lst:
                        if mismatch(a, b):
                            rec = dict(label=lab, got=a, expected=b)
                if rec is None and status and status.startswith(('CRASH', 'DIED')):
                    rec = dict(label=label, got=status, expected='a result')
            elif kind == 'truth':
                for ok, det in ts.get(label, []):
                    if not ok:
                        rec = dict(label=label, got='false ' + det, expected='true')
                if rec is None and status and status.startswith(('CRASH', 'DIED')):
                    rec = dict(label=label, got=status, expected='a result')
            elif kind == 'crash':
                if status != 'OK':
                    rec = dict(label='abnormal end', got=status, expected='a result')
                else:
                    # undefined behaviour may surface as a wrong value instead of a crash
                    for lab, lst in vs.items():
                        for a, b in lst:
                            if mismatch(a, b):
                                rec = dict(label=lab, got=a, expected=b)
                    for lab, lst in ts.items():
                        for ok, det in lst:
                            if not ok:
                                rec = dict(label=lab, got='false ' + det, expected='true')
            if rec:
                rec.update(env=env, case=self.case, kind=kind)
                return rec
        return None

    rawfail = 0     # equalities the solver did not settle on the unexpanded terms, in this case

    # ---- the case
    def run(self):
        t0 = time.time()
        out = os.path.join(self.tmp, 'dump')
        res = dict(case=self.case, tag=self.tag, violations=[], inconclusive=[], obligations=0, discharged=0, paths=0, infeasible=0,
                   ops=0, branches=0, truncated=0, fns=[], witness=0, vacuous=0, validated=0, mism=[], samples=[], notes=[])
        try:
            subprocess.run([self.exe_s, 'run', self.case, out, str(self.maxpaths)], stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=self.t_exec,
                           env=dict(os.environ, VH_MAXSPECIAL=str(self.maxspecial)))
        except subprocess.TimeoutExpired:
            res['inconclusive'].append((self.case, 'symbolic execution timed out'))
        paths = []
        try:
            if os.path.exists(out):
                parse(out, self.enc, paths)
        except (ValueError, KeyError, IndexError, TypeError, OverflowError):     # terms overwritten or read out of bounds
            paths.append(Path('UNREADABLE'))
        if not paths:
            if not res['inconclusive']:
                paths.append(Path('DIED'))
            else:
                res['inconclusive'].append((self.case, 'no path completed'))
        fns = set()
        done = {}       # (l, r) -> proven without path constraints
        reported, tries = set(), {}
        res['paths'] = len(paths)
        tlimit = t0 + self.t_case
        paths.reverse()          # the generic path ends last
        nfeas = 0
        for pi, p in enumerate(paths):
            res['ops'] += p.ops
            res['branches'] += p.branches
            res['truncated'] += p.trunc
            fns.update(p.fns)
            self.ats = set()
            cons, skipped = None, 0
            feas = None

            def prepare():
                nonlocal cons, skipped, feas
                if cons is None:
                    self.ats = set()
                    cons, skipped = self.pathcons(p)
                    self.ats0 = set(self.ats)
                    cons = cons + self.closure(self.ats0)
            # reachability of the path (and vacuity witness)
            prepare()
            self.ats = set(self.ats0)
            r, m = self.solve(cons, self.t_path) if cons else ('sat', None)
            if r == 'unsat':
                res['infeasible'] += 1
                continue
            if r == 'sat':
                feas = m
                nfeas += 1
            # must-fail twin: the first equality shifted by one has to come back violated
            if p.eqs and r == 'sat' and nfeas <= 2:
                for l, rr, lab in p.eqs[:1]:
                    try:
                        self.ats = set(self.ats0)
                        f, nz = self.diff(l, rr)
                        g = self.enc.fadd(f, (terms.pconst(1), {}), -1)
                        r2, _ = self.solve([self.enc.pz3(g[0]) != 0] + nz + cons + self.closure(self.ats), self.t_path)
                        if r2 == 'sat':
                            res['witness'] += 1
                        elif r2 == 'unsat':
                            res['vacuous'] += 1
                    except terms.TooBig:
                        pass
            elif p.truths and r == 'sat' and nfeas <= 2:
                res['witness'] += 1
            if p.status != 'OK':
                res['obligations'] += 1
                key = ('crash', p.status)
                if key in reported:
                    continue
                rec = self.confirm('crash', 'abnormal end', p, feas, cons)
                if rec:
                    reported.add(key)
                    res['violations'].append(rec)
                else:
                    res['inconclusive'].append((self.case, 'path ended with %s, not reproduced' % p.status))
            for ok, lab, det in p.truths:
                res['obligations'] += 1
                if ok:
                    res['discharged'] += 1
                    continue
                if ('truth', lab) in reported:
                    continue
                rec = self.confirm('truth', lab, p, feas, cons)
                if rec:
                    reported.add(('truth', lab))
                    res['violations'].append(rec)
                else:
                    res['inconclusive'].append((lab, 'false on a path, not reproduced: ' + det))
            for l, rr, lab in p.eqs:
                res['obligations'] += 1
                if done.get((l, rr)):
                    res['discharged'] += 1
                    continue
                if ('eq', lab) in reported:
                    continue
                if tries.get(lab, 0) >= 2:
                    res['inconclusive'].append((lab, 'as before'))
                    continue
                if time.time() > tlimit:
                    res['inconclusive'].append((lab, 'case time budget'))
                    continue
                try:
                    st, m = self.equal(l, rr, [], self.t_query) if (l, rr) not in done else ('again', None)
                    if st == 'unsat':
                        done[(l, rr)] = True
                        res['discharged'] += 1
                        if len(res['samples']) < 2:
                            res['samples'].append('%s: unsat(path %d: impl != reference)' % (lab, pi))
                        continue
                    done[(l, rr)] = False
                    st, m = self.equal(l, rr, cons, self.t_query)
                    if st == 'unsat':
                        res['discharged'] += 1
                        continue
                    try:
                        self.ats = set(self.ats0)
                        f, nz = self.diff(l, rr)
                        cs = cons + nz + [self.enc.pz3(f[0]) != 0] + self.closure(self.ats)
                    except terms.TooBig:
                        cs = cons
                except terms.TooBig:
                    st, m, cs = 'unknown', None, cons
                rec = self.confirm('eq', lab, p, m, cs)
                if rec:
                    reported.add(('eq', lab))
                    res['violations'].append(rec)
                else:
                    tries[lab] = tries.get(lab, 0) + 1
                    res['inconclusive'].append((lab, st + ', not reproduced'))
            # definedness of what the implementation computes, inside the reference's domain
            for n, mask, why in p.idefs:
                if ('idef', n, mask) in done:
                    continue
                if time.time() > tlimit:
                    break
                if ('def', n) in reported:
                    continue
                res['obligations'] += 1
                try:
                    self.ats = set(self.ats0)
                    neg = [z3.Not(z3.And(*self.sign(n, mask)))]
                    st, m = self.solve(neg + cons + self.closure(self.ats), self.t_query)
                except terms.TooBig:
                    st, m = 'unknown', None
                if st == 'unsat':
                    res['discharged'] += 1
                    if len(p.conds) == 0:
                        done[('idef', n, mask)] = True
                    continue
                reported.add(('def', n))
                rec = self.confirm('def', 'definedness: ' + why, p, m, neg + cons if st != 'unknown' else cons) if st == 'sat' else None
                if rec and ('eq', rec['label']) not in reported:
                    res['violations'].append(rec)
                elif not rec:
                    # the operation can be undefined there without any effect on a result
                    res['notes'].append('%s: %s' % (st, why))
                    if st == 'unknown':
                        res['inconclusive'].append(('definedness: ' + why, 'unknown'))
                    else:
                        res['discharged'] += 1
        # validation of the encoding: the real code at one admissible point against the same reference
        env = None
        for p in paths[:3]:
            good = self.candidates(p, None, [])
            if good:
                env = good[0][0]
                break
        if env is not None or not paths:
            ef, (vs, ts, status) = self.replay(env or {})
            bad = []
            for lab, lst in vs.items():
                for a, b in lst:
                    if mismatch(a, b, 1e-4):
                        bad.append((lab, a, b))
            for lab, lst in ts.items():
                for ok, det in lst:
                    if not ok:
                        bad.append((lab, 'false ' + det, 'true'))
            if status != 'OK':
                bad.append(('abnormal end', status, 'a result'))
            if not bad:
                res['validated'] = 1
            for lab, a, b in bad:
                if not any(v['label'] == lab for v in res['violations']):
                    res['violations'].append(dict(label=lab, got=a, expected=b, env=env or {}, case=self.case, kind='validation'))
        else:
            res['notes'].append('no admissible point found for the validation run')
        res.update(queries=self.q, solver_s=round(self.qtime, 3), kinds=self.kinds, fns=sorted(fns),
                   inputs=len(self.inputs()), wall=round(time.time() - t0, 2))
        return res


def run_case(job):
    try:
        os.makedirs(job['tmp'], exist_ok=True)
        sys.setrecursionlimit(20000)

        def stop(*_):
            raise TimeoutError('time limit of one case')
        signal.signal(signal.SIGALRM, stop)
        signal.alarm(int(job['t_case'] * 2 + job['t_exec']))
        try:
            return Case(job).run()
        finally:
            signal.alarm(0)
    except Exception as e:  # an error of the machinery is never an alarm
        import traceback
        return dict(case=job['case'], tag=job['tag'], error=traceback.format_exc()[-1500:] + str(e))


def symbols(exe):
    p = subprocess.run(['nm', '-C', '--defined-only', exe], stdout=subprocess.PIPE, text=True, errors='replace')
    d = {}
    for line in p.stdout.splitlines():
        w = line.split(' ', 2)
        if len(w) == 3 and w[1] in 'tTwWuV':
            d.setdefault(int(w[0], 16), w[2])
    return d


def shortname(s):
    # drop template arguments
    out, depth = [], 0
    i = 0
    while i < len(s):
        ch = s[i]
        if s.startswith('operator<', i) or s.startswith('operator>', i) or s.startswith('operator-', i):
            j = i + 8
            while j < len(s) and s[j] in '<>=-':
                j += 1
            if depth == 0:
                out.append(s[i:j])
            i = j
            continue
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif depth == 0:
            out.append(ch)
        i += 1
    r = ''.join(out)
    r = r.split('(')[0] if not r.startswith('(') else r
    return r.split(' ')[-1]


def known_findings(pid):
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return []
    with open(f) as fh:
        return [k for k in json.load(fh)['findings'] if k['property'] == pid and k.get('status', 'open') == 'open']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default='')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pid = a.prop
    spec = PROPS[pid]
    t0 = time.time()
    variants = []
    for h in spec['harness'] + (spec.get('thorough', []) if tier == 'thorough' else []):
        src = os.path.join(VERIF, 'harness', h['file'])
        for cx in h.get('modes', (0,)):
            nm = os.path.splitext(h['file'])[0] + h.get('suffix', '') + ('_c' if cx else '')
            defs = list(h.get('defs', []))
            variants.append((nm + '_s', src, True, bool(cx), defs))
            variants.append((nm + '_r', src, False, bool(cx), defs))
    built = build.build_many(variants)
    tmp = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    inconclusive, jobs, replays = [], [], {}
    for v in variants[::2]:
        nm = v[0][:-2]
        s, r = built[nm + '_s'], built[nm + '_r']
        if not isinstance(r, str):
            inconclusive.append((nm, 'replay build failed: ' + str(r)[-1500:]))
            continue
        if not isinstance(s, str):
            inconclusive.append((nm, 'symbolic build failed: ' + str(s)[-1500:]))
            continue
        cases = subprocess.run([s, 'list'], stdout=subprocess.PIPE, text=True).stdout.split('\n')
        for c in cases:
            if not c or (c.startswith('T:') and tier == 'quick') or a.only not in c:
                continue
            if any(fnmatch.fnmatchcase(c, g) for g in spec.get('skip', ())):
                continue
            if 'cases' in spec and not any(fnmatch.fnmatchcase(c[2:] if c.startswith('T:') else c, g) for g in spec['cases']):
                continue
            jobs.append(dict(case=c, tag=nm, exe_s=s, exe_r=r, seed=seed, tmp=os.path.join(tmp, 'c%d' % len(jobs)),
                             maxpaths=spec.get('maxpaths', 200) * (4 if tier == 'thorough' else 1),
                             maxspecial=spec.get('maxspecial', 2) + (tier == 'thorough'),
                             t_exec=60 if tier == 'quick' else 300, t_case=60 if tier == 'quick' else 400,
                             t_query=5 if tier == 'quick' else 30, t_raw=0.7 if tier == 'quick' else 10,
                             t_path=2 if tier == 'quick' else 10))
    t_build = time.time() - t0
    results = []
    budget = t0 + (600 if tier == 'quick' else 3600)
    with mp.Pool(a.j, maxtasksperchild=4) as pool:
        pend = [(j, pool.apply_async(run_case, (j,))) for j in jobs]
        found, enough = 0, None
        while pend:
            rest = []
            for j, h in pend:
                if h.ready():
                    results.append(h.get())
                    found += len(results[-1].get('violations', ()))
                else:
                    rest.append((j, h))
            pend = rest
            if found and enough is None:     # violated: look a while longer for more instances, not at everything
                enough = time.time() + (45 if tier == 'quick' else 300)
            if pend and (time.time() > budget or enough and time.time() > enough):
                why = 'time budget of the check' if time.time() > budget else 'not decided: stopped after violations'
                inconclusive += [(j['tag'] + ':' + j['case'], why) for j, h in pend]
                break
            time.sleep(0.1)
        pool.terminate()
    results.sort(key=lambda r: (r['tag'], r['case']))
    tot = dict(obligations=0, discharged=0, paths=0, infeasible=0, ops=0, branches=0, truncated=0, witness=0, vacuous=0,
               validated=0, queries=0, solver_s=0.0)
    fnaddrs, kinds, viol, samples, notes = {}, {'raw': 0, 'normal form': 0}, [], [], set()
    for r in results:
        if 'error' in r:
            inconclusive.append((r['case'], 'machinery error: ' + r['error']))
            continue
        for k in tot:
            tot[k] += r[k]
        for k in kinds:
            kinds[k] += r['kinds'][k]
        fnaddrs.setdefault(r['tag'], set()).update(r['fns'])
        for v in r['violations']:
            v['tag'] = r['tag']
            viol.append(v)
        inconclusive += [(r['tag'] + ':' + r['case'] + ':' + x, y) for x, y in r['inconclusive']]
        notes.update(r['notes'])
        if len(samples) < 12:
            samples.append(dict(case=r['case'], build=r['tag'], paths=r['paths'], inputs=r['inputs'], obligations=r['obligations'],
                                queries=r['queries'], verdicts=r['samples']))
        if a.v:
            print('%-60s paths %4d ob %5d ok %5d q %5d solver %6.1fs wall %6.1fs viol %d inc %d trunc %d' % (
                r['tag'] + ':' + r['case'], r['paths'], r['obligations'], r['discharged'], r['queries'], r['solver_s'], r['wall'],
                len(r['violations']), len(r['inconclusive']), r['truncated']))
    fnames = set()
    for tag, addrs in fnaddrs.items():
        sy = symbols(built[tag + '_s'])
        for ad in addrs:
            if ad in sy:
                fnames.add(shortname(sy[ad]))
    fnames = sorted(f for f in fnames if f and not f.startswith(('symx', 'vh', 'std::', 'Eigen::', '__')))
    # ---- report
    kf = known_findings(pid)
    hit, bad = {}, []
    for v in viol:
        full = v['tag'] + ':' + v['case'] + ':' + v['label']
        for k in kf:
            if any(fnmatch.fnmatchcase(full, g) for g in k['match']):
                hit.setdefault(k['what'], []).append(full)
                break
        else:
            bad.append(v)
    rdir = os.path.join(VERIF, 'build', 'replay', pid)
    os.makedirs(rdir, exist_ok=True)
    for w, ex in sorted(hit.items()):
        print('KNOWN-FINDING: property=%s %s (%d obligations, e.g. %s)' % (pid, w, len(ex), ex[0]))
    for i, v in enumerate(bad[:20]):
        f = os.path.join(rdir, 'v%d.json' % i)
        envf = os.path.join(rdir, 'v%d.env' % i)
        with open(envf, 'w') as fh:
            for k, x in v['env'].items():
                fh.write('%s %.17g\n' % (k, x))
        with open(f, 'w') as fh:
            json.dump(dict(property=pid, harness=v['tag'], case=v['case'], label=v['label'], kind=v['kind'], got=str(v['got']),
                           expected=str(v['expected']), inputs=v['env'],
                           how='python3-vt engine/replay.py %s %s %s' % (pid, v['tag'], json.dumps(v['case'])) + ' ' + envf), fh, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, f))
        print('  %s / %s / %s: got %s, expected %s at %s' % (v['tag'], v['case'], v['label'], v['got'], v['expected'],
              {k: x for k, x in list(v['env'].items())[:8]} if v['env'] else 'default inputs'))
    if len(bad) > 20:
        print('  ... and %d more' % (len(bad) - 20))
    for x, y in inconclusive[:40]:
        print('INCONCLUSIVE %s: %s' % (x, y if a.v else y[:300]))
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 1), violations=len(bad),
              coverage=dict(
                  states=tot['paths'], transitions=tot['ops'], traces_validated_against_impl=tot['validated'],
                  samples=samples, cases=len(results), obligations=tot['obligations'], discharged=tot['discharged'],
                  inconclusive=len(inconclusive), inconclusive_list=['%s: %s' % (x, y[:200]) for x, y in inconclusive[:40]],
                  infeasible_paths=tot['infeasible'], truncated_paths=tot['truncated'], symbolic_branches=tot['branches'],
                  solver_queries=tot['queries'], solver_seconds=round(tot['solver_s'], 2), query_forms=kinds,
                  reachability_witnesses=tot['witness'], vacuous=tot['vacuous'], build_seconds=round(t_build, 1),
                  functions_encoded=len(fnames), functions=fnames[:400], known_finding_obligations=sum(len(x) for x in hit.values()),
                  unobservable_undefined_operations=sorted(notes)[:20], bounds=spec['bounds'],
                  meaning='states = explored symbolic paths; transitions = arithmetic operations executed on symbolic terms'),
              assumptions=spec.get('assumptions', []) + COMMON)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not a.only:
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    build.prune()
    print('%s: %d cases, %d paths, %d/%d obligations discharged, %d queries (%.1fs solver), %d inconclusive, %d known, %d violations, %.1fs (build %.1fs)' % (
        pid, len(results), tot['paths'], tot['discharged'], tot['obligations'], tot['queries'], tot['solver_s'], len(inconclusive),
        sum(len(x) for x in hit.values()), len(bad), time.time() - t0, t_build))
    if not results:
        print('no case could be explored')
        return 1 if bad else 2
    return 1 if bad else 0


COMMON = [
    'arithmetic is exact real arithmetic: floating-point rounding, overflow and NaN propagation are outside the claim',
    'elementary functions are opaque except for the listed identities (sin^2+cos^2=1, exp/log/power laws, parity, sqrt, abs)',
    'the sources are compiled with the scalar type replaced (guard COOLDIFF_SYMBOLIC), sequential execution policy, without CUDA',
    'at most two zero-valued special outcomes of symbolic comparisons per path, and the path cap given in bounds',
    'reported violations were reproduced by the same harness built with the ordinary scalar type',
]

if __name__ == '__main__':
    sys.exit(main())
