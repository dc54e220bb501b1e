"""Path exploration of a harness and solver verdicts on its obligations."""
import time, traceback, sys, os
from fractions import Fraction
from . import core
z3 = core.z3


class Finding:
    pass


def new_stats():
    return dict(paths=0, feasible=0, branches=0, queries=0, solver_s=0.0, unknown=0, discharged=0, by_rewriting=0,
                obligations=0, unsupported=0, timeouts=0, infeasible=0)


def frac(x):
    if z3.is_algebraic_value(x):
        x = x.approx(30)
    if z3.is_int_value(x):
        return Fraction(x.as_long())
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    return Fraction(0)


def model_inputs(c, m):
    """name -> value of every harness input under a model"""
    out = {}
    for name, v in c.inputs.items():
        if isinstance(v, core.SymB):
            out[name] = 1 if z3.is_true(m.eval(v.z, model_completion=True)) else 0
        else:
            n = v
            z = z3.simplify(m.eval(n.z(), model_completion=True))
            f = frac(z)
            out[name] = str(f) if f.denominator != 1 else int(f)
    return out


def integral(c, m):
    return all('/' not in str(v) for n, v in model_inputs(c, m).items() if n in c.relaxed)


def record(c, m):
    return dict(inputs=model_inputs(c, m), draws=[list(map(int, d)) for d in c.draws])


def nice(path, extra, c):
    """a model with small, coarse real values when one exists (readable, exact in floating point)"""
    reals = []
    for v in c.inputs.values():
        if isinstance(v, core.Num) and not v.is_const():
            a = next((core.ATOMS[i] for f in v.f for m in f[0].t for i in m), None)
            if a is not None and a.sort == 'real' and not a.isint:
                reals.append(v)
    s = path.solver
    if reals or c.relaxed:
        s.push()
        try:
            s.set('timeout', 3000)
            for e in extra:
                s.add(e)
            for i, v in enumerate(reals):
                k = z3.Int(f'nice!{i}')
                s.add(v.z() * 16 == z3.ToReal(k))
                s.add(k <= 256, k >= -256)
            for i, v in enumerate(c.relaxed.values()):
                k = z3.Int(f'niceint!{i}')
                s.add(v.z() == z3.ToReal(k), k <= 64, k >= -64)
            if s.check() == z3.sat:
                return s.model()
        except z3.Z3Exception:
            pass
        finally:
            s.pop()
            s.set('timeout', path.timeout_ms)
    return None


def solve(path, extra):
    r = path.check(*extra)
    if r == z3.sat:
        return r, path.fpmodel if core.FPMODE else path.solver.model()
    if core.FPMODE:
        return r, None
    if r == z3.unknown:
        # second opinion: non-linear arithmetic solver, then a fresh instance
        for tac in ('qfnra-nlsat', 'smt'):
            try:
                t = time.time()
                s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', tac).solver() if tac != 'smt' else z3.Solver()
                s.set('timeout', path.timeout_ms)
                for p in path.solver.assertions():
                    s.add(p)
                for e in extra:
                    s.add(e)
                path.stats['queries'] += 1
                r2 = s.check()
                path.stats['solver_s'] += time.time() - t
                if r2 != z3.unknown:
                    return r2, (s.model() if r2 == z3.sat else None)
            except z3.Z3Exception:
                pass
    return r, None


def run_path(fn, params, program_factory, prefix, stats, timeout_ms=8000, deadline=None, seed=1, mkctx=None):
    """execute one path; returns (alts, result dict)"""
    from . import ctx as ctxmod
    core.reset()
    p = core.Path(prefix, stats, timeout_ms, seed)
    p.timeout_ms = timeout_ms
    p.deadline = deadline
    core.set_cur(p)
    c = ctxmod.SymCtx(p, program_factory())
    res = dict(candidates=[], notes=[], sample=None, status='ok')
    exc = None
    try:
        try:
            fn(c, **params)
        except core.Infeasible:
            stats['infeasible'] += 1
            res['status'] = 'infeasible'
            return p.alts, res
        except core.PathTimeout:
            stats['timeouts'] += 1
            res['status'] = 'timeout'
            return p.alts, res
        except core.Unsupported as e:
            stats['unsupported'] += 1
            res['status'] = 'unsupported'
            res['notes'].append(f'unsupported: {e} [{where(e)}]')
            exc = e
        except RecursionError as e:
            res['status'] = 'unsupported'
            stats['unsupported'] += 1
            res['notes'].append('recursion limit')
            exc = e
        except z3.Z3Exception as e:
            res['status'] = 'unsupported'
            stats['unsupported'] += 1
            res['notes'].append(f'z3: {str(e)[:80]} [{where(e)}]')
            exc = e
        except Exception as e:
            res['status'] = 'exception'
            res['exception'] = f'{type(e).__name__}: {str(e)[:160]} [{where(e)}]'
            exc = e
        stats['paths'] += 1
        r, m = solve(p, [])
        if r == z3.unsat:
            stats['infeasible'] += 1
            res['status'] = 'infeasible'
            return p.alts, res
        if r == z3.unknown:
            stats['unknown'] += 1
        if m is not None:
            stats['feasible'] += 1
            m2 = nice(p, [], c) or m
            res['sample'] = record(c, m2)
        if exc is not None:
            lab = 'no error' if res['status'] == 'exception' else 'unsupported'
            if m is not None:
                res['candidates'].append(dict(label=lab, what=res.get('exception') or res['notes'][-1], **record(c, nice(p, [], c) or m)))
                if m2 is not m:
                    res['candidates'].append(dict(label=lab, what=res.get('exception') or res['notes'][-1], **record(c, m)))
            # obligations collected before the failure are still decided below
        stats['by_rewriting'] += c.discharged
        stats['discharged'] += c.discharged
        stats['obligations'] += c.discharged + len(c.obs)
        obs = c.obs
        res['nobs'] = c.discharged + len(obs)
        sym = []
        for lab, cond, strong in obs:
            if isinstance(cond, core.SymB):
                p._defs_for(cond.z)
                sym.append((lab, cond.z, strong))
            else:
                # definite violation on this (feasible) path
                if m is not None:
                    res['candidates'].append(dict(label=lab, what='false on the whole path', **record(c, m2)))
                    if m2 is not m:
                        res['candidates'].append(dict(label=lab, what='false on the whole path', **record(c, m)))
                else:
                    res['notes'].append(f'undecided path for {lab}')
        if core.FPMODE:
            pass
        elif sym and p.solver.dirty or any(core.nonlinear(z) for _, z, _ in sym):
            # quick pass
            left = []
            for lab, z, strong in sym:
                stats['queries'] += 1
                t = time.time()
                if p.solver.quick_unsat(z3.Not(z)):
                    stats['discharged'] += 1
                else:
                    left.append((lab, z, strong))
                stats['solver_s'] += time.time() - t
            sym = left
        if sym:
            allv = z3.Or([z3.Not(z) for _, z, _ in sym]) if len(sym) > 1 else z3.Not(sym[0][1])
            r, m = solve(p, [allv])
            if r == z3.unsat:
                stats['discharged'] += len(sym)
            else:
                left = sym
                found = {}
                for lab, z, strong in left:
                    if found.get(lab, 0) >= 2:
                        continue
                    r, m = solve(p, [z3.Not(z)])
                    if r == z3.unsat:
                        stats['discharged'] += 1
                    elif r == z3.unknown:
                        stats['unknown'] += 1
                        res['notes'].append(f'undecided: {lab}')
                        # a model of the path still exercises the obligation concretely
                        if res['sample']:
                            res['candidates'].append(dict(label=lab, what='undecided, path model', **res['sample']))
                    else:
                        found[lab] = found.get(lab, 0) + 1
                        ms = []
                        if strong is not None:
                            n = nice(p, [strong], c)
                            if n is not None:
                                ms.append(n)
                            else:
                                r2, m3 = solve(p, [strong])
                                if r2 == z3.sat:
                                    ms.append(m3)
                        n = nice(p, [z3.Not(z)], c)
                        if n is not None:
                            ms.append(n)
                        if m is not None:
                            ms.append(m)
                        for mm in ms:
                            res['candidates'].append(dict(label=lab, what='solver model', **record(c, mm)))
        return p.alts, res
    finally:
        core.set_cur(None)
        if c.relaxed:
            ok = [x for x in res['candidates'] if all('/' not in str(x['inputs'][n]) for n in c.relaxed)]
            if len(ok) < len(res['candidates']):
                for lab in {x['label'] for x in res['candidates']} - {x['label'] for x in ok}:
                    res['notes'].append(f'only non-integer counterexamples found: {lab}')
            res['candidates'] = ok
            if res['sample'] and any('/' in str(res['sample']['inputs'][n]) for n in c.relaxed):
                res['sample'] = None


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    out = []
    for f in tb:
        if '/giddy/' in f.filename:
            out.append(f'{os.path.basename(f.filename)}:{f.lineno}')
    last = tb[-1] if tb else None
    s = ' '.join(out[-2:])
    if last is not None:
        s += f' {os.path.basename(last.filename)}:{last.lineno}'
    return s
