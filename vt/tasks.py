"""Exploration tasks with work splitting over processes."""
import sys, os, time, collections, resource, inspect, traceback, multiprocessing as mp, queue
import sympy as sp


def cover_start(files):
    """line coverage of the code under verification (sys.monitoring, each line reported once)"""
    mon = sys.monitoring
    tool = 3
    lines = set()
    try:
        mon.use_tool_id(tool, 'vt')
    except ValueError:
        return lines

    def on_line(code, ln):
        fn = code.co_filename
        if fn.startswith(files):
            lines.add((fn, ln))
        return mon.DISABLE
    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)
    return lines


class SosTask:
    """verify one solver function against its contract"""
    def __init__(self, key, spec, inline=(), keys=None, degree=None, support=None, nvars=None, group=None, upto=False):
        self.key, self.inline = key, frozenset(inline)
        self.spec = dict(spec, degree=degree) if degree is not None else spec
        if nvars is not None:
            self.spec = dict(self.spec, nvars=nvars, group=group)
        self.upto = upto          # not homogeneous: every monomial up to the degree
        self.support = support    # orbits whose coefficients are present (the others are absent from the dictionary)
        self.keys = keys          # the coefficient dictionary lists only these monomials (others by symmetry)
        self.name = key[1] + (f'[degree {degree}]' if degree is not None else '') + (f'[{nvars} variables{", inhomogeneous" if upto else ""}]' if nvars else '') + ('[representatives]' if keys else '') + (
            '[' + ' '.join(''.join(map(str, m)) for m in sorted(support, reverse=True)) + ']' if support else '')

    def setup(self):
        from . import sos
        sp_ = self.spec
        self.fn = sos.ORIGFN[self.key]
        self.co = {}
        for d in range(0 if self.upto else sp_['degree'], sp_['degree'] + 1):
            self.co.update(sos.generic_coeff(sp_['nvars'], d, sp_['group'], zero=sp_['zeros']))
        if self.support is not None:
            self.co = {m: v for m, v in self.co.items() if sos.orbit_rep(m, sp_['group']) in self.support}
        if self.keys:
            reps = {sos.orbit_rep(m, sp_['group']) for m in self.keys}
            self.co = {m: v for m, v in self.co.items() if sos.orbit_rep(m, sp_['group']) in reps}
        self.gens = sos.GENS[sp_['nvars']]
        self.target_expr = sos.poly_expr(self.co, self.gens)
        try:
            self.par = inspect.signature(self.fn).parameters
        except (TypeError, ValueError):
            self.par = {}

    def run(self, run):
        from . import sos
        run.input_syms = set(self.co.values())
        run.inline = self.inline
        for form in self.spec.get('pre') or ():
            run.add_equality(run.ring.conv(sp.Add(*[k * self.co.get(m, 0) for m, k in form.items()]))[0])
        c = sos.coeff_obj({m: v for m, v in self.co.items() if m in self.keys} if self.keys else self.co)
        run.input_obj = c
        kw = {}
        if 'real' in self.par:
            kw['real'] = bool(run.decide(2, 'real'))
        if self.spec['sig'] == 'poly,coeff':
            return self.fn(c.as_poly(self.gens), c, **kw)
        if self.spec['sig'] == 'poly':
            return self.fn(c.as_poly(self.gens), **kw)
        if self.spec['sig'] == 'coeff,F':
            return self.fn(c, sos.acute)
        return self.fn(c, **kw)

    def check(self, res, out):
        from . import sos, engine
        run = res.run
        out['partial'].update(run.partial)
        if res.kind == 'toohard':
            out['count']['undecided:' + type(res.error).__name__ + ':' + str(res.error)[:40]] += 1
            return
        if res.kind != 'return':
            k = 'raise:' + type(res.error).__name__ if res.kind == 'raise' else res.kind
            out['count'][k] += 1
            if res.kind == 'raise' and k not in out['ex']:
                out['ex'][k] = (res.trace or '')[-1200:]
            return
        if res.value is None:
            out['count']['none'] += 1
            return
        try:
            ok, det = sos.check_identity(run, res.value, self.target_expr, self.gens)
        except ZeroDivisionError:
            out['count']['ill'] += 1       # zoo/nan: rejected by SolutionStructural.is_ill (separate property)
            return
        except (engine.TooHard, RecursionError) as e:
            out['count']['undecided:id:' + str(e)[:40]] += 1
            return
        if ok and self.inexact(res.value):
            # exactness obligation: exact input, hence no floating-point number in the certificate
            r, m = sos.path_feasible(run)[:2]
            if r == 'unsat':
                out['count']['infeasible'] += 1
            elif r == 'sat':
                self.fail(res, out, 'FAIL:exactness', 'the certificate holds a floating-point number', m)
            else:
                out['count']['undecided:exactness'] += 1
            return
        if ok:
            out['count']['ok:' + det] += 1
            return
        if det == 'denominator vanishes identically on the path':
            out['count']['ill'] += 1
            return
        if det[0] == 'sat':
            self.fail(res, out, 'FAIL:identity', str(det[2])[:600], det[1])
        else:
            out['count']['undecided:smt'] += 1
            if 'undecided:smt' not in out['ex']:
                out['ex']['undecided:smt'] = self.describe(res, str(det[2])[:600], None)

    @staticmethod
    def inexact(v):
        import sympy as sp
        return isinstance(v, sp.Basic) and bool(v.atoms(sp.Float))

    def describe(self, res, text, model):
        run = res.run
        inputs = {}
        if model:
            for m, p in self.co.items():
                i = run.ring.index.get(p)
                inputs[str(m)] = model.get(i, '0') if i is not None else '0'
        names = {f'g{i}': str(a) for i, a in enumerate(run.ring.atoms)}
        return {'function': self.name, 'nondet': run.nondet, 'notes': sorted(run.notes), 'trail': [c for c, _, _ in run.trail], 'labels': [l for _, _, l in run.trail], 'text': text, 'inputs': inputs, 'names': {k: v[:80] for k, v in names.items()},
                'model': {f'g{k}': v for k, v in (model or {}).items()},
                'path': [(str(x)[:200]) for x in run.log][:60], 'value': str(res.value)[:800] if res.value is not None else None}

    def fail(self, res, out, k, text, model):
        out['count'][k] += 1
        if len(out['fails']) < 6:
            d = self.describe(res, text, model)
            d['kind'] = k
            out['fails'].append(d)


_TASKS = None
_SETUP = None


MEM_LIMIT = 5 << 30     # per worker: a path that needs more is abandoned with its worker, its task stays incomplete


def _worker(qin, qout, wid, began, holds):
    sys.setrecursionlimit(6000)
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)       # the native code's own message when it runs out
    from . import engine, smt
    _SETUP()
    lines = cover_start(('/repo', os.environ.get('VT_REPO', '/repo')))
    ready = set()
    while True:
        item = qin.get()
        if item is None:
            break
        ti, prefix, slice_s, path_limit = item
        holds[wid], began[wid] = ti, time.time()
        t = _TASKS[ti]
        out = {'count': collections.Counter(), 'ex': {}, 'fails': [], 'partial': set()}
        try:
            if ti not in ready:
                t.setup()
                ready.add(ti)
            smt0 = dict(smt.STATS)
            r = engine.explore(t.run, on_path=lambda res: t.check(res, out), time_limit=slice_s, path_limit=path_limit, root=prefix)
            out['smt'] = {k: smt.STATS[k] - smt0[k] for k in smt0}
        except BaseException as e:
            r = {'paths': 0, 'frontier': [], 'time': 0, 'error': traceback.format_exc()[-1500:]}
            out['smt'] = {}
        out['lines'] = set(lines)
        lines.clear()
        began[wid] = 0
        qout.put((ti, r, out))


def run_tasks(tasks, setup, budget=200, slice_s=4.0, path_limit=10, nproc=8, per_task=None, weights=None, stop=None):
    """returns {task index: result}"""
    global _TASKS, _SETUP
    _TASKS, _SETUP = tasks, setup
    ctx = mp.get_context('fork')
    qin, qout = ctx.Queue(), ctx.Queue()
    res = {}
    pend = collections.deque()
    for i, t in enumerate(tasks):
        res[i] = {'name': t.name, 'paths': 0, 'time': 0.0, 'count': collections.Counter(), 'ex': {}, 'fails': [], 'partial': set(),
                  'frontier': 0, 'lines': set(), 'smt': collections.Counter(), 'errors': [], 'lost': [], 'active': 0}
        pend.append((i, ()))
    began, holds = ctx.RawArray('d', nproc), ctx.RawArray('i', nproc)

    def start(k):
        began[k] = 0
        w = ctx.Process(target=_worker, args=(qin, qout, k, began, holds), daemon=True)
        w.start()
        return w
    ws = [start(k) for k in range(nproc)]
    t0 = time.time()
    active = 0
    per_task = per_task or 1e9
    queues = collections.OrderedDict((i, collections.deque([()])) for i in range(len(tasks)))
    order = collections.deque(range(len(tasks)))

    def next_item():
        # the task with the least time spent so far that has work
        best = None
        for i, q in queues.items():
            if q and res[i]['time'] < per_task:
                k = ((res[i]['time'] + res[i]['active'] * slice_s) / (weights[i] if weights else 1), i)
                if best is None or k < best:
                    best = k
        return None if best is None else best[1]
    while True:
        while active < nproc + 2 and time.time() - t0 < budget:
            i = next_item()
            if i is None:
                break
            q = queues[i]
            # alternate ends: shallow prefixes give breadth, deep ones finish subtrees
            pre = q.popleft()
            qin.put((i, pre, slice_s, path_limit))
            res[i]['active'] += 1
            active += 1
        if active == 0:
            break
        try:
            ti, r, out = qout.get(timeout=1)
        except queue.Empty:
            # a worker that is stuck in native code or ended (out of memory) is replaced; what it was
            # doing is lost, so its task stays incomplete
            now = time.time()
            if now > t0 + budget + path_limit * 3 + slice_s + 30:
                break
            for k, w in enumerate(ws):
                stuck = began[k] and now - began[k] > slice_s + 3 * path_limit + 20
                if stuck or not w.is_alive():
                    if w.is_alive():
                        w.kill()
                    w.join(5)
                    if began[k]:
                        active -= 1
                        res[holds[k]]['active'] -= 1
                        res[holds[k]]['time'] += now - began[k]
                        res[holds[k]]['lost'].append('worker ended: %s' % ('no answer in time' if stuck else 'exit code %s (out of memory?)' % w.exitcode))
                    ws[k] = start(k)
            continue
        active -= 1
        R = res[ti]
        R['active'] -= 1
        R['paths'] += r['paths']
        R['time'] += r['time']
        R['count'].update(out['count'])
        for k, v in out['ex'].items():
            R['ex'].setdefault(k, v)
        R['fails'] = (R['fails'] + out['fails'])[:8]
        R['partial'] |= out['partial']
        R['lines'] |= out['lines']
        R['smt'].update(out.get('smt') or {})
        if r.get('error'):
            R['errors'].append(r['error'])
        fr = sorted(r['frontier'], key=len)
        queues[ti].extend(fr)
    for w in ws:
        qin.put(None)
    time.sleep(0.05)
    for w in ws:
        w.join(timeout=0.5)
        if w.is_alive():
            w.terminate()
    for i in res:
        res[i]['frontier'] = len(queues[i])
        res[i]['complete'] = not queues[i] and not res[i]['errors'] and not res[i]['lost'] and res[i]['active'] == 0
    return res, time.time() - t0
