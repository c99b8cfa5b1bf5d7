"""C26: importing in any order, with missing packages, with imports that fail half-way."""
import copy
import functools
import importlib
import importlib.abc
import importlib.machinery
import io
import os
import pkgutil
import sys

from sim import core, gen, ops, sched, shrink
from sim.gen import maybe, pick
from sim.scenario import Scenario, Violation, register
from sim.scen_leave import Observe, changed
from sim.scen_mem import diff_outcome

MISSING = {'docutils': ['docutils'], 'pygments': ['pygments'], 'markdown': ['markdown'], 'readme_renderer': ['readme_renderer'], 'poetry_publish': ['poetry_publish']}
# which packages a module cannot do without (README.creole, pyproject.toml)
NEEDS = {'creole.rest_tools.clean_writer': ['docutils'], 'creole.rest_tools.pypi_rest2html': ['docutils'],
         'creole.setup_utils': ['markdown', 'readme_renderer', 'docutils', 'pygments'],
         'creole.publish': ['poetry_publish', 'markdown', 'readme_renderer', 'docutils', 'pygments']}
REST = {'rest2html': 'creole.rest_tools.clean_writer', 'pypi_rest2html': 'creole.rest_tools.pypi_rest2html'}
EXC = ['KeyboardInterrupt', 'KeyboardInterrupt', 'SystemExit', 'Cancelled', 'MemoryError', 'OSError', 'RuntimeError', 'RecursionError', 'ValueError']
INTERRUPT = ('KeyboardInterrupt', 'SystemExit', 'Cancelled')
CODE = {}


@functools.cache
def modules():
    import creole
    names = ['creole']
    for m in pkgutil.walk_packages(creole.__path__, 'creole.', onerror=lambda name: None):
        if not (m.name + '.').startswith('creole.tests.'):
            names.append(m.name)
    return sorted(names)


class Blocker(importlib.abc.MetaPathFinder):
    """Packages that are not installed, or cannot be loaded at the first attempts."""

    def __init__(self, missing, flaky):
        self.missing = set(missing)
        self.flaky = flaky          # package: [exception names]
        self.saved = {}
        self.fired = []
        for p in sorted(self.missing | set(flaky)):
            self.saved[p] = {k: sys.modules.pop(k) for k in list(sys.modules) if k == p or k.startswith(p + '.')}

    def find_spec(self, fullname, path=None, target=None):
        p = fullname.split('.')[0]
        if p in self.missing:
            raise ModuleNotFoundError(f'No module named {fullname!r}', name=fullname)
        if self.flaky.get(p):
            name = self.flaky[p].pop(0)
            if not self.flaky[p]:
                sys.modules.update(self.saved.pop(p))
            self.fired.append([p, name])
            raise ops.make_exc(name, f'injected while {p} was imported')
        return None

    def install(self, p):
        if p in self.missing:
            self.missing.discard(p)
            if p not in self.flaky:
                sys.modules.update(self.saved.pop(p, {}))


def purge():
    for k in list(sys.modules):
        if k == 'creole' or k.startswith('creole.'):
            del sys.modules[k]
    importlib.invalidate_caches()


def run_steps(steps, missing, flaky, fault, env_spec, observe):
    """[outcome of every step], events per step, what fired, settings changed, output."""
    core.ambient_reset()
    purge()
    if CODE:
        real = importlib.machinery.SourceFileLoader.get_code

        def get_code(self, fullname):
            c = CODE.get(self.path)
            return real(self, fullname) if c is None else c
        importlib.machinery.SourceFileLoader.get_code = get_code
    blocker = Blocker(missing, copy.deepcopy(flaky))
    sys.meta_path.insert(0, blocker)
    before = observe.process(False)
    count = [0]
    fired = []
    per_step, outs = [], []

    def local(frame, event, arg):
        if event == 'line':
            count[0] += 1
            for n, name in fault:
                if n == count[0]:
                    fired.append([name, frame.f_code.co_filename.replace(core.CREOLE, ''), frame.f_lineno])
                    raise ops.make_exc(name, 'injected while a module was imported')
        return local

    def glob(frame, event, arg):
        c = frame.f_code
        # module bodies, and the class bodies in them
        if c.co_filename.startswith(core.CREOLE) and (c.co_name == '<module>' or frame.f_back is not None and frame.f_back.f_code.co_name == '<module>'):
            return local(frame, 'line' if c.co_name == '<module>' else event, arg) and local
        return None
    streams = []
    for kind, what in steps:
        nf, nb = len(fired), len(blocker.fired)
        out = err = None
        # Python itself does not get along with a package of which only sub-packages are left: "import creole" is the way out
        clean = 'creole' in sys.modules or not any(k.startswith('creole.') for k in sys.modules) or what == 'creole' or kind in ('convert', 'from')
        sys.settrace(glob)
        try:
            try:
                if kind == 'import':
                    importlib.import_module(what)
                    out = ['ok', '']
                elif kind == 'from':
                    mod, name = what
                    m = __import__(mod, fromlist=[name])
                    out = ['ok', '' if hasattr(m, name) else f'no {name}']
                elif kind == 'install':
                    blocker.install(what)
                    out = ['ok', '']
                elif kind == 'convert':
                    out = ['ok', core.norm(ops.run_op(what, ops.Env(env_spec)))]
            finally:
                sys.settrace(None)
        except core.HarnessError:
            raise
        except BaseException as e:
            out = core.outcome_of_exception(e)
            err = [c.__name__ for c in type(e).__mro__]
            del e
        outs.append([out, err, [f[0] for f in fired[nf:]] + [f[1] for f in blocker.fired[nb:]], clean])
        per_step.append(count[0])
        if kind != 'convert':
            streams.append(sys.stdout.getvalue() + sys.stderr.getvalue())
        sys.stdout.seek(0), sys.stdout.truncate(), sys.stderr.seek(0), sys.stderr.truncate()
    after = observe.process(False)
    return {'outs': outs, 'events': per_step, 'fired': fired, 'blocked': blocker.fired, 'changed': changed(before, after), 'printed': [s for s in streams if s][:1]}


def without_pygments(op, env):
    """The same operation where highlighting is not available."""
    op, env = copy.deepcopy(op), copy.deepcopy(env)
    conts = list((env.get('macros') or {}).values())
    if isinstance((op.get('opts') or {}).get('macros'), dict):
        conts.append(op['opts']['macros'])
    for c in conts:
        for k, v in c['macros'].items():
            if v['b'] == 'code':
                c['macros'][k] = {'b': 'code_plain'}
    return op, env


@register
class C26(Scenario):
    pid = 'C26'
    runs = {'quick': 6000, 'thorough': 40000}
    rule = ('a process imports 1-8 modules of the package in drawn order, with packages that are missing (constantly, or until they get installed) or that fail to load at '
            'first, and with an exception or interrupt at a drawn line of the module bodies, then retries and converts documents; non-trivial: a package was missing or '
            'a fault was delivered; distinct by (steps, missing packages, faults)')
    real = ['creole.* (module bodies, all converters)', 'the import system']
    stub = ['availability of docutils, pygments, markdown, readme_renderer, poetry_publish (meta path finder)', 'failures at lines of module bodies']
    assumptions = ['availability of pygments does not change while the process runs', 'imports take place in one thread',
                   'after an import of the package that failed half-way "import creole" comes before that of single modules (sub-packages that are left over '
                   'make Python skip their parent)']

    def setup(self):
        self.observe = Observe()
        for m in modules():
            f = sys.modules[m].__file__
            with open(f, 'rb') as s:
                CODE[f] = compile(s.read(), f, 'exec', dont_inherit=True)

    def names(self):
        """What users import from the package itself."""
        import creole
        return [n for n in ('creole2html', 'html2creole', 'html2rest', 'html2textile', 'html2markdown', 'parse_html', 'HtmlEmitter', 'CreoleParser', 'HtmlParser', 'VERSION_STRING') if hasattr(creole, n)]

    def generate(self, r, tier):
        env = gen.gen_env(r.group)
        missing = []
        x = r.random()
        if x < .55:
            missing = [pick(r, sorted(MISSING) + ['pygments', 'docutils'])]
            if maybe(r, .3):
                missing.append(pick(r, sorted(MISSING)))
            missing = sorted(set(missing))
        flaky = {}
        if maybe(r, .25):
            p = pick(r, ['pygments', 'pygments', 'docutils', 'docutils', 'markdown', 'readme_renderer'])
            if p not in missing:
                e = EXC + (['ImportError'] if p != 'pygments' else [])
                flaky[p] = [pick(r, e) for _ in range(pick(r, [1, 1, 2]))]
        fault = []
        if maybe(r, .6):
            for _ in range(pick(r, [1, 1, 2, 3])):
                fault.append([r.randrange(1000000), pick(r, EXC)])
        steps = []
        mods = modules()
        fams = [gen.gen_op(r.group, env, f'tk{k}', size=pick(r.group, [1, 2, 3])) for k in range(4)]
        fams.append(gen.gen_op(r.group, env, 'rk', fn='rest2html', size=2))
        fams.append({'fn': 'pypi_rest2html', 'src': gen.doc(r.group, 'rest', 'pk', 2), 'opts': {}})
        code = gen.behaviours(r.group)
        code['macros']['code'] = {'b': 'code'}
        fams.append({'fn': 'creole2html', 'src': 'a <<code ext=".py">>x = 1<</code>>\n\n<<code ext=py>>\n' + pick(r.group, ['y = "a<b"', 'import os\nos.x()']) + '\n<</code>>', 'opts': {'macros': code}})
        fams += [fams[-1]]
        for o in fams:
            o['opts'].pop('debug', None)
        for _ in range(pick(r, [1, 1, 2, 3, 5])):
            x = r.random()
            if x < .6:
                m = pick(r, mods + ['creole.setup_utils', 'creole.rest_tools.clean_writer', 'creole.rest_tools.pypi_rest2html', 'creole.shared.example_macros', 'creole.shared.utils'])
                steps.append(['import', m])
                if maybe(r, .5):
                    steps.append(['import', m])
            elif x < .7:
                steps.append(['from', ['creole', pick(r, self.names())]])
            elif x < .8 and set(missing) - {'pygments'}:
                steps.append(['install', pick(r, sorted(set(missing) - {'pygments'}))])
            else:
                steps.append(['convert', copy.deepcopy(pick(r, fams))])
        for _ in range(pick(r, [1, 2, 3])):
            steps.append(['convert', copy.deepcopy(pick(r, fams))])
        if maybe(r, .4):
            steps.append(['import', pick(r, ['creole', 'creole.cmdline', 'creole.setup_utils', 'creole.publish', 'creole.rest_tools.clean_writer', 'creole.rest_tools.pypi_rest2html'])])
        return {'env': env, 'steps': steps, 'missing': missing, 'flaky': flaky, 'fault': fault}

    def execute(self, plan, ctx):
        st = self.new_stats()
        env, steps = plan['env'], plan['steps']
        fault = []
        if plan['fault']:
            probe = self.run(steps, plan['missing'], plan['flaky'], [], env)
            if isinstance(probe, Violation):
                return probe, st
            n = probe['events'][-1] if probe['events'] else 0
            if n:
                fault = sorted([1 + p * n // 1000000, name] for p, name in plan['fault'])
        res = self.run(steps, plan['missing'], plan['flaky'], fault, env)
        if isinstance(res, Violation):
            return res, st
        for f in res['fired'] + res['blocked']:
            st['faults'][f[-1] if f in res['blocked'] else f[0]] = st['faults'].get(f[-1] if f in res['blocked'] else f[0], 0) + 1
        for p in plan['missing']:
            st['faults'][f'{p} missing'] = 1
        st['distinct']['fault_sites'] = {f'{f[1]}:{f[2]}' for f in res['fired']}
        st['ops'] = len(steps)
        st['sim_steps'] = res['events'][-1] if res['events'] else 0
        st['nontrivial'] = core.jhash([steps, plan['missing'], res['fired'], res['blocked']]) if plan['missing'] or res['fired'] or res['blocked'] else None
        missing = set(plan['missing'])
        why = f'missing: {plan["missing"]}, faults: {res["fired"] + res["blocked"]}'
        for k, ((kind, what), (out, mro, fired, clean)) in enumerate(zip(steps, res['outs'])):
            if kind == 'install':
                missing.discard(what)
                continue
            if fired:
                # this step was hit: an interrupt has to come through, anything else may be handled
                if len(fired) == 1 and fired[0] in INTERRUPT and not (out[0] == 'exc' and fired[0] in mro):
                    return Violation('swallowed', f'{fired[0]} in the middle of step {k} ({kind} {self.show(what)}) was swallowed: {core.short(out)}; {why}'), st
                continue
            if kind in ('import', 'from'):
                mod = what if kind == 'import' else what[0]
                lost = [p for p in NEEDS.get(mod, ()) if p in missing]
                if not clean and out[0] == 'exc' and 'ImportError' in mro:
                    continue
                if not lost:
                    if out != ['ok', '']:
                        return Violation('import', f'step {k}: {kind} {self.show(what)} fails: {core.short(out)}; {why}'), st
                elif out[0] == 'exc' and ('ImportError' not in mro or mod in REST.values() and 'DocutilsImportError' not in mro):
                    return Violation('wrong error', f'step {k}: import of {mod} without {lost}: {core.short(out)}; {why}'), st
                continue
            if what['fn'] in REST and 'docutils' in missing:
                if out[0] == 'ok' or 'DocutilsImportError' not in mro:
                    return Violation('wrong error', f'step {k}: {what["fn"]} without docutils: {core.short(out)}; {why}'), st
                continue
            op, spec = without_pygments(what, env) if 'pygments' in missing else (what, env)
            if what['fn'] in REST and 'pygments' in missing:
                continue  # docutils highlights code by itself
            want = ctx.refs.get(op, spec, trace=False)[0]
            if out != want:
                return Violation('result', f'step {k}: {what["fn"]}: {diff_outcome(out, want)}; {why}'), st
        if res['printed']:
            return Violation('printed', f'importing writes {core.short(res["printed"][0])!r}; {why}'), st
        if res['changed']:
            return Violation('setting', f'importing has changed {res["changed"]}; {why}'), st
        return None, st

    def run(self, steps, missing, flaky, fault, env):
        try:
            return core.in_fork(run_steps, steps, missing, flaky, fault, env, self.observe, timeout=60)
        except core.Hang as e:
            return Violation('hang', str(e))

    def show(self, what):
        return core.short(what['src'], 100) if isinstance(what, dict) else what

    def shrink(self, plan):
        for c in shrink.chunks(plan['steps']):
            if c:
                yield shrink.replaced(plan, steps=c)
        for c in shrink.chunks(plan['fault']):
            yield shrink.replaced(plan, fault=c)
        for c in shrink.chunks(plan['missing']):
            yield shrink.replaced(plan, missing=c)
        if plan['flaky']:
            yield shrink.replaced(plan, flaky={})
        for k, (kind, what) in enumerate(plan['steps']):
            if kind == 'convert':
                for v in shrink.op_variants(what):
                    yield shrink.replaced(plan, steps=plan['steps'][:k] + [['convert', v]] + plan['steps'][k + 1:])

    def describe(self, plan):
        return {'missing': plan['missing'], 'flaky': plan['flaky'], 'fault': plan['fault'],
                'steps': [[k, f"{w['fn']}({core.short(w['src'], 80)!r}, {w['opts']})" if isinstance(w, dict) else w] for k, w in plan['steps']]}
