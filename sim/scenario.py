"""Scenario base class and registry."""
SCENARIOS = {}


class Violation:
    def __init__(self, cls, detail, **extra):
        self.cls = cls
        self.detail = detail
        self.extra = extra

    def to_json(self):
        return dict(cls=self.cls, detail=self.detail, **self.extra)

    def __repr__(self):
        return f'{self.cls}: {self.detail}'


class Scenario:
    pid = None
    level = 'exploration'
    runs = {'quick': 1000, 'thorough': 10000}
    rule = ''
    real = []
    stub = []
    assumptions = []

    def generate(self, rng, tier):
        raise NotImplementedError

    def execute(self, plan, ctx):
        raise NotImplementedError

    def shrink(self, plan):
        return []

    def describe(self, plan):
        return plan

    def setup(self):
        pass

    def teardown(self):
        pass

    def known(self):
        """Pinned plans of recorded findings: [(finding id, plan)]."""
        return []

    def new_stats(self):
        return {'faults': {}, 'distinct': {}, 'nontrivial': None}


def register(cls):
    SCENARIOS[cls.pid] = cls()
    return cls


def load():
    from sim import scen_mem  # noqa
    import importlib
    for name in ('scen_macro', 'scen_env', 'scen_cli', 'scen_readme', 'scen_rest', 'scen_more', 'scen_calls', 'scen_leave', 'scen_import'):
        try:
            importlib.import_module(f'sim.{name}')
        except ModuleNotFoundError as e:
            if e.name != f'sim.{name}':
                raise
    return SCENARIOS
