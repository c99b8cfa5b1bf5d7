#!/opt/venv/bin/python
"""replay.py <file>: execute the plan of a replay file again; exit 1 if it still violates the property."""
import json
import os
import sys

if os.environ.get('SIM_CHILD') != '1':
    import check  # same directory
    env_file = os.path.abspath(__file__)
    env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME') or k.startswith('SIM_')}
    env.update(check.WANT)
    exe = check.PY if os.path.exists(check.PY) else sys.executable
    os.execve(exe, [exe, '-u', env_file] + sys.argv[1:], env)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import core, runner, scenario  # noqa: E402

core.boot()
with open(sys.argv[1]) as f:
    data = json.load(f)
sc = scenario.load()[data['property']]
sc.setup()
try:
    v, _ = sc.execute(json.loads(json.dumps(data['plan'])), runner.Ctx())
finally:
    sc.teardown()
if v is None:
    print('the plan does not violate the property')
    os._exit(0)
print(f'{v.cls}: {v.detail}')
print('identical to the recorded violation' if v.to_json() == data['violation'] else f'recorded: {data["violation"]}')
print(f'VIOLATION property={data["property"]} replay={sys.argv[1]}', flush=True)
os._exit(1)
