#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough]: decide one property by simulation."""
import os
import sys

PY = '/opt/venv/bin/python'
WANT = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'TZ': 'UTC', 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'SIM_CHILD': '1'}


def reexec():
    env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'VERIF_SEED', 'VERIF_TIER') or k.startswith('SIM_')}
    env.update(WANT)
    if 'SIM_HASHSEED' in env:
        env['PYTHONHASHSEED'] = env['SIM_HASHSEED']
    exe = PY if os.path.exists(PY) else sys.executable
    os.execve(exe, [exe, '-u', os.path.abspath(__file__)] + sys.argv[1:], env)


if __name__ == '__main__':
    if os.environ.get('SIM_CHILD') != '1':
        reexec()
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from sim import runner
    args = sys.argv[1:]
    if '--self-test' in args:
        sys.exit(runner.self_test())
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        k = args.index('--tier')
        tier = args[k + 1]
        del args[k:k + 2]
    try:
        code = runner.main(args[0], tier, int(os.environ.get('VERIF_SEED', '1')))
    except BaseException as e:
        import traceback
        traceback.print_exc()
        print(f'harness error: {type(e).__name__}: {e}')
        code = 2
    sys.stdout.flush()
    os._exit(code)
