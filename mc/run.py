#!/opt/venv/bin/python
"""run.py <property id> [quick|thorough] [--space=name]: run the check of one property against /repo."""
import os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg', 'QT_QPA_PLATFORM': 'offscreen',
       'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'PYTHONWARNINGS': 'ignore'}
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable] + sys.argv)
REPO = os.environ.get('PATRO_REPO', '/repo')
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)
import importlib, logging
logging.disable(logging.CRITICAL)
def load(pid):
    d = os.path.join(HERE, 'mc', 'checks')
    names = [f[:-3] for f in sorted(os.listdir(d)) if f.startswith(pid + '_') and f.endswith('.py')]
    if len(names) != 1:
        sys.exit('no check for ' + pid)
    return importlib.import_module('mc.checks.' + names[0])
def main():
    pid = sys.argv[1]
    from mc import core
    try:
        module = load(pid)
    except Exception as e:
        import traceback, types
        tb = traceback.format_exc()
        exc = e
        def spaces(tier):
            raise exc
        module = types.SimpleNamespace(PROPERTY=pid, spaces=spaces)
    sys.exit(core.main(module, sys.argv[2:]))
if __name__ == '__main__':
    main()
