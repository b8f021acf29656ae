import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import framework
pid = sys.argv[1]
import glob
for p in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props', '*.py'))):
    n = os.path.basename(p)[:-3]
    if n.split('_')[0].upper() == pid.upper():
        sys.path.insert(0, os.path.dirname(p))
        m = importlib.import_module(n)
        m.PROP().main()
sys.exit(f'no such property {pid}')
