import importlib, os, glob
def load(pid):
    d = os.path.dirname(__file__)
    for f in sorted(glob.glob(os.path.join(d, pid.lower() + '*.py'))):
        importlib.import_module('contracts.' + os.path.basename(f)[:-3])
