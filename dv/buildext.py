"""run in the copied tree by the project's interpreter: argv K TEMP -> builds only the K-th extension, in its own temporary directory"""
import sys, runpy
K, temp = int(sys.argv[1]), sys.argv[2]
try: from setuptools.command.build_ext import build_ext
except ImportError: from distutils.command.build_ext import build_ext
orig = build_ext.run
def run(self):
    exts = self.extensions
    self.extensions = exts[K:K + 1]
    print('NEXT', len(exts))
    if self.extensions: orig(self)
build_ext.run = run
sys.argv = ['setup.py', 'build_ext', '--inplace', '--force', '--build-temp', temp]
sys.path.insert(0, '.')
runpy.run_path('setup.py', run_name='__main__')
