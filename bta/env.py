"""Environment of a check: rebuilds the native extension from /repo's working tree (out of tree) and makes the
package import from /repo use it."""
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get('REPO_ROOT', '/repo')
PKG = 'beam_telescope_analysis'
EXT = PKG + '.analysis_functions'


class BuildError(Exception):
    pass


def build_extension(scratch, sanitize=False):
    """Cythonise and compile the extension from /repo's sources into `scratch`; returns the path of the library."""
    import numpy
    work = os.path.join(scratch, 'ext_asan' if sanitize else 'ext')
    src = os.path.join(work, 'src', PKG)
    os.makedirs(src)
    shutil.copytree(os.path.join(REPO, PKG, 'cpp'), os.path.join(src, 'cpp'),
                    ignore=shutil.ignore_patterns('*.cpp', '*.c', '__pycache__'))
    open(os.path.join(src, '__init__.py'), 'w').close()
    # hand-written C++ files, if there ever are any, stay; only the generated one is left out
    pyx = os.path.join(PKG, 'cpp', 'analysis_functions.pyx')
    out = os.path.join(work, 'src', PKG, 'cpp', 'analysis_functions.cpp')
    lib = os.path.join(work, 'analysis_functions' + sysconfig.get_config_var('EXT_SUFFIX'))
    cmd = [sys.executable, '-m', 'cython', '-2', '--cplus', pyx, '-o', out]
    r = subprocess.run(cmd, cwd=os.path.join(work, 'src'), capture_output=True, text=True)
    if r.returncode:
        raise BuildError('cython failed:\n' + r.stdout + r.stderr)
    flags = ['-fPIC', '-shared', '-w', '-DNDEBUG', '-fno-strict-overflow', '-g']
    flags += ['-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
              '-fno-sanitize=vptr'] if sanitize else ['-O2']
    inc = ['-I' + sysconfig.get_paths()['include'], '-I' + numpy.get_include(),
           '-I' + os.path.join(src, 'cpp')]
    r = subprocess.run(['g++'] + flags + inc + [out, '-o', lib], capture_output=True, text=True)
    if r.returncode:
        raise BuildError('g++ failed:\n' + r.stdout + r.stderr)
    return lib


class _Finder(object):
    def __init__(self, lib):
        self.lib = lib

    def find_spec(self, name, path=None, target=None):
        if name == EXT:
            loader = importlib.machinery.ExtensionFileLoader(name, self.lib)
            return importlib.util.spec_from_file_location(name, self.lib, loader=loader)
        return None


def activate(lib):
    """Import the package from /repo, with the freshly built extension."""
    sys.meta_path.insert(0, _Finder(lib))
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import beam_telescope_analysis
    where = os.path.realpath(os.path.dirname(beam_telescope_analysis.__file__))
    if where != os.path.realpath(os.path.join(REPO, PKG)):
        raise BuildError('package imported from %s' % where)
    import beam_telescope_analysis.analysis_functions as af
    if os.path.realpath(af.__file__) != os.path.realpath(lib):
        raise BuildError('extension imported from %s' % af.__file__)
    fast_frames()


def fast_frames():
    """Whenever an attribute of a sensor is set, the calling functions are looked at. Looking up the source lines of all
    callers in the way of the inspect module takes most of the time of the workloads; this does the same, but faster."""
    import inspect
    import linecache

    def getouterframes(frame, context=1):
        r = []
        while frame:
            code, lines, index = frame.f_code, None, None
            if context > 0:
                src = linecache.getlines(code.co_filename)
                if src:
                    start = max(0, min(frame.f_lineno - 1 - context // 2, len(src) - context))
                    lines, index = src[start:start + context], frame.f_lineno - 1 - start
            r.append(inspect.FrameInfo(frame, code.co_filename, frame.f_lineno, code.co_name, lines, index))
            frame = frame.f_back
        return r
    inspect.getouterframes = getouterframes
