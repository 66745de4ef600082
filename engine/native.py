"""Fresh native build of the Cython extensions from the current /repo source, for replay."""
import os
import subprocess
import sys

EXT = ('potential_field_prism', 'rTE')


def build(repo, out, names=EXT):
    """compile the extension modules of repo into directory out (run with the project's python)."""
    import sysconfig
    import numpy
    src = os.path.join(repo, 'geoana', 'kernels', '_extensions')
    inc = ['-I' + sysconfig.get_paths()['include'], '-I' + numpy.get_include(), '-I' + src]
    procs = []
    for n in names:
        cpp = n == 'rTE'
        c = os.path.join(out, n + ('.cpp' if cpp else '.c'))
        so = os.path.join(out, n + '.so')
        cmd = [sys.executable, '-m', 'cython', '-3', os.path.join(src, n + '.pyx'), '-o', c, '-Xfreethreading_compatible=True'] \
            + (['--cplus'] if cpp else [])
        cc = ['g++' if cpp else 'gcc', '-O1', '-w', '-shared', '-fPIC', '-DNPY_NO_DEPRECATED_API=NPY_1_22_API_VERSION', *inc, c] \
            + ([os.path.join(src, '_rTE.cpp')] if cpp else []) + ['-o', so, '-lm']
        sh = ' '.join(cmd) + ' && ' + ' '.join(cc)
        procs.append((n, so, subprocess.Popen(['bash', '-c', sh], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    res = {}
    for n, so, p in procs:
        o, _ = p.communicate()
        if p.returncode:
            raise RuntimeError(f'native build of {n} failed: {o[-2000:]}')
        res[n] = so
    return res


class Finder:
    """serves geoana from the working tree: no meson loader (which would rebuild in place), the
    extensions only from our own fresh build; without one, the pure-python kernels are used."""

    def __init__(self, repo, libs):
        self.repo, self.libs = repo, libs

    def find_spec(self, name, path=None, target=None):
        import importlib.machinery
        import importlib.util
        pre = 'geoana.kernels._extensions.'
        if name.startswith(pre) and name[len(pre):] in EXT:
            so = self.libs.get(name[len(pre):])
            if so is None:
                raise ImportError(f'{name}: no native build in this replay')
            return importlib.util.spec_from_file_location(name, so, loader=importlib.machinery.ExtensionFileLoader(name, so))
        if name == 'geoana':
            p = os.path.join(self.repo, 'geoana', '__init__.py')
            return importlib.util.spec_from_file_location(name, p, submodule_search_locations=[os.path.dirname(p)])
        return None


def install(repo, libs):
    sys.meta_path[:] = [f for f in sys.meta_path if type(f).__name__ != 'MesonpyMetaFinder']
    sys.path_hooks[:] = [h for h in sys.path_hooks if 'Mesonpy' not in repr(h) and '_path_hook' not in repr(h)]
    sys.path_importer_cache.clear()
    sys.meta_path.insert(0, Finder(repo, libs))


if __name__ == '__main__':
    import time
    t = time.time()
    print(build(sys.argv[1], sys.argv[2]), time.time() - t)
