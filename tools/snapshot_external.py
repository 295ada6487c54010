"""Names the interpreter, its library and numpy, scipy and matplotlib define,
written to sa/external.json.  Run with the interpreter that runs xboa; nothing
of xboa is imported."""
import importlib
import inspect
import json
import os
import pkgutil
import sys
import warnings

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
LIB = """abc argparse array ast base64 bisect builtins calendar cmath
collections collections.abc concurrent.futures contextlib copy copyreg csv
ctypes datetime decimal enum errno fcntl fnmatch fractions functools gc getopt
getpass glob gzip hashlib heapq importlib inspect io itertools json json.decoder
keyword linecache locale logging marshal math mmap multiprocessing
multiprocessing.pool numbers operator os os.path pathlib pickle platform pprint
queue random re resource sched secrets select shelve shlex shutil signal site
socket sqlite3 stat statistics string struct subprocess sys sysconfig
tarfile tempfile textwrap threading time timeit token tokenize traceback types
typing unicodedata unittest unittest.mock urllib urllib.parse uuid warnings
weakref xml.etree.ElementTree zipfile zlib bz2 lzma""".split()
PKG = ["numpy", "scipy", "matplotlib"]
WANT = {"scipy.spatial", "scipy.optimize", "scipy.linalg", "scipy.stats",
        "scipy.special", "scipy.interpolate", "scipy.signal", "scipy.fft",
        "scipy.fftpack", "scipy.integrate", "scipy.ndimage", "scipy.cluster",
        "scipy.constants", "scipy.io", "scipy.sparse",
        "matplotlib.pyplot", "matplotlib.patches", "matplotlib.figure",
        "matplotlib.axes", "matplotlib.cm", "matplotlib.colors",
        "matplotlib.lines", "matplotlib.collections", "matplotlib.ticker",
        "matplotlib.backends", "matplotlib.artist", "matplotlib.text",
        "matplotlib.axis", "matplotlib.legend", "matplotlib.image",
        "matplotlib.gridspec", "matplotlib.transforms", "matplotlib.path",
        "matplotlib.animation", "matplotlib.backend_bases",
        "matplotlib.container", "matplotlib.colorbar", "matplotlib.dates"}


# attributes of objects of scipy, ROOT, MAUS and g4bl's python binding that
# no class lists
INSTANCES = """cd gStyle gROOT gPad gDirectory gSystem gRandom gBenchmark
point_region simplices vertices regions points neighbors equations volume area
convex_hull coplanar npoints ndim furthest_site min_bound max_bound
ridge_points ridge_vertices ridge_dict vertex_to_simplex good transform
paraboloid_scale paraboloid_shift vertex_neighbor_vertices
scifitracks scifitrackpoints tracker plane station has_instance birth death track_particles""".split()


def main():
    mods, star = {}, set()
    names = list(LIB) + PKG + sorted(WANT)
    import numpy
    for s in sorted(dir(numpy)):
        if inspect.ismodule(getattr(numpy, s)):
            names.append("numpy." + s)
    done = set()
    for nm in names:
        try:
            m = importlib.import_module(nm)
        except Exception:
            continue
        d = set(dir(m))
        if hasattr(m, "__path__"):
            d |= set(x.name for x in pkgutil.iter_modules(m.__path__))
        mods[nm] = sorted(x for x in d)
        for k in dir(m):
            try:
                v = getattr(m, k)
            except Exception:
                continue
            c = v if inspect.isclass(v) else type(v)
            if id(c) in done:
                continue
            done.add(id(c))
            star |= set(dir(c))
    import numpy as np
    for v in (np.zeros(2), np.float64(1), np.matrix([[1.]]), open("/dev/null"),
              (lambda: 0), main, (x for x in ()), 1j, sys._getframe(),
              main.__code__):
        star |= set(dir(v))
    out = {"modules": mods, "members": sorted(star),
           "instances": sorted(INSTANCES)}
    with open(os.path.join(HERE, "..", "sa", "external.json"), "w") as f:
        json.dump(out, f, indent=0, sort_keys=True)
        f.write("\n")
    print(len(mods), len(star))


main()
