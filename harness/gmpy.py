"""Loads the Python modules built from /repo (VERIF_BUILD/py) and the converted Python sources (VERIF_BUILD/py3).

The bindings target Python 2: their iterators have next() only.  The shim adds __next__."""
import os, sys, time, warnings
time.clock = time.perf_counter     # removed from Python 3.8
warnings.simplefilter('ignore')
B = os.environ.get('VERIF_BUILD') or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'build')
sys.path[:0] = [os.path.join(B, 'py'), os.path.join(B, 'py3', 'maputils'), os.path.join(B, 'py3', 'utils')]
import vigra, numpy, geomap

def _shim(ns, seen):
    for n in dir(ns):
        try:
            c = getattr(ns, n)
        except Exception:
            continue
        if isinstance(c, type) and id(c) not in seen:
            seen.add(id(c))
            if hasattr(c, 'next') and not hasattr(c, '__next__'):
                c.__next__ = c.next
            if getattr(c, '__module__', '') == 'geomap':
                _shim(c, seen)
_shim(geomap, set())
GeoMap = geomap.GeoMap
