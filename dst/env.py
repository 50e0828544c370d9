"""Import the real code from /repo and prepare the interpreter."""
import os
import sys

from dst.core import REPO, HarnessError


def quiet():
    """Swallow warnings where they are shown.

    The list of filters keeps entries which no library call leaves as they
    are by chance, so that a change of the filters which outlives a call can
    be seen (a filter `ignore` would hide the one a library leaves behind).
    """
    import warnings
    warnings.resetwarnings()
    warnings.simplefilter('always')
    warnings.showwarning = _swallow
    warnings._showwarnmsg_impl = _swallow


def _swallow(*args, **kwargs):
    pass


def warm(needs=()):
    quiet()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import numpy
    import obspy
    import obspy.taup.tau
    import h5py
    import matplotlib
    matplotlib.use('Agg')
    import cartopy.crs
    import shapely.geometry
    import geographiclib.geodesic
    import scipy.signal
    import scipy.fftpack
    import scipy.linalg
    import multiprocessing, logging, concurrent.futures
    from dst import sched
    # locks which the code under test creates while it is imported have to be
    # known to the thread scheduler
    with sched.patched_locks():
        import obspyh5
        import rf
        import rf.batch
        import rf.util
        import rf.profile
        import rf.harmonics
        import rf.deconvolve
        import rf.simple_model
        import rf.rfstream
        if 'plot' in needs or 'threads' in needs:
            import rf.imaging
    if not os.path.realpath(rf.__file__).startswith(
            os.path.realpath(REPO) + '/'):
        raise HarnessError('rf is not imported from %s' % REPO)
    # obspy loads its plugins lazily by entry point
    from obspy.core.util.base import ENTRY_POINTS
    import obspy.io.sac.core, obspy.io.sh.core, obspy.io.mseed.core
    import obspy.io.quakeml.core, obspy.io.stationxml.core
    import obspy.signal.filter, obspy.signal.rotate
    import obspy.clients.fdsn
    if 'taup' in needs:
        obspy.taup.TauPyModel('iasp91').get_travel_times(10, 50, ('P',))
    if 'threads' in needs:
        import multitaper
        import multitaper.mtspec
    warmup(needs)
    # no run inherits results computed by the warm-up
    sys.modules['rf.simple_model']._MODEL_CACHE.clear() if hasattr(
        sys.modules['rf.simple_model'], '_MODEL_CACHE') else None


def warmup(needs):
    import io
    import numpy as np
    import tempfile
    import shutil
    from obspy import read, Trace, Stream
    d = tempfile.mkdtemp(prefix='warm', dir=os.environ.get('RFDST_SCRATCH'))
    try:
        st = Stream([Trace(np.arange(10.))])
        for fmt in ('SAC', 'Q', 'MSEED', 'H5'):
            name = os.path.join(d, 'x.' + ('QHD' if fmt == 'Q' else fmt))
            st.write(name, fmt)
            read(name, fmt if fmt != 'MSEED' else None)
        st.filter('bandpass', freqmin=0.1, freqmax=0.2)
        st.copy().decimate(2)
    finally:
        shutil.rmtree(d, ignore_errors=True)
