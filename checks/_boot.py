import os, sys, copy, functools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
try:
    import timescale.time, timescale.eop
    # the leap second list of the installed timescale package has expired: do not look for a newer one
    timescale.time.update_leap_seconds = lambda *a, **k: None
    # read the file of polar motion (of the timescale package) once
    _daily = timescale.eop.iers_daily_EOP
    _memo = {}

    @functools.wraps(_daily)
    def _iers_daily_EOP(*args, **kwargs):
        if args or kwargs:
            k = (tuple(map(str, args)), tuple(sorted((a, str(b)) for a, b in kwargs.items())))
        else:
            k = None
        if k not in _memo:
            _memo[k] = _daily(*args, **kwargs)
        return copy.deepcopy(_memo[k])
    timescale.eop.iers_daily_EOP = _iers_daily_EOP
except ImportError:
    pass
