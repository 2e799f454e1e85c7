"""Offset tables of time zones, 1970 .. 2037."""
import datetime, functools, zoneinfo

END = 2145916800  # 2038-01-01


@functools.lru_cache(None)
def table(name):
    z = zoneinfo.ZoneInfo(name)

    def off(t):
        return int(datetime.datetime.fromtimestamp(t, z).utcoffset().total_seconds())
    out = [dict(at=-1000000, off=off(0))]
    t = 0
    step = 43200
    cur = off(0)
    while t < END:
        n = t + step
        o = off(n)
        if o != cur:
            lo, hi = t, n
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if off(mid) == cur:
                    lo = mid
                else:
                    hi = mid
            cur = off(hi)
            out.append(dict(at=hi, off=cur))
            t = hi
        else:
            t = n
    return out
