"""Synthetic ephemeris kernels in the layout of JPL (SPK type 2)."""
import struct
import numpy as np


def write_spk(path, segments):
    """A type 2 SPK file; segments: (target, center, init_jd, interval_days, coefficients (n, 3, k) in km)"""
    recs = []
    words = []
    start = 1 + 128*3      # file record, summary record, name record
    for target, center, jd, step, co in segments:
        n, _, k = co.shape
        init = (jd - 2451545.0)*86400.0
        intlen = step*86400.0
        w = []
        for i in range(n):
            w += [init + (i + 0.5)*intlen, intlen/2] + list(co[i].ravel())
        w += [init, intlen, 3*k + 2, n]
        first = start + len(words)
        words += w
        recs.append((init, init + n*intlen, target, center, 1, 2, first, start + len(words) - 1))
    rec = bytearray(1024)
    rec[0:8] = b'DAF/SPK '
    rec[8:16] = struct.pack('<ii', 2, 6)
    rec[16:76] = b'synthetic'.ljust(60)
    rec[76:88] = struct.pack('<iii', 2, 2, start + len(words))
    rec[88:96] = b'LTL-IEEE'
    rec[699:727] = b'FTPSTR:\r:\n:\r\n:\r\x00:\x81:\x10\xce:ENDFTP'[:28]
    summ = bytearray(1024)
    summ[0:24] = struct.pack('<ddd', 0.0, 0.0, float(len(recs)))
    for i, r in enumerate(recs):
        summ[24+i*40:24+i*40+40] = struct.pack('<dd6i', *r)
    names = (b'SEG'.ljust(40)*len(recs)).ljust(1024)
    body = struct.pack(f'<{len(words)}d', *words)
    with open(path, 'wb') as f:
        f.write(bytes(rec) + bytes(summ) + names + body + b'\0'*(-len(body) % 1024))


def realistic(path, mjd, seed):
    """sun and moon at plausible distances that move slowly, for the days between the given ones"""
    rs = np.random.RandomState(seed)
    lo, hi = float(np.min(mjd)) - 3, float(np.max(mjd)) + 3
    step = max(4.0, (hi - lo)/8)

    def co(size, near=0.0):
        n = int(np.ceil((hi - lo)/step)) + 1
        c = np.zeros((n, 3, 3))
        d = rs.normal(size=(n, 3))
        d /= np.linalg.norm(d, axis=1)[:, None]
        c[:, :, 0] = d*size
        c[:, :, 1] = rs.uniform(-1, 1, (n, 3))*size*0.02
        c[:, :, 2] = rs.uniform(-1, 1, (n, 3))*size*0.005
        return c
    jd = lo + 2400000.5
    write_spk(path, [(10, 0, jd, step, co(1e6)), (3, 0, jd, step, co(1.5e8)), (399, 3, jd, step, co(5e3)), (301, 3, jd, step, co(3.8e5))])
