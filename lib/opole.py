"""Ocean pole load coefficient files in the IERS layout (0.5 degree cell centres), with only some of the nodes."""
import gzip
import numpy as np


def node(i, j):
    """coordinates of node: column i (0..719, eastwards from 0.25) and row j (0..359, northwards from -89.75)"""
    return 0.25 + 0.5*(i % 720), -89.75 + 0.5*j


def write(path, nodes, header=('Ocean pole load tide coefficients', 'Longitude Latitude U_r(R) U_r(I) U_n(R) U_n(I) U_e(R) U_e(I)')):
    L = [str(h) for h in header] + ['-'*82]
    for (i, j), v in sorted(nodes.items(), key=lambda kv: (kv[0][1], kv[0][0])):
        lo, la = node(i, j)
        L.append(f'{lo:9.2f} {la:9.2f} ' + ' '.join(f'{a: .8E}' for a in v))
    with gzip.open(path, 'wt', compresslevel=1) as f:
        f.write('\n'.join(L) + '\n')


def rounded(v):
    return [float(f'{a: .8E}') for a in v]


def interp(nodes, lon, lat, nearest=False):
    """bilinear value (6 components) on the sphere of nodes, cyclic in longitude; missing nodes are zero"""
    fx = ((lon - 0.25) % 360.0)/0.5
    fy = np.clip((lat + 89.75)/0.5, 0, 359)
    i, j = int(np.floor(fx)), min(int(np.floor(fy)), 358)
    tx, ty = fx-i, fy-j
    out = np.zeros(6)
    for di, dj, w in ((0, 0, (1-tx)*(1-ty)), (1, 0, tx*(1-ty)), (0, 1, (1-tx)*ty), (1, 1, tx*ty)):
        v = nodes.get(((i+di) % 720, j+dj))
        if v is not None and w:
            out += w*np.array(v)
    return out


def corners(lon, lat):
    fx = ((lon - 0.25) % 360.0)/0.5
    fy = np.clip((lat + 89.75)/0.5, 0, 359)
    i, j = int(np.floor(fx)), min(int(np.floor(fy)), 358)
    return [((i+a) % 720, j+b) for a in (-1, 0, 1, 2) for b in (-1, 0, 1, 2) if 0 <= j+b < 360]
