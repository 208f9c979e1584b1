"""Calling the correction functions of pyTMD.compute on generated places and times."""
import pathlib
from harness import np, st
from gen import *
import opole
import pyTMD.compute, pyTMD.io.IERS, pyTMD.spatial

SIMPLE = ['LPET', 'LPT', 'OPT', 'SET']
FUNC = dict(LPET=pyTMD.compute.LPET_elevations, LPT=pyTMD.compute.LPT_displacements,
            OPT=pyTMD.compute.OPT_displacements, SET=pyTMD.compute.SET_displacements,
            ocean=pyTMD.compute.tide_elevations, load=pyTMD.compute.tide_elevations)


def currents(*args, **kwargs):
    """both components side by side"""
    o = pyTMD.compute.tide_currents(*args, **kwargs)
    return np.ma.stack([o['u'], o['v']], axis=-1)


FUNC['currents'] = currents
ELL = ['WGS84', 'IERS', 'GRS80', 'WGS72', 'EGM96']
CONV = ['2003', '2010', '2015', '2018']


def options(draw, what):
    o = {}
    if what in ('LPT', 'OPT', 'SET') and draw(st.booleans()):
        o['ELLIPSOID'] = draw(st.sampled_from(ELL))
    if what in ('LPT', 'OPT') and draw(st.booleans()):
        o['CONVENTION'] = draw(st.sampled_from(CONV))
    if what == 'OPT' and draw(st.booleans()):
        o['METHOD'] = draw(st.sampled_from(['spline', 'bilinear', 'linear']))
    if what == 'SET' and draw(st.booleans()):
        o['TIDE_SYSTEM'] = draw(st.sampled_from(['tide_free', 'mean_tide']))
    return o


def pole_file(folder, lon, lat, v):
    """coefficient file with the nodes around the places (geodetic and geocentric latitudes)"""
    nodes = {}
    k = 0
    lat = np.ravel(lat)
    for lo, la in zip(np.ravel(lon), lat):
        for g in (la, np.degrees(np.arctan(0.9933*np.tan(np.radians(np.clip(la, -89.9999, 89.9999)))))):
            for c in opole.corners(lo, g):
                if c not in nodes:
                    nodes[c] = opole.rounded([a*(1+0.1*(k % 7)) for a in v]); k += 1
    p = pathlib.Path(folder)/'coef.txt.gz'
    opole.write(p, nodes)
    pyTMD.io.IERS._ocean_pole_tide_file = p


def data(a):
    """values with masked entries as NaN"""
    return np.where(np.ma.getmaskarray(np.ma.asarray(a)), np.nan, np.ma.getdata(np.ma.asarray(a)))
