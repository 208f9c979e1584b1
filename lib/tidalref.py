"""Reference tables and formulas for tidal arguments and nodal corrections.

Written independently of pyTMD.arguments: a table of linear constituents, compound constituents
as sums of their parents, and the published nodal expansions (Schureman/FES, Doodson/OTIS, Ray/GOT
and the older perth3 forms).
"""
import numpy as np

OTIS_TYPES = ('OTIS', 'ATLAS', 'TMD3', 'netcdf')

# Doodson multipliers (tau, s, h, p, n, pp, k) of constituents that are not sums of others
BASE = {
    'z0': [0, 0, 0, 0, 0, 0, 0],
    'node': [0, 0, 0, 0, 1, 0, 2],
    'omega0': [0, 0, 0, 0, 1, 0, 2],
    'sa': [0, 0, 1, 0, 0, -1, 0],
    'ssa': [0, 0, 2, 0, 0, 0, 0],
    'sta': [0, 0, 3, 0, 0, -1, 0],
    'st': [0, 0, 3, 0, 0, 0, 0],
    'msm': [0, 1, -2, 1, 0, 0, 0],
    'mm': [0, 1, 0, -1, 0, 0, 0],
    'msfa': [0, 2, -3, 0, 0, 0, 0],
    'msf': [0, 2, -2, 0, 0, 0, 0],
    'msfb': [0, 2, -1, 0, 0, 0, 0],
    'mfa': [0, 2, -1, 0, 0, 0, 0],
    'mf-': [0, 2, 0, 0, -1, 0, 0],
    'mf': [0, 2, 0, 0, 0, 0, 0],
    'mf+': [0, 2, 0, 0, 1, 0, 0],
    'mfn': [0, 2, 0, 0, 1, 0, 0],
    'mfb': [0, 2, 1, 0, 0, 0, 0],
    'mst': [0, 3, -2, 1, 0, 0, 0],
    'mt': [0, 3, 0, -1, 0, 0, 0],
    'mtm': [0, 3, 0, -1, 0, 0, 0],
    'msqm': [0, 4, -2, 0, 0, 0, 0],
    'mq': [0, 4, 0, -2, 0, 0, 0],
    'msp': [0, 5, -2, -1, 0, 0, 0],
    'mp': [0, 5, 0, -3, 0, 0, 0],
    'alpha1': [1, -4, 2, 1, 0, 0, -1],
    "2q1'": [1, -3, 0, 1, 0, 0, 2],
    '2q1': [1, -3, 0, 2, 0, 0, -1],
    'sigma1': [1, -3, 2, 0, 0, 0, -1],
    "q1'": [1, -2, 0, 0, 0, 0, 2],
    'q1': [1, -2, 0, 1, 0, 0, -1],
    'rho1': [1, -2, 2, -1, 0, 0, -1],
    'oa1': [1, -1, -1, 0, 0, 0, -1],
    'o1n': [1, -1, 0, 0, -1, 0, -1],
    'o1-': [1, -1, 0, 0, -1, 0, -1],
    'o1': [1, -1, 0, 0, 0, 0, -1],
    'o1+': [1, -1, 0, 0, 1, 0, -1],
    "o1'": [1, -1, 0, 1, 0, 0, 2],
    'ob1': [1, -1, 1, 0, 0, 0, -1],
    'tau1': [1, -1, 2, 0, 0, 0, 1],
    'beta1': [1, 0, -2, 1, 0, 0, 1],
    "m1'": [1, 0, 0, 0, 0, 0, 2],
    'm1': [1, 0, 0, 0, 0, 0, 1],
    'm1a': [1, 0, 0, 1, 0, 0, 1],
    'm1b': [1, 0, 0, -1, 0, 0, 1],
    'chi1': [1, 0, 2, -1, 0, 0, 1],
    'pi1': [1, 1, -3, 0, 0, 1, -1],
    's1-1': [1, 1, -2, 0, 0, 0, 2],
    'p1': [1, 1, -2, 0, 0, 0, -1],
    's1-': [1, 1, -1, 0, 0, -1, 1],
    's1': [1, 1, -1, 0, 0, 0, 2],
    's1+': [1, 1, -1, 0, 0, 1, 1],
    'ojm1': [1, 1, 0, -2, 0, 0, -1],
    "k1'": [1, 1, 0, -1, 0, 0, 2],
    'k1-': [1, 1, 0, 0, -1, 0, -1],
    'k1': [1, 1, 0, 0, 0, 0, 1],
    's1+1': [1, 1, 0, 0, 0, 0, 2],
    'k1+': [1, 1, 0, 0, 1, 0, 1],
    'k1n': [1, 1, 0, 0, 1, 0, 1],
    'k1++': [1, 1, 0, 0, 2, 0, -1],
    'psi1': [1, 1, 1, 0, 0, -1, 1],
    'phi1': [1, 1, 2, 0, 0, 0, 1],
    'the1': [1, 2, -2, 1, 0, 0, 1],
    'theta1': [1, 2, -2, 1, 0, 0, 1],
    'j1': [1, 2, 0, -1, 0, 0, 1],
    "j1'": [1, 2, 0, 0, 0, 0, 2],
    'oo1': [1, 3, 0, 0, 0, 0, 1],
    'ups1': [1, 4, 0, -1, 0, 0, 1],
    '3n2': [2, -3, 0, 3, 0, 0, 0],
    'eps2': [2, -3, 2, 1, 0, 0, 0],
    'o2': [2, -2, 0, 0, 0, 0, 2],
    "2n2'": [2, -2, 0, 1, 0, 0, 1],
    '2n2': [2, -2, 0, 2, 0, 0, 0],
    'mu2': [2, -2, 2, 0, 0, 0, 0],
    'omg2': [2, -2, 3, 0, 0, -1, 0],
    'na2': [2, -1, -1, 1, 0, 0, 0],
    "n2'": [2, -1, 0, 0, 0, 0, 1],
    'n2': [2, -1, 0, 1, 0, 0, 0],
    'nb2': [2, -1, 1, 1, 0, 0, 0],
    'nu2': [2, -1, 2, -1, 0, 0, 0],
    'm2-2': [2, 0, -2, 0, 0, 0, 0],
    'gamma2': [2, 0, -2, 2, 0, 0, 2],
    'gam2': [2, 0, -2, 2, 0, 0, 2],
    'alp2': [2, 0, -1, 0, 0, 1, 2],
    'alpha2': [2, 0, -1, 0, 0, 1, 2],
    'm2a': [2, 0, -1, 0, 0, 1, 0],
    'm2-1': [2, 0, -1, 0, 0, 0, 0],
    'ma2': [2, 0, -1, 0, 0, 0, 0],
    'm2-': [2, 0, 0, 0, -1, 0, 2],
    'm2': [2, 0, 0, 0, 0, 0, 0],
    'm2+': [2, 0, 0, 0, 1, 0, 2],
    "m2'": [2, 0, 0, 1, 0, 0, -1],
    'mb2': [2, 0, 1, 0, 0, 0, 0],
    'm2+1': [2, 0, 1, 0, 0, 0, 0],
    'm2b': [2, 0, 1, 0, 0, -1, 0],
    'beta2': [2, 0, 1, 0, 0, -1, 0],
    'delta2': [2, 0, 2, 0, 0, 0, 0],
    'm2+2': [2, 0, 2, 0, 0, 0, 0],
    'lambda2': [2, 1, -2, 1, 0, 0, 2],
    'l2': [2, 1, 0, -1, 0, 0, 2],
    'l2a': [2, 1, 0, -1, 0, 0, 2],
    "l2'": [2, 1, 0, 0, 0, 0, -1],
    'l2b': [2, 1, 0, 1, 0, 0, 0],
    'lb2': [2, 1, 1, -1, 0, 0, 2],
    '2t2': [2, 2, -4, 0, 0, 2, 0],
    's2-2': [2, 2, -4, 0, 0, 0, 0],
    's2-1': [2, 2, -3, 0, 0, 0, 0],
    't2': [2, 2, -3, 0, 0, 1, 0],
    's2r': [2, 2, -2, 0, 0, 0, 0],
    's2': [2, 2, -2, 0, 0, 0, 0],
    'r2': [2, 2, -1, 0, 0, -1, 2],
    's2+1': [2, 2, -1, 0, 0, 0, 0],
    's2+2': [2, 2, 0, 0, 0, 0, 0],
    'k2': [2, 2, 0, 0, 0, 0, 0],
    'kb2': [2, 2, 1, 0, 0, 0, 0],
    'zeta2': [2, 3, -2, 1, 0, 0, 0],
    'eta2': [2, 3, 0, -1, 0, 0, 0],
    '2k2': [2, 4, 0, 0, 0, 0, 0],
    'o3': [3, -3, 0, 0, 0, 0, 1],
    'qms3': [3, -1, -1, 2, 0, 0, 2],
    'mo3-': [3, -1, 0, 0, -1, 0, -1],
    'mo3+': [3, -1, 0, 0, 1, 0, -1],
    'e3n': [3, -1, 0, 1, -1, 0, 0],
    'e3': [3, -1, 0, 1, 0, 0, 2],
    '2mm3': [3, 0, 0, -1, 0, 0, -1],
    'm3': [3, 0, 0, 0, 0, 0, 0],
    "m3'": [3, 0, 0, 0, 0, 0, 2],
    'lambda3': [3, 1, -2, 1, 0, 0, 0],
    'pjrho3': [3, 1, 0, -2, 0, 0, -1],
    'l3': [3, 1, 0, -1, 0, 0, 0],
    'mk3-': [3, 1, 0, 0, -1, 0, 1],
    'mk3+': [3, 1, 0, 0, 1, 0, 1],
    'l3b': [3, 1, 0, 1, 0, 0, 2],
    'f3': [3, 2, 0, 0, 0, 0, 2],
    'j3': [3, 2, 0, 0, 0, 0, 2],
    '2t3': [3, 3, -5, 0, 0, 0, 2],
    't3': [3, 3, -4, 0, 0, 0, 2],
    's3': [3, 3, -3, 0, 0, 0, 0],
    "s3'": [3, 3, -3, 0, 0, 0, 2],
    'r3': [3, 3, -2, 0, 0, 0, 2],
    '2r3': [3, 3, -1, 0, 0, 0, 2],
    'k3': [3, 3, 0, 0, 0, 0, -1],
    '2jk3': [3, 5, -1, -2, 0, 0, 0],
    'o4': [4, -4, 0, 0, 0, 0, 0],
    '4ms4': [4, -4, 4, 0, 0, 0, 0],
    'n4': [4, -2, 0, 2, 0, 0, 0],
    'ma4': [4, 0, -1, 0, 0, 0, 0],
    'm4': [4, 0, 0, 0, 0, 0, 0],
    'mb4': [4, 0, 1, 0, 0, 0, 0],
    '2t4': [4, 4, -6, 0, 0, 0, 0],
    't4': [4, 4, -5, 0, 0, 0, 0],
    's4': [4, 4, -4, 0, 0, 0, 0],
    'r4': [4, 4, -3, 0, 0, 0, 0],
    '2r4': [4, 4, -2, 0, 0, 0, 0],
    '3ks4': [4, 4, -1, 0, 0, 0, -1],
    'k4': [4, 4, 0, 0, 0, 0, 0],
    '2nkms5': [5, -2, 2, 2, 0, 0, 1],
    'mnm5': [5, -1, 0, 1, 0, 0, 2],
    'm5': [5, 0, 0, 0, 0, 0, 2],
    'mb5': [5, 0, 1, 0, 0, 0, 1],
    'msm5': [5, 2, -2, 0, 0, 0, 2],
    't5': [5, 5, -6, 0, 0, 0, 0],
    's5': [5, 5, -5, 0, 0, 0, 0],
    'r5': [5, 5, -4, 0, 0, 0, 0],
    'k5': [5, 5, 0, 0, 0, 0, 1],
    'o6': [6, -6, 0, 0, 0, 0, 2],
    'n6': [6, -3, 0, 3, 0, 0, 0],
    '2mno6': [6, -1, 2, -1, 0, 0, 0],
    'ma6': [6, 0, -1, 0, 0, 0, 0],
    'm6': [6, 0, 0, 0, 0, 0, 0],
    'mb6': [6, 0, 1, 0, 0, 0, 0],
    '2t6': [6, 6, -8, 0, 0, 0, 0],
    't6': [6, 6, -7, 0, 0, 0, 0],
    's6': [6, 6, -6, 0, 0, 0, 0],
    'r6': [6, 6, -5, 0, 0, 0, 0],
    '2r6': [6, 6, -4, 0, 0, 0, 0],
    'k6': [6, 6, 0, 0, 0, 0, 0],
    'm7': [7, 0, 0, 1, 0, 0, 1],
    '2t7': [7, 7, -9, 0, 0, 0, 0],
    't7': [7, 7, -8, 0, 0, 0, 0],
    's7': [7, 7, -7, 0, 0, 0, 0],
    'r7': [7, 7, -6, 0, 0, 0, 0],
    '2r7': [7, 7, -5, 0, 0, 0, 0],
    '3r7': [7, 7, -4, 0, 0, 0, 0],
    '4r7': [7, 7, -3, 0, 0, 0, 0],
    'k7': [7, 7, 0, 0, 0, 0, 1],
    '2mn8': [8, -2, 0, 2, 0, 0, 0],
    'ma8': [8, 0, -1, 0, 0, 0, 0],
    'm8': [8, 0, 0, 0, 0, 0, 0],
    'mb8': [8, 0, 1, 0, 0, 0, 0],
    's8': [8, 8, -8, 0, 0, 0, 0],
    'k8': [8, 8, 0, 0, 0, 0, 0],
    's9': [9, 9, -9, 0, 0, 0, 0],
    'k9': [9, 9, 0, 0, 0, 0, 1],
    'm10': [10, 0, 0, 0, 0, 0, 0],
    's10': [10, 10, -10, 0, 0, 0, 0],
    's11': [11, 11, -11, 0, 0, 0, 0],
    'm12': [12, 0, 0, 0, 0, 0, 0],
    's12': [12, 12, -12, 0, 0, 0, 0],
    'm14': [14, 0, 0, 0, 0, 0, 0],
}

# compound constituents as signed sums of their parents
COMPOUND = {
    'sn0': [('s2', 1), ('n2', -1)],
    '2smn0': [('s2', 2), ('m2', -1), ('n2', -1)],
    '2qj1': [('q1', 2), ('j1', -1)],
    '2qk1': [('q1', 2), ('k1', -1)],
    '2qs1': [('q1', 2), ('s1', -1)],
    '2qp1': [('q1', 2), ('p1', -1)],
    '2oj1': [('o1', 2), ('j1', -1)],
    '2ok1': [('o1', 2), ('k1', -1)],
    'np1': [('n2', 1), ('p1', -1)],
    'opk1': [('o1', 1), ('p1', 1), ('k1', -1)],
    'ms1': [('m2', 1), ('s1', -1)],
    'mp1': [('m2', 1), ('p1', -1)],
    'pqo1': [('p1', 1), ('q1', 1), ('o1', -1)],
    '2oq1': [('o1', 2), ('q1', -1)],
    'no1': [('n2', 1), ('o1', -1)],
    '2pk1': [('p1', 2), ('k1', -1)],
    'tk1': [('t2', 1), ('k1', -1)],
    'rp1': [('r2', 1), ('p1', -1)],
    'kp1': [('k2', 1), ('p1', -1)],
    'opq1': [('o1', 1), ('p1', 1), ('q1', -1)],
    'mq1': [('m2', 1), ('q1', -1)],
    '2po1': [('p1', 2), ('o1', -1)],
    'so1': [('s2', 1), ('o1', -1)],
    'kpq1': [('k1', 1), ('p1', 1), ('q1', -1)],
    'kq1': [('k2', 1), ('q1', -1)],
    '2jo1': [('j1', 2), ('o1', -1)],
    'kjq1': [('k1', 1), ('j1', 1), ('q1', -1)],
    '2ook1': [('oo1', 2), ('k1', -1)],
    '2oop1': [('oo1', 2), ('p1', -1)],
    '2jq1': [('j1', 2), ('q1', -1)],
    '2mn2s2': [('m2', 2), ('n2', 1), ('s2', -2)],
    '2nk2': [('n2', 2), ('k2', -1)],
    '3m(sk)2': [('m2', 3), ('s2', -1), ('k2', -1)],
    '3mks2': [('m2', 3), ('k2', -1), ('s2', -1)],
    '2ns2': [('n2', 2), ('s2', -1)],
    '3m2s2': [('m2', 3), ('s2', -2)],
    'oq2': [('o1', 1), ('q1', 1)],
    'mnk2': [('m2', 1), ('n2', 1), ('k2', -1)],
    'mns2': [('m2', 1), ('n2', 1), ('s2', -1)],
    'mnus2': [('m2', 1), ('nu2', 1), ('s2', -1)],
    '2ml2s2': [('m2', 2), ('l2', 1), ('s2', -2)],
    'mnk2s2': [('m2', 1), ('n2', 1), ('k2', 1), ('s2', -2)],
    '2ms2k2': [('m2', 2), ('s2', 1), ('k2', -2)],
    '2mk2': [('m2', 2), ('k2', -1)],
    '2nm2': [('n2', 2), ('m2', -1)],
    '2ms2': [('m2', 2), ('s2', -1)],
    '2mk2s2': [('m2', 2), ('k2', 1), ('s2', -2)],
    'nsk2': [('n2', 1), ('s2', 1), ('k2', -1)],
    'snk2': [('s2', 1), ('n2', 1), ('k2', -1)],
    '2ml2': [('m2', 2), ('l2', -1)],
    'mmun2': [('m2', 1), ('mu2', 1), ('n2', -1)],
    '3m(sn)2': [('m2', 3), ('s2', -1), ('n2', -1)],
    'nks2': [('n2', 1), ('k2', 1), ('s2', -1)],
    'nkp2': [('n2', 1), ('k1', 1), ('p1', -1)],
    'mkl2s2': [('m2', 1), ('k2', 1), ('l2', 1), ('s2', -2)],
    '2kn2s2': [('k2', 2), ('n2', 1), ('s2', -2)],
    'msk2': [('m2', 1), ('s2', 1), ('k2', -1)],
    'op2': [('o1', 1), ('p1', 1)],
    'ko2': [('k1', 1), ('o1', 1)],
    'mks2': [('m2', 1), ('k2', 1), ('s2', -1)],
    'm2(ks)2': [('m2', 1), ('k2', 2), ('s2', -2)],
    '2snmk2': [('s2', 2), ('n2', 1), ('m2', -1), ('k2', -1)],
    '2sn(mk)2': [('s2', 2), ('n2', 1), ('m2', -1), ('k2', -1)],
    'snm2': [('s2', 1), ('n2', 1), ('m2', -1)],
    '2mn2': [('m2', 2), ('n2', -1)],
    'nkm2': [('n2', 1), ('k2', 1), ('m2', -1)],
    '2sk2': [('s2', 2), ('k2', -1)],
    'kp2': [('k1', 1), ('p1', 1)],
    '2ks2': [('k2', 2), ('s2', -1)],
    '2pmn2': [('p1', 2), ('m2', 1), ('n2', -1)],
    'msnu2': [('m2', 1), ('s2', 1), ('nu2', -1)],
    'msn2': [('m2', 1), ('s2', 1), ('n2', -1)],
    'mkn2': [('m2', 1), ('k2', 1), ('n2', -1)],
    'kj2': [('k1', 1), ('j1', 1)],
    '2kmsn2': [('k2', 2), ('m2', 1), ('s2', -1), ('n2', -1)],
    '2km(sn)2': [('k2', 2), ('m2', 1), ('s2', -1), ('n2', -1)],
    '2sm2': [('s2', 2), ('m2', -1)],
    '2ms2n2': [('m2', 2), ('s2', 1), ('n2', -2)],
    'skm2': [('s2', 1), ('k2', 1), ('m2', -1)],
    '2j2': [('j1', 2)],
    '2snu2': [('s2', 2), ('nu2', -1)],
    '3(sm)n2': [('s2', 3), ('m2', -3), ('n2', 1)],
    '2sn2': [('s2', 2), ('n2', -1)],
    'skn2': [('s2', 1), ('k2', 1), ('n2', -1)],
    '2kn2': [('k2', 2), ('n2', -1)],
    '3s2m2': [('s2', 3), ('m2', -2)],
    '2sk2m2': [('s2', 2), ('k2', 1), ('m2', -2)],
    '2oq3': [('o1', 2), ('q1', 1)],
    'nq3': [('n2', 1), ('q1', 1)],
    'muo3': [('mu2', 1), ('o1', 1)],
    'mq3': [('m2', 1), ('q1', 1)],
    'no3': [('n2', 1), ('o1', 1)],
    'mnp3': [('m2', 1), ('n2', 1), ('p1', -1)],
    '2op3': [('o1', 2), ('p1', 1)],
    '2os3': [('o1', 2), ('s1', 1)],
    'mo3': [('m2', 1), ('o1', 1)],
    '2mk3': [('m2', 2), ('k1', -1)],
    '2no3': [('n2', 2), ('o1', -1)],
    '2nkm3': [('n2', 2), ('k1', 1), ('m2', -1)],
    '2ms3': [('m2', 2), ('s1', -1)],
    '2mp3': [('m2', 2), ('p1', -1)],
    'ns3': [('n2', 1), ('s1', 1)],
    '2oj3': [('o1', 2), ('j1', 1)],
    'nk3': [('n2', 1), ('k1', 1)],
    'mp3': [('m2', 1), ('p1', 1)],
    'so3': [('s2', 1), ('o1', 1)],
    'ms3': [('m2', 1), ('s1', 1)],
    'mk3': [('m2', 1), ('k1', 1)],
    'mks3': [('m2', 1), ('k2', 1), ('s1', -1)],
    'mkp3': [('m2', 1), ('k2', 1), ('p1', -1)],
    'nso3': [('n2', 1), ('s2', 1), ('o1', -1)],
    '2mq3': [('m2', 2), ('q1', -1)],
    'sp3': [('s2', 1), ('p1', 1)],
    'sk3': [('s2', 1), ('k1', 1)],
    '2so3': [('s2', 2), ('o1', -1)],
    '2jp3': [('j1', 2), ('p1', 1)],
    'kso3': [('k2', 1), ('s2', 1), ('o1', -1)],
    '2ko3': [('k2', 2), ('o1', -1)],
    '2sq3': [('s2', 2), ('q1', -1)],
    '2qm4': [('q1', 2), ('m2', 1)],
    '4m2s4': [('m2', 4), ('s2', -2)],
    '2mnk4': [('m2', 2), ('n2', 1), ('k2', -1)],
    'moq4': [('m2', 1), ('o1', 1), ('q1', 1)],
    '2mns4': [('m2', 2), ('n2', 1), ('s2', -1)],
    '2mnus4': [('m2', 2), ('nu2', 1), ('s2', -1)],
    '3mk4': [('m2', 3), ('k2', -1)],
    '2om4': [('o1', 2), ('m2', 1)],
    '3ms4': [('m2', 3), ('s2', -1)],
    'msnk4': [('m2', 1), ('s2', 1), ('n2', 1), ('k2', -1)],
    'mpq4': [('m2', 1), ('p1', 1), ('q1', 1)],
    'mn4': [('m2', 1), ('n2', 1)],
    'mnu4': [('m2', 1), ('nu2', 1)],
    '2mls4': [('m2', 2), ('l2', 1), ('s2', -1)],
    'mnks4': [('m2', 1), ('n2', 1), ('k2', 1), ('s2', -1)],
    '2msk4': [('m2', 2), ('s2', 1), ('k2', -1)],
    'mop4': [('m2', 1), ('o1', 1), ('p1', 1)],
    '2mks4': [('m2', 2), ('k2', 1), ('s2', -1)],
    'sn4': [('s2', 1), ('n2', 1)],
    '3mn4': [('m2', 3), ('n2', -1)],
    'ml4': [('m2', 1), ('l2', 1)],
    'nk4': [('n2', 1), ('k2', 1)],
    '2smk4': [('s2', 2), ('m2', 1), ('k2', -1)],
    '2pm4': [('p1', 2), ('m2', 1)],
    'mt4': [('m2', 1), ('t2', 1)],
    'ms4': [('m2', 1), ('s2', 1)],
    'mr4': [('m2', 1), ('r2', 1)],
    'mk4': [('m2', 1), ('k2', 1)],
    '2snm4': [('s2', 2), ('n2', 1), ('m2', -1)],
    '2msn4': [('m2', 2), ('s2', 1), ('n2', -1)],
    'sl4': [('s2', 1), ('l2', 1)],
    '2mkn4': [('m2', 2), ('k2', 1), ('n2', -1)],
    'mkj4': [('m2', 1), ('k1', 1), ('j1', 1)],
    'st4': [('s2', 1), ('t2', 1)],
    'sk4': [('s2', 1), ('k2', 1)],
    '3sm4': [('s2', 3), ('m2', -1)],
    '2(kj)4': [('k1', 2), ('j1', 2)],
    '2no5': [('n2', 2), ('o1', 1)],
    'mno5': [('m2', 1), ('n2', 1), ('o1', 1)],
    '2mq5': [('m2', 2), ('q1', 1)],
    '2mo5': [('m2', 2), ('o1', 1)],
    '2nk5': [('n2', 2), ('k1', 1)],
    '3ms5': [('m2', 3), ('s1', -1)],
    '3mp5': [('m2', 3), ('p1', -1)],
    'nso5': [('n2', 1), ('s2', 1), ('o1', 1)],
    'mnk5': [('m2', 1), ('n2', 1), ('k1', 1)],
    'mso5': [('m2', 1), ('s2', 1), ('o1', 1)],
    '2mp5': [('m2', 2), ('p1', 1)],
    '2ms5': [('m2', 2), ('s1', 1)],
    '2mk5': [('m2', 2), ('k1', 1)],
    'nks5': [('n2', 1), ('k2', 1), ('s1', 1)],
    'nsk5': [('n2', 1), ('s2', 1), ('k1', 1)],
    'snk5': [('s2', 1), ('n2', 1), ('k1', 1)],
    '3mq5': [('m2', 3), ('q1', -1)],
    'msp5': [('m2', 1), ('s2', 1), ('p1', 1)],
    'msk5': [('m2', 1), ('s2', 1), ('k1', 1)],
    '3km5': [('k1', 3), ('m2', 1)],
    '2sp5': [('s2', 2), ('p1', 1)],
    '2sk5': [('s2', 2), ('k1', 1)],
    '2(mn)k6': [('m2', 2), ('n2', 2), ('k2', -1)],
    '5mks6': [('m2', 5), ('k2', -1), ('s2', -1)],
    '2(mn)s6': [('m2', 2), ('n2', 2), ('s2', -1)],
    '5m2s6': [('m2', 5), ('s2', -2)],
    '3mnk6': [('m2', 3), ('n2', 1), ('k2', -1)],
    '3mns6': [('m2', 3), ('n2', 1), ('s2', -1)],
    '2nmls6': [('n2', 2), ('m2', 1), ('l2', 1), ('s2', -1)],
    '3nks6': [('n2', 3), ('k2', 1), ('s2', -1)],
    '3mnus6': [('m2', 3), ('nu2', 1), ('s2', -1)],
    '4mk6': [('m2', 4), ('k2', -1)],
    '2nm6': [('n2', 2), ('m2', 1)],
    'm2n6': [('m2', 1), ('n2', 2)],
    '4ms6': [('m2', 4), ('s2', -1)],
    '2mlns6': [('m2', 2), ('l2', 1), ('n2', 1), ('s2', -1)],
    '2mnls6': [('m2', 2), ('n2', 1), ('l2', 1), ('s2', -1)],
    '2nmks6': [('n2', 2), ('m2', 1), ('k2', 1), ('s2', -1)],
    '2msnk6': [('m2', 2), ('s2', 1), ('n2', 1), ('k2', -1)],
    '2mn6': [('m2', 2), ('n2', 1)],
    '2mnu6': [('m2', 2), ('nu2', 1)],
    '3mls6': [('m2', 3), ('l2', 1), ('s2', -1)],
    '2mnks6': [('m2', 2), ('n2', 1), ('k2', 1), ('s2', -1)],
    '3msk6': [('m2', 3), ('s2', 1), ('k2', -1)],
    '2nk6': [('n2', 2), ('k2', 1)],
    '3mks6': [('m2', 3), ('k2', 1), ('s2', -1)],
    'msn6': [('m2', 1), ('s2', 1), ('n2', 1)],
    '4mn6': [('m2', 4), ('n2', -1)],
    '2ml6': [('m2', 2), ('l2', 1)],
    'mnk6': [('m2', 1), ('n2', 1), ('k2', 1)],
    'mkn6': [('m2', 1), ('k2', 1), ('n2', 1)],
    'mknu6': [('m2', 1), ('k2', 1), ('nu2', 1)],
    '2(ms)k6': [('m2', 2), ('s2', 2), ('k2', -1)],
    '2mt6': [('m2', 2), ('t2', 1)],
    '2ms6': [('m2', 2), ('s2', 1)],
    '2mr6': [('m2', 2), ('r2', 1)],
    '2mk6': [('m2', 2), ('k2', 1)],
    '2sn6': [('s2', 2), ('n2', 1)],
    '3msn6': [('m2', 3), ('s2', 1), ('n2', -1)],
    'msl6': [('m2', 1), ('s2', 1), ('l2', 1)],
    'snk6': [('s2', 1), ('n2', 1), ('k2', 1)],
    'mkl6': [('m2', 1), ('k2', 1), ('l2', 1)],
    '3mkn6': [('m2', 3), ('k2', 1), ('n2', -1)],
    '2sm6': [('s2', 2), ('m2', 1)],
    'msk6': [('m2', 1), ('s2', 1), ('k2', 1)],
    '2km6': [('k2', 2), ('m2', 1)],
    '2(ms)n6': [('m2', 2), ('s2', 2), ('n2', -1)],
    '2mskn6': [('m2', 2), ('s2', 1), ('k2', 1), ('n2', -1)],
    '2sk6': [('s2', 2), ('k2', 1)],
    '4sm6': [('s2', 4), ('m2', -1)],
    '2mno7': [('m2', 2), ('n2', 1), ('o1', 1)],
    '4mk7': [('m2', 4), ('k1', -1)],
    '3mo7': [('m2', 3), ('o1', 1)],
    '2nmk7': [('n2', 2), ('m2', 1), ('k1', 1)],
    '3mp7': [('m2', 3), ('p1', 1)],
    '2mso7': [('m2', 2), ('s2', 1), ('o1', 1)],
    '3mk7': [('m2', 3), ('k1', 1)],
    '2msk7': [('m2', 2), ('s2', 1), ('k1', 1)],
    'msko7': [('m2', 1), ('s2', 1), ('k2', 1), ('o1', 1)],
    '3sp7': [('s2', 3), ('p1', 1)],
    '3sk7': [('s2', 3), ('k1', 1)],
    '3m2ns8': [('m2', 3), ('n2', 2), ('s2', -1)],
    '4mns8': [('m2', 4), ('n2', 1), ('s2', -1)],
    '5mk8': [('m2', 5), ('k2', -1)],
    '2(mn)8': [('m2', 2), ('n2', 2)],
    '5ms8': [('m2', 5), ('s2', -1)],
    '3mn8': [('m2', 3), ('n2', 1)],
    '3mnu8': [('m2', 3), ('nu2', 1)],
    '4mls8': [('m2', 4), ('l2', 1), ('s2', -1)],
    '2msn8': [('m2', 2), ('s2', 1), ('n2', 1)],
    '3ml8': [('m2', 3), ('l2', 1)],
    '2mnk8': [('m2', 2), ('n2', 1), ('k2', 1)],
    '3mt8': [('m2', 3), ('t2', 1)],
    '3ms8': [('m2', 3), ('s2', 1)],
    '3mk8': [('m2', 3), ('k2', 1)],
    '2smn8': [('s2', 2), ('m2', 1), ('n2', 1)],
    '2msl8': [('m2', 2), ('s2', 1), ('l2', 1)],
    'msnk8': [('m2', 1), ('s2', 1), ('n2', 1), ('k2', 1)],
    '4msn8': [('m2', 4), ('s2', 1), ('n2', -1)],
    '2(ms)8': [('m2', 2), ('s2', 2)],
    '2msk8': [('m2', 2), ('s2', 1), ('k2', 1)],
    '2(mk)8': [('m2', 2), ('k2', 2)],
    '4mo9': [('m2', 4), ('o1', 1)],
    '2(mn)k9': [('m2', 2), ('n2', 2), ('k1', 1)],
    '2m2nk9': [('m2', 2), ('n2', 2), ('k1', 1)],
    '3mnk9': [('m2', 3), ('n2', 1), ('k1', 1)],
    '4mp9': [('m2', 4), ('p1', 1)],
    '4ms9': [('m2', 4), ('s1', 1)],
    '4mk9': [('m2', 4), ('k1', 1)],
    '3msk9': [('m2', 3), ('s2', 1), ('k1', 1)],
    '4mn10': [('m2', 4), ('n2', 1)],
    '3msn10': [('m2', 3), ('s2', 1), ('n2', 1)],
    '4ms10': [('m2', 4), ('s2', 1)],
    '4mk10': [('m2', 4), ('k2', 1)],
    '3msl10': [('m2', 3), ('s2', 1), ('l2', 1)],
    '3m2s10': [('m2', 3), ('s2', 2)],
    '3msk10': [('m2', 3), ('s2', 1), ('k2', 1)],
    '4msk11': [('m2', 4), ('s2', 1), ('k1', 1)],
    '5mn12': [('m2', 5), ('n2', 1)],
    '4msn12': [('m2', 4), ('s2', 1), ('n2', 1)],
    '4mns12': [('m2', 4), ('n2', 1), ('s2', 1)],
    '5ms12': [('m2', 5), ('s2', 1)],
    '4msl12': [('m2', 4), ('s2', 1), ('l2', 1)],
    '4m2s12': [('m2', 4), ('s2', 2)],
    '5msn14': [('m2', 5), ('s2', 1), ('n2', 1)],
    '6ms14': [('m2', 6), ('s2', 1)],
    '5m2s14': [('m2', 5), ('s2', 2)],
}

# nodal parents (major constituents) of the compound constituents that have nodal corrections
NODAL_COMPOUND = {
    'opk1': [('o1', 1), ('k1', -1)],
    'mp1': [('m2', 1)],
    '2oq1': [('o1', 2), ('q1', -1)],
    'no1': [('m2', 1), ('o1', -1)],
    'tk1': [('k1', -1)],
    'kp1': [('k2', 1)],
    '2po1': [('o1', -1)],
    'so1': [('o1', -1)],
    'kjq1': [('k1', 1), ('j1', 1), ('q1', -1)],
    '2ook1': [('oo1', 2), ('k1', -1)],
    '2oop1': [('oo1', 2)],
    '2mn2s2': [('m2', 2), ('m2', 1)],
    '2ns2': [('m2', 2)],
    '3m2s2': [('m2', 3)],
    'oq2': [('o1', 1), ('q1', 1)],
    'mnk2': [('m2', 1), ('m2', 1), ('k2', -1)],
    'mns2': [('m2', 1), ('m2', 1)],
    'mnus2': [('m2', 1), ('m2', 1)],
    '2ml2s2': [('m2', 2), ('l2', 1)],
    '2ms2k2': [('m2', 2), ('k2', -2)],
    '2mk2': [('m2', 2), ('k2', -1)],
    '2ms2': [('m2', 2)],
    '2ml2': [('m2', 2), ('l2', -1)],
    'mmun2': [('m2', 1), ('m2', 1), ('m2', -1)],
    'msk2': [('m2', 1), ('k2', -1)],
    'op2': [('o1', 1)],
    'ko2': [('k1', 1), ('o1', 1)],
    'mks2': [('m2', 1), ('k2', 1)],
    'm2(ks)2': [('m2', 1), ('k2', 2)],
    'snm2': [('m2', 1), ('m2', -1)],
    '2mn2': [('m2', 2), ('m2', -1)],
    'nkm2': [('m2', 1), ('k2', 1), ('m2', -1)],
    'msn2': [('m2', 1), ('m2', -1)],
    'mkn2': [('m2', 1), ('k2', 1), ('m2', -1)],
    'kj2': [('k1', 1), ('j1', 1)],
    '2sm2': [('m2', -1)],
    'skm2': [('k2', 1), ('m2', -1)],
    'nq3': [('m2', 1), ('q1', 1)],
    'mq3': [('m2', 1), ('q1', 1)],
    'no3': [('m2', 1), ('o1', 1)],
    'mo3': [('m2', 1), ('o1', 1)],
    '2mk3': [('m2', 2), ('k1', -1)],
    '2no3': [('m2', 2), ('o1', -1)],
    '2ms3': [('m2', 2)],
    '2mp3': [('m2', 2)],
    'nk3': [('m2', 1), ('k1', 1)],
    'mp3': [('m2', 1)],
    'so3': [('o1', 1)],
    'mk3': [('m2', 1), ('k1', 1)],
    'nso3': [('m2', 1), ('o1', -1)],
    '2mq3': [('m2', 2), ('q1', -1)],
    'sk3': [('k1', 1)],
    '2so3': [('o1', -1)],
    '3ms4': [('m2', 3)],
    'mn4': [('m2', 1), ('m2', 1)],
    'mnu4': [('m2', 1), ('m2', 1)],
    '2mls4': [('m2', 2), ('l2', 1)],
    'sn4': [('m2', 1)],
    'ml4': [('m2', 1), ('l2', 1)],
    'nk4': [('m2', 1), ('k2', 1)],
    '2smk4': [('m2', 1), ('k2', -1)],
    'ms4': [('m2', 1)],
    'mk4': [('m2', 1), ('k2', 1)],
    'sl4': [('l2', 1)],
    'sk4': [('k2', 1)],
    '2no5': [('m2', 2), ('o1', 1)],
    'mno5': [('m2', 1), ('m2', 1), ('o1', 1)],
    '2mo5': [('m2', 2), ('o1', 1)],
    '2nk5': [('m2', 2), ('k1', 1)],
    '3ms5': [('m2', 3)],
    '3mp5': [('m2', 3)],
    'mnk5': [('m2', 1), ('m2', 1), ('k1', 1)],
    'mso5': [('m2', 1), ('o1', 1)],
    '2mp5': [('m2', 2)],
    '2mk5': [('m2', 2), ('k1', 1)],
    'nsk5': [('m2', 1), ('k1', 1)],
    'msk5': [('m2', 1), ('k1', 1)],
    '3km5': [('k1', 3), ('m2', 1)],
    '2sk5': [('k1', 1)],
    '2nmls6': [('m2', 2), ('m2', 1), ('l2', 1)],
    '2nm6': [('m2', 2), ('m2', 1)],
    '2mnls6': [('m2', 2), ('m2', 1), ('l2', 1)],
    '2mn6': [('m2', 2), ('m2', 1)],
    '2mnu6': [('m2', 2), ('m2', 1)],
    '3mls6': [('m2', 3), ('l2', 1)],
    'msn6': [('m2', 1), ('m2', 1)],
    '2ml6': [('m2', 2), ('l2', 1)],
    'mnk6': [('m2', 1), ('m2', 1), ('k2', 1)],
    '2mt6': [('m2', 2)],
    '2ms6': [('m2', 2)],
    '2mr6': [('m2', 2)],
    '2mk6': [('m2', 2), ('k2', 1)],
    '2sn6': [('m2', 1)],
    'msl6': [('m2', 1), ('l2', 1)],
    'snk6': [('m2', 1), ('k2', 1)],
    '2sm6': [('m2', 1)],
    'msk6': [('m2', 1), ('k2', 1)],
    '2sk6': [('k2', 1)],
    '2mno7': [('m2', 2), ('m2', 1), ('o1', 1)],
    '3mo7': [('m2', 3), ('o1', 1)],
    '2nmk7': [('m2', 2), ('m2', 1), ('k1', 1)],
    '3mp7': [('m2', 3)],
    '2mso7': [('m2', 2), ('o1', 1)],
    '3mk7': [('m2', 3), ('k1', 1)],
    '2msk7': [('m2', 2), ('k1', 1)],
    'msko7': [('m2', 1), ('k2', 1), ('o1', 1)],
    '2(mn)8': [('m2', 2), ('m2', 2)],
    '3mn8': [('m2', 3), ('m2', 1)],
    '3mnu8': [('m2', 3), ('m2', 1)],
    '2msn8': [('m2', 2), ('m2', 1)],
    '3ml8': [('m2', 3), ('l2', 1)],
    '2mnk8': [('m2', 2), ('m2', 1), ('k2', 1)],
    '3ms8': [('m2', 3)],
    '3mk8': [('m2', 3), ('k2', 1)],
    '2msl8': [('m2', 2), ('l2', 1)],
    'msnk8': [('m2', 1), ('m2', 1), ('k2', 1)],
    '2(ms)8': [('m2', 2)],
    '2msk8': [('m2', 2), ('k2', 1)],
    '2(mn)k9': [('m2', 2), ('m2', 2), ('k1', 1)],
    '2m2nk9': [('m2', 2), ('m2', 2), ('k1', 1)],
    '3mnk9': [('m2', 3), ('m2', 1), ('k1', 1)],
    '4mk9': [('m2', 4), ('k1', 1)],
    '3msk9': [('m2', 3), ('k1', 1)],
    '4mn10': [('m2', 4), ('m2', 1)],
    '3msn10': [('m2', 3), ('m2', 1)],
    '4ms10': [('m2', 4)],
    '3msl10': [('m2', 3), ('l2', 1)],
    '3m2s10': [('m2', 3)],
    '4msk11': [('m2', 4), ('k1', 1)],
    '5mn12': [('m2', 5), ('m2', 1)],
    '4msn12': [('m2', 4), ('m2', 1)],
    '4mns12': [('m2', 4), ('m2', 1)],
    '5ms12': [('m2', 5)],
    '4msl12': [('m2', 4), ('l2', 1)],
    '4m2s12': [('m2', 4)],
    '5msn14': [('m2', 5), ('m2', 1)],
    '6ms14': [('m2', 6)],
}
NODAL_COMPOUND.update({
    'o2': [('o1', 2)], 'o3': [('o1', 3)], '2k2': [('k1', 2)], 'k3': [('k1', 1), ('k2', 1)],
    'n4': [('m2', 2)], 'm4': [('m2', 2)], 'm6': [('m2', 3)], '2mn8': [('m2', 4)], 'ma8': [('m2', 4)],
    'm8': [('m2', 4)], 'm10': [('m2', 5)], 'm12': [('m2', 6)], 'm14': [('m2', 7)],
})


def coefficients(c, corrections='OTIS'):
    """(7,) multipliers of a constituent"""
    if c == 's1' and corrections in OTIS_TYPES:
        return np.array([1, 1, -1, 0, 0, 0, 1], dtype=float)
    if c in BASE:
        return np.array(BASE[c], dtype=float)
    return sum(k*np.array(BASE[q] if q in BASE else coefficients(q, 'GOT'), dtype=float) for q, k in COMPOUND[c])


ALL = list(BASE) + list(COMPOUND)


def longitudes(MJD, corrections):
    """s, h, p, n, pp in degrees"""
    MJD = np.asarray(MJD, dtype=float)
    if corrections in OTIS_TYPES:
        T = MJD - 51544.4993
        s = 218.3164 + 13.17639648*T
        h = 280.4661 + 0.98564736*T
        p = 83.3535 + 0.11140353*T
        n = 125.0445 - 0.05295377*T
        pp = 282.8 + 0.0*T
    else:
        # Meeus (1998) / Simon et al. (1994) as used in Ray's ASTRO5
        T = (MJD - 51544.5)/36525.0
        s = 218.3164477 + 481267.88123421*T - 1.5786e-3*T**2 + T**3/538841.0 - T**4/65194000.0
        D = 297.8501921 + 445267.1114034*T - 1.8819e-3*T**2 + T**3/545868.0 - T**4/113065000.0
        h = s - D
        p = 83.3532465 + 4069.0137287*T - 1.032e-2*T**2 - T**3/80053.0 + T**4/18999000.0
        n = 125.04452 - 1934.136261*T + 2.0708e-3*T**2 + T**3/450000.0
        pp = 282.94 + 1.7192*T
    return s, h, p, n, pp


def fundamental(MJD, corrections, deltat=0.0):
    MJD = np.atleast_1d(np.asarray(MJD, dtype=float))
    s, h, p, n, pp = longitudes(MJD + deltat, corrections)
    tau = 360.0*np.mod(MJD, 1.0) - s + h
    return np.stack([tau, s, h, p, n, pp, 90.0 + 0.0*s], axis=1)


def G(MJD, constituents, corrections, deltat=0.0):
    A = fundamental(MJD, corrections, deltat)
    return A @ np.array([coefficients(c, corrections) for c in constituents]).T


def wrap180(x):
    return np.mod(np.asarray(x) + 180.0, 360.0) - 180.0


def wrap_pi(x):
    return np.mod(np.asarray(x) + np.pi, 2*np.pi) - np.pi


# linear constituents that share the expansion of a major constituent
LIKE = {c: 'm2' for c in ('2n2', 'mu2', 'n2', 'nu2', 'lambda2', 'ms4', 'eps2', '2sm6', '2sn6', 'mp1', 'mp3', 'sn4')}
LIKE.update(so3='o1', op2='o1', sk3='k1', sk4='k2', kp1='k2', sl4='l2', ups1='oo1')
LIKE['2sk5'] = 'k1'
LIKE['2sk6'] = 'k2'


def fes_terms(n, p):
    d = np.pi/180
    I = np.arccos(0.913694997 - 0.035692561*np.cos(n*d))
    a1 = np.arctan2(1.01883*np.sin(n*d/2), np.cos(n*d/2))
    a2 = np.arctan2(0.64412*np.sin(n*d/2), np.cos(n*d/2))
    xi = wrap_pi(n*d - a1 - a2)
    nu = wrap_pi(a1 - a2)
    t2 = np.tan(I/2)**2
    return I, xi, nu, t2


def fes_l2(n, p, perigee):
    """f and u of L2 with `perigee` in the unit given to the trigonometric functions"""
    I, xi, nu, t2 = fes_terms(n, p)
    w = 2*(perigee - xi)
    R = np.arctan2(np.sin(w), 1/(6*t2) - np.cos(w))
    f = np.cos(I/2)**4/0.9154*np.sqrt(1 - 12*t2*np.cos(w) + 36*t2**2)
    return f, 2*xi - 2*nu - R


def poly(pairs):
    t1, t2 = pairs
    return np.hypot(t1, t2), np.arctan2(t1, t2)


def linear(c, n, p, corrections, M1='perth5', perth3_like=False):
    """f, u (radians) of a linear constituent; None when it has no correction"""
    n = np.asarray(n, dtype=float); p = np.asarray(p, dtype=float)
    d = np.pi/180
    def S(k, a=n): return np.sin(k*a*d)
    def K(k, a=n): return np.cos(k*a*d)
    otis, fes, perth3 = corrections in OTIS_TYPES, corrections == 'FES', corrections == 'perth3'
    zero, one = 0*n, 1 + 0*n
    if fes:
        I, xi, nu, t2 = fes_terms(n, p)
        o1 = np.sin(I)*np.cos(I/2)**2/0.38
        j1 = np.sin(2*I)/0.7214
        m2 = np.cos(I/2)**4/0.9154
        mf = np.sin(I)**2/0.1578
        if c in ('mm', 'msm'):
            f = (2/3 - np.sin(I)**2)/0.5021
            return np.abs(f), np.where(f < 0, np.pi, 0.0)
        if c in ('mf', 'msqm', 'msp', 'mq', 'mt', 'mtm'): return mf, -2*xi
        if c == 'msf': return one, 2*xi - 2*nu
        if c in ('o1', '2q1', 'q1', 'rho1', 'sigma1'): return o1, 2*xi - nu
        if c in ('chi1', 'theta1', 'j1'): return j1, -nu
        if c == 'k1':
            f = np.sqrt(0.8965*np.sin(2*I)**2 + 0.6001*np.sin(2*I)*np.cos(nu) + 0.1006)
            return f, -np.arctan2(np.sin(2*I)*np.sin(nu), np.sin(2*I)*np.cos(nu) + 0.3347)
        if c == 'oo1': return np.sin(I)*np.sin(I/2)**2/0.01640, -2*xi - nu
        if c == 'm2': return m2, 2*xi - 2*nu
        if c == 'l2': return fes_l2(n, p, p*d)
        if c == 'k2':
            f = np.sqrt(19.0444*np.sin(I)**4 + 2.7702*np.sin(I)**2*np.cos(2*nu) + 0.0981)
            return f, -np.arctan2(np.sin(I)**2*np.sin(2*nu), np.sin(I)**2*np.cos(2*nu) + 0.0727)
        if c in ('eta2', 'zeta2'): return np.sin(I)**2/0.1565, -2*nu
        if c == 'm3': return np.cos(I/2)**6/0.8758, 3*xi - 3*nu
        if c in ('p1', 's2'): return one, zero
    if otis:
        if c in ('msf', 'tau1', 'p1', 'theta1', 'lambda2', 's2'): return one, zero
        if c in ('mm', 'msm'): return 1 - 0.130*K(1), zero
        if c in ('mf', 'msqm', 'msp', 'mq', 'mtm'):
            return 1.043 + 0.414*K(1), d*(-23.7*S(1) + 2.7*S(2) - 0.4*S(3))
        if c == 'mt': return poly((-0.203*S(1) - 0.040*S(2), 1 + 0.203*K(1) + 0.040*K(2)))
        if c == 'o1':
            f, _ = poly((0.189*S(1) - 0.0058*S(2), 1 + 0.189*K(1) - 0.0058*K(2)))
            return f, d*(10.8*S(1) - 1.3*S(2) + 0.2*S(3))
        if c in ('2q1', 'q1', 'rho1', 'sigma1'):
            return np.hypot(1 + 0.188*K(1), 0.188*S(1)), np.arctan2(0.189*S(1), 1 + 0.189*K(1))
        if c == 'chi1': return poly((-0.221*S(1), 1 + 0.221*K(1)))
        if c == 'k1': return poly((-0.1554*S(1) + 0.0029*S(2), 1 + 0.1158*K(1) - 0.0029*K(2)))
        if c == 'oo1': return poly((-0.640*S(1) - 0.134*S(2), 1 + 0.640*K(1) + 0.134*K(2)))
        if c == 'l2':
            return poly((-0.25*S(2, p) - 0.11*S(1, 2*p - n) - 0.04*S(1), 1 - 0.25*K(2, p) - 0.11*K(1, 2*p - n) - 0.04*K(1)))
        if c == 'k2': return poly((-0.3108*S(1) - 0.0324*S(2), 1 + 0.2852*K(1) + 0.0324*K(2)))
    if perth3 and not perth3_like:
        if c in ('p1', 's2'): return one, zero
        if c in ('q1', 'o1'): return 1.009 + 0.187*K(1) - 0.015*K(2), d*(10.8*S(1) - 1.3*S(2))
        if c == 'k1': return 1.006 + 0.115*K(1) - 0.009*K(2), d*(-8.9*S(1) + 0.7*S(2))
        if c in ('m2', 'n2'): return 1.000 - 0.037*K(1), d*(-2.1*S(1))
        if c == 'k2': return 1.024 + 0.286*K(1) + 0.008*K(2), d*(-17.7*S(1) + 0.7*S(2))
    # common expansions (Ray)
    if c in ('mm', 'msm'):
        return poly((-0.0534*S(2, p) - 0.0219*S(1, 2*p - n), 1 - 0.1308*K(1) - 0.0534*K(2, p) - 0.0219*K(1, 2*p - n)))
    if c in ('mf', 'msqm', 'msp', 'mq'):
        return poly((-0.04324*S(2, p) - 0.41465*S(1) - 0.03873*S(2), 1 + 0.04324*K(2, p) + 0.41465*K(1) + 0.03873*K(2)))
    if c in ('mt', 'mtm'):
        return poly((-0.018*S(2, p) - 0.4145*S(1) - 0.040*S(2), 1 + 0.018*K(2, p) + 0.4145*K(1) + 0.040*K(2)))
    if c == 'msf': return poly((0.137*S(1), one))
    if c == 'mst':
        return poly((-0.380*S(2, p) - 0.413*S(1) - 0.037*S(2), 1 + 0.380*K(2, p) + 0.413*K(1) + 0.037*K(2)))
    if c == 'o1':
        return poly((0.1886*S(1) - 0.0058*S(2) - 0.0065*S(2, p), 1 + 0.1886*K(1) - 0.0058*K(2) - 0.0065*K(2, p)))
    if c in ('2q1', 'q1', 'rho1', 'sigma1'): return poly((0.1886*S(1), 1 + 0.1886*K(1)))
    if c == 'tau1': return poly((0.219*S(1), 1 - 0.219*K(1)))
    if c == 'beta1': return poly((0.226*S(1), 1 + 0.226*K(1)))
    if c == 'm1':
        if M1 == 'Doodson': return poly((S(1, p) + 0.2*S(1, p - n), 2*K(1, p) + 0.4*K(1, p - n)))
        if M1 == 'Ray': return poly((0.64*S(1, p) + 0.135*S(1, p - n), 1.36*K(1, p) + 0.267*K(1, p - n)))
        return poly((-0.2294*S(1) - 0.3594*S(2, p) - 0.0664*S(1, 2*p - n),
                     1 + 0.1722*K(1) + 0.3594*K(2, p) + 0.0664*K(1, 2*p - n)))
    if c == 'chi1': return poly((-0.250*S(1), 1 + 0.193*K(1)))
    if c == 'p1': return poly((-0.0112*S(1), 1 - 0.0112*K(1)))
    if c == 'k1': return poly((-0.1554*S(1) + 0.0031*S(2), 1 + 0.1158*K(1) - 0.0028*K(2)))
    if c in ('j1', 'theta1'): return poly((-0.227*S(1), 1 + 0.169*K(1)))
    if c == 'oo1':
        return poly((-0.640*S(1) - 0.134*S(2) - 0.150*S(2, p), 1 + 0.640*K(1) + 0.134*K(2) + 0.150*K(2, p)))
    if c == 'm2': return poly((-0.03731*S(1) + 0.00052*S(2), 1 - 0.03731*K(1) + 0.00052*K(2)))
    if c == 'l2':
        return poly((-0.25*S(2, p) - 0.11*S(1, 2*p - n) - 0.037*S(1), 1 - 0.25*K(2, p) - 0.11*K(1, 2*p - n) - 0.037*K(1)))
    if c == 'l2b': return poly((0.441*S(1), 1 + 0.441*K(1)))
    if c == 'k2': return poly((-0.3108*S(1) - 0.0324*S(2), 1 + 0.2853*K(1) + 0.0324*K(2)))
    if c == 'gamma2': return poly((0.147*S(2, n - p), 1 + 0.147*K(2, n - p)))
    if c == 'delta2':
        return poly((0.505*S(2, p) + 0.505*S(1) - 0.165*S(2), 1 - 0.505*K(2, p) - 0.505*K(1) + 0.165*K(2)))
    if c in ('eta2', 'zeta2'): return poly((-0.436*S(1), 1 + 0.436*K(1)))
    if c == 's2': return poly((0.00225*S(1), 1 + 0.00225*K(1)))
    if c == "m1'": return poly((-0.01815*S(1), 1 - 0.27837*K(1)))
    if c == "q1'":
        return poly((0.3915*S(1) + 0.033*S(2) + 0.061*S(2, p), 1 + 0.3915*K(1) + 0.033*K(2) + 0.06*K(2, p)))
    if c == "j1'": return poly((-0.438*S(1) - 0.033*S(2), 1 + 0.372*K(1) + 0.033*K(2)))
    if c == "2n2'": return poly((0.166*S(1), 1 + 0.166*K(1)))
    if c == "n2'":
        return poly((0.1705*S(1) - 0.0035*S(2) - 0.0176*S(2, p), 1 + 0.1705*K(1) - 0.0035*K(2) - 0.0176*K(2, p)))
    if c == "l2'": return poly((-0.2495*S(1), 1 + 0.1315*K(1)))
    if c in ('m3', 'e3'): return poly((-0.05644*S(1), 1 - 0.05644*K(1)))
    if c in ('j3', 'f3'): return poly((-0.464*S(1) - 0.052*S(2), 1 + 0.387*K(1) + 0.052*K(2)))
    if c == 'l3': return poly((-0.373*S(2, p) - 0.164*S(1, 2*p - n), 1 - 0.373*K(2, p) - 0.164*K(1, 2*p - n)))
    return None


def nodal(c, n, p, corrections, M1='perth5', perth3_like=False):
    """f, u of any supported constituent"""
    if c in LIKE:
        if corrections in OTIS_TYPES and c == 'lambda2':
            return linear(c, n, p, corrections, M1)
        return linear(LIKE[c], n, p, corrections, M1, perth3_like)
    r = linear(c, n, p, corrections, M1, perth3_like)
    if r is not None:
        return r
    f, u = 1 + 0*np.asarray(n, dtype=float), 0*np.asarray(n, dtype=float)
    for q, k in NODAL_COMPOUND.get(c, []):
        fq, uq = nodal(q, n, p, corrections, M1)
        f, u = f*fq**abs(k), u + k*uq
    return f, u


MINORS = ['2q1', 'sigma1', 'rho1', 'm1b', 'm1a', 'chi1', 'pi1', 'phi1', 'theta1', 'j1', 'oo1',
          '2n2', 'mu2', 'nu2', 'lambda2', 'l2a', 'l2b', 't2', 'eps2', 'eta2']


def minor_nodal(c, n, p, corrections):
    """f, u used when inferring the 20 minor constituents"""
    n = np.asarray(n, dtype=float)
    d = np.pi/180
    def S(k): return np.sin(k*n*d)
    def K(k): return np.cos(k*n*d)
    if corrections == 'FES':
        I, xi, nu, t2 = fes_terms(n, p)
        if c in ('2q1', 'sigma1', 'rho1', 'm1b'): return linear('o1', n, p, 'FES')
        if c in ('m1a', 'chi1', 'j1'): return linear('j1', n, p, 'FES')
        if c == 'oo1': return linear('oo1', n, p, 'FES')
        if c in ('2n2', 'mu2', 'nu2', 'lambda2', 'eps2'): return linear('m2', n, p, 'FES')
        if c == 'l2a': return linear('l2', n, p, 'FES')
        if c == 'eta2': return linear('eta2', n, p, 'FES')
    if corrections == 'GOT':
        if c == 'eps2': return poly((-0.0373*S(1), 1 - 0.0373*K(1)))
        if c == 'eta2': return poly((-0.436*S(1), 1 + 0.436*K(1)))
    if c in ('2q1', 'sigma1', 'rho1'): return poly((0.189*S(1) - 0.0058*S(2), 1 + 0.189*K(1) - 0.0058*K(2)))
    if c == 'm1b': return poly((0.185*S(1), 1 + 0.185*K(1)))
    if c == 'm1a': return poly((-0.201*S(1), 1 + 0.201*K(1)))
    if c == 'chi1': return poly((-0.221*S(1), 1 + 0.221*K(1)))
    if c == 'j1': return poly((-0.198*S(1), 1 + 0.198*K(1)))
    if c == 'oo1': return poly((-0.640*S(1) - 0.134*S(2), 1 + 0.640*K(1) + 0.134*K(2)))
    if c in ('2n2', 'mu2', 'nu2', 'l2a'): return poly((-0.0373*S(1), 1 - 0.0373*K(1)))
    if c == 'l2b': return poly((-0.441*S(1), 1 + 0.441*K(1)))
    return 1 + 0*n, 0*n
