"""Shared helpers for checks that need calibrations, files and measured images."""
import io
import os

import numpy as np
from astropy.io import fits

import micropolarray as ml
from vf import gen


def write_fits(path, data, header=None, remarks=(), in_place=None):
    hdu = fits.PrimaryHDU(np.asarray(data))
    for k, v in (header or {}).items():
        hdu.header[k] = v
    for k, v in remarks:
        hdu.header[k] = v
    new = io.BytesIO()
    hdu.writeto(new)
    new = new.getvalue()
    if os.path.exists(path) and os.path.getsize(path) == len(new) and (in_place or in_place is None and sum(new[-2880:]) % 2 == 0):  # rewritten in place, which the folder does not show
        with open(path, "r+b") as f:
            f.write(new)
    else:
        hdu.writeto(path, overwrite=True)
    return path


def write_tensor(folder, mij, flags=None, name="M{}{}.fits", order=None, dt="f8", flag_dt="f8", whole=True):
    """a calibration folder with the 12 matrices (and flags)"""
    os.makedirs(folder, exist_ok=True)
    pairs = [(i, j) for i in range(3) for j in range(4)]
    for k in order if order is not None else range(12):
        i, j = pairs[k]
        write_fits(os.path.join(folder, name.format(i, j)), mij[i, j].astype(dt if isinstance(dt, str) else dt[k]), in_place=None if whole else True)
    if flags is not None:
        write_fits(os.path.join(folder, "fit_found_flag.fits"), flags.astype(flag_dt))
    return folder


def demodulator(folder, mij, flags=None):
    return ml.Demodulator(write_tensor(folder, mij, flags))


def m_demodulate(planes, mij):
    """I, Q, U of every superpixel: its 3x4 matrix times its four pixels, row by row"""
    return np.einsum("ijyx,jyx->iyx", np.asarray(mij, dtype=float), np.asarray(planes, dtype=float))


def read_primary(path):
    with fits.open(path) as h:
        return np.array(h[0].data), h[0].header.copy()
