"""Navigation onto the fixed grid through the lightning ellipsoid."""
import numpy as np
from datetime import datetime

LE = 'glmtools.io.lightning_ellipse:'


@ref('glmtools.io.lightning_ellipse:ltg_ellpse_rev')
def ref_rev(date):
    return 0 if date < datetime(2018, 10, 15) else 1


def radii(rev):
    return {0: (6394140.0, 6362755.0), 1: (6392137.0, 6362755.0)}[rev]


@ref('glmtools.io.lightning_ellipse:ltg_ellps_radii')
def ref_radii(date):
    a, b = radii(ref_rev(date))
    return a, b


@ref('glmtools.io.lightning_ellipse:ltg_ellps_lon_lat_to_fixed_grid')
def ref_nav(lon, lat, sat_lon, ellipse_rev, re_grs80=6.378137e6, rp_grs80=6.35675231414e6, sat_grs80_height=35.786023e6):
    a, b = radii(ellipse_rev)
    f = (a - b) / a
    fg = (re_grs80 - rp_grs80) / re_grs80
    H = sat_grs80_height + re_grs80
    d = np.asarray(lon) - sat_lon
    d = np.where(d < -180, d + 360, d)
    d = np.where(d > 180, d - 360, d)
    lam = np.radians(d)
    phi = np.arctan((1 - fg) ** 2 * np.tan(np.radians(lat)))
    c, s = np.cos(phi), np.sin(phi)
    R = a * (1 - f) / np.sqrt(1 - f * (2 - f) * c * c)
    vx = R * c * np.cos(lam) - H
    vy = R * c * np.sin(lam)
    vz = R * s
    m = np.sqrt(vx * vx + vy * vy + vz * vz)
    alpha = np.arctan((vz / m) / (-vx / m))
    beta = -np.arcsin(-vy / m)
    return beta, alpha


@ob('C08')
def nav_arrays():
    lon, lat = arr('lon'), arr('lat')
    r = F(LE + 'ltg_ellps_lon_lat_to_fixed_grid')(lon, lat, num('satlon'), 0)
    observe('x', r[0])
    observe('y', r[1])
    observe('lon kept', lon)
    observe('lat kept', lat)
    r = F(LE + 'ltg_ellps_lon_lat_to_fixed_grid')(lon, lat, num('satlon'), 1)
    observe('x rev 1', r[0])
    observe('y rev 1', r[1])


@ob('C08')
def nav_options():
    lon, lat = arr('lon'), arr('lat')
    r = F(LE + 'ltg_ellps_lon_lat_to_fixed_grid')(lon, lat, num('satlon'), 1, re_grs80=num('re'), rp_grs80=num('rp'), sat_grs80_height=num('h'))
    observe('x', r[0])
    observe('y', r[1])


@ob('C07', 'C08')
def revision_lookup():
    d = num('date')
    observe('revision', F(LE + 'ltg_ellpse_rev')(d))
    observe('radii', F(LE + 'ltg_ellps_radii')(d))
