"""Pixel corners, conversion of ASCII files, and plots."""
import pickle
import numpy as np
import pandas as pd
import xarray as xr
import matplotlib.pyplot as plt

CCD = 'glmtools.io.ccd:'
CV = 'glmtools.io.convert_lcfa:'


# -------------------------------------------------------------- pixel corners

def offset(where, table, pixels, extrapolate):
    from scipy.interpolate import LinearNDInterpolator, NearestNDInterpolator
    v = LinearNDInterpolator(where, table)(pixels)
    if extrapolate:
        out = np.isnan(v)
        v[out] = NearestNDInterpolator(where, table)(pixels[out])
    return v


@ref('glmtools.io.ccd:quads_from_corner_lookup')
def ref_quads(lon, lat, corner_points, pixel_lon, pixel_lat, nadir_lon=0.0, inflate=1.0, extrapolate=True):
    where = ((lon + nadir_lon).flatten(), lat.flatten())
    pixels = np.vstack((pixel_lon, pixel_lat)).T
    n = corner_points.shape[-2]
    q = np.empty((pixel_lon.shape[0], n, corner_points.shape[-1]))
    for c in range(n):
        q[:, c, 0] = pixel_lon + inflate * offset(where, corner_points[:, :, c, 0].flatten(), pixels, extrapolate)
        q[:, c, 1] = pixel_lat + inflate * offset(where, corner_points[:, :, c, 1].flatten(), pixels, extrapolate)
    return q


@ob('C27')
def corners():
    f = F(CCD + 'quads_from_corner_lookup')
    table = arr('corners').reshape((intsym('nx'), intsym('ny'), 4, 2))
    observe('inside', f(arr('lon'), arr('lat'), table, arr('px'), arr('py'), nadir_lon=num('nadir'), inflate=num('inflate'), extrapolate=False))
    observe('anywhere', f(arr('lon'), arr('lat'), table, arr('px'), arr('py'), nadir_lon=num('nadir'), inflate=num('inflate')))
    observe('by default', f(arr('lon'), arr('lat'), table, arr('px'), arr('py')))


@ref('glmtools.io.ccd:read_official_corner_lut')
def ref_lut(filename, y_grid='lat_grid', x_grid='lon_grid', x_corners=['nwlon', 'swlon', 'selon', 'nelon'],
            y_corners=['nwlat', 'swlat', 'selat', 'nelat']):
    from scipy.io import loadmat
    m = loadmat(filename)
    lat = m[y_grid]
    t = np.empty((lat.shape[0], lat.shape[1], 4, 2), dtype='f8')
    for i in range(4):
        t[:, :, i, 0] = m[x_corners[i]]
        t[:, :, i, 1] = m[y_corners[i]]
    return m[x_grid], lat, t


@ob('C27')
def corner_table():
    f = F(CCD + 'read_official_corner_lut')
    lon, lat, t = f(strsym('file'))
    observe('lon', lon)
    observe('lat', lat)
    observe('corners', t)
    lon, lat, t = f(strsym('file'), y_grid='la', x_grid='lo', x_corners=['a', 'b', 'c', 'd'], y_corners=['e', 'f', 'g', 'h'])
    observe('own lon', lon)
    observe('own lat', lat)
    observe('own corners', t)


@ref('glmtools.io.ccd:read_pixel_location_mat_file')
def ref_mat(filename, lat_var='mean_lat', lon_var='mean_lon'):
    import tables
    root = tables.open_file(filename).root
    lat = getattr(root, lat_var)[:]
    lon = getattr(root, lon_var)[:]
    return np.ma.masked_array(lon, np.isnan(lon)) - 360, np.ma.masked_array(lat, np.isnan(lat))


@ob('C27')
def pixel_file():
    observe('default', F(CCD + 'read_pixel_location_mat_file')(strsym('file')))
    observe('named', F(CCD + 'read_pixel_location_mat_file')(strsym('file'), lat_var='la', lon_var='lo'))


@ref('glmtools.io.ccd:create_pixel_lookup')
def ref_lookup(lons, lats, leaf_size=40):
    from sklearn.neighbors import KDTree
    if (type(lats) == np.ma.core.MaskedArray) | (type(lons) == np.ma.core.MaskedArray):
        good = ~(lats.mask | lons.mask)
    else:
        good = np.ones_like(lats, dtype=bool)
    X, Y = np.meshgrid(np.arange(lons.shape[0]), np.arange(lons.shape[1]))
    tree = KDTree(np.vstack((lons[good].flatten(), lats[good].flatten())).T, leaf_size=leaf_size)
    return tree, X.T[good].flatten(), Y.T[good].flatten()


@ob('C27')
def pixel_lookup():
    t, x, y = F(CCD + 'create_pixel_lookup')(arr('lons'), arr('lats'), leaf_size=intsym('leaf'))
    observe('tree', t)
    observe('x', x)
    observe('y', y)
    observe('default tree', F(CCD + 'create_pixel_lookup')(arr('lons'), arr('lats'))[0])


@ref('glmtools.io.ccd:save_pixel_corner_lookup')
def ref_save_corners(lons, lats, corners, filename=None):
    if filename:
        with open(filename, 'wb') as f:
            pickle.dump((lons, lats, corners), f)
    else:
        return pickle.dumps((lons, lats, corners))


@ref('glmtools.io.ccd:save_pixel_lookup')
def ref_save_lookup(lookup, X, Y, lons, lats, filename=None):
    if filename:
        with open(filename, 'wb') as f:
            pickle.dump((lookup, X, Y, lons, lats), f)
    else:
        return pickle.dumps((lookup, X, Y, lons, lats))


@ref('glmtools.io.ccd:load_pixel_corner_lookup', 'glmtools.io.ccd:load_pixel_lookup')
def ref_load(filename):
    with open(filename, 'rb') as f:
        return pickle.load(f)


@ob('C27')
def stored():
    observe('corner bytes', F(CCD + 'save_pixel_corner_lookup')(arr('lons'), arr('lats'), arr('corners')))
    observe('lookup bytes', F(CCD + 'save_pixel_lookup')(obj('tree'), arr('X'), arr('Y'), arr('lons'), arr('lats')))
    observe('corners', F(CCD + 'load_pixel_corner_lookup')(strsym('file')))
    observe('lookup', F(CCD + 'load_pixel_lookup')(strsym('file')))


@ob('C27')
def stored_corners():
    observe('nothing returned', F(CCD + 'save_pixel_corner_lookup')(arr('lons'), arr('lats'), arr('corners'), '/out/lut.p'))
    observe('file', events('file'))


@ob('C27')
def stored_lookup():
    observe('nothing returned', F(CCD + 'save_pixel_lookup')(obj('tree'), arr('X'), arr('Y'), arr('lons'), arr('lats'), filename='/out/lut.p'))
    observe('file', events('file'))


# ---------------------------------------------------------------- ASCII files

def after(word):
    return word.split(':')[1]


def ref_lines(filename, start):
    with open(filename, 'r') as f:
        return [line.split() for line in f if line.startswith(start)]


@ref('glmtools.io.convert_lcfa:gen_flash_data')
def ref_flashes(filename):
    return [(int(c[2][1:]), float(after(c[4])), float(after(c[6])), float(after(c[8])), float(after(c[10])), float(after(c[11])),
             float(after(c[12])), int(after(c[13]))) for c in ref_lines(filename, 'D Flash')]


@ref('glmtools.io.convert_lcfa:gen_group_data')
def ref_groups(filename):
    return [(int(c[2][1:]), float(after(c[6])), float(after(c[10])), float(after(c[12])), float(after(c[13])), float(after(c[14])),
             int(after(c[15])), int(after(c[16]))) for c in ref_lines(filename, '\tD Group')]


@ref('glmtools.io.convert_lcfa:gen_event_data')
def ref_events(filename):
    return [(int(c[1][1:]), float(after(c[4])), int(after(c[5])), int(after(c[6])), float(after(c[7])), float(after(c[8])),
             float(after(c[9])), int(after(c[10]))) for c in ref_lines(filename, '\t\tEvent')]


@ob('C25')
def ascii_rows():
    observe('flashes', list(F(CV + 'gen_flash_data')(strsym('file'))))
    observe('groups', list(F(CV + 'gen_group_data')(strsym('file'))))
    observe('events', list(F(CV + 'gen_event_data')(strsym('file'))))


FLASH = ('flash_id', 'flash_time_offset_of_first_event', 'flash_time_offset_of_last_event', 'flash_lat', 'flash_lon', 'flash_energy',
         'flash_area', 'flash_child_group_count')
GROUP = ('group_id', 'group_time_offset', 'group_lat', 'group_lon', 'group_energy', 'group_area', 'group_parent_flash_id',
         'group_child_event_count')
EVENT = ('event_id', 'event_time_offset', 'x_pixel', 'y_pixel', 'event_lat', 'event_lon', 'event_energy', 'event_parent_group_id')


@ref('glmtools.io.convert_lcfa:parse_LCFA_ASCII')
def ref_parse(filename):
    f = pd.DataFrame.from_records(F(CV + 'gen_flash_data')(filename), columns=FLASH)
    g = pd.DataFrame.from_records(F(CV + 'gen_group_data')(filename), columns=GROUP)
    e = pd.DataFrame.from_records(F(CV + 'gen_event_data')(filename), columns=EVENT)
    f.index.name = 'number_of_flashes'
    g.index.name = 'number_of_groups'
    e.index.name = 'number_of_events'
    return f, g, e


@ob('C25', opaque=['gen_flash_data', 'gen_group_data', 'gen_event_data'])
def ascii_tables():
    f, g, e = F(CV + 'parse_LCFA_ASCII')(strsym('file'))
    observe('flashes', f)
    observe('groups', g)
    observe('events', e)


COORDS = ['event_id', 'event_time_offset', 'event_lat', 'event_lon', 'event_parent_group_id', 'group_id', 'group_time_offset', 'group_lat',
          'group_lon', 'group_parent_flash_id', 'flash_id', 'flash_time_offset_of_first_event', 'flash_time_offset_of_last_event',
          'flash_lat', 'flash_lon']


@ref('glmtools.io.convert_lcfa:merge_dataframes_to_xarray')
def ref_merge(flashes, groups, events):
    return events.to_xarray().merge(groups.to_xarray()).merge(flashes.to_xarray()).set_coords(COORDS)


@ref('glmtools.io.convert_lcfa:main')
def ref_convert(infile, outfile):
    f, g, e = F(CV + 'parse_LCFA_ASCII')(infile)
    F(CV + 'merge_dataframes_to_xarray')(f, g, e).to_netcdf(outfile)


@ob('C25')
def ascii_dataset():
    observe('all', F(CV + 'merge_dataframes_to_xarray')(obj('flashes'), obj('groups'), obj('events')))


@ob('C25', opaque=['parse_LCFA_ASCII', 'merge_dataframes_to_xarray'], ret={'parse_LCFA_ASCII': 3})
def ascii_convert():
    F(CV + 'main')(strsym('in'), strsym('out'))
    observe('written', written())
