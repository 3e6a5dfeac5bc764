"""Imagery files: their metadata, packing, orientation and times, and the
aggregation and stacking of frames."""
import os
import itertools
from datetime import datetime, timedelta
import numpy as np
import xarray as xr
import pandas as pd

IM = 'glmtools.io.imagery:'


@ref('glmtools.io.imagery:get_goes_imager_subpoint_vars')
def ref_subpoint(nadir_lon):
    lat = xr.DataArray(0.0, name='nominal_satellite_subpoint_lat',
                       attrs={'long_name': 'nominal satellite subpoint latitude (platform latitude)', 'standard_name': 'latitude',
                              'units': 'degrees_north'})
    lat.encoding = {'_FillValue': -999.0}
    lon = xr.DataArray(nadir_lon, name='nominal_satellite_subpoint_lon',
                       attrs={'long_name': 'nominal satellite subpoint longitude (platform longitude)', 'standard_name': 'longitude',
                              'units': 'degrees_east'})
    lon.encoding = {'_FillValue': -999.0}
    return lon, lat


@ref('glmtools.io.imagery:get_goes_imager_proj')
def ref_proj(nadir_lon):
    v = xr.DataArray(-2147483647, name='goes_imager_projection', attrs={
        'long_name': 'GOES-R ABI fixed grid projection', 'grid_mapping_name': 'geostationary', 'perspective_point_height': 35786023.,
        'semi_major_axis': 6378137., 'semi_minor_axis': 6356752.31414, 'inverse_flattening': 298.2572221,
        'latitude_of_projection_origin': 0.0, 'longitude_of_projection_origin': nadir_lon, 'sweep_angle_axis': 'x'})
    v.encoding = {'dtype': 'i4'}
    return v


@ref('glmtools.io.imagery:get_goes_imager_all_valid_dqf')
def ref_dqf(dims, n):
    v = xr.DataArray(np.zeros(n, dtype='u1'), dims=dims, name='DQF', attrs={
        'grid_mapping': 'goes_imager_projection', 'number_of_qf_values': np.asarray(6, dtype='i4'), 'units': '1',
        'standard_name': 'status_flag', 'long_name': 'GLM data quality flags', 'flag_values': np.asarray((0, 1), dtype='i4'),
        'flag_meanings': 'valid, invalid'})
    v.encoding = {'_FillValue': np.asarray(255, dtype='u1'), '_Unsigned': 'true', 'dtype': 'i1', 'zlib': True}
    return v


@ref('glmtools.io.imagery:get_goes_imager_fixedgrid_coords')
def ref_coords(x, y, resolution='2km at nadir', scene_id='FULL', fill=-999.0):
    xc = xr.DataArray(x, name='x', dims=('x',), attrs={
        'axis': 'X', 'long_name': 'GOES fixed grid projection x-coordinate', 'standard_name': 'projection_x_coordinate', 'units': 'rad'})
    xc.encoding = {'dtype': 'int16', 'scale_factor': 0.000056, 'add_offset': -0.151844, '_FillValue': -999.0}
    yc = xr.DataArray(y, name='y', dims=('y',), attrs={
        'axis': 'Y', 'long_name': 'GOES fixed grid projection y-coordinate', 'standard_name': 'projection_y_coordinate', 'units': 'rad'})
    yc.encoding = {'dtype': 'int16', 'scale_factor': -0.000056, 'add_offset': 0.151844, '_FillValue': -999.0}
    return xc, yc


SCENES = {'FULL': ('F', 'Full Disk'), 'CONUS': ('C', 'CONUS'), 'MESO1': ('M1', 'Mesoscale'), 'MESO2': ('M2', 'Mesoscale'), 'OTHER': ('M1', 'Custom')}


@ref('glmtools.io.imagery:get_glm_global_attrs')
def ref_attrs(start, end, platform, slot, instrument, scene_id, resolution, timeline, prod_env, prod_src, prod_site):
    created = datetime.utcnow()
    stamp = '%Y%j%H%M%S0'
    code, scene = SCENES[scene_id]
    name = 'OR_GLM-L2-GLM' + code + '-' + {'ABI Mode 3': 'M3'}[timeline] + '_' + '{0}'.format(platform) + '_s' + start.strftime(stamp) + \
        '_e' + end.strftime(stamp) + '_c' + created.strftime(stamp) + '.nc'
    return {
        'cdm_data_type': 'Image', 'Conventions': 'CF-1.7', 'id': '93cb84a3-31ef-4823-89f5-c09d88fc89e8',
        'institution': 'DOC/NOAA/NESDIS > U.S. Department of Commerce, National Oceanic and Atmospheric Administration, National Environmental Satellite, Data, and Information Services',
        'instrument_type': 'GOES R Series Geostationary Lightning Mapper', 'iso_series_metadata_id': 'f5816f53-fd6d-11e3-a3ac-0800200c9a66',
        'keywords': 'ATMOSPHERE > ATMOSPHERIC ELECTRICITY > LIGHTNING, ATMOSPHERE > ATMOSPHERIC PHENOMENA > LIGHTNING',
        'keywords_vocabulary': 'NASA Global Change Master Directory (GCMD) Earth Science Keywords, Version 7.0.0.0.0',
        'license': 'Unclassified data.  Access is restricted to approved users only.',
        'Metadata_Conventions': 'Unidata Dataset Discovery v1.0', 'naming_authority': 'gov.nesdis.noaa',
        'processing_level': 'National Aeronautics and Space Administration (NASA) L2', 'project': 'GOES',
        'standard_name_vocabulary': 'CF Standard Name Table (v25, 05 July 2013)',
        'summary': 'The Lightning Detection Gridded product generates fields starting from the GLM Lightning Detection Events, Groups, Flashes product.  It consists of flash extent density, event density, average flash area, average group area, total energy, flash centroid density, and group centroid density.',
        'title': 'GLM L2 Lightning Detection Gridded Product',
        'dataset_name': name, 'date_created': created.isoformat() + 'Z', 'instrument_ID': instrument, 'orbital_slot': slot,
        'platform_ID': platform, 'production_data_source': prod_src, 'production_environment': prod_env, 'production_site': prod_site,
        'scene_id': scene, 'spatial_resolution': resolution, 'time_coverage_end': end.isoformat() + 'Z',
        'time_coverage_start': start.isoformat() + 'Z', 'timeline_id': timeline}


def parts(tag, v):
    observe(tag + ' values', values_of(v.data))
    observe(tag + ' attributes', v.attrs)
    observe(tag + ' encoding', v.encoding)
    observe(tag + ' name', v.name)


@ob('C33')
def fixed_metadata():
    lon, lat = F(IM + 'get_goes_imager_subpoint_vars')(num('nadir'))
    parts('subpoint longitude', lon)
    parts('subpoint latitude', lat)
    parts('projection', F(IM + 'get_goes_imager_proj')(num('nadir')))
    d = F(IM + 'get_goes_imager_all_valid_dqf')(('y', 'x'), (intsym('ny'), intsym('nx')))
    parts('quality', d)
    observe('quality dims', d.dims)
    x, y = F(IM + 'get_goes_imager_fixedgrid_coords')(arr('xs'), arr('ys'))
    parts('x by default', x)
    parts('y by default', y)
    for s in ('FULL', 'OTHER'):
        x, y = F(IM + 'get_goes_imager_fixedgrid_coords')(arr('xs'), arr('ys'), scene_id=s)
        parts('x ' + s, x)
        parts('y ' + s, y)
        observe('dims ' + s, (x.dims, y.dims))


NAMES = ('dataset_name', 'date_created', 'instrument_ID', 'orbital_slot', 'platform_ID', 'production_data_source',
         'production_environment', 'production_site', 'scene_id', 'spatial_resolution', 'time_coverage_end', 'time_coverage_start',
         'timeline_id')


@ob('C33')
def global_metadata():
    for s in ('FULL', 'CONUS', 'MESO1', 'MESO2', 'OTHER'):
        a = F(IM + 'get_glm_global_attrs')(obj('start'), obj('end'), strsym('platform'), strsym('slot'), strsym('instrument'), s, strsym('res'),
                                           'ABI Mode 3', strsym('env'), strsym('src'), strsym('site'))
        for k in NAMES:
            observe(s + ' ' + k, a[k])
        if s == 'FULL':
            observe('all', a)


# -------------------------------------------------------------------- packing

# step of each product when it is packed into 16 bits
STEPS = {'flash_extent_density': 1 / 16, 'flash_centroid_density': 1.0, 'average_flash_area': 10.0, 'minimum_flash_area': 10.0,
         'event_density': 0.25, 'group_extent_density': 0.25, 'group_centroid_density': 1.0, 'average_group_area': 1.0,
         'total_energy': 1.52597e-6}


@ref('glmtools.io.imagery:glm_image_to_var')
def ref_var(data, name, long_name, units, dims, fill=0.0, scale_factor=None, add_offset=None, dtype=None):
    enc = {'_FillValue': fill, 'zlib': True}
    if dtype is not None:
        if dtype[0] == 'u':
            enc['_Unsigned'] = 'true'
            enc['dtype'] = dtype[1:]
        else:
            enc['dtype'] = dtype
        if scale_factor is not None:
            enc['scale_factor'] = scale_factor
            least = scale_factor if add_offset is None else scale_factor + add_offset
            data[(data > 0.0) & (data <= least)] = least
        if add_offset is not None:
            enc['add_offset'] = add_offset
    d = xr.DataArray(data, dims=dims, name=name, attrs={'standard_name': name, 'long_name': long_name, 'units': units,
                                                        'grid_mapping': 'goes_imager_projection'})
    d.encoding = enc
    return d


def packed(tag, d):
    parts(tag, d)
    observe(tag + ' dims', d.dims)


@ob('C16', 'C18', 'C33')
def packing():
    f = F(IM + 'glm_image_to_var')
    a = (strsym('name'), strsym('long'), strsym('units'), ('y', 'x'))
    packed('plain', f(arr('p'), *a))
    packed('unsigned', f(arr('u'), *a, scale_factor=num('step'), add_offset=num('base'), dtype='uint16'))
    packed('signed', f(arr('s'), *a, scale_factor=num('step'), add_offset=num('base'), dtype='int16'))
    packed('step only', f(arr('o'), *a, scale_factor=num('step'), dtype='uint8', fill=num('fill')))
    packed('offset only', f(arr('n'), *a, add_offset=num('base'), dtype='uint8'))
    packed('no type', f(arr('t'), *a, scale_factor=num('step'), add_offset=num('base')))


def steps(name):
    return {'dtype': 'uint16', 'scale_factor': STEPS[name], 'add_offset': 0.0}


@ob('C18')
def packing_table():
    t = table(IM + 'glm_scaling', {n: steps(n) for n in STEPS})
    for n in ('flash_extent_density', 'flash_centroid_density', 'average_flash_area', 'minimum_flash_area', 'group_extent_density',
              'group_centroid_density', 'average_group_area', 'total_energy'):
        observe(n, (t[n]['dtype'], t[n]['scale_factor'], t[n]['add_offset']))


# ------------------------------------------------------------------ assembly

@ref('glmtools.io.imagery:pairwise')
def ref_pairs(iterable):
    return [(iterable[i], iterable[i + 1]) for i in range(len(iterable) - 1)]


@ref('glmtools.io.imagery:infer_scene_from_dataset')
def ref_scene(x, y):
    from lmatools.grid.fixed import goesr_conus, goesr_meso, goesr_full, goesr_resolutions
    dx = np.abs(x[1] - x[0])
    resolution = '{:d}microradian at nadir'.format(int(np.round(dx * 1e6)))
    for km, microrad in goesr_resolutions.items():
        if np.allclose(microrad, dx, rtol=1.0e-2):
            resolution = km.replace('.0', '') + ' at nadir'
    ew = x.max() - x.min()
    ns = y.max() - y.min()

    def fits(d):
        return np.allclose(ew, d['spanEW'], rtol=1.0e-2) & np.allclose(ns, d['spanNS'], rtol=1.0e-2)
    if fits(goesr_full):
        return 'FULL', resolution
    if fits(goesr_conus):
        return 'CONUS', resolution
    if fits(goesr_meso):
        return 'MESO1', resolution
    if np.allclose(ew, 0.172732, rtol=1.0e-2):
        return 'CONUS', resolution
    return 'OTHER', resolution


@ref('glmtools.io.imagery:new_goes_imagery_dataset')
def ref_new(x, y, nadir_lon):
    scene, res = F(IM + 'infer_scene_from_dataset')(x, y)
    xc, yc = ref_coords(x, y)
    lon, lat = ref_subpoint(nadir_lon)
    d = xr.Dataset(data_vars={'goes_imager_projection': ref_proj(nadir_lon), 'DQF': ref_dqf(('y', 'x'), y.shape + x.shape),
                              'nominal_satellite_subpoint_lat': lat, 'nominal_satellite_subpoint_lon': lon},
                   coords={'x': xc, 'y': yc})
    d.x.attrs.update(xc.attrs)
    d.y.attrs.update(yc.attrs)
    return d, scene, res


@ob('C33')
def pairs_of_edges():
    observe('three', list(F(IM + 'pairwise')([num('a'), num('b'), num('c')])))
    observe('one', list(F(IM + 'pairwise')([num('a')])))


@ob('C33')
def scene():
    observe('scene', F(IM + 'infer_scene_from_dataset')(vec('x'), vec('y')))


@ob('C33', 'C17', opaque=['infer_scene_from_dataset'], ret={'infer_scene_from_dataset': 2})
def new_dataset():
    d, s, r = F(IM + 'new_goes_imagery_dataset')(vec('x'), vec('y'), num('nadir'))
    observe('scene', (s, r))
    for n in ('goes_imager_projection', 'DQF', 'nominal_satellite_subpoint_lat', 'nominal_satellite_subpoint_lon', 'x', 'y'):
        parts(n, d[n])
    observe('DQF shape', d['DQF'].data.shape)


@ref('glmtools.io.imagery:write_goes_imagery')
def ref_imagery(gridder, outpath='./{dataset_name}', pad=None, scale_and_offset=True):
    xs, ys = (slice(None, None), slice(None, None)) if pad is None else pad
    lon, lat, alt = gridder.geoProj.fromECEF(*gridder.mapProj.toECEF(0.0, 0.0, 0.0))
    x = ((gridder.xedge[:-1] + gridder.xedge[1:]) / 2.0)[xs]
    y = ((gridder.yedge[:-1] + gridder.yedge[1:]) / 2.0)[ys]
    names = []
    for ti in range(len(gridder.t_edges_seconds) - 1):
        start = gridder.t_ref + timedelta(0, gridder.t_edges_seconds[ti])
        end = gridder.t_ref + timedelta(0, gridder.t_edges_seconds[ti + 1])
        d, scene_id, res = F(IM + 'new_goes_imagery_dataset')(x, np.flipud(y), lon)
        a = gridder.first_file_attrs
        at = F(IM + 'get_glm_global_attrs')(start, end, a['platform_ID'], a['orbital_slot'], a['instrument_ID'], scene_id, res,
                                            'ABI Mode 3', 'DE', 'Postprocessed', 'TTU')
        d = d.assign_attrs(**at)
        name = outpath.format(start_time=start, end_time=end, dataset_name=d.attrs['dataset_name'])
        folder = os.path.dirname(name)
        if folder and not os.path.exists(folder):
            os.makedirs(folder)
        xa, ya, xe, ye = d.x.attrs, d.y.attrs, d.x.encoding, d.y.encoding
        for i in range(len(gridder.outgrids)):
            g = gridder.outgrids[i][xs, ys, ti].copy()
            if i in gridder.divide_grids:
                n = gridder.outgrids[gridder.divide_grids[i]][xs, ys, ti]
                none = (n == 0) | (g == 0)
                g[~none] = g[~none] / n[~none]
                g[none] = 0
            img = np.flipud(g.T)
            f = gridder.field_names[i]
            if scale_and_offset and f in STEPS:
                v = ref_var(img, f, gridder.field_descriptions[i], gridder.field_units[i], ('y', 'x'), **steps(f))
            else:
                v = ref_var(img, f, gridder.field_descriptions[i], gridder.field_units[i], ('y', 'x'))
            d[f] = v
        d.x.attrs.update(xa)
        d.y.attrs.update(ya)
        d.x.encoding.update(xe)
        d.y.encoding.update(ye)
        d.to_netcdf(name)
        names.append(name)
    return names


def source(fields, averages):
    g = obj('gridder')
    g.outgrids = tuple([arr('grid ' + f) for f in fields])
    g.field_names = tuple(fields)
    g.field_descriptions = tuple(['about ' + f for f in fields])
    g.field_units = tuple(['unit of ' + f for f in fields])
    g.outformats = tuple(['f' for f in fields])
    g.divide_grids = averages
    g.t_edges_seconds = [num('t0'), num('t1'), num('t2')]
    g.xedge = vec('xedge')
    g.yedge = vec('yedge')
    g.t_ref = sym('ref')
    g.spatial_scale_factor = num('ssf')
    g.first_file_attrs = {'platform_ID': strsym('platform'), 'orbital_slot': strsym('slot'), 'instrument_ID': strsym('instrument')}
    return g


def images(fields):
    n = 0
    for path, d in written():
        tag = 'frame %d ' % n
        observe(tag + 'path', path)
        for f in fields:
            packed(tag + f, d[f])
        observe(tag + 'x', values_of(d.x.data))
        observe(tag + 'y', values_of(d.y.data))
        n = n + 1
    observe('files', n)


@ob('C17', opaque=['new_goes_imagery_dataset', 'get_glm_global_attrs'], ret={'new_goes_imagery_dataset': 3})
def image_frames():
    fields = ['flash_extent_density', 'total_energy', 'something_else']
    observe('names', F(IM + 'write_goes_imagery')(source(fields, {}), outpath=strsym('out'), pad=(span('xs'), span('ys')), scale_and_offset=False))
    observe('folders', folders())
    images(fields)


@ob('C17', opaque=['new_goes_imagery_dataset', 'get_glm_global_attrs'], ret={'new_goes_imagery_dataset': 3})
def image_averages():
    fields = ['flash_extent_density', 'average_flash_area', 'group_extent_density', 'average_group_area']
    F(IM + 'write_goes_imagery')(source(fields, {1: 0, 3: 2}), outpath=strsym('out'), scale_and_offset=False)
    images(fields)


@ob('C17', 'C18', opaque=['new_goes_imagery_dataset', 'get_glm_global_attrs'], ret={'new_goes_imagery_dataset': 3})
def image_packing():
    fields = ['flash_extent_density', 'average_flash_area', 'something_else']
    F(IM + 'write_goes_imagery')(source(fields, {1: 0}))
    images(fields)


@ob('C17', opaque=['new_goes_imagery_dataset', 'get_glm_global_attrs'], ret={'new_goes_imagery_dataset': 3})
def image_totals_kept():
    fields = ['flash_extent_density', 'average_flash_area']
    g = source(fields, {1: 0})
    F(IM + 'write_goes_imagery')(g)
    for i in range(2):
        observe('totals of ' + fields[i], g.outgrids[i])


@ob('C17', 'C33', opaque=['infer_scene_from_dataset'], ret={'infer_scene_from_dataset': 2})
def image_metadata():
    fields = ['flash_extent_density']
    F(IM + 'write_goes_imagery')(source(fields, {}), outpath=strsym('out'), pad=(span('xs'), span('ys')))
    n = 0
    for path, d in written():
        tag = 'frame %d ' % n
        for k in NAMES:
            if k not in ('dataset_name', 'scene_id'):
                observe(tag + k, d.attrs[k])
        for v in ('x', 'y', 'goes_imager_projection', 'DQF', 'nominal_satellite_subpoint_lat', 'nominal_satellite_subpoint_lon'):
            observe(tag + v, values_of(d[v].data))
            observe(tag + v + ' attributes', d[v].attrs)
        for v in ('x', 'y'):
            observe(tag + v + ' encoding', d[v].encoding)
        n = n + 1


# ---------------------------------------------------------------- time series

SUMMED = ['flash_extent_density', 'flash_centroid_density', 'total_energy', 'group_extent_density', 'group_centroid_density']
SMALLEST = ['minimum_flash_area', 'goes_imager_projection', 'nominal_satellite_subpoint_lat', 'nominal_satellite_subpoint_lon']


@ref('glmtools.io.imagery:aggregate')
def ref_aggregate(glm, minutes, start_end=None):
    dt = timedelta(seconds=60) * minutes
    if start_end is None:
        times = glm['time'].data
        first = pd.Timestamp(times.min()).to_pydatetime()
        last = pd.Timestamp(times.max()).to_pydatetime() + dt
    else:
        first, last = start_end[0], start_end[1]
    edges = [first + dt * i for i in range(int((last - first) / dt) + 1)]
    total = glm[[v for v in SUMMED if v in glm]]
    total['total_flash_area'] = glm['average_flash_area'] * glm['flash_extent_density']
    total['total_group_area'] = glm['average_group_area'] * glm['group_extent_density']
    least = glm[[v for v in SMALLEST if v in glm]]
    out = total.groupby_bins('time', bins=edges, right=False).sum(dim='time', keep_attrs=True, skipna=True)
    small = least.groupby_bins('time', bins=edges, right=False).min(dim='time', keep_attrs=True, skipna=True)
    out['average_flash_area'] = out['total_flash_area'] / out['flash_extent_density']
    out['average_group_area'] = out['total_group_area'] / out['group_extent_density']
    for v in [v for v in SMALLEST if v in glm]:
        out[v] = small[v]
    bins = out['time_bins'].values
    out.attrs['time_coverage_start'] = min([b.left for b in bins]).isoformat()
    out.attrs['time_coverage_end'] = max([b.right for b in bins]).isoformat()
    return out


def summary(tag, a):
    for v in SUMMED + SMALLEST + ['total_flash_area', 'total_group_area', 'average_flash_area', 'average_group_area']:
        observe(tag + v, values_of(a[v].data))
    for v in SUMMED + SMALLEST:
        observe(tag + v + ' attributes', a[v].attrs)
    observe(tag + 'start', a.attrs['time_coverage_start'])
    observe(tag + 'end', a.attrs['time_coverage_end'])


NEEDED = ['flash_extent_density', 'average_flash_area', 'group_extent_density', 'average_group_area', 'time']


def series(names):
    return xr.Dataset({v: arr('frames of ' + v) for v in names})


@ob('C19')
def totals():
    g = series(NEEDED + SUMMED + SMALLEST)
    summary('whole ', F(IM + 'aggregate')(g, intsym('minutes')))
    summary('part ', F(IM + 'aggregate')(g, intsym('minutes'), start_end=(sym('from'), sym('to'))))


@ob('C19')
def totals_some():
    a = F(IM + 'aggregate')(series(NEEDED + ['total_energy', 'minimum_flash_area']), intsym('minutes'), start_end=(sym('from'), sym('to')))
    for v in NEEDED[:4] + ['total_energy', 'minimum_flash_area']:
        observe(v, values_of(a[v].data))
    for v in ('flash_centroid_density', 'goes_imager_projection', 'nominal_satellite_subpoint_lat'):
        observe('has ' + v, v in a)


@ref('glmtools.io.imagery:gen_file_times')
def ref_times(filenames, time_attr='time_coverage_start'):
    out = []
    for f in filenames:
        with xr.open_dataset(f) as d:
            out.append(pd.Timestamp(d.attrs[time_attr]).tz_localize(None))
    return out


@ref('glmtools.io.imagery:open_glm_time_series')
def ref_series(filenames, chunks=None):
    starts = list(F(IM + 'gen_file_times')(filenames))
    ends = list(F(IM + 'gen_file_times')(filenames, time_attr='time_coverage_end'))
    d = xr.open_mfdataset(filenames, concat_dim='time', chunks=chunks, combine='nested')
    d['time'] = starts
    d = d.set_index({'time': 'time'}).set_coords('time')
    d.attrs['time_coverage_start'] = pd.Timestamp(min(starts)).isoformat()
    d.attrs['time_coverage_end'] = pd.Timestamp(max(ends)).isoformat()
    return d


@ob('C20')
def file_times():
    observe('starts', list(F(IM + 'gen_file_times')([strsym('a'), strsym('b')])))
    observe('ends', list(F(IM + 'gen_file_times')([strsym('a'), strsym('b')], time_attr='time_coverage_end')))
    observe('many', list(F(IM + 'gen_file_times')(sym('files'))))


@ob('C20', opaque=['gen_file_times'])
def joined():
    d = F(IM + 'open_glm_time_series')(sym('files'), chunks=obj('chunks'))
    observe('time', d['time'])
    observe('field', d['flash_extent_density'])
    observe('start', d.attrs['time_coverage_start'])
    observe('end', d.attrs['time_coverage_end'])


@ob('C20')
def joined_files():
    d = F(IM + 'open_glm_time_series')([strsym('a'), strsym('b')])
    observe('time', d['time'])
    observe('field', d['flash_extent_density'])
    observe('start', d.attrs['time_coverage_start'])
    observe('end', d.attrs['time_coverage_end'])
