"""Reading flashes into tables for gridding (glmtools.io.mimic_lma)."""
import numpy as np
import pkg_resources
from lmatools.grid.fixed import get_GOESR_coordsys

ML = 'glmtools.io.mimic_lma:'
SE = 'glmtools.grid.split_events:'
CL = 'glmtools.grid.clipping:'


@ref('glmtools.io.mimic_lma:sec_since_basedate')
def ref_sec(t64, basedate):
    return np.divide(t64 - np.datetime64(basedate), np.timedelta64(1, 's'))


@ob('C24', 'C19')
def seconds_since():
    observe('seconds', F(ML + 'sec_since_basedate')(arr('t'), sym('base')))


# ------------------------------------------------------------------- tables

EV = [('flash_id', '<i4'), ('alt', '<f4'), ('lat', '<f4'), ('lon', '<f4'), ('time', '<f8'), ('mesh_frac', '<f8'),
      ('mesh_xi', '<i4'), ('mesh_yi', '<i4'), ('power', '<f4')]
FL = [('area', '<f4'), ('total_energy', '<f4'), ('specific_energy', '<f4'), ('ctr_lat', '<f4'), ('ctr_lon', '<f4'),
      ('ctr_alt', '<f4'), ('start', '<f8'), ('duration', '<f4'), ('init_lat', '<f4'), ('init_lon', '<f4'),
      ('init_alt', '<f4'), ('flash_id', '<i4'), ('n_points', '<i2')]
FX = [('area', '<f4'), ('total_energy', '<f4'), ('start', '<f8'), ('duration', '<f4'), ('ctr_x', '<f4'), ('ctr_y', '<f4'),
      ('ctr_z', '<f4'), ('flash_id', '<i4'), ('n_points', '<i2')]
LUT = [('flash_id', '<i4'), ('x', '<f4'), ('y', '<f4'), ('time', '<f8'), ('mesh_frac', '<f8'), ('mesh_xi', '<i4'),
       ('mesh_yi', '<i4'), ('power', '<f4'), ('lutevent_count', 'f4'), ('lutevent_flash_count', 'f4'),
       ('lutevent_group_count', 'f4'), ('lutevent_total_flash_area', 'f4'), ('lutevent_total_group_area', 'f4'),
       ('lutevent_min_flash_area', 'f4')]


def secs(t, base):
    return F(ML + 'sec_since_basedate')(t, base)


def child_rows(d, split, lev, base, time, parent):
    """rows of the spatial parts of each entity of one level"""
    if split is None:
        t = np.zeros_like(d.event_id.data, dtype=EV)
        t['flash_id'] = d[parent].data
        t['lat'] = d.event_lat
        t['lon'] = d.event_lon
        t['time'] = secs(d.event_time_offset.data, base)
        t['power'] = d.event_energy
    else:
        p = 'split_' + lev + '_'
        t = np.empty_like(split[p + 'lon'].data, dtype=EV)
        t['flash_id'] = split[p + 'parent_' + lev + '_id'].data
        t['lat'] = split[p + 'lat']
        t['lon'] = split[p + 'lon']
        t['time'] = secs(split[p + time].data, base)
        t['power'] = split[p + 'energy']
        t['mesh_frac'] = np.abs(split[p + 'mesh_area_fraction'].data)
        t['mesh_xi'] = split[p + 'mesh_x_idx'].data
        t['mesh_yi'] = split[p + 'mesh_y_idx'].data
    t['alt'] = 0.0
    return t


def parent_rows(d, lev, base, t0, t1, dtype, area=True):
    p = lev + '_'
    t = np.empty_like(d[p + 'id'].data, dtype=dtype)
    t['area'] = d[p + 'area'].data if area else 0.0
    t['total_energy'] = d[p + 'energy'].data
    t['start'] = secs(d[p + t0].data, base)
    t['duration'] = secs(d[p + t1].data, base) - secs(d[p + t0].data, base)
    t['flash_id'] = d[p + 'id'].data
    t['n_points'] = d.number_of_events.shape[0]
    return t


def lonlat_parent(d, lev, base, t0, t1, area=True):
    t = parent_rows(d, lev, base, t0, t1, FL, area)
    for c in ('ctr', 'init'):
        t[c + '_lon'] = d[lev + '_lon'].data
        t[c + '_lat'] = d[lev + '_lat'].data
        t[c + '_alt'] = 0.0
    t['specific_energy'] = 0.0
    return t


def xy_parent(d, lev, base, t0, t1):
    t = parent_rows(d, lev, base, t0, t1, FX)
    t['ctr_x'] = d[lev + '_x'].data
    t['ctr_y'] = d[lev + '_y'].data
    t['ctr_z'] = 0.0
    return t


@ref('glmtools.io.mimic_lma:_fake_lma_from_glm_flashes')
def ref_fl(flash_data, basedate, split_events=None, split_groups=None, split_flashes=None):
    a, b = 'time_offset_of_first_event', 'time_offset_of_last_event'
    if flash_data.flash_id.shape[0] == 0:
        return empty_rows(flash_data, split_events, split_flashes, 'flash')
    return child_rows(flash_data, split_flashes, 'flash', basedate, a, 'event_parent_flash_id'), lonlat_parent(flash_data, 'flash', basedate, a, b)


def empty_rows(d, split_events, split, lev):
    f = np.empty_like(d[lev + '_id'].data, dtype=FL)
    if split_events is not None:
        return np.empty_like(split['split_' + lev + '_lon'].data, dtype=EV), f
    return np.zeros_like(d.event_id.data, dtype=EV), f


@ref('glmtools.io.mimic_lma:_fake_lma_from_glm_groups')
def ref_gr(flash_data, basedate, split_events=None, split_groups=None, split_flashes=None):
    a = 'time_offset'
    if flash_data.group_id.shape[0] == 0:
        return empty_rows(flash_data, split_events, split_groups, 'group')
    return child_rows(flash_data, split_groups, 'group', basedate, a, 'event_parent_group_id'), lonlat_parent(flash_data, 'group', basedate, a, a)


@ref('glmtools.io.mimic_lma:_fake_lma_from_glm_events')
def ref_ev(flash_data, basedate, split_events=None, split_groups=None, split_flashes=None):
    a = 'time_offset'
    if flash_data.event_id.shape[0] == 0:
        return empty_rows(flash_data, split_events, split_events, 'event')
    return child_rows(flash_data, split_events, 'event', basedate, a, 'event_id'), lonlat_parent(flash_data, 'event', basedate, a, a, area=False)


@ref('glmtools.io.mimic_lma:_fake_lma_from_glm_lutflashes')
def ref_lfl(flash_data, basedate):
    if flash_data.flash_id.shape[0] == 0:
        return np.empty_like(flash_data.flash_id.data, dtype=FX)
    return xy_parent(flash_data, 'flash', basedate, 'time_offset_of_first_event', 'time_offset_of_last_event')


@ref('glmtools.io.mimic_lma:_fake_lma_from_glm_lutgroups')
def ref_lgr(flash_data, basedate):
    if flash_data.group_id.shape[0] == 0:
        return np.empty_like(flash_data.group_id.data, dtype=FX)
    return xy_parent(flash_data, 'group', basedate, 'time_offset', 'time_offset')


@ref('glmtools.io.mimic_lma:_fake_lma_events_from_split_glm_lutevents')
def ref_lev(split_events, basedate):
    s = split_events
    s['split_event_mesh_area_fraction'] = np.fabs(s.split_event_mesh_area_fraction)
    s['xyidx'] = s.split_event_mesh_y_idx * (s.split_event_mesh_x_idx.data.max() + 1) + s.split_event_mesh_x_idx
    lo = s[['split_event_parent_event_id', 'split_lutevent_time_offset', 'split_event_mesh_x_idx', 'split_event_mesh_y_idx',
            'split_lutevent_min_flash_area', 'xyidx']].to_dataframe().groupby('xyidx').min()
    av = s[['split_event_x', 'split_event_y', 'xyidx']].to_dataframe().groupby('xyidx').mean()
    to = s[['split_lutevent_energy', 'split_event_mesh_area_fraction', 'split_lutevent_count', 'split_lutevent_group_count',
            'split_lutevent_flash_count', 'split_lutevent_total_flash_area', 'split_lutevent_total_group_area',
            'xyidx']].to_dataframe().groupby('xyidx').sum()
    t = np.empty_like(av.split_event_x, dtype=LUT)
    if t.shape[0] == 0:
        return t
    t['flash_id'] = lo.split_event_parent_event_id
    t['x'] = av.split_event_x
    t['y'] = av.split_event_y
    t['time'] = secs(lo.split_lutevent_time_offset, basedate)
    t['power'] = to.split_lutevent_energy
    t['mesh_frac'] = to.split_event_mesh_area_fraction
    t['mesh_xi'] = lo.split_event_mesh_x_idx
    t['mesh_yi'] = lo.split_event_mesh_y_idx
    for n in ('count', 'flash_count', 'group_count', 'total_flash_area', 'total_group_area'):
        t['lutevent_' + n] = to['split_lutevent_' + n]
    t['lutevent_min_flash_area'] = lo.split_lutevent_min_flash_area
    return t


@ref('glmtools.io.mimic_lma:mimic_lma_dataset_lut')
def ref_mlut(flash_data, basedate, split_events=None):
    e = F(ML + '_fake_lma_events_from_split_glm_lutevents')(split_events, basedate)
    return {'flash': (e, F(ML + '_fake_lma_from_glm_lutflashes')(flash_data, basedate)),
            'group': (e, F(ML + '_fake_lma_from_glm_lutgroups')(flash_data, basedate)),
            'event': (e, e)}


@ref('glmtools.io.mimic_lma:mimic_lma_dataset')
def ref_mlma(flash_data, basedate, split_events=None, split_groups=None, split_flashes=None):
    r = {}
    for k, n in (('flash', 'flashes'), ('group', 'groups'), ('event', 'events')):
        r[k] = F(ML + '_fake_lma_from_glm_' + n)(flash_data, basedate, split_events=split_events, split_groups=split_groups,
                                                 split_flashes=split_flashes)
    return r


def cols(label, t, dtype):
    for c in dtype:
        observe(label + ' ' + c[0], t[c[0]])
        observe(label + ' ' + c[0] + ' fits', storage(t, c[0], c[1]))


@ob('C24')
def tables_unsplit():
    d = ds('d')
    for n in ('flash_id', 'group_id', 'event_id'):
        assume(d[n].shape[0] > 0)
    r = F(ML + 'mimic_lma_dataset')(d, sym('base'))
    for k in ('flash', 'group', 'event'):
        cols(k + ' part', r[k][0], EV)
        cols(k + ' entity', r[k][1], FL)


@ob('C24', 'C13')
def tables_split():
    d = ds('d')
    for n in ('flash_id', 'group_id', 'event_id'):
        assume(d[n].shape[0] > 0)
    r = F(ML + 'mimic_lma_dataset')(d, sym('base'), split_events=ds('se'), split_groups=ds('sg'), split_flashes=ds('sf'))
    for k in ('flash', 'group', 'event'):
        cols(k + ' part', r[k][0], EV)
        cols(k + ' entity', r[k][1], FL)


@ob('C24', 'C12')
def tables_lut():
    d = ds('d')
    r = F(ML + 'mimic_lma_dataset_lut')(d, sym('base'), split_events=ds('se'))
    for k in ('flash', 'group', 'event'):
        cols(k + ' part', r[k][0], LUT)
    assume(d['flash_id'].shape[0] > 0)
    assume(d['group_id'].shape[0] > 0)
    r = F(ML + 'mimic_lma_dataset_lut')(ds('d'), sym('base'), split_events=ds('se'))
    cols('flash entity', r['flash'][1], FX)
    cols('group entity', r['group'][1], FX)
    cols('event entity', r['event'][1], LUT)


@ob('C11')
def fragment_cells():
    e = F(ML + '_fake_lma_events_from_split_glm_lutevents')(ds('se'), sym('base'))
    for n in ('mesh_xi', 'mesh_yi', 'power', 'lutevent_min_flash_area'):
        observe(n, e[n])


@ob('C24')
def tables_empty():
    d = ds('d')
    for n in ('flash_id', 'group_id', 'event_id'):
        assume(d[n].shape[0] == 0)
    plain = F(ML + 'mimic_lma_dataset')(d, sym('base'))
    split = F(ML + 'mimic_lma_dataset')(d, sym('base'), split_events=ds('se'), split_groups=ds('sg'), split_flashes=ds('sf'))
    lut = F(ML + 'mimic_lma_dataset_lut')(d, sym('base'), split_events=ds('se'))
    for k in ('flash', 'group', 'event'):
        observe('plain ' + k, (plain[k][0].shape, plain[k][1].shape))
        observe('split ' + k, (split[k][0].shape, split[k][1].shape))
        observe('lut ' + k, (lut[k][0].shape, lut[k][1].shape))


# ------------------------------------------------------------------- chunks

FRAC, MESH = 'split_event_area_fraction', 'split_event_mesh_area_fraction'


@ref('glmtools.io.mimic_lma:replicate_and_weight_split_child_dataset_new')
def ref_new(parent_data, split_child_dataset, parent_id='lutevent_id', split_child_parent_id='split_event_parent_event_id',
            names=['lutevent_id', 'lutevent_energy', 'lutevent_time_offset', 'lutevent_count', 'lutevent_flash_count',
                   'lutevent_group_count', 'lutevent_total_flash_area', 'lutevent_total_group_area', 'lutevent_min_flash_area'],
            weights={'lutevent_energy': FRAC, 'lutevent_count': MESH, 'lutevent_flash_count': MESH, 'lutevent_group_count': MESH,
                     'lutevent_total_flash_area': MESH, 'lutevent_total_group_area': MESH}):
    ids = split_child_dataset[split_child_parent_id]
    rows = parent_data.loc[{parent_id: ids}]
    for n in names:
        v = rows[n].data
        if n in weights:
            v = v * split_child_dataset[weights[n]].data
        split_child_dataset['split_' + n] = (ids.dims, v)
    return split_child_dataset


@ob('C12')
def weight_lut():
    f = F(ML + 'replicate_and_weight_split_child_dataset_new')
    r = f(ds('parent'), ds('split'))
    for n in ('lutevent_id', 'lutevent_energy', 'lutevent_time_offset', 'lutevent_count', 'lutevent_flash_count',
              'lutevent_group_count', 'lutevent_total_flash_area', 'lutevent_total_group_area', 'lutevent_min_flash_area'):
        observe(n, r['split_' + n])
    r = f(ds('parent'), ds('split'), parent_id='p', split_child_parent_id='c', names=['a', 'b'], weights={'b': 'w'})
    observe('given names', (r['split_a'], r['split_b']))


MICRO = 1.0e-6


def corners(pickle):
    x, y, c = F('glmtools.io.ccd:load_pixel_corner_lookup')(pickle)
    return x * MICRO, y * MICRO, c * MICRO


def send_all(tables, target):
    if target is None:
        return tables
    if tables['flash'][0].shape[0] >= 1:
        for k in ('flash', 'group', 'event'):
            target[k].send((tables[k][0], tables[k][1]))


@ref('glmtools.io.mimic_lma:fast_fixed_grid_read_chunk')
def ref_fast(flash_data, target=None, base_date=None, nadir_lon=None, clip_events=True, corner_pickle=None):
    d = F('glmtools.io.glm:get_lutevents')(flash_data)
    x, y, c = corners(corner_pickle)
    polys = F('glmtools.io.ccd:quads_from_corner_lookup')(x, y, c, d.lutevent_x, d.lutevent_y)
    slicer = F(CL + 'QuadMeshPolySlicer')(clip_events)
    parts, areas = slicer.slice(polys, bbox=True)
    p, props = F(SE + 'split_event_data')(parts, areas, slicer, event_ids=d.lutevent_id.data)
    split = F(SE + 'split_event_dataset_from_props')(props, centroid_names=('split_event_x', 'split_event_y'))
    split = F(ML + 'replicate_and_weight_split_child_dataset_new')(d, split)
    return send_all(F(ML + 'mimic_lma_dataset_lut')(d, base_date, split_events=split), target)


def union(polys, ids):
    by = dict(((k, []) for k in np.unique(ids)))
    for p, i in zip(polys, ids):
        by[i].append(p)
    out, who = [], []
    for k, v in by.items():
        j = F(CL + 'join_polys')(v)
        out.extend(j)
        who.extend([k] * len(j))
    return out, who


def place(d, lev, fixed, geo, lla):
    if fixed:
        x, y = d['split_' + lev + '_x'].data, d['split_' + lev + '_y'].data
        lon, lat, alt = lla.fromECEF(*geo.toECEF(x, y, np.zeros_like(x)))
        dims = d['split_' + lev + '_parent_' + lev + '_id'].dims
        d['split_' + lev + '_lon'] = (dims, lon)
        d['split_' + lev + '_lat'] = (dims, lat)


def cut(polys, ids, lev, fixed, slicer, geo, lla):
    parts, areas = slicer.slice(polys, bbox=True)
    p, props = F(SE + 'split_event_data')(parts, areas, slicer, event_ids=ids)
    f = F(SE + 'split_' + lev + '_dataset_from_props')
    if fixed:
        d = f(props, centroid_names=('split_' + lev + '_x', 'split_' + lev + '_y'))
    else:
        d = f(props)
    place(d, lev, fixed, geo, lla)
    return d


@ref('glmtools.io.mimic_lma:read_flash_chunk')
def ref_chunk(flash_data, glm=None, target=None, base_date=None, nadir_lon=None, fixed_grid=False, clip_events=True,
              corner_pickle=None):
    geo, lla = get_GOESR_coordsys(sat_lon_nadir=nadir_lon)
    d = flash_data
    se, sg, sf = None, None, None
    if clip_events:
        q = F('glmtools.io.ccd:quads_from_corner_lookup')
        if fixed_grid:
            x, y, c = corners(corner_pickle)
            polys = q(x, y, c, d.event_x.data, d.event_y.data)
            wide = q(x, y, c, d.event_x.data, d.event_y.data, inflate=1.02)
        else:
            x, y, c = F('glmtools.io.ccd:load_pixel_corner_lookup')(corner_pickle)
            polys = q(x, y, c, d.event_lon.data, d.event_lat.data, nadir_lon=nadir_lon)
            wide = q(x, y, c, d.event_lon.data, d.event_lat.data, nadir_lon=nadir_lon, inflate=1.02)
        slicer = F(CL + 'QuadMeshPolySlicer')(clip_events)
        w = F(SE + 'replicate_and_weight_split_child_dataset')
        se = w(glm, cut(polys, d.event_id.data, 'event', fixed_grid, slicer, geo, lla))
        u, who = union(wide, d.event_parent_group_id.data)
        sg = w(glm, cut(u, who, 'group', fixed_grid, slicer, geo, lla), parent_id='group_id',
               split_child_parent_id='split_group_parent_group_id', names=['group_time_offset', 'group_area', 'group_energy'],
               weights={'group_energy': 'split_group_area_fraction', 'group_area': 'split_group_area_fraction'})
        u, who = union(wide, d.event_parent_flash_id.data)
        sf = w(glm, cut(u, who, 'flash', fixed_grid, slicer, geo, lla), parent_id='flash_id',
               split_child_parent_id='split_flash_parent_flash_id',
               names=['flash_time_offset_of_first_event', 'flash_time_offset_of_last_event', 'flash_area', 'flash_energy'],
               weights={'flash_energy': 'split_flash_area_fraction', 'flash_area': 'split_flash_area_fraction'})
    t = F(ML + 'mimic_lma_dataset')(d, base_date, split_events=se, split_groups=sg, split_flashes=sf)
    return send_all(t, target)


@ob('C13', 'C12', 'C22', 'C23',
    opaque=['glmtools.io.glm:get_lutevents', 'glmtools.io.ccd:load_pixel_corner_lookup', 'glmtools.io.ccd:quads_from_corner_lookup',
            'glmtools.grid.clipping:QuadMeshPolySlicer.slice', 'glmtools.grid.split_events:split_event_data',
            'glmtools.grid.split_events:split_event_dataset_from_props', 'glmtools.io.mimic_lma:mimic_lma_dataset_lut'],
    ret={'glmtools.io.ccd:load_pixel_corner_lookup': 3, 'glmtools.grid.clipping:QuadMeshPolySlicer.slice': 2,
         'glmtools.grid.split_events:split_event_data': 2, 'glmtools.grid.split_events:split_event_dataset_from_props': 'ds',
         'glmtools.io.glm:get_lutevents': 'ds', 'glmtools.io.mimic_lma:mimic_lma_dataset_lut': 'levels'})
def chunk_lut():
    f = F(ML + 'fast_fixed_grid_read_chunk')
    observe('returned', f(ds('d'), base_date=sym('base'), nadir_lon=num('nadir'), clip_events=obj('mesh'), corner_pickle=strsym('lut')))
    t = {'flash': eff('tflash'), 'group': eff('tgroup'), 'event': eff('tevent')}
    observe('none', f(ds('d'), target=t, base_date=sym('base'), nadir_lon=num('nadir'), clip_events=obj('mesh'),
                      corner_pickle=strsym('lut')))
    observe('sent', events())


@ob('C13', 'C12', 'C22', 'C23',
    opaque=['glmtools.io.ccd:load_pixel_corner_lookup', 'glmtools.io.ccd:quads_from_corner_lookup', 'glmtools.grid.clipping:join_polys',
            'glmtools.grid.clipping:QuadMeshPolySlicer.slice', 'glmtools.grid.split_events:split_event_data',
            'glmtools.io.mimic_lma:mimic_lma_dataset'],
    ret={'glmtools.io.ccd:load_pixel_corner_lookup': 3, 'glmtools.grid.clipping:QuadMeshPolySlicer.slice': 2,
         'glmtools.grid.split_events:split_event_data': 2, 'glmtools.io.mimic_lma:mimic_lma_dataset': 'levels'})
def chunk_full():
    f = F(ML + 'read_flash_chunk')
    observe('fixed', f(ds('d'), glm=obj('glm'), base_date=sym('base'), nadir_lon=num('nadir'), fixed_grid=True, clip_events=obj('mesh'),
                       corner_pickle=strsym('lut')))
    observe('lonlat', f(ds('d'), glm=obj('glm'), base_date=sym('base'), nadir_lon=num('nadir'), fixed_grid=False,
                        clip_events=obj('mesh'), corner_pickle=strsym('lut')))


@ob('C22', 'C23', opaque=['glmtools.io.mimic_lma:mimic_lma_dataset'], ret={'glmtools.io.mimic_lma:mimic_lma_dataset': 'levels'})
def chunk_unsplit():
    f = F(ML + 'read_flash_chunk')
    observe('points', f(ds('d'), glm=obj('glm'), base_date=sym('base'), nadir_lon=num('nadir'), clip_events=False))
    t = {'flash': eff('tflash'), 'group': eff('tgroup'), 'event': eff('tevent')}
    observe('none', f(ds('d'), glm=obj('glm'), target=t, base_date=sym('base'), nadir_lon=num('nadir'), clip_events=False))
    observe('sent', events())


# --------------------------------------------------------------- whole files

@ref('glmtools.io.mimic_lma:read_flashes')
def ref_read(glm, target, base_date=None, lon_range=None, lat_range=None, x_range=None, y_range=None, min_events=None, min_groups=None,
             clip_events=True, fixed_grid=False, nadir_lon=None, chunk_size=20000, corner_pickle=None):
    if corner_pickle is None:
        corner_pickle = pkg_resources.resource_filename('glmtools.io.mimic_lma', 'G16_corner_lut_fixedgrid.pickle')
    every = ((lon_range is None) and (lat_range is None) and (x_range is None) and (y_range is None) and (min_events is None)
             and (min_groups is None))
    if every:
        d = glm.dataset
    else:
        d = glm.subset_flashes(x_range=x_range, y_range=y_range, lon_range=lon_range, lat_range=lat_range, min_events=min_events,
                               min_groups=min_groups)
    ids = d.flash_id.data[:]
    chunks = []
    for c in np.array_split(ids, max(int(ids.shape[0] / chunk_size), 1)):
        if d.number_of_flashes.shape[0] > 0:
            chunks.append(glm.get_flashes(c))
    out = []
    for c in chunks:
        if clip_events:
            r = F(ML + 'fast_fixed_grid_read_chunk')(c, target=target, base_date=base_date, nadir_lon=nadir_lon,
                                                     clip_events=clip_events, corner_pickle=corner_pickle)
        else:
            r = F(ML + 'read_flash_chunk')(c, glm=glm, target=target, base_date=base_date, nadir_lon=nadir_lon,
                                           fixed_grid=fixed_grid, clip_events=clip_events, corner_pickle=corner_pickle)
        out.append(r)
    return out


@ob('C23', 'C22', opaque=['glmtools.io.mimic_lma:fast_fixed_grid_read_chunk', 'glmtools.io.mimic_lma:read_flash_chunk'])
def read_all():
    f = F(ML + 'read_flashes')
    observe('everything', f(obj('glm'), obj('target'), base_date=sym('base'), clip_events=obj('mesh'), nadir_lon=num('nadir'),
                            corner_pickle=strsym('lut'), fixed_grid=True))
    observe('built in table', f(obj('glm'), obj('target'), clip_events=obj('mesh')))
    observe('points', f(obj('glm'), obj('target'), base_date=sym('base'), clip_events=False, fixed_grid=boolsym('fixed'),
                        nadir_lon=num('nadir'), corner_pickle=strsym('lut'), chunk_size=len(obj('chunk'))))


@ob('C22', 'C05', 'C23', opaque=['glmtools.io.mimic_lma:fast_fixed_grid_read_chunk', 'glmtools.io.mimic_lma:read_flash_chunk'])
def read_selected():
    f = F(ML + 'read_flashes')
    lo, la, x, y = obj('lon_range'), obj('lat_range'), obj('x_range'), obj('y_range')
    observe('all', f(obj('glm'), obj('target'), lon_range=lo, lat_range=la, x_range=x, y_range=y, min_events=intsym('me'),
                     min_groups=intsym('mg'), clip_events=False))
    observe('lon', f(obj('glm'), obj('target'), lon_range=lo, clip_events=False))
    observe('lat', f(obj('glm'), obj('target'), lat_range=la, clip_events=False))
    observe('x', f(obj('glm'), obj('target'), x_range=x, clip_events=False))
    observe('y', f(obj('glm'), obj('target'), y_range=y, clip_events=False))
    observe('events', f(obj('glm'), obj('target'), min_events=intsym('me'), clip_events=False))
    observe('groups', f(obj('glm'), obj('target'), min_groups=intsym('mg'), clip_events=False))


# ----------------------------------------------- collections and time series

@ref('glmtools.io.mimic_lma:GLMncCollection._table_times_for_file')
def ref_times(self, fname):
    g = F('glmtools.io.glm:GLMDataset')(fname, calculate_parent_child=False)
    t = g.dataset.product_time.data.astype('M8[s]').astype('O')
    self._time_lookup[t] = (fname, None)
    yield t


@ref('glmtools.io.mimic_lma:GLMncCollection.data_for_time')
def ref_data(self, t0):
    fname, table = self._time_lookup[t0]
    chunks = F(ML + 'read_flashes')(F('glmtools.io.glm:GLMDataset')(fname), None, base_date=self.base_date, min_events=self.min_points,
                                    min_groups=self.min_groups, lon_range=self.lon_range, lat_range=self.lat_range,
                                    clip_events=False)
    return np.hstack([c['flash'][0] for c in chunks]), np.hstack([c['flash'][1] for c in chunks])


@ref('glmtools.io.mimic_lma:TimeSeriesGLMPolygonFlashSubset.gen_chopped_events_flashes')
def ref_chop(self, *args, **kwargs):
    parent = super(F(ML + 'TimeSeriesGLMPolygonFlashSubset'), self)
    for ev, fl in parent.gen_chopped_events_flashes(*args, **kwargs):
        yield [e[self.ev_lassos.filter_mask(e)] for e in ev], [f[self.fl_lassos.filter_mask(f)] for f in fl]


@ob('C34', opaque=['glmtools.io.mimic_lma:read_flashes', 'glmtools.io.glm:GLMDataset'])
def collection_data():
    c = inst(ML + 'GLMncCollection', _time_lookup={'t': (strsym('fname'), None)}, base_date=sym('base'), min_points=intsym('me'),
             min_groups=intsym('mg'), lon_range=obj('lons'), lat_range=obj('lats'))
    observe('tables', c.data_for_time('t'))


@ob('C34', opaque=['glmtools.io.glm:GLMDataset'])
def collection_times():
    look = {}
    c = inst(ML + 'GLMncCollection', _time_lookup=look)
    observe('times', list(c._table_times_for_file(strsym('fname'))))
    observe('lookup', look)


@ref('glmtools.io.mimic_lma:GLMncCollection.__init__')
def ref_coll(self, *args, **kwargs):
    self.min_groups = kwargs.pop('min_groups', None)
    self.lat_range = kwargs.pop('lat_range', None)
    self.lon_range = kwargs.pop('lon_range', None)
    super().__init__(*args, **kwargs)


@ob('C34')
def collection_options():
    c = F(ML + 'GLMncCollection')(arr('files'), base_date=sym('base'), min_points=intsym('me'), min_groups=intsym('mg'),
                                  lat_range=obj('lats'), lon_range=obj('lons'))
    observe('filters', (c.min_groups, c.lat_range, c.lon_range))
    observe('base', c.base_date)
    c = F(ML + 'GLMncCollection')(arr('files'))
    observe('no filters', (c.min_groups, c.lat_range, c.lon_range))
    c = F(ML + 'GLMncCollection')(arr('files'), lat_range=obj('lats'))
    observe('latitudes only', (c.min_groups, c.lat_range, c.lon_range))
    c = F(ML + 'GLMncCollection')(arr('files'), lon_range=obj('lons'))
    observe('longitudes only', (c.min_groups, c.lat_range, c.lon_range))
    c = F(ML + 'GLMncCollection')(arr('files'), min_groups=intsym('mg'))
    observe('groups only', (c.min_groups, c.lat_range, c.lon_range))


@ref('glmtools.io.mimic_lma:TimeSeriesGLMFlashSubset.__init__')
def ref_series(self, glm_filenames, t_start, t_end, dt, base_date=None, min_events=None, min_groups=None, lon_range=None,
               lat_range=None):
    super().__init__(t_start, t_end, dt, base_date=base_date)
    self.lma = F(ML + 'GLMncCollection')(glm_filenames, base_date=self.base_date, min_points=min_events, min_groups=min_groups,
                                         lat_range=lat_range, lon_range=lon_range)


@ref('glmtools.io.mimic_lma:TimeSeriesGLMPolygonFlashSubset.__init__')
def ref_poly(self, *args, **kwargs):
    self.polys = kwargs.pop('polys', [])
    self.t_edges_polys = kwargs.pop('t_edges_polys', [])
    super().__init__(*args, **kwargs)
    from lmatools.lasso.energy_stats import TimeSeriesPolygonLassoFilter
    for n, xy, t in (('fl', ('init_lon', 'init_lat'), 'start'), ('ev', ('lon', 'lat'), 'time'), ('grid', ('lon', 'lat'), 't')):
        f = TimeSeriesPolygonLassoFilter(coord_names=xy, time_key=t, time_edges=self.t_edges_polys, polys=self.polys,
                                         basedate=self.base_date)
        setattr(self, n + '_lassos', f)


@ob('C34')
def series_options():
    s = F(ML + 'TimeSeriesGLMFlashSubset')(arr('files'), num('t0'), num('t1'), num('dt'), base_date=sym('base'), min_events=intsym('me'),
                                           min_groups=intsym('mg'), lon_range=obj('lons'), lat_range=obj('lats'))
    observe('window', s.t_start)
    observe('filters', (s.lma.min_groups, s.lma.lat_range, s.lma.lon_range))
    observe('base', s.lma.base_date)
    s = F(ML + 'TimeSeriesGLMFlashSubset')(arr('files'), num('t0'), num('t1'), num('dt'), lat_range=obj('lats'))
    observe('latitudes only', (s.lma.min_groups, s.lma.lat_range, s.lma.lon_range))
    s = F(ML + 'TimeSeriesGLMFlashSubset')(arr('files'), num('t0'), num('t1'), num('dt'), lon_range=obj('lons'))
    observe('longitudes only', (s.lma.min_groups, s.lma.lat_range, s.lma.lon_range))
    s = F(ML + 'TimeSeriesGLMFlashSubset')(arr('files'), num('t0'), num('t1'), num('dt'))
    observe('no filters', (s.lma.min_groups, s.lma.lat_range, s.lma.lon_range))


@ob('C34')
def lasso_options():
    s = F(ML + 'TimeSeriesGLMPolygonFlashSubset')(arr('files'), num('t0'), num('t1'), num('dt'), base_date=sym('base'), polys=obj('polys'),
                                                  t_edges_polys=obj('edges'), min_events=intsym('me'))
    observe('flash', s.fl_lassos)
    observe('event', s.ev_lassos)
    observe('grid', s.grid_lassos)
    s = F(ML + 'TimeSeriesGLMPolygonFlashSubset')(arr('files'), num('t0'), num('t1'), num('dt'))
    observe('none given', (s.polys, s.t_edges_polys))


@ob('C34')
def lasso_chop():
    c = inst(ML + 'TimeSeriesGLMPolygonFlashSubset', ev_lassos=obj('evl'), fl_lassos=obj('fll'))
    observe('series', list(c.gen_chopped_events_flashes(sym('a'))))
