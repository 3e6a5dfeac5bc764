"""Loading, repairing, navigating and filtering of flash files."""
import numpy as np
import xarray as xr
from datetime import datetime

G_ = 'glmtools.io.glm:GLMDataset'
FGE = ['flash_id', 'group_id', 'event_id']
FGE_P = ['group_parent_flash_id', 'event_parent_group_id']


def trav(d):
    return F('glmtools.io.traversal:OneToManyTraversal')(d, FGE, FGE_P)


def consistent(d):
    t = trav(d)
    up, down = t.check_parent_child()
    bad = False
    for k, v in up.items():
        if v[1] > 0:
            bad = True
    for k, v in down.items():
        if v[1] > 0:
            bad = True
    if bad:
        childless = up['flash_id'][2]
        named = set(list(d.group_parent_flash_id.data))
        return t.reduce_to_entities('flash_id', list(named - childless))
    return d


def level_counts(t, d):
    empty = (d.dims['number_of_flashes'] == 0) | (d.dims['number_of_groups'] == 0) | (d.dims['number_of_events'] == 0)
    if empty:
        owner = []
    else:
        owner = t.replicate_parent_ids('flash_id', 'event_parent_group_id')
    d['event_parent_flash_id'] = xr.DataArray(owner, dims=['number_of_events'])
    a, b = t.count_children('flash_id', 'event_id')
    if empty:
        c = [0] * d.dims['number_of_flashes']
    else:
        g = d.groupby('event_parent_flash_id').groups
        c = [len(g[i]) if i in g else 0 for i in d['flash_id'].data]
    d['flash_child_group_count'] = xr.DataArray(a, dims=['number_of_flashes'])
    d['group_child_event_count'] = xr.DataArray(b, dims=['number_of_groups'])
    d['flash_child_event_count'] = xr.DataArray(c, dims=['number_of_flashes'])


def navigate(d, rev):
    if rev < 0:
        t = d.product_time.dt
        rev = F('glmtools.io.lightning_ellipse:ltg_ellpse_rev')(
            datetime(int(t.year), int(t.month), int(t.day), int(t.hour), int(t.minute), int(t.second)))
    nav = F('glmtools.io.lightning_ellipse:ltg_ellps_lon_lat_to_fixed_grid')
    for lev, dim in (('event', 'number_of_events'), ('group', 'number_of_groups'), ('flash', 'number_of_flashes')):
        x, y = nav(d[lev + '_lon'].data, d[lev + '_lat'].data, d.lon_field_of_view.data, rev)
        d[lev + '_x'] = xr.DataArray(x, dims=[dim])
        d[lev + '_y'] = xr.DataArray(y, dims=[dim])


TIMES = ['event_time_offset', 'group_time_offset', 'group_frame_time_offset',
         'flash_time_offset_of_first_event', 'flash_time_offset_of_last_event',
         'flash_frame_time_offset_of_first_event', 'flash_frame_time_offset_of_last_event']


def repair_times(d, filename):
    t0, t1 = d.product_time_bounds.data
    inside = (t0 >= np.datetime64('2018-10-15T00:00:00')) & (t1 <= np.datetime64('2018-11-06T00:00:00'))
    if inside & hasattr(d, 'group_frame_time_offset'):
        raw = xr.open_dataset(filename, mask_and_scale=False, decode_cf=False)
        td = xr.Dataset()
        for v in TIMES:
            a = raw[v]
            a.attrs['_Unsigned'] = 'true'
            td[v] = a
        td = xr.decode_cf(td)
        for v in TIMES:
            d[v] = td[v]
        raw.close()


def area_repair(d):
    for v in ('flash_area', 'group_area'):
        e = d[v].encoding
        big = e['add_offset'] + e['scale_factor'] * e['_FillValue']
        lost = np.isnan(d[v])
        if lost.any():
            d[v][lost] = big


def area_km2(d):
    for v in ('flash_area', 'group_area'):
        if d[v].units == 'm2':
            d[v] = d[v] / 1.0e6
            d[v].attrs['units'] = 'km2'


def energy_repair(d, fraction=0.5):
    e = d.event_energy.encoding
    step = e['add_offset'] + e['scale_factor']
    low = d.event_energy < step
    if low.any():
        d.event_energy[low] = fraction * step


def energy_nj(d):
    for v in ('flash_energy', 'group_energy', 'event_energy'):
        if d[v].units == 'J':
            d[v] = d[v] * 1.0e9
            d[v].attrs['units'] = 'nJ'
        else:
            raise ValueError('units')


@ref('glmtools.io.glm:GLMDataset.__init__')
def ref_glm(self, filename, calculate_parent_child=True, ellipse_rev=-1, check_area_units=True,
            change_energy_units=True, fix_bad_DO07_times=True, check_tree=True):
    self.entity_ids = FGE
    self.parent_ids = FGE_P
    if isinstance(filename, xr.Dataset):
        d = filename.copy(deep=True)
    else:
        d = xr.open_dataset(filename)
    if check_tree:
        d = consistent(d)
    self.dataset = d
    self.entity_id_vars = tuple(FGE)
    self.parent_id_vars = (None,) + tuple(FGE_P)
    self.fov_dim = 'number_of_field_of_view_bounds'
    self.wave_dim = 'number_of_wavelength_bounds'
    self.time_dim = 'number_of_time_bounds'
    self.gr_dim = 'number_of_groups'
    self.ev_dim = 'number_of_events'
    self.fl_dim = 'number_of_flashes'
    if calculate_parent_child:
        level_counts(trav(d), d)
        navigate(d, ellipse_rev)
    if fix_bad_DO07_times:
        repair_times(d, filename)
    if check_area_units:
        area_repair(d)
        area_km2(d)
    if change_energy_units:
        energy_repair(d)
        energy_nj(d)


@ob('C05', 'C06')
def load_units():
    g = F(G_)(ds('data'), check_tree=False, calculate_parent_child=False, fix_bad_DO07_times=False)
    for v in ('flash_energy', 'group_energy', 'event_energy', 'flash_area', 'group_area'):
        observe(v, values_of(g.dataset[v]))
        observe(v + ' units', g.dataset[v].attrs['units'])
    for v in ('flash_id', 'event_lat', 'group_lon'):
        observe(v, values_of(g.dataset[v]))


@ob('C29')
def load_keeps_input():
    d = ds('data')
    g = F(G_)(d, check_tree=False, fix_bad_DO07_times=False)
    for v in ('flash_energy', 'group_energy', 'event_energy', 'flash_area', 'group_area', 'event_lon', 'flash_id'):
        observe(v, d[v])
        observe(v + ' units', d[v].attrs['units'])
    observe('input', d)


@ob('C29')
def load_keeps_levels():
    d = ds('data')
    g = F(G_)(d, check_tree=False, calculate_parent_child=False, fix_bad_DO07_times=False)
    for v in ('flash_energy', 'group_energy', 'event_energy', 'flash_area', 'group_area'):
        observe(v, d[v])
        observe(v + ' units', d[v].attrs['units'])


@ob('C29')
def lookup_keeps_input():
    d = ds('data')
    o = F('glmtools.io.glm:get_lutevents')(d)
    observe('input', d)
    for v in ('event_energy', 'flash_area', 'group_area', 'event_x', 'event_y'):
        observe(v, d[v])


@ob('C29')
def navigation_keeps_input():
    lon, lat = arr('lon'), arr('lat')
    r = F('glmtools.io.lightning_ellipse:ltg_ellps_lon_lat_to_fixed_grid')(lon, lat, num('satlon'), num('rev'))
    observe('lon', lon)
    observe('lat', lat)


@ob('C05', 'C06')
def load_no_units():
    g = F(G_)(ds('data'), check_tree=False, calculate_parent_child=False, fix_bad_DO07_times=False,
              check_area_units=False, change_energy_units=False)
    for v in ('flash_energy', 'group_energy', 'event_energy', 'flash_area', 'group_area'):
        observe(v, values_of(g.dataset[v]))
        observe(v + ' units', g.dataset[v].attrs['units'])
    g = F(G_)(ds('data'), check_tree=False, calculate_parent_child=False, fix_bad_DO07_times=False,
              check_area_units=False)
    for v in ('flash_energy', 'group_energy', 'event_energy', 'flash_area', 'group_area'):
        observe(v + ' (energy only)', values_of(g.dataset[v]))
        observe(v + ' units (energy only)', g.dataset[v].attrs['units'])
    g = F(G_)(ds('data'), check_tree=False, calculate_parent_child=False, fix_bad_DO07_times=False,
              change_energy_units=False)
    for v in ('flash_energy', 'group_energy', 'event_energy', 'flash_area', 'group_area'):
        observe(v + ' (area only)', values_of(g.dataset[v]))
        observe(v + ' units (area only)', g.dataset[v].attrs['units'])


@ob('C30')
def load_times():
    g = F(G_)(strsym('file'), check_tree=False, calculate_parent_child=False, check_area_units=False,
              change_energy_units=False)
    for v in TIMES:
        observe(v, g.dataset[v])
    observe('event_lat', g.dataset['event_lat'])


@ob('C30')
def load_times_full():
    g = F(G_)(strsym('file'), check_tree=False, check_area_units=False, change_energy_units=False)
    for v in TIMES:
        observe(v, g.dataset[v])


@ob('C30')
def load_times_off():
    g = F(G_)(strsym('file'), check_tree=False, calculate_parent_child=False, check_area_units=False,
              change_energy_units=False, fix_bad_DO07_times=False)
    for v in TIMES:
        observe(v, g.dataset[v])


@ob('C07')
def load_navigation():
    g = F(G_)(ds('data'), check_tree=False, check_area_units=False, fix_bad_DO07_times=False,
              change_energy_units=False, ellipse_rev=num('rev'))
    for v in ('event', 'group', 'flash'):
        observe(v + ' x', g.dataset[v + '_x'])
        observe(v + ' y', g.dataset[v + '_y'])
    g = F(G_)(ds('data'), check_tree=False, check_area_units=False, fix_bad_DO07_times=False,
              change_energy_units=False)
    for v in ('event', 'group', 'flash'):
        observe(v + ' x inferred', g.dataset[v + '_x'])
        observe(v + ' y inferred', g.dataset[v + '_y'])


@ob('C02', 'C03')
def load_counts():
    g = F(G_)(ds('data'), check_tree=False, check_area_units=False, fix_bad_DO07_times=False,
              change_energy_units=False)
    for v in ('event_parent_flash_id', 'flash_child_group_count', 'group_child_event_count', 'flash_child_event_count'):
        observe(v, g.dataset[v])


@ob('C04', unordered=True)
def load_tree():
    g = F(G_)(ds('data'), calculate_parent_child=False, check_area_units=False, fix_bad_DO07_times=False,
              change_energy_units=False)
    observe('dataset', g.dataset)


# ------------------------------------------------------------------- filters

def event_ok(d, x_range, y_range):
    xr_ = (max(-0.1349, x_range[0]), min(0.1349, x_range[1]))
    yr_ = (max(-0.1349, y_range[0]), min(0.1349, y_range[1]))
    ex, ey = d.event_x.data, d.event_y.data
    ok = (ex < xr_[1]) & (ex > xr_[0]) & (ey < yr_[1]) & (ey > yr_[0])
    return np.unique(d.event_parent_flash_id.data[ok])


@ref('glmtools.io.glm:GLMDataset.subset_flashes')
def ref_subset(self, lon_range=None, lat_range=None, x_range=None, y_range=None, check_event_xy=True,
               min_events=None, min_groups=None):
    d = self.dataset
    ok = np.ones(d.flash_id.shape[0], dtype=bool)
    for r, v in ((x_range, 'flash_x'), (y_range, 'flash_y'), (lon_range, 'flash_lon'), (lat_range, 'flash_lat')):
        if r is not None:
            ok = ok & (d[v].data < r[1]) & (d[v].data > r[0])
    if min_events is not None:
        ok = ok & (d.flash_child_event_count.data >= min_events)
    if min_groups is not None:
        ok = ok & (d.flash_child_group_count.data >= min_groups)
    ids = d.flash_id.data[ok]
    if check_event_xy:
        wide = (-0.1349, 0.1349)
        good = event_ok(d, wide if x_range is None else x_range, wide if y_range is None else y_range)
        ids = list(set(ids) & set(good))
    return self.reduce_to_entities('flash_id', ids)


@ref('glmtools.io.glm:GLMDataset.get_flashes')
def ref_get_flashes(self, flash_ids):
    return self.reduce_to_entities('flash_id', flash_ids)


@ref('glmtools.io.glm:GLMDataset.fov_bounds')
def ref_fov_bounds(self):
    d = self.dataset
    return ((d.event_lon.min().data, d.event_lon.max().data), (d.event_lat.min().data, d.event_lat.max().data))


def glm():
    g = inst(G_, fl_dim='number_of_flashes', gr_dim='number_of_groups', ev_dim='number_of_events')
    F('glmtools.io.traversal:OneToManyTraversal.__init__')(g, ds('data'), FGE, FGE_P)
    return g


@ob('C09', unordered=True)
def filter_none():
    observe('all', glm().subset_flashes())
    observe('no check', glm().subset_flashes(check_event_xy=False))


@ob('C09', unordered=True)
def filter_xy():
    xr_, yr_ = (num('x0'), num('x1')), (num('y0'), num('y1'))
    observe('x', glm().subset_flashes(x_range=xr_))
    observe('y', glm().subset_flashes(y_range=yr_))
    observe('xy', glm().subset_flashes(x_range=xr_, y_range=yr_))
    observe('xy no event check', glm().subset_flashes(x_range=xr_, y_range=yr_, check_event_xy=False))


@ob('C09', unordered=True)
def filter_lonlat_counts():
    lo, la = (num('lo0'), num('lo1')), (num('la0'), num('la1'))
    observe('lon', glm().subset_flashes(lon_range=lo, check_event_xy=False))
    observe('lat', glm().subset_flashes(lat_range=la, check_event_xy=False))
    observe('positional', glm().subset_flashes(lo, la, check_event_xy=False))
    observe('events', glm().subset_flashes(min_events=intsym('n'), check_event_xy=False))
    observe('groups', glm().subset_flashes(min_groups=intsym('n'), check_event_xy=False))
    observe('all', glm().subset_flashes(lo, la, (num('x0'), num('x1')), (num('y0'), num('y1')), True, intsym('ne'), intsym('ng')))


@ob('C09', unordered=True)
def filter_end_to_end():
    observe('subset', glm().subset_flashes(check_event_xy=False, min_events=intsym('n')))


@ob('C01')
def get_flashes():
    observe('flashes', glm().get_flashes(arr('ids')))
    observe('one flash', glm().get_flashes([intsym('id')]))


@ob('C09', unordered=True)
def fov_bounds():
    observe('bounds', glm().fov_bounds)


# ------------------------------------------------- event lookup table, cell keys

@ref('glmtools.io.glm:discretize_2d_location')
def ref_discretize(x, y, scale, x_range, y_range, int_type='uint64'):
    nx = np.array((x_range[1] - x_range[0]) / scale + 1, dtype=int_type)
    ix = ((x - x_range[0]) / scale).astype(int_type)
    iy = ((y - y_range[0]) / scale).astype(int_type)
    return ix + iy * nx


@ob('C11')
def cell_keys():
    k = F('glmtools.io.glm:discretize_2d_location')(arr('x'), arr('y'), num('scale'), (num('x0'), num('x1')), (num('y0'), num('y1')))
    observe('key', k)


@ob('C11')
def cell_keys_narrow():
    k = F('glmtools.io.glm:discretize_2d_location')(arr('x'), arr('y'), num('scale'), (num('x0'), num('x1')), (num('y0'), num('y1')), int_type='uint32')
    observe('key 32', k)


@ob('C11')
def event_cells():
    o = F('glmtools.io.glm:get_lutevents')(ds('data'))
    observe('default cells', o['event_parent_lutevent_id'])
    o = F('glmtools.io.glm:get_lutevents')(ds('data'), scale_factor=num('s'), x_range=(num('x0'), num('x1')), y_range=(num('y0'), num('y1')))
    observe('chosen cells', o['event_parent_lutevent_id'])


def lut_rows(rows, key, d, fgroups, ggroups):
    fid, gid = d.event_parent_flash_id.data, d.event_parent_group_id.data
    fa, ga = d.flash_area.data, d.group_area.data
    for k, ev in rows.items():
        fs, gs = np.unique(fid[ev]), np.unique(gid[ev])
        fpos, gpos = [], []
        for i in fs:
            fpos.extend(fgroups[i])
        for i in gs:
            gpos.extend(ggroups[i])
        yield (k, d.event_x.data[ev].mean(), d.event_y.data[ev].mean(), d.event_energy.data[ev].sum(), len(ev), len(fs), len(gs),
               fa[fpos].sum(), ga[gpos].sum(), d.product_time.data, min(fa[fgroups[i]].min() for i in fs))


LUT = [('lutevent_id', 'u8'), ('lutevent_x', 'f8'), ('lutevent_y', 'f8'), ('lutevent_energy', 'f8'), ('lutevent_count', 'f4'),
       ('lutevent_flash_count', 'f4'), ('lutevent_group_count', 'f4'), ('lutevent_total_flash_area', 'f8'),
       ('lutevent_total_group_area', 'f8'), ('lutevent_time_offset', '<M8[ns]'), ('lutevent_min_flash_area', 'f8')]


@ref('glmtools.io.glm:get_lutevents')
def ref_lut(dataset, scale_factor=28e-6, event_dim='number_of_events', x_range=(-0.31, 0.31), y_range=(-0.31, 0.31)):
    d = dataset.copy()
    key = F('glmtools.io.glm:discretize_2d_location')(d.event_x.data, d.event_y.data, scale_factor, x_range, y_range)
    d['event_parent_lutevent_id'] = xr.DataArray(key, dims=[event_dim])
    if key.shape[0] == 0:
        rows, fg, gg = {}, {}, {}
    else:
        rows = d.groupby('event_parent_lutevent_id').groups
        fg, gg = d.groupby('flash_id').groups, d.groupby('group_id').groups
    t = np.fromiter(lut_rows(rows, key, d, fg, gg), dtype=LUT, count=len(rows))
    import pandas as pd
    d.update(xr.Dataset.from_dataframe(pd.DataFrame(t).set_index('lutevent_id')))
    return d


@ob('C10', 'C03')
def lut_table():
    d = ds('data')
    o = F('glmtools.io.glm:get_lutevents')(d)
    for n in ('x', 'y', 'energy', 'count', 'flash_count', 'group_count', 'total_flash_area', 'total_group_area', 'time_offset', 'min_flash_area'):
        observe(n, o['lutevent_' + n])
    observe('membership', o['event_parent_lutevent_id'])
    observe('rest', o['event_energy'])
    observe('input kept', d)


@ob('C10')
def lut_options():
    o = F('glmtools.io.glm:get_lutevents')(ds('data'), scale_factor=num('s'), x_range=(num('x0'), num('x1')), y_range=(num('y0'), num('y1')))
    observe('membership', o['event_parent_lutevent_id'])
    observe('energy', o['lutevent_energy'])


# --------------------------------------------------- file names, signed integers

@ref('glmtools.io.glm:parse_glm_filename_time')
def ref_fntime(time_str):
    from datetime import datetime, timedelta
    return datetime.strptime(time_str[1:-1], '%Y%j%H%M%S') + timedelta(0, int(time_str[-1]) / 10.0)


@ref('glmtools.io.glm:parse_glm_filename')
def ref_fn(filename):
    p = filename.replace('.nc', '').split('_')
    t = F('glmtools.io.glm:parse_glm_filename_time')
    return p[0], p[1], p[2], t(p[3]), t(p[4]), t(p[5])


@ob('C26')
def filename_times():
    observe('time', F('glmtools.io.glm:parse_glm_filename_time')(strsym('s')))


@ob('C26')
def filename_parts():
    r = F('glmtools.io.glm:parse_glm_filename')(strsym('name'))
    for i, n in enumerate(('environment', 'algorithm', 'platform', 'start', 'end', 'created')):
        observe(n, r[i])


@ob('C26', opaque=['glmtools.io.glm:parse_glm_filename_time'])
def filename_fields():
    r = F('glmtools.io.glm:parse_glm_filename')(strsym('name'))
    for i, n in enumerate(('environment', 'algorithm', 'platform', 'start', 'end', 'created')):
        observe(n, r[i])


@ref('glmtools.io.glm:fix_unsigned')
def ref_unsigned(data, is_xarray=True):
    e = data.encoding
    raw = ((data - e['add_offset']) / e['scale_factor']).data.astype(e['dtype'].str.replace('i', 'u'))
    return raw.astype('float64') * e['scale_factor'] + e['add_offset']


@ref('glmtools.io.glm:fix_event_locations')
def ref_event_loc(event_lats, event_lons, is_xarray=False):
    out = []
    for v, off in ((event_lats, -66.56), (event_lons, -156.06)):
        if is_xarray == True:
            raw = ((v - off) / 0.00203128).data.astype('int32')
        else:
            v.set_auto_scale(False)
            raw = v[:].astype('int32')
        raw = np.where(raw < 0, raw + 2 ** 16, raw)
        out.append(raw * 0.00203128 + off)
    return out[0], out[1]


@ob('C32')
def unsigned_repair():
    observe('fixed', F('glmtools.io.glm:fix_unsigned')(arr('data')))
    observe('locations', F('glmtools.io.glm:fix_event_locations')(arr('lat'), arr('lon'), is_xarray=True))


@ob('C32')
def unsigned_repair_netcdf():
    observe('locations', F('glmtools.io.glm:fix_event_locations')(eff('lat'), eff('lon')))
    observe('reads', eventset())


@ob('C32')
def unsigned_tables():
    observe('float', set(F('glmtools.io.glm:glm_unsigned_float_vars')) == set((
        'event_lat', 'event_lon', 'event_energy', 'group_area', 'group_energy', 'group_quality_flag',
        'flash_area', 'flash_energy', 'flash_quality_flag', 'yaw_flip_flag')))
