"""Gridding: what each product is accumulated from and how it is labelled,
how the target grid is divided into tiles, and where the options go."""
import itertools
import numpy as np
from lmatools.grid.density_to_files import (accumulate_points_on_grid, accumulate_energy_on_grid, point_density, extent_density,
                                            project, no_projection, flashes_to_frames, flash_count_log, extract_events_for_flashes)
from lmatools.stream.subset import broadcast
from lmatools.grid.fixed import get_GOESR_coordsys

MG = 'glmtools.grid.make_grids:'
AC = 'glmtools.grid.accumulate:'

# product: variable name, file, description, unit
PRODUCTS = [
    ('flash_extent_density', 'flash_extent.nc', 'Flash extent density', None),
    ('flash_centroid_density', 'flash_centroid.nc', 'Flash centroid density', None),
    ('average_flash_area', 'footprint.nc', 'Average flash area', 'km^2 per flash'),
    ('total_energy', 'total_energy.nc', 'Total radiant energy', 'nJ'),
    ('group_extent_density', 'group_extent.nc', 'Group extent density', None),
    ('group_centroid_density', 'group_centroid.nc', 'Group centroid density', None),
    ('average_group_area', 'group_area.nc', 'Average group area', 'km^2 per group'),
    ('minimum_flash_area', 'flash_area_min.nc', 'Minimum flash area', 'km^2'),
]


def newgrid(self):
    return np.zeros((self.xedge.shape[0] - 1, self.yedge.shape[0] - 1, self.n_frames), dtype='float32')


@ref('glmtools.grid.make_grids:GLMGridder.gridspec_locals')
def ref_locals(self):
    return (self.event_grid_area_fraction_key, self.energy_grids, self.n_frames, self.xedge, self.yedge, self.zedge,
            self.dx, self.dy, self.dz, self.xedge[0], self.yedge[0], self.zedge[0], self.mapProj, self.geoProj)


def frames(self, targets, key, **kw):
    return flashes_to_frames(self.t_edges_seconds, targets, time_key=key, time_edges_datetime=self.t_edges,
                             flash_counter=flash_count_log(self.flash_count_logfile), **kw)


@ref('glmtools.grid.make_grids:GLMGridder.group_pipeline_setup')
def ref_group(self):
    return ref_flash(self)


@ref('glmtools.grid.make_grids:GLMGridder.flash_pipeline_setup')
def ref_flash(self):
    init, ext, foot = newgrid(self), newgrid(self), newgrid(self)
    out = []
    frac = self.event_grid_area_fraction_key
    x0, y0 = self.xedge[0], self.yedge[0]
    for i in range(self.n_frames):
        a = accumulate_points_on_grid(init[:, :, i], self.xedge, self.yedge, label='init')
        b = accumulate_points_on_grid(ext[:, :, i], self.xedge, self.yedge, label='extent', grid_frac_weights=True)
        c = accumulate_points_on_grid(foot[:, :, i], self.xedge, self.yedge, label='footprint', grid_frac_weights=True)
        t1 = point_density(a)
        t2 = extent_density(x0, y0, self.dx, self.dy, b, event_grid_area_fraction_key=frac)
        t3 = extent_density(x0, y0, self.dx, self.dy, c, weight_key='area', event_grid_area_fraction_key=frac)
        out.append(extract_events_for_flashes(broadcast((
            project('init_lon', 'init_lat', 'init_alt', self.mapProj, self.geoProj, t1, use_flashes=True),
            project('lon', 'lat', 'alt', self.mapProj, self.geoProj, t2, use_flashes=False),
            project('lon', 'lat', 'alt', self.mapProj, self.geoProj, t3, use_flashes=False)))))
    return (init, ext, foot), frames(self, out, 'start')


@ref('glmtools.grid.make_grids:GLMGridder.event_pipeline_setup')
def ref_event(self):
    g = newgrid(self)
    out = []
    for i in range(self.n_frames):
        a = accumulate_energy_on_grid(g[:, :, i], self.xedge, self.yedge, label='total_energy', grid_frac_weights=False)
        t = point_density(a, weight_key='power', weight_flashes=False)
        out.append(extract_events_for_flashes(broadcast((
            project('lon', 'lat', 'alt', self.mapProj, self.geoProj, t, use_flashes=False),))))
    return (g,), frames(self, out, 'start')


def summed(g, name):
    return F(AC + 'select_dataset')(F(AC + 'accumulate_var_on_grid_direct_idx')(g, name, 'mesh_xi', 'mesh_yi'), use_event_data=True)


def smallest(g, name):
    return F(AC + 'select_dataset')(F(AC + 'accumulate_minvar_on_grid_direct_idx')(g, name, 'mesh_xi', 'mesh_yi'), use_event_data=True)


def centers(self, g):
    a = accumulate_points_on_grid(g, self.xedge, self.yedge, label='init')
    return no_projection('ctr_x', 'ctr_y', 'ctr_z', point_density(a), use_flashes=True)


@ref('glmtools.grid.make_grids:GLMlutGridder.event_pipeline_setup')
def ref_lut_event(self):
    g = newgrid(self)
    out = [broadcast((summed(g[:, :, i], 'power'),)) for i in range(self.n_frames)]
    return (g,), frames(self, out, 'time', do_events='time')


@ref('glmtools.grid.make_grids:GLMlutGridder.flash_pipeline_setup')
def ref_lut_flash(self):
    init, ext, foot, least = newgrid(self), newgrid(self), newgrid(self), newgrid(self)
    out = []
    for i in range(self.n_frames):
        out.append(broadcast((centers(self, init[:, :, i]),
                              summed(ext[:, :, i], 'lutevent_flash_count'),
                              summed(foot[:, :, i], 'lutevent_total_flash_area'),
                              smallest(least[:, :, i], 'lutevent_min_flash_area'))))
    return (init, ext, foot, least), frames(self, out, 'start', do_events='time')


@ref('glmtools.grid.make_grids:GLMlutGridder.group_pipeline_setup')
def ref_lut_group(self):
    init, ext, foot = newgrid(self), newgrid(self), newgrid(self)
    out = []
    for i in range(self.n_frames):
        out.append(broadcast((centers(self, init[:, :, i]),
                              summed(ext[:, :, i], 'lutevent_group_count'),
                              summed(foot[:, :, i], 'lutevent_total_group_area'))))
    return (init, ext, foot), frames(self, out, 'start', do_events='time')


@ref('glmtools.grid.make_grids:GLMGridder.pipeline_setup')
def ref_pipeline(self):
    flash, ff = self.flash_pipeline_setup()
    (ginit, gext, gfoot), gf = self.group_pipeline_setup()
    (energy,), ef = self.event_pipeline_setup()
    # the smallest flash area comes last, where there is one
    self.outgrids = (flash[1], flash[0], flash[2], energy, gext, ginit, gfoot) + tuple(flash[3:])
    self.outgrids_3d = None
    self.framer = {'flash': ff, 'group': gf, 'event': ef}


@ref('glmtools.grid.make_grids:GLMGridder.output_setup')
def ref_output(self):
    if self.proj_name == 'latlong':
        per = 'grid'
    elif self.proj_name == 'geos':
        per = 'nominal {0:7d} microradian^2'.format(int(self.dx * self.dy * 1e12))
    else:
        per = '{0:5.1f} km^2'.format(self.dx * self.dy * self.spatial_scale_factor * self.spatial_scale_factor).lstrip()
    label = 'Count per ' + per + ' pixel per ' + '{0:5.1f} min'.format(self.frame_interval / 60.0).lstrip()
    self.field_names = tuple([p[0] for p in PRODUCTS])
    self.outfile_postfixes = tuple([p[1] for p in PRODUCTS])
    self.field_descriptions = tuple([p[2] for p in PRODUCTS])
    self.field_units = tuple([label if p[3] is None else p[3] for p in PRODUCTS])
    self.outformats = ('f',) * 8
    self.outformats_3d = ('f',) * 8
    self.outfile_postfixes_3d = None
    self.field_units_3d = None
    self.divide_grids = {}


@ref('glmtools.grid.make_grids:GLMlutGridder.output_setup')
def ref_lut_output(self, *args, **kwargs):
    ref_output(self)
    # areas are summed and divided by the count of the same level
    self.divide_grids[2] = 0
    self.divide_grids[6] = 4


def gridder(cls, **kw):
    return inst(MG + cls, event_grid_area_fraction_key=strsym('frac'), energy_grids=obj('energy'), n_frames=intsym('n'),
                xedge=arr('xedge'), yedge=arr('yedge'), zedge=arr('zedge'), dx=num('dx'), dy=num('dy'), dz=num('dz'),
                mapProj=sym('map'), geoProj=sym('geo'), t_edges_seconds=arr('secs'), t_edges=arr('edges'),
                flash_count_logfile=sym('log'), spatial_scale_factor=num('scale'), frame_interval=num('interval'), **kw)


SINKS = ['accumulate_points_on_grid', 'accumulate_energy_on_grid', 'accumulate_var_on_grid_direct_idx',
         'accumulate_minvar_on_grid_direct_idx']


@ob('C16', 'C15', opaque=['select_dataset', 'accumulate_var_on_grid_direct_idx', 'accumulate_minvar_on_grid_direct_idx'],
    sinks=['accumulate_points_on_grid', 'accumulate_energy_on_grid', 'accumulate_var_on_grid_direct_idx', 'accumulate_minvar_on_grid_direct_idx'])
def products_lut():
    g = gridder('GLMlutGridder')
    g.pipeline_setup()
    g.output_setup()
    for name, grid in zip(g.field_names, g.outgrids):
        observe('grid ' + name, grid)
    for k in ('flash', 'group', 'event'):
        observe('inlet ' + k, g.framer[k])
    observe('3d', g.outgrids_3d)


@ob('C16', opaque=[],
    sinks=['accumulate_points_on_grid', 'accumulate_energy_on_grid'])
def products_points():
    g = gridder('GLMGridder')
    f, ff = g.flash_pipeline_setup()
    q, qf = g.group_pipeline_setup()
    e, ef = g.event_pipeline_setup()
    observe('flash grids', f)
    observe('group grids', q)
    observe('event grids', e)
    observe('inlets', (ff, qf, ef))


@ob('C16', sinks=['accumulate_points_on_grid', 'accumulate_energy_on_grid'], raises=True)
def products_of_points():
    g = gridder('GLMGridder')
    g.pipeline_setup()
    observe('grids', g.outgrids)


@ob('C16')
def product_labels():
    for cls in ('GLMGridder', 'GLMlutGridder'):
        for proj in ('latlong', 'geos', 'lcc'):
            g = gridder(cls, proj_name=proj)
            g.output_setup()
            observe('labels %s %s' % (cls, proj), list(zip(g.field_names, g.outfile_postfixes, g.field_descriptions, g.field_units, g.outformats)))
            observe('counts %s %s' % (cls, proj), (len(g.field_names), len(g.outfile_postfixes), len(g.field_descriptions), len(g.field_units), len(g.outformats)))
            observe('averages %s %s' % (cls, proj), [(g.field_names[k], g.field_names[v]) for k, v in sorted(g.divide_grids.items())])


# --------------------------------------------------------------------- tiling

@ref('glmtools.grid.make_grids:subdivide_bnd')
def ref_edges(bnd, delta, s=8):
    per_tile = int(int((bnd[1] - bnd[0]) / delta) / s)
    e = np.arange(s + 1, dtype='f8') * delta * per_tile + bnd[0]
    e[-1] = bnd[1]
    return e


@ref('glmtools.grid.make_grids:subdivided_fixed_grid')
def ref_tiles(kwargs, process_flash_kwargs, out_kwargs, s=1, x_pad=100 * 28.0e-6, y_pad=100 * 28.0e-6):
    nx = int(x_pad / kwargs['dx'])
    ny = int(y_pad / kwargs['dy'])
    px = float(nx * kwargs['dx'])
    py = float(ny * kwargs['dy'])
    xs = ref_edges(kwargs['x_bnd'], kwargs['dx'], s=s)
    ys = ref_edges(kwargs['y_bnd'], kwargs['dy'], s=s)
    nadir = process_flash_kwargs['nadir_lon']
    for i in range(s):
        for j in range(s):
            xb, yb = xs[i:i + 2].copy(), ys[j:j + 2].copy()
            xb[0] -= px
            xb[1] += px
            yb[0] -= py
            yb[1] += py
            k, p, o = kwargs.copy(), process_flash_kwargs.copy(), out_kwargs.copy()
            # the padded box selects the flashes and is gridded; the padding is removed on output
            k['x_bnd'], k['y_bnd'] = xb, yb
            p['x_bnd'], p['y_bnd'] = xb, yb
            p['lon_bnd'], p['lat_bnd'] = None, None
            o['output_filename_prefix'] = out_kwargs['output_filename_prefix'] + '-' + '{0:02d}-{1:02d}'.format(i, j)
            pre = F(MG + 'GridOutputPreprocess')(pads=(nx, ny, px, py), writer=out_kwargs['output_writer'])
            o['preprocess_out'] = pre
            o['output_writer'] = pre.capture_write_call
            yield (i, j), k, p, o, (nx, ny, px, py)


@ref('glmtools.grid.make_grids:GridOutputPreprocess.__init__')
def ref_pre(self, pads=None, writer=None):
    self.writer = writer
    self.pads = pads
    self.outargs = []
    self.outkwargs = []


@ref('glmtools.grid.make_grids:GridOutputPreprocess.get_pad_slices')
def ref_slices(self):
    nx, ny, _, _ = self.pads
    return (slice(None, None) if nx == 0 else slice(nx, -nx), slice(None, None) if ny == 0 else slice(ny, -ny))


@ref('glmtools.grid.make_grids:GridOutputPreprocess.capture_write_call')
def ref_capture(self, *args, **kwargs):
    xs, ys = ref_slices(self)
    a = list(args)
    a[3] = a[3][xs]
    a[4] = a[4][ys]
    a[9] = a[9][xs, ys]
    self.outargs.append(tuple(a))
    self.outkwargs.append(kwargs)


@ref('glmtools.grid.make_grids:GridOutputPreprocess.write_all')
def ref_write_all(self):
    names = []
    if self.writer:
        for a, k in zip(self.outargs, self.outkwargs):
            self.writer(*a, **k)
            names.append(a[0])
    return names


@ob('C21')
def tile_edges():
    f = F(MG + 'subdivide_bnd')
    b = (num('lo'), num('lo') + abs(num('width')))
    observe('edges', f(b, abs(num('d')), s=len(arr('tiles'))))
    observe('default', f(b, abs(num('d'))))


def options():
    k = {'dx': abs(num('dx')), 'dy': abs(num('dy')), 'x_bnd': (num('xlo'), num('xlo') + abs(num('width'))),
         'y_bnd': (num('ylo'), num('ylo') + abs(num('height'))), 'base': sym('basek')}
    p = {'nadir_lon': num('nadir'), 'clip_events': True, 'fixed_grid': True, 'min_points_per_flash': intsym('me')}
    o = {'output_filename_prefix': strsym('prefix'), 'output_writer': obj('writer'), 'outpath': strsym('path'), 'output_kwargs': {'scale_and_offset': boolsym('so')}}
    return k, p, o


@ob('C21', opaque=['glmtools.grid.make_grids:GridOutputPreprocess'])
def tiles():
    k, p, o = options()
    n = 0
    for (i, j), kk, pp, oo, pads in F(MG + 'subdivided_fixed_grid')(k, p, o, s=2):
        t = 'tile %d%d ' % (i, j)
        observe(t + 'grid', (kk['x_bnd'], kk['y_bnd']))
        observe(t + 'spacing', (kk['dx'], kk['dy'], kk['base']))
        observe(t + 'selection', (pp['x_bnd'], pp['y_bnd'], pp['lon_bnd'], pp['lat_bnd']))
        observe(t + 'reader', (pp['nadir_lon'], pp['clip_events'], pp['fixed_grid'], pp['min_points_per_flash']))
        observe(t + 'padding', pads)
        observe(t + 'name', oo['output_filename_prefix'])
        observe(t + 'writer', oo['preprocess_out'])
        observe(t + 'options', (oo['outpath'], oo['output_kwargs']['scale_and_offset']))
        n = n + 1
    observe('number', n)
    observe('given options', (k['x_bnd'], k['y_bnd'], p['nadir_lon'], o['output_filename_prefix'], o['output_writer']))


@ob('C21')
def tiles_any_number():
    k, p, o = options()
    ts = F(MG + 'subdivided_fixed_grid')(k, p, o, s=len(arr('tiles')), x_pad=abs(num('xp')), y_pad=abs(num('yp')))
    observe('index', [t[0] for t in ts])
    observe('x', [t[1]['x_bnd'] for t in ts])
    observe('y', [t[1]['y_bnd'] for t in ts])
    observe('selection', [(t[2]['x_bnd'], t[2]['y_bnd']) for t in ts])
    observe('names', [t[3]['output_filename_prefix'] for t in ts])
    observe('padding', [t[4] for t in ts])


@ob('C21')
def tile_writer():
    k, p, o = options()
    w = eff('writer')
    o['output_writer'] = w
    for (i, j), kk, pp, oo, pads in F(MG + 'subdivided_fixed_grid')(k, p, o):
        oo['output_writer'](strsym('name'), sym('t0'), sym('t1'), arr('x'), arr('y'), sym('lon'), sym('lat'), sym('nadir'), sym('alt'), arr('grid'), sym('field'))
        observe('names', oo['preprocess_out'].write_all())
    observe('written', events())


@ob('C21')
def trim():
    for nx, ny in ((0, 0), (3, 0), (0, 2), (3, 2)):
        w = eff('writer')
        g = F(MG + 'GridOutputPreprocess')(pads=(nx, ny, num('px'), num('py')), writer=w)
        t = 'pad %d %d ' % (nx, ny)
        observe(t + 'slices', g.get_pad_slices())
    w = eff('writer')
    g = F(MG + 'GridOutputPreprocess')(pads=(intsym('nx'), intsym('ny'), num('px'), num('py')), writer=w)
    for n in ('first', 'second'):
        g.capture_write_call(strsym(n), sym('t0'), sym('t1'), arr('x'), arr('y'), sym('lon'), sym('lat'), sym('nadir'), sym('alt'),
                             arr('grid ' + n), sym('field'), sym('desc'), format=sym('fmt'))
    observe('before', events())
    observe('names', g.write_all())
    observe('written', events())
    g = F(MG + 'GridOutputPreprocess')(pads=(1, 1, num('px'), num('py')))
    g.capture_write_call(strsym('n'), sym('t0'), sym('t1'), arr('x'), arr('y'), sym('lon'), sym('lat'), sym('nadir'), sym('alt'),
                         arr('grid'), sym('field'))
    observe('no writer', g.write_all())


# -------------------------------------------------------- options on their way

@ref('glmtools.grid.make_grids:GLMGridder.process_flashes')
def ref_process(self, glm, lat_bnd=None, lon_bnd=None, x_bnd=None, y_bnd=None, min_points_per_flash=None, min_groups_per_flash=None,
                clip_events=False, fixed_grid=False, nadir_lon=None, corner_pickle=None):
    self.min_points_per_flash = 1 if min_points_per_flash is None else min_points_per_flash
    self.min_groups_per_flash = 1 if min_groups_per_flash is None else min_groups_per_flash
    F('glmtools.io.mimic_lma:read_flashes')(glm, self.framer, base_date=self.t_ref, lon_range=lon_bnd, lat_range=lat_bnd,
                                            x_range=x_bnd, y_range=y_bnd, min_events=min_points_per_flash,
                                            min_groups=min_groups_per_flash, clip_events=clip_events, fixed_grid=fixed_grid,
                                            nadir_lon=nadir_lon)


@ob('C22', opaque=['glmtools.io.mimic_lma:read_flashes'], ret={'glmtools.io.mimic_lma:read_flashes': 'event', 'read_flashes': 'event'})
def gridder_reads():
    g = inst(MG + 'GLMlutGridder', framer=obj('framer'), t_ref=sym('ref'))
    g.process_flashes(obj('glm'), lat_bnd=obj('lat'), lon_bnd=obj('lon'), x_bnd=obj('x'), y_bnd=obj('y'), min_points_per_flash=intsym('me'),
                      min_groups_per_flash=intsym('mg'), clip_events=obj('mesh'), fixed_grid=boolsym('fixed'), nadir_lon=num('nadir'))
    observe('all', events('read_flashes'))
    observe('kept', (g.min_points_per_flash, g.min_groups_per_flash))
    h = inst(MG + 'GLMGridder', framer=obj('framer'), t_ref=sym('ref'))
    h.process_flashes(obj('glm2'))
    observe('defaults', events('read_flashes'))
    observe('kept defaults', (h.min_points_per_flash, h.min_groups_per_flash))
    h.process_flashes(obj('glm3'), min_points_per_flash=intsym('me'))
    observe('kept events', (h.min_points_per_flash, h.min_groups_per_flash))
    h.process_flashes(obj('glm4'), min_groups_per_flash=intsym('mg'))
    observe('kept groups', (h.min_points_per_flash, h.min_groups_per_flash))
    h.process_flashes(obj('glm5'), nadir_lon=num('nadir'), clip_events=obj('mesh'))
    observe('kept neither', (h.min_points_per_flash, h.min_groups_per_flash))


@ref('glmtools.grid.make_grids:GLMlutGridder.write_grids')
def ref_write(self, outpath='./{dataset_name}', output_writer=None, output_writer_3d=None, output_filename_prefix=None, output_kwargs={}):
    pad = output_kwargs['pad'] if 'pad' in output_kwargs else None
    so = output_kwargs['scale_and_offset'] if 'scale_and_offset' in output_kwargs else True
    return F('glmtools.io.imagery:write_goes_imagery')(self, outpath=outpath, pad=pad, scale_and_offset=so)


@ob('C22', 'C21', opaque=['write_goes_imagery'])
def gridder_writes():
    g = inst(MG + 'GLMlutGridder')
    observe('all', g.write_grids(outpath=strsym('out'), output_writer=obj('w'), output_filename_prefix=strsym('p'),
                                 output_kwargs={'pad': obj('pad'), 'scale_and_offset': boolsym('so')}))
    observe('default', g.write_grids())
    kw = {'pad': obj('pad')}
    observe('pad', g.write_grids(output_kwargs=kw))
    observe('pad again', g.write_grids(output_kwargs=kw))


READ = ('min_points_per_flash', 'min_groups_per_flash', 'clip_events', 'fixed_grid', 'nadir_lon', 'corner_pickle', 'ellipse_rev')
WRITE = ('outpath', 'output_writer', 'output_writer_3d', 'output_kwargs', 'output_filename_prefix')


@ref('glmtools.grid.make_grids:grid_GLM_flashes')
def ref_grid(GLM_filenames, start_time, end_time, **kwargs):
    kwargs['do_3d'] = False
    s = kwargs.pop('subdivide', 1)
    read, write = {}, {}
    for k in READ:
        if k in kwargs:
            read[k] = kwargs.pop(k)
    for k in WRITE:
        if k in kwargs:
            write[k] = kwargs.pop(k)
    if read.get('clip_events', False):
        kwargs['event_grid_area_fraction_key'] = 'mesh_frac'
    if kwargs['proj_name'] == 'latlong':
        read['lon_bnd'] = kwargs['x_bnd']
        read['lat_bnd'] = kwargs['y_bnd']
        tiles = [((0, 0), kwargs, read, write, (0, 0, 0.0, 0.0))]
    elif read.get('fixed_grid', False):
        tiles = F(MG + 'subdivided_fixed_grid')(kwargs, read, write, s=s)
    else:
        read['lon_bnd'] = None
        read['lat_bnd'] = None
        tiles = [((0, 0), kwargs, read, write, (0, 0, 0.0, 0.0))]
    return [F(MG + 'proc_each_grid')(t, start_time=start_time, end_time=end_time, GLM_filenames=GLM_filenames) for t in tiles]


@ref('glmtools.grid.make_grids:proc_each_grid')
def ref_proc(subgrid, start_time=None, end_time=None, GLM_filenames=None):
    ij, kw, read, write, pads = subgrid
    rev = read.pop('ellipse_rev', -1)
    if read.get('clip_events', False):
        g = F(MG + 'GLMlutGridder')(start_time, end_time, **kw)
        xe, ye = np.meshgrid(g.xedge, g.yedge)
        read['clip_events'] = F('glmtools.grid.clipping:QuadMeshSubset')(xe, ye, n_neighbors=160, regular=True)
    else:
        g = F(MG + 'GLMGridder')(start_time, end_time, **kw)
    first = True
    for name in GLM_filenames:
        glm = F('glmtools.io.glm:GLMDataset')(name, ellipse_rev=rev)
        if len(glm.dataset.number_of_events) > 0:
            glm.dataset.load()
            if first:
                g.first_file_attrs = dict(glm.dataset.attrs)
                first = False
            g.process_flashes(glm, **read)
        glm.dataset.close()
    pre = write.pop('preprocess_out', None)
    if pre:
        opts = dict(write.get('output_kwargs', {}))
        opts['pad'] = pre.get_pad_slices()
        write['output_kwargs'] = opts
        g.write_grids(**write)
        return ij, pre.write_all()
    return ij, g.write_grids(**write)


@ob('C22', opaque=['proc_each_grid', 'subdivided_fixed_grid'])
def entry_options():
    f = F(MG + 'grid_GLM_flashes')
    for proj in ('latlong', 'geos'):
        for clip in (True, False):
            for fixed in (True, False):
                observe('%s clip=%s fixed=%s' % (proj, clip, fixed), f(
                    arr('files'), sym('t0'), sym('t1'), proj_name=proj, x_bnd=obj('x'), y_bnd=obj('y'), dx=num('dx'), dy=num('dy'),
                    base_date=sym('base'), subdivide=intsym('s'), clip_events=clip, fixed_grid=fixed, nadir_lon=num('nadir'),
                    min_points_per_flash=intsym('me'), min_groups_per_flash=intsym('mg'), corner_pickle=strsym('lut'), ellipse_rev=intsym('rev'),
                    outpath=strsym('out'), output_writer=obj('w'), output_writer_3d=obj('w3'), output_kwargs=obj('ok'),
                    output_filename_prefix=strsym('pre'), ctr_lon=num('clon'), pixel_coords=obj('pix')))
        observe('few ' + proj, f(arr('files'), sym('t0'), sym('t1'), proj_name=proj, x_bnd=obj('x'), y_bnd=obj('y')))
        observe('fixed ' + proj, f(arr('files'), sym('t0'), sym('t1'), proj_name=proj, x_bnd=obj('x'), y_bnd=obj('y'), fixed_grid=True))


@ob('C22', 'C23', opaque=['GLMGridder.process_flashes', 'GLMlutGridder.write_grids', 'QuadMeshSubset', 'GLMDataset', 'GridOutputPreprocess.get_pad_slices',
                          'GridOutputPreprocess.write_all'],
    ret={'GLMGridder.process_flashes': 'call', 'GLMlutGridder.write_grids': 'event'})
def tile_processing():
    k = {'xk': sym('kw'), 'x_bnd': obj('x')}
    r = {'clip_events': True, 'nadir_lon': num('nadir'), 'x_bnd': obj('px'), 'ellipse_rev': intsym('rev')}
    pre = inst(MG + 'GridOutputPreprocess', pads=obj('pads'))
    w = {'outpath': strsym('out'), 'preprocess_out': pre, 'output_kwargs': {'scale_and_offset': boolsym('so')}}
    w2 = {'outpath': strsym('out2'), 'preprocess_out': pre}
    F(MG + 'proc_each_grid')(((3, 4), k.copy(), r.copy(), w2, obj('pads')), GLM_filenames=[])
    observe('write without options', events('GLMlutGridder.write_grids'))
    out = F(MG + 'proc_each_grid')(((1, 2), k, r, w, obj('pads')), start_time=sym('t0'), end_time=sym('t1'), GLM_filenames=[strsym('a'), strsym('b')])
    observe('result', out)
    observe('read', events('GLMGridder.process_flashes'))
    observe('write', events('GLMlutGridder.write_grids'))


@ob('C22', 'C23', opaque=['GLMGridder.process_flashes', 'QuadMeshSubset', 'GLMDataset'],
    ret={'GLMGridder.process_flashes': 'call'})
def tile_processing_points():
    for n in ('off', 'missing'):
        k = {'xk': sym('kw'), 'x_bnd': obj('x')}
        r = {'nadir_lon': num('nadir'), 'lon_bnd': obj('px'), 'min_points_per_flash': intsym('me')}
        if n == 'off':
            r['clip_events'] = False
        out = F(MG + 'proc_each_grid')(((0, 0), k, r, {'outpath': strsym('out')}, obj('pads')), start_time=sym('t0'), end_time=sym('t1'),
                                       GLM_filenames=[strsym('a'), strsym('b')])
        observe('result ' + n, out)
    observe('read', events('GLMGridder.process_flashes'))


@ob('C21', opaque=['GLMGridder.process_flashes', 'GLMlutGridder.write_grids', 'QuadMeshSubset', 'GLMDataset'])
def tile_keeps_options():
    k = {'xk': sym('kw'), 'x_bnd': obj('x')}
    r = {'clip_events': True, 'nadir_lon': num('nadir'), 'x_bnd': obj('px')}
    pre = inst(MG + 'GridOutputPreprocess', pads=(2, 3, num('px'), num('py')), writer=None, outargs=[], outkwargs=[])
    o = {'scale_and_offset': boolsym('so')}
    F(MG + 'proc_each_grid')(((3, 4), k, r, {'outpath': strsym('out'), 'preprocess_out': pre, 'output_kwargs': o}, obj('pads')), GLM_filenames=[])
    observe('output options of the caller', o)


@ob('C22', 'C21', opaque=['GLMGridder.process_flashes', 'GLMlutGridder.write_grids', 'QuadMeshSubset', 'GLMDataset'],
    ret={'GLMGridder.process_flashes': 'call', 'GLMlutGridder.write_grids': 'event'}, budget=900000)
def every_tile():
    for clip in (True, False):
        out = F(MG + 'grid_GLM_flashes')(
            [strsym('file')], sym('t0'), sym('t1'), proj_name='geos', x_bnd=(num('xlo'), num('xlo') + abs(num('width'))),
            y_bnd=(num('ylo'), num('ylo') + abs(num('height'))), dx=abs(num('dx')), dy=abs(num('dy')), subdivide=2, clip_events=clip, fixed_grid=True, nadir_lon=num('nadir'), min_points_per_flash=intsym('me'),
            min_groups_per_flash=intsym('mg'), ellipse_rev=intsym('rev'), outpath=strsym('out'), output_writer=eff('w'),
            output_kwargs={'scale_and_offset': boolsym('so')}, output_filename_prefix=strsym('pre'), ctr_lon=num('clon'))
        observe('results clip=%s' % clip, out)
    observe('read', events('GLMGridder.process_flashes'))
    observe('write', events('GLMlutGridder.write_grids'))
