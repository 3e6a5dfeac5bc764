import numpy as np
from functools import partial
from datetime import datetime, timedelta
from os.path import basename
from lmatools.grid.make_grids import write_cf_netcdf_latlon, write_cf_netcdf_fixedgrid, dlonlat_at_grid_center, grid_h5flashfiles
from lmatools.io.LMA_h5_file import parse_lma_h5_filename
from lmatools.grid.fixed import get_GOESR_grid, get_GOESR_coordsys

MG = 'glmtools.scripts.make_GLM_grids:'


@ref('glmtools.scripts.make_GLM_grids:nearest_resolution')
def ref_nearest(args):
    known = np.asarray([0.5, 1.0, 2.0, 4.0, 8.0, 10.0])
    return '{0:4.1f}km'.format(known[np.argmin(np.abs(known - args.dx))]).replace(' ', '')


def period(args):
    names = [basename(p) for p in args.filenames]
    if args.is_lma:
        starts = [parse_lma_h5_filename(n)[0] for n in names]
    else:
        starts = [F('glmtools.io.glm:parse_glm_filename')(n)[3] for n in names]
    if args.start is not None:
        t0 = datetime.strptime(args.start[:19], '%Y-%m-%dT%H:%M:%S')
    else:
        t0 = min(starts)
    if args.end is not None:
        t1 = datetime.strptime(args.end[:19], '%Y-%m-%dT%H:%M:%S')
    else:
        t1 = max(starts) + timedelta(0, 20)
    return t0, t1


def edges(n, d, ctr):
    e = (np.arange(n + 1, dtype='float') - (n + 1) / 2.0) * d + ctr + 0.5 * d
    return np.asarray([e.min(), e.max()])


def least(n):
    n = int(n)
    if n <= 1:
        return None
    return n


@ref('glmtools.scripts.make_GLM_grids:grid_setup')
def ref_setup(args):
    t0, t1 = period(args)
    kw = dict(base_date=datetime(t0.year, t0.month, t0.day), do_3d=False, frame_interval=float(args.dt), outpath=args.outdir,
              min_points_per_flash=least(args.min_events), subdivide=args.subdivide_grid,
              output_kwargs={'scale_and_offset': args.output_scale_and_offset}, spatial_scale_factor=1.0,
              ellipse_rev=args.ellipse_rev)
    if args.fixed_grid:
        if (args.goes_position != 'none') & (args.goes_sector != 'none'):
            view = get_GOESR_grid(position=args.goes_position, view=args.goes_sector, resolution=F(MG + 'nearest_resolution')(args))
            lon0 = view['nadir_lon']
            dx = dy = view['resolution']
            nx, ny = view['pixelsEW'], view['pixelsNS']
            geo, lla = get_GOESR_coordsys(sat_lon_nadir=lon0)
            if 'centerEW' in view:
                x, y = view['centerEW'], view['centerNS']
            elif args.goes_sector == 'meso':
                x, y, z = geo.fromECEF(*lla.toECEF(args.ctr_lon, args.ctr_lat, 0.0))
        elif (args.goes_position != 'none') & (args.goes_sector == 'none'):
            view = get_GOESR_grid(position=args.goes_position, view='full', resolution='1.0km')
            lon0 = view['nadir_lon']
            geo, lla = get_GOESR_coordsys(sat_lon_nadir=lon0)
            x, y, z = geo.fromECEF(*lla.toECEF(args.ctr_lon, args.ctr_lat, 0.0))
            dx, dy = args.dx * view['resolution'], args.dy * view['resolution']
            nx, ny = int(args.width / args.dx), int(args.height / args.dy)
        else:
            raise ValueError('which grid?')
        kw['proj_name'] = 'geos'
        kw['x_bnd'], kw['y_bnd'] = edges(nx, dx, x), edges(ny, dy, y)
        kw['ctr_lon'], kw['ctr_lat'], alt = lla.fromECEF(*geo.toECEF(x, y, 0.0))
        kw['pixel_coords'] = geo
        kw['fixed_grid'] = True
        kw['nadir_lon'] = lon0
        kw['output_writer'] = partial(write_cf_netcdf_fixedgrid, nadir_lon=lon0)
    else:
        kw['proj_name'] = 'latlong'
        kw['output_writer'] = write_cf_netcdf_latlon
        kw['ctr_lat'], kw['ctr_lon'] = float(args.ctr_lat), float(args.ctr_lon)
        w, h = 1000.0 * float(args.width), 1000.0 * float(args.height)
        dx, dy, kw['x_bnd'], kw['y_bnd'] = dlonlat_at_grid_center(
            kw['ctr_lat'], kw['ctr_lon'], dx=float(args.dx) * 1000.0, dy=float(args.dy) * 1000.0,
            x_bnd=(-w / 2.0, w / 2.0), y_bnd=(-h / 2.0, h / 2.0))
    kw['dx'], kw['dy'] = dx, dy
    if args.split_events:
        kw['clip_events'] = True
    if least(args.min_groups) is not None:
        kw['min_groups_per_flash'] = least(args.min_groups)
    if args.is_lma:
        kw['energy_grids'] = True
        kw['output_filename_prefix'] = 'LMA'
        gridder = grid_h5flashfiles
    else:
        kw['energy_grids'] = ('total_energy',)
        kw['output_filename_prefix'] = 'GLM'
        gridder = F('glmtools.grid.make_grids:grid_GLM_flashes')
    return gridder, args.filenames, t0, t1, kw


OPTS = ['proj_name', 'base_date', 'do_3d', 'dx', 'dy', 'frame_interval', 'x_bnd', 'y_bnd', 'ctr_lat', 'ctr_lon', 'outpath',
        'min_points_per_flash', 'output_writer', 'subdivide', 'output_filename_prefix', 'output_kwargs', 'spatial_scale_factor',
        'energy_grids', 'ellipse_rev']


def args_():
    a = obj('args')
    a.filenames = [strsym('f1'), strsym('f2')]
    a.min_events = intsym('nev')
    a.min_groups = intsym('ngr')
    a.dx = num('dx')
    a.dy = num('dy')
    a.width = num('w')
    a.height = num('h')
    a.dt = num('dt')
    a.ctr_lon = num('clon')
    a.ctr_lat = num('clat')
    a.is_lma = False
    a.split_events = boolsym('split')
    a.start = strsym('t0')
    a.end = strsym('t1')
    assume(a.start)
    assume(a.end)
    return a


def show(r):
    for k in OPTS:
        observe(k, r[4][k])
    observe('gridder', r[0])
    observe('files', r[1])
    observe('all', r[4])


@ob('C35')
def script_latlon():
    a = args_()
    a.fixed_grid = False
    show(F(MG + 'grid_setup')(a))


@ob('C35')
def script_sector():
    a = args_()
    a.fixed_grid = True
    a.goes_position = 'east'
    a.goes_sector = 'conus'
    show(F(MG + 'grid_setup')(a))


@ob('C35')
def script_meso():
    a = args_()
    a.fixed_grid = True
    a.goes_position = 'west'
    a.goes_sector = 'meso'
    show(F(MG + 'grid_setup')(a))


@ob('C35')
def script_custom():
    a = args_()
    a.fixed_grid = True
    a.goes_position = 'east'
    a.goes_sector = 'none'
    r = F(MG + 'grid_setup')(a)
    show(r)
    observe('nadir', r[4]['nadir_lon'])
    observe('pixel', r[4]['pixel_coords'])


@ob('C35')
def script_period():
    a = args_()
    a.fixed_grid = False
    r = F(MG + 'grid_setup')(a)
    observe('start given', r[2])
    observe('end given', r[3])
    a.start = None
    a.end = None
    r = F(MG + 'grid_setup')(a)
    observe('start', r[2])
    observe('end', r[3])
    observe('date', r[4]['base_date'])
    a.is_lma = True
    r = F(MG + 'grid_setup')(a)
    observe('start lma', r[2])
    observe('end lma', r[3])
    observe('gridder lma', r[0])
    observe('energy lma', r[4]['energy_grids'])
    observe('prefix lma', r[4]['output_filename_prefix'])


@ob('C35')
def script_resolution():
    a = obj('args')
    a.dx = num('dx')
    observe('resolution', F(MG + 'nearest_resolution')(a))


@ob('C35', raises=True)
def script_no_grid():
    a = args_()
    a.fixed_grid = True
    a.goes_position = 'none'
    a.goes_sector = strsym('sector')
    r = F(MG + 'grid_setup')(a)
    observe('result', r[2])


FLOATS = {'ctr_lat': None, 'ctr_lon': None, 'dx': 10.0, 'dy': 10.0, 'dt': 60.0, 'width': 400.0, 'height': 400.0}


@ref('glmtools.scripts.make_GLM_grids:create_parser')
def ref_parser():
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument('filenames', nargs='*')
    p.add_argument('-o', '--output_path', dest='outdir', default='./{dataset_name}')
    for n, d in FLOATS.items():
        p.add_argument('--' + n, default=d, type=float)
    p.add_argument('--start')
    p.add_argument('--end')
    p.add_argument('--nevents', dest='min_events', type=int, default=1)
    p.add_argument('--ngroups', dest='min_groups', type=int, default=1)
    p.add_argument('--subdivide_grid', type=int, default=1)
    p.add_argument('--goes_position', default='none')
    p.add_argument('--goes_sector', default='none')
    p.add_argument('--corner_points')
    p.add_argument('--ellipse', dest='ellipse_rev', type=int, default=-1)
    p.add_argument('--fixed_grid', action='store_true')
    p.add_argument('--split_events', action='store_true')
    p.add_argument('--float_output', dest='output_scale_and_offset', action='store_false')
    p.add_argument('--lma', dest='is_lma', action='store_true')
    return p


@ob('C35')
def script_options():
    F(MG + 'create_parser')()
    observe('options', eventset('option'))
