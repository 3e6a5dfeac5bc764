"""Splitting polygons over a mesh, weighting the parts, putting them on a grid."""
import numpy as np
import xarray as xr
import pyclipper

CL = 'glmtools.grid.clipping:'
SE = 'glmtools.grid.split_events:'


# ----------------------------------------------------------------- geometry

@ref('glmtools.grid.clipping:poly_area')
def ref_area(x, y):
    return 0.5 * ((x[:-1] * y[1:] - x[1:] * y[:-1]).sum() + x[-1] * y[0] - x[0] * y[-1])


@ref('glmtools.grid.clipping:vectorized_poly_area')
def ref_areas(x, y):
    return 0.5 * ((x[:, :-1] * y[:, 1:] - x[:, 1:] * y[:, :-1]).sum(axis=1) + x[:, -1] * y[:, 0] - x[:, 0] * y[:, -1])


@ref('glmtools.grid.clipping:polys_from_quadmesh')
def ref_quads(x, y):
    M, N = x.shape
    v = np.dstack((x, y))
    q = np.empty((M - 1, N - 1, 4, 2), dtype='f8')
    q[:, :, 0, :] = v[:-1, :-1, :]
    q[:, :, 1, :] = v[:-1, 1:, :]
    q[:, :, 2, :] = v[1:, 1:, :]
    q[:, :, 3, :] = v[1:, :-1, :]
    return q


@ref('glmtools.grid.clipping:lines_from_quadmesh')
def ref_lines(xedge, yedge, scale=True):
    v = np.dstack((xedge, yedge))
    h = [v[i, :, :] for i in range(v.shape[0])]
    w = [v[:, j, :] for j in range(v.shape[1])]
    if scale:
        return pyclipper.scale_to_clipper(h), pyclipper.scale_to_clipper(w)
    return h, w


@ob('C14', 'C13', 'C12')
def polygon_areas():
    observe('one', F(CL + 'poly_area')(arr('x'), arr('y')))
    observe('many', F(CL + 'vectorized_poly_area')(arr('x'), arr('y')))


@ob('C14')
def mesh_quads():
    observe('quads', F(CL + 'polys_from_quadmesh')(arr('x'), arr('y')))
    observe('lines', F(CL + 'lines_from_quadmesh')(arr('x'), arr('y')))
    observe('unscaled', F(CL + 'lines_from_quadmesh')(arr('x'), arr('y'), scale=False))


# --------------------------------------------------------------------- mesh

def centres(e):
    return (e[:-1, :-1] + e[1:, 1:] + e[1:, :-1] + e[:-1, 1:]) / 4.0


@ref('glmtools.grid.clipping:QuadMeshSubset.__init__')
def ref_mesh(self, xedge, yedge, n_neighbors=12, X_ctr=None, Y_ctr=None, regular=False):
    self.regular = regular
    self.n_neighbors = n_neighbors
    self.xedge = xedge
    self.yedge = yedge
    if X_ctr is None:
        X_ctr = centres(xedge)
    if Y_ctr is None:
        Y_ctr = centres(yedge)
    self.X_ctr = X_ctr
    self.Y_ctr = Y_ctr
    q = F(CL + 'polys_from_quadmesh')(xedge, yedge)
    self.quads = q
    flat = q.reshape((q.shape[0] * q.shape[1], 4, 2))
    a = F(CL + 'vectorized_poly_area')(flat[:, :, 0], flat[:, :, 1])
    a.shape = X_ctr.shape
    self.quad_areas = a
    if regular:
        if np.allclose(xedge[:, 0].mean() - xedge[:, 0], 0.0):
            self.X_ctr1d = X_ctr[0, :]
            self.Y_ctr1d = Y_ctr[:, 0]
            self.X_edge1d = xedge[0, :]
            self.Y_edge1d = yedge[:, 0]
            self.X_increasing_dim = 1
            self.Y_increasing_dim = 0
        else:
            self.X_ctr1d = X_ctr[:, 0]
            self.Y_ctr1d = Y_ctr[0, :]
            self.X_edge1d = xedge[:, 0]
            self.Y_edge1d = yedge[0, :]
            self.X_increasing_dim = 0
            self.Y_increasing_dim = 1
    else:
        self.tree, self.Xi, self.Yi = F('glmtools.io.ccd:create_pixel_lookup')(X_ctr, Y_ctr, leaf_size=16)


def bbox_cells(m, bbox, pad=2):
    nx, ny = m.X_ctr1d.shape[0], m.Y_ctr1d.shape[0]
    ix = np.digitize(bbox[:2], m.X_edge1d, right=True) - 1
    iy = np.digitize(bbox[2:], m.Y_edge1d, right=True) - 1
    hit = (ix.max() >= 0) & (ix.min() < nx) & (iy.max() >= 0) & (iy.min() < ny)
    ix = np.clip(ix, 0, nx - 1)
    iy = np.clip(iy, 0, ny - 1)
    xs, ys = np.arange(0, nx), np.arange(0, ny)
    if hit:
        cx = xs[max(ix.min() - pad, 0):min(ix.max() + 1 + pad, nx)]
        cy = ys[max(iy.min() - pad, 0):min(iy.max() + 1 + pad, ny)]
        ax = [0, 0]
        ax[m.X_increasing_dim] = cx
        ax[m.Y_increasing_dim] = cy
    else:
        ax = [xs[0:0], ys[0:0]]
    one = np.ones((ax[0].shape[0], ax[1].shape[0]), dtype=int)
    return (ax[0][:, None] * one).flatten(), (ax[1][None, :] * one).flatten()


@ref('glmtools.grid.clipping:QuadMeshSubset.quads_in_bbox')
def ref_in_bbox(self, bbox):
    if self.regular:
        i, j = bbox_cells(self, bbox)
    else:
        gx = np.zeros(self.quads.shape[0:2], dtype=bool)
        gy = np.zeros(self.quads.shape[0:2], dtype=bool)
        for c in range(4):
            qx, qy = self.quads[:, :, c, 0], self.quads[:, :, c, 1]
            gx = gx | ((qx >= bbox[0]) & (qx <= bbox[1]))
            gy = gy | ((qy >= bbox[2]) & (qy <= bbox[3]))
        i, j = np.where(gx & gy)
    return self.quads[i, j, :, :], i, j


@ref('glmtools.grid.clipping:QuadMeshSubset.query_tree')
def ref_query(self, x):
    if self.regular:
        i, j = bbox_cells(self, [x[0], x[0], x[1], x[1]])
        return None, i, j
    dist, idx = self.tree.query([x], k=self.n_neighbors)
    return dist, self.Xi[idx], self.Yi[idx]


@ref('glmtools.grid.clipping:QuadMeshSubset.quads_nearest')
def ref_nearest(self, x):
    d, i, j = self.query_tree(x)
    return self.quads[i, j, :, :].squeeze(), i.squeeze(), j.squeeze()


@ob('C14', 'C12', opaque=['glmtools.io.ccd:create_pixel_lookup'], ret={'glmtools.io.ccd:create_pixel_lookup': 3})
def mesh_init():
    for reg in (True, False):
        m = F(CL + 'QuadMeshSubset')(arr('xe'), arr('ye'), regular=reg)
        observe('centres', (m.X_ctr, m.Y_ctr))
        observe('edges', (m.xedge, m.yedge))
        observe('quads', m.quads)
        observe('areas', m.quad_areas)
    m = F(CL + 'QuadMeshSubset')(arr('xe'), arr('ye'), X_ctr=arr('xc'), Y_ctr=arr('yc'), regular=True)
    observe('given centres', (m.X_ctr, m.Y_ctr))
    m = F(CL + 'QuadMeshSubset')(arr('xe'), arr('ye'), X_ctr=arr('xc'), Y_ctr=arr('yc'), n_neighbors=intsym('k'))
    observe('neighbours', m.n_neighbors)


@ob('C14', opaque=['glmtools.io.ccd:create_pixel_lookup'], ret={'glmtools.io.ccd:create_pixel_lookup': 3})
def mesh_lookup():
    m = F(CL + 'QuadMeshSubset')(arr('xe'), arr('ye'), X_ctr=arr('xc'), Y_ctr=arr('yc'), regular=True)
    q = m.quads_in_bbox((num('x0'), num('x1'), num('y0'), num('y1')))
    observe('quads', q)
    observe('tree', m.query_tree((num('px'), num('py'))))
    observe('nearest', m.quads_nearest((num('px'), num('py'))))
    m = F(CL + 'QuadMeshSubset')(arr('xe'), arr('ye'), n_neighbors=intsym('k'))
    observe('general quads', m.quads_in_bbox((num('x0'), num('x1'), num('y0'), num('y1'))))
    observe('general tree', m.query_tree((num('px'), num('py'))))
    observe('general nearest', m.quads_nearest((num('px'), num('py'))))


# ------------------------------------------------------------------ clipping

@ref('glmtools.grid.clipping:clip_poly_pair')
def ref_clip_pair(pc, p, q):
    pc.Clear()
    pc.AddPath(q, pyclipper.PT_SUBJECT, True)
    pc.AddPath(p, pyclipper.PT_CLIP, True)
    return pc.Execute(clip_type=pyclipper.CT_INTERSECTION)


@ref('glmtools.grid.clipping:clip_polys_by_one_poly')
def ref_clip(polys, p, scale=True):
    pc = pyclipper.Pyclipper()
    if scale:
        polys = pyclipper.scale_to_clipper(polys)
        p = pyclipper.scale_to_clipper(p)
    parts = []
    for q in polys:
        r = F(CL + 'clip_poly_pair')(pc, p, q)
        if scale:
            r = pyclipper.scale_from_clipper(r)
        parts.append(list(r))
    out, n = [], []
    for r in parts:
        n.append(len(r))
        out.extend(r)
    return out, n


@ref('glmtools.grid.clipping:join_polys')
def ref_join(polys, scale=True):
    pc = pyclipper.Pyclipper()
    if scale:
        polys = pyclipper.scale_to_clipper(polys)
    pc.AddPaths(polys, pyclipper.PT_SUBJECT, True)
    r = pc.Execute(pyclipper.CT_UNION, pyclipper.PFT_NONZERO, pyclipper.PFT_NONZERO)
    if scale:
        r = pyclipper.scale_from_clipper(r)
    return [x for x in r]


@ref('glmtools.grid.clipping:make_sub_polys')
def ref_sub(args):
    poly, area, (quads, i, j) = args
    parts, n = F(CL + 'clip_polys_by_one_poly')(quads, poly)
    arrs = [np.asarray(c, dtype='f8').squeeze() for c in parts]
    fr = [np.abs(F(CL + 'poly_area')(a[:, 0], a[:, 1]) / area) for a in arrs]
    return arrs, fr, (np.repeat(i, n), np.repeat(j, n))


@ref('glmtools.grid.clipping:QuadMeshPolySlicer.slice')
def ref_slice(self, polys, bbox=None):
    out, areas = [], []
    for p in polys:
        p = np.asarray(p)
        a = np.abs(F(CL + 'poly_area')(p[:, 0], p[:, 1]))
        if bbox is None:
            q, i, j = self.mesh.quads_nearest(p.mean(axis=0))
        elif bbox is True:
            lo, hi = np.min(p, axis=0), np.max(p, axis=0)
            q, i, j = self.mesh.quads_in_bbox((lo[0], hi[0], lo[1], hi[1]))
        else:
            q, i, j = self.mesh.quads_in_bbox(bbox)
        n = q.shape[0]
        i.shape = (n,)
        j.shape = (n,)
        q.shape = (n, 4, 2)
        out.append(F(CL + 'make_sub_polys')((p, a, (q, i, j))))
        areas.append(a)
    return out, areas


@ref('glmtools.grid.clipping:QuadMeshPolySlicer.__init__')
def ref_slicer(self, mesh):
    self.mesh = mesh


@ref('glmtools.grid.clipping:QuadMeshPolySlicer.quad_frac_from_poly_frac_area')
def ref_qfrac(self, frac_areas, total_area, quad_x_idx, quad_y_idx):
    return np.asarray(frac_areas) * total_area / self.mesh.quad_areas[quad_x_idx, quad_y_idx]


@ob('C13')
def clip_pair():
    pc = pyclipper.Pyclipper()
    f = F(CL + 'clip_poly_pair')
    observe('first', f(pc, arr('p'), arr('q')))
    observe('second', f(pc, arr('p'), arr('r')))


@ob('C13')
def clip_many():
    observe('scaled', F(CL + 'clip_polys_by_one_poly')(arr('polys'), arr('p')))
    observe('unscaled', F(CL + 'clip_polys_by_one_poly')(arr('polys'), arr('p'), scale=False))


@ob('C13')
def join():
    observe('scaled', F(CL + 'join_polys')(arr('polys')))
    observe('unscaled', F(CL + 'join_polys')(arr('polys'), scale=False))


@ob('C13')
def sub_polys():
    observe('parts', F(CL + 'make_sub_polys')((arr('poly'), abs(num('area')), (arr('quads'), arr('qi'), arr('qj')))))


@ob('C13', 'C12')
def slice_polys():
    s = F(CL + 'QuadMeshPolySlicer')(obj('mesh'))
    observe('nearest', s.slice(arr('polys')))
    observe('own bbox', s.slice(arr('polys'), bbox=True))
    observe('given bbox', s.slice(arr('polys'), bbox=(num('x0'), num('x1'), num('y0'), num('y1'))))


@ob('C13', 'C12')
def slice_two_polys():
    s = F(CL + 'QuadMeshPolySlicer')(obj('mesh'))
    observe('own boxes', s.slice([arr('first'), arr('second')], bbox=True))
    observe('nearest', s.slice([arr('first'), arr('second')]))
    observe('given box', s.slice([arr('first'), arr('second')], bbox=(num('x0'), num('x1'), num('y0'), num('y1'))))


@ob('C13', 'C12')
def quad_fraction():
    s = F(CL + 'QuadMeshPolySlicer')(obj('mesh'))
    observe('fraction', s.quad_frac_from_poly_frac_area(arr('fr'), num('total'), arr('i'), arr('j')))


# ------------------------------------------------------------ split datasets

def parts_of(chopped, areas, slicer, ids):
    for c, a, e in zip(chopped, areas, ids):
        sub, fr, (i, j) = c
        qf = slicer.quad_frac_from_poly_frac_area(fr, a, i, j)
        for k in zip(sub, fr, i, j, qf):
            s = np.asarray(k[0], dtype='f8')
            yield s, np.einsum(s, [0, Ellipsis], [Ellipsis]) / float(s.shape[0]), k[1], k[4], (k[2], k[3]), e


@ref('glmtools.grid.split_events:gen_split_events')
def ref_gen_split(chopped_polys, poly_areas, slicer, event_ids=None):
    if event_ids is None:
        event_ids = range(len(chopped_polys))
    for p in parts_of(chopped_polys, poly_areas, slicer, event_ids):
        yield p


PROP = [('poly_ctr', 'f8', (2,)), ('event_frac_area', 'f8'), ('mesh_frac_area', 'f8'), ('mesh_idx', 'i8', (2,)), ('event_id', 'u8')]


@ref('glmtools.grid.split_events:split_event_data')
def ref_split_data(split_polys, poly_areas, slicer, event_ids):
    ps = [p for p in F(SE + 'gen_split_events')(split_polys, poly_areas, slicer, event_ids=event_ids)]
    d = np.fromiter((p[1:] for p in ps), dtype=np.dtype(PROP), count=len(ps))
    return [p[0] for p in ps], d


def split_ds(props, names, lev):
    dim = ('number_of_split_%s_children' % lev,)
    return xr.Dataset.from_dict({
        names[0]: {'dims': dim, 'data': props['poly_ctr'][:, 0]},
        names[1]: {'dims': dim, 'data': props['poly_ctr'][:, 1]},
        'split_' + lev + '_mesh_area_fraction': {'dims': dim, 'data': props['mesh_frac_area']},
        'split_' + lev + '_area_fraction': {'dims': dim, 'data': props['event_frac_area']},
        'split_' + lev + '_mesh_x_idx': {'dims': dim, 'data': props['mesh_idx'][:, 0]},
        'split_' + lev + '_mesh_y_idx': {'dims': dim, 'data': props['mesh_idx'][:, 1]},
        'split_' + lev + '_parent_' + lev + '_id': {'dims': dim, 'data': props['event_id']}})


@ref('glmtools.grid.split_events:split_event_dataset_from_props')
def ref_sed(props, centroid_names=('split_event_lon', 'split_event_lat')):
    return split_ds(props, centroid_names, 'event')


@ref('glmtools.grid.split_events:split_group_dataset_from_props')
def ref_sgd(props, centroid_names=('split_group_lon', 'split_group_lat')):
    return split_ds(props, centroid_names, 'group')


@ref('glmtools.grid.split_events:split_flash_dataset_from_props')
def ref_sfd(props, centroid_names=('split_flash_lon', 'split_flash_lat')):
    return split_ds(props, centroid_names, 'flash')


@ref('glmtools.grid.split_events:replicate_and_weight_split_child_dataset')
def ref_weight(glm, split_child_dataset, parent_id='event_id', split_child_parent_id='split_event_parent_event_id',
               names=['event_energy', 'event_time_offset', 'event_parent_flash_id', 'event_parent_group_id'],
               weights={'event_energy': 'split_event_area_fraction'}):
    dims = split_child_dataset[split_child_parent_id].dims
    d = glm.reduce_to_entities(parent_id, split_child_dataset[split_child_parent_id])
    for n in names:
        v = d[n].data
        if n in weights:
            v = v * split_child_dataset[weights[n]].data
        split_child_dataset['split_' + n] = (dims, v)
    return split_child_dataset


@ob('C13')
def split_rows():
    observe('rows', list(F(SE + 'gen_split_events')(arr('chopped'), arr('areas'), obj('slicer'), event_ids=arr('ids'))))
    observe('default ids', list(F(SE + 'gen_split_events')(arr('chopped'), arr('areas'), obj('slicer'))))


@ob('C13')
def split_table():
    observe('table', F(SE + 'split_event_data')(arr('chopped'), arr('areas'), obj('slicer'), arr('ids')))


@ob('C13')
def split_datasets():
    p = obj('props')
    for lev in ('event', 'group', 'flash'):
        d = F(SE + 'split_' + lev + '_dataset_from_props')(p)
        for v in ('lon', 'lat', 'mesh_area_fraction', 'area_fraction', 'mesh_x_idx', 'mesh_y_idx', 'parent_' + lev + '_id'):
            observe(lev + ' ' + v, d['split_' + lev + '_' + v])
        d = F(SE + 'split_' + lev + '_dataset_from_props')(p, centroid_names=('cx', 'cy'))
        observe(lev + ' x', d['cx'])
        observe(lev + ' y', d['cy'])


@ob('C12', 'C13')
def weight_children():
    f = F(SE + 'replicate_and_weight_split_child_dataset')
    observe('default', f(obj('glm'), ds('split')))
    observe('custom', f(obj('glm'), ds('split'), parent_id='flash_id', split_child_parent_id='split_flash_parent_flash_id',
                        names=['flash_area', 'flash_id', 'flash_energy'],
                        weights={'flash_area': 'split_flash_mesh_area_fraction', 'flash_energy': 'split_flash_area_fraction'}))


# -------------------------------------------------------------- accumulation

AC = 'glmtools.grid.accumulate:'


@ref('glmtools.grid.accumulate:accumulate_var_on_grid_direct_idx')
def ref_acc(grid, var_name, x_idx, y_idx, out=None):
    if out == None:
        out = {}
    try:
        while True:
            d = (yield)
            grid[d[y_idx], d[x_idx]] += d[var_name].astype(grid.dtype)
    except GeneratorExit:
        out['out'] = grid


@ref('glmtools.grid.accumulate:accumulate_minvar_on_grid_direct_idx')
def ref_accmin(grid, var_name, x_idx, y_idx, out=None):
    if out == None:
        out = {}
    try:
        while True:
            d = (yield)
            xi, yi = d[x_idx], d[y_idx]
            new = d[var_name].astype(grid.dtype)
            old = grid[yi, xi]
            seen = old > 0
            grid[yi[~seen], xi[~seen]] = new[~seen]
            grid[yi[seen], xi[seen]] = np.minimum(new[seen], old[seen])
    except GeneratorExit:
        out['out'] = grid


@ref('glmtools.grid.accumulate:select_dataset')
def ref_select(target, use_event_data=True):
    try:
        while True:
            ev, fl = (yield)
            d = ev if use_event_data else fl
            if len(d) > 0:
                target.send(d)
    except GeneratorExit:
        pass


@ob('C15')
def accumulate_sum():
    g, out = arr('grid'), {}
    coro_run(F(AC + 'accumulate_var_on_grid_direct_idx'), arr('frames'), g, 'v', 'xi', 'yi', out)
    observe('grid', g)
    observe('out', out)


@ob('C15')
def accumulate_min():
    g, out = arr('grid'), {}
    coro_run(F(AC + 'accumulate_minvar_on_grid_direct_idx'), arr('frames'), g, 'v', 'xi', 'yi', out)
    observe('grid', g)
    observe('out', out)


@ob('C15', 'C23')
def route_tables():
    t = eff('target')
    coro_run(F(AC + 'select_dataset'), arr('pairs'), t)
    observe('events', events())
    t = eff('target2')
    coro_run(F(AC + 'select_dataset'), arr('pairs'), t, use_event_data=False)
    observe('flashes', events())
