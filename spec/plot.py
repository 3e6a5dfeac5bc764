"""Pictures of single flashes and of gridded products."""
import numpy as np
import matplotlib.pyplot as plt
import cartopy.crs as ccrs
from matplotlib.colors import LogNorm

PV = 'glmtools.plot.values:'


def shown(label, low, high, tag, fmt='{0:3.0f}'):
    return {'product_label': 'GOES-16 GLM ' + label, 'glm_norm': LogNorm(vmin=low, vmax=high), 'file_tag': tag,
            'format_string': fmt}


REF_PARAMS = {
    'flash_centroid_density': shown('Flash Centroid Density (count)', 1, 10, 'flash_centroid'),
    'flash_extent_density': shown('Flash Extent Density (count)', 1, 50, 'flash_extent'),
    'group_centroid_density': shown('Group Centroid Density (count)', 1, 10, 'group_centroid'),
    'group_extent_density': shown('Group Extent Density (count)', 1, 500, 'group_extent'),
    'event_density': shown('Group Extent Density (count)', 1, 500, 'group_extent'),
    'total_energy': shown('Total Energy (nJ)', 1e-8, 1e-3, 'total_energy', '{0:3.1e}'),
    'average_flash_area': shown('Average Flash Area (km$^2$)', 50, 5000., 'flash_area'),
    'average_group_area': shown('Average Group Area (km$^2$)', 50, 5000., 'group_area'),
    'minimum_flash_area': shown('Minimum Flash Area (km$^2$)', 50, 5000., 'flash_area_min'),
}


@ob('C31')
def display_table():
    t = table(PV + 'display_params', REF_PARAMS)
    for name in ['flash_centroid_density', 'flash_extent_density', 'group_centroid_density', 'group_extent_density',
                 'event_density', 'total_energy', 'average_flash_area', 'average_group_area', 'minimum_flash_area']:
        observe(name + ' label', t[name]['product_label'])
        observe(name + ' norm', t[name]['glm_norm'])
        observe(name + ' tag', t[name]['file_tag'])
        observe(name + ' format', t[name]['format_string'])


@ref('glmtools.plot.locations:plot_flash')
def ref_plot_flash(glm, flash_id, ax=None, proj=None):
    one = glm.get_flashes([flash_id])
    if ax is None:
        ax = plt.figure().add_subplot(111)
    extra = {}
    if proj:
        extra = {'transform': proj}
    norm = table(PV + 'display_params', REF_PARAMS)['total_energy']['glm_norm']
    ax.scatter(one.group_lon.data, one.group_lat.data, c=one.group_energy.data, marker='o', s=100,
               edgecolor='black', cmap='gray', norm=norm, **extra)
    ax.scatter(one.event_lon.data, one.event_lat.data, c=one.event_energy.data, marker='s', s=16,
               edgecolor='black', cmap='gray', norm=norm, **extra)
    ax.scatter(one.flash_lon.data, one.flash_lat.data, c='r', marker='^', s=100, **extra)
    ax.set_title('GLM Flash #{0}\nfrom {1}\nto {2}'.format(one.flash_id.data[0],
                 one.flash_time_offset_of_first_event.data[0], one.flash_time_offset_of_last_event.data[0]))
    ax.get_xaxis().get_major_formatter().set_useOffset(False)
    ax.get_yaxis().get_major_formatter().set_useOffset(False)
    return ax


@ob('C31')
def flash_picture():
    g = obj('glm')
    observe('axes', F('glmtools.plot.locations:plot_flash')(g, intsym('id'), ax=eff('ax')))
    observe('drawn', eventset())


@ob('C31')
def flash_picture_projected():
    g = obj('glm')
    p = obj('proj')
    assume(p)
    F('glmtools.plot.locations:plot_flash')(g, intsym('id'), ax=eff('ax'), proj=p)
    observe('drawn', eventset())


@ob('C31')
def flash_picture_new_axes():
    g = obj('glm')
    F('glmtools.plot.locations:plot_flash')(g, intsym('id'))
    observe('drawn', eventset())


PANELS = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l']


@ref('glmtools.plot.grid:plot_glm_grid')
def ref_plot_grid(fig, grids, when, fields, subplots=(2, 3), axes_facecolor=(0., 0., 0.), map_color=(.8, .8, .8)):
    import cartopy.feature as cfeature
    from matplotlib.ticker import LogFormatter, LogLocator
    from matplotlib.cm import get_cmap
    fig.clf()
    pv = grids['goes_imager_projection']
    h = pv.perspective_point_height
    x = grids.x.data[:] * h
    y = grids.y.data[:] * h
    countries = cfeature.NaturalEarthFeature(category='cultural', name='admin_0_countries', scale='50m', facecolor='none')
    states = cfeature.NaturalEarthFeature(category='cultural', name='admin_1_states_provinces_lakes', scale='50m',
                                          facecolor='none')
    proj = ccrs.Geostationary(central_longitude=pv.longitude_of_projection_origin, satellite_height=h,
                              globe=ccrs.Globe(semimajor_axis=pv.semi_major_axis, semiminor_axis=pv.semi_minor_axis))
    shown_axes = []
    for i in range(len(fields)):
        p = table(PV + 'display_params', REF_PARAMS)[fields[i]]
        ax = fig.add_subplot(subplots[0], subplots[1], i + 1, projection=proj)
        ax.background_patch.set_facecolor(axes_facecolor)
        ax.coastlines('10m', color=map_color)
        ax.add_feature(states, edgecolor=map_color, linewidth=0.5)
        ax.add_feature(countries, edgecolor=map_color, linewidth=1.0)
        sel = grids[fields[i]].sel(time=when)
        if hasattr(sel, 'compute'):
            v = sel.compute().data.copy()
        else:
            v = sel.data
        v[np.isnan(v)] = 0
        img = ax.imshow(v, extent=(x.min(), x.max(), y.min(), y.max()), origin='upper', cmap=get_cmap('viridis'),
                        interpolation='nearest', norm=p['glm_norm'])
        ax.set_xlim((x.min(), x.max()))
        ax.set_ylim((y.min(), y.max()))
        ax.text(.02, .02, when.isoformat().replace('T', ' ') + ' UTC' + '\n' + p['product_label'] + ' (max '
                + p['format_string'].format(v.max()) + ')', transform=ax.transAxes, fontsize=10, color=map_color)
        ax.text(.02, .9, PANELS[i], fontweight='bold', fontsize=10, transform=ax.transAxes, color=map_color)
        shown_axes.append((ax, img))
    fig.tight_layout()
    fig.canvas.draw()
    bars = []
    for ax, img in shown_axes:
        at = ax.get_position()
        part = .025 * subplots[0]
        cax = fig.add_axes([at.x0, at.y0 + at.height * (1.0 - part), at.width, at.height * part])
        bar = plt.colorbar(img, orientation='horizontal', cax=cax, format=LogFormatter(base=2), ticks=LogLocator(base=2))
        bar.outline.set_edgecolor(axes_facecolor)
        ax.outline_patch.set_edgecolor(axes_facecolor)
        bar.ax.tick_params(direction='in', color=axes_facecolor, which='both', pad=-14, labelsize=10,
                           labelcolor=axes_facecolor)
        bars.append(bar)
    return F('glmtools.plot.grid:set_shared_geoaxes')(fig), bars


@ob('C31', opaque=['set_shared_geoaxes'])
def grid_picture():
    axes, bars = F('glmtools.plot.grid:plot_glm_grid')(eff('fig'), ds('grids'), obj('when'),
                   ['flash_extent_density', 'total_energy'], subplots=(intsym('rows'), intsym('cols')))
    observe('axes', axes)
    observe('bars', bars)
    observe('drawn', eventset())


@ob('C31', opaque=['set_shared_geoaxes'])
def grid_picture_colours():
    axes, bars = F('glmtools.plot.grid:plot_glm_grid')(eff('fig'), ds('grids'), obj('when'),
                   ['average_flash_area'], axes_facecolor=obj('face'), map_color=obj('map'))
    observe('drawn', eventset())
