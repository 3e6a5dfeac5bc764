"""Parent/child hierarchy queries."""
import numpy as np

T_ = 'glmtools.io.traversal:OneToManyTraversal'


def groups_of(ds, var):
    if ds.dims[ds[var].dims[0]] == 0:
        return {}
    return ds.groupby(var).groups


@ref('glmtools.io.traversal:OneToManyTraversal.__init__')
def ref_init(self, dataset, entity_id_vars, parent_id_vars):
    if len(parent_id_vars) != len(entity_id_vars) - 1:
        raise ValueError('levels')
    self.dataset = dataset
    self.entity_id_vars = tuple(entity_id_vars)
    self.parent_id_vars = (None,) + tuple(parent_id_vars)


def positions(groups, ids):
    out = []
    for i in ids:
        if i in groups:
            out.extend(groups[i])
    return out


def sel(idx):
    return slice(0, 0) if len(idx) == 0 else idx


@ref('glmtools.io.traversal:OneToManyTraversal.reduce_to_entities')
def ref_reduce(self, entity_id_var, entity_ids):
    ds = self.dataset
    ents, pars = self.entity_id_vars, self.parent_id_vars
    own = groups_of(ds, entity_id_var)
    keep = [i for i in entity_ids if i in own]
    out = ds.isel({ds[entity_id_var].dims[0]: sel(positions(own, entity_ids))})
    # every generation below the chosen level
    ids = keep
    below = False
    for e, p in zip(ents, pars):
        if below:
            out = out.isel({ds[e].dims[0]: sel(positions(groups_of(ds, p), ids))})
            ids = out[e].data
        if e == entity_id_var:
            below = True
    # every generation above it
    above = False
    for e, p in zip(ents[::-1], pars[::-1]):
        if above:
            out = out.isel({ds[e].dims[0]: sel(positions(groups_of(ds, e), ids))})
        if e == entity_id_var:
            above = True
        if p is not None:
            ids = np.unique(out[p].data)
    return out


@ref('glmtools.io.traversal:OneToManyTraversal.count_children')
def ref_count(self, entity_id_var, child_entity_id_var=None):
    ds = self.dataset
    out = []
    pairs = list(zip(self.entity_id_vars, self.parent_id_vars))
    k = 0
    for e, p in pairs:
        if e == entity_id_var:
            break
        k = k + 1
    for j in range(k + 1, len(pairs)):
        e, p = pairs[j]
        g = groups_of(ds, p)
        out.append(np.asarray([len(g[i]) if i in g else 0 for i in ds[pairs[j - 1][0]].data]))
        if child_entity_id_var is None or e == child_entity_id_var:
            break
    return out


@ref('glmtools.io.traversal:OneToManyTraversal.replicate_parent_ids')
def ref_replicate(self, entity_id_var, parent_id_var):
    ds = self.dataset
    pairs = list(zip(self.entity_id_vars, self.parent_id_vars))
    k = 0
    for e, p in pairs:
        if p == parent_id_var:
            break
        k = k + 1
    ids = ds[parent_id_var].data
    for j in range(k - 1, -1, -1):
        e, p = pairs[j]
        if e == entity_id_var:
            break
        g = groups_of(ds, e)
        idx = np.asarray([g[i] for i in ids]).flatten()
        ids = ds[p][sel(idx)].data
    return ids


@ref('glmtools.io.traversal:OneToManyTraversal.check_parent_child')
def ref_check(self):
    ds = self.dataset
    up, down = {}, {}
    ents, pars = self.entity_id_vars, self.parent_id_vars
    for j in range(1, len(ents)):
        have = set(groups_of(ds, ents[j - 1]).keys())
        want = set(groups_of(ds, pars[j]).keys())
        common = have & want
        up[ents[j - 1]] = (len(have), len(have - common), have - common)
        down[pars[j]] = (len(want), len(want - common), want - common)
    return up, down


def make():
    return F(T_)(ds('data'), ('flash_id', 'group_id', 'event_id'), ('group_parent_flash_id', 'event_parent_group_id'))


def make4():
    return F(T_)(ds('data'), ['storm_id', 'flash_id', 'stroke_id', 'trig_id'],
                 ['flash_parent_storm_id', 'stroke_parent_flash_id', 'trig_parent_stroke_id'])


@ob('C01')
def reduce_flash():
    observe('subset', make().reduce_to_entities('flash_id', arr('ids')))


@ob('C01')
def reduce_group():
    observe('subset', make().reduce_to_entities('group_id', arr('ids')))


@ob('C01')
def reduce_event():
    observe('subset', make().reduce_to_entities('event_id', arr('ids')))


@ob('C01')
def reduce_four_levels():
    t = make4()
    observe('storm', t.reduce_to_entities('storm_id', arr('ids')))
    observe('flash', t.reduce_to_entities('flash_id', arr('ids')))
    observe('stroke', t.reduce_to_entities('stroke_id', arr('ids')))
    observe('trig', t.reduce_to_entities('trig_id', arr('ids')))


@ob('C02')
def count_children():
    t = make()
    observe('flash', t.count_children('flash_id'))
    observe('flash to event', t.count_children('flash_id', 'event_id'))
    observe('flash to group', t.count_children('flash_id', 'group_id'))
    observe('group', t.count_children('group_id'))
    observe('group to event', t.count_children('group_id', 'event_id'))
    observe('event', t.count_children('event_id'))
    t = make4()
    observe('4 level a', t.count_children('storm_id', 'trig_id'))
    observe('4 level b', t.count_children('storm_id', 'stroke_id'))
    observe('4 level c', t.count_children('flash_id', 'trig_id'))
    observe('4 level d', t.count_children('flash_id'))


@ob('C02')
def replicate_parent_ids():
    t = make()
    observe('flash ids of groups', t.replicate_parent_ids('flash_id', 'group_parent_flash_id'))
    observe('group ids of events', t.replicate_parent_ids('group_id', 'event_parent_group_id'))
    observe('flash ids of events', t.replicate_parent_ids('flash_id', 'event_parent_group_id'))
    t = make4()
    observe('storm ids of triggers', t.replicate_parent_ids('storm_id', 'trig_parent_stroke_id'))
    observe('flash ids of triggers', t.replicate_parent_ids('flash_id', 'trig_parent_stroke_id'))
    observe('storm ids of strokes', t.replicate_parent_ids('storm_id', 'stroke_parent_flash_id'))


@ob('C04')
def check_parent_child():
    observe('report', make().check_parent_child())
    observe('report 4', make4().check_parent_child())


@ob('C04', raises=True)
def hierarchy_levels():
    F(T_)(ds('data'), ['a', 'b', 'c'], ['x'])
