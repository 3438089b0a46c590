"""C09 parallel gridding against sequential gridding"""
import contextlib
import copy
import os
import threading
import time
import zlib

import numpy as np

from bgmon import core
from bgmon.checks import register
from bgmon.core import Inconclusive
from bgmon.world import Session, World, diff_metadata, diff_observed, leaf_id, metadata, observe, random_spec

CLIENTS = {}
STATE = {'salt': 0, 'scale': 0.0, 'log': [], 'lock': threading.Lock()}


def tracer(salt, scale):
    """
    Wraps the gridding of a tile, in this process: a delay per tile (before and after the gridding, from a hash) and a log of begin and end
    events.  Runs in the workers.
    """
    from bathygrid.tile import SRTile
    STATE.update(salt=salt, scale=scale, log=[])
    if getattr(SRTile.grid, '_bgmon', False):
        return
    real = SRTile.grid

    def grid(self, *args, **kwargs):
        if threading.current_thread() is threading.main_thread():
            return real(self, *args, **kwargs)
        h = zlib.crc32('{} {} {}'.format(STATE['salt'], self.min_x, self.min_y).encode())
        with STATE['lock']:
            STATE['log'].append(('begin', float(self.min_x), float(self.min_y), time.time(), threading.get_ident()))
        time.sleep(STATE['scale'] * (h % 16) / 16.0)
        try:
            return real(self, *args, **kwargs)
        finally:
            time.sleep(STATE['scale'] * ((h >> 8) % 4) / 8.0)
            with STATE['lock']:
                STATE['log'].append(('end', float(self.min_x), float(self.min_y), time.time(), threading.get_ident()))
    grid._bgmon = True
    SRTile.grid = grid


def collect():
    with STATE['lock']:
        out = list(STATE['log'])
        STATE['log'].clear()
    return out


def set_synchronous(value):
    import dask
    dask.config.set(scheduler='synchronous' if value else None)


def client_for(kind, n):
    """clusters are started on first use, and live as long as this runner process"""
    import dask
    from dask.distributed import Client, LocalCluster
    key = (kind, n)
    if key not in CLIENTS:
        try:
            dask.config.set({'distributed.admin.log-format': '%(message)s', 'distributed.worker.daemon': False})
            if kind == 'threads':
                cluster = LocalCluster(n_workers=n, threads_per_worker=1, processes=False, dashboard_address=None, silence_logs=50)
            elif kind == 'one worker':
                cluster = LocalCluster(n_workers=1, threads_per_worker=n, processes=False, dashboard_address=None, silence_logs=50)
            else:
                os.environ['PYTHONPATH'] = os.pathsep.join([core.VERIF, core.REPO])
                cluster = LocalCluster(n_workers=n, threads_per_worker=1, processes=True, dashboard_address=None, silence_logs=50)
            client = Client(cluster, set_as_default=False)
            client.wait_for_workers(n if kind != 'one worker' else 1, timeout=90)
        except Exception as e:
            raise Inconclusive('can not start a dask cluster: {!r}'.format(e))
        CLIENTS[key] = (cluster, client)
    return CLIENTS[key][1]


def teardown():
    for cluster, client in CLIENTS.values():
        try:
            client.close(timeout=5)
            cluster.close(timeout=10)
        except Exception:
            pass


def case_c09(ctx):
    import dask
    from dask.distributed import Client
    seat = ctx.index % 8
    kind = 'processes' if seat >= 6 else ctx.pick(['threads', 'threads', 'one worker'])
    n = 2 + seat % 2 if kind == 'processes' else ctx.integer(1, 4)
    client = client_for(kind, n)
    scale = ctx.pick([0.0, 0.02, 0.06])
    salt = ctx.integer(0, 10 ** 6)
    if kind == 'processes':
        client.run(tracer, salt, scale)
    tracer(salt, scale)
    # .compute() within the gridding can end up on the same cluster, as it does for users that have a client running
    on_cluster = kind != 'one worker' and ctx.chance(0.2)
    if kind == 'processes':
        client.run(set_synchronous, not on_cluster)

    spec = random_spec(ctx, disk=ctx.chance(0.45))
    if on_cluster:   # every access to an array on disk goes through the scheduler of the cluster, keep to a few tiles
        spec.sub = max(spec.sub, spec.tile / 2)
    twin_spec = spec.clone(folder=ctx.folder() if spec.folder else '')
    w = World(ctx, spec, 1.0 if on_cluster else ctx.pick([1.0, 2.5, 4.0]))
    a, b = Session(ctx, spec, w), Session(ctx, twin_spec, w)

    def both(op, *args, **kw):
        getattr(a, op)(*args, **copy.deepcopy(kw))
        getattr(b, op)(*args, **copy.deepcopy(kw))

    def compare(label, ga=None, gb=None):
        oa, ob = observe(spec, ga or a.g), observe(twin_spec, gb or b.g)
        d = diff_observed(oa, ob, rows_ordered=True)
        ctx.require(not d, lambda: '{}: sequential and parallel: {}'.format(label, d))
        d = diff_metadata(metadata(ga or a.g, ('container_timestamp',)), metadata(gb or b.g, ('container_timestamp',)))
        ctx.require(not d, lambda: '{}: sequential and parallel: metadata {}'.format(label, d))
        ctx.saw('tiles_compared', len(oa))
        ctx.saw('grids_compared')

    def grid():
        from bathygrid.convenience import load_grid
        m = a.model
        clear, update = ctx.chance(0.3), ctx.chance(0.5)
        algo = m.algo or ctx.pick(['mean', 'shoalest'])
        if clear and ctx.chance(0.5):
            algo = ctx.pick(['mean', 'shoalest'])
        res, mode = a.random_res(), 'depth'
        if ctx.chance(0.25) and (spec.leaf <= 64 or float(np.mean(m.all_rows()['z'])) > 25) and (spec.kind == 'vr' or not update or clear):
            res, mode = None, ctx.pick(['depth', 'density'])
        one = a.grid(algo, res, clear, update, mode)
        collect()
        if kind == 'processes':
            client.run(collect)
        with Client(CLIENTS[(kind, n)][0]) as mine:   # the default client of this process, that the grid has to find
            b.g.client = None
            with contextlib.ExitStack() as stack:
                if not on_cluster:
                    stack.enter_context(dask.config.set(scheduler='synchronous'))
                two = b.grid(algo, res, clear, update, mode, use_dask=True)
            ctx.require(b.g.client is mine, 'the gridding did not use the client that is there')
            b.g.client = None
        events = collect()
        if kind == 'processes':
            for part in client.run(collect).values():
                events += part
        ctx.require(sorted(float(r) for r in one) == sorted(float(r) for r in two), lambda: 'sequential gridding returns {} and parallel {}'.format(one, two))
        compare('after gridding {} {} clear={} update={}'.format(algo, res, clear, update))
        events.sort(key=lambda e: e[3])
        ends = [e[1:3] for e in events if e[0] == 'end']
        begins = [e[1:3] for e in events if e[0] == 'begin']
        ctx.saw('tile_tasks', len(ends))
        ctx.saw('parallel_griddings')
        if len(ends) != len(begins) or len(set(ends)) != len(ends):
            ctx.saw('tiles_gridded_more_than_once')
        order = sorted(set(begins))
        rank = tuple(order.index(e) for e in ends if e in order)
        if list(rank) != sorted(rank):
            ctx.saw('completed_out_of_order')
        depth = top = 0
        for e in events:
            depth += 1 if e[0] == 'begin' else -1
            top = max(top, depth)
        ctx.saw('overlapping_tasks', top > 1)
        ctx.mark('order', zlib.crc32(repr(rank).encode()) if len(rank) > 1 else 'single')
        ctx.mark(kind, n, spec.kind, spec.backend, 'disk' if spec.folder else 'mem', 'update' if update else 'full', 'clear' if clear else '', 'auto' if res is None else 'explicit', 'on cluster' if on_cluster else '')
        if spec.folder and ctx.chance(0.7):
            compare('on disk', ctx.sut('load_grid', load_grid, spec.folder), ctx.sut('load_grid twin', load_grid, twin_spec.folder))
            ctx.saw('disks_compared')

    for _ in range(ctx.integer(1, 3)):
        both('add', rows=w.points(ctx.pick([1, 20, 80, 200])), name=a.new_name(), files=['f.all'])
    grid()
    for _ in range(ctx.integer(1, 3)):
        k = ctx.rng.random()
        m = a.model
        if k < 0.4 or not m.containers:
            both('add', rows=w.points(ctx.pick([1, 5, 40]), w.region(small=True)), name=a.new_name(), files=['g.all'])
        elif k < 0.6:
            both('remove', ctx.pick(list(m.containers)))
        elif k < 0.75:
            both('reload')
        if a.model.containers:
            grid()


register('C09', case_c09, 'lock step twins, one gridded sequentially and one through dask, on clusters of 1 to 4 in process workers, one worker with several threads, or 2 to 3 worker processes, with delays injected in the tile '
         'tasks so that they complete in other orders; layers, soundings, flags, metadata and the folders compared after every gridding', quick=64, thorough=1400, nontrivial='tile_tasks', teardown=teardown,
         deterministic=False, least={'parallel_griddings': 90, 'tile_tasks': 350, 'completed_out_of_order': 10, 'overlapping_tasks': 10, 'tiles_compared': 500}, case_timeout=200)
