"""OpenMP regions for the abstract interpreter.

clang outlines each parallel region; __kmpc_fork_call is interpreted by running
the outlined body once per abstract thread, the loop iterations being dealt out
one per thread (as far as the thread count goes).  Every access to memory that
existed before the fork is recorded per thread; two threads touching the same
byte in the same barrier phase, at least one writing, outside a critical /
atomic / reduction section, is a race whatever the schedule.
"""
from absint import *


class Team:
    def __init__(self, I, n):
        self.n = n
        self.outside = set(I.mem)
        self.acc = {}           # (region, off, phase) -> {thread: (wrote?, site)}
        self.tid = 0
        self.phase = 0
        self.locked = 0
        self.races = []
        self.iters = 0


def install(I, threads=6, order=1):
    I.races = []
    I.regions_run = 0
    I.iters_seen = 0

    def fork(I, a, ins):
        t = Team(I, threads)
        I.regions_run += 1
        prev, prevlog = getattr(I, "team", None), I.log
        I.team = t

        def log(r, o, n, w):
            if r not in t.outside or t.locked:
                return
            if r.kind == "global" and r.const:
                return
            site = I.site()
            for k in range(o, o + n):
                key = (r, k, t.phase)
                d = t.acc.setdefault(key, {})
                old = d.get(t.tid)
                if old is None or (w and not old[0]):
                    d[t.tid] = (w, site)
                if len(d) > 1 and (w or any(x[0] for x in d.values())):
                    others = [x for q, x in d.items() if q != t.tid and (w or x[0])]
                    if others and len(I.races) < 50:
                        I.races.append("%s of %s byte %d at %s conflicts with %s at %s by another thread" % (
                            "write" if w else "read", r.name, k, site, "write" if others[0][0] else "read", others[0][1]))
        try:
            for tid in (range(threads) if order > 0 else range(threads - 1, -1, -1)):
                t.tid = tid
                t.phase = 0
                g = I.region("gtid#%d" % tid, "local", 4)
                I.wmem(g).update({k: W(8, (tid >> (8 * k)) & 255, None) for k in range(4)})
                I.log = log
                fn = a[2]
                I.call(fn.n, [P(g), P(g)] + list(a[3:]), ins)
                I.log = prevlog
        finally:
            I.log = prevlog
            I.team = prev
        return None

    def rd(p, n):
        lg, I.log = I.log, None
        v = I.load(p, n)
        I.log = lg
        if v.c is None:
            raise Imprecise("symbolic loop bounds in a parallel region at %s" % I.site())
        return v

    def static_init(n, signed):
        def h(I, a, ins):
            t = getattr(I, "team", None)
            plast, plo, pup, pst = a[3], a[4], a[5], a[6]
            lo, up = rd(plo, n), rd(pup, n)
            l, u = (lo.s, up.s) if signed else (lo.c, up.c)
            inc = a[7].s
            if t is None:
                return None
            trip = max(0, (u - l) // inc + 1)
            t.iters = max(t.iters, trip)
            I.iters_seen += trip if t.tid == 0 else 0
            per = -(-trip // t.n) if trip else 1
            b = l + t.tid * per * inc
            e = min(u, b + (per - 1) * inc) if inc > 0 else max(u, b + (per - 1) * inc)
            if t.tid * per >= trip:
                b, e = l + inc, l       # empty
                if not signed and l == 0 and inc < 0:
                    b, e = 1, 0
                if inc > 0:
                    b, e = u + 1, u
            M = (1 << (8 * n)) - 1
            I.store(plo, W(8 * n, b & M, None), n)
            I.store(pup, W(8 * n, e & M, None), n)
            I.store(pst, W(8 * n, (trip * inc) & M, None), n)
            I.store(plast, W(32, int(t.tid == t.n - 1), None), 4)
            return None
        return h
    disp = {}

    def dispatch_init(n, signed):
        def h(I, a, ins):
            # loc, gtid, sched, lb, ub, st, chunk
            l, u = (a[3].s, a[4].s) if signed else (a[3].c, a[4].c)
            inc = a[5].s
            t = I.team
            trip = max(0, (u - l) // inc + 1)
            I.iters_seen += trip if t.tid == 0 else 0
            disp[t.tid] = [l + k * inc for k in range(trip) if k % t.n == t.tid]
        return h

    def dispatch_next(n, signed):
        def h(I, a, ins):
            q = disp[I.team.tid]
            if not q:
                return W(32, 0, None)
            v = q.pop(0)
            M = (1 << (8 * n)) - 1
            I.store(a[3], W(8 * n, v & M, None), n)
            I.store(a[4], W(8 * n, v & M, None), n)
            I.store(a[2], W(32, 0, None), 4)
            return W(32, 1, None)
        return h

    def lock(I, a, ins):
        if getattr(I, "team", None):
            I.team.locked += 1
        return W(32, 1, None)

    def unlock(I, a, ins):
        if getattr(I, "team", None):
            I.team.locked -= 1
        return W(32, 0, None)

    def barrier(I, a, ins):
        if getattr(I, "team", None):
            I.team.phase += 1
        return None

    m = I.models
    m["__kmpc_fork_call"] = fork
    m["__kmpc_fork_call_if"] = lambda I, a, ins: fork(I, a[:3] + a[4:], ins)
    m["__kmpc_global_thread_num"] = lambda I, a, ins: W(32, getattr(getattr(I, "team", None), "tid", 0) or 0, None)
    m["__kmpc_push_num_threads"] = m_nop
    for suf, n, sg in (("4", 4, True), ("4u", 4, False), ("8", 8, True), ("8u", 8, False)):
        m["__kmpc_for_static_init_" + suf] = static_init(n, sg)
        m["__kmpc_dispatch_init_" + suf] = dispatch_init(n, sg)
        m["__kmpc_dispatch_next_" + suf] = dispatch_next(n, sg)
        m["__kmpc_dispatch_fini_" + suf] = m_nop
    m["__kmpc_for_static_fini"] = m_nop
    for k in ("__kmpc_reduce", "__kmpc_reduce_nowait", "__kmpc_critical", "__kmpc_critical_with_hint", "omp_set_lock"):
        m[k] = lock
    for k in ("__kmpc_end_reduce", "__kmpc_end_reduce_nowait", "__kmpc_end_critical", "omp_unset_lock"):
        m[k] = unlock
    m["__kmpc_barrier"] = barrier
    m["__kmpc_single"] = lambda I, a, ins: W(32, int(I.team.tid == 0), None)
    m["__kmpc_end_single"] = m_nop
    m["__kmpc_master"] = m["__kmpc_masked"] = m["__kmpc_single"]
    m["__kmpc_end_master"] = m["__kmpc_end_masked"] = m_nop
    m["omp_get_thread_num"] = m["__kmpc_global_thread_num"]
    m["omp_get_num_threads"] = lambda I, a, ins: W(32, I.team.n if getattr(I, "team", None) else 1, None)
    m["omp_get_max_threads"] = lambda I, a, ins: W(32, threads, None)
    m["omp_get_num_procs"] = lambda I, a, ins: W(32, threads, None)
