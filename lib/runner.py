"""Runs the scenarios of a property against the real server, in parallel processes."""
import collections
import multiprocessing
import multiprocessing.connection
import os
import random
import signal
import sys
import time
import traceback

import build
import sut
import tlc
import world

Scenario = collections.namedtuple("Scenario", "prop name fn quick thorough")
SCENARIOS = []


def scenario(props, quick=1, thorough=8):
    """Registers a scenario for some properties. quick and thorough: how many
    independent repetitions (each has its own random choices)."""
    def deco(fn):
        for p in props.split():
            SCENARIOS.append(Scenario(p, fn.__name__, fn, quick, thorough))
        return fn
    return deco


class Run:
    """What a scenario uses: a source of choices, servers, and where histories go."""

    def __init__(self, name, seed, deep, binary):
        self.name = name
        self.rng = random.Random(seed)
        self.deep = deep
        self.binary = binary
        self.histories = []
        self.worlds = []
        self.notes = collections.Counter()

    def server(self, **kw):
        return sut.Server(self.binary, **kw)

    def world(self, server, label=""):
        w = world.World(server, self.name + (":" + label if label else ""))
        self.worlds.append(w)
        return w

    def done(self, w, groups=None):
        h = w.finish()
        self.worlds.remove(w)
        self.notes["requests"] += w.requests
        self.notes["replies"] += w.replies
        self.notes["connections"] += w.count
        self.histories += world.project(h, groups) if groups else [h]

    def abandon(self):
        for w in self.worlds:
            self.histories.append(w.history())
        self.worlds = []


def _child(sc, seed, deep, binary, pipe):
    sut.raise_nofile()
    r = Run(sc.name, seed, deep, binary)
    err = None
    start = None
    t = time.time()

    def enough(*_):
        r.notes["cut_short"] += 1
        raise world.Hopeless("out of time")
    signal.signal(signal.SIGTERM, enough)
    try:
        sc.fn(r)
    except world.Hopeless:
        pass
    except sut.StartError as e:
        start = str(e)
    except Exception:
        err = traceback.format_exc()
    r.abandon()
    pipe.send({"histories": r.histories, "notes": dict(r.notes), "error": err, "start": start,
               "wall": time.time() - t, "name": sc.name, "seed": seed})
    pipe.close()


def run(scenarios, seed, deep, binary, parallel=4, only=None, budget=480):
    """Runs them all and returns their results. Once the budget (seconds) is spent no more is
    started and what runs is cut short: what it recorded is judged all the same."""
    stop = time.time() + (budget if not deep else 24 * budget)
    kill = stop + 60
    jobs = []
    # the longest begin, the others run meanwhile
    for sc in sorted(scenarios, key=lambda sc: {"idle": 0, "full_keyspace": 1}.get(sc.name, 2)):
        if only and sc.name != only:
            continue
        for k in range(sc.thorough if deep else sc.quick):
            jobs.append((sc, "%s/%s/%d" % (seed, sc.name, k)))
    ctx = multiprocessing.get_context("fork")
    running = []
    out = []
    while jobs or running:
        if time.time() > stop and (jobs or running):
            jobs = []
            stop = kill + 10 ** 9
            for p, _, _, _ in running:
                p.terminate()
        if time.time() > kill:
            for p, _, _, _ in running:
                p.kill()
        while jobs and len(running) < parallel:
            sc, sd = jobs.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(sc, sd, deep, binary, b), daemon=False)
            p.start()
            b.close()
            running.append((p, a, sc, sd))
        ready = multiprocessing.connection.wait([a for _, a, _, _ in running], 1.0)
        for item in list(running):
            p, a, sc, sd = item
            if a in ready:
                try:
                    out.append(a.recv())
                except EOFError:
                    p.join()
                    out.append({"histories": [], "notes": {}, "error": "scenario process ended (%s)" % p.exitcode,
                                "start": None, "wall": 0, "name": sc.name, "seed": sd})
                a.close()
                p.join()
                running.remove(item)
    return out
