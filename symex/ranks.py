"""Several workers of a parallel run in one process.

The workers are threads of which exactly one runs at a time; a worker runs until it has to wait for another one.  The
communicator implements the operations of mpi4py that the code uses: collective operations complete when every member has
called them (with the same operation and root), messages are copied (as pickling does), blocking sends wait for the
receiver.  Workers that wait for each other, or for different operations, are a ``Deadlock``.
"""
import copy
import os
import sys
import threading

import ocgis.spatial.grid
import ocgis.vmachine.core as core
import ocgis.vmachine.mpi as mpi
from ocgis.constants import MPIOps
from symex.engine import active

COMM_NULL = mpi.COMM_NULL


class Deadlock(Exception):
    """The workers can not go on."""


class Killed(BaseException):
    """Ends a worker that is not needed any more."""


class Outcome(object):
    """What a worker returned or raised."""

    def __init__(self):
        self.value = self.error = None
        self.blocked = False


class Group(object):
    def __init__(self, world, members):
        self.world, self.members = world, tuple(members)

    def Incl(self, ranks):
        return Group(self.world, [self.members[r] for r in ranks])

    def Free(self):
        pass


class Request(object):
    def __init__(self, world, op):
        self.world, self.op = world, op

    def Test(self):
        if not self.op.done and not self.world.too_early(self.op):
            self.world.pause(poll=True)
        return self.op.done

    def wait(self):
        self.world.wait(self.op)
        return self.op.result

    Wait = wait

    def Cancel(self):
        # A message that arrives before the receive is cancelled is received.
        if not self.op.done and not (self.world.late is not None and self.world.match(self.op)):
            self.op.cancelled = True
            self.world.messages.remove(self.op)

    def Free(self):
        pass


class Op(object):
    """One call of one worker."""

    def __init__(self, comm, kind, rank, **kw):
        self.comm, self.kind, self.rank = comm, kind, rank
        self.done = self.cancelled = False
        self.result = None
        self.__dict__.update(kw)


class Comm(object):
    def __init__(self, world, members):
        self.world, self.members = world, tuple(members)
        self.queue = [[] for _ in members]  # Collective calls per member.

    def Get_rank(self):
        return self.members.index(self.world.current)

    def Get_size(self):
        return len(self.members)

    def Get_group(self):
        return Group(self.world, self.members)

    def Abort(self, code=1):
        raise RuntimeError('Abort')

    def Free(self):
        pass

    def _collective(self, kind, payload=None, root=0, op=None):
        rank = self.Get_rank()
        o = Op(self, kind, rank, payload=payload, root=root, op=op)
        self.queue[rank].append(o)
        self.world.wait(o)
        return o.result

    def Barrier(self):
        self._collective('Barrier')

    barrier = Barrier

    def bcast(self, obj=None, root=0):
        return self._collective('bcast', obj, root)

    def gather(self, obj, root=0):
        return self._collective('gather', obj, root)

    def scatter(self, obj, root=0):
        return self._collective('scatter', obj, root)

    def reduce(self, obj, op=None, root=0):
        return self._collective('reduce', obj, root, op)

    def Create(self, group):
        return self._collective('Create', group)

    def send(self, obj, dest=0, tag=0):
        o = Op(self, 'send', self.Get_rank(), payload=copy.deepcopy(obj), dest=dest, tag=tag)
        self.world.messages.append(o)
        self.world.wait(o)

    def recv(self, source=0, tag=None):
        o = Op(self, 'recv', self.Get_rank(), buf=None, source=source, tag=tag)
        self.world.messages.append(o)
        self.world.wait(o)
        return o.result

    def Send(self, payload, dest=0, tag=0):
        self.send(payload[0] if isinstance(payload, (list, tuple)) else payload, dest, tag)

    def Recv(self, payload, source=0, tag=None):
        buf = payload[0] if isinstance(payload, (list, tuple)) else payload
        o = Op(self, 'recv', self.Get_rank(), buf=buf, source=source, tag=tag)
        self.world.messages.append(o)
        self.world.wait(o)

    def Isend(self, payload, dest=0, tag=0):
        o = Op(self, 'send', self.Get_rank(), payload=copy.deepcopy(payload[0]), dest=dest, tag=tag)
        self.world.messages.append(o)
        # The library may have taken the message over.
        o.done = True
        return Request(self.world, o)

    def Irecv(self, payload, source=0, tag=None):
        o = Op(self, 'recv', self.Get_rank(), buf=payload[0], source=source, tag=tag)
        self.world.messages.append(o)
        return Request(self.world, o)

    def Iprobe(self, source=0, tag=None):
        o = Op(self, 'recv', self.Get_rank(), buf=None, source=source, tag=tag)
        if self.world.too_early(o):
            return False
        self.world.pause(poll=True)
        return self.world.find(o) is not None

    def complete(self):
        """Complete the oldest collective call if every member is there."""
        if not all(self.queue):
            return False
        ops = [q.pop(0) for q in self.queue]
        if len({(o.kind, o.root, o.op) for o in ops}) != 1:
            raise Deadlock('workers call different operations: {}'.format([(o.kind, o.root) for o in ops]))
        kind, root = ops[0].kind, ops[0].root
        if kind == 'bcast':
            for o in ops:
                o.result = ops[root].payload if o.rank == root else copy.deepcopy(ops[root].payload)
        elif kind == 'gather':
            ops[root].result = [o.payload if o.rank == root else copy.deepcopy(o.payload) for o in ops]
        elif kind == 'scatter':
            payload = ops[root].payload
            if len(payload) != len(ops):
                raise ValueError('wrong number of elements to scatter')
            for o in ops:
                o.result = payload[o.rank] if o.rank == root else copy.deepcopy(payload[o.rank])
        elif kind == 'reduce':
            acc = ops[0].payload
            for o in ops[1:]:
                if ops[0].op == MPIOps.SUM:
                    acc = acc + o.payload
                elif ops[0].op == MPIOps.MIN:
                    acc = o.payload if o.payload < acc else acc
                else:
                    acc = o.payload if o.payload > acc else acc
            ops[root].result = acc
        elif kind == 'Create':
            members = {o.payload.members for o in ops}
            if len(members) != 1:
                raise Deadlock('workers create different communicators')
            members = members.pop()
            new = Comm(self.world, members)
            self.world.comms.append(new)
            for o in ops:
                o.result = new if self.members[o.rank] in members else COMM_NULL
        for o in ops:
            o.done = True
        return True


class World(object):
    def __init__(self, size, order=None, late=None):
        self.size = size
        self.order = order
        self.late = late
        self.current = None
        self.comms, self.messages = [], []
        self.main = threading.Semaphore(0)
        self.wake = [threading.Semaphore(0) for _ in range(size)]
        self.state = ['ready'] * size
        self.waiting = [None] * size
        self.kill = False
        self.fatal = None
        self.out = [Outcome() for _ in range(size)]
        comm = Comm(self, range(size))
        self.comms.append(comm)
        self.vms = [{'_subcomms': {}, '_current_comm_name': None, '_comm': comm, '_original_comm': comm, '_is_dummy': False}
                    for _ in range(size)]

    # Called by workers -----------------------------------------------------------------------------------------------

    def pause(self, poll=False):
        rank = self.current
        self.state[rank] = 'polling' if poll else 'waiting'
        self.main.release()
        self.wake[rank].acquire()
        if self.kill:
            raise Killed

    def wait(self, op):
        e = sys.exc_info()[1]
        if e is not None and not isinstance(e, Exception):
            raise e  # The exploration of this path ends: nothing else has to happen.
        while not op.done:
            self.waiting[self.current] = op
            self.pause()

    # Called by the scheduler -----------------------------------------------------------------------------------------

    def enter(self, rank):
        self.current = rank
        core.vm.__dict__.clear()
        core.vm.__dict__.update(self.vms[rank])
        self._globals(self.size, rank)

    def leave(self, rank):
        self.vms[rank] = dict(core.vm.__dict__)
        self.current = None

    @staticmethod
    def _globals(size, rank):
        for m in (core, mpi):
            m.MPI_SIZE, m.MPI_RANK = size, rank
        ocgis.spatial.grid.MPI_SIZE = size
        for name in ('get_bounds_local', 'get_dimension', 'get_variable', 'get_group', 'iter_groups', '_create_or_get_group_'):
            f = getattr(mpi.OcgDist, name)
            d = list(f.__defaults__)
            d[-1] = rank
            f.__defaults__ = tuple(d)

    def deliver(self):
        """Complete what can be completed."""
        progress = False
        for c in self.comms:
            while c.complete():
                progress = True
        for r in [m for m in self.messages if m.kind == 'recv']:
            progress = self.match(r) or progress
        return progress

    def find(self, r):
        """The oldest message for a receive."""
        for s in self.messages:
            if s.kind == 'send' and s.comm is r.comm and s.rank == r.source and s.dest == r.rank and r.tag in (None, s.tag):
                return s

    def match(self, r):
        s = self.find(r)
        if s is None:
            return False
        if r.buf is None:
            r.result = s.payload
        else:
            r.buf[...] = s.payload
        r.done = s.done = True
        self.messages.remove(r)
        self.messages.remove(s)
        return True

    def too_early(self, r):
        """Whether a worker looks for a message before it is there."""
        return self.late is not None and bool(self.late(r.rank, r.source, r.tag))

    def worker(self, rank, f):
        self.wake[rank].acquire()
        try:
            if not self.kill:
                self.out[rank].value = f(rank)
        except Killed:
            pass
        except Exception as e:
            self.out[rank].error = e
        except BaseException as e:
            self.fatal = sys.exc_info()
        finally:
            self.state[rank] = 'done'
            self.main.release()

    def run(self, f):
        saved = dict(core.vm.__dict__), core.MPI_SIZE, core.MPI_RANK
        op = MPIOps.__dict__['get_op']
        type.__setattr__(MPIOps, 'get_op', staticmethod(lambda o: o))
        threads = [threading.Thread(target=self.worker, args=(r, f), daemon=True) for r in range(self.size)]
        for t in threads:
            t.start()
        try:
            self._schedule()
            if self.fatal:
                raise self.fatal[1].with_traceback(self.fatal[2])
        finally:
            self.kill = True
            for r in range(self.size):
                if self.state[r] != 'done':
                    self.out[r].blocked = True
                    self.enter(r)
                    self.wake[r].release()
                    self.main.acquire()
            core.vm.__dict__.clear()
            core.vm.__dict__.update(saved[0])
            self._globals(saved[1], saved[2])
            type.__setattr__(MPIOps, 'get_op', op)
            for t in threads:
                t.join()
        return self.out

    def _schedule(self):
        idle = 0
        while True:
            ready = [r for r in range(self.size) if self.state[r] == 'ready' or
                     (self.state[r] == 'waiting' and self.waiting[r].done)]
            if not ready:
                if self.deliver():
                    idle = 0
                    continue
                ready = [r for r in range(self.size) if self.state[r] == 'polling']
                idle += 1
                if not ready or idle > 3 * self.size + 20:
                    break
            for r in (ready if self.order is None else self.order(ready)):
                self.enter(r)
                self.wake[r].release()
                self.main.acquire()
                self.leave(r)
                if self.fatal:
                    return
        if any(s != 'done' for s in self.state) and not any(o.error for o in self.out):
            raise Deadlock(str([(w.kind if w is not None else None) if s != 'done' else s for s, w in zip(self.state, self.waiting)]))


def run(size, f, order=None, late=None):
    """Run ``f(rank)`` on every worker; the outcomes.  ``late(rank, source, tag)`` says whether a worker looks for
    a message before it is there; otherwise it looks when no other worker can go on."""
    if active():
        return World(size, order, late).run(f)
    # The HDF5 library reports expected errors of threads other than the main one.
    sys.stderr.flush()
    saved, null = os.dup(2), os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    try:
        return World(size, order, late).run(f)
    finally:
        os.dup2(saved, 2)
        os.close(saved)
        os.close(null)


def values(outs):
    """The values of all workers; raises the first error."""
    for o in outs:
        if o.error is not None:
            raise o.error
    return [o.value for o in outs]

