"""mpi4py stand-in: ranks are simulated tasks, collectives are sets of per-pair transfers.

Faithful to what MPI promises and adversarial about what it leaves open:
 - the receive buffer holds garbage from entry until the data arrives; the send buffer may be read
   at any moment between entry and return, so overlapping or reused buffers corrupt data;
 - pairs complete in any order, a rank may leave a collective long before another;
 - a reduction combines contributions in any order (the same result on every rank);
 - standard-mode Send may or may not wait for the receiver.
Every one of those freedoms is a draw from the run's tape.  Collectives are matched per communicator
in call order; ranks that disagree on which collective comes next are reported, not hung.
"""
import copy
import sys
import types

import numpy as np

from sim.core import HarnessGap, Sim, Stop, Violation


class MPIException(RuntimeError):
    def __init__(self, code=16, msg="MPI_ERR_OTHER: known error not in list"):
        super().__init__(msg)
        self.code = code

    def Get_error_code(self):
        return self.code

    Get_error_class = Get_error_code

    def Get_error_string(self):
        return str(self)


class Datatype:
    def __init__(self, name, np_type):
        self.name, self.np = name, np.dtype(np_type)

    def Get_size(self):
        return self.np.itemsize

    size = extent = property(lambda self: self.np.itemsize)

    def Commit(self):
        return self

    def Free(self):
        pass


class Op:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __call__(self, a, b):
        return self.f(a, b)


class _InPlace:
    def __repr__(self):
        return "MPI.IN_PLACE"


IN_PLACE = _InPlace()
UNDEFINED = -32766
ANY_SOURCE, ANY_TAG, PROC_NULL = -2, -1, -1000


class World:
    """The set of ranks of one run."""
    current = None

    def __init__(self, sim, size, net=0):
        self.sim, self.size, self.net = sim, size, net
        self.failed = None
        self.fail_plan = None        # (collective index, kind, rank)
        self.ncoll = 0
        self.kinds = {}
        self.shared = Shared(self, list(range(size)))
        self.comms = {}
        self.tasks = []

    def comm(self, rank):
        if rank not in self.comms:
            self.comms[rank] = Comm(self.shared, rank)
        return self.comms[rank]

    def rank_of(self, task):
        while task is not None:
            if task in self.tasks:
                return self.tasks.index(task)
            task = None
        raise HarnessGap("MPI.COMM_WORLD used outside a simulated rank")

    def spawn(self, fn):
        """Run fn(comm) as each rank."""
        World.current = self
        for r in range(self.size):
            self.tasks.append(self.sim.spawn(f"r{r}", self._rank(fn, r)))

    def _rank(self, fn, r):
        return lambda: fn(self.comm(r))

    def delay(self, label):
        n = self.net
        t = self.sim.tape
        if n == 0:
            return 0
        if n == 1:
            return t.choose(50, label) * 1000                  # up to 50 us
        k = t.choose(20, label)
        if k == 19:
            self.sim.fired("message-stall")
            return 10 ** 9 * (1 + t.choose(60, label))         # up to a minute
        return k * 10000

    def fail(self, why):
        """A process died or a collective failed: everyone blocked in communication gets an error."""
        if self.failed is None:
            self.failed = why
            self.sim.log("mpi-failed", why)
        for t in self.tasks:
            if t.state == "blocked" and str(t.waiting).startswith("mpi"):
                self.sim.wake_task(t)

    def check(self):
        if self.failed is not None:
            raise MPIException(16, f"MPI_ERR_OTHER: {self.failed}")


class Shared:
    """State of one communicator, common to its ranks."""
    count = 0

    def __init__(self, world, members):
        self.world, self.members = world, members
        self.size = len(members)
        self.slots = {}
        self.mail = {}       # (dst, src) -> list of messages
        self.children = {}


class Slot:
    def __init__(self, size):
        self.sig = None
        self.entries = {}
        self.remaining = {}
        self.done = {}
        self.error = {}
        self.value = None


def _dtype_of(spec):
    return None


class _Buf:
    """A parsed mpi4py message specification: flat typed view + count/displacements."""

    def __init__(self, spec, writable):
        counts = displs = mtype = None
        if isinstance(spec, (list, tuple)):
            arr = spec[0]
            rest = list(spec[1:])
            if rest and (isinstance(rest[-1], (Datatype, str))):
                mtype = rest.pop()
            if isinstance(mtype, str):
                mtype = _BYCHAR.get(mtype) or Datatype(mtype, mtype)
            if rest:
                counts = rest[0]
                if isinstance(counts, (list, tuple)) and len(counts) == 2 and not np.isscalar(counts[0]) \
                        and counts[0] is not None:
                    counts, displs = counts
                elif isinstance(counts, tuple) and len(counts) == 2 and np.isscalar(counts[0]) and len(rest) == 1 and mtype is None and False:
                    pass
                if len(rest) > 1:
                    displs = rest[1]
        else:
            arr = spec
        if not isinstance(arr, np.ndarray):
            if isinstance(arr, (bytearray, memoryview)) or hasattr(arr, "__array_interface__"):
                arr = np.asarray(arr)
            else:
                raise TypeError(f"message: cannot handle {type(arr).__name__} as a buffer")
        if arr.flags.c_contiguous:
            flat = arr.reshape(-1)
        elif arr.flags.f_contiguous:
            flat = arr.T.reshape(-1)
        else:
            raise ValueError("ndarray is not contiguous")
        if writable and not arr.flags.writeable:
            raise ValueError("buffer source array is read-only")
        if mtype is not None and mtype.np != flat.dtype:
            flat = flat.view(np.uint8)
            flat = flat[:flat.size // mtype.np.itemsize * mtype.np.itemsize].view(mtype.np)
        if flat.dtype == object:
            raise TypeError("message: object arrays have no MPI datatype")
        self.flat = flat
        self.counts, self.displs = counts, displs

    def _part(self, off, n):
        off, n = int(off), int(n)
        if n < 0 or off < 0 or off + n > self.flat.size:
            raise ValueError(f"message: buffer too small for requested count (need {off + n}, have {self.flat.size})")
        return self.flat[off:off + n]

    def one(self):
        """A single block of data."""
        n = self.counts
        if n is None:
            return self.flat
        return self._part(int(self.displs or 0), int(n))

    def blocks(self, size):
        """`size` equal blocks; an explicit count is per block."""
        n = self.counts
        if n is None:
            if self.flat.size % size:
                raise ValueError(f"message: buffer length {self.flat.size} is not multiple of required block count {size}")
            n = self.flat.size // size
        elif not np.isscalar(n):
            return self.vblocks(size)
        n = int(n)
        base = int(self.displs or 0)
        return [self._part(base + i * n, n) for i in range(size)]

    def vblocks(self, size):
        n, d = self.counts, self.displs
        if n is None:
            q, r = divmod(self.flat.size, size)
            n = [q + (i < r) for i in range(size)]
        elif np.isscalar(n):
            n = [int(n)] * size
        if d is None:
            d, acc = [], 0
            for x in n:
                d.append(acc)
                acc += int(x)
        elif np.isscalar(d):
            d = [int(d) * i for i in range(size)]
        if len(n) != size or len(d) != size:
            raise ValueError("message: expecting %d items" % size)
        return [self._part(d[i], n[i]) for i in range(size)]


def _garbage(v):
    k = v.dtype.kind
    if k in "fc":
        v[...] = np.nan
    elif k in "iu":
        v[...] = 77
    elif k == "b":
        v[...] = True


class Request:
    def __init__(self, comm, fn=None, done=False, value=None):
        self.comm, self.fn, self.done, self.value = comm, fn, done, value

    def Wait(self, status=None):
        if not self.done:
            self.value = self.fn()
            self.done = True
        return True

    def wait(self, status=None):
        self.Wait()
        return self.value

    def Test(self, status=None):
        self.Wait()
        return True

    def test(self, status=None):
        self.Wait()
        return True, self.value

    @staticmethod
    def Waitall(reqs, statuses=None):
        for r in reqs:
            r.Wait()
        return True

    @staticmethod
    def waitall(reqs, statuses=None):
        return [r.wait() for r in reqs]


class Status:
    def __init__(self):
        self.source, self.tag = ANY_SOURCE, ANY_TAG

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class Comm:
    def __init__(self, shared, rank):
        self._last = {}
        self.s = shared
        self._rank = rank
        self._n = 0

    # ---------------------------------------------------------------- queries
    def Get_size(self):
        return self.s.size

    def Get_rank(self):
        return self._rank

    size = property(Get_size)
    rank = property(Get_rank)
    name = "sim"

    def Get_name(self):
        return "sim"

    def Free(self):
        pass

    def Set_errhandler(self, e):
        pass

    def Abort(self, code=1):
        w = self.s.world
        w.fail("aborted by rank %d" % self._rank)
        raise Stop()

    def Is_initialized(self):
        return True

    # ---------------------------------------------------------------- collectives
    def _coll(self, sig, data, plan):
        """Enter the next collective.  sig: what all ranks must agree on.  plan(slot, entries) -> list of
        transfers (src rank, dst rank, fn) run once everyone has arrived."""
        w, sim = self.s.world, self.s.world.sim
        me = sim.cur
        sim.yield_point("mpi." + sig[0])
        w.check()
        k = self._n
        self._n += 1
        w.kinds[sig[0]] = w.kinds.get(sig[0], 0) + 1
        slot = self.s.slots.get(k)
        if slot is None:
            slot = self.s.slots[k] = Slot(self.s.size)
            slot.sig = sig
            slot.index = w.ncoll
            w.ncoll += 1
        if slot.sig != sig:
            raise Violation("mismatched-collectives", f"rank {self._rank} calls {sig} where another rank calls {slot.sig}")
        slot.entries[self._rank] = data
        slot.done[self._rank] = False
        sim.mark(f"enter {sig[0]} {k}")
        if w.fail_plan and w.fail_plan[0] == slot.index and w.fail_plan[1] == "crash" and w.fail_plan[2] == self.s.members[self._rank]:
            w.fail_plan = None
            sim.fired("rank-crash")
            w.fail("process failed")
            raise Stop()
        if len(slot.entries) == self.s.size:
            self._launch(slot, plan)
            del self.s.slots[k]
        while not slot.done[self._rank]:
            sim.block(f"mpi {sig[0]} #{k}")
            if w.failed is not None and not slot.done[self._rank]:
                w.check()
        if self._rank in slot.error:
            raise slot.error[self._rank]
        sim.mark(f"leave {sig[0]} {k}")
        return slot

    def _launch(self, slot, plan):
        w, sim = self.s.world, self.s.world.sim
        size = self.s.size
        fail = w.fail_plan and w.fail_plan[0] == slot.index and w.fail_plan[1] == "error"
        try:
            transfers = plan(slot, slot.entries)
        except MPIException as e:
            for r in range(size):
                slot.error[r] = e
                slot.done[r] = True
            self._wake_all()
            return
        left = [0] * size
        for s, d, f in transfers:
            left[s] += 1
            if d != s:
                left[d] += 1
        cut = None
        if fail:
            w.fail_plan = None
            cut = sim.tape.choose(len(transfers) + 1, "fail-after")
            sim.fired("collective-error")
        order = list(range(len(transfers)))
        tasks = [w.tasks[self.s.members[r]] for r in range(size)]
        state = {"n": 0}

        def finish(r):
            slot.done[r] = True
            sim.wake_task(tasks[r])

        def make(s, d, f):
            def ev():
                if w.failed is not None:
                    return
                if cut is not None and state["n"] >= cut:
                    w.fail("collective failed")
                    return
                state["n"] += 1
                try:
                    f()
                except MPIException as e:
                    slot.error[d] = e
                left[s] -= 1
                if d != s:
                    left[d] -= 1
                for r in {s, d}:
                    if left[r] == 0:
                        sim.at(w.delay("exit"), (lambda r: lambda: finish(r))(r))
            return ev
        # any order: the events carry their own delays, equal delays are permuted
        while order:
            i = order.pop(sim.tape.choose(len(order), "xfer") if w.net else 0)
            s, d, f = transfers[i]
            sim.at(w.delay("net"), make(s, d, f))
        if cut is not None:
            sim.at(10 ** 12, lambda: w.fail("collective failed"))
        for r in range(size):
            if left[r] == 0:
                finish(r)

    def _wake_all(self):
        w = self.s.world
        for r in self.s.members:
            w.sim.wake_task(w.tasks[r])

    @staticmethod
    def _copy(dst, src):
        def f():
            if dst.size < src.size:
                raise MPIException(15, "MPI_ERR_TRUNCATE: message truncated")
            if dst.dtype != src.dtype:
                raw = src.tobytes()
                dv = dst.view(np.uint8)
                if len(raw) > dv.size:
                    raise MPIException(15, "MPI_ERR_TRUNCATE: message truncated")
                dv[:len(raw)] = np.frombuffer(raw, np.uint8)
            else:
                dst[:src.size] = src
        return f

    def _snap(self, v):
        """Eager protocol: the data leaves at entry.  Otherwise it is read while in flight."""
        w = self.s.world
        if w.net and w.sim.tape.choose(2, "eager"):
            return v.copy()
        return v

    def Barrier(self):
        self._coll(("Barrier",), None, lambda sl, en: [(i, j, lambda: None) for i in en for j in en if i != j])

    barrier = Barrier

    def _alltoall(self, kind, sends, recvs):
        sends = [self._snap(v) for v in sends]
        for v in recvs:
            _garbage(v)

        def plan(slot, en):
            return [(i, j, self._copy(en[j][1][i], en[i][0][j])) for i in en for j in en]
        self._coll((kind,), (sends, recvs), plan)

    def Alltoall(self, sendbuf, recvbuf):
        n = self.size
        r = _Buf(recvbuf, True).blocks(n)
        if sendbuf is IN_PLACE:
            s = [v.copy() for v in r]
        else:
            s = _Buf(sendbuf, False).blocks(n)
        self._alltoall("Alltoall", s, r)

    def Alltoallv(self, sendbuf, recvbuf):
        n = self.size
        r = _Buf(recvbuf, True).vblocks(n)
        s = [v.copy() for v in r] if sendbuf is IN_PLACE else _Buf(sendbuf, False).vblocks(n)
        self._alltoall("Alltoallv", s, r)

    def _allgather(self, kind, send, recvs):
        send = self._snap(send)
        for v in recvs:
            _garbage(v)

        def plan(slot, en):
            return [(i, j, self._copy(en[j][1][i], en[i][0])) for i in en for j in en]
        self._coll((kind,), (send, recvs), plan)

    def Allgather(self, sendbuf, recvbuf):
        r = _Buf(recvbuf, True).blocks(self.size)
        s = r[self._rank].copy() if sendbuf is IN_PLACE else _Buf(sendbuf, False).one()
        self._allgather("Allgather", s, r)

    def Allgatherv(self, sendbuf, recvbuf):
        r = _Buf(recvbuf, True).vblocks(self.size)
        s = r[self._rank].copy() if sendbuf is IN_PLACE else _Buf(sendbuf, False).one()
        self._allgather("Allgatherv", s, r)

    def _reduce_values(self, vals, op):
        """Combine in a seeded order, one value for everyone."""
        tape = self.s.world.sim.tape
        vals = list(vals)
        seeded = self.s.world.net > 0
        while len(vals) > 1:
            if seeded and len(vals) > 2:
                i = tape.choose(len(vals), "red")
                a = vals.pop(i)
                j = tape.choose(len(vals), "red")
                b = vals.pop(j)
            else:
                a, b = vals.pop(0), vals.pop(0)
            vals.insert(0, op(a, b))
        return vals[0]

    def _reduction(self, kind, sendbuf, recvbuf, op, root):
        op = op or SUM
        iam = root is None or root == self._rank
        r = _Buf(recvbuf, True).one() if iam and recvbuf is not None else None
        if sendbuf is IN_PLACE:
            s = r.copy()
        else:
            s = self._snap(_Buf(sendbuf, False).one())
        if iam and r is None:
            raise TypeError("message: expecting buffer or list/tuple")
        if r is not None:
            if r.size < s.size:
                raise ValueError("mismatch in send and receive counts")
            _garbage(r)

        def plan(slot, en):
            sizes = {e[0].size for e in en.values()}
            if len(sizes) > 1:
                raise MPIException(15, "MPI_ERR_TRUNCATE: message truncated")
            box = {}

            def value():
                if "v" not in box:
                    box["v"] = self._reduce_values([en[i][0].copy() for i in sorted(en)], op)
                return box["v"]

            def deliver(d):
                def f():
                    v = value()
                    en[d][1][:v.size] = v
                return f
            dst = sorted(en) if root is None else [root]
            return [(i, j, deliver(j) if i == j else value) for j in dst for i in sorted(en)]
        self._coll((kind, op.name, root), (s, r), plan)

    def Allreduce(self, sendbuf, recvbuf, op=None):
        self._reduction("Allreduce", sendbuf, recvbuf, op, None)

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        self._reduction("Reduce", sendbuf, recvbuf, op, root)

    def Bcast(self, buf, root=0):
        b = _Buf(buf, self._rank != root).one()
        if self._rank != root:
            _garbage(b)

        def plan(slot, en):
            return [(root, j, self._copy(en[j], en[root])) for j in en if j != root]
        self._coll(("Bcast", root), b, plan)

    def Gather(self, sendbuf, recvbuf, root=0):
        self._gather("Gather", sendbuf, recvbuf, root, False)

    def Gatherv(self, sendbuf, recvbuf, root=0):
        self._gather("Gatherv", sendbuf, recvbuf, root, True)

    def _gather(self, kind, sendbuf, recvbuf, root, v):
        r = None
        if self._rank == root:
            b = _Buf(recvbuf, True)
            r = b.vblocks(self.size) if v else b.blocks(self.size)
        s = r[self._rank].copy() if sendbuf is IN_PLACE else self._snap(_Buf(sendbuf, False).one())
        for x in r or []:
            _garbage(x)

        def plan(slot, en):
            return [(i, root, self._copy(en[root][1][i], en[i][0])) for i in en]
        self._coll((kind, root), (s, r), plan)

    def Scatter(self, sendbuf, recvbuf, root=0):
        self._scatter("Scatter", sendbuf, recvbuf, root, False)

    def Scatterv(self, sendbuf, recvbuf, root=0):
        self._scatter("Scatterv", sendbuf, recvbuf, root, True)

    def _scatter(self, kind, sendbuf, recvbuf, root, v):
        s = None
        if self._rank == root:
            b = _Buf(sendbuf, False)
            s = b.vblocks(self.size) if v else b.blocks(self.size)
        r = None
        if recvbuf is not IN_PLACE:
            r = _Buf(recvbuf, True).one()
            _garbage(r)

        def plan(slot, en):
            return [(root, j, self._copy(en[j][1], en[root][0][j]) if en[j][1] is not None else (lambda: None)) for j in en]
        self._coll((kind, root), (s, r), plan)

    # ---------------------------------------------------------------- object collectives
    def _objs(self, kind, obj, extra=()):
        obj = copy.deepcopy(obj)
        box = {}

        def plan(slot, en):
            slot.value = [en[i] for i in sorted(en)]
            return [(i, j, lambda: None) for i in en for j in en if i != j]
        slot = self._coll((kind,) + tuple(extra), obj, plan)
        return slot

    def allreduce(self, sendobj, op=None):
        op = op or SUM

        def plan(slot, en):
            slot.value = self._reduce_values([en[i] for i in sorted(en)], op)
            return [(i, j, lambda: None) for i in en for j in en if i != j]
        slot = self._coll(("allreduce", op.name), copy.deepcopy(sendobj), plan)
        return copy.deepcopy(slot.value)

    def reduce(self, sendobj, op=None, root=0):
        op = op or SUM

        def plan(slot, en):
            slot.value = self._reduce_values([en[i] for i in sorted(en)], op)
            return [(i, root, lambda: None) for i in en if i != root]
        slot = self._coll(("reduce", op.name, root), copy.deepcopy(sendobj), plan)
        return copy.deepcopy(slot.value) if self._rank == root else None

    def allgather(self, sendobj):
        return copy.deepcopy(self._objs("allgather", sendobj).value)

    def gather(self, sendobj, root=0):
        v = self._objs("gather", sendobj, (root,)).value
        return copy.deepcopy(v) if self._rank == root else None

    def bcast(self, obj, root=0):
        return copy.deepcopy(self._objs("bcast", obj if self._rank == root else None, (root,)).value[root])

    def scatter(self, sendobj, root=0):
        return copy.deepcopy(self._objs("scatter", sendobj if self._rank == root else None, (root,)).value[root][self._rank])

    def alltoall(self, sendobj):
        v = self._objs("alltoall", sendobj).value
        return [copy.deepcopy(v[i][self._rank]) for i in range(self.size)]

    def Split(self, color=0, key=0):
        v = self._objs("Split", (color, key)).value
        if color == UNDEFINED:
            return COMM_NULL
        members = [r for _, r in sorted((v[r][1], r) for r in range(self.size) if v[r][0] == color)]
        ident = ("split", self._n, tuple(members))
        sh = self.s.children.get(ident)
        if sh is None:
            sh = self.s.children[ident] = Shared(self.s.world, [self.s.members[r] for r in members])
        return Comm(sh, members.index(self._rank))

    def Dup(self, info=None):
        return self.Split(0, self._rank)

    Clone = Dup

    # ---------------------------------------------------------------- point to point
    def _post(self, payload, dest, tag, sync):
        w, sim = self.s.world, self.s.world.sim
        box = self.s.mail.setdefault((dest, self._rank), [])
        msg = {"data": payload, "tag": tag, "arrived": False, "taken": False, "sender": sim.cur, "src": self._rank}
        box.append(msg)

        def arrive():
            msg["arrived"] = True
            sim.wake_task(w.tasks[self.s.members[dest]])
        # non-overtaking: a message never arrives before an earlier one of the same pair
        last = self._last
        t = max(sim.now + w.delay("p2p"), last.get(dest, 0))
        last[dest] = t
        sim.at(t - sim.now, arrive)
        if sync:
            while not msg["taken"]:
                sim.block(f"mpi Send to {dest}")
                w.check()

    def _take(self, source, tag):
        w, sim = self.s.world, self.s.world.sim
        while True:
            w.check()
            found = []
            for (dst, src), box in sorted(self.s.mail.items()):
                if dst != self._rank or (source != ANY_SOURCE and src != source):
                    continue
                for m in box:
                    if tag == ANY_TAG or m["tag"] == tag:
                        if m["arrived"]:
                            found.append((box, m))
                        break
            if found:
                box, m = found[sim.tape.choose(len(found), "match")]
                box.remove(m)
                m["taken"] = True
                sim.wake_task(m["sender"])
                return m
            sim.block(f"mpi Recv from {source}")

    def _sync(self):
        w = self.s.world
        return bool(w.net and w.sim.tape.choose(2, "rendezvous"))

    def Send(self, buf, dest, tag=0):
        self.s.world.sim.yield_point("mpi.Send")
        self.s.world.check()
        if dest == PROC_NULL:
            return
        self._post(_Buf(buf, False).one().copy(), dest, tag, self._sync())

    Ssend = Send

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self.s.world.sim.yield_point("mpi.Recv")
        b = _Buf(buf, True).one()
        _garbage(b)
        m = self._take(source, tag)
        self._copy(b, m["data"])()
        if status is not None:
            status.source, status.tag = m["src"], m["tag"]

    def Isend(self, buf, dest, tag=0):
        self._post(_Buf(buf, False).one().copy(), dest, tag, False)
        return Request(self, done=True)

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(self, lambda: self.Recv(buf, source, tag))

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        r = self.Isend(sendbuf, dest, sendtag)
        self.Recv(recvbuf, source, recvtag, status)
        r.Wait()

    def send(self, obj, dest, tag=0):
        self.s.world.sim.yield_point("mpi.send")
        self._post(copy.deepcopy(obj), dest, tag, self._sync())

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self.s.world.sim.yield_point("mpi.recv")
        m = self._take(source, tag)
        if status is not None:
            status.source, status.tag = m["src"], m["tag"]
        return m["data"]

    def isend(self, obj, dest, tag=0):
        self._post(copy.deepcopy(obj), dest, tag, False)
        return Request(self, done=True)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(self, lambda: self.recv(None, source, tag))

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        self._post(copy.deepcopy(sendobj), dest, sendtag, False)
        return self.recv(None, source, recvtag, status)

    # ---------------------------------------------------------------- nonblocking collectives: performed at Wait
    def __getattr__(self, name):
        if name.startswith("I") and len(name) > 1:
            target = name[1:].capitalize()
            f = type(self).__dict__.get(target)
            if f is not None:
                return lambda *a, **k: Request(self, lambda: f(self, *a, **k))
        if name.startswith("__"):
            raise AttributeError(name)
        raise HarnessGap(f"MPI communicator method {name} is not simulated")


class _WorldComm:
    """MPI.COMM_WORLD: the communicator of whichever simulated rank is running."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        w = World.current
        if w is None or w.sim.cur is None:
            if name in ("size", "Get_size"):
                return 1 if name == "size" else (lambda: 1)
            if name in ("rank", "Get_rank"):
                return 0 if name == "rank" else (lambda: 0)
            raise HarnessGap("MPI.COMM_WORLD used outside a simulated rank")
        return getattr(w.comm(w.rank_of(w.sim.cur)), name)


COMM_NULL = None
_sum = lambda a, b: a + b
SUM, PROD = Op("SUM", _sum), Op("PROD", lambda a, b: a * b)
MAX, MIN = Op("MAX", lambda a, b: np.maximum(a, b)), Op("MIN", lambda a, b: np.minimum(a, b))
LAND = Op("LAND", lambda a, b: np.logical_and(a, b))
LOR = Op("LOR", lambda a, b: np.logical_or(a, b))
BAND, BOR = Op("BAND", lambda a, b: a & b), Op("BOR", lambda a, b: a | b)
MAXLOC = Op("MAXLOC", lambda a, b: max(a, b, key=lambda x: (x[0], -x[1])))
MINLOC = Op("MINLOC", lambda a, b: min(a, b, key=lambda x: (x[0], x[1])))
_BYCHAR = {}


class _Module(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__") or Sim.current is None:
            raise AttributeError(f"module 'mpi4py.MPI' has no attribute {name!r}")
        raise HarnessGap(f"mpi4py.MPI.{name} is not simulated")


def install():
    pkg = types.ModuleType("mpi4py")
    pkg.__path__ = []
    m = _Module("mpi4py.MPI")
    m.COMM_WORLD = _WorldComm()
    m.COMM_SELF = None
    m.COMM_NULL = COMM_NULL
    m.IN_PLACE, m.UNDEFINED = IN_PLACE, UNDEFINED
    m.ANY_SOURCE, m.ANY_TAG, m.PROC_NULL = ANY_SOURCE, ANY_TAG, PROC_NULL
    m.Exception = MPIException
    m.Comm = m.Intracomm = Comm
    m.Request, m.Status, m.Op, m.Datatype = Request, Status, Op, Datatype
    for o in (SUM, PROD, MAX, MIN, LAND, LOR, BAND, BOR, MAXLOC, MINLOC):
        setattr(m, o.name, o)
    for name, t in (("DOUBLE", "f8"), ("FLOAT", "f4"), ("COMPLEX", "c8"), ("COMPLEX8", "c8"), ("COMPLEX16", "c16"), ("DOUBLE_COMPLEX", "c16"),
                    ("C_DOUBLE_COMPLEX", "c16"), ("C_FLOAT_COMPLEX", "c8"), ("CXX_DOUBLE_COMPLEX", "c16"), ("INT", "i4"), ("LONG", "i8"), ("INT64_T", "i8"), ("INT32_T", "i4"),
                    ("UINT32_T", "u4"), ("UNSIGNED", "u4"), ("UINT64_T", "u8"), ("BYTE", "u1"), ("CHAR", "i1"), ("BOOL", "?"), ("REAL8", "f8"),
                    ("LONG_LONG", "i8"), ("INTEGER", "i4")):
        setattr(m, name, Datatype(name, t))
        _BYCHAR.setdefault(np.dtype(t).char, getattr(m, name))
    m._typedict = m.__TypeDict__ = _BYCHAR
    m.ERRORS_RETURN = m.ERRORS_ARE_FATAL = None
    m.Wtime = lambda: (Sim.current.now if Sim.current else 0) * 1e-9
    m.Get_processor_name = lambda: "sim"
    m.Is_initialized = lambda: True
    m.Is_finalized = lambda: False
    pkg.MPI = m
    sys.modules["mpi4py"] = pkg
    sys.modules["mpi4py.MPI"] = m
