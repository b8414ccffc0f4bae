"""A communicator between forked processes, run by a hub that sees every
collective call: used to record distributed runs (MpiTrace.tla).

The hub completes a collective when every rank has entered it, notices calls
that do not match and ranks that can never meet again, and releases the ranks
in an order chosen by the caller (ranks only meet in collectives, so these
orders are the schedules)."""
import hashlib
import operator
import os
import pickle
import select
import struct
import time
import traceback

import numpy as np


class Mismatch(Exception):
    pass


def _types():
    from mpi4py import MPI
    pairs = [('FLOAT', 'f4'), ('DOUBLE', 'f8'), ('LONG', 'i8'), ('INT', 'i4'),
             ('INT64_T', 'i8'), ('INT32_T', 'i4'), ('LONG_LONG', 'i8'),
             ('C_BOOL', '?'), ('BOOL', '?'), ('BYTE', 'u1'), ('CHAR', 'i1'),
             ('SHORT', 'i2'), ('UNSIGNED_CHAR', 'u1'), ('INT16_T', 'i2'),
             ('INT8_T', 'i1'), ('UINT8_T', 'u1'), ('UINT64_T', 'u8')]
    return [(getattr(MPI, n), np.dtype(d)) for n, d in pairs]


def dtype_of(t):
    if isinstance(t, str):
        return np.dtype(t)
    for m, d in _types():
        if t is m or t == m:
            return d
    raise TypeError('unknown MPI type %r' % (t,))


def is_type(t):
    from mpi4py import MPI
    return isinstance(t, (MPI.Datatype, str))


def op_name(op):
    from mpi4py import MPI
    for name in ('SUM', 'MAX', 'MIN', 'PROD', 'LOR', 'LAND'):
        if op is getattr(MPI, name) or op == getattr(MPI, name):
            return name
    raise TypeError('unknown operation')


REDUCE = {'SUM': np.add, 'MAX': np.maximum, 'MIN': np.minimum,
          'PROD': np.multiply, 'LOR': np.logical_or, 'LAND': np.logical_and}


def buf(spec):
    """(array, counts, displacements, dtype) of a buffer specification."""
    counts = disps = t = None
    if isinstance(spec, (list, tuple)):
        spec = list(spec)
        arr = spec.pop(0)
        if spec and is_type(spec[-1]):
            t = spec.pop()
        if spec and isinstance(spec[0], tuple) and len(spec[0]) == 2 \
                and not np.isscalar(spec[0][0]):
            counts, disps = spec[0]
        elif spec:
            counts = spec[0]
            disps = spec[1] if len(spec) > 1 else None
    else:
        arr = spec
    if arr is None:
        return None, counts, disps, t
    arr = np.asarray(arr) if not isinstance(arr, np.ndarray) else arr
    if not (arr.flags.c_contiguous or arr.flags.f_contiguous):
        raise ValueError('ndarray is not contiguous')
    d = dtype_of(t) if t is not None else arr.dtype
    return arr, counts, disps, d


def integers(vals):
    """What mpi4py accepts as counts and displacements."""
    if np.isscalar(vals):
        return [operator.index(vals)]
    return [operator.index(v) for v in vals]


def raw(arr):
    """The bytes as they lie in memory."""
    return arr.tobytes(order='A' if arr.flags.f_contiguous
                       and not arr.flags.c_contiguous else 'C')


def fill(arr, offset, data):
    if arr is None:
        raise ValueError('no receive buffer')
    if not arr.flags.writeable:
        raise ValueError('read-only receive buffer')
    flat = arr.reshape(-1, order='A' if arr.flags.f_contiguous
                       and not arr.flags.c_contiguous else 'C')
    assert np.shares_memory(flat, arr) or arr.size == 0
    b = flat.view(np.uint8)
    if offset + len(data) > b.size:
        raise Mismatch('message truncated: %d bytes for a buffer of %d'
                       % (offset + len(data), b.size))
    b[offset:offset + len(data)] = np.frombuffer(data, np.uint8)


class Comm:
    """What a rank holds."""

    def __init__(self, rank, size, rfd, wfd):
        self.rank, self.size = rank, size
        self._r, self._w = rfd, wfd

    def __deepcopy__(self, memo):
        return self

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def Dup(self, *a):
        return self

    Clone = Dup

    def _call(self, op, root, payload, detail=''):
        if root is not None:
            root = int(root)
            if not 0 <= root < self.size:
                raise Mismatch('root %d does not exist' % root)
        send_msg(self._w, ('call', op, root, payload, detail))
        m = recv_msg(self._r)
        if m is None:
            os._exit(9)
        if m[0] == 'bad':
            raise Mismatch(m[1])
        return m[1]

    # objects
    def bcast(self, obj, root=0):
        got = self._call('bcast', root,
                         pickle.dumps(obj) if self.rank == root else None)
        return pickle.loads(got[root])

    def gather(self, obj, root=0):
        got = self._call('gather', root, pickle.dumps(obj))
        return [pickle.loads(g) for g in got] if self.rank == root else None

    def allgather(self, obj):
        return [pickle.loads(g) for g in
                self._call('allgather', None, pickle.dumps(obj))]

    def alltoall(self, objs):
        got = self._call('alltoall', None, pickle.dumps(list(objs)))
        return [pickle.loads(g)[self.rank] for g in got]

    def scatter(self, objs, root=0):
        got = self._call('scatter', root, pickle.dumps(list(objs))
                         if self.rank == root else None)
        return pickle.loads(got[root])[self.rank]

    def _fold(self, vals, op):
        from mpi4py import MPI
        f = REDUCE[op_name(MPI.SUM if op is None else op)]
        out = vals[0]
        for v in vals[1:]:
            out = f(out, v) if isinstance(out, np.ndarray) else \
                type(out)(f(out, v)) if not isinstance(out, (list, str)) \
                else out + v
        return out

    def reduce(self, obj, op=None, root=0):
        got = self._call('reduce', root, pickle.dumps(obj))
        return self._fold([pickle.loads(g) for g in got], op) \
            if self.rank == root else None

    def allreduce(self, obj, op=None):
        return self._fold([pickle.loads(g) for g in self._call(
            'allreduce', None, pickle.dumps(obj))], op)

    def barrier(self):
        self._call('barrier', None, None)

    Barrier = barrier

    # buffers
    def Bcast(self, spec, root=0):
        arr, _, _, t = buf(spec)
        send = None
        if self.rank == root:
            send = raw(arr)[:arr.nbytes // t.itemsize * t.itemsize]
        got = self._call('Bcast', root, send, str(t))
        if self.rank != root:
            fill(arr, 0, got[root])

    def _recv(self, spec, got):
        arr, counts, disps, t = buf(spec)
        if counts is None:
            counts = [len(g) // t.itemsize for g in got]
        counts = integers(counts)
        if disps is None:
            disps = np.insert(np.cumsum(counts), 0, 0)[:-1]
        disps = integers(disps)
        if len(counts) != len(got):
            raise Mismatch('%d counts for %d ranks' % (len(counts), len(got)))
        for g, c, d in zip(got, counts, disps):
            if len(g) > c * t.itemsize:
                raise Mismatch('message truncated')
            fill(arr, int(d) * t.itemsize, g)

    def Gatherv(self, send, recv, root=0):
        arr, counts, _, t = buf(send)
        n = arr.nbytes // t.itemsize if counts is None else \
            integers(counts)[0]
        got = self._call('Gatherv', root, raw(arr)[:n * t.itemsize], str(t))
        if self.rank == root:
            self._recv(recv, got)

    Gather = Gatherv

    def Allgatherv(self, send, recv):
        arr, _, _, t = buf(send)
        self._recv(recv, self._call('Allgatherv', None, raw(arr), str(t)))

    Allgather = Allgatherv

    def Scatterv(self, send, recv, root=0):
        payload = None
        if self.rank == root:
            arr, counts, disps, t = buf(send)
            counts = [arr.size // self.size] * self.size if counts is None \
                else integers(counts)
            disps = np.insert(np.cumsum(counts), 0, 0)[:-1] \
                if disps is None else disps
            b = raw(arr)
            payload = pickle.dumps([
                b[int(d) * t.itemsize:(int(d) + c) * t.itemsize]
                for c, d in zip(counts, disps)])
        got = self._call('Scatterv', root, payload)
        arr, _, _, _ = buf(recv)
        fill(arr, 0, pickle.loads(got[root])[self.rank])

    Scatter = Scatterv

    def _Red(self, name, send, recv, op, root):
        from mpi4py import MPI
        if send is MPI.IN_PLACE:
            send = recv
        arr, _, _, t = buf(send)
        got = self._call(name, root, raw(arr), str(t))
        if root is None or self.rank == root:
            out = self._fold([np.frombuffer(g, t) for g in got], op)
            fill(buf(recv)[0], 0, np.ascontiguousarray(
                np.asarray(out, t)).tobytes())

    def Reduce(self, send, recv, op=None, root=0):
        self._Red('Reduce', send, recv, op, root)

    def Allreduce(self, send, recv, op=None):
        self._Red('Allreduce', send, recv, op, None)


def send_msg(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('<q', len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def recv_msg(fd):
    def read(n):
        out = b''
        while len(out) < n:
            part = os.read(fd, min(1 << 20, n - len(out)))
            if not part:
                return None
            out += part
        return out
    h = read(8)
    if h is None:
        return None
    b = read(struct.unpack('<q', h)[0])
    return None if b is None else pickle.loads(b)


def run(size, fn, order=None, timeout=120.):
    """fn(comm) on every rank: the results and what the hub saw.

    order(k, ranks) gives the order in which the ranks are released after
    the k-th collective."""
    links = []
    for rank in range(size):
        down_r, down_w = os.pipe()
        up_r, up_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                for _, r, w in links:
                    os.close(r)
                    os.close(w)
                os.close(down_w)
                os.close(up_r)
                comm = Comm(rank, size, down_r, up_w)
                try:
                    if recv_msg(down_r) is None:
                        os._exit(9)
                    res = ('end', fn(comm), '')
                except Exception as e:      # noqa: an observation
                    own = any('/repo/src/pyuoi' in f.filename for f in
                              traceback.extract_tb(e.__traceback__))
                    text = '%s: %s' % (type(e).__name__, str(e)[:200])
                    res = ('end', None, text if own
                           or isinstance(e, Mismatch)
                           else '!' + traceback.format_exc())
                send_msg(up_w, res)
            finally:
                os._exit(0)
        os.close(down_r)
        os.close(up_w)
        links.append((pid, up_r, down_w))
    ops = [[] for _ in range(size)]
    results, excs = [None] * size, [''] * size
    ended, problem, k = set(), '', 0
    deadline = time.time() + timeout
    try:
        release = list(range(size))
        messages = {r: ('go', None) for r in release}
        while True:
            pending = {}
            seq = order(k, list(release)) if order else list(release)
            groups = [[r] for r in seq] if order else [seq]
            for group in groups:
                for r in group:
                    send_msg(links[r][2], messages[r])
                wait = set(group)
                while wait:
                    fds = {links[r][1]: r for r in wait}
                    ready, _, _ = select.select(
                        list(fds), [], [], max(0., deadline - time.time()))
                    if not ready:
                        problem = 'a rank does not end'
                        break
                    for fd in ready:
                        r = fds[fd]
                        m = recv_msg(fd)
                        wait.discard(r)
                        if m is None:
                            excs[r] = 'the process died'
                            ended.add(r)
                        elif m[0] == 'end':
                            results[r], excs[r] = m[1], m[2]
                            ended.add(r)
                        else:
                            ops[r].append(dict(op=m[1], root=-1 if m[2] is
                                               None else m[2], type=m[4]))
                            pending[r] = m
                if problem:
                    break
            if problem or len(ended) == size:
                break
            if ended:
                problem = 'ranks %s wait for ranks which have ended' % sorted(
                    pending)
                break
            sig = {(m[1], m[2]) for m in pending.values()}
            if len(sig) > 1:
                problem = 'collectives do not match: %s' % sorted(
                    (r, m[1], m[2]) for r, m in pending.items())
                break
            got = [pending[r][3] for r in range(size)]
            messages = {r: ('ok', got) for r in range(size)}
            release = list(range(size))
            k += 1
    finally:
        for pid, r, w in links:
            os.close(w)
        for pid, r, w in links:
            t = time.time() + 5
            while time.time() < t:
                if os.waitpid(pid, os.WNOHANG)[0]:
                    break
                time.sleep(.002)
            else:
                os.kill(pid, 9)
                os.waitpid(pid, 0)
            os.close(r)
    for e in excs:
        if e.startswith('!'):
            raise RuntimeError(e[1:])
    return dict(results=results, excs=excs, ops=ops, problem=problem,
                collectives=k)


def digest(*arrays):
    h = hashlib.sha1()
    for a in arrays:
        a = np.asarray(a)
        a = np.ascontiguousarray(a.astype(float)) + 0. \
            if a.dtype.kind in 'biuf' else np.array(a.astype(str))
        h.update(repr(a.shape).encode() + a.tobytes())
    return h.hexdigest()[:16]


def die_with_parent():
    """In a rank: end when mpirun does, whatever way it ends."""
    import ctypes
    ctypes.CDLL(None).prctl(1, 9)


def mpirun(P, argv, clean, tries=3, timeout=80):
    """argv under mpirun with P ranks: '' or what went wrong.

    mpirun itself fails now and then (its daemons talk over TCP), so a run
    that fails is repeated; `clean` is a pattern of the files it leaves.
    'start: ...' means that no rank wrote anything although mpirun ended."""
    import glob
    import subprocess
    import sys
    env = {k: v for k, v in os.environ.items()
           if k not in ('OMPI_MCA_btl', 'OMPI_MCA_pml')}
    cmd = ['mpirun', '--allow-run-as-root', '--oversubscribe', '--mca', 'pml',
           'ob1', '--mca', 'btl', 'self,tcp', '--mca', 'btl_tcp_if_include',
           'lo', '--mca', 'oob_tcp_if_include', 'lo', '--mca',
           'mpi_yield_when_idle', '1', '-n', str(P), sys.executable] + argv
    problem = ''
    for _ in range(tries):
        for f in glob.glob(clean):
            os.remove(f)
        try:
            p = subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL,
                                 stderr=subprocess.PIPE, text=True)
            err = p.communicate(timeout=timeout)[1]
            if p.returncode == 0:
                return ''
            problem = 'mpirun: ' + err[-600:]
            if not glob.glob(clean):
                problem = 'start: ' + problem
        except subprocess.TimeoutExpired:
            problem = 'mpirun does not end'
            p.terminate()   # it passes this on to the ranks
            try:
                p.communicate(timeout=10)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
        sys.stderr.write(problem + '\n')
    return problem
