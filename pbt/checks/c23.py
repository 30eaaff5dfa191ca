"""C23: splitting work over processes (fake communicator, one thread per rank)."""
import threading

from hypothesis import strategies as st

from pbt.core import Test, Violation, check, mpirun

RULE = "non-trivial: at least two processes and at least one element"
ASSUMPTIONS = ["in all tests but `real` the communicator is a stand-in with one thread per rank that implements "
               "rank, size, barrier, bcast, scatter, gather, allgather and reductions by sum with MPI's semantics; `real` "
               "starts 2 to 5 ranks with mpirun"]


class Comm(object):
    def __init__(self, size):
        self.size = size
        self.local = threading.local()
        self.bar = threading.Barrier(size, timeout=20)
        self.slots = [None]*size

    @property
    def rank(self):
        return self.local.rank

    def Get_rank(self):
        return self.local.rank

    def Get_size(self):
        return self.size

    def barrier(self):
        self.bar.wait()
    Barrier = barrier

    def allgather(self, obj):
        self.slots[self.rank] = obj
        self.bar.wait()
        out = list(self.slots)
        self.bar.wait()
        return out

    def gather(self, obj, root=0):
        out = self.allgather(obj)
        return out if self.rank == root else None

    def bcast(self, obj, root=0):
        return self.allgather(obj)[root]

    def scatter(self, obj, root=0):
        return self.allgather(obj)[root][self.rank]

    def allreduce(self, obj, op=None):
        out = self.allgather(obj)
        total = out[0]
        for o in out[1:]:
            total = total + o
        return total

    def reduce(self, obj, op=None, root=0):
        out = self.allreduce(obj)
        return out if self.rank == root else None


class FakeMPI(object):
    SUM = None

    def __init__(self, size):
        self.COMM_WORLD = Comm(size)


def on_ranks(size, fn):
    """Run fn(rank) on every rank, return the results in rank order."""
    from scaks import mpicommons
    fake = FakeMPI(size)
    missing = object()
    saved = mpicommons.MPI_INSTALLED, mpicommons.__dict__.get('MPI', missing)
    mpicommons.MPI_INSTALLED, mpicommons.MPI = True, fake
    results, errors = [None]*size, []

    def target(rank):
        fake.COMM_WORLD.local.rank = rank
        try:
            results[rank] = fn(rank)
        except Exception as e:
            errors.append((isinstance(e, threading.BrokenBarrierError), rank, e))
            fake.COMM_WORLD.bar.abort()
    try:
        threads = [threading.Thread(target=target, args=(r,)) for r in range(size)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        mpicommons.MPI_INSTALLED = saved[0]
        if saved[1] is missing:
            del mpicommons.MPI
        else:
            mpicommons.MPI = saved[1]
    if errors:
        broken, rank, e = min(errors, key=lambda x: x[:2])
        raise Violation('rank %d of %d: %s: %s' % (rank, size, type(e).__name__, e))
    return results


SIZES = st.one_of(st.integers(1, 8), st.integers(1, 64))


@st.composite
def cases(draw):
    size = draw(SIZES)
    n = draw(st.one_of(st.integers(0, 12), st.integers(0, 200), st.sampled_from([size-1, size, size+1, 2*size, 2*size-1])))
    return dict(size=size, n=n, kind=draw(st.sampled_from(['list', 'list', 'tuple', 'str', 'pairs'])))


def sequence(case):
    seq = list(range(100, 100 + case['n']))
    if case['kind'] == 'tuple':
        return tuple(seq)
    if case['kind'] == 'str':
        return ['s%d' % i for i in seq]
    if case['kind'] == 'pairs':
        return [[i, i % 3] for i in seq]
    return seq


def t_sequence(case, ctx):
    from scaks.mpicommons import mpi
    size, n = case['size'], case['n']
    seq = sequence(case)
    ctx.nontrivial(size > 1 and n > 0)
    if n < size:
        ctx.label('fewer elements than processes')
    before = repr(seq)

    def work(rank):
        part = mpi.split_seq(seq)
        merged = mpi.merge_seq(list(part))
        doubled = mpi.merge_seq([(x, x) for x in part])
        return part, merged, doubled, mpi.rank, mpi.size
    out = on_ranks(size, work)
    joined = [x for o in out for x in o[0]]
    check(joined == list(seq), 'parts %r do not add up to the sequence of %d over %d processes', [list(o[0]) for o in out], n, size)
    for r, o in enumerate(out):
        check(len(o[1]) == n, 'merged sequence on rank %d has %d elements, expected %d', r, len(o[1]), n)
        for _ in range(2):      # a result is used more than once
            check(list(o[1]) == list(seq), 'merged sequence on rank %d is %r', r, o[1])
        check(list(o[2]) == [(x, x) for x in seq], 'merged results on rank %d are %r', r, o[2])
        check(o[3] == r and o[4] == size, 'rank %d of %d reported as %r of %r', r, size, o[3], o[4])
    check(repr(seq) == before, 'the sequence was modified')


def t_size(case, ctx):
    from scaks.mpicommons import mpi
    size, n = case['size'], case['n']
    ctx.nontrivial(size > 1 and n > 0)
    if n < size:
        ctx.label('fewer than processes')
    out = on_ranks(size, lambda rank: mpi.split_size(n))
    check(all(isinstance(x, int) for x in out) and sum(out) == n, 'parts %r of %d', out, n)
    check(max(out) - min(out) <= 1, 'parts %r of %d differ by more than one', out, n)
    check(min(out) >= 0, 'parts %r of %d', out, n)


def t_master(case, ctx):
    from scaks.mpicommons import master_only, mpi
    size = case['size']
    ctx.nontrivial(size > 1)
    ran = []

    @master_only
    def job(a, b=2):
        "words"
        ran.append((mpi.rank, a, b))
        return a + b
    check(job.__name__ == 'job' and job.__doc__ == 'words', 'name and documentation are lost')
    out = on_ranks(size, lambda rank: (job(rank), job(a=5, b=case['n']), mpi.is_master, mpi.bcast(rank*7 + 3)))
    check(ran == [(0, 0, 2), (0, 5, case['n'])], 'master function ran as %r', ran)
    check(out[0][:2] == (2, 5 + case['n']), 'master got %r', out[0])
    for r, o in enumerate(out):
        check(o[2] is (r == 0), 'rank %d is master: %r', r, o[2])
        check(o[3] == 3, 'rank %d got %r from the broadcast', r, o[3])
        if r:
            check(o[:2] == (None, None), 'rank %d got %r', r, o)


def t_serial(case, ctx):
    """Without MPI there is one process."""
    from scaks.mpicommons import mpi, master_only
    seq = sequence(case)
    ctx.nontrivial(case['n'] > 1)
    check(mpi.size == 1 and mpi.rank == 0 and mpi.is_master, 'not a single process')
    check(list(mpi.split_seq(seq)) == list(seq) and list(mpi.merge_seq(seq)) == list(seq), 'sequence changed')
    check(mpi.split_size(case['n']) == case['n'], 'size changed')
    check(mpi.bcast(seq) == seq and master_only(len)(seq) == len(seq), 'data changed')


def real(cases):
    """On every rank started by mpirun."""
    from scaks.mpicommons import mpi, master_only
    job = master_only(lambda a: [a, mpi.rank])
    out = []
    for case in cases:
        seq = sequence(case)
        part = mpi.split_seq(seq)
        merged = mpi.merge_seq(list(part))
        mpi.barrier()
        got = [mpi.rank, mpi.size, mpi.is_master, list(part), list(merged), list(merged), list(mpi.merge_seq([(x, x) for x in part])),
               mpi.split_size(case['n']), mpi.bcast([mpi.rank, case['n'], 'from', mpi.rank]), job(case['n'])]
        out.append(got)
    return out


def t_real(case, ctx):
    size = case['size']
    out = mpirun(size, 'c23', 'real', case['cases'])
    if out is None:
        ctx.label('mpirun does not start')
        return
    ctx.nontrivial(any(c['n'] for c in case['cases']))
    ctx.label('%d ranks' % size)
    for i, c in enumerate(case['cases']):
        seq, n = list(sequence(c)), c['n']
        got = [o[i] for o in out]
        check([g[:3] for g in got] == [[r, size, r == 0] for r in range(size)], 'ranks of %d report %r', size, [g[:3] for g in got])
        check([x for g in got for x in g[3]] == seq, 'parts %r do not add up to the sequence of %d over %d processes', [g[3] for g in got], n, size)
        for g in got:
            check(g[4] == seq and g[5] == seq, 'merged sequence on rank %d is %r, then %r', g[0], g[4], g[5])
            check(g[6] == [(x, x) for x in seq], 'merged results on rank %d are %r', g[0], g[6])
            check(g[8] == [0, n, 'from', 0], 'rank %d got %r from the broadcast', g[0], g[8])
            check(g[9] == ([n, 0] if g[0] == 0 else None), 'master function on rank %d returned %r', g[0], g[9])
        sizes = [g[7] for g in got]
        check(sum(sizes) == n and max(sizes) - min(sizes) <= 1 and min(sizes) >= 0, 'parts %r of %d', sizes, n)


@st.composite
def real_cases(draw):
    return dict(size=draw(st.integers(2, 5)), cases=draw(st.lists(cases(), min_size=3, max_size=20)))


TESTS = [Test('sequence', cases(), t_sequence, 2500, 40000),
         Test('size', cases(), t_size, 2500, 40000),
         Test('master', cases(), t_master, 800, 10000),
         Test('serial', cases(), t_serial, 300, 3000),
         Test('real', real_cases(), t_real, 16, 300)]
