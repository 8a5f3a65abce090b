"""The reader as a sequence."""
from dv.gen import Gen
from dv.generic import Generic
from dv.harness import fresh_file
from dv.session import Theorem, Var
from specs import reader
from props.registry import prop

def around(n):
    return range(-n - 2, n + 3)


def bounds(n):
    return [-n - 1, -1, 0, 1, n, n + 2]


def steps(n):
    return [-2, -1, 1, 2, 3]


@prop('P06')
def sequence(run):
    i, j = Var('i', around), Var('j', around)
    a, b, c = Var('a', bounds), Var('b', bounds), Var('c', steps)
    ths = [Theorem('event at any index', reader.spec_at, reader.impl_at, (i,), (i,)),
           Theorem('all events by iteration', reader.spec_all, reader.impl_all, fresh=True),
           Theorem('iteration with other accesses', reader.spec_all_and_one, reader.impl_all_and_one, (j,), (j,), fresh=True),
           Theorem('the end of the iteration', reader.spec_exhausted, reader.impl_exhausted, fresh=True, expect=False)]
    for x in (a, None):
        for y in (b, None):
            for z in (c, None):
                ths.append(Theorem('slice [%s:%s:%s]' % tuple('' if v is None else v.name for v in (x, y, z)),
                                   reader.spec_slice, reader.impl_slice, (x, y, z), (x, y, z)))
    run.prove_pml(ths, decoder=True)
    run.prove([Generic('reading all events at once (%d-bit)' % w, reader.spec_read_all, reader.impl_read_all,
                       lambda w=w: [fresh_file(), w == 64], lambda rng, w=w: (Gen(rng, w).log(), w == 64)) for w in (64, 32)], decoder=True)
    run.need_paths('the end of the iteration (64-bit)', 1)
