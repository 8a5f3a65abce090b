"""Properties of the naming functions."""
from dv.generic import Generic, sym_bytes, sym_int
from specs import names, tables as T
from props.registry import prop


def mask(rng):
    k = rng.randrange(4)
    m = rng.getrandbits(32)
    if k == 0:
        return (m,)
    if k == 1:
        return (1 << rng.randrange(32) | 1 << rng.randrange(32),)
    if k == 2:
        return (m & rng.getrandbits(32) & rng.getrandbits(32),)
    v = rng.choice(T.REG_GENERIC + T.FILE_GENERIC + [b for b, _ in T.REG_ACCESS + T.FILE_ACCESS + T.NOTIFY])
    return (v ^ (1 << rng.randrange(32) if rng.randrange(2) else 0),)


def masks(name, spec, impl):
    return Generic(name, spec, impl, lambda: [sym_int('mask', 0, 1 << 32)], mask)


def code_from(table):
    ks = sorted(table)

    def sample(rng):
        if rng.randrange(3):
            return (rng.choice(ks) ^ (1 << rng.randrange(32) if rng.randrange(3) == 0 else 0),)
        return (rng.getrandbits(rng.choice((1, 3, 8, 16, 32))),)
    return sample


def sid(rng):
    c = rng.choice((0, 1, 2, 5, 15, 255))
    n = 4 * c + rng.choice((0, 0, 0, 1, -4, 4))
    return (bytes([rng.choice((1, 1, 1, 0, 2)), c]) + rng.choice((b'\0\0\0\0\0\5', bytes(rng.randrange(256) for _ in range(6)))) +
            bytes(rng.choice((0, 255, rng.randrange(256))) for _ in range(max(0, n))),)


@prop('P23')
def access(run):
    run.prove([masks('registry access mask', names.spec_registry_access, names.impl_registry_access),
               masks('file access mask', names.spec_file_access, names.impl_file_access)])


@prop('P24')
def flags(run):
    run.prove([masks('create options', names.spec_options, names.impl_options),
               masks('file attributes', names.spec_attributes, names.impl_attributes),
               masks('share mode', names.spec_share, names.impl_share),
               masks('I/O flags', names.spec_io_flags, names.impl_io_flags),
               masks('change notification filter', names.spec_notify, names.impl_notify)])


@prop('P25')
def codes(run):
    run.prove([Generic('result code', names.spec_result, names.impl_result, lambda: [sym_int('code', 0, 1 << 32)],
                       code_from(T.RESULT)),
               Generic('control code', names.spec_ioctl, names.impl_ioctl, lambda: [sym_int('code', 0, 1 << 32)],
                       code_from(T.IOCTL)),
               Generic('mapping sync type', names.spec_sync, names.impl_sync, lambda: [sym_int('code', 0, 1 << 32)],
                       code_from(T.SYNC_TYPE))])


@prop('P26')
def sids(run):
    run.prove([Generic('security identifier', names.spec_sid, names.impl_sid, lambda: [sym_bytes()], sid)])


@prop('P27')
def texts(run):
    """the contracts of the text readers themselves"""
    from dv import contracts
    contracts.prove(run)
