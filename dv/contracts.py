"""Contracts of the text readers: proved against their bodies in every run that applies them at call sites."""
from . import handlers
from .interp import HANDLERS, INTERP, CALL_LOG
import z3

from .core import C, IntS, iv
from .values import SStream, Term


def lemmas():
    from .generic import Generic, sym_bytes, sym_int
    from specs import texts

    def args():
        return [sym_bytes(), sym_int('pos', 0), sym_int('size')]

    def sample(rng):
        body = texts.sample_text(rng)
        pre = bytes(rng.randrange(256) for _ in range(rng.randrange(4)))
        post = bytes(rng.choice((0, 65)) for _ in range(rng.choice((0, 0, 2, 3))))
        return pre + body + post, len(pre), len(body)
    return [Generic('contract of read_utf16 (sized field)', texts.spec_sized, texts.impl_sized, args, sample),
            Generic('contract of read_utf16 (to the end of the stream)', texts.spec_rest, texts.impl_rest,
                    lambda: args()[:2], lambda rng: sample(rng)[:2])]


def multi_lemmas():
    from .generic import Generic, sym_bytes, sym_int
    from specs import texts

    def sample(rng):
        body = texts.sample_text(rng)
        return b'x' * (len(body) % 3) + body + b'a\0'[:rng.choice((0, 2))], len(body) % 3, len(body)
    return [Generic('the texts of a multi-string block, as defined', texts.spec_multi_means, texts.impl_multi_means,
                    lambda: [sym_bytes(), sym_int('pos', 0), sym_int('size')], sample),
            Generic('contract of read_utf16_multisz (sized block)', texts.spec_multi, texts.impl_multi,
                    lambda: [sym_bytes(), sym_int('pos', 0), sym_int('size')], sample),
            Generic('contract of read_utf16_multisz (to the end of the stream)', texts.spec_multi_rest, texts.impl_multi_rest,
                    lambda: [sym_bytes(), sym_int('pos', 0)],
                    lambda rng: (lambda b: (b, len(b) % 2))(texts.sample_text(rng) + b'z' * rng.randrange(2))),
            Generic('contract of read_utf16_multisz (at the end of the stream)', texts.spec_multi_end, texts.impl_multi_end,
                    lambda: [sym_bytes()], lambda rng: (texts.sample_text(rng),))]


def prove_multi(run):
    from . import generic, multi
    ths = multi_lemmas()
    multi.proving = True
    try:
        generic.prove(run.pool(), ths, run.verbose)
        run.pool().sync()
    finally:
        multi.proving, multi.current = False, None
    return ths


def prove(run):
    """the bodies satisfy the contracts (proved without using them)"""
    if getattr(run, 'contracts_proved', False):
        return
    run.contracts_proved = True
    from . import generic
    ths = lemmas()
    if not run.proving:
        run.replayers.append((ths + multi_lemmas(), generic.replay))
        return
    remove()
    generic.prove(run.pool(), ths, run.verbose)
    run.pool().sync()
    ths += prove_multi(run)
    run.searchers.append(lambda sec, seed: generic.search(ths, sec, seed))
    run.expect = getattr(run, 'expect', []) + [t.name for t in ths]


def readers():
    from procmon_parser import stream_helper as sh
    out = []
    if hasattr(sh, 'read_utf16'):
        out.append((sh.read_utf16, handlers.text_value, None))
    if hasattr(sh, 'read_utf16_multisz'):
        out.append((sh.read_utf16_multisz, handlers.msz_value, ['']))
    return out


def remove():
    for f, v, e in readers():
        HANDLERS.pop(f, None)


def install(run):
    prove(run)
    if run.proving:
        for f, v, e in readers():
            HANDLERS[f] = handlers.reader_contract(f, v, e)


# ------------------------------------------------------------------------------------------------ the event decoder
def decoder():
    """read_event(stream, metadata): the event at the stream's position is a function of the log and that position, and only
    the position of the stream changes.  (Checks P07-P22 decide which function; P10 decides the frame.)"""
    from procmon_parser import stream_logs_format as f
    return getattr(f, 'read_event', None)


def install_decoder(run):
    from specs import reader
    live = decoder()

    def read_event(args, kwargs):
        ios = [a for a in list(args) + list(kwargs.values()) if isinstance(a, SStream)]
        if len(ios) != 1:
            return INTERP.call_live(live, args, kwargs)
        s = ios[0]
        ev = Term('event', (s.f['data'], s.f['pos']))
        end = z3.Function('eventend', IntS, IntS)(iv(s.f['pos']))
        C.assume(end >= 0)
        C.write(s.f, 'pos', end)
        CALL_LOG['contract:read_event'] = CALL_LOG.get('contract:read_event', 0) + 1
        return ev

    def event_ref(args, kwargs):
        L, i = args
        from . import models
        return Term('event', (L.f['F'], models.getitem(INTERP, L.f['offsets'], i)))
    if run.proving and live is not None:
        HANDLERS[live] = read_event
        HANDLERS[reader.event_ref] = event_ref
        HANDLERS[reader.event_seen] = lambda args, kwargs: args[0]
