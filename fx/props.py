"""Which analyses decide which property: scope (subjects and modes of use), universal rules, and the class of deviations
from the contract automata that break the property."""
import re
import autos

class P:
    def __init__(self, id, scope, rules=(), conf=None, extra=(), units=None, uconf=None, panics=None):
        self.id, self.scope, self.rules, self.conf, self.extra, self.units, self.uconf, self.panics = id, scope, set(rules), conf, extra, units, uconf, panics

U = 'futures_util::'
def mod(*ms):
    def f(job):
        n, adt, mode = job
        return any(adt.startswith(m) or n.startswith(m) for m in ms)
    return f

def all_(job): return True

def names(*ns):
    """subjects by the last segments of their public constructor"""
    def f(job):
        n = re.sub(r'\.\d+$', '', job[0])
        n = re.sub(r'::<[^>]*>', '', n)
        return any(n == x or n.endswith('::' + x) for x in ns)
    return f

def modes(*ms):
    return lambda job: job[2] in ms

def either(*fs): return lambda j: any(f(j) for f in fs)
def both(*fs): return lambda j: all(f(j) for f in fs)
def but(f, *gs): return lambda j: f(j) and not any(g(j) for g in gs)

def anydev(d): return True

def dev_term(d): return d.label.startswith('ret is_terminated')

def dev_yield(d):
    l = d.label
    return (l.startswith('ret poll_next Ready') or l.startswith('child start_send') or l.startswith('ret poll Ready(Some') or l.startswith('ret poll Ready(None'))

def dev_err(d):
    if 'Err(' in d.label or 'err(' in d.label or d.label.endswith('Err'): return True
    if any('Err' in a or 'err(' in a for a in d.allowed): return True
    return False

PENDING_OK = None

SINKFUT = names('SinkExt::send', 'SinkExt::feed', 'SinkExt::flush', 'SinkExt::close', 'SinkExt::send_all', 'StreamExt::forward', 'TryStreamExt::try_forward')
TRY = either(mod(U + 'future::try_', U + 'stream::try_stream', U + 'future::select_ok', U + 'stream::stream::try_f'), lambda j: 'TryFuture' in j[0] or 'TryStream' in j[0] or '::try_' in j[0])
FUTURES = but(mod(U + 'future::', 'futures_task::future_obj'), mod(U + 'future::try_', U + 'future::join', U + 'future::select', U + 'future::abortable', U + 'abortable', U + 'future::future::shared', U + 'future::future::remote_handle', U + 'future::future::catch_unwind'))
TRYFUT = but(mod(U + 'future::try_future', U + 'future::try_maybe_done'), names())
JOINSEL = mod(U + 'future::join', U + 'future::try_join', U + 'future::select', U + 'future::try_select', U + 'future::select_ok')
CONC = names('StreamExt::buffered', 'StreamExt::buffer_unordered', 'StreamExt::for_each_concurrent', 'StreamExt::try_for_each_concurrent', 'TryStreamExt::try_buffered',
             'TryStreamExt::try_buffer_unordered', 'TryStreamExt::try_for_each_concurrent', 'StreamExt::flatten_unordered', 'StreamExt::flat_map_unordered',
             'TryStreamExt::try_flatten_unordered')
MERGE = mod(U + 'stream::select', U + 'stream::select_all', U + 'stream::select_with_strategy', U + 'stream::stream::zip', U + 'stream::stream::chain', U + 'stream::futures_ordered')
SOURCES = mod(U + 'stream::iter', U + 'stream::once', U + 'stream::repeat', U + 'stream::empty', U + 'stream::pending', U + 'stream::poll_fn', U + 'stream::poll_immediate',
              U + 'stream::unfold', U + 'stream::try_stream::try_unfold')
STREAMS = but(mod(U + 'stream::stream::'), CONC, MERGE, modes('sink'), mod(U + 'stream::stream::catch_unwind', U + 'stream::stream::split'))
TRYSTREAMS = but(mod(U + 'stream::try_stream'), CONC, modes('sink', 'read', 'write', 'seek'), SOURCES)
IOSC = but(either(modes('read', 'write', 'seek'), mod(U + 'io::')), mod(U + 'io::split', U + 'compat', 'futures_test'))
SINKS = but(either(modes('sink'), SINKFUT, mod(U + 'sink::')), mod(U + 'compat', 'futures_channel'))

# ---------------------------------------------------------------- functions (effect automata)
OPNAMES = {'poll', 'poll_next', 'poll_ready', 'start_send', 'poll_flush', 'poll_close', 'poll_read', 'poll_read_vectored', 'poll_write', 'poll_write_vectored',
           'poll_fill_buf', 'poll_seek', 'is_terminated', 'new'}
NOISE = {'project', 'project_ref', 'project_replace', '__assert_not_repr_packed', 'assert_future', 'assert_stream', 'assert_sink', 'assert_read', 'assert_write', '__drop_inner'}
ACCESS = {'get_ref', 'get_mut', 'get_pin_mut', 'into_inner'}
def last(k): return k.split(' #')[0].rsplit('::', 1)[-1]
def ufile(*fs, ops=True, acc=True):
    """all functions of the given source files (prefixes); ops=False: without the operations decided on histories"""
    def f(k, sp):
        n = last(k)
        if n in NOISE: return False
        if not any(sp.startswith(x) for x in fs): return False
        if not ops and n in OPNAMES: return False
        if not acc and (n in ACCESS or n == 'size_hint'): return False
        return True
    return f
def uname(*ns): return lambda k, sp: last(k) in ns
def ueither(*fs): return lambda k, sp: any(f(k, sp) for f in fs)
def uboth(*fs): return lambda k, sp: all(f(k, sp) for f in fs)
def ubut(f, *gs): return lambda k, sp: f(k, sp) and not any(g(k, sp) for g in gs)

FUT_ = 'futures-util/src/'
CH = 'futures-channel/src/'
PRIM = ueither(ufile(CH, 'futures-executor/', 'futures-task/', 'futures-core/', 'futures-test/', 'futures-io/', 'futures-sink/', FUT_ + 'lock/', FUT_ + 'compat/', FUT_ + 'abortable.rs',
               FUT_ + 'stream/futures_unordered/', FUT_ + 'future/future/shared.rs', FUT_ + 'future/future/remote_handle.rs', FUT_ + 'stream/stream/split.rs', FUT_ + 'io/split.rs'))

def ulab(*rx):
    """deviations whose label, or a label allowed in its place, matches"""
    c = re.compile('|'.join(rx))
    return lambda d: bool(c.search(d.label)) or any(c.search(a) for a in d.allowed)

WAKE = ulab(r'\bwake', r'register', r'Pending', r'waker', r'park')
CONTAINERS = ueither(ufile(FUT_ + 'sink/buffer.rs', FUT_ + 'stream/futures_ordered.rs', FUT_ + 'stream/select_all.rs', *[FUT_ + 'stream/stream/%s.rs' % x for x in ('chunks', 'ready_chunks', 'collect', 'concat', 'unzip', 'cycle', 'peek')],
    *[FUT_ + 'stream/try_stream/%s.rs' % x for x in ('try_chunks', 'try_ready_chunks', 'try_collect', 'try_concat')], acc=False))
SINKBUF = ufile(FUT_ + 'sink/buffer.rs', FUT_ + 'sink/unfold.rs', acc=False)
VECFUT = ufile(*[FUT_ + 'future/%s.rs' % x for x in ('select_all', 'select_ok', 'join_all', 'try_join_all')], acc=False)
CTOR = {'new', 'default', 'from', 'from_iter', 'clone'}
HELPERS = ubut(ufile(FUT_ + 'fns.rs', FUT_ + 'future/maybe_done.rs', FUT_ + 'future/try_maybe_done.rs', FUT_ + 'future/ready.rs', FUT_ + 'unfold_state.rs', ops=True, acc=True))
ACCS = ueither(uname('get_ref', 'get_mut', 'get_pin_mut', 'into_inner'), ufile(FUT_ + 'stream/select.rs', FUT_ + 'stream/select_with_strategy.rs', ops=False))
SUGAR = uboth(ufile(*[FUT_ + x for x in ('future/future/mod.rs', 'future/try_future/mod.rs', 'stream/stream/mod.rs', 'stream/try_stream/mod.rs', 'sink/mod.rs', 'io/mod.rs', 'future/mod.rs', 'stream/mod.rs')], ops=True, acc=False),
              lambda k, sp: last(k) in ('left_future', 'right_future', 'left_stream', 'right_stream', 'left_sink', 'right_sink', 'now_or_never', 'poll_next_unpin', 'poll_unpin', 'poll_ready_unpin',
                                        'start_send_unpin', 'poll_flush_unpin', 'poll_close_unpin', 'try_poll_unpin', 'try_poll_next_unpin', 'consume_unpin', 'boxed', 'boxed_local', 'unit_error', 'never_error'))

PROPS = [
    P('C01', all_, ['pending-unarmed'], units=PRIM, uconf=WAKE),
    P('C02', all_, ['poll-after-done']),
    P('C03', all_, ['not-terminated'], dev_term, units=uboth(PRIM, uname('is_terminated'))),
    P('C04', SINKS, ['send-without-ready', 'send-after-close', 'flush-incomplete'], anydev, units=SINKBUF),
    P('C05', all_, ['item-dropped', 'item-stranded'], dev_yield, units=ueither(CONTAINERS, ufile(CH + 'mpsc/queue.rs'))),
    P('C06', either(TRY, SINKS, IOSC), ['error-dropped'], dev_err),
    P('C07', FUTURES, [], anydev, units=ueither(HELPERS, uboth(uname('terminated'), ufile(FUT_ + 'future/future/fuse.rs')))),
    P('C08', TRYFUT, [], anydev),
    P('C09', JOINSEL, [], anydev, units=VECFUT),
    P('C10', STREAMS, [], anydev, units=ueither(uboth(CONTAINERS, ufile(FUT_ + 'stream/stream/')), ufile(FUT_ + 'stream/stream/take_until.rs', acc=False),
      uboth(uname('is_done', 'is_done_taking'), ufile(FUT_ + 'stream/stream/')))),
    P('C11', TRYSTREAMS, [], anydev, units=uboth(CONTAINERS, ufile(FUT_ + 'stream/try_stream/'))),
    P('C12', either(MERGE, SOURCES), [], anydev, units=ufile(FUT_ + 'stream/futures_ordered.rs', FUT_ + 'stream/select_all.rs', acc=False)),
    P('C13', CONC, [], anydev),
    P('C14', None, units=ueither(uname('size_hint', 'fx_stream_select_hint'))),
    P('C15', IOSC, ['no-progress'], anydev, units=ubut(ufile(FUT_ + 'io/', FUT_ + 'stream/try_stream/into_async_read.rs', acc=False), PRIM)),
    P('C16', None, units=ufile('futures-core/src/task/__internal/atomic_waker.rs')),
    P('C17', mod('futures_channel::mpsc'), [], anydev, units=ufile(CH + 'mpsc/')),
    P('C18', mod('futures_channel::oneshot'), [], anydev, units=ufile(CH + 'oneshot.rs', CH + 'lock.rs')),
    P('C19', mod(U + 'lock::mutex'), [], anydev, units=ufile(FUT_ + 'lock/mutex.rs')),
    P('C20', mod(U + 'lock::bilock', U + 'io::split', U + 'stream::stream::split', U + 'stream::stream::StreamExt::split', U + 'io::AsyncReadExt::split'), [], anydev,
      units=ufile(FUT_ + 'lock/bilock.rs', FUT_ + 'io/split.rs', FUT_ + 'stream/stream/split.rs')),
    P('C21', None, units=ufile(FUT_ + 'stream/futures_unordered/')),
    P('C22', mod(U + 'future::future::shared'), [], anydev, units=ufile(FUT_ + 'future/future/shared.rs'), panics=ufile(FUT_ + 'future/future/shared.rs')),
    P('C23', None, units=ufile('futures-executor/src/', FUT_ + 'task/spawn.rs')),
    P('C24', mod('futures_task'), [], anydev, units=ufile('futures-task/src/')),
    P('C25', None, extra=[autos.check(('Send', 'Sync'))]),
    P('C36', None, panics=lambda k, sp: True),
    P('C35', all_, ['moved-while-pinned'], extra=[autos.check(('Unpin',))]),
    P('C26', None, units=ueither(ufile('futures-core/src/', 'futures-sink/src/', 'futures-io/src/', FUT_ + 'future/either.rs', FUT_ + 'future/option.rs'), SUGAR)),
    P('C27', mod(U + 'abortable', U + 'future::abortable', U + 'stream::abortable'), [], anydev, units=ufile(FUT_ + 'abortable.rs', FUT_ + 'future/abortable.rs', FUT_ + 'stream/abortable.rs')),
    P('C28', mod(U + 'future::future::remote_handle', U + 'future::future::catch_unwind', U + 'stream::stream::catch_unwind'), [], anydev,
      units=ufile(FUT_ + 'future/future/remote_handle.rs', FUT_ + 'future/future/catch_unwind.rs', FUT_ + 'stream/stream/catch_unwind.rs')),
    P('C29', None, units=ufile(FUT_ + 'stream/stream/flatten_unordered.rs', FUT_ + 'stream/try_stream/try_flatten_unordered.rs', acc=False)),
    P('C30', None, units=ueither(lambda k, sp: k.startswith('fxprobe::macros::'), ufile(FUT_ + 'async_await/poll.rs', FUT_ + 'async_await/pending.rs'),
      uboth(uname('shuffle'), ufile(FUT_ + 'async_await/random.rs')))),
    P('C31', mod(U + 'compat'), [], anydev, units=ufile(FUT_ + 'compat/')),
    P('C32', None, units=ACCS),
    P('C33', mod('futures_test'), [], anydev, units=ufile('futures-test/src/')),
    P('C34', all_, ['no-progress'], lambda d: d.label == 'panic' or d.label.startswith('panic') or d.label == 'does not return'),
]
BY_ID = {p.id: p for p in PROPS}
