"""Design exemptions of the universal rules, each with its reason.  Key: (rule, type) or (rule, type, operation)."""
EXEMPT = {
    # rule pending-unarmed
    ('pending-unarmed', 'futures_util::async_await::pending::PendingOnce'): 'pending!() suspends once by definition; the caller arranges the wakeup',
    ('pending-unarmed', 'futures_util::future::pending::Pending'): 'never completes by definition',
    ('pending-unarmed', 'futures_util::stream::pending::Pending'): 'never yields by definition',
    ('pending-unarmed', 'futures_util::future::future::fuse::Fuse'): 'a terminated Fuse is pending for ever by definition (FusedFuture)',
    # rule item-dropped: adaptors whose purpose is to discard values
    ('item-dropped', 'futures_util::stream::stream::count::Count'): 'counts items',
    ('item-dropped', 'futures_util::sink::drain::Drain'): 'discards items by definition',
    ('item-dropped', 'futures_util::stream::stream::filter::Filter'): 'discards items rejected by the predicate',
    ('item-dropped', 'futures_util::stream::stream::skip::Skip'): 'discards the first n items',
    ('item-dropped', 'futures_util::stream::stream::skip_while::SkipWhile'): 'discards items while the predicate holds',
    ('item-dropped', 'futures_util::stream::stream::take_while::TakeWhile'): 'discards the first rejected item',
    ('item-dropped', 'futures_util::stream::try_stream::try_filter::TryFilter'): 'discards items rejected by the predicate',
    ('item-dropped', 'futures_util::stream::try_stream::try_skip_while::TrySkipWhile'): 'discards items while the predicate holds',
    ('item-dropped', 'futures_util::stream::try_stream::try_take_while::TryTakeWhile'): 'discards the first rejected item',
    # the "item" is itself a future, stream or byte buffer that has been consumed
    ('item-dropped', 'futures_util::future::future::Flatten'): 'the value is the inner future, dropped once complete',
    ('item-dropped', 'futures_util::future::future::FlattenStream'): 'the value is the inner stream, dropped once exhausted',
    ('item-dropped', 'futures_util::future::try_future::TryFlatten'): 'the value is the inner future, dropped once complete',
    ('item-dropped', 'futures_util::future::try_future::TryFlattenStream'): 'the value is the inner stream, dropped once exhausted',
    ('item-dropped', 'futures_util::future::try_future::FlattenSink'): 'the value is the inner sink, dropped once closed',
    ('item-dropped', 'futures_util::stream::stream::Flatten'): 'the item is the inner stream, dropped once exhausted',
    ('item-dropped', 'futures_util::stream::try_stream::try_flatten::TryFlatten'): 'the item is the inner stream, dropped once exhausted',
    ('item-dropped', 'futures_util::stream::try_stream::into_async_read::IntoAsyncRead'): 'the item is a byte chunk, dropped once read (C15)',
    ('item-dropped', 'futures_util::io::into_sink::IntoSink'): 'the item is a byte chunk, dropped once written (C15)',
    # rule item-stranded
    ('item-stranded', 'futures_util::future::future::FlattenStream'): 'the value is the inner stream/sink',
    ('item-stranded', 'futures_util::future::try_future::TryFlattenStream'): 'the value is the inner stream/sink',
    ('item-stranded', 'futures_util::future::try_future::FlattenSink'): 'the value is the inner sink',
    ('item-stranded', 'futures_util::future::maybe_done::MaybeDone'): 'holds its output until take_output() by definition',
    ('item-stranded', 'futures_util::future::try_maybe_done::TryMaybeDone'): 'holds its output until take_output() by definition',
    ('item-stranded', 'futures_util::stream::stream::peek::NextIf'): 'a rejected item stays in the Peekable by definition',
    ('item-stranded', 'futures_util::stream::stream::peek::NextIfEq'): 'a rejected item stays in the Peekable by definition',
    ('item-stranded', 'futures_util::stream::stream::peek::Peek'): 'the peeked item stays in the Peekable by definition',
    ('item-stranded', 'futures_util::stream::stream::peek::PeekMut'): 'the peeked item stays in the Peekable by definition',
    ('item-stranded', 'futures_util::stream::stream::zip::Zip'): 'an unpaired item of the longer stream has no partner',
    ('item-stranded', 'futures_util::stream::stream::take_until::TakeUntil'): 'the held value is the result of the stopping future, for take_result()',
    ('item-stranded', 'futures_util::sink::unfold::Unfold'): 'the held value is the state returned by the callback',
    ('item-stranded', 'futures_util::stream::stream::Forward'): 'only on the error of the sink',
    ('item-stranded', 'futures_util::stream::try_stream::TryForward'): 'only on the error of the sink',
    # rule error-dropped
    ('error-dropped', 'futures_util::future::select_ok::SelectOk'): 'select_ok reports only the last error by definition',
    # rule not-terminated
    ('not-terminated', 'futures_util::future::always_ready::AlwaysReady'): 'may be polled any number of times by definition',
    ('not-terminated', 'futures_util::stream::stream::next::Next'): 'yields one item per completion; terminated when its stream is',
    ('not-terminated', 'futures_util::stream::try_stream::try_next::TryNext'): 'yields one item per completion; terminated when its stream is',
    ('not-terminated', 'futures_util::stream::stream::select_next_some::SelectNextSome'): 'yields one item per completion; terminated when its stream is',
    ('not-terminated', 'futures_channel::mpsc::Recv'): 'yields one message per completion; terminated when its receiver is',
    ('not-terminated', 'futures_util::future::poll_immediate::PollImmediate'): 'completes with None for a pending future and stays usable by definition',
    ('not-terminated', 'futures_channel::oneshot::Receiver'): 'reads shared state (decided by the channel property)',
    ('not-terminated', 'futures_util::stream::stream::Forward'): 'after the sink failed the future may be resumed',
    ('not-terminated', 'futures_util::stream::try_stream::TryForward'): 'after an error the future may be resumed',
    ('not-terminated', 'futures_util::stream::try_stream::try_collect::TryCollect'): 'terminated when its stream is; an error item does not end the stream',
}
