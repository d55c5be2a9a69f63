#![allow(unused, clippy::all)]
extern crate futures_channel as _c;
extern crate futures_core as _co;
extern crate futures_executor as _e;
extern crate futures_io as _i;
extern crate futures_sink as _s;
extern crate futures_task as _t;
extern crate futures_test as _te;
extern crate futures_util as _u;

// Operations whose implementation sits behind associated-type bounds that an identity environment cannot express are
// instantiated here with explicit item and error parameters (see Index in fx/histories.py).
pub mod ops {
    use futures_core::future::FusedFuture;
    use futures_core::stream::FusedStream;
    use futures_core::task::{Context, Poll};
    use futures_core::{Future, Stream};
    use futures_util::future as uf;
    use futures_util::stream as us;
    use std::pin::Pin;

    pub fn fx_op_and_then<A, B, F, T, U, E>(x: Pin<&mut uf::AndThen<A, B, F>>, cx: &mut Context<'_>) -> Poll<Result<U, E>>
    where A: Future<Output = Result<T, E>>, B: Future<Output = Result<U, E>>, F: FnOnce(T) -> B {
        Future::poll(x, cx)
    }
    pub fn fx_op_and_then_t<A, B, F, T, U, E>(x: &uf::AndThen<A, B, F>) -> bool
    where A: Future<Output = Result<T, E>>, B: Future<Output = Result<U, E>>, F: FnOnce(T) -> B {
        FusedFuture::is_terminated(x)
    }
    pub fn fx_op_or_else<A, B, F, T, E, D>(x: Pin<&mut uf::OrElse<A, B, F>>, cx: &mut Context<'_>) -> Poll<Result<T, D>>
    where A: Future<Output = Result<T, E>>, B: Future<Output = Result<T, D>>, F: FnOnce(E) -> B {
        Future::poll(x, cx)
    }
    pub fn fx_op_or_else_t<A, B, F, T, E, D>(x: &uf::OrElse<A, B, F>) -> bool
    where A: Future<Output = Result<T, E>>, B: Future<Output = Result<T, D>>, F: FnOnce(E) -> B {
        FusedFuture::is_terminated(x)
    }
    pub fn fx_op_inspect_ok<A, F, T, E>(x: Pin<&mut uf::InspectOk<A, F>>, cx: &mut Context<'_>) -> Poll<Result<T, E>>
    where A: Future<Output = Result<T, E>>, F: FnOnce(&T) {
        Future::poll(x, cx)
    }
    pub fn fx_op_inspect_ok_t<A, F, T, E>(x: &uf::InspectOk<A, F>) -> bool
    where A: Future<Output = Result<T, E>>, F: FnOnce(&T) {
        FusedFuture::is_terminated(x)
    }
    pub fn fx_op_inspect_err<A, F, T, E>(x: Pin<&mut uf::InspectErr<A, F>>, cx: &mut Context<'_>) -> Poll<Result<T, E>>
    where A: Future<Output = Result<T, E>>, F: FnOnce(&E) {
        Future::poll(x, cx)
    }
    pub fn fx_op_inspect_err_t<A, F, T, E>(x: &uf::InspectErr<A, F>) -> bool
    where A: Future<Output = Result<T, E>>, F: FnOnce(&E) {
        FusedFuture::is_terminated(x)
    }
    pub fn fx_op_s_inspect_ok<A, F, T, E>(x: Pin<&mut us::InspectOk<A, F>>, cx: &mut Context<'_>) -> Poll<Option<Result<T, E>>>
    where A: Stream<Item = Result<T, E>>, F: FnMut(&T) {
        Stream::poll_next(x, cx)
    }
    pub fn fx_op_s_inspect_ok_t<A, F, T, E>(x: &us::InspectOk<A, F>) -> bool
    where A: Stream<Item = Result<T, E>> + FusedStream, F: FnMut(&T) {
        FusedStream::is_terminated(x)
    }
    pub fn fx_op_s_inspect_err<A, F, T, E>(x: Pin<&mut us::InspectErr<A, F>>, cx: &mut Context<'_>) -> Poll<Option<Result<T, E>>>
    where A: Stream<Item = Result<T, E>>, F: FnMut(&E) {
        Stream::poll_next(x, cx)
    }
    pub fn fx_op_s_inspect_err_t<A, F, T, E>(x: &us::InspectErr<A, F>) -> bool
    where A: Stream<Item = Result<T, E>> + FusedStream, F: FnMut(&E) {
        FusedStream::is_terminated(x)
    }
}

// The macros: each is driven, poll after poll, until it completes.
pub mod macros {
    use futures_core::future::FusedFuture;
    use futures_core::stream::FusedStream;
    use futures_core::task::{Context, Poll};
    use futures_core::{Future, Stream};
    use std::pin::{pin, Pin};

    macro_rules! drive {
        ($cx:ident, $e:expr) => {{
            let mut f = pin!($e);
            loop {
                match Future::poll(f.as_mut(), $cx) {
                    Poll::Ready(x) => return x,
                    Poll::Pending => std::thread::yield_now(),
                }
            }
        }};
    }
    pub fn fx_join2<A: Future, B: Future>(a: A, b: B, cx: &mut Context<'_>) -> (A::Output, B::Output) {
        drive!(cx, async move { futures::join!(a, b) })
    }
    pub fn fx_join3<A: Future, B: Future, C: Future>(a: A, b: B, c: C, cx: &mut Context<'_>) -> (A::Output, B::Output, C::Output) {
        drive!(cx, async move { futures::join!(a, b, c) })
    }
    pub fn fx_try_join2<A, B, T, U, E>(a: A, b: B, cx: &mut Context<'_>) -> Result<(T, U), E>
    where A: Future<Output = Result<T, E>>, B: Future<Output = Result<U, E>> {
        drive!(cx, async move { futures::try_join!(a, b) })
    }
    pub fn fx_select_biased<A: FusedFuture + Unpin, B: FusedFuture + Unpin>(mut a: A, mut b: B, cx: &mut Context<'_>) -> Result<A::Output, B::Output> {
        drive!(cx, async move { futures::select_biased! { x = a => Ok(x), y = b => Err(y) } })
    }
    pub fn fx_select<A: FusedFuture + Unpin, B: FusedFuture + Unpin>(mut a: A, mut b: B, cx: &mut Context<'_>) -> Result<A::Output, B::Output> {
        drive!(cx, async move { futures::select! { x = a => Ok(x), y = b => Err(y) } })
    }
    pub fn fx_select_complete<A: FusedFuture + Unpin, B: FusedFuture + Unpin>(mut a: A, mut b: B, cx: &mut Context<'_>) -> Option<Result<A::Output, B::Output>> {
        drive!(cx, async move { futures::select_biased! { x = a => Some(Ok(x)), y = b => Some(Err(y)), complete => None } })
    }
    pub fn fx_select_default<A: FusedFuture + Unpin, B: FusedFuture + Unpin>(mut a: A, mut b: B) -> Option<Result<A::Output, B::Output>> {
        futures::select_biased! { x = a => Some(Ok(x)), y = b => Some(Err(y)), default => None }
    }
    pub fn fx_select_expr<A: FusedFuture, B: FusedFuture>(a: A, b: B, cx: &mut Context<'_>) -> Result<A::Output, B::Output> {
        drive!(cx, async move { futures::select_biased! { x = std::convert::identity(a) => Ok(x), y = std::convert::identity(b) => Err(y) } })
    }
    pub fn fx_pending(cx: &mut Context<'_>) {
        drive!(cx, async move { futures::pending!() })
    }
    pub fn fx_poll<A: Future + Unpin>(a: A, cx: &mut Context<'_>) -> Poll<A::Output> {
        drive!(cx, async move { futures::poll!(a) })
    }
    pub fn fx_stream_select<A: Stream<Item = T> + Unpin, B: Stream<Item = T> + Unpin, T>(a: A, b: B, cx: &mut Context<'_>) {
        let mut s = futures::stream_select!(a, b);
        loop {
            match Stream::poll_next(Pin::new(&mut s), cx) {
                Poll::Ready(Some(x)) => drop(x),
                Poll::Ready(None) => return,
                Poll::Pending => std::thread::yield_now(),
            }
        }
    }
    pub fn fx_stream_select_hint<A: Stream<Item = T> + Unpin, B: Stream<Item = T> + Unpin, T>(a: A, b: B) -> (usize, Option<usize>) {
        Stream::size_hint(&futures::stream_select!(a, b))
    }
}
