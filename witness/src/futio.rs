//! C03, C13 - C18, C20.

use std::future::Future;
use std::io::{self, Read, Write};
use std::ops::Deref;
use std::panic;
use std::path::Path;
use std::pin::Pin;
use std::sync::mpsc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::time::{Duration, Instant};

use blocking_permit::{
    dispatch_rx, register_dispatch_pool, DispatchPool, Semaphore, Splittable,
};
use body_image::{
    BodyError, BodyImage, BodySink, Dialog, Encoding, Epilog, Prolog, Recorded,
    RequestRecorded, Tunables, Tuner,
};
use body_image_futio::{
    decode_res_body, find_chunked, AsyncBodyImage, AsyncBodySink, BlockingPolicy,
    DispatchBodyImage, DispatchBodySink, FutioError, FutioTunables, FutioTuner,
    InputBuf, PermitBodyImage, PermitBodySink, RequestRecord, RequestRecorder,
    SinkWrapper, SplitBodyImage, StreamWrapper, UniBodyBuf, YieldBodyImage,
};
use bytes::{Buf, Bytes};
use futures_core::stream::Stream;
use futures_sink::Sink;
use http_body::Body;

use crate::body::{self, bytes_of, diff, exploded, image, show};
use crate::{barcs, fault, Case, Outcome};

fn raw() -> RawWaker {
    fn clone(_: *const ()) -> RawWaker { raw() }
    fn nop(_: *const ()) {}
    static T: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
    RawWaker::new(std::ptr::null(), &T)
}
fn waker() -> Waker { unsafe { Waker::from_raw(raw()) } }

thread_local! { static POOL: bool = {
    register_dispatch_pool(DispatchPool::builder().pool_size(1).create());
    true
} }
fn pool() { POOL.with(|p| assert!(*p)); }

fn leak_sema(n: usize) -> &'static Semaphore { Box::leak(Box::new(Semaphore::new(n))) }

#[derive(Clone, Copy, Debug, PartialEq)]
enum How { Direct, Permit, Dispatch }

fn futio_tune(t: Tunables, how: How, sema: &'static Semaphore, item: usize) -> FutioTunables {
    let mut f = FutioTuner::new();
    f.set_image(t).set_stream_item_size(item);
    match how {
        How::Direct => f.set_blocking_policy(BlockingPolicy::Direct),
        How::Permit => f.set_blocking_policy(BlockingPolicy::Permit(sema)),
        How::Dispatch => f.set_blocking_policy(BlockingPolicy::Dispatch),
    };
    f.finish()
}

/// A buffer to send, over one of the types the sinks accept.
trait Mk: InputBuf { fn mk(b: &[u8], mapped: Option<&Path>) -> Self; }
impl Mk for Bytes { fn mk(b: &[u8], _: Option<&Path>) -> Self { Bytes::copy_from_slice(b) } }
impl Mk for UniBodyBuf {
    fn mk(b: &[u8], mapped: Option<&Path>) -> Self {
        match mapped {
            Some(dir) if !b.is_empty() => mapped_buf(b, dir).expect("mapped buffer"),
            _ => Bytes::copy_from_slice(b).into(),
        }
    }
}

fn mapped_buf(b: &[u8], dir: &Path) -> Result<UniBodyBuf, String> {
    let mut s = BodySink::with_fs(dir).map_err(|e| e.to_string())?;
    s.write_all(b).map_err(|e| e.to_string())?;
    let mut i = s.prepare().map_err(|e| e.to_string())?;
    i.mem_map().map_err(|e| e.to_string())?;
    let mut st = AsyncBodyImage::<UniBodyBuf>::new(i, FutioTunables::new());
    match Pin::new(&mut st).poll_next(&mut Context::from_waker(&waker())) {
        Poll::Ready(Some(Ok(u))) => Ok(u),
        _ => Err("no buffer from a mapped image".into()),
    }
}

const PATIENCE: Duration = Duration::from_secs(20);

fn settle<T>(mut f: impl FnMut() -> Poll<T>, pends: &mut u64) -> Result<T, String> {
    let start = Instant::now();
    let mut n = 0u64;
    loop {
        match f() {
            Poll::Ready(t) => return Ok(t),
            Poll::Pending => {
                *pends += 1;
                n += 1;
                if n > 50 { std::thread::sleep(Duration::from_micros(20)); }
                if start.elapsed() > PATIENCE { return Err("pending for 20 s with everything granted".into()); }
            }
        }
    }
}

/// What the caller was told.
enum Told { Fine, Failed(FutioError) }

/// Send `bufs` following the sink protocol, then close (or flush). Appends
/// to `accepted` what `start_send` took.
fn drive<B: Mk, S: Sink<B, Error = FutioError> + Unpin>(
    c: &mut Case, s: &mut S, bufs: &[Vec<u8>], mapped: bool, accepted: &mut Vec<u8>)
    -> Result<Told, String>
{
    let w = waker();
    let mut cx = Context::from_waker(&w);
    let mut p = 0;
    for b in bufs {
        match settle(|| Pin::new(&mut *s).poll_ready(&mut cx), &mut p)? {
            Ok(()) => (), Err(e) => return Ok(Told::Failed(e)),
        }
        let dir = if mapped && c.rng.chance(1, 2) { Some(c.dir) } else { None };
        let item = B::mk(b, dir);
        accepted.extend_from_slice(b);
        if let Err(e) = Pin::new(&mut *s).start_send(item) { return Ok(Told::Failed(e)); }
        if c.rng.chance(1, 3) {
            c.note("flush");
            match settle(|| Pin::new(&mut *s).poll_flush(&mut cx), &mut p)? {
                Ok(()) => (), Err(e) => return Ok(Told::Failed(e)),
            }
        }
    }
    let close = c.rng.chance(1, 2);
    c.note(if close { "close" } else { "final flush" });
    let r = if close { settle(|| Pin::new(&mut *s).poll_close(&mut cx), &mut p)? }
            else { settle(|| Pin::new(&mut *s).poll_flush(&mut cx), &mut p)? };
    Ok(match r { Ok(()) => Told::Fine, Err(e) => Told::Failed(e) })
}

struct Sent { accepted: Vec<u8>, told: Told, sink: Option<BodySink>, start: usize }

fn send_all<B: Mk>(c: &mut Case, how: How, t: Tunables, sink: BodySink, start: &[u8],
                   bufs: &[Vec<u8>], mapped: bool) -> Result<Sent, String>
{
    pool();
    let sema = leak_sema(1);
    let ft = futio_tune(t, how, sema, 1 << 20);
    let mut accepted = start.to_vec();
    macro_rules! go { ($t:ty) => {{
        let mut s: $t = SinkWrapper::<B>::new(sink, ft);
        let told = drive::<B, $t>(c, &mut s, bufs, mapped, &mut accepted)?;
        let sink = match told { Told::Fine => Some(SinkWrapper::<B>::into_inner(s)), _ => None };
        Ok(Sent { accepted, told, sink, start: start.len() })
    }} }
    match how {
        How::Direct => go!(AsyncBodySink<B>),
        How::Permit => go!(PermitBodySink<B>),
        How::Dispatch => go!(DispatchBodySink<B>),
    }
}

fn plan(c: &mut Case) -> (How, bool, bool, Vec<Vec<u8>>, u64) {
    let how = *c.rng.pick(&[How::Direct, How::Permit, How::Dispatch]);
    let uni = c.rng.chance(1, 2);
    let mapped = uni && c.rng.chance(1, 2);
    let n = c.rng.below(7);
    let bufs: Vec<Vec<u8>> = (0..n).map(|_| {
        let big = if c.rng.chance(1, 10) { 100_000 } else { 400 };
        c.rng.blob(big)
    }).collect();
    let total = bufs.iter().map(|b| b.len() as u64).sum();
    c.note(format!("{:?} {} mapped {} buffers {:?}", how, if uni { "UniBodyBuf" } else { "Bytes" }, mapped,
                   bufs.iter().map(|b| b.len()).collect::<Vec<_>>()));
    (how, uni, mapped, bufs, total)
}

fn fresh_sink(c: &mut Case) -> Result<(BodySink, Vec<u8>), String> {
    let mut s = if c.rng.chance(1, 5) {
        c.note("sink starts in a file");
        BodySink::with_fs(c.dir).map_err(|e| e.to_string())?
    } else { BodySink::with_ram_buffers(4) };
    let start = if c.rng.chance(1, 5) { let n = c.rng.size(60); c.rng.bytes(n) } else { vec![] };
    s.write_all(&start).map_err(|e| e.to_string())?;
    Ok((s, start))
}

fn limits(c: &mut Case, total: u64, within: bool) -> Tunables {
    let max = if within { total + c.rng.below(3) } else {
        match c.rng.below(3) { 0 => total.saturating_sub(1), 1 => total, _ => c.rng.below(total + 3) } };
    let max_ram = match c.rng.below(4) { 0 => 0, 1 => max, 2 => c.rng.below(max + 1), _ => max / 2 }.min(max);
    body::tunables(c, max_ram, max)
}

pub fn c13(c: &mut Case) -> Outcome {
    let (how, uni, mapped, bufs, total) = plan(c);
    let (sink, start) = fresh_sink(c)?;
    let t = limits(c, total + start.len() as u64, true);
    let lim = if !mapped && c.rng.chance(1, 5) && total > 0 { Some(c.rng.below(total + 1)) } else { None };
    if let Some(l) = lim { c.note(format!("file size limit {}", l)); }
    fault::limit_file_size(lim);
    let r = if uni { send_all::<UniBodyBuf>(c, how, t, sink, &start, &bufs, mapped) }
            else { send_all::<Bytes>(c, how, t, sink, &start, &bufs, mapped) };
    fault::limit_file_size(None);
    let r = r?;
    match r.told {
        Told::Fine => {
            let s = r.sink.unwrap();
            if s.len() != r.accepted.len() as u64 {
                return Err(format!("sink holds {} of {} accepted bytes after flush", s.len(), r.accepted.len()));
            }
            let img = s.prepare().map_err(|e| e.to_string())?;
            diff("recovered", &bytes_of(&img)?, &r.accepted)?;
        }
        Told::Failed(e) => if lim.is_none() { return Err(format!("failed: {}", e)); },
    }
    // stopping with a buffer accepted but not flushed loses only that buffer
    if c.rng.chance(1, 4) && !bufs.is_empty() {
        let mut s: AsyncBodySink<Bytes> = AsyncBodySink::new(BodySink::empty(),
            futio_tune(body::tunables(c, 0, 1 << 30), How::Direct, leak_sema(0), 1));
        let w = waker();
        let mut cx = Context::from_waker(&w);
        for b in &bufs {
            match Pin::new(&mut s).poll_ready(&mut cx) { Poll::Ready(Ok(())) => (), _ => return Err("poll_ready".into()) }
            Pin::new(&mut s).start_send(Bytes::copy_from_slice(b)).map_err(|e| e.to_string())?;
        }
        match Pin::new(&mut s).poll_ready(&mut cx) { Poll::Ready(Ok(())) => (), _ => return Err("poll_ready".into()) }
        let got = s.into_inner().prepare().map_err(|e| e.to_string())?;
        diff("after poll_ready", &bytes_of(&got)?, &bufs.concat())?;
    }
    Ok(total > 0 || r.start > 0)
}

pub fn c03(c: &mut Case) -> Outcome {
    match c.rng.below(6) {
        0..=2 => { c.note("-- read_from"); body::read_limits(c) }
        3 => { c.note("-- compressed record"); barcs::decode_limits(c) }
        4 => {
            c.note("-- response decoding");
            let l = c.rng.size(60_000);
            let data = c.rng.bytes(l);
            let (name, enc) = *c.rng.pick(&[("gzip", Encoding::Gzip), ("deflate", Encoding::Deflate), ("br", Encoding::Brotli)]);
            let comp = compress(enc, &data);
            let t = limits(c, l as u64, false);
            c.note(format!("{} over {}", name, show(&data)));
            let mut d = dialog_with(vec![("content-encoding".into(), name.into())], BodyImage::from_slice(comp));
            limit_verdict(decode_res_body(&mut d, &t).map(|_| d.res_body().len()), l as u64, &t, Some(d.res_body()))
        }
        _ => {
            c.note("-- asynchronous sink");
            let (how, uni, mapped, bufs, total) = plan(c);
            let (sink, start) = fresh_sink(c)?;
            let whole = total + start.len() as u64;
            let t = limits(c, whole, false);
            if start.len() as u64 > t.max_body() { return Ok(false); }
            let r = if uni { send_all::<UniBodyBuf>(c, how, t.clone(), sink, &start, &bufs, mapped)? }
                    else { send_all::<Bytes>(c, how, t.clone(), sink, &start, &bufs, mapped)? };
            match r.told {
                Told::Fine => {
                    let n = r.sink.unwrap().prepare().map_err(|e| e.to_string())?.len();
                    if n > t.max_body() { return Err(format!("sink took {} with maximum {}", n, t.max_body())); }
                    if whole > t.max_body() { return Err(format!("{} bytes sent with maximum {} without an error", whole, t.max_body())); }
                }
                Told::Failed(FutioError::Body(BodyError::BodyTooLong(_))) =>
                    if whole <= t.max_body() { return Err(format!("{} bytes rejected with maximum {}", whole, t.max_body())); },
                Told::Failed(e) => return Err(format!("unexpected error {}", e)),
            }
            Ok(true)
        }
    }
}

fn limit_verdict(r: Result<u64, FutioError>, l: u64, t: &Tunables, img: Option<&BodyImage>) -> Outcome {
    match r {
        Ok(n) => {
            if n > t.max_body() { return Err(format!("body of {} with maximum {}", n, t.max_body())); }
            if l > t.max_body() { return Err(format!("{} bytes accepted with maximum {}", l, t.max_body())); }
            if let Some(i) = img { if i.is_ram() && i.len() > t.max_body_ram() {
                return Err(format!("body of {} in RAM with RAM maximum {}", i.len(), t.max_body_ram())); } }
        }
        Err(FutioError::Body(BodyError::BodyTooLong(_))) =>
            if l <= t.max_body() { return Err(format!("{} bytes rejected as too long with maximum {}", l, t.max_body())); },
        Err(e) => return Err(format!("unexpected error {}", e)),
    }
    Ok(true)
}

// -- C14 -----------------------------------------------------------------

/// Files this process has open under `dir` and their total size.
fn open_files(dir: &Path) -> (usize, u64) {
    let mut n = 0;
    let mut size = 0;
    if let Ok(rd) = std::fs::read_dir("/proc/self/fd") {
        for e in rd.flatten() {
            if let Ok(t) = std::fs::read_link(e.path()) {
                if t.starts_with(dir) {
                    n += 1;
                    if let Ok(m) = std::fs::metadata(e.path()) { size += m.len(); }
                }
            }
        }
    }
    (n, size)
}

/// Occupies the only thread of the dispatch pool until released.
struct Hold(mpsc::Sender<()>);
fn hold() -> Hold {
    pool();
    let (tx, rx) = mpsc::channel::<()>();
    let (etx, erx) = mpsc::channel::<()>();
    let f = blocking_permit::dispatch(move || { let _ = etx.send(()); let _ = rx.recv_timeout(PATIENCE); });
    assert!(f.is_none());
    let _ = erx.recv_timeout(PATIENCE);
    Hold(tx)
}
fn barrier() {
    let mut d = dispatch_rx(|| ()).unwrap();
    let w = waker();
    let mut cx = Context::from_waker(&w);
    let start = Instant::now();
    while let Poll::Pending = Pin::new(&mut d).poll(&mut cx) {
        std::thread::sleep(Duration::from_micros(20));
        if start.elapsed() > PATIENCE { panic!("dispatch pool stuck"); }
    }
}

pub fn c14(c: &mut Case) -> Outcome {
    if c.rng.chance(1, 2) { c14_sink(c) } else { c14_stream(c) }
}

fn c14_sink(c: &mut Case) -> Outcome {
    pool();
    let dispatch = c.rng.chance(1, 2);
    let how = if dispatch { How::Dispatch } else { How::Permit };
    let n = 1 + c.rng.below(5);
    let bufs: Vec<Vec<u8>> = (0..n).map(|_| { let n = c.rng.size(200); c.rng.bytes(n) }).collect();
    let total: u64 = bufs.iter().map(|b| b.len() as u64).sum();
    let max_ram = c.rng.below(total + 2);
    c.note(format!("sink {:?} buffers {:?}", how, bufs.iter().map(|b| b.len()).collect::<Vec<_>>()));
    let t = body::tunables(c, max_ram, total + 10);
    let sema = leak_sema(0);
    let ft = futio_tune(t, how, sema, 1);
    let fs = c.rng.chance(1, 5);
    let sink = if fs { c.note("sink starts in a file"); BodySink::with_fs(c.dir).map_err(|e| e.to_string())? }
               else { BodySink::empty() };
    macro_rules! go { ($t:ty) => {{
        let mut s: $t = SinkWrapper::<Bytes>::new(sink, ft);
        c14_drive(c, &mut s, &bufs, fs, max_ram, dispatch, sema)?;
        let img = SinkWrapper::<Bytes>::into_inner(s).prepare().map_err(|e| e.to_string())?;
        diff("recovered", &bytes_of(&img)?, &bufs.concat())?;
    }} }
    if dispatch { go!(DispatchBodySink<Bytes>) } else { go!(PermitBodySink<Bytes>) }
    Ok(total > max_ram)
}

fn c14_drive<S: Sink<Bytes, Error = FutioError> + Unpin>(
    c: &mut Case, s: &mut S, bufs: &[Vec<u8>], fs: bool, max_ram: u64, dispatch: bool, sema: &'static Semaphore)
    -> Result<(), String>
{
    let w = waker();
    let mut cx = Context::from_waker(&w);
    let mut len = 0u64;
    let mut in_file = fs;
    let mut file = open_files(c.dir);
    for b in bufs.iter() {
        match Pin::new(&mut *s).poll_ready(&mut cx) {
            Poll::Ready(Ok(())) => (),
            Poll::Ready(Err(e)) => return Err(format!("poll_ready: {}", e)),
            Poll::Pending => return Err("poll_ready pending with nothing to write".into()),
        }
        Pin::new(&mut *s).start_send(Bytes::copy_from_slice(b)).map_err(|e| e.to_string())?;
        if open_files(c.dir) != file { return Err("file work in start_send".into()); }
        len += b.len() as u64;
        let needs = !b.is_empty() && (in_file || len > max_ram);
        let h = if dispatch { Some(hold()) } else { None };
        // nothing granted
        for _ in 0..1 + c.rng.below(3) {
            let r = Pin::new(&mut *s).poll_flush(&mut cx);
            if open_files(c.dir) != file {
                return Err(format!("file work without a grant ({:?} -> {:?})", file, open_files(c.dir)));
            }
            match (needs, r) {
                (false, Poll::Ready(Ok(()))) | (true, Poll::Pending) => (),
                (_, Poll::Ready(Err(e))) => return Err(format!("flush: {}", e)),
                (false, Poll::Pending) => return Err("data within the RAM limit waits for a grant".into()),
                (true, Poll::Ready(Ok(()))) => return Err("flush complete without a grant although a file write is needed".into()),
            }
        }
        // one grant
        if let Some(h) = h { let _ = h.0.send(()); }
        if dispatch { barrier(); } else if needs { sema.add_permits(1); }
        let mut p = 0;
        match settle(|| Pin::new(&mut *s).poll_flush(&mut cx), &mut p)? {
            Ok(()) => (), Err(e) => return Err(format!("flush: {}", e)),
        }
        if needs && !dispatch {
            match sema.try_acquire() {
                Ok(p) => p.forget(),
                Err(_) => return Err("the grant was not given back".into()),
            }
        }
        if needs { in_file = true; }
        let now = open_files(c.dir);
        if needs && now.1 < len { return Err(format!("flush complete but only {} of {} bytes in the file", now.1, len)); }
        if !needs && now != file { return Err("file work without a grant".into()); }
        file = now;
    }
    Ok(())
}

fn c14_stream(c: &mut Case) -> Outcome {
    pool();
    let dispatch = c.rng.chance(1, 2);
    let n = c.rng.size(5000);
    let data = c.rng.bytes(n);
    c.note(format!("stream {} over {}", if dispatch { "dispatch" } else { "permit" }, show(&data)));
    let img = image(c, &data)?;
    let ram = img.is_ram();
    let t = body::tunables(c, 1 << 20, 1 << 30);
    let fsb = t.buffer_size_fs();
    let mapped = img.is_mem_map();
    let sema = leak_sema(0);
    let ft = futio_tune(t, if dispatch { How::Dispatch } else { How::Permit }, sema, 1);
    macro_rules! go { ($t:ty) => {{
        let mut s: $t = StreamWrapper::new(img, ft);
        stream_grants(c, &mut s, &data, ram, mapped, fsb, dispatch, sema)
    }} }
    if c.rng.chance(1, 2) {
        if dispatch { go!(DispatchBodyImage<Bytes>) } else { go!(PermitBodyImage<Bytes>) }
    } else {
        if dispatch { go!(DispatchBodyImage<UniBodyBuf>) } else { go!(PermitBodyImage<UniBodyBuf>) }
    }
}

fn stream_grants<B: Buf, S: Stream<Item = io::Result<B>> + Unpin>(
    c: &mut Case, s: &mut S, data: &[u8], ram: bool, mapped: bool, fsb: usize, dispatch: bool, sema: &'static Semaphore)
    -> Outcome
{
    let w = waker();
    let mut cx = Context::from_waker(&w);
    let mut got = vec![];
    loop {
        let h = if dispatch { Some(hold()) } else { None };
        let needs = !ram && got.len() < data.len();
        let mut r = None;
        for _ in 0..1 + c.rng.below(3) {
            match (needs, Pin::new(&mut *s).poll_next(&mut cx)) {
                (true, Poll::Pending) => (),
                (true, Poll::Ready(_)) => return Err("file read without a grant".into()),
                (false, Poll::Pending) => return Err("data in RAM (or the end) waits for a grant".into()),
                (false, Poll::Ready(x)) => { r = Some(x); break; }
            }
        }
        if let Some(h) = h { let _ = h.0.send(()); }
        if needs {
            if dispatch { barrier(); } else { sema.add_permits(1); }
            let mut p = 0;
            let x = settle(|| Pin::new(&mut *s).poll_next(&mut cx), &mut p)?;
            if !dispatch {
                match sema.try_acquire() { Ok(p) => p.forget(), Err(_) => return Err("the grant was not given back".into()) }
            }
            if let Some(Ok(ref b)) = x {
                if !mapped && b.remaining() > fsb { return Err("more than one read per grant".into()); }
            }
            r = Some(x);
        }
        match r.unwrap() {
            Some(Ok(mut b)) => { let mut v = vec![0; b.remaining()]; b.copy_to_slice(&mut v); got.extend(v); }
            Some(Err(e)) => return Err(format!("stream: {}", e)),
            None => break,
        }
    }
    diff("streamed", &got, data)?;
    Ok(!ram && !data.is_empty())
}

// -- C15 -----------------------------------------------------------------

fn collect<B: Buf, S: Stream<Item = io::Result<B>> + Unpin>(
    s: &mut S, max_item: Option<usize>, hint: impl Fn(&S) -> Option<(Option<u64>, bool)>, len: u64)
    -> Result<(Vec<u8>, Option<io::Error>), String>
{
    let w = waker();
    let mut cx = Context::from_waker(&w);
    let mut got: Vec<u8> = vec![];
    let mut p = 0;
    loop {
        if let Some((h, end)) = hint(s) {
            if h != Some(len) { return Err(format!("size hint {:?} of a {} byte image", h, len)); }
            if end && got.len() as u64 != len {
                return Err(format!("end of stream reported {} after {} of {} bytes", end, got.len(), len));
            }
        }
        match settle(|| Pin::new(&mut *s).poll_next(&mut cx), &mut p)? {
            Some(Ok(mut b)) => {
                if let Some(m) = max_item { if b.remaining() > m { return Err(format!("item of {} with maximum {}", b.remaining(), m)); } }
                let mut v = vec![0; b.remaining()];
                b.copy_to_slice(&mut v);
                got.extend(v);
                if got.len() as u64 > len { return Err(format!("{} bytes from a {} byte image", got.len(), len)); }
            }
            last => {
                if let Some((_, true)) = hint(s) {
                    if got.len() as u64 != len {
                        return Err(format!("end of stream reported after {} of {} bytes and an early end", got.len(), len));
                    }
                }
                return Ok((got, last.and_then(|r| r.err())));
            }
        }
    }
}

pub fn c15(c: &mut Case) -> Outcome {
    pool();
    let big = *c.rng.pick(&[300u64, 9000, 150_000]);
    let data = c.rng.blob(big);
    c.note(format!("content {}", show(&data)));
    let short = if !data.is_empty() && c.rng.chance(1, 6) { Some(c.rng.below(data.len() as u64)) } else { None };
    let img = if let Some(n) = short {
        c.note(format!("file image, file cut to {}", n));
        let mut f = tempfile::tempfile_in(c.dir).map_err(|e| e.to_string())?;
        f.write_all(&data[..n as usize]).map_err(|e| e.to_string())?;
        body::from_file(f, data.len() as u64)
    } else { image(c, &data)? };
    let len = img.len();
    if len != data.len() as u64 { return Err(format!("image length {}", len)); }
    let t = body::tunables(c, 1 << 20, 1 << 30);
    let item = (1 + c.rng.size(3000)).max(data.len() / 4000);
    let kind = c.rng.below(5);
    let uni = c.rng.chance(1, 2);
    let how = match kind { 3 => How::Permit, 4 => How::Dispatch, _ => How::Direct };
    c.note(format!("stream kind {} {} item size {}",
                   ["direct", "split", "yield", "permit", "dispatch"][kind as usize],
                   if uni { "UniBodyBuf" } else { "Bytes" }, item));
    let ft = futio_tune(t, how, leak_sema(1), item);
    let broken = c.rng.chance(1, 6);
    if broken {
        let d = fault::failing(&mut c.rng);
        c.note(format!("reads fail after {:?}", d.reads));
        fault::disturb(Some(d));
    }
    fn h<S: Body>(s: &S) -> Option<(Option<u64>, bool)> { Some((s.size_hint().exact(), s.is_end_stream())) }
    macro_rules! go {
        ($t:ty, $m:expr, body) => {{ let mut s: $t = StreamWrapper::new(img, ft); collect(&mut s, $m, h, len)? }};
        ($t:ty, $m:expr) => {{ let mut s: $t = StreamWrapper::new(img, ft); collect(&mut s, $m, |_| None, len)? }};
    }
    let (got, err) = match (kind, uni) {
        (0, false) => go!(AsyncBodyImage<Bytes>, None, body),
        (0, true) => go!(AsyncBodyImage<UniBodyBuf>, None, body),
        (1, false) => go!(SplitBodyImage<Bytes>, Some(item)),
        (1, true) => go!(SplitBodyImage<UniBodyBuf>, Some(item)),
        (2, false) => go!(YieldBodyImage<Bytes>, None),
        (2, true) => go!(YieldBodyImage<UniBodyBuf>, None),
        (3, false) => go!(PermitBodyImage<Bytes>, None, body),
        (3, true) => go!(PermitBodyImage<UniBodyBuf>, None, body),
        (_, false) => go!(DispatchBodyImage<Bytes>, None, body),
        (_, true) => go!(DispatchBodyImage<UniBodyBuf>, None, body),
    };
    fault::disturb(None);
    match (short, err) {
        (None, _) if broken => if !data.starts_with(&got) {
            return Err("other bytes than the file's from a failing file".into());
        },
        (Some(_), _) => if !data.starts_with(&got) || got.len() as u64 > short.unwrap() {
            return Err("other bytes than the file's from a cut file".into());
        },
        (None, Some(e)) => return Err(format!("stream: {}", e)),
        (None, None) => diff("streamed", &got, &data)?,
    }
    Ok(!data.is_empty())
}

// -- C16 -----------------------------------------------------------------

fn window(u: &UniBodyBuf, want: &[u8]) -> Result<(), String> {
    if u.remaining() != want.len() { return Err(format!("remaining {} of a {} byte window", u.remaining(), want.len())); }
    diff("chunk", u.chunk(), want)?;
    diff("deref", u.deref(), want)?;
    diff("as_ref", u.as_ref(), want)?;
    if u.has_remaining() == want.is_empty() { return Err("has_remaining".into()); }
    Ok(())
}

pub fn c16(c: &mut Case) -> Outcome {
    let n = c.rng.size(6000);
    let data = c.rng.bytes(n);
    let mapped = !data.is_empty() && c.rng.chance(2, 3);
    c.note(format!("{} {}", if mapped { "mapped" } else { "Bytes" }, show(&data)));
    let mut w: &[u8] = &data;
    let mut u = if mapped { mapped_buf(&data, c.dir)? } else { UniBodyBuf::from(Bytes::copy_from_slice(&data)) };
    window(&u, w)?;
    for _ in 0..c.rng.below(8) {
        match c.rng.below(5) {
            0 | 1 => {
                let k = match c.rng.below(4) { 0 => 0, 1 => w.len() as u64, _ => c.rng.below(w.len() as u64 + 1) } as usize;
                c.note(format!("advance {}", k));
                u.advance(k);
                w = &w[k..];
            }
            2 => {
                let k = w.len() + 1 + c.rng.size(5000);
                c.note(format!("advance {} past the end", k));
                if panic::catch_unwind(panic::AssertUnwindSafe(|| u.advance(k))).is_ok() {
                    return Err(format!("advance by {} with {} left did not panic", k, w.len()));
                }
            }
            _ => {
                let m = 1 + match c.rng.below(4) { 0 => 0, 1 => w.len().saturating_sub(1), 2 => w.len(), _ => c.rng.below(w.len() as u64 + 3) as usize };
                c.note(format!("split_if {}", m));
                match u.split_if(m) {
                    Some(front) => {
                        if w.len() <= m { return Err(format!("split {} bytes at maximum {}", w.len(), m)); }
                        let fw = &w[..m];
                        window(&front, fw)?;
                        w = &w[m..];
                        if c.rng.chance(1, 3) {
                            let b: Bytes = front.into();
                            diff("split front as Bytes", &b, fw)?;
                        } else if c.rng.chance(1, 3) {
                            // go on with the front part
                            w = fw;
                            u = front;
                        } else { drop(front); }
                    }
                    None => if w.len() > m { return Err(format!("{} bytes not split at maximum {}", w.len(), m)); },
                }
            }
        }
        window(&u, w)?;
    }
    let b: Bytes = u.into();
    diff("into Bytes", &b, w)?;
    Ok(!data.is_empty())
}

// -- C17 -----------------------------------------------------------------

pub fn compress(e: Encoding, d: &[u8]) -> Vec<u8> {
    match e {
        Encoding::Gzip => {
            let mut w = flate2::write::GzEncoder::new(vec![], flate2::Compression::fast());
            w.write_all(d).unwrap();
            w.finish().unwrap()
        }
        Encoding::Deflate => {
            let mut w = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::fast());
            w.write_all(d).unwrap();
            w.finish().unwrap()
        }
        Encoding::Brotli => {
            let mut o = vec![];
            { let mut w = brotli::CompressorWriter::new(&mut o, 4096, 2, 18); w.write_all(d).unwrap(); }
            o
        }
        _ => d.to_vec(),
    }
}

fn reference(e: Encoding, d: &[u8]) -> Result<Vec<u8>, io::Error> {
    let mut v = vec![];
    match e {
        Encoding::Gzip => { flate2::read::GzDecoder::new(d).read_to_end(&mut v)?; }
        Encoding::Deflate => { flate2::read::DeflateDecoder::new(d).read_to_end(&mut v)?; }
        _ => { brotli::Decompressor::new(d, 8192).read_to_end(&mut v)?; }
    }
    Ok(v)
}

pub fn dialog_with(headers: Vec<(String, String)>, body: BodyImage) -> Dialog {
    let mut h = http::HeaderMap::new();
    for (k, v) in headers {
        h.append(http::header::HeaderName::from_bytes(k.as_bytes()).unwrap(), v.parse().unwrap());
    }
    Dialog::new(
        Prolog { method: http::Method::GET, url: "http://h/p".parse().unwrap(),
                 req_headers: http::HeaderMap::new(), req_body: BodyImage::from_slice("request body") },
        Epilog { version: http::Version::HTTP_11, status: http::StatusCode::OK,
                 res_headers: h, res_body: body, res_decoded: vec![Encoding::Chunked] })
}

pub fn c17(c: &mut Case) -> Outcome {
    let toks = ["gzip", "x-gzip", "deflate", "br", "chunked", "identity", "compress", "zstd-no", "exi", "sdch",
        "zip", "x-deflate", "zlib", "brotli", "x-br", "x-compress", "gz", "gzipped", "chunk"];
    // header lines per name, each a list of codings
    let mut lines: Vec<(&str, Vec<&str>)> = vec![];
    for name in ["transfer-encoding", "content-encoding"].iter() {
        let k = *c.rng.pick(&[0u64, 0, 1, 1, 1, 2]);
        for _ in 0..k {
            let n = 1 + *c.rng.pick(&[0u64, 0, 0, 1, 2]);
            let l: Vec<&str> = (0..n).map(|_| if c.rng.chance(3, 4) { *c.rng.pick(&toks[..6]) } else { *c.rng.pick(&toks) }).collect();
            lines.push((name, l));
        }
    }
    // the last one applied: transfer codings come after content codings
    let coding = |t: &str| match t {
        "gzip" | "x-gzip" => Some(Encoding::Gzip), "deflate" => Some(Encoding::Deflate),
        "br" => Some(Encoding::Brotli), "compress" => Some(Encoding::Compress), _ => None };
    let find = |n: &str| lines.iter().filter(|l| l.0 == n).flat_map(|l| l.1.iter()).filter_map(|t| coding(t)).last();
    let comp = find("transfer-encoding").or_else(|| find("content-encoding"));
    let chunked = lines.iter().any(|l| l.0 == "transfer-encoding" && l.1.contains(&"chunked"));
    let plain = { let n = c.rng.size(40_000); c.rng.bytes(n) };
    let mut wire = match comp { Some(e) => compress(e, &plain), None => plain.clone() };
    match c.rng.below(8) {
        0 if !wire.is_empty() => { let n = c.rng.below(wire.len() as u64) as usize; c.note(format!("cut to {}", n)); wire.truncate(n); }
        1 if !wire.is_empty() => { let n = c.rng.below(wire.len() as u64) as usize; c.note(format!("flip at {}", n)); wire[n] ^= 1 << c.rng.below(8); }
        2 => { let n = c.rng.size(30); wire = c.rng.bytes(n); c.note("random body"); }
        _ => (),
    }
    let hs: Vec<(String, String)> = lines.iter().map(|l| {
        let sep = *c.rng.pick(&[", ", ",", " , "]);
        (l.0.to_string(), l.1.join(sep))
    }).collect();
    c.note(format!("headers {:?} body {}", hs, show(&wire)));
    let img = image(c, &wire)?;
    let max_ram = *c.rng.pick(&[0u64, 100, 1 << 20]);
    let t = body::tunables(c, max_ram, 1 << 30);
    let mut d = dialog_with(hs, img);
    if find_chunked(d.res_headers()) != chunked { return Err(format!("find_chunked {}", !chunked)); }
    let before = format!("{:?}", d);
    let r = decode_res_body(&mut d, &t);
    let mut want_list = vec![];
    if chunked { want_list.push(Encoding::Chunked); }
    let expect: Result<Option<Vec<u8>>, ()> = match comp {
        None => Ok(None),
        Some(Encoding::Compress) => Err(()),
        Some(e) => reference(e, &wire).map(Some).map_err(|_| ()),
    };
    match (expect, r) {
        (Ok(None), Ok(b)) => {
            if b { return Err("reported as decoded without a compression".into()); }
            diff("body", &bytes_of(d.res_body())?, &wire)?;
        }
        (Ok(Some(v)), Ok(b)) => {
            if !b { return Err(format!("not decoded although {:?} is declared", comp)); }
            want_list.push(comp.unwrap());
            diff("decoded body", &bytes_of(d.res_body())?, &v)?;
            if d.res_body().len() != v.len() as u64 { return Err("decoded length".into()); }
        }
        (Err(()), Err(e)) => {
            if comp == Some(Encoding::Compress) {
                match e { FutioError::UnsupportedEncoding(Encoding::Compress) => (),
                          e => return Err(format!("unsupported encoding reported as {}", e)) }
            }
            if format!("{:?}", d) != before { return Err("dialog changed by a failed decoding".into()); }
            diff("body", &bytes_of(d.res_body())?, &wire)?;
            return Ok(true);
        }
        (Ok(_), Err(e)) => return Err(format!("failed: {} (declared {:?})", e, comp)),
        (Err(()), Ok(_)) => return Err(format!("damaged or unsupported {:?} body accepted", comp)),
    }
    want_list.push(Encoding::Identity);
    if *d.res_decoded() != want_list { return Err(format!("recorded {:?}, want {:?}", d.res_decoded(), want_list)); }
    diff("request body", &bytes_of(d.req_body())?, b"request body")?;
    Ok(comp.is_some())
}

// -- C18 -----------------------------------------------------------------

fn panics<T>(f: impl FnOnce() -> T) -> Option<T> {
    panic::catch_unwind(panic::AssertUnwindSafe(f)).ok()
}

#[derive(Clone, Debug, PartialEq)]
struct Model { ram: u64, max: u64, br: usize, bf: usize, d: u16, g: u16, b: u16, dir: std::path::PathBuf }

fn model_of(t: &Tunables) -> Model {
    Model { ram: t.max_body_ram(), max: t.max_body(), br: t.buffer_size_ram(), bf: t.buffer_size_fs(),
            d: t.size_estimate_deflate(), g: t.size_estimate_gzip(), b: t.size_estimate_brotli(),
            dir: t.temp_dir().to_path_buf() }
}

fn defaults() -> Model {
    Model { ram: 192 * 1024, max: 1 << 30, br: 8 * 1024, bf: 64 * 1024, d: 4, g: 5, b: 6, dir: std::env::temp_dir() }
}

pub fn c18(c: &mut Case) -> Outcome {
    let mut t = Tuner::new();
    let mut m = defaults();
    if model_of(&Tunables::new()) != m || model_of(&Tunables::default()) != m { return Err("documented defaults".into()); }
    for _ in 0..c.rng.below(8) {
        let v = match c.rng.below(5) { 0 => 0, 1 => 1, 2 => c.rng.below(100), 3 => c.rng.next(), _ => c.rng.below(1 << 20) };
        let k = c.rng.below(9);
        c.note(format!("set {} {}", ["max_body_ram", "max_body", "buffer_size_ram", "buffer_size_fs", "size_estimate_deflate",
            "size_estimate_gzip", "size_estimate_brotli", "temp_dir", "clone"][k as usize], v));
        let zero = match k { 2 | 3 => v as usize == 0, 4..=6 => v as u16 == 0, _ => false };
        let ok = match k {
            0 => { m.ram = v; panics(|| { t.set_max_body_ram(v); }).is_some() }
            1 => { m.max = v; panics(|| { t.set_max_body(v); }).is_some() }
            2 => { if !zero { m.br = v as usize; } panics(|| { t.set_buffer_size_ram(v as usize); }).is_some() }
            3 => { if !zero { m.bf = v as usize; } panics(|| { t.set_buffer_size_fs(v as usize); }).is_some() }
            4 => { if !zero { m.d = v as u16; } panics(|| { t.set_size_estimate_deflate(v as u16); }).is_some() }
            5 => { if !zero { m.g = v as u16; } panics(|| { t.set_size_estimate_gzip(v as u16); }).is_some() }
            6 => { if !zero { m.b = v as u16; } panics(|| { t.set_size_estimate_brotli(v as u16); }).is_some() }
            7 => { let p = c.dir.join(format!("d{}", v)); m.dir = p.clone(); panics(|| { t.set_temp_dir(p); }).is_some() }
            _ => { t = t.clone(); true }
        };
        if ok == zero { return Err(format!("setter {} of {}: {}", k, v, if ok { "accepted" } else { "rejected" })); }
        if zero { return Ok(true); }
    }
    let fin = panics(|| t.finish());
    let img = match fin {
        None => { if m.ram <= m.max { return Err(format!("finish rejected {:?}", m)); } return Ok(true); }
        Some(x) => { if m.ram > m.max { return Err(format!("finish accepted {:?}", m)); } x }
    };
    if model_of(&img) != m { return Err(format!("finished {:?}, set {:?}", model_of(&img), m)); }
    if &*img.temp_dir_rc() != m.dir.as_path() { return Err("temp_dir_rc".into()); }

    let mut f = FutioTuner::new();
    let sema = leak_sema(1);
    let mut im = defaults();
    let (mut res, mut bdy, mut item, mut pol) = (None, Some(Duration::from_secs(60)), 512 * 1024usize, 0);
    let check = |x: &FutioTunables, im: &Model, res: Option<Duration>, bdy: Option<Duration>, item: usize, pol: u64| -> Result<(), String> {
        if &model_of(x.image()) != im { return Err("image".into()); }
        if &model_of(AsRef::<Tunables>::as_ref(x)) != im { return Err("as_ref".into()); }
        if x.res_timeout() != res { return Err(format!("res_timeout {:?}, set {:?}", x.res_timeout(), res)); }
        if x.body_timeout() != bdy { return Err(format!("body_timeout {:?}, set {:?}", x.body_timeout(), bdy)); }
        if x.stream_item_size() != item { return Err("stream_item_size".into()); }
        let (p, s) = match x.blocking_policy() {
            BlockingPolicy::Direct => (0, x.blocking_semaphore().is_none()),
            BlockingPolicy::Permit(q) => (1, std::ptr::eq(q, sema) && x.blocking_semaphore().map(|z| std::ptr::eq(z, sema)) == Some(true)),
            BlockingPolicy::Dispatch => (2, x.blocking_semaphore().is_none()) };
        if p != pol || !s { return Err("blocking policy".into()); }
        Ok(())
    };
    check(&FutioTunables::new(), &im, res, bdy, item, pol).map_err(|e| format!("default {}", e))?;
    check(&FutioTunables::default(), &im, res, bdy, item, pol).map_err(|e| format!("default {}", e))?;
    for _ in 0..c.rng.below(8) {
        let d = match c.rng.below(4) { 0 => Duration::from_secs(60), 1 => Duration::from_millis(59_999),
                                       2 => Duration::new(60, 1), _ => Duration::from_millis(c.rng.below(120_000)) };
        let k = c.rng.below(7);
        c.note(format!("futio set {} {:?}", k, d));
        match k {
            0 => { f.set_image(img.clone()); im = m.clone(); }
            1 => {
                let n = if c.rng.chance(1, 6) { 0 } else { 1 + c.rng.size(1 << 20) };
                let ok = panics(|| { f.set_stream_item_size(n); }).is_some();
                if ok == (n == 0) { return Err(format!("stream_item_size {}", n)); }
                if n == 0 { return Ok(true); }
                item = n;
            }
            2 => { f.set_res_timeout(d); res = Some(d); }
            3 => { f.unset_res_timeout(); res = None; }
            4 => { f.set_body_timeout(d); bdy = Some(d); }
            5 => { f.unset_body_timeout(); bdy = None; }
            _ => {
                pol = c.rng.below(3);
                f.set_blocking_policy(match pol { 0 => BlockingPolicy::Direct, 1 => BlockingPolicy::Permit(sema), _ => BlockingPolicy::Dispatch });
            }
        }
    }
    let bad = matches!((res, bdy), (Some(r), Some(b)) if r > b);
    match panics(|| f.finish()) {
        None => if !bad { return Err(format!("finish rejected res {:?} body {:?}", res, bdy)); },
        Some(x) => {
            if bad { return Err(format!("finish accepted res {:?} body {:?}", res, bdy)); }
            check(&x, &im, res, bdy, item, pol)?;
        }
    }
    Ok(true)
}

// -- C20 -----------------------------------------------------------------

/// Keeps what the recorder hands to the stream wrapper.
struct Probe { image: BodyImage, fs: usize }
impl StreamWrapper for Probe {
    fn new(body: BodyImage, tune: FutioTunables) -> Self { Probe { image: body, fs: tune.image().buffer_size_fs() } }
}
impl Stream for Probe {
    type Item = io::Result<Bytes>;
    fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> { Poll::Ready(None) }
}
impl Body for Probe {
    type Data = Bytes;
    type Error = io::Error;
    fn poll_data(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<io::Result<Bytes>>> { Poll::Ready(None) }
    fn poll_trailers(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<Option<http::HeaderMap>>> { Poll::Ready(Ok(None)) }
}

pub fn c20(c: &mut Case) -> Outcome {
    let method = c.rng.pick(&["GET", "POST", "PUT", "DELETE", "OPTIONS", "HEAD", "PATCH", "BREW", "bad method"]).to_string();
    let url = c.rng.pick(&["http://localhost:8080/a/b?c=d&e", "/", "/rel/path", "*", "https://user@h.example/x%20y", "http://h", "http://bad host/", "h.example:443"]).to_string();
    let (method, url) = if c.rng.chance(1, 2) { (crate::dialog::token(c), crate::dialog::url(c)) } else { (method, url) };
    let mut b = http::Request::builder().method(method.as_str()).uri(url.as_str());
    let mut want = http::HeaderMap::new();
    let mut bad = method == "bad method" || url == "http://bad host/";
    for _ in 0..c.rng.below(5) {
        let k = c.rng.pick(&["accept", "x-a", "host", "cookie", "content-length", "x bad"]).to_string();
        let n = c.rng.size(30).min(30);
        let v: String = (0..n).map(|_| (0x21 + c.rng.below(0x5e) as u8) as char).collect();
        b = b.header(k.as_str(), v.as_str());
        if k == "x bad" { bad = true; } else { want.append(http::header::HeaderName::from_bytes(k.as_bytes()).unwrap(), v.parse().unwrap()); }
    }
    let n = c.rng.size(5000);
    let data = c.rng.bytes(n);
    let kind = c.rng.below(3);
    c.note(format!("{} {} headers {:?} body kind {} {}", method, url, want, kind, show(&data)));
    let real = c.rng.chance(1, 3);
    let t = body::tunables(c, 1 << 20, 1 << 30);
    let fs = t.buffer_size_fs();
    let ft = futio_tune(t, How::Direct, leak_sema(1), 1);
    let content: &[u8] = if kind == 0 { &[] } else { &data };
    macro_rules! rec { ($t:ty) => {{
        let r: Result<RequestRecord<$t>, http::Error> = match kind {
            0 => b.record(),
            1 => if c.rng.chance(1, 2) { b.record_body(data.clone()) } else { b.record_body(Bytes::from(data.clone())) },
            _ => { let i = image(c, &data)?; b.record_body_image(i, ft) }
        };
        match r {
            Err(e) => { if !bad { return Err(format!("failed: {}", e)); } return Ok(true); }
            Ok(r) => {
                if bad { return Err("builder error swallowed".into()); }
                head(&r, &method, &url, &want)?;
                diff("recorded body", &bytes_of(r.req_body())?, content)?;
                if r.req_body().len() != content.len() as u64 { return Err("recorded body length".into()); }
                r
            }
        }
    }} }
    if real {
        let r = rec!(AsyncBodyImage<Bytes>);
        let b = r.request().body();
        if Body::size_hint(b).exact() != Some(content.len() as u64) { return Err(format!("request body length {:?}", Body::size_hint(b))); }
    } else {
        let r = rec!(Probe);
        let p = r.request().body();
        diff("sent body", &bytes_of(&p.image)?, content)?;
        diff("sent body taken apart", &exploded(p.image.clone())?, content)?;
        if kind == 2 && p.fs != fs { return Err("given tunables not used".into()); }
    }
    Ok(true)
}

fn head<B>(r: &RequestRecord<B>, method: &str, url: &str, want: &http::HeaderMap) -> Result<(), String> {
    let q = r.request();
    if r.method().as_str() != method || q.method().as_str() != method {
        return Err(format!("method {} recorded {} sent {}", method, r.method(), q.method()));
    }
    let u: http::Uri = url.parse().map_err(|_| "url")?;
    if *r.url() != u || *q.uri() != u { return Err(format!("url {} recorded {} sent {}", url, r.url(), q.uri())); }
    if r.req_headers() != want || q.headers() != want { return Err(format!("headers recorded {:?} sent {:?}", r.req_headers(), q.headers())); }
    let a: Vec<_> = r.req_headers().iter().collect();
    let b: Vec<_> = want.iter().collect();
    if a != b { return Err("header order".into()); }
    Ok(())
}
