//! C14: framing and stream transport under every fragmentation.
use aldrin_core::message::*;
use aldrin_core::tokio::TokioTransport;
use aldrin_core::transport::*;
use aldrin_core::*;
use bytes::BytesMut;
use std::cell::RefCell;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use ::tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

// -------------------------------------------------------------- packetizer

/// frame of `n` bytes whose contents depend on `tag`
fn frame(n: usize, tag: u8) -> Vec<u8> {
    let mut f: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(7) ^ tag).collect();
    f[..4].copy_from_slice(&(n as u32).to_le_bytes());
    f
}

struct Feed {
    p: Packetizer,
    stream: Vec<u8>,
    ends: Vec<usize>,
    fed: usize,
    got: usize,
}

impl Feed {
    fn new(frames: &[Vec<u8>]) -> Self {
        let mut stream = vec![];
        let mut ends = vec![];
        for f in frames {
            stream.extend_from_slice(f);
            ends.push(stream.len());
        }
        Feed { p: Packetizer::new(), stream, ends, fed: 0, got: 0 }
    }
    fn extend(&mut self, n: usize) {
        self.p.extend_from_slice(&self.stream[self.fed..self.fed + n]);
        self.fed += n;
    }
    /// through the zero-copy interface; as many calls as it takes
    fn spare(&mut self, n: usize) {
        let end = self.fed + n;
        let mut rounds = 0;
        while self.fed < end {
            let s = self.p.spare_capacity_mut();
            sym::check(!s.is_empty(), "no room offered for more bytes");
            if s.is_empty() {
                sym::stop()
            }
            let k = s.len().min(end - self.fed);
            for (d, b) in s.iter_mut().zip(&self.stream[self.fed..self.fed + k]) {
                d.write(*b);
            }
            unsafe { self.p.bytes_written(k) };
            self.fed += k;
            rounds += 1;
            sym::check(rounds <= 8 + n, "no progress");
        }
    }
    /// one call of next_message
    fn next(&mut self) -> bool {
        let complete = self.got < self.ends.len() && self.ends[self.got] <= self.fed;
        match self.p.next_message() {
            Some(m) => {
                sym::check(complete, "frame produced before it was complete");
                let start = if self.got == 0 { 0 } else { self.ends[self.got - 1] };
                sym::check(
                    m[..] == self.stream[start..self.ends[self.got]],
                    "frame differs from the original",
                );
                self.got += 1;
                true
            }
            None => {
                sym::check(!complete, "complete frame not produced");
                false
            }
        }
    }
    fn drain(&mut self) {
        while self.next() {}
    }
}

/// small frames, every split into at most `pieces` pieces, both interfaces,
/// frames taken out after any piece or later
pub fn packets(pieces: usize, max: usize, sizes: &[usize]) {
    let big = sizes.iter().any(|s| *s > 1000);
    let n = 1 + sym::choice(max, "frames");
    let frames: Vec<_> = (0..n)
        .map(|i| frame(sizes[sym::choice(sizes.len(), "size")], i as u8 + 1))
        .collect();
    let mut f = Feed::new(&frames);
    let total = f.stream.len();
    for i in 0..pieces {
        let left = total - f.fed;
        if left == 0 {
            break;
        }
        let k = if i + 1 == pieces {
            left
        } else if !big {
            1 + sym::choice(left, "piece")
        } else {
            // around the frame boundaries and the internal reservation sizes
            let mut c: Vec<usize> = vec![left];
            for e in &f.ends {
                for d in [-1i64, 0, 3, 4] {
                    let x = *e as i64 + d - f.fed as i64;
                    if x > 0 && x < left as i64 {
                        c.push(x as usize);
                    }
                }
            }
            for x in [4, 65_536, 65_537] {
                if x < left {
                    c.push(x);
                }
            }
            c[sym::choice(c.len(), "piece")]
        };
        if sym::choice(2, "interface") == 0 {
            f.extend(k)
        } else {
            f.spare(k)
        }
        match sym::choice(3, "take") {
            0 => f.drain(),
            1 => {
                f.next();
            }
            _ => {}
        }
    }
    f.drain();
    sym::log(f.got as u64);
    sym::check(f.got == n, "frame lost");
    sym::check(f.p.next_message().is_none(), "frame out of nowhere");
    sym::cover("all frames");
}

/// all contents: one or two short frames with symbolic bytes, byte by byte
pub fn contents() {
    let a = 5 + sym::choice(4, "a");
    let b = 5 + sym::choice(3, "b");
    let mut fa = (a as u32).to_le_bytes().to_vec();
    fa.extend(sym::vec(a - 4, "body"));
    let mut fb = (b as u32).to_le_bytes().to_vec();
    fb.extend(sym::vec(b - 4, "body"));
    let mut f = Feed::new(&[fa, fb]);
    let i = sym::choice(2, "interface");
    let step = 1 + sym::choice(3, "step");
    while f.fed < f.stream.len() {
        let k = step.min(f.stream.len() - f.fed);
        if i == 0 {
            f.extend(k)
        } else {
            f.spare(k)
        }
        f.drain();
    }
    sym::check(f.got == 2, "frame lost");
}

/// any bytes: no panic, no byte lost or duplicated
pub fn garbage(n: usize) {
    let b = sym::vec(n, "buf");
    for (i, x) in b.iter().enumerate() {
        sym::assume(*x < 9 || *x == 255 && (2..4).contains(&i));
        sym::assume(i < 4 || *x == 0 || *x == 5);
        sym::assume(i != 2 && i != 1 || *x == 0 || *x == 255);
    }
    let mut p = Packetizer::new();
    let cut = sym::choice(n + 1, "cut");
    let mut pos = 0;
    for part in [&b[..cut], &b[cut..]] {
        if sym::choice(2, "interface") == 0 {
            p.extend_from_slice(part);
        } else {
            let mut part = part;
            while !part.is_empty() {
                let s = p.spare_capacity_mut();
                let k = s.len().min(part.len());
                sym::check(k > 0, "no room offered for more bytes");
                for (d, s) in s.iter_mut().zip(part) {
                    d.write(*s);
                }
                unsafe { p.bytes_written(k) };
                part = &part[k..];
            }
        }
        let mut i = 0;
        while let Some(m) = p.next_message() {
            i += 1;
            sym::check(i <= n, "endless frames");
            sym::check(pos + m.len() <= n && m[..] == b[pos..pos + m.len()], "bytes changed");
            pos += m.len().max(4);
        }
    }
}

// --------------------------------------------------------------- scripted io

#[derive(Default)]
struct Io {
    input: Vec<u8>,
    pos: usize,
    out: Vec<u8>,
    /// everything in `out` up to here was flushed
    flushed: usize,
    pending: bool,
    budget: usize,
    eof: bool,
    zero: bool,
    failed: bool,
    errors: bool,
    lens: Vec<usize>,
}

#[derive(Clone)]
struct Script(Rc<RefCell<Io>>);

fn err() -> io::Error {
    io::ErrorKind::BrokenPipe.into()
}

impl AsyncRead for Script {
    fn poll_read(
        self: Pin<&mut Self>,
        _: &mut Context,
        buf: &mut ReadBuf,
    ) -> Poll<io::Result<()>> {
        let mut s = self.0.borrow_mut();
        sym::check(buf.remaining() > 0, "read into an empty buffer");
        let left = s.input.len() - s.pos;
        if left == 0 {
            if s.errors && sym::choice(2, "end") == 1 {
                s.failed = true;
                return Poll::Ready(Err(err()));
            }
            s.eof = true;
            return Poll::Ready(Ok(()));
        }
        let max = left.min(buf.remaining());
        let n = if s.budget == 0 {
            max
        } else {
            s.budget -= 1;
            if sym::choice(2, "rpending") == 1 {
                s.pending = true;
                return Poll::Pending;
            }
            1 + sym::choice(max, "read")
        };
        buf.put_slice(&s.input[s.pos..s.pos + n]);
        s.pos += n;
        Poll::Ready(Ok(()))
    }
}

impl AsyncWrite for Script {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context, b: &[u8]) -> Poll<io::Result<usize>> {
        let mut s = self.0.borrow_mut();
        sym::check(!b.is_empty(), "empty write");
        if s.budget == 0 {
            s.out.extend_from_slice(b);
            return Poll::Ready(Ok(b.len()));
        }
        s.budget -= 1;
        let kinds = if s.errors { 4 } else { 2 };
        match sym::choice(kinds, "write") {
            0 => {
                // a short write of any length, or of a few lengths for long buffers
                let n = if b.len() <= 12 {
                    1 + sym::choice(b.len(), "written")
                } else {
                    let l = [1, 5, b.len() / 2, b.len() - 1, b.len()];
                    l[sym::choice(5, "written")]
                };
                s.out.extend_from_slice(&b[..n]);
                s.lens.push(n);
                Poll::Ready(Ok(n))
            }
            1 => {
                s.pending = true;
                Poll::Pending
            }
            2 => {
                s.zero = true;
                Poll::Ready(Ok(0))
            }
            _ => {
                s.failed = true;
                Poll::Ready(Err(err()))
            }
        }
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context) -> Poll<io::Result<()>> {
        let mut s = self.0.borrow_mut();
        if s.budget > 0 {
            s.budget -= 1;
            match sym::choice(if s.errors { 3 } else { 2 }, "flush") {
                0 => {}
                1 => {
                    s.pending = true;
                    return Poll::Pending;
                }
                _ => {
                    s.failed = true;
                    return Poll::Ready(Err(err()));
                }
            }
        }
        s.flushed = s.out.len();
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

/// polls until ready; a pending result must come from pending i/o
fn wait<T>(io: &Script, mut f: impl FnMut(&mut Context) -> Poll<T>) -> T {
    let mut cx = Context::from_waker(Waker::noop());
    loop {
        io.0.borrow_mut().pending = false;
        match f(&mut cx) {
            Poll::Ready(x) => return x,
            Poll::Pending => {
                sym::check(io.0.borrow().pending, "pending without pending i/o");
                sym::cover("pending");
                if !io.0.borrow().pending {
                    sym::stop()
                }
            }
        }
    }
}

fn msg(k: usize, i: u32) -> Message {
    match k {
        0 => Sync { serial: 1 + i }.into(),
        1 => CreateObject { serial: i, uuid: ObjectUuid(uuid::Uuid::from_u128(77 + i as u128)) }.into(),
        2 => Shutdown.into(),
        // longer than the backpressure boundary
        _ => {
            let b = vec![i as u8; 9000];
            SendItem {
                cookie: ChannelCookie(uuid::Uuid::from_u128(5)),
                value: SerializedValue::serialize_as::<tags::Bytes>(aldrin_core::ByteSlice::new(&b)).unwrap(),
            }
            .into()
        }
    }
}

fn msgs(n: usize, kinds: usize) -> Vec<Message> {
    (0..n).map(|i| msg(sym::choice(kinds, "msg"), i as u32)).collect()
}

/// receiving
pub fn receive(n: usize, budget: usize) {
    let ms = msgs(n, 3);
    let mut input = vec![];
    for m in &ms {
        input.extend_from_slice(&m.clone().serialize_message().unwrap());
    }
    let whole = input.len();
    // the stream may end anywhere
    let cut = if sym::choice(2, "truncated") == 1 { sym::choice(whole, "cut") } else { whole };
    input.truncate(cut);
    let io = Script(Rc::new(RefCell::new(Io { input, budget, errors: true, ..Default::default() })));
    let mut t = TokioTransport::new(io.clone());
    let mut end = 0;
    for m in &ms {
        end += m.clone().serialize_message().unwrap().len();
        let r = wait(&io, |cx| t.receive_poll_unpin(cx));
        if end <= cut {
            match r {
                Ok(x) => sym::check(x == *m, "received message differs"),
                Err(_) => sym::check(false, "message not received"),
            }
        } else {
            sym::check(r.is_err(), "incomplete message received");
            sym::check(io.0.borrow().eof || io.0.borrow().failed, "error out of nowhere");
            sym::cover("end of stream");
            return;
        }
    }
    sym::check(wait(&io, |cx| t.receive_poll_unpin(cx)).is_err(), "message out of nowhere");
    sym::check(io.0.borrow().eof || io.0.borrow().failed, "error out of nowhere");
    sym::cover("all received");
}

/// sending through TokioTransport, also behind a Buffered
pub fn send(n: usize, budget: usize, errors: bool, kinds: usize) {
    let ms = if kinds == 4 {
        // around the backpressure boundary
        (0..n).map(|i| msg([3, 0][sym::choice(2, "msg")], i as u32)).collect()
    } else {
        msgs(n, kinds)
    };
    let io = Script(Rc::new(RefCell::new(Io { budget, errors, ..Default::default() })));
    if sym::choice(2, "buffered") == 1 {
        run_send(TokioTransport::new(io.clone()).buffered(), &io, &ms);
    } else {
        run_send(TokioTransport::new(io.clone()), &io, &ms);
    }
}

fn run_send<T: AsyncTransport + Unpin>(mut t: T, io: &Script, ms: &[Message]) {
    let mut expect: Vec<u8> = vec![];
    let ok = |r: Result<(), T::Error>, expect: &[u8]| -> bool {
        let s = io.0.borrow();
        sym::check(
            s.out.len() <= expect.len() && s.out[..] == expect[..s.out.len()],
            "bytes lost, duplicated or reordered",
        );
        sym::check(r.is_err() == (s.zero || s.failed), "error lost or out of nowhere");
        r.is_ok()
    };
    for (i, m) in ms.iter().enumerate() {
        let bytes = m.clone().serialize_message().unwrap();
        let flush = i + 1 == ms.len() || sym::choice(2, "flush now") == 1;
        match sym::choice(2, "api") {
            0 => {
                let r = wait(io, |cx| t.send_poll_ready_unpin(cx));
                if !ok(r, &expect) {
                    return;
                }
                let r = t.send_start_unpin(m.clone());
                expect.extend_from_slice(&bytes);
                if !ok(r, &expect) {
                    return;
                }
                if flush {
                    let r = wait(io, |cx| t.send_poll_flush_unpin(cx));
                    if !ok(r, &expect) {
                        return;
                    }
                }
            }
            _ => {
                let r = if flush {
                    let mut f = t.send_and_flush(m.clone());
                    wait(io, |cx| Pin::new(&mut f).poll(cx))
                } else {
                    let mut f = t.send(m.clone());
                    wait(io, |cx| Pin::new(&mut f).poll(cx))
                };
                expect.extend_from_slice(&bytes);
                if !ok(r, &expect) {
                    return;
                }
            }
        }
        if flush {
            let s = io.0.borrow();
            sym::check(s.out[..] == expect[..], "flush returned before everything was written");
            sym::check(s.flushed == expect.len(), "flush did not reach the stream");
        }
    }
    sym::log(io.0.borrow().out.len() as u64);
    sym::cover("all sent");
}

// --------------------------------------------------- buffered over anything

#[derive(Default)]
struct Inner {
    sent: Vec<Message>,
    ready: bool,
    flushed: usize,
    pending: bool,
    failed: bool,
    budget: usize,
}

struct Scripted(Rc<RefCell<Inner>>);

impl Scripted {
    fn step(&self, what: &str) -> Poll<Result<(), ()>> {
        let mut s = self.0.borrow_mut();
        if s.budget > 0 {
            s.budget -= 1;
            match sym::choice(3, what) {
                0 => {}
                1 => {
                    s.pending = true;
                    return Poll::Pending;
                }
                _ => {
                    s.failed = true;
                    return Poll::Ready(Err(()));
                }
            }
        }
        Poll::Ready(Ok(()))
    }
}

impl AsyncTransport for Scripted {
    type Error = ();
    fn receive_poll(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<Message, ()>> {
        Poll::Pending
    }
    fn send_poll_ready(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), ()>> {
        let r = self.step("ready");
        if let Poll::Ready(Ok(())) = r {
            self.0.borrow_mut().ready = true;
        }
        r
    }
    fn send_start(self: Pin<&mut Self>, msg: Message) -> Result<(), ()> {
        let mut s = self.0.borrow_mut();
        sym::check(s.ready, "message started without being ready");
        s.ready = false;
        s.sent.push(msg);
        Ok(())
    }
    fn send_poll_flush(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), ()>> {
        let r = self.step("flush");
        if let Poll::Ready(Ok(())) = r {
            let mut s = self.0.borrow_mut();
            s.flushed = s.sent.len();
        }
        r
    }
}

pub fn buffered(budget: usize) {
    let inner = Rc::new(RefCell::new(Inner { budget, ..Default::default() }));
    let mut t = Scripted(inner.clone()).buffered();
    let mut cx = Context::from_waker(Waker::noop());
    let mut n = 0u32;
    for _ in 0..5 {
        if sym::choice(2, "op") == 0 {
            sym::check(
                matches!(t.send_poll_ready_unpin(&mut cx), Poll::Ready(Ok(()))),
                "buffer not ready",
            );
            n += 1;
            sym::check(t.send_start_unpin(Sync { serial: n }).is_ok(), "buffer rejects a message");
        } else {
            inner.borrow_mut().pending = false;
            let r = t.send_poll_flush_unpin(&mut cx);
            let s = inner.borrow();
            match r {
                Poll::Pending => sym::check(s.pending, "pending without a reason"),
                Poll::Ready(Err(())) => {
                    sym::check(s.failed, "error out of nowhere");
                    break;
                }
                Poll::Ready(Ok(())) => {
                    sym::check(!s.failed, "error lost");
                    sym::check(s.flushed == n as usize, "flush returned before everything was sent");
                    sym::cover("flushed");
                }
            }
        }
        let s = inner.borrow();
        sym::check(s.sent.len() <= n as usize, "message duplicated");
        for (i, m) in s.sent.iter().enumerate() {
            sym::check(
                *m == Message::Sync(Sync { serial: i as u32 + 1 }),
                "messages lost or reordered",
            );
        }
    }
    let _ = BytesMut::new();
}
