//! Services and proxies made by the `service!` macro.
use crate::cl::calls::OBJ;
use crate::cl::world::*;
use aldrin::core::ServiceUuid;
use aldrin::low_level::Proxy;
use aldrin::{service, Error, Handle, UnknownCall, UnknownEvent};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use uuid::uuid;

service! {
    service Open {
        uuid = ServiceUuid(uuid!("ee98534d-345a-4399-a656-07fd9c39a96e"));
        version = 3;

        fn add @ 1 {
            args = u32;
            ok = u32;
            err = String;
        }

        fn ping @ 2;

        fn name @ 300 = String;

        fn tell @ 4294967295 {
            args = u32;
        }

        event ticked @ 1 = u32;
        event pulsed @ 7;

        fn other = UnknownCall;
        event extra = UnknownEvent;
    }
}

service! {
    service Closed {
        uuid = ServiceUuid(uuid!("b6633b9f-c26d-4987-8ec0-5c8e526290f9"));
        version = 4;

        fn add @ 1 {
            args = u32;
            ok = u32;
            err = String;
        }

        event ticked @ 1 = u32;
        event pulsed @ 7;
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Out {
    Ok(u32),
    Done,
    Name,
    Err,
    Aborted,
    NoFunction,
    BadArgs,
}

fn failed(e: Error, fun: u32) -> Out {
    match e {
        Error::CallAborted => Out::Aborted,
        Error::InvalidFunction(e) if e.id() == fun => Out::NoFunction,
        Error::InvalidArguments(e) if e.id() == fun => Out::BadArgs,
        _ => {
            sym::check(false, "a call ends in an unexpected error");
            Out::Aborted
        }
    }
}

fn add(r: Result<aldrin::Reply<u32, String>, Error>) -> Out {
    match r {
        Ok(r) => match r.into_args() {
            Ok(v) => Out::Ok(v),
            Err(e) => {
                sym::check(e == "odd", "a call returns another error");
                Out::Err
            }
        },
        Err(e) => failed(e, 1),
    }
}

/// a call the proxy has no function for
async fn raw(p: &Proxy, fun: u32, bad: bool) -> Out {
    let r = if bad { p.call(fun, "x", None).await } else { p.call(fun, 5u32, None).await };
    match r {
        Ok(r) => match r.deserialize::<u32, String>() {
            Ok(Ok(v)) => Out::Ok(v),
            _ => Out::Err,
        },
        Err(e) => failed(e, fun),
    }
}

/// what comes of `what`, called by the generated proxy
async fn caller(p: &OpenProxy, what: usize, arg: u32) -> Out {
    match what {
        0 => add(p.add(arg).await),
        1 => add(p.add_val(arg).await),
        2 => add(p.add_ref(&arg).await),
        3 => match p.ping().await {
            Ok(_) => Out::Done,
            Err(e) => failed(e, 2),
        },
        4 => match p.name().await {
            Ok(r) => {
                sym::check(r.into_args().as_deref() == Ok("me"), "a call returns another value");
                Out::Name
            }
            Err(e) => failed(e, 300),
        },
        5 => match p.tell(arg).await {
            Ok(_) => Out::Done,
            Err(e) => failed(e, u32::MAX),
        },
        6 => raw(p.inner(), 1, true).await,
        7 => raw(p.inner(), 3, false).await,
        _ => raw(p.inner(), 2, true).await,
    }
}

struct Server {
    what: usize,
    act: usize,
    arg: u32,
    out: Option<Out>,
}

impl Server {
    fn add(&mut self, args: u32, p: aldrin::Promise<u32, String>) -> Result<(), Error> {
        sym::check(self.what < 3 && args == self.arg && p.id() == 1, "a call arrives as another one");
        self.out = Some(match self.act {
            0 => Out::Ok(args ^ 1),
            1 => Out::Err,
            _ => Out::Aborted,
        });
        match self.act {
            0 => p.ok(args ^ 1),
            1 => p.err("odd"),
            _ => p.abort(),
        }
    }
    fn ping(&mut self, p: aldrin::Promise<(), std::convert::Infallible>) -> Result<(), Error> {
        sym::check(self.what == 3 && p.id() == 2, "a call arrives as another one");
        self.out = Some(if self.act < 2 { Out::Done } else { Out::Aborted });
        match self.act {
            0 => p.done(),
            1 => p.ok(()),
            _ => Ok(drop(p)),
        }
    }
}

#[aldrin::private::async_trait::async_trait]
impl OpenCallHandler for Server {
    type Error = Error;

    async fn add(&mut self, args: u32, p: aldrin::Promise<u32, String>) -> Result<(), Error> {
        Server::add(self, args, p)
    }
    async fn ping(&mut self, p: aldrin::Promise<(), std::convert::Infallible>) -> Result<(), Error> {
        Server::ping(self, p)
    }
    async fn name(&mut self, p: aldrin::Promise<String, std::convert::Infallible>) -> Result<(), Error> {
        sym::check(self.what == 4 && p.id() == 300, "a call arrives as another one");
        self.out = Some(if self.act < 2 { Out::Name } else { Out::Aborted });
        match self.act {
            0 => p.ok("me"),
            1 => p.ok_val("me".into()),
            _ => p.abort(),
        }
    }
    async fn tell(&mut self, args: u32, p: aldrin::Promise<(), std::convert::Infallible>) -> Result<(), Error> {
        sym::check(self.what == 5 && p.id() == u32::MAX && args == self.arg, "a call arrives as another one");
        self.out = Some(Out::Done);
        p.done()
    }
    async fn other(&mut self, call: UnknownCall) -> Result<(), Error> {
        sym::check(self.what == 7 && call.id() == 3, "a known call arrives as an unknown one");
        self.out = Some(if self.act == 0 { Out::Ok(9) } else { Out::NoFunction });
        if self.act == 0 {
            call.ok(9u32)
        } else {
            Ok(drop(call))
        }
    }
    async fn invalid_call(&mut self, e: Error) -> Result<(), Error> {
        let n = match self.what {
            6 => 1,
            8 => 2,
            _ => 0,
        };
        sym::check(matches!(e, Error::InvalidArguments(e) if e.id() == n), "a valid call arrives as an invalid one");
        self.out = Some(Out::BadArgs);
        Ok(())
    }
}

/// one call of a generated proxy to a generated service
pub fn calls(fifo: usize, same: bool) {
    let mut w = World::new(if same { 1 } else { 2 }, fifo);
    let (h, h2) = (w.h(0), w.h(if same { 0 } else { 1 }));
    let what = sym::choice(9, "what");
    let act = sym::choice(3, "answer");
    let arg = [0, 0xffff_ffff][sym::choice(2, "arg")];
    let (obj, mut svc) = w.block(async move {
        let o = h.create_object(OBJ).await.expect("create object");
        let s = Open::new(&o).await.expect("create service");
        (o, s)
    });
    let id = svc.id();
    sym::check(id.uuid == Open::UUID && svc.version() == Open::VERSION && Open::VERSION == 3, "a service is another one");
    let match_by_hand = sym::choice(2, "by hand") == 1;
    let out = Rc::new(RefCell::new(None));
    let o = out.clone();
    let a = w.ex.spawn(async move {
        let p = OpenProxy::new(&h2, id).await.expect("create proxy");
        sym::check(p.id() == id && p.version() == 3, "a proxy is for another service");
        let bad = ClosedProxy::new(&h2, id).await;
        sym::check(matches!(bad, Err(Error::InvalidService)), "a proxy is made for a service of another kind");
        *o.borrow_mut() = Some(caller(&p, what, arg).await);
    });
    let want = Rc::new(RefCell::new(None));
    let wa = want.clone();
    let b = w.ex.spawn(async move {
        let mut s = Server { what, act, arg, out: None };
        let c = svc.next_call().await.expect("a service has calls");
        let r = if match_by_hand {
            match c {
                Ok(OpenCall::Add(c)) => {
                    sym::check(c.service() == id, "a call arrives at another service");
                    let (a, p) = c.into_args_and_promise();
                    s.add(a, p)
                }
                Ok(OpenCall::Ping(c)) => s.ping(c.into_args_and_promise().1),
                c => Open::dispatch_call(c, &mut s).await,
            }
        } else {
            Open::dispatch_call(c, &mut s).await
        };
        sym::check(r.is_ok(), "answering a call fails");
        *wa.borrow_mut() = s.out;
        sym::check(svc.destroy().await.is_ok(), "destroying a service fails");
        sym::check(svc.next_call().await.is_none(), "a call to a destroyed service");
    });
    w.ex.run();
    sym::check(w.ex.done(a) && w.ex.done(b), "an operation the application awaits never completes");
    w.check_alive();
    sym::check(want.borrow().is_some() && *out.borrow() == *want.borrow(), "a call's outcome is not what the callee said");
    drop(obj);
    w.ex.run();
    w.finish();
}

#[derive(Default)]
struct Heard {
    ticks: Vec<u32>,
    pulses: u32,
    unknown: Vec<u32>,
    invalid: Vec<u32>,
}

#[aldrin::private::async_trait::async_trait]
impl OpenEventHandler for Heard {
    type Error = Error;

    async fn ticked(&mut self, e: aldrin::Event<u32>) -> Result<(), Error> {
        sym::check(e.id() == 1, "an event arrives as another one");
        self.ticks.push(e.into_args());
        Ok(())
    }
    async fn pulsed(&mut self, e: aldrin::Event<()>) -> Result<(), Error> {
        sym::check(e.id() == 7, "an event arrives as another one");
        self.pulses += 1;
        Ok(())
    }
    async fn extra(&mut self, e: UnknownEvent) -> Result<(), Error> {
        self.unknown.push(e.id());
        Ok(())
    }
    async fn invalid_event(&mut self, e: Error) -> Result<(), Error> {
        match e {
            Error::InvalidArguments(e) => self.invalid.push(e.id()),
            _ => sym::check(false, "an event ends in an unexpected error"),
        }
        Ok(())
    }
}

#[aldrin::private::async_trait::async_trait]
impl ClosedEventHandler for Heard {
    type Error = Error;

    async fn ticked(&mut self, e: aldrin::Event<u32>) -> Result<(), Error> {
        OpenEventHandler::ticked(self, e).await
    }
    async fn pulsed(&mut self, e: aldrin::Event<()>) -> Result<(), Error> {
        OpenEventHandler::pulsed(self, e).await
    }
    async fn invalid_event(&mut self, e: Error) -> Result<(), Error> {
        OpenEventHandler::invalid_event(self, e).await
    }
}

macro_rules! events {
    ($n:ident, $s:ident, $p:ident, $open:expr) => {
        /// three events of a generated service, as its generated proxy hears them
        pub fn $n(fifo: usize, same: bool) {
            let mut w = World::new(if same { 1 } else { 2 }, fifo);
            let (h, h2): (Handle, Handle) = (w.h(0), w.h(if same { 0 } else { 1 }));
            let (obj, svc) = w.block(async move {
                let o = h.create_object(OBJ).await.expect("create object");
                let s = $s::new(&o).await.expect("create service");
                (o, s)
            });
            let id = svc.id();
            let (mut ticks, mut pulses, mut all) = (false, false, false);
            let p = w.block(async move { $p::new(&h2, id).await.expect("create proxy") });
            let mut subs = vec![];
            for _ in 0..2 {
                let k = sym::choice(8, "subscribe");
                match k {
                    0 => ticks = true,
                    1 => pulses = true,
                    2 => (ticks, pulses) = (true, true),
                    6 => all = true,
                    3 => ticks = false,
                    4 => pulses = false,
                    5 => (ticks, pulses, all) = (false, false, false),
                    _ => (),
                }
                subs.push(k);
            }
            let p = w.block(async move {
                for k in subs {
                    let r = match k {
                        0 => p.subscribe_ticked().await,
                        1 => p.subscribe_pulsed().await,
                        2 => p.subscribe_all().await,
                        3 => p.unsubscribe_ticked().await,
                        4 => p.unsubscribe_pulsed().await,
                        5 => p.unsubscribe_all().await,
                        6 => p.inner().subscribe_all().await,
                        _ => Ok(()),
                    };
                    sym::check(r.is_ok(), "subscribing fails");
                }
                p
            });
            let emits: Vec<_> = (0..2).map(|_| sym::choice(6, "emit")).collect();
            let mut want = Heard::default();
            for (i, e) in emits.iter().enumerate() {
                match e {
                    0..=2 if ticks || all => want.ticks.push(i as u32),
                    3 if pulses || all => want.pulses += 1,
                    4 if all && $open => want.unknown.push(99),
                    5 if ticks || all => want.invalid.push(1),
                    _ => (),
                }
            }
            let by_hand = sym::choice(2, "by hand") == 1;
            let a = w.ex.spawn(async move {
                for (i, e) in emits.into_iter().enumerate() {
                    let i = i as u32;
                    let r = match e {
                        0 => svc.ticked(i),
                        1 => svc.ticked_val(i),
                        2 => svc.ticked_ref(&i),
                        3 => svc.pulsed(),
                        4 => svc.inner().emit(99, i),
                        _ => svc.inner().emit(1, "x"),
                    };
                    sym::check(r.is_ok(), "emitting fails");
                }
                sym::check(svc.destroy().await.is_ok(), "destroying a service fails");
            });
            let heard = Rc::new(RefCell::new(Heard::default()));
            let ended = Rc::new(Cell::new(false));
            let (he, en) = (heard.clone(), ended.clone());
            let b = w.ex.spawn(async move {
                let mut p = p;
                let mut h = Heard::default();
                while let Some(e) = p.next_event().await {
                    let r = if by_hand {
                        if let Ok(e) = &e {
                            sym::check(e.service() == id, "an event arrives from another service");
                        }
                        $p::dispatch_event(e, &mut h).await
                    } else {
                        $p::dispatch_event(e, &mut h).await
                    };
                    sym::check(r.is_ok(), "an event cannot be handled");
                }
                *he.borrow_mut() = h;
                en.set(true);
            });
            w.ex.run();
            sym::check(w.ex.done(a), "an operation the application awaits never completes");
            sym::check(w.ex.done(b) && ended.get(), "a proxy does not end with its service");
            w.check_alive();
            {
                let h = heard.borrow();
                sym::check(h.ticks == want.ticks && h.pulses == want.pulses, "events are not delivered as subscribed");
                sym::check(h.unknown == want.unknown, "unknown events are not delivered as subscribed");
                sym::check(h.invalid == want.invalid, "invalid events are not reported");
            }
            drop(obj);
            w.ex.run();
            w.finish();
        }
    };
}

events!(events_open, Open, OpenProxy, true);
events!(events_closed, Closed, ClosedProxy, false);
