//! Reference model of the bus, written from the protocol's rules, and the
//! comparison of what every connection observed with what it should have.
use crate::net::*;
use aldrin_core::message::*;
use aldrin_core::*;
use uuid::Uuid;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum P {
    C02,
    C03,
    C04,
    C05,
    C09,
    C10,
    C11,
    C12,
}

pub struct MObj {
    pub uuid: ObjectUuid,
    pub cookie: ObjectCookie,
    pub owner: usize,
}
pub struct MSvc {
    pub obj: ObjectId,
    pub uuid: ServiceUuid,
    pub cookie: ServiceCookie,
    pub owner: usize,
    pub info: ServiceInfo,
    pub ev: Vec<(u32, usize)>,
    pub all: Vec<usize>,
    pub subs: Vec<usize>,
}
pub struct MCall {
    pub caller: usize,
    pub serial: u32,
    pub callee: usize,
    pub svc: ServiceCookie,
    pub callee_serial: u32,
    pub aborted: bool,
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum End {
    Free,
    Owned(usize),
    Closed,
}
pub struct MChan {
    pub cookie: ChannelCookie,
    pub s: End,
    pub r: End,
    /// credit granted by the receiver / announced to the sender / items forwarded
    pub granted: u64,
    pub announced: u64,
    pub sent: u64,
    /// receiver's outstanding credit as the receiver counts it (u32 in the protocol)
    pub open: u32,
}
pub struct MLis {
    pub cookie: BusListenerCookie,
    pub owner: usize,
    pub filters: Vec<BusListenerFilter>,
    pub scope: Option<BusListenerScope>,
}

/// what a message does to the connection that sent it
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fate {
    Stays,
    /// misbehaviour the broker may answer, ignore or punish
    May,
    /// must be closed
    Must,
}

pub struct World {
    pub net: Net,
    pub prop: P,
    pub alive: Vec<bool>,
    pub version: Vec<u32>,
    pub objs: Vec<MObj>,
    pub svcs: Vec<MSvc>,
    pub calls: Vec<MCall>,
    pub chans: Vec<MChan>,
    pub lis: Vec<MLis>,
    /// every cookie ever issued
    pub used: Vec<Uuid>,
    pub obj_cookies: Vec<ObjectCookie>,
    pub svc_cookies: Vec<ServiceCookie>,
    pub chan_cookies: Vec<ChannelCookie>,
    pub lis_cookies: Vec<BusListenerCookie>,
    /// expected and observed messages of the current step
    want: Vec<(usize, Message)>,
    pub got: Vec<Vec<Message>>,
    taken: Vec<Vec<bool>>,
    serial: u32,
    /// connection whose answers are not prescribed in this step
    free: Option<usize>,
    /// identifiers in requests are fully symbolic instead of one of the
    /// issued ones or a made-up one
    pub wild: bool,
    /// whether this step's messages are compared at all
    pub loud: bool,
}

/// any 128-bit identifier
pub fn any_uuid(name: &str) -> Uuid {
    Uuid::from_u128(sym::u128(name))
}

pub fn val(b: u8) -> SerializedValue {
    SerializedValue::serialize(b).unwrap()
}

pub fn obj_uuid(i: usize) -> ObjectUuid {
    ObjectUuid(Uuid::from_u128(0x1000 + i as u128))
}
pub fn svc_uuid(i: usize) -> ServiceUuid {
    ServiceUuid(Uuid::from_u128(0x2000 + i as u128))
}
/// never issued by the broker
pub fn bogus() -> Uuid {
    Uuid::from_u128(0x3000)
}

fn fits(f: &BusListenerFilter, e: &BusEvent) -> bool {
    match (f, e) {
        (BusListenerFilter::Object(u), BusEvent::ObjectCreated(o) | BusEvent::ObjectDestroyed(o)) => match u {
            None => true,
            Some(u) => *u == o.uuid,
        },
        (BusListenerFilter::Service(f), BusEvent::ServiceCreated(s) | BusEvent::ServiceDestroyed(s)) => {
            (match f.object {
                None => true,
                Some(u) => u == s.object_id.uuid,
            }) && (match f.service {
                None => true,
                Some(u) => u == s.uuid,
            })
        }
        _ => false,
    }
}

impl World {
    pub fn new(prop: P, versions: &[u32]) -> Self {
        let mut net = Net::new();
        for v in versions {
            net.connect(*v);
        }
        World {
            net,
            prop,
            alive: vec![true; versions.len()],
            version: versions.to_vec(),
            objs: vec![],
            svcs: vec![],
            calls: vec![],
            chans: vec![],
            lis: vec![],
            used: vec![],
            obj_cookies: vec![],
            svc_cookies: vec![],
            chan_cookies: vec![],
            lis_cookies: vec![],
            want: vec![],
            got: versions.iter().map(|_| vec![]).collect(),
            taken: versions.iter().map(|_| vec![]).collect(),
            serial: 100,
            free: None,
            wild: false,
            loud: true,
        }
    }

    pub fn serial(&mut self) -> u32 {
        self.serial += 1;
        self.serial
    }

    fn fail(&self, c: bool, msg: &str) {
        sym::check(c, msg);
        if !c {
            sym::stop()
        }
    }

    fn relevant(&self, c: usize, m: &Message) -> bool {
        let _ = c;
        use MessageKind::*;
        let k = m.kind();
        match self.prop {
            P::C02 => matches!(k, CallFunction | CallFunction2 | CallFunctionReply | AbortFunctionCall),
            P::C03 => matches!(
                k,
                CreateObjectReply
                    | DestroyObjectReply
                    | CreateServiceReply
                    | DestroyServiceReply
                    | QueryServiceVersionReply
                    | QueryServiceInfoReply
                    | SubscribeEventReply
                    | SubscribeServiceReply
                    | CallFunctionReply
            ),
            P::C04 => matches!(
                k,
                SubscribeEvent | UnsubscribeEvent | SubscribeAllEvents | UnsubscribeAllEvents | EmitEvent | ServiceDestroyed
            ),
            P::C05 => matches!(
                k,
                CreateChannelReply | CloseChannelEndReply | ChannelEndClosed | ClaimChannelEndReply | ChannelEndClaimed | ItemReceived
            ),
            P::C09 => matches!(
                k,
                CallFunctionReply | ServiceDestroyed | UnsubscribeEvent | UnsubscribeAllEvents | ChannelEndClosed | EmitBusEvent | AbortFunctionCall
            ),
            P::C10 => matches!(
                k,
                CreateBusListenerReply
                    | DestroyBusListenerReply
                    | StartBusListenerReply
                    | StopBusListenerReply
                    | EmitBusEvent
                    | BusListenerCurrentFinished
            ),
            P::C11 => !matches!(k, QueryIntrospection | QueryIntrospectionReply | AddChannelCapacity),
            P::C12 => !matches!(k, QueryIntrospection | QueryIntrospectionReply | AddChannelCapacity),
        }
    }

    // ------------------------------------------------------------ one step

    /// sends `m` from `c`, lets everything come to rest and compares
    pub fn step(&mut self, c: usize, m: impl Into<Message>) -> Fate {
        let m = m.into();
        self.net.send(c, m.clone());
        self.net.settle();
        self.collect();
        let f = self.apply_closing(c, &m);
        self.compare();
        f
    }

    /// several messages of several connections reach the broker's queue, in
    /// this order, before it handles the first
    pub fn burst(&mut self, ms: Vec<(usize, Message)>) {
        for (c, m) in &ms {
            self.net.send(*c, m.clone());
            self.net.pump(*c);
        }
        self.net.settle();
        self.collect();
        for (c, m) in &ms {
            self.apply_closing(*c, m);
        }
        self.compare();
    }

    pub fn collect(&mut self) {
        for c in 0..self.got.len() {
            let v = self.net.take(c);
            if self.prop == P::C12 {
                for m in &v {
                    self.fail(crate::compat::since(m) <= self.version[c], "a message kind newer than the connection's version");
                }
            }
            self.taken[c] = vec![false; v.len()];
            self.got[c] = v;
        }
        self.want.clear();
    }

    fn apply_closing(&mut self, c: usize, m: &Message) -> Fate {
        if !self.alive[c] {
            return Fate::Stays;
        }
        let closed = self.net.conns[c].closed();
        let mut f = self.apply(c, m);
        if matches!(m, Message::Shutdown(_)) {
            return f;
        }
        if f == Fate::May {
            // it may answer whatever it likes
            self.free = Some(c);
        }
        if f == Fate::Stays && closed {
            // (a burst may contain an offence further back; those are not generated)
            self.fail(self.prop == P::C12, "connection closed although it kept to the protocol");
            f = Fate::May;
        }
        if f == Fate::Must {
            self.fail(closed || self.prop != P::C12, "connection stays open after a message its version does not have");
        }
        if closed {
            self.want.retain(|(x, _)| *x != c);
            self.remove_conn(c);
        }
        f
    }

    pub fn quiet(&mut self) {
        self.net.settle();
        self.collect();
        self.compare();
    }

    pub fn expect(&mut self, c: usize, m: impl Into<Message>) {
        if self.alive[c] {
            self.want.push((c, m.into()));
        }
    }

    /// the observed messages of every connection are the expected ones
    pub fn compare(&mut self) {
        self.compare_free();
        self.free = None;
    }
    fn compare_free(&mut self) {
        let want = std::mem::take(&mut self.want);
        for c in 0..self.got.len() {
            if !self.alive[c] {
                continue;
            }
            let got = std::mem::take(&mut self.got[c]);
            if self.free == Some(c) || !self.loud {
                continue;
            }
            self.credit(c, &got);
            let mut w: Vec<&Message> = want.iter().filter(|(x, m)| *x == c && self.relevant(c, m)).map(|(_, m)| m).collect();
            let mut destroyed: Vec<ObjectId> = vec![];
            let mut finished = false;
            for g in &got {
                if !self.relevant(c, g) {
                    continue;
                }
                match w.iter().position(|m| same(m, g)) {
                    Some(i) => {
                        // items of one channel keep their order
                        if let (Message::ItemReceived(a), P::C05) = (g, self.prop) {
                            let first = w.iter().position(|m| matches!(m, Message::ItemReceived(b) if b.cookie == a.cookie));
                            self.fail(first == Some(i), "items delivered out of order");
                        }
                        w.remove(i);
                    }
                    None => self.unexpected(g),
                }
                // a service's events lie inside its object's lifetime; nothing
                // about current entities follows the end marker
                match g {
                    Message::EmitBusEvent(e) => match e.event {
                        BusEvent::ObjectDestroyed(o) => destroyed.push(o),
                        BusEvent::ServiceDestroyed(s) | BusEvent::ServiceCreated(s) if e.cookie.is_none() => {
                            self.fail(!destroyed.contains(&s.object_id), "service event after its object's destruction")
                        }
                        _ if e.cookie.is_some() => self.fail(!finished, "current event after the end marker"),
                        _ => {}
                    },
                    Message::BusListenerCurrentFinished(_) => finished = true,
                    _ => {}
                }
            }
            if let Some(m) = w.first() {
                self.missing(m);
            }
        }
    }

    fn unexpected(&self, m: &Message) {
        sym::check(false, what(m, true));
        sym::stop()
    }
    fn missing(&self, m: &Message) {
        sym::check(false, what(m, false));
        sym::stop()
    }

    /// channel credit announced to senders
    fn credit(&mut self, c: usize, got: &[Message]) {
        for g in got {
            if let Message::AddChannelCapacity(a) = g {
                let Some(i) = self.chans.iter().position(|h| h.cookie == a.cookie && h.s == End::Owned(c)) else {
                    if self.prop == P::C05 || self.prop == P::C11 {
                        self.fail(false, "credit announced to someone who is not the sender");
                    }
                    continue;
                };
                self.chans[i].announced += a.capacity as u64;
            }
        }
        if self.prop == P::C05 {
            for h in &self.chans {
                if let (End::Owned(s), End::Owned(_)) = (h.s, h.r) {
                    if s == c {
                        self.fail(h.announced <= h.granted, "more credit announced than granted");
                        self.fail(h.announced > h.sent || h.granted == h.sent, "sender starves although the receiver granted credit");
                    }
                }
            }
        }
    }

    /// first observed message of `c` satisfying `f` that was not used yet
    fn bind<T>(&mut self, c: usize, mut f: impl FnMut(&Message) -> Option<T>) -> Option<T> {
        if !self.alive[c] {
            return None;
        }
        for (i, m) in self.got[c].iter().enumerate() {
            if !self.taken[c][i] {
                if let Some(v) = f(m) {
                    self.taken[c][i] = true;
                    return Some(v);
                }
            }
        }
        None
    }

    fn fresh(&mut self, u: Uuid) -> bool {
        let f = !self.used.contains(&u) && u != bogus();
        self.used.push(u);
        f
    }

    /// the object that creation should have yielded did not appear
    fn absent<T>(&self, relevant: bool, what: &str) -> T {
        self.fail(!relevant, what);
        sym::stop()
    }

    // ------------------------------------------------------------ shorthands

    pub fn object(&mut self, c: usize, i: usize) -> ObjectCookie {
        let serial = self.serial();
        self.step(c, CreateObject { serial, uuid: obj_uuid(i) });
        *self.obj_cookies.last().unwrap()
    }
    pub fn service(&mut self, c: usize, o: ObjectCookie, i: usize) -> ServiceCookie {
        let serial = self.serial();
        if self.version[c] < 17 {
            self.step(c, CreateService { serial, object_cookie: o, uuid: svc_uuid(i), version: 1 });
        } else {
            let info = ServiceInfo::new(1).set_subscribe_all(true);
            self.step(c, CreateService2 { serial, object_cookie: o, uuid: svc_uuid(i), value: SerializedValue::serialize(info).unwrap() });
        }
        *self.svc_cookies.last().unwrap()
    }
    pub fn channel(&mut self, c: usize, end: ChannelEndWithCapacity) -> ChannelCookie {
        let serial = self.serial();
        self.step(c, CreateChannel { serial, end });
        *self.chan_cookies.last().unwrap()
    }
    pub fn listener(&mut self, c: usize) -> BusListenerCookie {
        let serial = self.serial();
        self.step(c, CreateBusListener { serial });
        *self.lis_cookies.last().unwrap()
    }

    /// ends a connection: 0 shutdown message, 1 transport error, 2 forced
    /// through the broker's handle, 3 its task is dropped
    pub fn disconnect(&mut self, c: usize, how: usize) {
        match how {
            0 => self.net.send(c, Shutdown),
            1 => self.net.fail(c),
            2 => self.net.force(c),
            _ => self.net.drop_noticed(c),
        }
        self.net.settle();
        self.collect();
        if how == 2 {
            let told = self.got[c].iter().filter(|m| matches!(m, Message::Shutdown(_))).count();
            self.fail(told == 1 || self.prop != P::C09, "forced connection is not told to shut down");
            if told == 1 {
                self.net.send(c, Shutdown);
                self.net.settle();
            }
        }
        self.fail(self.net.conns[c].closed() || self.prop != P::C09, "connection does not end");
        self.remove_conn(c);
        self.compare();
    }

    /// a further connection
    pub fn join(&mut self, version: u32) -> usize {
        let c = self.net.connect(version);
        self.alive.push(true);
        self.version.push(version);
        self.got.push(vec![]);
        self.taken.push(vec![]);
        c
    }

    /// counters and internal state against the model
    pub fn audit(&mut self) {
        let Some(st) = self.net.stats() else {
            sym::check(false, "broker does not answer a statistics request");
            sym::stop()
        };
        let live = self.alive.iter().filter(|a| **a).count();
        let (o, s, h, l) = (self.objs.len(), self.svcs.len(), self.chans.len(), self.lis.len());
        self.fail(st.num_connections() == live, "connection counter is wrong");
        self.fail(st.num_objects() == o, "object counter is wrong");
        self.fail(st.num_services() == s, "service counter is wrong");
        self.fail(st.num_channels() == h, "channel counter is wrong");
        self.fail(st.num_bus_listeners() == l, "bus listener counter is wrong");
        let Some(n) = self.net.snapshot() else {
            sym::check(false, "broker does not answer a snapshot request");
            sym::stop()
        };
        if let Some(w) = n.inconsistent {
            sym::check(false, w);
            sym::stop()
        }
        self.fail(n.conns == live, "connections: residual state");
        self.fail(n.objs == o && n.obj_uuids == o, "objects: residual state");
        self.fail(n.svcs == s && n.svc_uuids == s, "services: residual state");
        self.fail(n.channels == h, "channels: residual state");
        self.fail(n.bus_listeners == l, "bus listeners: residual state");
        let pending = self.calls.iter().filter(|k| !k.aborted).count();
        self.fail(n.function_calls >= pending && n.function_calls <= self.calls.len(), "calls: residual state");
        let subs: usize = self.svcs.iter().map(|s| s.ev.len() + s.all.len() + s.subs.len()).sum();
        self.fail(n.svc_refs == n.function_calls + subs, "services hold residual calls or subscriptions");
        let ends: usize = self.chans.iter().map(|h| matches!(h.s, End::Owned(_)) as usize + matches!(h.r, End::Owned(_)) as usize).sum();
        self.fail(n.conn_refs == o + subs + ends + l + pending, "connections hold residual state");
    }

    /// forgets the model's idea of what other connections still have in
    /// common with those that are gone
    pub fn settle_capacity(&mut self) {
        self.calls.retain(|k| self.alive[k.caller] && self.alive[k.callee]);
    }

    /// nothing is left
    pub fn audit_empty(&mut self) {
        self.objs.clear();
        self.svcs.clear();
        self.calls.clear();
        self.chans.clear();
        self.lis.clear();
        self.audit();
    }

    /// a choice that the checks may cut down to what is not symmetric
    pub fn pick<T: Copy>(&self, v: &[T], name: &str) -> T {
        v[sym::choice(v.len(), name)]
    }
    /// an object's / a service's uuid
    pub fn obj_id(&self, n: usize) -> ObjectUuid {
        if self.wild {
            return ObjectUuid(any_uuid("object uuid"));
        }
        obj_uuid(sym::choice(n, "uuid"))
    }
    pub fn svc_id(&self, n: usize) -> ServiceUuid {
        if self.wild {
            return ServiceUuid(any_uuid("service uuid"));
        }
        svc_uuid(sym::choice(n, "uuid"))
    }
    pub fn any_svc(&self) -> ServiceCookie {
        if self.wild {
            return ServiceCookie(any_uuid("cookie"));
        }
        let n = self.svc_cookies.len();
        match sym::choice(n + 1, "service") {
            i if i < n => self.svc_cookies[i],
            _ => ServiceCookie(bogus()),
        }
    }
    pub fn any_obj(&self) -> ObjectCookie {
        if self.wild {
            return ObjectCookie(any_uuid("cookie"));
        }
        let n = self.obj_cookies.len();
        match sym::choice(n + 1, "object") {
            i if i < n => self.obj_cookies[i],
            _ => ObjectCookie(bogus()),
        }
    }
    pub fn any_chan(&self) -> ChannelCookie {
        if self.wild {
            return ChannelCookie(any_uuid("cookie"));
        }
        let n = self.chan_cookies.len();
        match sym::choice(n + 1, "channel") {
            i if i < n => self.chan_cookies[i],
            _ => ChannelCookie(bogus()),
        }
    }
    pub fn any_lis(&self) -> BusListenerCookie {
        if self.wild {
            return BusListenerCookie(any_uuid("cookie"));
        }
        let n = self.lis_cookies.len();
        match sym::choice(n + 1, "listener") {
            i if i < n => self.lis_cookies[i],
            _ => BusListenerCookie(bogus()),
        }
    }
    /// a connection that is still up
    pub fn up(&self, of: &[usize]) -> usize {
        let v: Vec<usize> = of.iter().copied().filter(|c| self.alive[*c]).collect();
        if v.is_empty() {
            sym::stop()
        }
        v[sym::choice(v.len(), "conn")]
    }

    // ------------------------------------------------------------ the model

    pub fn svc(&self, k: ServiceCookie) -> Option<usize> {
        self.svcs.iter().position(|s| s.cookie == k)
    }

    fn bus_event(&mut self, e: BusEvent) {
        for c in 0..self.alive.len() {
            let hit = self.lis.iter().any(|l| {
                l.owner == c && matches!(l.scope, Some(BusListenerScope::New | BusListenerScope::All)) && l.filters.iter().any(|f| fits(f, &e))
            });
            if hit {
                self.expect(c, EmitBusEvent { cookie: None, event: e });
            }
        }
    }

    fn drop_service(&mut self, i: usize) {
        let s = self.svcs.remove(i);
        self.bus_event(BusEvent::ServiceDestroyed(ServiceId::new(s.obj, s.uuid, s.cookie)));
        let mut j = 0;
        while j < self.calls.len() {
            if self.calls[j].svc == s.cookie {
                let k = self.calls.remove(j);
                if !k.aborted {
                    self.expect(k.caller, CallFunctionReply { serial: k.serial, result: CallFunctionResult::InvalidService });
                }
            } else {
                j += 1;
            }
        }
        for c in 0..self.alive.len() {
            if s.subs.contains(&c) || s.ev.iter().any(|(_, x)| *x == c) {
                self.expect(c, ServiceDestroyed { service_cookie: s.cookie });
            }
        }
    }

    fn drop_object(&mut self, i: usize) {
        let o = self.objs.remove(i);
        while let Some(j) = self.svcs.iter().position(|s| s.obj.cookie == o.cookie) {
            self.drop_service(j);
        }
        self.bus_event(BusEvent::ObjectDestroyed(ObjectId::new(o.uuid, o.cookie)));
    }

    fn unsub_event(&mut self, i: usize, c: usize, event: u32) {
        let s = &mut self.svcs[i];
        let Some(j) = s.ev.iter().position(|(e, x)| *x == c && *e == event) else {
            return;
        };
        s.ev.remove(j);
        if !s.ev.iter().any(|(e, _)| *e == event) {
            let (owner, service_cookie) = (s.owner, s.cookie);
            self.expect(owner, UnsubscribeEvent { service_cookie, event });
        }
    }

    fn unsub_all(&mut self, i: usize, c: usize) {
        let s = &mut self.svcs[i];
        let Some(j) = s.all.iter().position(|x| *x == c) else {
            return;
        };
        s.all.remove(j);
        if s.all.is_empty() {
            let (owner, service_cookie) = (s.owner, s.cookie);
            self.expect(owner, UnsubscribeAllEvents { serial: None, service_cookie });
        }
    }

    fn abort(&mut self, j: usize) {
        let k = &mut self.calls[j];
        if k.aborted {
            return;
        }
        k.aborted = true;
        let (callee, caller, cs, s) = (k.callee, k.caller, k.callee_serial, k.serial);
        if self.version[callee] >= 16 {
            self.expect(callee, AbortFunctionCall { serial: cs });
        }
        self.expect(caller, CallFunctionReply { serial: s, result: CallFunctionResult::Aborted });
    }

    /// closes an end; the owner of the other end is told
    fn close_end(&mut self, i: usize, end: ChannelEnd) {
        let h = &mut self.chans[i];
        let cookie = h.cookie;
        let (this, other) = match end {
            ChannelEnd::Sender => (&mut h.s, h.r),
            ChannelEnd::Receiver => (&mut h.r, h.s),
        };
        *this = End::Closed;
        match other {
            End::Owned(c) if self.alive[c] => self.expect(c, ChannelEndClosed { cookie, end }),
            _ => {
                self.chans.remove(i);
            }
        }
    }

    /// everything a connection owned or subscribed to goes away
    pub fn remove_conn(&mut self, c: usize) {
        if !self.alive[c] {
            return;
        }
        self.alive[c] = false;
        self.lis.retain(|l| l.owner != c);
        while let Some(i) = self.objs.iter().position(|o| o.owner == c) {
            self.drop_object(i);
        }
        for i in 0..self.svcs.len() {
            while let Some((e, _)) = self.svcs[i].ev.iter().find(|(_, x)| *x == c).copied() {
                self.unsub_event(i, c, e);
            }
            self.unsub_all(i, c);
            self.svcs[i].subs.retain(|x| *x != c);
        }
        let mut cookies: Vec<ChannelCookie> = vec![];
        cookies.extend(self.chans.iter().map(|h| h.cookie));
        for k in cookies {
            for end in [ChannelEnd::Sender, ChannelEnd::Receiver] {
                if let Some(i) = self.chans.iter().position(|h| h.cookie == k) {
                    let e = if end == ChannelEnd::Sender { self.chans[i].s } else { self.chans[i].r };
                    if e == End::Owned(c) {
                        self.close_end(i, end);
                    }
                }
            }
        }
        for j in 0..self.calls.len() {
            if self.calls[j].caller == c {
                self.abort(j);
            }
        }
    }

    fn create_service(&mut self, c: usize, serial: u32, object: ObjectCookie, uuid: ServiceUuid, info: Option<ServiceInfo>) -> Fate {
        let r = |result| CreateServiceReply { serial, result };
        let Some(o) = self.objs.iter().find(|o| o.cookie == object) else {
            self.expect(c, r(CreateServiceResult::InvalidObject));
            return Fate::Stays;
        };
        let (owner, id) = (o.owner, ObjectId::new(o.uuid, o.cookie));
        let dup = self.svcs.iter().any(|s| s.obj == id && s.uuid == uuid);
        if dup && owner != c {
            // either answer tells the truth
            let res = self.bind(c, |m| match m {
                Message::CreateServiceReply(m)
                    if m.serial == serial && matches!(m.result, CreateServiceResult::DuplicateService | CreateServiceResult::ForeignObject) =>
                {
                    Some(m.result)
                }
                _ => None,
            });
            self.expect(c, r(res.unwrap_or(CreateServiceResult::ForeignObject)));
            return Fate::Stays;
        }
        if dup {
            self.expect(c, r(CreateServiceResult::DuplicateService));
            return Fate::Stays;
        }
        if owner != c {
            self.expect(c, r(CreateServiceResult::ForeignObject));
            return Fate::Stays;
        }
        let Some(mut info) = info else {
            return Fate::May;
        };
        if self.version[c] < 18 {
            info = info.set_subscribe_all(false);
        }
        let k = self.bind(c, |m| match m {
            Message::CreateServiceReply(CreateServiceReply { serial: s, result: CreateServiceResult::Ok(k) }) if *s == serial => Some(*k),
            _ => None,
        });
        let rel = matches!(self.prop, P::C03 | P::C11);
        let k = match k {
            Some(k) => k,
            None => return self.absent(rel, "service not created"),
        };
        let f = self.fresh(k.0);
        self.fail(f || !rel, "service cookie was used before");
        self.svc_cookies.push(k);
        self.expect(c, r(CreateServiceResult::Ok(k)));
        self.svcs.push(MSvc { obj: id, uuid, cookie: k, owner: c, info, ev: vec![], all: vec![], subs: vec![] });
        self.bus_event(BusEvent::ServiceCreated(ServiceId::new(id, uuid, k)));
        Fate::Stays
    }

    fn call(&mut self, c: usize, m: CallFunction2) -> Fate {
        let Some(i) = self.svc(m.service_cookie) else {
            self.expect(c, CallFunctionReply { serial: m.serial, result: CallFunctionResult::InvalidService });
            return Fate::Stays;
        };
        if self.calls.iter().any(|k| k.caller == c && !k.aborted && k.serial == m.serial) {
            return Fate::May;
        }
        let callee = self.svcs[i].owner;
        let new = self.version[callee] >= 19;
        let k = m.service_cookie;
        let s = self.bind(callee, |x| match x {
            Message::CallFunction(x) if x.service_cookie == k => Some(x.serial),
            Message::CallFunction2(x) if x.service_cookie == k => Some(x.serial),
            _ => None,
        });
        let rel = matches!(self.prop, P::C02 | P::C11 | P::C12);
        let s = match s {
            Some(s) => s,
            None if rel => return self.absent(true, "call does not reach the service's owner"),
            None => u32::MAX - self.calls.len() as u32,
        };
        let f = !self.calls.iter().any(|k| k.callee_serial == s && k.callee == callee);
        self.fail(f || !rel, "two pending calls carry one serial");
        if new {
            self.expect(callee, CallFunction2 { serial: s, ..m.clone() });
        } else {
            self.expect(callee, CallFunction { serial: s, service_cookie: k, function: m.function, value: m.value.clone() });
        }
        self.calls.push(MCall { caller: c, serial: m.serial, callee, svc: k, callee_serial: s, aborted: false });
        Fate::Stays
    }

    /// effect of one message on the bus
    pub fn apply(&mut self, c: usize, m: &Message) -> Fate {
        use Fate::*;
        if !self.alive[c] {
            return Stays;
        }
        let v = self.version[c];
        match m.clone() {
            Message::Shutdown(_) => {
                self.remove_conn(c);
                Stays
            }
            Message::CreateObject(m) => {
                if self.objs.iter().any(|o| o.uuid == m.uuid) {
                    self.expect(c, CreateObjectReply { serial: m.serial, result: CreateObjectResult::DuplicateObject });
                    return Stays;
                }
                let k = self.bind(c, |x| match x {
                    Message::CreateObjectReply(CreateObjectReply { serial: s, result: CreateObjectResult::Ok(k) }) if *s == m.serial => Some(*k),
                    _ => None,
                });
                let rel = matches!(self.prop, P::C03 | P::C11);
                let k = match k {
                    Some(k) => k,
                    None => return self.absent(rel, "object not created"),
                };
                let f = self.fresh(k.0);
                self.fail(f || !rel, "object cookie was used before");
                self.obj_cookies.push(k);
                self.expect(c, CreateObjectReply { serial: m.serial, result: CreateObjectResult::Ok(k) });
                self.objs.push(MObj { uuid: m.uuid, cookie: k, owner: c });
                self.bus_event(BusEvent::ObjectCreated(ObjectId::new(m.uuid, k)));
                Stays
            }
            Message::DestroyObject(m) => {
                let i = self.objs.iter().position(|o| o.cookie == m.cookie);
                let result = match i {
                    None => DestroyObjectResult::InvalidObject,
                    Some(i) if self.objs[i].owner != c => DestroyObjectResult::ForeignObject,
                    Some(_) => DestroyObjectResult::Ok,
                };
                self.expect(c, DestroyObjectReply { serial: m.serial, result });
                if result == DestroyObjectResult::Ok {
                    self.drop_object(i.unwrap());
                }
                Stays
            }
            Message::CreateService(m) => self.create_service(c, m.serial, m.object_cookie, m.uuid, Some(ServiceInfo::new(m.version))),
            Message::CreateService2(m) => {
                if v < 17 {
                    return Must;
                }
                self.create_service(c, m.serial, m.object_cookie, m.uuid, m.value.deserialize().ok())
            }
            Message::DestroyService(m) => {
                let i = self.svc(m.cookie);
                let result = match i {
                    None => DestroyServiceResult::InvalidService,
                    Some(i) if self.svcs[i].owner != c => DestroyServiceResult::ForeignObject,
                    Some(_) => DestroyServiceResult::Ok,
                };
                self.expect(c, DestroyServiceReply { serial: m.serial, result });
                if result == DestroyServiceResult::Ok {
                    self.drop_service(i.unwrap());
                }
                Stays
            }
            Message::CallFunction(m) => self.call(
                c,
                CallFunction2 { serial: m.serial, service_cookie: m.service_cookie, function: m.function, version: None, value: m.value },
            ),
            Message::CallFunction2(m) => {
                if v < 19 {
                    return Must;
                }
                self.call(c, m)
            }
            Message::CallFunctionReply(m) => {
                let Some(j) = self.calls.iter().position(|k| k.callee == c && k.callee_serial == m.serial) else {
                    return May;
                };
                let k = self.calls.remove(j);
                if !k.aborted {
                    self.expect(k.caller, CallFunctionReply { serial: k.serial, result: m.result });
                }
                Stays
            }
            Message::AbortFunctionCall(m) => {
                if v < 16 {
                    return Must;
                }
                let Some(j) = self.calls.iter().position(|k| k.caller == c && k.serial == m.serial && !k.aborted) else {
                    return Stays;
                };
                self.abort(j);
                Stays
            }
            Message::SubscribeEvent(m) => {
                let Some(serial) = m.serial else { return May };
                let Some(i) = self.svc(m.service_cookie) else {
                    self.expect(c, SubscribeEventReply { serial, result: SubscribeEventResult::InvalidService });
                    return Stays;
                };
                self.expect(c, SubscribeEventReply { serial, result: SubscribeEventResult::Ok });
                let s = &mut self.svcs[i];
                let first = !s.ev.iter().any(|(e, _)| *e == m.event);
                if !s.ev.iter().any(|(e, x)| *x == c && *e == m.event) {
                    s.ev.push((m.event, c));
                }
                let o = s.owner;
                if first {
                    self.expect(o, SubscribeEvent { serial: None, service_cookie: m.service_cookie, event: m.event });
                }
                Stays
            }
            Message::UnsubscribeEvent(m) => {
                if let Some(i) = self.svc(m.service_cookie) {
                    self.unsub_event(i, c, m.event);
                }
                Stays
            }
            Message::EmitEvent(m) => {
                if let Some(i) = self.svc(m.service_cookie) {
                    if self.svcs[i].owner == c {
                        for x in 0..self.alive.len() {
                            let s = &self.svcs[i];
                            if s.all.contains(&x) || s.ev.iter().any(|(e, y)| *y == x && *e == m.event) {
                                self.expect(x, m.clone());
                            }
                        }
                        return Stays;
                    }
                    return May;
                }
                Stays
            }
            Message::QueryServiceVersion(m) => {
                let result = match self.svc(m.cookie) {
                    Some(i) => QueryServiceVersionResult::Ok(self.svcs[i].info.version()),
                    None => QueryServiceVersionResult::InvalidService,
                };
                self.expect(c, QueryServiceVersionReply { serial: m.serial, result });
                Stays
            }
            Message::QueryServiceInfo(m) => {
                if v < 17 {
                    return Must;
                }
                let result = match self.svc(m.cookie) {
                    Some(i) => QueryServiceInfoResult::Ok(SerializedValue::serialize(self.svcs[i].info).unwrap()),
                    None => QueryServiceInfoResult::InvalidService,
                };
                self.expect(c, QueryServiceInfoReply { serial: m.serial, result });
                Stays
            }
            Message::SubscribeService(m) => {
                if v < 18 {
                    return Must;
                }
                let i = self.svc(m.service_cookie);
                let result = if i.is_some() { SubscribeServiceResult::Ok } else { SubscribeServiceResult::InvalidService };
                self.expect(c, SubscribeServiceReply { serial: m.serial, result });
                if let Some(i) = i {
                    if !self.svcs[i].subs.contains(&c) {
                        self.svcs[i].subs.push(c);
                    }
                }
                Stays
            }
            Message::UnsubscribeService(m) => {
                if v < 18 {
                    return Must;
                }
                if let Some(i) = self.svc(m.service_cookie) {
                    self.svcs[i].subs.retain(|x| *x != c);
                }
                Stays
            }
            Message::SubscribeAllEvents(m) => {
                if v < 18 {
                    return Must;
                }
                let Some(serial) = m.serial else { return May };
                let i = self.svc(m.service_cookie);
                let result = match i {
                    None => SubscribeAllEventsResult::InvalidService,
                    Some(i) if self.svcs[i].info.subscribe_all() != Some(true) || self.version[self.svcs[i].owner] < 18 => {
                        SubscribeAllEventsResult::NotSupported
                    }
                    Some(_) => SubscribeAllEventsResult::Ok,
                };
                self.expect(c, SubscribeAllEventsReply { serial, result });
                if result == SubscribeAllEventsResult::Ok {
                    let s = &mut self.svcs[i.unwrap()];
                    let first = s.all.is_empty();
                    if !s.all.contains(&c) {
                        s.all.push(c);
                    }
                    let o = s.owner;
                    if first {
                        self.expect(o, SubscribeAllEvents { serial: None, service_cookie: m.service_cookie });
                    }
                }
                Stays
            }
            Message::UnsubscribeAllEvents(m) => {
                if v < 18 {
                    return Must;
                }
                let i = self.svc(m.service_cookie);
                let result = match i {
                    None => UnsubscribeAllEventsResult::InvalidService,
                    Some(i) if self.version[self.svcs[i].owner] < 18 => UnsubscribeAllEventsResult::NotSupported,
                    Some(_) => UnsubscribeAllEventsResult::Ok,
                };
                if let Some(serial) = m.serial {
                    self.expect(c, UnsubscribeAllEventsReply { serial, result });
                }
                if result == UnsubscribeAllEventsResult::Ok {
                    self.unsub_all(i.unwrap(), c);
                }
                Stays
            }
            Message::CreateChannel(m) => {
                let k = self.bind(c, |x| match x {
                    Message::CreateChannelReply(x) if x.serial == m.serial => Some(x.cookie),
                    _ => None,
                });
                let rel = matches!(self.prop, P::C05 | P::C11);
                let cookie = match k {
                    Some(k) => k,
                    None => return self.absent(rel, "channel not created"),
                };
                let f = self.fresh(cookie.0);
                self.fail(f || !rel, "channel cookie was used before");
                self.chan_cookies.push(cookie);
                self.expect(c, CreateChannelReply { serial: m.serial, cookie });
                let (s, r, cap) = match m.end {
                    ChannelEndWithCapacity::Sender => (End::Owned(c), End::Free, 0),
                    ChannelEndWithCapacity::Receiver(n) => (End::Free, End::Owned(c), n),
                };
                self.chans.push(MChan { cookie, s, r, granted: cap as u64, announced: 0, sent: 0, open: cap });
                Stays
            }
            Message::CloseChannelEnd(m) => {
                let i = self.chans.iter().position(|h| h.cookie == m.cookie);
                let e = i.map(|i| if m.end == ChannelEnd::Sender { self.chans[i].s } else { self.chans[i].r });
                let result = match e {
                    None | Some(End::Closed) => CloseChannelEndResult::InvalidChannel,
                    Some(End::Owned(x)) if x != c => CloseChannelEndResult::ForeignChannel,
                    _ => CloseChannelEndResult::Ok,
                };
                self.expect(c, CloseChannelEndReply { serial: m.serial, result });
                if result == CloseChannelEndResult::Ok {
                    self.close_end(i.unwrap(), m.end);
                }
                Stays
            }
            Message::ClaimChannelEnd(m) => {
                let i = self.chans.iter().position(|h| h.cookie == m.cookie);
                let e = i.map(|i| if m.end == ChannelEndWithCapacity::Sender { self.chans[i].s } else { self.chans[i].r });
                let result = match e {
                    None | Some(End::Closed) => ClaimChannelEndResult::InvalidChannel,
                    Some(End::Owned(_)) => ClaimChannelEndResult::AlreadyClaimed,
                    Some(End::Free) => {
                        let h = &mut self.chans[i.unwrap()];
                        match m.end {
                            ChannelEndWithCapacity::Sender => {
                                h.s = End::Owned(c);
                                // the sender learns its credit from the reply
                                let announced = self.bind(c, |x| match x {
                                    Message::ClaimChannelEndReply(ClaimChannelEndReply { serial, result: ClaimChannelEndResult::SenderClaimed(n) })
                                        if *serial == m.serial =>
                                    {
                                        Some(*n)
                                    }
                                    _ => None,
                                });
                                let h = &mut self.chans[i.unwrap()];
                                let n = announced.unwrap_or(0);
                                h.announced = n as u64;
                                let other = h.r;
                                if let End::Owned(o) = other {
                                    self.expect(o, ChannelEndClaimed { cookie: m.cookie, end: m.end });
                                }
                                ClaimChannelEndResult::SenderClaimed(n)
                            }
                            ChannelEndWithCapacity::Receiver(n) => {
                                h.r = End::Owned(c);
                                h.granted = n as u64;
                                h.announced = n as u64;
                                h.open = n;
                                let other = h.s;
                                if let End::Owned(o) = other {
                                    self.expect(o, ChannelEndClaimed { cookie: m.cookie, end: m.end });
                                }
                                ClaimChannelEndResult::ReceiverClaimed
                            }
                        }
                    }
                };
                self.expect(c, ClaimChannelEndReply { serial: m.serial, result });
                Stays
            }
            Message::AddChannelCapacity(m) => {
                let Some(i) = self.chans.iter().position(|h| h.cookie == m.cookie && h.r == End::Owned(c)) else {
                    return Stays;
                };
                let h = &mut self.chans[i];
                match h.open.checked_add(m.capacity) {
                    Some(n) => {
                        h.open = n;
                        h.granted += m.capacity as u64;
                    }
                    None => self.close_end(i, ChannelEnd::Receiver),
                }
                Stays
            }
            Message::SendItem(m) => {
                let Some(i) = self.chans.iter().position(|h| h.cookie == m.cookie && h.s == End::Owned(c)) else {
                    return Stays;
                };
                match self.chans[i].r {
                    End::Closed => {}
                    // sending without anyone to receive: both ends close
                    End::Free => {
                        self.close_end(i, ChannelEnd::Receiver);
                        if let Some(i) = self.chans.iter().position(|h| h.cookie == m.cookie) {
                            self.close_end(i, ChannelEnd::Sender);
                        }
                    }
                    End::Owned(r) => {
                        let h = &mut self.chans[i];
                        if h.sent < h.announced {
                            h.sent += 1;
                            h.open = h.open.wrapping_sub(1);
                            self.expect(r, ItemReceived { cookie: m.cookie, value: m.value });
                        } else {
                            self.close_end(i, ChannelEnd::Sender);
                        }
                    }
                }
                Stays
            }
            Message::Sync(m) => {
                self.expect(c, SyncReply { serial: m.serial });
                Stays
            }
            Message::CreateBusListener(m) => {
                let k = self.bind(c, |x| match x {
                    Message::CreateBusListenerReply(x) if x.serial == m.serial => Some(x.cookie),
                    _ => None,
                });
                let rel = matches!(self.prop, P::C10 | P::C11);
                let cookie = match k {
                    Some(k) => k,
                    None => return self.absent(rel, "bus listener not created"),
                };
                let f = self.fresh(cookie.0);
                self.fail(f || !rel, "bus listener cookie was used before");
                self.lis_cookies.push(cookie);
                self.expect(c, CreateBusListenerReply { serial: m.serial, cookie });
                self.lis.push(MLis { cookie, owner: c, filters: vec![], scope: None });
                Stays
            }
            Message::DestroyBusListener(m) => {
                let i = self.lis.iter().position(|l| l.cookie == m.cookie && l.owner == c);
                let result = if i.is_some() { DestroyBusListenerResult::Ok } else { DestroyBusListenerResult::InvalidBusListener };
                self.expect(c, DestroyBusListenerReply { serial: m.serial, result });
                if let Some(i) = i {
                    self.lis.remove(i);
                }
                Stays
            }
            Message::AddBusListenerFilter(m) => {
                if let Some(l) = self.lis.iter_mut().find(|l| l.cookie == m.cookie && l.owner == c) {
                    l.filters.push(m.filter);
                }
                Stays
            }
            Message::RemoveBusListenerFilter(m) => {
                if let Some(l) = self.lis.iter_mut().find(|l| l.cookie == m.cookie && l.owner == c) {
                    l.filters.retain(|f| *f != m.filter);
                }
                Stays
            }
            Message::ClearBusListenerFilters(m) => {
                if let Some(l) = self.lis.iter_mut().find(|l| l.cookie == m.cookie && l.owner == c) {
                    l.filters.clear();
                }
                Stays
            }
            Message::StartBusListener(m) => {
                let i = self.lis.iter().position(|l| l.cookie == m.cookie && l.owner == c);
                let result = match i {
                    None => StartBusListenerResult::InvalidBusListener,
                    Some(i) if self.lis[i].scope.is_some() => StartBusListenerResult::AlreadyStarted,
                    Some(_) => StartBusListenerResult::Ok,
                };
                self.expect(c, StartBusListenerReply { serial: m.serial, result });
                if result == StartBusListenerResult::Ok {
                    let i = i.unwrap();
                    self.lis[i].scope = Some(m.scope);
                    if m.scope != BusListenerScope::New {
                        let mut es = vec![];
                        for o in &self.objs {
                            es.push(BusEvent::ObjectCreated(ObjectId::new(o.uuid, o.cookie)));
                        }
                        for s in &self.svcs {
                            es.push(BusEvent::ServiceCreated(ServiceId::new(s.obj, s.uuid, s.cookie)));
                        }
                        for e in es {
                            if self.lis[i].filters.iter().any(|f| fits(f, &e)) {
                                self.expect(c, EmitBusEvent { cookie: Some(m.cookie), event: e });
                            }
                        }
                        self.expect(c, BusListenerCurrentFinished { cookie: m.cookie });
                    }
                }
                Stays
            }
            Message::StopBusListener(m) => {
                let i = self.lis.iter().position(|l| l.cookie == m.cookie && l.owner == c);
                let result = match i {
                    None => StopBusListenerResult::InvalidBusListener,
                    Some(i) if self.lis[i].scope.is_none() => StopBusListenerResult::NotStarted,
                    Some(_) => StopBusListenerResult::Ok,
                };
                self.expect(c, StopBusListenerReply { serial: m.serial, result });
                if let Some(i) = i {
                    self.lis[i].scope = None;
                }
                Stays
            }
            Message::RegisterIntrospection(_) | Message::QueryIntrospection(_) | Message::QueryIntrospectionReply(_) => {
                if v < 17 {
                    Must
                } else {
                    // not modelled here
                    May
                }
            }
            // only ever sent by a broker
            _ => May,
        }
    }
}

fn same(a: &Message, b: &Message) -> bool {
    if a.kind() != b.kind() {
        return false;
    }
    // a service's info counts for what it says, not for how it is written
    if let (
        Message::QueryServiceInfoReply(QueryServiceInfoReply { serial: s, result: QueryServiceInfoResult::Ok(a) }),
        Message::QueryServiceInfoReply(QueryServiceInfoReply { serial: t, result: QueryServiceInfoResult::Ok(b) }),
    ) = (a, b)
    {
        let (Ok(a), Ok(b)) = (a.deserialize::<ServiceInfo>(), b.deserialize::<ServiceInfo>()) else {
            return false;
        };
        return s == t
            && a.version() == b.version()
            && a.type_id() == b.type_id()
            && (a.subscribe_all() == Some(true)) == (b.subscribe_all() == Some(true));
    }
    a == b
}

macro_rules! names {
    ($m:expr, $u:expr, $($k:ident),* $(,)?) => {
        match $m.kind() {
            $(MessageKind::$k => if $u { concat!("unexpected or wrong ", stringify!($k)) } else { concat!("missing or wrong ", stringify!($k)) },)*
            _ => if $u { "unexpected or wrong message" } else { "missing or wrong message" },
        }
    };
}

fn what(m: &Message, u: bool) -> &'static str {
    names!(
        m, u, CreateObjectReply, DestroyObjectReply, CreateServiceReply, DestroyServiceReply, CallFunction, CallFunction2,
        CallFunctionReply, AbortFunctionCall, SubscribeEvent, SubscribeEventReply, UnsubscribeEvent, EmitEvent,
        QueryServiceVersionReply, QueryServiceInfoReply, CreateChannelReply, CloseChannelEndReply, ChannelEndClosed,
        ClaimChannelEndReply, ChannelEndClaimed, ItemReceived, SyncReply, ServiceDestroyed, CreateBusListenerReply,
        DestroyBusListenerReply, StartBusListenerReply, StopBusListenerReply, EmitBusEvent, BusListenerCurrentFinished,
        SubscribeServiceReply, SubscribeAllEvents, SubscribeAllEventsReply, UnsubscribeAllEvents, UnsubscribeAllEventsReply,
        Shutdown, ConnectReply, ConnectReply2,
    )
}
