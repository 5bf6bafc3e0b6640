//! C08: message codec, all 63 kinds.
use crate::refc::raw;
use aldrin_core::message::*;
use aldrin_core::*;
use bytes::BytesMut;
use uuid::Uuid;

pub const KINDS: u8 = 63;

/// kinds that carry a value
pub fn has_value(k: u8) -> bool {
    matches!(k, 0 | 1 | 11 | 12 | 16 | 27 | 28 | 46 | 47 | 49 | 51 | 52 | 54 | 62)
}

/// Layout of the fields behind the header (and the value): `v` 32-bit varint,
/// `u` UUID, `(a|b|…)` one discriminant byte followed by that alternative.
pub fn layout(k: u8) -> &'static [u8] {
    match k {
        0 => b"v",
        1 => b"(|v|)",
        2 => b"",
        3 => b"vu",
        4 => b"v(u|)",
        5 => b"vu",
        6 => b"v(||)",
        7 => b"vuuv",
        8 => b"v(u|||)",
        9 => b"vu",
        10 => b"v(||)",
        11 => b"vuv",
        12 => b"v(|||||)",
        13 => b"(|v)uv",
        14 => b"v(|)",
        15 => b"uv",
        16 => b"uv",
        17 => b"vu",
        18 => b"v(v|)",
        19 => b"v(|v)",
        20 => b"vu",
        21 => b"vu(|)",
        22 => b"v(||)",
        23 => b"u(|)",
        24 => b"vu(|v)",
        25 => b"v(v|||)",
        26 => b"u(|v)",
        27 => b"u",
        28 => b"u",
        29 => b"uv",
        30 => b"v",
        31 => b"v",
        32 => b"u",
        33 => b"v",
        34 => b"vu",
        35 => b"vu",
        36 => b"v(|)",
        37 => b"u(|u||u|u|uu)",
        38 => b"u(|u||u|u|uu)",
        39 => b"u",
        40 => b"vu(||)",
        41 => b"v(||)",
        42 => b"vu",
        43 => b"v(||)",
        44 => b"(|u)(uu|uu|uuuu|uuuu)",
        45 => b"u",
        46 => b"vv",
        47 => b"(v||)",
        48 => b"v",
        49 => b"",
        50 => b"vu",
        51 => b"v(|)",
        52 => b"vuu",
        53 => b"vu",
        54 => b"v(|)",
        55 => b"vu",
        56 => b"v(|)",
        57 => b"u",
        58 => b"(|v)u",
        59 => b"v(||)",
        60 => b"(|v)u",
        61 => b"v(||)",
        _ => b"vuv(|v)",
    }
}

/// Consumes one field list from `b`; None if malformed.
fn fields<'a>(mut l: &[u8], mut b: &'a [u8]) -> Option<&'a [u8]> {
    while let Some((&c, rest)) = l.split_first() {
        l = rest;
        match c {
            b'v' => {
                let x = *b.first()?;
                let n = if x > 251 { (x - 251) as usize } else { 0 };
                if b.len() < 1 + n {
                    return None;
                }
                b = &b[1 + n..];
            }
            b'u' => {
                if b.len() < 16 {
                    return None;
                }
                b = &b[16..];
            }
            _ => {
                let end = l.iter().position(|&c| c == b')').unwrap();
                let d = *b.first()?;
                b = &b[1..];
                let alts = &l[..end];
                l = &l[end + 1..];
                let mut n = 0u8;
                let mut found = false;
                for a in alts.split(|&c| c == b'|') {
                    if n == d {
                        b = fields(a, b)?;
                        found = true;
                        break;
                    }
                    n += 1;
                }
                if !found {
                    return None;
                }
            }
        }
    }
    Some(b)
}

/// Is `f` a well-formed frame?
pub fn accepts(f: &[u8]) -> bool {
    if f.len() < 5 || u32::from_le_bytes(f[..4].try_into().unwrap()) as usize != f.len() {
        return false;
    }
    let k = f[4];
    if k >= KINDS {
        return false;
    }
    let mut b = &f[5..];
    if has_value(k) {
        if b.len() < 5 {
            return false;
        }
        let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
        b = &b[4..];
        if n < 1 || n > b.len() {
            return false;
        }
        b = &b[sym::conc(n as u64) as usize..];
    }
    matches!(fields(layout(k), b), Some(r) if r.is_empty())
}

fn bytes(b: &[u8]) -> BytesMut {
    let mut m = BytesMut::with_capacity(b.len());
    m.extend_from_slice(b);
    m
}

/// the message type's own interface for kind `k`
fn typed(k: u8, b: BytesMut) -> Result<Message, MessageDeserializeError> {
    macro_rules! t {
        ($($n:literal $t:ident),* $(,)?) => {
            match k {
                $($n => $t::deserialize_message(b).map(|m| {
                    sym::check(u8::from(m.kind()) == $n, "kind() of a typed message");
                    Message::from(m)
                }),)*
                _ => unreachable!(),
            }
        };
    }
    t!(
        0 Connect, 1 ConnectReply, 2 Shutdown, 3 CreateObject, 4 CreateObjectReply,
        5 DestroyObject, 6 DestroyObjectReply, 7 CreateService, 8 CreateServiceReply,
        9 DestroyService, 10 DestroyServiceReply, 11 CallFunction, 12 CallFunctionReply,
        13 SubscribeEvent, 14 SubscribeEventReply, 15 UnsubscribeEvent, 16 EmitEvent,
        17 QueryServiceVersion, 18 QueryServiceVersionReply, 19 CreateChannel,
        20 CreateChannelReply, 21 CloseChannelEnd, 22 CloseChannelEndReply,
        23 ChannelEndClosed, 24 ClaimChannelEnd, 25 ClaimChannelEndReply,
        26 ChannelEndClaimed, 27 SendItem, 28 ItemReceived, 29 AddChannelCapacity,
        30 Sync, 31 SyncReply, 32 ServiceDestroyed, 33 CreateBusListener,
        34 CreateBusListenerReply, 35 DestroyBusListener, 36 DestroyBusListenerReply,
        37 AddBusListenerFilter, 38 RemoveBusListenerFilter, 39 ClearBusListenerFilters,
        40 StartBusListener, 41 StartBusListenerReply, 42 StopBusListener,
        43 StopBusListenerReply, 44 EmitBusEvent, 45 BusListenerCurrentFinished,
        46 Connect2, 47 ConnectReply2, 48 AbortFunctionCall, 49 RegisterIntrospection,
        50 QueryIntrospection, 51 QueryIntrospectionReply, 52 CreateService2,
        53 QueryServiceInfo, 54 QueryServiceInfoReply, 55 SubscribeService,
        56 SubscribeServiceReply, 57 UnsubscribeService, 58 SubscribeAllEvents,
        59 SubscribeAllEventsReply, 60 UnsubscribeAllEvents, 61 UnsubscribeAllEventsReply,
        62 CallFunction2,
    )
}

fn same(a: &Message, b: &Message) -> bool {
    let v = match (a.value(), b.value()) {
        (None, None) => true,
        (Some(a), Some(b)) => a[..] == b[..],
        _ => false,
    };
    v & (a == b)
}

/// Parsing agrees with the grammar; what is accepted survives re-serialization.
pub fn judge(f: &[u8]) {
    let acc = accepts(f);
    let r = Message::deserialize_message(bytes(f));
    sym::log(r.is_ok() as u64);
    sym::check(r.is_ok() == acc, "frame acceptance differs from the grammar");
    let Ok(m) = r else { return };
    sym::cover("accepted");
    sym::check(u8::from(m.kind()) == f[4], "kind of the parsed message");
    if has_value(f[4]) {
        let n = sym::conc(u32::from_le_bytes(f[5..9].try_into().unwrap()) as u64) as usize;
        if let Some(v) = m.value() {
            sym::check(v[..] == f[9..9 + n], "payload of the parsed message");
        }
    } else {
        sym::check(m.value().is_none(), "payload out of nowhere");
    }
    match typed(f[4], bytes(f)) {
        Ok(t) => sym::check(same(&t, &m), "typed parsing yields another message"),
        Err(_) => sym::check(false, "typed parsing rejects an accepted frame"),
    }
    let Ok(g) = m.clone().serialize_message() else {
        sym::check(false, "accepted message not serializable");
        return;
    };
    sym::check(
        g.len() >= 5 && u32::from_le_bytes(g[..4].try_into().unwrap()) as usize == g.len(),
        "length prefix of a serialized message",
    );
    match Message::deserialize_message(g) {
        Ok(w) => sym::check(same(&m, &w), "re-serialized message parses to another message"),
        Err(_) => sym::check(false, "re-serialized message rejected"),
    }
}

/// every frame of `lo..=hi` bytes with every content
pub fn any(lo: usize, hi: usize) {
    let n = lo + sym::choice(hi - lo + 1, "len");
    judge(&sym::vec(n, "frame"));
}

/// header fixed to be consistent, every body of every length
pub fn bodies(values: bool, hi: usize) {
    let k = sym::conc(sym::u8("kind") as u64) as u8;
    sym::assume(k < KINDS && has_value(k) == values);
    let mut f = vec![];
    let n = if values {
        let vl = 1 + sym::choice(2, "valuelen");
        f.extend([0, 0, 0, 0, k, vl as u8, 0, 0, 0]);
        vl + sym::choice(hi + 1, "len")
    } else {
        f.extend([0, 0, 0, 0, k]);
        sym::choice(hi + 1, "len")
    };
    f.extend(sym::vec(n, "body"));
    let l = f.len() as u32;
    f[..4].copy_from_slice(&l.to_le_bytes());
    judge(&f);
}

/// A frame of one kind with every field symbolic, one header field arbitrary.
pub fn headers() {
    let k = sym::choice(KINDS as usize, "of") as u8;
    let mut g = Gen { body: vec![], val: has_value(k).then(|| vec![0]), thin: true };
    g.message(k);
    let mut f = g.frame(k);
    match sym::choice(3, "mutation") {
        0 => f[..4].copy_from_slice(&sym::bytes::<4>("prefix")),
        1 => f[4] = sym::u8("kind"),
        _ => {
            if has_value(f[4]) {
                f[5..9].copy_from_slice(&sym::bytes::<4>("vlen"))
            } else {
                sym::assume(false)
            }
        }
    }
    judge(&f);
}

/// typed parsing rejects frames of any other kind
pub fn foreign() {
    let k = sym::conc(sym::u8("as") as u64) as u8;
    sym::assume(k < KINDS);
    let mut f = vec![0, 0, 0, 0, sym::u8("kind"), 1, 0, 0, 0, 0];
    let n = sym::choice(24, "len");
    f.extend(vec![0; n]);
    if !has_value(k) {
        f.drain(5..10);
    }
    let l = f.len() as u32;
    f[..4].copy_from_slice(&l.to_le_bytes());
    let acc = f[4] == k && accepts(&f);
    sym::check(typed(k, bytes(&f)).is_ok() == acc, "typed parsing of a foreign frame");
}

/// Builds a message and, independently, its expected field bytes.
pub struct Gen {
    pub body: Vec<u8>,
    pub val: Option<Vec<u8>>,
    pub thin: bool,
}

impl Gen {
    fn v(&mut self) -> u32 {
        if self.thin {
            self.body.push(7);
            return 7;
        }
        let x = sym::u32("v");
        if x <= 251 {
            self.body.push(x as u8);
            return x;
        }
        let n = if x < 1 << 8 {
            1
        } else if x < 1 << 16 {
            2
        } else if x < 1 << 24 {
            3
        } else {
            4
        };
        self.body.push(251 + n as u8);
        self.body.extend_from_slice(&x.to_le_bytes()[..n]);
        x
    }
    fn u(&mut self) -> Uuid {
        let b = if self.thin {
            [self.body.len() as u8 | 0x40; 16]
        } else {
            sym::bytes::<16>("u")
        };
        self.body.extend(b);
        Uuid::from_bytes(b)
    }
    fn d(&mut self, n: usize) -> usize {
        let k = sym::choice(n, "d");
        self.body.push(k as u8);
        k
    }
    fn val(&mut self) -> SerializedValue {
        if let Some(v) = &self.val {
            return raw(v);
        }
        if sym::choice(2, "valsrc") == 0 {
            let n = 1 + sym::choice(3, "vallen");
            let b = sym::vec(n, "val");
            self.val = Some(b.clone());
            raw(&b)
        } else {
            let v = SerializedValue::serialize(sym::u8("x")).unwrap();
            self.val = Some(v.to_vec());
            v
        }
    }
    fn none(&mut self) {
        self.val = Some(vec![0]);
    }
    fn end(&mut self) -> ChannelEnd {
        [ChannelEnd::Sender, ChannelEnd::Receiver][self.d(2)]
    }
    fn endcap(&mut self) -> ChannelEndWithCapacity {
        match self.d(2) {
            0 => ChannelEndWithCapacity::Sender,
            _ => ChannelEndWithCapacity::Receiver(self.v()),
        }
    }
    fn opt(&mut self) -> Option<u32> {
        match self.d(2) {
            0 => None,
            _ => Some(self.v()),
        }
    }
    fn filter(&mut self) -> BusListenerFilter {
        match self.d(6) {
            0 => BusListenerFilter::any_object(),
            1 => BusListenerFilter::object(ObjectUuid(self.u())),
            2 => BusListenerFilter::any_object_any_service(),
            3 => BusListenerFilter::specific_object_any_service(ObjectUuid(self.u())),
            4 => BusListenerFilter::any_object_specific_service(ServiceUuid(self.u())),
            _ => BusListenerFilter::specific_object_and_service(
                ObjectUuid(self.u()),
                ServiceUuid(self.u()),
            ),
        }
    }
    fn oid(&mut self) -> ObjectId {
        ObjectId::new(ObjectUuid(self.u()), ObjectCookie(self.u()))
    }
    fn sid(&mut self) -> ServiceId {
        ServiceId::new(self.oid(), ServiceUuid(self.u()), ServiceCookie(self.u()))
    }

    pub fn message(&mut self, k: u8) -> Message {
        let g = self;
        match k {
            0 => Connect { version: g.v(), value: g.val() }.into(),
            1 => match g.d(3) {
                0 => ConnectReply::Ok(g.val()),
                1 => {
                    g.none();
                    ConnectReply::IncompatibleVersion(g.v())
                }
                _ => ConnectReply::Rejected(g.val()),
            }
            .into(),
            2 => Shutdown.into(),
            3 => CreateObject { serial: g.v(), uuid: ObjectUuid(g.u()) }.into(),
            4 => CreateObjectReply {
                serial: g.v(),
                result: match g.d(2) {
                    0 => CreateObjectResult::Ok(ObjectCookie(g.u())),
                    _ => CreateObjectResult::DuplicateObject,
                },
            }
            .into(),
            5 => DestroyObject { serial: g.v(), cookie: ObjectCookie(g.u()) }.into(),
            6 => DestroyObjectReply {
                serial: g.v(),
                result: match g.d(3) {
                    0 => DestroyObjectResult::Ok,
                    1 => DestroyObjectResult::InvalidObject,
                    _ => DestroyObjectResult::ForeignObject,
                },
            }
            .into(),
            7 => CreateService {
                serial: g.v(),
                object_cookie: ObjectCookie(g.u()),
                uuid: ServiceUuid(g.u()),
                version: g.v(),
            }
            .into(),
            8 => CreateServiceReply {
                serial: g.v(),
                result: match g.d(4) {
                    0 => CreateServiceResult::Ok(ServiceCookie(g.u())),
                    1 => CreateServiceResult::DuplicateService,
                    2 => CreateServiceResult::InvalidObject,
                    _ => CreateServiceResult::ForeignObject,
                },
            }
            .into(),
            9 => DestroyService { serial: g.v(), cookie: ServiceCookie(g.u()) }.into(),
            10 => DestroyServiceReply {
                serial: g.v(),
                result: match g.d(3) {
                    0 => DestroyServiceResult::Ok,
                    1 => DestroyServiceResult::InvalidService,
                    _ => DestroyServiceResult::ForeignObject,
                },
            }
            .into(),
            11 => CallFunction {
                serial: g.v(),
                service_cookie: ServiceCookie(g.u()),
                function: g.v(),
                value: g.val(),
            }
            .into(),
            12 => CallFunctionReply {
                serial: g.v(),
                result: match g.d(6) {
                    0 => CallFunctionResult::Ok(g.val()),
                    1 => CallFunctionResult::Err(g.val()),
                    r => {
                        g.none();
                        match r {
                            2 => CallFunctionResult::Aborted,
                            3 => CallFunctionResult::InvalidService,
                            4 => CallFunctionResult::InvalidFunction,
                            _ => CallFunctionResult::InvalidArgs,
                        }
                    }
                },
            }
            .into(),
            13 => SubscribeEvent {
                serial: g.opt(),
                service_cookie: ServiceCookie(g.u()),
                event: g.v(),
            }
            .into(),
            14 => SubscribeEventReply {
                serial: g.v(),
                result: match g.d(2) {
                    0 => SubscribeEventResult::Ok,
                    _ => SubscribeEventResult::InvalidService,
                },
            }
            .into(),
            15 => UnsubscribeEvent { service_cookie: ServiceCookie(g.u()), event: g.v() }.into(),
            16 => EmitEvent {
                service_cookie: ServiceCookie(g.u()),
                event: g.v(),
                value: g.val(),
            }
            .into(),
            17 => QueryServiceVersion { serial: g.v(), cookie: ServiceCookie(g.u()) }.into(),
            18 => QueryServiceVersionReply {
                serial: g.v(),
                result: match g.d(2) {
                    0 => QueryServiceVersionResult::Ok(g.v()),
                    _ => QueryServiceVersionResult::InvalidService,
                },
            }
            .into(),
            19 => CreateChannel { serial: g.v(), end: g.endcap() }.into(),
            20 => CreateChannelReply { serial: g.v(), cookie: ChannelCookie(g.u()) }.into(),
            21 => CloseChannelEnd { serial: g.v(), cookie: ChannelCookie(g.u()), end: g.end() }
                .into(),
            22 => CloseChannelEndReply {
                serial: g.v(),
                result: match g.d(3) {
                    0 => CloseChannelEndResult::Ok,
                    1 => CloseChannelEndResult::InvalidChannel,
                    _ => CloseChannelEndResult::ForeignChannel,
                },
            }
            .into(),
            23 => ChannelEndClosed { cookie: ChannelCookie(g.u()), end: g.end() }.into(),
            24 => ClaimChannelEnd {
                serial: g.v(),
                cookie: ChannelCookie(g.u()),
                end: g.endcap(),
            }
            .into(),
            25 => ClaimChannelEndReply {
                serial: g.v(),
                result: match g.d(4) {
                    0 => ClaimChannelEndResult::SenderClaimed(g.v()),
                    1 => ClaimChannelEndResult::ReceiverClaimed,
                    2 => ClaimChannelEndResult::InvalidChannel,
                    _ => ClaimChannelEndResult::AlreadyClaimed,
                },
            }
            .into(),
            26 => ChannelEndClaimed { cookie: ChannelCookie(g.u()), end: g.endcap() }.into(),
            27 => SendItem { cookie: ChannelCookie(g.u()), value: g.val() }.into(),
            28 => ItemReceived { cookie: ChannelCookie(g.u()), value: g.val() }.into(),
            29 => AddChannelCapacity { cookie: ChannelCookie(g.u()), capacity: g.v() }.into(),
            30 => Sync { serial: g.v() }.into(),
            31 => SyncReply { serial: g.v() }.into(),
            32 => ServiceDestroyed { service_cookie: ServiceCookie(g.u()) }.into(),
            33 => CreateBusListener { serial: g.v() }.into(),
            34 => CreateBusListenerReply { serial: g.v(), cookie: BusListenerCookie(g.u()) }.into(),
            35 => DestroyBusListener { serial: g.v(), cookie: BusListenerCookie(g.u()) }.into(),
            36 => DestroyBusListenerReply {
                serial: g.v(),
                result: match g.d(2) {
                    0 => DestroyBusListenerResult::Ok,
                    _ => DestroyBusListenerResult::InvalidBusListener,
                },
            }
            .into(),
            37 => AddBusListenerFilter { cookie: BusListenerCookie(g.u()), filter: g.filter() }
                .into(),
            38 => RemoveBusListenerFilter { cookie: BusListenerCookie(g.u()), filter: g.filter() }
                .into(),
            39 => ClearBusListenerFilters { cookie: BusListenerCookie(g.u()) }.into(),
            40 => StartBusListener {
                serial: g.v(),
                cookie: BusListenerCookie(g.u()),
                scope: match g.d(3) {
                    0 => BusListenerScope::Current,
                    1 => BusListenerScope::New,
                    _ => BusListenerScope::All,
                },
            }
            .into(),
            41 => StartBusListenerReply {
                serial: g.v(),
                result: match g.d(3) {
                    0 => StartBusListenerResult::Ok,
                    1 => StartBusListenerResult::InvalidBusListener,
                    _ => StartBusListenerResult::AlreadyStarted,
                },
            }
            .into(),
            42 => StopBusListener { serial: g.v(), cookie: BusListenerCookie(g.u()) }.into(),
            43 => StopBusListenerReply {
                serial: g.v(),
                result: match g.d(3) {
                    0 => StopBusListenerResult::Ok,
                    1 => StopBusListenerResult::InvalidBusListener,
                    _ => StopBusListenerResult::NotStarted,
                },
            }
            .into(),
            44 => EmitBusEvent {
                cookie: match g.d(2) {
                    0 => None,
                    _ => Some(BusListenerCookie(g.u())),
                },
                event: match g.d(4) {
                    0 => BusEvent::ObjectCreated(g.oid()),
                    1 => BusEvent::ObjectDestroyed(g.oid()),
                    2 => BusEvent::ServiceCreated(g.sid()),
                    _ => BusEvent::ServiceDestroyed(g.sid()),
                },
            }
            .into(),
            45 => BusListenerCurrentFinished { cookie: BusListenerCookie(g.u()) }.into(),
            46 => Connect2 { major_version: g.v(), minor_version: g.v(), value: g.val() }.into(),
            47 => ConnectReply2 {
                result: match g.d(3) {
                    0 => ConnectResult::Ok(g.v()),
                    1 => ConnectResult::Rejected,
                    _ => ConnectResult::IncompatibleVersion,
                },
                value: g.val(),
            }
            .into(),
            48 => AbortFunctionCall { serial: g.v() }.into(),
            49 => RegisterIntrospection { value: g.val() }.into(),
            50 => QueryIntrospection { serial: g.v(), type_id: TypeId(g.u()) }.into(),
            51 => QueryIntrospectionReply {
                serial: g.v(),
                result: match g.d(2) {
                    0 => QueryIntrospectionResult::Ok(g.val()),
                    _ => {
                        g.none();
                        QueryIntrospectionResult::Unavailable
                    }
                },
            }
            .into(),
            52 => CreateService2 {
                serial: g.v(),
                object_cookie: ObjectCookie(g.u()),
                uuid: ServiceUuid(g.u()),
                value: g.val(),
            }
            .into(),
            53 => QueryServiceInfo { serial: g.v(), cookie: ServiceCookie(g.u()) }.into(),
            54 => QueryServiceInfoReply {
                serial: g.v(),
                result: match g.d(2) {
                    0 => QueryServiceInfoResult::Ok(g.val()),
                    _ => {
                        g.none();
                        QueryServiceInfoResult::InvalidService
                    }
                },
            }
            .into(),
            55 => SubscribeService { serial: g.v(), service_cookie: ServiceCookie(g.u()) }.into(),
            56 => SubscribeServiceReply {
                serial: g.v(),
                result: match g.d(2) {
                    0 => SubscribeServiceResult::Ok,
                    _ => SubscribeServiceResult::InvalidService,
                },
            }
            .into(),
            57 => UnsubscribeService { service_cookie: ServiceCookie(g.u()) }.into(),
            58 => SubscribeAllEvents { serial: g.opt(), service_cookie: ServiceCookie(g.u()) }
                .into(),
            59 => SubscribeAllEventsReply {
                serial: g.v(),
                result: match g.d(3) {
                    0 => SubscribeAllEventsResult::Ok,
                    1 => SubscribeAllEventsResult::InvalidService,
                    _ => SubscribeAllEventsResult::NotSupported,
                },
            }
            .into(),
            60 => UnsubscribeAllEvents { serial: g.opt(), service_cookie: ServiceCookie(g.u()) }
                .into(),
            61 => UnsubscribeAllEventsReply {
                serial: g.v(),
                result: match g.d(3) {
                    0 => UnsubscribeAllEventsResult::Ok,
                    1 => UnsubscribeAllEventsResult::InvalidService,
                    _ => UnsubscribeAllEventsResult::NotSupported,
                },
            }
            .into(),
            _ => CallFunction2 {
                serial: g.v(),
                service_cookie: ServiceCookie(g.u()),
                function: g.v(),
                version: g.opt(),
                value: g.val(),
            }
            .into(),
        }
    }

    pub fn frame(&self, k: u8) -> Vec<u8> {
        let mut f = vec![0, 0, 0, 0, k];
        if has_value(k) {
            let v = self.val.as_ref().unwrap();
            f.extend((v.len() as u32).to_le_bytes());
            f.extend(v);
        }
        f.extend(&self.body);
        let l = f.len() as u32;
        f[..4].copy_from_slice(&l.to_le_bytes());
        f
    }
}

pub fn message() -> (Message, Vec<u8>) {
    let k = sym::choice(KINDS as usize, "kind") as u8;
    let mut g = Gen { body: vec![], val: None, thin: false };
    let m = g.message(k);
    let f = g.frame(k);
    (m, f)
}

/// every message of every kind
pub fn roundtrip() {
    let (m, f) = message();
    sym::check(u8::from(m.kind()) == f[4], "kind() of a message");
    let Ok(s) = m.clone().serialize_message() else {
        sym::check(false, "message not serializable");
        return;
    };
    sym::log(s.len() as u64);
    sym::check(
        s.len() >= 5 && u32::from_le_bytes(s[..4].try_into().unwrap()) as usize == s.len(),
        "length prefix of a serialized message",
    );
    sym::check(s[..] == f[..], "serialized bytes differ from the wire format");
    match Message::deserialize_message(s) {
        Ok(w) => sym::check(same(&m, &w), "parsed message differs"),
        Err(_) => sym::check(false, "serialized message rejected"),
    }
    match typed(f[4], bytes(&f)) {
        Ok(w) => sym::check(same(&m, &w), "message parsed by its type differs"),
        Err(_) => sym::check(false, "serialized message rejected by its type"),
    }
}

/// payloads whose length takes several bytes
pub fn large() {
    let k = sym::choice(KINDS as usize, "kind") as u8;
    sym::assume(has_value(k));
    let n = [245, 250, 255, 256, 257, 65_500, 65_535, 65_536, 65_537][sym::choice(9, "size")];
    let mut v = vec![1; n];
    v[n - 1] = sym::u8("last");
    let mut g = Gen { body: vec![], val: Some(v), thin: true };
    let m = g.message(k);
    let f = g.frame(k);
    match m.clone().serialize_message() {
        Ok(s) => sym::check(s[..] == f[..], "serialized bytes differ from the wire format"),
        Err(_) => sym::check(false, "message not serializable"),
    }
    judge(&f);
}
