//! Introspection as applications use it: they register types, others ask.
use crate::cl::world::*;
use aldrin::core::introspection::{DynIntrospectable, Introspection};
use aldrin::core::{ServiceUuid, TypeId};
use aldrin::{service, Deserialize, Introspectable, PrimaryTag, RefType, Serialize, Tag};
use std::cell::RefCell;
use std::collections::HashSet;
use std::rc::Rc;
use uuid::uuid;

#[derive(Introspectable)]
#[aldrin(schema = "s")]
struct A {
    #[aldrin(id = 1)]
    _b: Box<B>,
    #[aldrin(id = 2, optional)]
    _c: Option<Vec<C>>,
}

#[derive(Introspectable)]
#[aldrin(schema = "s")]
struct B {
    #[aldrin(id = 1)]
    _a: Vec<A>,
}

#[derive(Debug, Clone, Tag, PrimaryTag, RefType, Serialize, Deserialize, Introspectable)]
#[aldrin(schema = "s", ref_type)]
#[allow(dead_code)]
enum C {
    #[aldrin(id = 1)]
    X,
    #[aldrin(id = 2)]
    Y(D),
}

#[derive(Debug, Clone, Tag, PrimaryTag, RefType, Serialize, Deserialize, Introspectable)]
#[aldrin(schema = "s", ref_type)]
struct D {
    #[aldrin(id = 1)]
    x: u8,
}

service! {
    #[aldrin(schema = "s", introspection)]
    service S {
        uuid = ServiceUuid(uuid!("07af9a9e-1d4e-4f92-9d1c-0d7a3ae49d2b"));
        version = 1;

        fn get @ 1 = D;
        event gone @ 1 = C;
    }
}


fn types() -> [(TypeId, Introspection); 5] {
    fn t<T: aldrin::core::introspection::Introspectable>() -> (TypeId, Introspection) {
        (TypeId::compute::<T>(), Introspection::new::<T>())
    }
    [t::<A>(), t::<B>(), t::<C>(), t::<D>(), t::<SProxy>()]
}

/// which of `types` come with a root
const CLOSURE: [&[usize]; 3] = [&[0, 1, 2, 3], &[3], &[2, 3, 4]];

/// two applications that know types, one of which leaves, and a third that asks
pub fn intro(delays: usize) {
    let mut w = World::new(3, 0);
    let ty = Rc::new(types());
    for (id, i) in &*ty {
        sym::check(i.type_id() == *id, "a record is not of its type");
    }
    let mut own: [HashSet<usize>; 3] = Default::default();
    let mut told: [HashSet<usize>; 3] = Default::default();
    for c in 0..2 {
        let h = w.h(c);
        for _ in 0..2 - c {
            let root = sym::choice(4, "register");
            let r = match root {
                0 => h.register_introspection::<A>(),
                1 => h.register_introspection_dyn(DynIntrospectable::new::<D>()),
                2 => h.register_introspection::<SProxy>(),
                _ => continue,
            };
            sym::check(r.is_ok(), "registering fails");
            own[c].extend(CLOSURE[root]);
            if sym::choice(2, "submit") == 1 {
                sym::check(h.submit_introspection().is_ok(), "submitting fails");
                if w.version(c) >= 17 {
                    told[c] = own[c].clone();
                }
            }
        }
    }
    w.ex.run();
    w.check_alive();
    let by = if sym::choice(2, "asks itself") == 1 { 0 } else { 2 };
    let leaves = by == 2 && sym::choice(2, "leaves") == 1;
    let pick = sym::choice(5, "ask for");
    w.ex.delays = delays;
    let got = Rc::new(RefCell::new(None));
    let (g, h, id) = (got.clone(), w.h(by), ty[pick].0);
    let t = w.ex.spawn(async move { *g.borrow_mut() = Some(h.query_introspection(id).await) });
    if leaves {
        w.peers[0].asked.set(true);
        let h = w.h(0);
        w.ex.spawn(async move { h.shutdown() });
    }
    w.ex.run();
    sym::check(w.ex.done(t), "an operation the application awaits never completes");
    w.check_alive();
    let ver = w.version(by);
    let known = |p: usize, gone: bool| own[by].contains(&p) || (ver >= 17 && (0..2).any(|c| !(gone && c == 0) && told[c].contains(&p)));
    let judge = |r: Option<Result<Option<Introspection>, aldrin::Error>>, p: usize, before: bool, after: bool| match r {
        Some(Ok(Some(i))) => {
            sym::check(before || after, "introspection is found that nobody has told of");
            sym::check(i == ty[p].1, "another introspection is found");
            sym::cover("found");
        }
        Some(Ok(None)) => {
            sym::check(!(before && after), "introspection is not found");
            sym::cover("not found");
        }
        _ => sym::check(false, "asking for introspection fails"),
    };
    let (before, after) = (known(pick, false), known(pick, leaves));
    judge(got.borrow_mut().take(), pick, before, after);
    w.ex.delays = 0;
    // at rest, what is known is known for good, and all it refers to
    for p in 0..5 {
        let (h, id) = (w.h(by), ty[p].0);
        let now = known(p, leaves);
        let r = w.block(async move {
            let r = h.query_introspection(id).await;
            if let Ok(Some(i)) = &r {
                for x in i.iter_references() {
                    let r = h.query_introspection(x).await;
                    sym::check(matches!(r, Ok(Some(i)) if i.type_id() == x), "a reference does not resolve");
                    sym::cover("resolved");
                }
            }
            r
        });
        judge(Some(r), p, now, now);
    }
    w.finish();
}
