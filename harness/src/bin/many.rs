//! Records histories of one object with very many handles (C09).
use conform::{
    rec::{recorded, Hook, Kind, Rec, LOG},
    *,
};
use nanvm_lib::{
    js::{
        any::Any,
        js_array::{new_array, JsArray, JsArrayRef},
        js_bigint::{new_bigint, JsBigintRef, Sign},
        js_object::{new_object, JsObjectRef},
        js_string::{new_string, JsString, JsStringRef},
        null::Null,
    },
    mem::{
        flexible_array::FlexibleArray,
        global::Global,
        local::Local,
        manager::{Dealloc, Manager},
        ref_::Ref,
    },
};

#[global_allocator]
static HOOK: Hook = Hook;

type D<M> = <Rec<M> as Manager>::Dealloc;

const UNITS: [u16; 3] = [0x41, 0xD83D, 0];

/// A handle to one object, and objects that hold further handles to it.
trait Handle<M: Kind>: Clone {
    type Fan;
    fn make(m: Rec<M>) -> Self;
    fn whole(&self) -> bool;
    fn try_mut(self) -> (Self, bool);
    fn fan(&self, m: Rec<M>, k: usize) -> Self::Fan;
    fn len(f: &Self::Fan) -> usize;
    fn get(f: &Self::Fan, i: usize) -> Self;
}

fn back<T: nanvm_lib::mem::object::Object, D: Dealloc>(r: Ref<T, D>) -> (Ref<T, D>, bool) {
    match r.try_to_mut_ref() {
        Ok(m) => (m.to_ref(), true),
        Err(r) => (r, false),
    }
}

impl<M: Kind> Handle<M> for JsStringRef<D<M>> {
    type Fan = JsObjectRef<D<M>>;
    fn make(m: Rec<M>) -> Self {
        new_string(m, UNITS).to_ref()
    }
    fn whole(&self) -> bool {
        self.items() == UNITS
    }
    fn try_mut(self) -> (Self, bool) {
        back(self)
    }
    fn fan(&self, m: Rec<M>, k: usize) -> Self::Fan {
        let v: Vec<_> = (0..k).map(|i| (self.clone(), Any::move_from(i as f64))).collect();
        new_object(m, v).to_ref()
    }
    fn len(f: &Self::Fan) -> usize {
        f.items().len()
    }
    fn get(f: &Self::Fan, i: usize) -> Self {
        let (k, v) = &f.items()[i];
        assert!(v.clone().try_move::<f64>() == Ok(i as f64));
        k.clone()
    }
}

/// Kinds of dynamic values.
#[derive(Clone)]
struct Dyn<M: Kind, const K: usize>(Any<D<M>>);

impl<M: Kind, const K: usize> Handle<M> for Dyn<M, K> {
    type Fan = JsArrayRef<D<M>>;
    fn make(m: Rec<M>) -> Self {
        Dyn(match K {
            0 => Any::move_from(new_string(m, UNITS).to_ref()),
            1 => Any::move_from(new_bigint(m, Sign::Negative, [5, 7]).to_ref()),
            2 => Any::move_from(new_array(m, [Any::move_from(Null()), Any::move_from(1.5)]).to_ref()),
            _ => Any::move_from(new_object::<_, _>(m, []).to_ref()),
        })
    }
    fn whole(&self) -> bool {
        match K {
            0 => self.0.try_ref::<JsString>().is_ok_and(|b| b.object().items() == UNITS),
            1 => self
                .0
                .clone()
                .try_move::<JsBigintRef<_>>()
                .is_ok_and(|b| b.items() == [5, 7] && b.sign() == Sign::Negative),
            2 => self.0.try_ref::<JsArray<_>>().is_ok_and(|b| {
                let v = b.object().items();
                v.len() == 2 && v[0].is::<Null>() && v[1].clone().try_move::<f64>() == Ok(1.5)
            }),
            _ => self.0.clone().try_move::<JsObjectRef<_>>().is_ok_and(|b| b.items().is_empty()),
        }
    }
    fn try_mut(self) -> (Self, bool) {
        fn via<T: nanvm_lib::js::any_cast::AnyCast<D>, D: Dealloc>(a: Any<D>, f: impl FnOnce(T) -> (T, bool)) -> (Any<D>, bool) {
            let (t, ok) = f(a.try_move::<T>().ok().unwrap());
            (Any::move_from(t), ok)
        }
        let (a, ok) = match K {
            0 => via::<JsStringRef<_>, _>(self.0, back),
            1 => via::<JsBigintRef<_>, _>(self.0, back),
            2 => via::<JsArrayRef<_>, _>(self.0, back),
            _ => via::<JsObjectRef<_>, _>(self.0, back),
        };
        (Dyn(a), ok)
    }
    fn fan(&self, m: Rec<M>, k: usize) -> Self::Fan {
        let v: Vec<_> = (0..k).map(|_| self.0.clone()).collect();
        new_array(m, v).to_ref()
    }
    fn len(f: &Self::Fan) -> usize {
        f.items().len()
    }
    fn get(f: &Self::Fan, i: usize) -> Self {
        Dyn(f.items()[i].clone())
    }
}

type Fix<M> = Ref<FlexibleArray<u32, usize>, D<M>>;

impl<M: Kind> Handle<M> for Fix<M> {
    type Fan = Ref<FlexibleArray<Fix<M>, usize>, D<M>>;
    fn make(m: Rec<M>) -> Self {
        m.flexible_array_new([0x1234_5678]).to_ref()
    }
    fn whole(&self) -> bool {
        self.items() == [0x1234_5678]
    }
    fn try_mut(self) -> (Self, bool) {
        back(self)
    }
    fn fan(&self, m: Rec<M>, k: usize) -> Self::Fan {
        let v: Vec<_> = (0..k).map(|_| self.clone()).collect();
        m.flexible_array_new(v).to_ref()
    }
    fn len(f: &Self::Fan) -> usize {
        f.items().len()
    }
    fn get(f: &Self::Fan, i: usize) -> Self {
        f.items()[i].clone()
    }
}

fn live() -> usize {
    LOG.with(|l| l.borrow().blocks.iter().filter(|b| b.live).count())
}

struct Case {
    kind: usize,
    local: bool,
    seed: u64,
    /// the largest number of handles of a step
    most: usize,
}

fn go<M: Kind, X: Handle<M>>(c: &Case, m: Rec<M>) -> String {
    let mut r = Rng::new(c.seed);
    let mut hs = vec![X::make(m)];
    let mut fans: Vec<X::Fan> = vec![];
    let mut out = vec![];
    let mut steps = 0;
    while !hs.is_empty() || !fans.is_empty() {
        steps += 1;
        let amount = |r: &mut Rng| match r.below(4) {
            0 => 1 + r.below(4),
            1 => c.most,
            2 => c.most + 1,
            _ => 1 + r.below(c.most),
        };
        let end = steps > 20;
        let mut res = true;
        let op = loop {
            match r.below(6) {
                0 if !hs.is_empty() && !end => {
                    let k = amount(&mut r);
                    for _ in 0..k {
                        hs.push(hs[0].clone());
                    }
                    break format!(r#"["add",{k}]"#);
                }
                1 if !hs.is_empty() => {
                    let k = if end || r.bool() { hs.len() } else { amount(&mut r).min(hs.len()) };
                    // the only handle goes rarely before the end
                    let k = if !end && fans.is_empty() { k.min(hs.len() - 1) } else { k };
                    hs.truncate(hs.len() - k);
                    break format!(r#"["drop",{k}]"#);
                }
                2 if !hs.is_empty() && !end => {
                    let k = if r.below(6) == 0 { 0 } else { amount(&mut r) };
                    fans.push(hs[0].fan(m, k));
                    break format!(r#"["fan",{k}]"#);
                }
                3 if !fans.is_empty() => {
                    fans.pop();
                    break r#"["unfan",0]"#.to_string();
                }
                4 if !fans.is_empty() && !end => {
                    let f = &fans[fans.len() - 1];
                    if X::len(f) > 0 {
                        hs.push(X::get(f, X::len(f) - 1));
                        break r#"["take",0]"#.to_string();
                    }
                }
                5 if !hs.is_empty() => {
                    let (h, ok) = hs.pop().unwrap().try_mut();
                    hs.push(h);
                    res = ok;
                    break r#"["mut",0]"#.to_string();
                }
                _ => {}
            }
        };
        let live = live();
        let whole = live == fans.len()
            || (hs.first().is_none_or(|h| h.whole())
                && hs.last().is_none_or(|h| h.whole())
                && fans.last().is_none_or(|f| {
                    let n = X::len(f);
                    [0, n / 2, n.wrapping_sub(1)].iter().all(|&i| i >= n || X::get(f, i).whole())
                }));
        out.push(format!(r#"{{"op":{op},"r":{res},"live":{live},"whole":{whole}}}"#));
    }
    format!(r#""steps":[{}]"#, out.join(","))
}

fn with<M: Kind>(c: &Case) -> String {
    let (s, e) = recorded::<M, _>(|m| match c.kind {
        0 => go::<M, JsStringRef<D<M>>>(c, m),
        1 => go::<M, Fix<M>>(c, m),
        2 => go::<M, Dyn<M, 0>>(c, m),
        3 => go::<M, Dyn<M, 1>>(c, m),
        4 => go::<M, Dyn<M, 2>>(c, m),
        _ => go::<M, Dyn<M, 3>>(c, m),
    });
    format!("{s},{e}")
}

fn exec(c: &Case) -> String {
    if c.local {
        with::<&'static Local>(c)
    } else {
        with::<Global>(c)
    }
}

fn main() {
    let a = args();
    let mut r = Rng::new(a.seed ^ 77);
    let mut cases = vec![];
    for k in 0..if a.thorough { 2000 } else { 300 } {
        cases.push(Case {
            kind: k % 6,
            local: k / 6 % 2 == 0,
            seed: r.next() | 1,
            most: [3, 127, 255, 256, 1000, 32767, 65535, 65535, 70000][k / 12 % 9],
        });
    }
    drive(&a, cases, |c| format!(r#""kind":{},"most":{}"#, c.kind, c.most), exec);
}
