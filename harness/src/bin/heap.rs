//! Records histories of handles and objects (C09).
use conform::{
    json::{self, J},
    rec::{recorded, Hook, Kind, Rec, LOG},
    *,
};
use nanvm_lib::{
    js::{
        any::Any,
        js_array::{new_array, JsArray},
        js_bigint::{new_bigint, JsBigint, Sign},
        js_object::{new_object, JsObject},
        js_string::{new_string, JsString},
        null::Null,
        type_::Type,
        visitor::{to_visitor, Visitor},
    },
    mem::{
        flexible_array::FlexibleArray,
        global::Global,
        local::Local,
        manager::{Dealloc, Manager},
        mut_ref::MutRef,
        object::Object,
        optional_ref::OptionalRef,
        ref_::Ref,
    },
};
use std::{
    cell::RefCell,
    collections::{hash_map::DefaultHasher, BTreeMap},
    hash::{Hash, Hasher},
};

#[global_allocator]
static HOOK: Hook = Hook;

thread_local! {
    static DROPS: RefCell<Vec<i64>> = const { RefCell::new(vec![]) };
}

/// Something with a destructor.
#[derive(Debug)]
struct Payload(i64);

impl Drop for Payload {
    fn drop(&mut self) {
        DROPS.with(|d| d.borrow_mut().push(self.0));
    }
}

// --- ways to an object of a type that cannot be named ---

struct Fix<T: Object, D: Dealloc> {
    h: Either<T, D>,
    get: fn(&T) -> i64,
    set: fn(&mut T, Payload),
}

enum Either<T: Object, D: Dealloc> {
    Mut(MutRef<T, D>),
    Ref(Ref<T, D>),
}

trait AnyFix {
    fn is_mut(&self) -> bool;
    fn addr(&self) -> usize;
    fn get(&self) -> i64;
    fn set(&mut self, p: Payload);
    fn to_ref(self: Box<Self>) -> Box<dyn AnyFix>;
    fn try_mut(self: Box<Self>) -> Box<dyn AnyFix>;
    fn copy(&self) -> Box<dyn AnyFix>;
}

/// An address inside of the block of an object.
fn mut_addr<T: Object, D: Dealloc>(m: &MutRef<T, D>) -> usize {
    &**m as *const T as usize
}

fn ref_addr<T: Object, D: Dealloc>(r: &Ref<T, D>) -> usize {
    &**r as *const T as usize
}

impl<T: Object + 'static, D: Dealloc + 'static> AnyFix for Fix<T, D> {
    fn is_mut(&self) -> bool {
        matches!(self.h, Either::Mut(_))
    }
    fn addr(&self) -> usize {
        match &self.h {
            Either::Mut(m) => mut_addr(m),
            Either::Ref(r) => ref_addr(r),
        }
    }
    fn get(&self) -> i64 {
        match &self.h {
            Either::Mut(m) => (self.get)(m),
            Either::Ref(r) => (self.get)(r),
        }
    }
    fn set(&mut self, p: Payload) {
        match &mut self.h {
            Either::Mut(m) => (self.set)(m, p),
            Either::Ref(_) => panic!(),
        }
    }
    fn to_ref(self: Box<Self>) -> Box<dyn AnyFix> {
        let Fix { h, get, set } = *self;
        let h = match h {
            Either::Mut(m) => Either::Ref(m.to_ref()),
            h => h,
        };
        Box::new(Fix { h, get, set })
    }
    fn try_mut(self: Box<Self>) -> Box<dyn AnyFix> {
        let Fix { h, get, set } = *self;
        let h = match h {
            Either::Ref(r) => match r.try_to_mut_ref() {
                Ok(m) => Either::Mut(m),
                Err(r) => Either::Ref(r),
            },
            h => h,
        };
        Box::new(Fix { h, get, set })
    }
    fn copy(&self) -> Box<dyn AnyFix> {
        let h = match &self.h {
            Either::Ref(r) => Either::Ref(r.clone()),
            Either::Mut(_) => panic!(),
        };
        Box::new(Fix { h, get: self.get, set: self.set })
    }
}

fn fix<T: Object + 'static, D: Dealloc + 'static>(m: MutRef<T, D>, get: fn(&T) -> i64, set: fn(&mut T, Payload)) -> Box<dyn AnyFix> {
    Box::new(Fix {
        h: Either::Mut(m),
        get,
        set,
    })
}

// --- handles ---

type Vecs = FlexibleArray<Payload, usize>;

enum H<D: Dealloc> {
    None,
    Fix(Box<dyn AnyFix>),
    MVec(MutRef<Vecs, D>),
    RVec(Ref<Vecs, D>),
    MStr(MutRef<JsString, D>),
    RStr(Ref<JsString, D>),
    MBig(MutRef<JsBigint, D>),
    RBig(Ref<JsBigint, D>),
    MArr(MutRef<JsArray<D>, D>),
    RArr(Ref<JsArray<D>, D>),
    MObj(MutRef<JsObject<D>, D>),
    RObj(Ref<JsObject<D>, D>),
    Any(Any<D>),
}

type MD<M> = <M as Manager>::Dealloc;

/// Simple values are numbers: -1 null, -2 true, -3 false, others are doubles.
fn simple<D: Dealloc>(v: i64) -> Any<D> {
    match v {
        -1 => Any::move_from(Null()),
        -2 => Any::move_from(true),
        -3 => Any::move_from(false),
        v => Any::move_from(v as f64),
    }
}

const TYPES: [&str; 7] = ["num", "bool", "str", "null", "obj", "arr", "big"];

struct World<M: Kind> {
    m: Rec<M>,
    slots: Vec<H<MD<Rec<M>>>>,
    /// A block was reached that is not alive: nothing can be done any more.
    broken: bool,
    /// Contents by block.
    objs: BTreeMap<usize, String>,
}

type W<M> = MD<Rec<M>>;

impl<M: Kind> World<M> {
    fn id(&mut self, addr: usize) -> usize {
        let n = LOG.with(|l| l.borrow().live_at(addr));
        if n == 0 {
            self.broken = true;
        }
        n
    }
    fn any_addr(a: &Any<W<M>>) -> usize {
        if let Ok(b) = a.try_ref::<JsString>() {
            return b as *const _ as usize;
        }
        if let Ok(b) = a.try_ref::<JsObject<W<M>>>() {
            return b as *const _ as usize;
        }
        if let Ok(b) = a.try_ref::<JsArray<W<M>>>() {
            return b as *const _ as usize;
        }
        if let Ok(b) = a.try_ref::<JsBigint>() {
            return b as *const _ as usize;
        }
        0
    }
    fn simple_of(a: &Any<W<M>>) -> i64 {
        match a.get_type() {
            Type::Null => -1,
            Type::Bool => -2 - !a.clone().try_move::<bool>().unwrap() as i64,
            _ => {
                let f = a.clone().try_move::<f64>().unwrap();
                f as i64
            }
        }
    }
    /// A value inside of an object, or in a slot.
    fn any(&mut self, a: &Any<W<M>>) -> String {
        if !a.is_ref() {
            return format!(r#"{{"v":{}}}"#, Self::simple_of(a));
        }
        let addr = Self::any_addr(a);
        let n = self.id(addr);
        if n != 0 && !self.objs.contains_key(&n) {
            self.objs.insert(n, String::new());
            if let Ok(b) = a.try_ref::<JsString>() {
                self.str(n, b.object());
            } else if let Ok(b) = a.try_ref::<JsBigint>() {
                self.big(n, b.object());
            } else if let Ok(b) = a.try_ref::<JsArray<W<M>>>() {
                self.arr(n, b.object());
            } else if let Ok(b) = a.try_ref::<JsObject<W<M>>>() {
                self.obj(n, b.object());
            }
        }
        format!(r#"{{"n":{n}}}"#)
    }
    fn put(&mut self, n: usize, k: &str, items: Vec<String>) {
        self.objs
            .insert(n, format!(r#"{{"n":{n},"k":"{k}","xs":[{}]}}"#, items.join(",")));
    }
    fn ints(&mut self, n: usize, k: &str, items: impl Iterator<Item = i64>) {
        let v = items.map(|i| format!(r#"{{"v":{i}}}"#)).collect();
        self.put(n, k, v)
    }
    fn vec(&mut self, n: usize, o: &Vecs) {
        self.ints(n, "vec", o.items().iter().map(|p| p.0))
    }
    fn str(&mut self, n: usize, o: &JsString) {
        self.ints(n, "str", o.items().iter().map(|&u| u as i64))
    }
    fn big(&mut self, n: usize, o: &JsBigint) {
        self.ints(n, "big", o.items().iter().map(|&u| u as i64))
    }
    fn arr(&mut self, n: usize, o: &JsArray<W<M>>) {
        let v = o.items().iter().map(|a| self.any(a)).collect();
        self.put(n, "arr", v)
    }
    fn obj(&mut self, n: usize, o: &JsObject<W<M>>) {
        let mut v = vec![];
        for (k, a) in o.items() {
            let addr = ref_addr(k);
            let kn = self.id(addr);
            if kn != 0 {
                self.str(kn, k);
            }
            v.push(format!(r#"{{"n":{kn}}}"#));
            v.push(self.any(a));
        }
        self.put(n, "obj", v)
    }
    fn slot(&mut self, s: &H<W<M>>) -> String {
        macro_rules! one {
            ($h:literal, $k:literal, $a:expr, $read:expr) => {{
                let addr = $a;
                let n = self.id(addr);
                if n != 0 {
                    $read(self, n);
                }
                format!(r#"{{"h":"{}","k":"{}","x":{{"n":{n}}}}}"#, $h, $k)
            }};
        }
        match s {
            H::None => r#"{"h":"none"}"#.to_string(),
            H::Fix(f) => {
                let n = self.id(f.addr());
                if n != 0 {
                    self.ints(n, "fix", [f.get()].into_iter());
                }
                format!(r#"{{"h":"{}","k":"fix","x":{{"n":{n}}}}}"#, if f.is_mut() { "mut" } else { "ref" })
            }
            H::MVec(o) => one!("mut", "vec", mut_addr(o), |w: &mut Self, n| w.vec(n, o)),
            H::RVec(o) => one!("ref", "vec", ref_addr(o), |w: &mut Self, n| w.vec(n, o)),
            H::MStr(o) => one!("mut", "str", mut_addr(o), |w: &mut Self, n| w.str(n, o)),
            H::RStr(o) => one!("ref", "str", ref_addr(o), |w: &mut Self, n| w.str(n, o)),
            H::MBig(o) => one!("mut", "big", mut_addr(o), |w: &mut Self, n| w.big(n, o)),
            H::RBig(o) => one!("ref", "big", ref_addr(o), |w: &mut Self, n| w.big(n, o)),
            H::MArr(o) => one!("mut", "arr", mut_addr(o), |w: &mut Self, n| w.arr(n, o)),
            H::RArr(o) => one!("ref", "arr", ref_addr(o), |w: &mut Self, n| w.arr(n, o)),
            H::MObj(o) => one!("mut", "obj", mut_addr(o), |w: &mut Self, n| w.obj(n, o)),
            H::RObj(o) => one!("ref", "obj", ref_addr(o), |w: &mut Self, n| w.obj(n, o)),
            H::Any(a) => {
                let k = TYPES[a.get_type() as usize];
                let x = self.any(a);
                format!(r#"{{"h":"any","k":"{k}","x":{x}}}"#)
            }
        }
    }
    fn snapshot(&mut self) -> String {
        self.objs.clear();
        let slots = std::mem::take(&mut self.slots);
        let s: Vec<String> = slots.iter().map(|h| self.slot(h)).collect();
        self.slots = slots;
        let objs: Vec<String> = self.objs.values().cloned().collect();
        format!(r#""slots":[{}],"objs":[{}]"#, s.join(","), objs.join(","))
    }
    fn take(&mut self, a: usize) -> H<W<M>> {
        std::mem::replace(&mut self.slots[a - 1], H::None)
    }
    fn take_any(&mut self, x: &Src) -> Option<Any<W<M>>> {
        match x {
            Src::Val(v) => Some(simple(*v)),
            Src::Slot(a) => match self.take(*a) {
                H::Any(a) => Some(a),
                h => {
                    self.slots[a - 1] = h;
                    None
                }
            },
        }
    }
    fn op(&mut self, op: &Op) -> Option<String> {
        let m = self.m;
        let ok = || Some(r#""ok""#.to_string());
        match op {
            Op::New(dst, k, xs) => {
                let vals = || xs.iter().map(|x| if let Src::Val(v) = x { *v } else { 0 }).collect::<Vec<_>>();
                if !matches!(self.slots[dst - 1], H::None) {
                    return None;
                }
                let h = match k.as_str() {
                    "fix" => H::Fix(fix(m.fixed_new(Payload(vals()[0])), |f| f.0 .0, |f, p| f.0 = p)),
                    "vec" => H::MVec(m.flexible_array_new(vals().into_iter().map(Payload).collect::<Vec<_>>())),
                    "str" => H::MStr(new_string(m, vals().into_iter().map(|v| v as u16).collect::<Vec<_>>())),
                    "big" => H::MBig(new_bigint(
                        m,
                        if vals().len() % 2 == 0 { Sign::Negative } else { Sign::Positive },
                        vals().into_iter().map(|v| v as u64).collect::<Vec<_>>(),
                    )),
                    "arr" => {
                        let mut v = vec![];
                        for x in xs {
                            v.push(self.take_any(x)?);
                        }
                        H::MArr(new_array(m, v))
                    }
                    "obj" => {
                        let mut v = vec![];
                        for p in xs.chunks(2) {
                            let Src::Slot(ks) = p[0] else { return None };
                            let H::RStr(key) = self.take(ks) else { return None };
                            v.push((key, self.take_any(&p[1])?));
                        }
                        H::MObj(new_object(m, v))
                    }
                    _ => panic!(),
                };
                self.slots[dst - 1] = h;
                ok()
            }
            Op::ToRef(a) => {
                let h = match self.take(*a) {
                    H::Fix(f) if f.is_mut() => H::Fix(f.to_ref()),
                    H::MVec(o) => H::RVec(o.to_ref()),
                    H::MStr(o) => H::RStr(o.to_ref()),
                    H::MBig(o) => H::RBig(o.to_ref()),
                    H::MArr(o) => H::RArr(o.to_ref()),
                    H::MObj(o) => H::RObj(o.to_ref()),
                    _ => return None,
                };
                self.slots[a - 1] = h;
                ok()
            }
            Op::TryMut(a) => {
                macro_rules! go {
                    ($o:expr, $m:ident, $r:ident) => {
                        match $o.try_to_mut_ref() {
                            Ok(m) => H::$m(m),
                            Err(r) => H::$r(r),
                        }
                    };
                }
                let h = match self.take(*a) {
                    H::Fix(f) if !f.is_mut() => H::Fix(f.try_mut()),
                    H::RVec(o) => go!(o, MVec, RVec),
                    H::RStr(o) => go!(o, MStr, RStr),
                    H::RBig(o) => go!(o, MBig, RBig),
                    H::RArr(o) => go!(o, MArr, RArr),
                    H::RObj(o) => go!(o, MObj, RObj),
                    _ => return None,
                };
                self.slots[a - 1] = h;
                ok()
            }
            Op::ToAny(a) => {
                let h = match self.take(*a) {
                    H::RStr(o) => Any::move_from(o),
                    H::RBig(o) => Any::move_from(o),
                    H::RArr(o) => Any::move_from(o),
                    H::RObj(o) => Any::move_from(o),
                    _ => return None,
                };
                self.slots[a - 1] = H::Any(h);
                ok()
            }
            Op::Cast(a, k) => {
                let H::Any(any) = self.take(*a) else { return None };
                let v = |v: i64| Some(format!(r#"{{"v":{v}}}"#));
                let h = match k.as_str() {
                    "num" => return v(any.try_move::<f64>().map_or(-100, |f| f as i64)),
                    "bool" => return v(any.try_move::<bool>().map_or(-100, |b| -2 - !b as i64)),
                    "null" => return v(any.try_move::<Null>().map_or(-100, |_| -1)),
                    "str" => any.try_move::<Ref<JsString, W<M>>>().map(H::RStr),
                    "big" => any.try_move::<Ref<JsBigint, W<M>>>().map(H::RBig),
                    "arr" => any.try_move::<Ref<JsArray<W<M>>, W<M>>>().map(H::RArr),
                    _ => any.try_move::<Ref<JsObject<W<M>>, W<M>>>().map(H::RObj),
                };
                match h {
                    Ok(h) => {
                        self.slots[a - 1] = h;
                        ok()
                    }
                    Err(()) => Some(r#""refused""#.to_string()),
                }
            }
            Op::Look(a) => {
                let H::Any(any) = &self.slots[a - 1] else { return None };
                let is = [
                    any.is::<f64>(),
                    any.is::<bool>(),
                    any.is::<Ref<JsString, W<M>>>(),
                    any.is::<Null>(),
                    any.is::<Ref<JsObject<W<M>>, W<M>>>(),
                    any.is::<Ref<JsArray<W<M>>, W<M>>>(),
                    any.is::<Ref<JsBigint, W<M>>>(),
                ];
                let v: Vec<String> = (0..7).filter(|&i| is[i]).map(|i| format!("\"{}\"", TYPES[i])).collect();
                Some(format!("[{}]", v.join(",")))
            }
            Op::Visit(a) => {
                let H::Any(any) = self.take(*a) else { return None };
                let v = |v: i64| Some(format!(r#"{{"v":{v}}}"#));
                let h = match to_visitor(any) {
                    Visitor::Number(f) => return v(f as i64),
                    Visitor::Bool(b) => return v(-2 - !b as i64),
                    Visitor::Null => return v(-1),
                    Visitor::String(o) => H::RStr(o),
                    Visitor::Bigint(o) => H::RBig(o),
                    Visitor::Array(o) => H::RArr(o),
                    Visitor::Object(o) => H::RObj(o),
                };
                self.slots[a - 1] = h;
                ok()
            }
            Op::Clone(a, b) => {
                if !matches!(self.slots[b - 1], H::None) {
                    return None;
                }
                let h = match &self.slots[a - 1] {
                    H::Fix(f) if !f.is_mut() => H::Fix(f.copy()),
                    H::RVec(o) => H::RVec(o.clone()),
                    H::RStr(o) => H::RStr(o.clone()),
                    H::RBig(o) => H::RBig(o.clone()),
                    H::RArr(o) => H::RArr(o.clone()),
                    H::RObj(o) => H::RObj(o.clone()),
                    H::Any(o) => H::Any(o.clone()),
                    _ => return None,
                };
                self.slots[b - 1] = h;
                ok()
            }
            Op::Assign(a, b) => {
                let mut to = self.take(*b);
                match (&mut to, &self.slots[a - 1]) {
                    (H::RVec(x), H::RVec(y)) => x.clone_from(y),
                    (H::RStr(x), H::RStr(y)) => x.clone_from(y),
                    (H::RBig(x), H::RBig(y)) => x.clone_from(y),
                    (H::RArr(x), H::RArr(y)) => x.clone_from(y),
                    (H::RObj(x), H::RObj(y)) => x.clone_from(y),
                    (H::Any(x), H::Any(y)) => x.clone_from(y),
                    _ => return None,
                }
                self.slots[b - 1] = to;
                ok()
            }
            Op::Get(a, i, b) => {
                if !matches!(self.slots[b - 1], H::None) {
                    return None;
                }
                fn of_arr<D: Dealloc>(o: &JsArray<D>, i: usize) -> Option<H<D>> {
                    Some(H::Any(o.items().get(i - 1)?.clone()))
                }
                fn of_obj<D: Dealloc>(o: &JsObject<D>, i: usize) -> Option<H<D>> {
                    let p = o.items().get((i - 1) / 2)?;
                    Some(if i % 2 == 1 { H::RStr(p.0.clone()) } else { H::Any(p.1.clone()) })
                }
                let h = match &self.slots[a - 1] {
                    H::MArr(o) => of_arr(o, *i),
                    H::RArr(o) => of_arr(o, *i),
                    H::MObj(o) => of_obj(o, *i),
                    H::RObj(o) => of_obj(o, *i),
                    H::Any(x) => {
                        if let Ok(o) = x.try_ref::<JsArray<W<M>>>() {
                            of_arr(o.object(), *i)
                        } else if let Ok(o) = x.try_ref::<JsObject<W<M>>>() {
                            of_obj(o.object(), *i)
                        } else {
                            None
                        }
                    }
                    _ => None,
                }?;
                self.slots[b - 1] = h;
                ok()
            }
            Op::Put(a, i, x) => {
                let v = self.take_any(x)?;
                let old = match &mut self.slots[a - 1] {
                    H::MArr(o) => std::mem::replace(o.items_mut().get_mut(i - 1)?, v),
                    H::MObj(o) if i % 2 == 0 => std::mem::replace(&mut o.items_mut().get_mut((i - 1) / 2)?.1, v),
                    _ => return None,
                };
                match x {
                    Src::Slot(b) => self.slots[b - 1] = H::Any(old),
                    Src::Val(_) => drop(old),
                }
                ok()
            }
            Op::Write(a, i, v) => {
                match &mut self.slots[a - 1] {
                    H::Fix(f) if f.is_mut() => f.set(Payload(*v)),
                    H::MVec(o) => *o.items_mut().get_mut(i - 1)? = Payload(*v),
                    H::MStr(o) => *o.items_mut().get_mut(i - 1)? = *v as u16,
                    H::MBig(o) => *o.items_mut().get_mut(i - 1)? = *v as u64,
                    _ => return None,
                }
                ok()
            }
            Op::Drop(a) => {
                if matches!(self.slots[a - 1], H::None) {
                    return None;
                }
                drop(self.take(*a));
                ok()
            }
            Op::Each(a, j) => {
                let H::Any(any) = &self.slots[a - 1] else { return None };
                let any = any as *const Any<W<M>>;
                let mut seen = vec![];
                // the slot is not changed by the iteration
                let r = unsafe { &*any }.for_each(|k, v| {
                    let k = self.any(&k);
                    let v = self.any(v);
                    seen.push(k);
                    seen.push(v);
                    if seen.len() == 2 * j {
                        Err(())
                    } else {
                        Ok(())
                    }
                });
                Some(format!(r#"{{"ok":{},"seen":[{}]}}"#, r.is_ok(), seen.join(",")))
            }
            Op::Eq(a, b) => {
                fn cmp<T: nanvm_lib::mem::optional_block::OptionalBlock>(x: &OptionalRef<T>, y: &OptionalRef<T>) -> Option<String> {
                    let hash = |x: &OptionalRef<T>| {
                        let mut h = DefaultHasher::new();
                        x.hash(&mut h);
                        h.finish()
                    };
                    let eq = x == y;
                    if eq && hash(x) != hash(y) {
                        return Some(r#""hash""#.to_string());
                    }
                    Some(if eq { r#""same""# } else { r#""other""# }.to_string())
                }
                match (&self.slots[a - 1], &self.slots[b - 1]) {
                    (H::Any(x), H::Any(y)) => cmp(x, y),
                    (H::RStr(x), H::RStr(y)) => cmp(x, y),
                    (H::RBig(x), H::RBig(y)) => cmp(x, y),
                    (H::RArr(x), H::RArr(y)) => cmp(x, y),
                    (H::RObj(x), H::RObj(y)) => cmp(x, y),
                    (H::RVec(x), H::RVec(y)) => cmp(x, y),
                    _ => None,
                }
            }
        }
    }
    /// One step: the operation, what came out, and the state afterwards.
    fn step(&mut self, op: &Op, text: &str, look: bool) -> String {
        let ev0 = LOG.with(|l| l.borrow().events.len());
        DROPS.with(|d| d.borrow_mut().clear());
        let r = self.op(op).unwrap_or_else(|| r#""invalid""#.to_string());
        if r == r#""invalid""# {
            self.broken = true;
        }
        if !look && !self.broken {
            return format!(r#"{{"op":{text},"r":{r}}}"#);
        }
        let mut freed: Vec<usize> = LOG.with(|l| l.borrow().events[ev0..].iter().filter(|e| e.k == "f").map(|e| e.n).collect());
        freed.sort();
        let mut drops = DROPS.with(|d| d.borrow().clone());
        drops.sort();
        let s = self.snapshot();
        format!(r#"{{"op":{text},"r":{r},{s},"free":{},"drop":{}}}"#, arr(freed), arr(drops))
    }
}

// --- operations ---

#[derive(Clone, Debug)]
enum Src {
    Val(i64),
    Slot(usize),
}

#[derive(Clone, Debug)]
enum Op {
    New(usize, String, Vec<Src>),
    ToRef(usize),
    TryMut(usize),
    ToAny(usize),
    Cast(usize, String),
    Look(usize),
    Visit(usize),
    Clone(usize, usize),
    Assign(usize, usize),
    Get(usize, usize, usize),
    Put(usize, usize, Src),
    Write(usize, usize, i64),
    Drop(usize),
    Each(usize, usize),
    Eq(usize, usize),
}

fn src_json(x: &Src) -> String {
    match x {
        Src::Val(v) => format!(r#"{{"v":{v}}}"#),
        Src::Slot(s) => format!(r#"{{"s":{s}}}"#),
    }
}

fn src(j: &J) -> Src {
    match j.find("s") {
        Some(s) => Src::Slot(s.int() as usize),
        None => Src::Val(j.get("v").int()),
    }
}

impl Op {
    fn json(&self) -> String {
        match self {
            Op::New(d, k, xs) => format!(
                r#"{{"op":"new","a":{d},"k":"{k}","xs":[{}]}}"#,
                xs.iter().map(src_json).collect::<Vec<_>>().join(",")
            ),
            Op::ToRef(a) => format!(r#"{{"op":"toref","a":{a}}}"#),
            Op::TryMut(a) => format!(r#"{{"op":"trymut","a":{a}}}"#),
            Op::ToAny(a) => format!(r#"{{"op":"toany","a":{a}}}"#),
            Op::Cast(a, k) => format!(r#"{{"op":"cast","a":{a},"k":"{k}"}}"#),
            Op::Look(a) => format!(r#"{{"op":"look","a":{a}}}"#),
            Op::Visit(a) => format!(r#"{{"op":"visit","a":{a}}}"#),
            Op::Clone(a, b) => format!(r#"{{"op":"clone","a":{a},"b":{b}}}"#),
            Op::Assign(a, b) => format!(r#"{{"op":"assign","a":{a},"b":{b}}}"#),
            Op::Get(a, i, b) => format!(r#"{{"op":"get","a":{a},"i":{i},"b":{b}}}"#),
            Op::Put(a, i, x) => format!(r#"{{"op":"put","a":{a},"i":{i},"x":{}}}"#, src_json(x)),
            Op::Write(a, i, v) => format!(r#"{{"op":"write","a":{a},"i":{i},"v":{v}}}"#),
            Op::Drop(a) => format!(r#"{{"op":"drop","a":{a}}}"#),
            Op::Each(a, j) => format!(r#"{{"op":"each","a":{a},"j":{j}}}"#),
            Op::Eq(a, b) => format!(r#"{{"op":"eq","a":{a},"b":{b}}}"#),
        }
    }
    fn from(j: &J) -> Op {
        let n = |f: &str| j.get(f).int() as usize;
        match j.get("op").str() {
            "new" => Op::New(n("a"), j.get("k").str().to_string(), j.get("xs").arr().iter().map(src).collect()),
            "toref" => Op::ToRef(n("a")),
            "trymut" => Op::TryMut(n("a")),
            "toany" => Op::ToAny(n("a")),
            "cast" => Op::Cast(n("a"), j.get("k").str().to_string()),
            "look" => Op::Look(n("a")),
            "visit" => Op::Visit(n("a")),
            "clone" => Op::Clone(n("a"), n("b")),
            "assign" => Op::Assign(n("a"), n("b")),
            "get" => Op::Get(n("a"), n("i"), n("b")),
            "put" => Op::Put(n("a"), n("i"), src(j.get("x"))),
            "write" => Op::Write(n("a"), n("i"), j.get("v").int()),
            "drop" => Op::Drop(n("a")),
            "each" => Op::Each(n("a"), n("j")),
            _ => Op::Eq(n("a"), n("b")),
        }
    }
}

// --- cases ---

#[derive(Clone)]
struct Case {
    local: bool,
    slots: usize,
    ops: Vec<Op>,
    /// If not 0, `steps` random operations follow.
    seed: u64,
    steps: usize,
}

fn random_op<M: Kind>(w: &World<M>, r: &mut Rng) -> Option<Op> {
    let n = w.slots.len();
    let a = 1 + r.below(n);
    let free = |s: usize| matches!(w.slots[s - 1], H::None);
    let gaps: Vec<usize> = (1..=n).filter(|&s| free(s)).collect();
    if free(a) && gaps.len() <= n / 2 && r.below(4) > 0 {
        return None;
    }
    let b = if gaps.is_empty() || r.below(3) == 0 { 1 + r.below(n) } else { *r.one_of(&gaps) };
    let val = |r: &mut Rng| r.range(-3, 40);
    let anys: Vec<usize> = (1..=n).filter(|&s| matches!(w.slots[s - 1], H::Any(_))).collect();
    let strs: Vec<usize> = (1..=n).filter(|&s| matches!(w.slots[s - 1], H::RStr(_))).collect();
    let len = match &w.slots[a - 1] {
        H::Fix(_) => 1,
        H::MVec(o) => o.items().len(),
        H::MStr(o) => o.items().len(),
        H::MBig(o) => o.items().len(),
        H::MArr(o) => o.items().len(),
        H::RArr(o) => o.items().len(),
        H::MObj(o) => 2 * o.items().len(),
        H::RObj(o) => 2 * o.items().len(),
        H::Any(x) => match (x.try_ref::<JsArray<W<M>>>(), x.try_ref::<JsObject<W<M>>>()) {
            (Ok(o), _) => o.object().items().len(),
            (_, Ok(o)) => 2 * o.object().items().len(),
            _ => 0,
        },
        _ => 0,
    };
    if free(a) {
        let k = *r.one_of(&["fix", "vec", "str", "str", "big", "arr", "arr", "arr", "obj", "obj", "obj"]);
        let count = if k == "fix" { 1 } else { [0, 1, 1, 2, 3, 4, 9][r.below(7)] };
        let mut used = vec![];
        let mut pick = |r: &mut Rng, from: &[usize]| {
            let c: Vec<usize> = from.iter().copied().filter(|s| !used.contains(s)).collect();
            let s = *r.one_of(if c.is_empty() { &[0][..] } else { &c });
            used.push(s);
            s
        };
        let mut xs = vec![];
        for _ in 0..count {
            match k {
                "arr" | "obj" => {
                    if k == "obj" {
                        match pick(r, &strs) {
                            0 => break,
                            s => xs.push(Src::Slot(s)),
                        }
                    }
                    let s = if r.bool() { pick(r, &anys) } else { 0 };
                    xs.push(if s == 0 { Src::Val(val(r)) } else { Src::Slot(s) });
                }
                _ => xs.push(Src::Val(r.range(0, 40))),
            }
        }
        return Some(Op::New(a, k.to_string(), xs));
    }
    let source = |r: &mut Rng| match anys.iter().find(|&&s| s != a && r.bool()) {
        Some(&s) => Src::Slot(s),
        None => Src::Val(val(r)),
    };
    let types = ["num", "bool", "str", "null", "obj", "arr", "big"];
    let is_mut = match &w.slots[a - 1] {
        H::Fix(f) => f.is_mut(),
        H::MVec(_) | H::MStr(_) | H::MBig(_) | H::MArr(_) | H::MObj(_) => true,
        _ => false,
    };
    let is_any = matches!(w.slots[a - 1], H::Any(_));
    if r.below(7) == 0 {
        return Some(Op::Drop(a));
    }
    Some(if is_mut {
        match (&w.slots[a - 1], r.below(3)) {
            (_, 0) => Op::ToRef(a),
            (_, _) if len == 0 => Op::ToRef(a),
            (H::MArr(_), 1) => Op::Put(a, 1 + r.below(len), source(r)),
            (H::MObj(_), 1) => Op::Put(a, 2 * (1 + r.below(len / 2)), source(r)),
            (H::MArr(_) | H::MObj(_), _) if free(b) => Op::Get(a, 1 + r.below(len), b),
            (H::MArr(_) | H::MObj(_), _) => return None,
            _ => Op::Write(a, 1 + r.below(len), r.range(0, 40)),
        }
    } else if is_any {
        match r.below(9) {
            0 => Op::Look(a),
            1 => Op::Visit(a),
            2 => {
                let k = match r.below(3) {
                    0 => *r.one_of(&types),
                    _ => {
                        let H::Any(x) = &w.slots[a - 1] else { unreachable!() };
                        TYPES[x.get_type() as usize]
                    }
                };
                Op::Cast(a, k.to_string())
            }
            3 => Op::Each(a, r.below(4)),
            4 if matches!(w.slots[b - 1], H::Any(_)) => if a != b && r.bool() { Op::Assign(a, b) } else { Op::Eq(a, b) },
            5 | 6 if free(b) && len > 0 => Op::Get(a, 1 + r.below(len), b),
            _ if free(b) => Op::Clone(a, b),
            _ => return None,
        }
    } else {
        let js = !matches!(w.slots[a - 1], H::Fix(_) | H::RVec(_));
        match r.below(7) {
            0 => Op::TryMut(a),
            1 if std::mem::discriminant(&w.slots[a - 1]) == std::mem::discriminant(&w.slots[b - 1])
                && !matches!(w.slots[a - 1], H::Fix(_)) => if a != b && r.bool() { Op::Assign(a, b) } else { Op::Eq(a, b) },
            2 | 3 if js => Op::ToAny(a),
            4 if free(b) && len > 0 && js => Op::Get(a, 1 + r.below(len), b),
            _ if free(b) => Op::Clone(a, b),
            _ => Op::TryMut(a),
        }
    })
}

fn go<M: Kind>(c: &Case, m: Rec<M>) -> String {
    let mut w = World {
        m,
        slots: (0..c.slots).map(|_| H::None).collect(),
        broken: false,
        objs: BTreeMap::new(),
    };
    let mut out = vec![];
    for (i, o) in c.ops.iter().enumerate() {
        if w.broken {
            break;
        }
        // every beginning of a history is a history, too
        out.push(w.step(o, &o.json(), i + 1 == c.ops.len()));
    }
    let mut r = Rng::new(c.seed);
    let mut k = 0;
    while c.seed != 0 && k < c.steps && !w.broken {
        let Some(o) = random_op(&w, &mut r) else { continue };
        out.push(w.step(&o, &o.json(), true));
        k += 1;
    }
    // at the end everything goes
    for s in 1..=c.slots {
        if !w.broken && !matches!(w.slots[s - 1], H::None) {
            let o = Op::Drop(s);
            out.push(w.step(&o, &o.json(), true));
        }
    }
    if w.broken {
        std::mem::forget(w);
    }
    format!(r#""steps":[{}]"#, out.join(","))
}

fn exec(c: &Case) -> String {
    let (s, e) = if c.local {
        recorded::<&'static Local, _>(|m| go(c, m))
    } else {
        recorded::<Global, _>(|m| go(c, m))
    };
    format!("{s},{e}")
}

fn generated(a: &Args) -> Vec<Case> {
    let lines = read_lines(&a.input);
    let every = 1 + lines.len() / if a.thorough { 400_000 } else { 20_000 };
    lines
        .iter()
        .enumerate()
        .filter(|(i, _)| (i + a.seed as usize) % every == 0)
        .map(|(i, l)| {
            let j = json::parse(l);
            Case {
                local: i % 2 == 0,
                slots: j.get("slots").int() as usize,
                ops: j.get("ops").arr().iter().map(Op::from).collect(),
                seed: 0,
                steps: 0,
            }
        })
        .collect()
}

fn walks(a: &Args) -> Vec<Case> {
    let mut r = Rng::new(a.seed ^ 20);
    (0..if a.thorough { 12_000 } else { 900 })
        .map(|i| Case {
            local: i % 2 == 0,
            slots: 2 + r.below(6),
            ops: vec![],
            seed: r.next() | 1,
            steps: [20, 40, 60][r.below(3)],
        })
        .collect()
}

fn main() {
    let a = args();
    let cases = match a.mode.as_str() {
        "ops" => generated(&a),
        "walks" => walks(&a),
        _ => panic!(),
    };
    drive(&a, cases, |c| format!(r#""slots":{}"#, c.slots), exec);
}
