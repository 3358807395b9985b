//! C14, C15: memory and other owners.

use super::*;
use crate::alloc::{self, tracked};
use crate::corrupt;
use crate::ctx::{count, describe, event, nontrivial, C};
use crate::io::{
    consume, Delivery, FailAt, Fault, HookedSlice, SimReader, SimWriter, Source, SourceKind, What, FAULTS, SIM_PANIC,
};
use crate::model::hex;
use crate::types::*;
use crate::{ensure, fail};
use compact_thrift_runtime::{CompactThriftInputSlice, CompactThriftProtocol, ThriftError};
use std::borrow::Cow;
use std::cell::RefCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;

/// run code under test whose stream may panic; other panics go on
fn survive<T>(f: impl FnOnce() -> T) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Some(x),
        Err(e) if e.downcast_ref::<&str>() == Some(&SIM_PANIC) => None,
        Err(e) => resume_unwind(e),
    }
}

fn draw_fault(t: &mut Tape) -> Fault {
    match t.weighted(&[2, 2, 2]) {
        0 => Fault::Zero,
        1 => Fault::Panic,
        _ => *t.pick(FAULTS),
    }
}

pub fn c14(t: &mut Tape) -> Check {
    match t.weighted(&[5, 2, 6]) {
        0 => read_balance(t),
        1 => write_balance(t),
        _ => retry(t),
    }
}

fn balanced(what: impl Fn() -> String) -> Check {
    let m = alloc::report();
    ensure!(m.live_count == 0 && m.live_bytes == 0, "leak", "{}: {} allocations ({} bytes) are not released", what(), m.live_count, m.live_bytes);
    Ok(())
}

/// every allocation made by a read is released when its result is gone
fn read_balance(t: &mut Tape) -> Check {
    let (ops, v) = case(t);
    let d = (ops.desc)();
    let mut w = model::to_wire(d, &v);
    if t.chance(1, 3) {
        add_unknown(t, d, &mut w, 2);
    }
    // repeated, lost and retyped fields: errors in the middle of filled values
    if t.chance(1, 2) {
        let mut structs = 0;
        visit(d, &mut w, &mut |_, w| structs += matches!(w, W::Struct(s) if !s.fields.is_empty()) as usize);
        if structs > 0 {
            let target = t.idx(structs);
            let style = t.below(3);
            let place = t.below(1 << 16) as usize;
            let mut k = 0;
            visit(d, &mut w, &mut |_, w| {
                if let W::Struct(s) = w {
                    if s.fields.is_empty() {
                        return;
                    }
                    if k == target {
                        let i = place % s.fields.len();
                        match style {
                            0 => {
                                count(C::FieldDup);
                                let f = s.fields[i].clone();
                                s.fields.push(f);
                            }
                            1 => {
                                count(C::FieldLost);
                                s.fields.remove(i);
                            }
                            _ => {
                                count(C::FieldRetype);
                                s.fields[i].1 = W::F64(1);
                            }
                        }
                    }
                    k += 1;
                }
            });
        }
    }
    let mut bytes = encoded(&w, &mut Alt::canonical());
    if t.chance(1, 4) {
        corrupt::corrupt_some(t, &mut bytes);
    }
    let name = ops.name;
    for at in cut_points(t, bytes.len(), 24, 6) {
        let style = t.weighted(&[2, 2, 3, 1]);
        let mut src;
        let mut part = &bytes[..];
        match style {
            0 => {
                src = Source::memory();
                part = &bytes[..at];
            }
            1 => {
                src = Source::draw_stream(t, at);
                part = &bytes[..at];
            }
            2 => {
                src = Source { kind: SourceKind::Sim, delivery: Delivery::draw(t), fail: None };
                src.fail = Some(FailAt { at, fault: draw_fault(t), sticky: true });
            }
            _ => src = Source::draw(t, bytes.len()),
        }
        describe(|| format!("read {name} from {src:?} cut at {} of {}: {}", part.len(), bytes.len(), hex(&bytes)));
        alloc::reset();
        let r = survive(|| consume(What::Read(&ops), part, &src));
        if !r.as_ref().is_some_and(|o| o.result.is_ok()) {
            nontrivial();
        }
        let how = match &r {
            None => "abandoned".to_string(),
            Some(o) => o.err(),
        };
        drop(r);
        event(at as u64);
        balanced(|| format!("reading {name} from {src:?} ({how}); bytes {}", hex(part)))?;
        // skipping must not keep anything either
        if t.chance(1, 6) {
            alloc::reset();
            drop(survive(|| consume(What::Skip(ops.field_type), part, &src)));
            balanced(|| format!("skipping {name} from {src:?}; bytes {}", hex(part)))?;
        }
    }
    Ok(())
}

fn write_balance(t: &mut Tape) -> Check {
    let (ops, v) = case(t);
    let len = model::encode_canonical((ops.desc)(), &v).len();
    for at in cut_points(t, len, 24, 6) {
        let fault = draw_fault(t);
        let delivery = Delivery::draw(t);
        describe(|| format!("write {} failing with {fault:?} at {at} of {len}", ops.name));
        nontrivial();
        alloc::reset();
        {
            let mut w = SimWriter::new(delivery).failing(Some(FailAt { at, fault, sticky: true }));
            let _ = survive(|| (ops.write)(&v, &mut w));
        }
        event(at as u64);
        balanced(|| format!("writing {} failing with {fault:?} at {at} of {len}", ops.name))?;
    }
    Ok(())
}

fn valid_text(d: Desc, v: &Value) -> bool {
    match (d, v) {
        (Desc::Str, Value::Bytes(b)) => std::str::from_utf8(b).is_ok(),
        (Desc::List(e), Value::List(l)) => l.iter().all(|v| valid_text(e(), v)),
        (Desc::Struct(s), Value::Struct(f)) => {
            s().fields.iter().zip(f).all(|(fd, v)| v.as_ref().is_none_or(|v| valid_text((fd.desc)(), v)))
        }
        (Desc::Struct(s), Value::Union(i, v)) => valid_text((s().fields[*i].desc)(), v),
        _ => true,
    }
}

/// fill the same destination again and again
fn again<T: Model + for<'a> CompactThriftProtocol<'a>>(t: &mut Tape, name: &str) -> Check {
    again_with::<T>(t, name, |d, b, src| match src {
        Via::Stream(r) => tracked(|| {
            let mut r: &mut dyn std::io::Read = r;
            d.fill_thrift(&mut r)
        }),
        Via::Memory => tracked(|| d.fill_thrift(&mut CompactThriftInputSlice::new(b))),
    })
}

enum Via<'a, 'b> {
    Stream(&'a mut SimReader<'b>),
    Memory,
}

fn again_with<T: Model>(t: &mut Tape, name: &str, fill: impl Fn(&mut T, &[u8], Via) -> Result<(), ThriftError>) -> Check {
    let d = T::desc();
    let sz = Sizes { nodes: *t.pick(&[12, 60]), long_list: *t.pick(&[0, 1]), long_bin: *t.pick(&[0, 1]), opt: 2, huge: false, palette: Sizes::draw_palette(t, 3), medium: *t.pick(&[0, 0, 1]) };
    alloc::reset();
    let mut log = Vec::new();
    // memory sources of all attempts outlive the destination
    let mut dest: T = {
        let before = model::gen(t, d, &sz);
        log.push(format!("destination holds {}", before.brief()));
        tracked(|| T::from_value(&before))
    };
    let rounds = 1 + t.below(3);
    let roomy = t.chance(1, 3);
    for _ in 0..rounds {
        if roomy {
            // unused capacity is not part of the value
            let extra = *t.pick(&[1, 8, 40, 300]);
            tracked(|| dest.loosen(extra));
            log.push(format!("room for {extra} more"));
        }
        let v = model::gen(t, d, &sz);
        let bytes = model::encode_canonical(d, &v);
        // failures
        for _ in 0..t.below(4) {
            nontrivial();
            let style = t.weighted(&[3, 2, 1]);
            let how;
            let r;
            match style {
                0 if !bytes.is_empty() => {
                    let fail = FailAt { at: t.idx(bytes.len()), fault: draw_fault(t), sticky: true };
                    let delivery = Delivery::draw(t);
                    how = format!("stream failing with {:?} at {} of {}", fail.fault, fail.at, bytes.len());
                    let mut s = SimReader::new(&bytes, delivery).failing(Some(fail));
                    r = survive(|| fill(&mut dest, &bytes, Via::Stream(&mut s)));
                }
                1 => {
                    let mut b = bytes.clone();
                    corrupt::corrupt_some(t, &mut b);
                    how = format!("corrupted bytes {}", hex(&b));
                    let memory = t.chance(1, 2);
                    let mut s = SimReader::new(&b, Delivery::smooth());
                    r = survive(|| fill(&mut dest, &b, if memory { Via::Memory } else { Via::Stream(&mut s) }));
                }
                _ => {
                    let cut = t.idx(bytes.len().max(1)).min(bytes.len());
                    how = format!("memory cut at {cut} of {}", bytes.len());
                    r = survive(|| fill(&mut dest, &bytes[..cut], Via::Memory));
                }
            }
            log.push(format!("{how}: {r:?}"));
            // whatever it holds now, it must be a value
            let held = dest.to_value();
            ensure!(valid_text(d, &held), "invalid-destination", "{name} holds text that is not UTF-8 after {log:?}");
        }
        // and then the complete message
        count(C::Retry);
        let memory = t.chance(1, 2);
        let delivery = Delivery::draw(t);
        let mut s = SimReader::new(&bytes, delivery);
        let r = fill(&mut dest, &bytes, if memory { Via::Memory } else { Via::Stream(&mut s) });
        describe(|| format!("{name}: {log:?}, then {}", hex(&bytes)));
        event(bytes.len() as u64);
        match r {
            Err(e) => fail!("retry-failed", "{name}: {e:?} for {} after {log:?}", hex(&bytes)),
            Ok(()) => {
                let x = dest.to_value();
                ensure!(x == v, "retry-differs", "{name}: {} instead of {} after {log:?}; bytes {}", x.brief(), v.brief(), hex(&bytes));
            }
        }
        log.push(format!("complete {}", v.brief()));
    }
    tracked(|| drop(dest));
    balanced(|| format!("{name} after {log:?}"))
}

fn retry(t: &mut Tape) -> Check {
    type F = fn(&mut Tape, &str) -> Check;
    macro_rules! kinds {
        ($($ty:ty),* $(,)?) => { &[$((stringify!($ty), again::<$ty> as F)),*] };
    }
    let kinds: &[(&str, F)] = kinds![
        Vec<i64>, Vec<bool>, Vec<i8>, Vec<i16>, Vec<i32>, Vec<f64>, Vec<String>, Vec<Vec<u8>>, Vec<Color>, Vec<Scalars>,
        Vec<Choice>, Vec<Nested>, Vec<Pointers>, Vec<Shared>, Vec<Mixed>, Vec<Tree>, Matrix, Vec<Matrix>, Vec<Arc<str>>,
        Vec<Rc<str>>, Vec<Box<str>>, Vec<Rc<Req>>, Vec<Box<i64>>, Vec<Empty>, Vec<pq::RowGroup>, Vec<pq::SchemaElement>,
        String, Vec<u8>, Box<str>, Rc<str>, Arc<str>, Box<String>, Box<Vec<i64>>, Box<Vec<u8>>, pq::EncodingSet,
    ];
    let n = kinds.len();
    let i = t.idx(n + 2);
    if i < n {
        return kinds[i].1(t, kinds[i].0);
    }
    if i == n {
        again_with::<Cow<'static, str>>(t, "Cow<str>", |d, b, via| match via {
            Via::Stream(r) => tracked(|| {
                let mut r: &mut dyn std::io::Read = r;
                d.fill_thrift(&mut r)
            }),
            Via::Memory => tracked(|| {
                // borrows from the bytes, so it is made independent before they go
                let mut c: Cow<'_, str> = Cow::Borrowed("before");
                c.fill_thrift(&mut CompactThriftInputSlice::new(b))?;
                *d = Cow::Owned(c.into_owned());
                Ok(())
            }),
        })
    } else {
        again_with::<Cow<'static, [u8]>>(t, "Cow<[u8]>", |d, b, via| match via {
            Via::Stream(r) => tracked(|| {
                let mut r: &mut dyn std::io::Read = r;
                d.fill_thrift(&mut r)
            }),
            Via::Memory => tracked(|| {
                let mut c: Cow<'_, [u8]> = Cow::Borrowed(b"before");
                c.fill_thrift(&mut CompactThriftInputSlice::new(b))?;
                *d = Cow::Owned(c.into_owned());
                Ok(())
            }),
        })
    }
}

// ---------------------------------------------------------------------------------------
// C15

type View = Box<dyn Fn() -> Option<Value>>;

/// a reference-counted part of a destination
struct Part {
    name: String,
    /// 0 if it has no storage of its own
    addr: usize,
    strong: View,
    weak: View,
}

trait Parts: Model {
    fn parts(&self, name: &str, out: &mut Vec<Part>);
}
macro_rules! no_parts {
    ($($t:ty),*) => { $(impl Parts for $t { fn parts(&self, _: &str, _: &mut Vec<Part>) {} })* };
}
no_parts!(bool, i32, i64, f64, u8Bin, String, Scalars, Choice, Inner);
#[allow(non_camel_case_types)]
type u8Bin = Vec<u8>;
macro_rules! text_parts {
    ($($k:ident),*) => { $(
        impl Parts for $k<str> {
            fn parts(&self, name: &str, out: &mut Vec<Part>) {
                let p = self.clone();
                let w = $k::downgrade(&p);
                out.push(Part {
                    name: format!("{name}:{}<str>", stringify!($k)),
                    // empty text may live in shared static storage
                    addr: if p.is_empty() { 0 } else { $k::as_ptr(&p) as *const u8 as usize },
                    weak: Box::new(move || w.upgrade().map(|p| p.to_value())),
                    strong: Box::new(move || Some(p.to_value())),
                });
            }
        }
        impl<T: Parts + 'static> Parts for $k<T> {
            fn parts(&self, name: &str, out: &mut Vec<Part>) {
                let p = self.clone();
                let w = $k::downgrade(&p);
                out.push(Part {
                    name: format!("{name}:{}", stringify!($k)),
                    addr: $k::as_ptr(&p) as usize,
                    weak: Box::new(move || w.upgrade().map(|p| p.to_value())),
                    strong: Box::new(move || Some(p.to_value())),
                });
                T::parts(self, name, out);
            }
        }
    )* };
}
text_parts!(Rc, Arc);
impl<T: Parts> Parts for Box<T> {
    fn parts(&self, name: &str, out: &mut Vec<Part>) {
        T::parts(self, name, out);
    }
}
impl<T: Parts> Parts for Vec<T>
where
    Vec<T>: Model,
{
    fn parts(&self, name: &str, out: &mut Vec<Part>) {
        for (i, x) in self.iter().enumerate().take(4) {
            x.parts(&format!("{name}[{i}]"), out);
        }
    }
}
impl Parts for Req {
    fn parts(&self, name: &str, out: &mut Vec<Part>) {
        self.d.parts(&format!("{name}.d"), out);
    }
}
impl Parts for Shared {
    fn parts(&self, name: &str, out: &mut Vec<Part>) {
        macro_rules! each {
            ($($f:ident)*) => { $(self.$f.parts(&format!("{name}.{}", stringify!($f)), out);)* };
        }
        each!(rc_str arc_str rc_string arc_list rc_struct arc_matrix arc_flag rc_binary boxed texts arc_int rc_double structs arc_union);
    }
}

struct Owner {
    name: String,
    addr: usize,
    see: View,
    want: Value,
    weak: bool,
    release_at: u64,
}

pub fn c15(t: &mut Tape) -> Check {
    type F = fn(&mut Tape, &str) -> Check;
    macro_rules! kinds {
        ($($ty:ty),* $(,)?) => { &[$((stringify!($ty), shared::<$ty> as F)),*] };
    }
    let kinds: &[(&str, F)] = kinds![
        Shared, Rc<str>, Arc<str>, Rc<String>, Arc<String>, Rc<Vec<i64>>, Arc<Vec<i64>>, Arc<Matrix>, Rc<Req>, Arc<Req>,
        Arc<Shared>, Rc<Shared>, Vec<Arc<str>>, Vec<Rc<str>>, Vec<Rc<Req>>, Rc<Vec<Rc<Req>>>, Rc<Vec<u8>>, Arc<bool>, Rc<i64>,
        Rc<f64>, Arc<Choice>, Rc<Scalars>, Arc<Scalars>, Req, Box<Shared>, Rc<Arc<String>>, Arc<Vec<bool>>, Rc<Vec<String>>,
        Shared, Shared,
    ];
    let (name, f) = *t.pick(kinds);
    f(t, name)
}

fn shared<T>(t: &mut Tape, name: &str) -> Check
where
    T: Parts + Clone + Default + for<'a> CompactThriftProtocol<'a> + 'static,
{
    let d = T::desc();
    let sz = Sizes { nodes: 12, long_list: 0, long_bin: 0, opt: 2, huge: false, palette: Sizes::draw_palette(t, 3), medium: 0 };
    let before = model::gen(t, d, &sz);
    let v = if t.chance(1, 8) { before.clone() } else { model::gen(t, d, &sz) };
    let mut w = model::to_wire(d, &v);
    if t.chance(1, 3) {
        add_unknown(t, d, &mut w, 2);
    }
    let bytes = encoded(&w, &mut Alt::canonical());
    alloc::reset();
    let mut dest: T = tracked(|| T::from_value(&before));
    if t.chance(1, 4) {
        let extra = *t.pick(&[1, 8, 40]);
        tracked(|| dest.loosen(extra));
    }
    let mut owners: Vec<Owner> = Vec::new();
    let calls_estimate = bytes.len() as u64 + 2;
    let release = |t: &mut Tape| if t.chance(1, 3) { 1 + t.below(calls_estimate) } else { u64::MAX };
    {
        let mut parts = Vec::new();
        dest.parts(name, &mut parts);
        // one kind of sharing everywhere, or few owners
        let rate = *t.pick(&[1, 4, 10]);
        for p in parts {
            if !t.chance(rate, 12) {
                continue;
            }
            let style = t.below(3);
            let want = (p.strong)().expect("harness: strong view");
            let Part { name, addr, strong, weak } = p;
            if style != 1 {
                let release_at = release(t);
                owners.push(Owner { name: name.clone(), addr, see: strong, want: want.clone(), weak: false, release_at });
            }
            if style != 0 {
                let release_at = release(t);
                owners.push(Owner { name, addr, see: weak, want, weak: true, release_at });
            }
        }
        if t.chance(1, 8) {
            // a copy of the whole destination
            let copy = dest.clone();
            let want = copy.to_value();
            let release_at = release(t);
            owners.push(Owner {
                name: format!("copy of {name}"),
                addr: 0,
                see: Box::new(move || Some(copy.to_value())),
                want,
                weak: false,
                release_at,
            });
        }
    }
    let sharing = !owners.is_empty();
    if sharing {
        nontrivial();
        count(C::SharedHit);
    } else {
        count(C::SharedFree);
    }
    let names: Vec<String> = owners.iter().map(|o| format!("{}{}", o.name, if o.weak { " weakly" } else { "" })).collect();
    let fail = (t.chance(2, 5) && !bytes.is_empty()).then(|| FailAt { at: t.idx(bytes.len()), fault: draw_fault(t), sticky: true });
    let memory = t.chance(1, 3);
    let delivery = Delivery::draw(t);
    describe(|| {
        format!(
            "{name} holding {} with other owners {names:?} filled from {} (failing {fail:?}) with {}",
            before.brief(),
            if memory { "memory" } else { "a stream" },
            hex(&bytes)
        )
    });
    let owners = RefCell::new(owners);
    let seen: RefCell<Option<String>> = RefCell::new(None);
    let look = |when: &str| {
        for o in owners.borrow().iter() {
            let bad = match (o.see)() {
                Some(x) if x == o.want => None,
                Some(x) => Some(x.brief()),
                None if o.weak => None,
                None => Some("nothing".into()),
            };
            if let Some(x) = bad {
                seen.borrow_mut().get_or_insert_with(|| {
                    format!(
                        "{when}, the {} owner of {} sees {x} instead of {}; message {}",
                        if o.weak { "weak" } else { "strong" },
                        o.name,
                        o.want.brief(),
                        hex(&bytes)
                    )
                });
            }
        }
    };
    let mut calls = 0;
    let mut hook = || {
        calls += 1;
        let n = calls;
        look("during the read");
        let before = owners.borrow().len();
        owners.borrow_mut().retain(|o| o.release_at > n);
        for _ in owners.borrow().len()..before {
            count(C::OwnerDrop);
            ctx::trace(|| format!("call {n}: an owner lets go"));
        }
    };
    let r = survive(|| {
        if memory {
            let part = fail.map_or(&bytes[..], |f| &bytes[..f.at]);
            let mut i = HookedSlice { inner: CompactThriftInputSlice::new(part), hook: &mut hook };
            tracked(|| dest.fill_thrift(&mut i))
        } else {
            let mut s = SimReader::new(&bytes, delivery.clone()).failing(fail).hooked(&mut hook);
            let mut s: &mut dyn std::io::Read = &mut s;
            tracked(|| dest.fill_thrift(&mut s))
        }
    });
    look("after the read");
    event(matches!(r, Some(Ok(()))) as u64 * 2 + sharing as u64);
    if let Some(m) = seen.borrow_mut().take() {
        fail!("shared-data-changed", "{name} ({r:?}): {m}");
    }
    let now = dest.to_value();
    if let Some(Ok(())) = r {
        ensure!(fail.is_none(), "failure-swallowed", "{name}: success although the source fails with {fail:?}");
        ensure!(now == v, "wrong-value", "{name} with owners {names:?}: {} instead of {}; bytes {}", now.brief(), v.brief(), hex(&bytes));
        let mut parts = Vec::new();
        dest.parts(name, &mut parts);
        for p in &parts {
            if let Some(o) = owners.borrow().iter().find(|o| !o.weak && o.addr != 0 && o.addr == p.addr) {
                fail!("storage-shared", "{name}: after a successful read {} still shares its storage with the owner of {}", p.name, o.name);
            }
        }
        // what is done to the destination later must not reach the others either
        drop(parts);
        let mut s: &[u8] = &bytes;
        let r = tracked(|| dest.fill_thrift(&mut s));
        look("after the next read");
        let now = dest.to_value();
        ensure!(r.is_ok() && now == v, "wrong-value", "{name}: the next read gives {r:?} and {} instead of {}; bytes {}", now.brief(), v.brief(), hex(&bytes));
    }
    tracked(|| drop(dest));
    look("after the destination is gone");
    if let Some(m) = seen.borrow_mut().take() {
        fail!("shared-data-changed", "{name} ({r:?}): {m}");
    }

    Ok(())
}
