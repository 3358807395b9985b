//! C09, C10: schema evolution and damaged field sequences.

use super::*;
use crate::ctx::{count, describe, event, nontrivial, C};
use crate::io::{consume, Outcome, Source, What};
use crate::model::{decode, gen_type, gen_wire, hex, skip, FieldDesc};
use crate::{ensure, fail};
use compact_thrift_runtime::ThriftError;

fn tail(t: &mut Tape) -> Vec<u8> {
    let n = match t.weighted(&[2, 3, 1]) {
        0 => 0,
        1 => t.below(20) as usize,
        _ => t.range(15, 40) as usize,
    };
    let style = t.below(3);
    (0..n)
        .map(|_| match style {
            0 => 0,
            1 => 0x80 | t.below(128) as u8,
            _ => t.below(256) as u8,
        })
        .collect()
}

pub fn c09(t: &mut Tape) -> Check {
    if t.chance(1, 3) {
        return skip_whole(t);
    }
    let sz = Sizes::draw(t);
    let (ops, v) = struct_case(t, &sz);
    let d = (ops.desc)();
    let mut w = model::to_wire(d, &v);
    let known = w.clone();
    let added = add_unknown(t, d, &mut w, 6);
    let mut alt = if t.chance(1, 2) { Alt::draw(t) } else { Alt::canonical() };
    let mut bytes = encoded(&w, &mut alt);
    let len = bytes.len();
    let rest = tail(t);
    bytes.extend(&rest);
    if w != known {
        nontrivial();
    }
    if rest.len() < 16 {
        count(C::UnknownNearEnd);
    }
    let stream = Source::draw_stream(t, bytes.len());
    describe(|| format!("{} with {added} unknown fields, {} bytes behind it, memory and {stream:?}: {}", ops.name, rest.len(), hex(&bytes)));
    let r = decode(d, &bytes);
    ensure!(
        r.unspecified || r.result.as_ref().ok() == Some(&v) && r.consumed == len,
        "harness",
        "reference disagrees with the construction: {} {}",
        ops.name,
        hex(&bytes)
    );
    for s in [&Source::memory(), &stream] {
        let o = consume(What::Read(&ops), &bytes, s);
        event(o.consumed as u64);
        match &o.result {
            Ok(x) => {
                ensure!(*x == v, "value-changed", "{} from {s:?}: {} instead of {}; bytes {}", ops.name, x.brief(), v.brief(), hex(&bytes));
                ensure!(o.consumed == len, "wrong-position", "{} from {s:?}: {} of {len} bytes consumed; bytes {}", ops.name, o.consumed, hex(&bytes));
            }
            Err(e) => fail!("unknown-field-rejected", "{} from {s:?}: {e:?}; bytes {}", ops.name, hex(&bytes)),
        }
    }
    Ok(())
}

fn skip_whole(t: &mut Tape) -> Check {
    let (ty, w) = if t.chance(1, 2) {
        let (ops, v) = case(t);
        (ops.field_type, model::to_wire((ops.desc)(), &v))
    } else {
        let ty = gen_type(t, 0);
        (ty, gen_wire(t, ty, 0))
    };
    if ty <= 2 {
        // outside of a collection the value is in the field header
        let bytes = tail(t);
        for s in [Source::memory(), Source::draw_stream(t, bytes.len())] {
            let o = consume(What::Skip(ty), &bytes, &s);
            ensure!(o.result.is_ok() && o.consumed == 0, "wrong-position", "skipping a boolean from {s:?}: {}", o.brief());
        }
        return Ok(());
    }
    let mut alt = if t.chance(1, 2) { Alt::draw(t) } else { Alt::canonical() };
    let mut bytes = encoded(&w, &mut alt);
    let len = bytes.len();
    let rest = tail(t);
    bytes.extend(&rest);
    if len > 2 {
        nontrivial();
    }
    let stream = Source::draw_stream(t, bytes.len());
    describe(|| format!("skip wire type {ty}, {} bytes behind it, memory and {stream:?}: {}", rest.len(), hex(&bytes)));
    let r = skip(ty, &bytes);
    ensure!(r.unspecified || r.result.is_ok() && r.consumed == len, "harness", "reference skip of {ty}: {}", hex(&bytes));
    for s in [&Source::memory(), &stream] {
        let o = consume(What::Skip(ty), &bytes, s);
        event(o.consumed as u64);
        match &o.result {
            Ok(_) => ensure!(
                o.consumed == len,
                "wrong-position",
                "skipping wire type {ty} from {s:?}: {} of {len} bytes consumed; bytes {}",
                o.consumed,
                hex(&bytes)
            ),
            Err(e) => fail!("skip-rejected", "skipping wire type {ty} from {s:?}: {e:?}; bytes {}", hex(&bytes)),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum Damage {
    Reorder,
    LoseOptional,
    LoseRequired,
    RepeatOptional,
    RepeatRequired,
    Retype,
    RetypeElement,
    UnionEmpty,
    UnionUnknown,
    UnionTwo,
    UnionNoStop,
    UnionRetype,
}

fn other_type(t: &mut Tape, d: Desc) -> u8 {
    loop {
        let ty = *t.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]);
        if ty != d.wire_type() && !(ty <= 2 && d.wire_type() == 2) {
            return ty;
        }
    }
}

/// a value of another wire type; types above 12 have no encoding, only a header
fn other_value(t: &mut Tape, d: Desc) -> W {
    let ty = other_type(t, d);
    if ty > 12 {
        W::Int(ty, t.below(200) as i64)
    } else {
        gen_wire(t, ty, 2)
    }
}

fn apply(t: &mut Tape, dmg: Damage, d: Desc, w: &mut W) -> bool {
    match (d, w) {
        (Desc::Struct(s), W::Struct(ws)) => {
            let s = s();
            let lookup = |id: i16| -> Option<&FieldDesc> { s.fields.iter().find(|f| f.id == id) };
            let pick = |t: &mut Tape, ws: &WStruct, want: &dyn Fn(&FieldDesc) -> bool| -> Option<usize> {
                let c: Vec<usize> =
                    (0..ws.fields.len()).filter(|i| lookup(ws.fields[*i].0).is_some_and(want)).collect();
                if c.is_empty() {
                    None
                } else {
                    Some(c[t.idx(c.len())])
                }
            };
            if s.union {
                match dmg {
                    Damage::UnionEmpty => ws.fields.clear(),
                    Damage::UnionUnknown => {
                        let mut id = t.range(1, 70) as i16;
                        while lookup(id).is_some() {
                            id += 1;
                        }
                        if ws.fields.is_empty() || t.chance(1, 2) {
                            let ty = gen_type(t, 2);
                            ws.fields = vec![(id, gen_wire(t, ty, 2))];
                        } else {
                            ws.fields[0].0 = id;
                        }
                    }
                    Damage::UnionTwo => {
                        let f = &s.fields[t.idx(s.fields.len())];
                        let v = model::gen(t, (f.desc)(), &Sizes::small());
                        let x = (f.id, model::to_wire((f.desc)(), &v));
                        let at = t.idx(ws.fields.len() + 1);
                        ws.fields.insert(at, x);
                    }
                    Damage::UnionNoStop => ws.no_stop = true,
                    Damage::UnionRetype => {
                        let Some(i) = pick(t, ws, &|_| true) else { return false };
                        let fd = (lookup(ws.fields[i].0).unwrap().desc)();
                        ws.fields[i].1 = other_value(t, fd);
                    }
                    _ => return false,
                }
                return true;
            }
            match dmg {
                Damage::Reorder => {
                    if ws.fields.len() < 2 {
                        return false;
                    }
                    shuffle(t, ws);
                }
                Damage::LoseOptional => {
                    let Some(i) = pick(t, ws, &|f| !f.required) else { return false };
                    ws.fields.remove(i);
                }
                Damage::LoseRequired => {
                    let Some(i) = pick(t, ws, &|f| f.required) else { return false };
                    ws.fields.remove(i);
                }
                Damage::RepeatOptional | Damage::RepeatRequired => {
                    let Some(i) = pick(t, ws, &|f| f.required == (dmg == Damage::RepeatRequired)) else { return false };
                    let mut x = ws.fields[i].clone();
                    if t.chance(1, 2) {
                        let fd = (lookup(x.0).unwrap().desc)();
                        let v = model::gen(t, fd, &Sizes::small());
                        x.1 = model::to_wire(fd, &v);
                    }
                    let at = i + 1 + t.idx(ws.fields.len() - i);
                    ws.fields.insert(at, x);
                }
                Damage::Retype => {
                    let Some(i) = pick(t, ws, &|_| true) else { return false };
                    let fd = (lookup(ws.fields[i].0).unwrap().desc)();
                    ws.fields[i].1 = other_value(t, fd);
                }
                _ => return false,
            }
            true
        }
        (Desc::List(e) | Desc::Set(e), W::List { elem, items, .. }) if dmg == Damage::RetypeElement => {
            *elem = other_type(t, e());
            if t.chance(1, 2) && *elem <= 12 {
                let ty = *elem;
                let n = items.len().min(4);
                *items = (0..n).map(|_| gen_wire(t, ty, 3)).collect();
            }
            true
        }
        (Desc::EncSet, W::List { elem, .. }) if dmg == Damage::RetypeElement => {
            *elem = other_type(t, Desc::I32);
            true
        }
        _ => false,
    }
}

fn fits(dmg: Damage, d: Desc) -> bool {
    match d {
        Desc::Struct(s) => {
            let u = s().union;
            match dmg {
                Damage::UnionEmpty | Damage::UnionUnknown | Damage::UnionTwo | Damage::UnionNoStop | Damage::UnionRetype => u,
                Damage::RetypeElement => false,
                _ => !u,
            }
        }
        Desc::List(_) | Desc::Set(_) | Desc::EncSet => dmg == Damage::RetypeElement,
        _ => false,
    }
}

pub fn c10(t: &mut Tape) -> Check {
    let sz = Sizes::draw(t);
    let (ops, v) = struct_case(t, &sz);
    let d = (ops.desc)();
    let mut w = model::to_wire(d, &v);
    let mut done = Vec::new();
    let mut hard = 0;
    let mut tries = 1 + t.below(4);
    if t.chance(1, 2) {
        tries = 1;
    }
    for _ in 0..tries {
        let dmg = *t.pick(&[
            Damage::Reorder,
            Damage::LoseOptional,
            Damage::LoseRequired,
            Damage::RepeatOptional,
            Damage::Retype,
            Damage::RetypeElement,
            Damage::UnionEmpty,
            Damage::UnionUnknown,
            Damage::UnionTwo,
            Damage::UnionNoStop,
            Damage::UnionRetype,
            Damage::RepeatRequired,
            Damage::Reorder,
            Damage::LoseOptional,
            Damage::LoseRequired,
            Damage::RepeatOptional,
            Damage::Retype,
        ]);
        let is_hard = !matches!(dmg, Damage::Reorder | Damage::LoseOptional);
        if is_hard && hard >= 1 && !t.chance(1, 4) {
            continue;
        }
        let mut n = 0;
        visit(d, &mut w, &mut |d, _| n += fits(dmg, d) as usize);
        if n == 0 {
            continue;
        }
        let which = if t.chance(1, 3) { 0 } else { t.idx(n) };
        let mut k = 0;
        let mut hit = false;
        let mut tt = Some(&mut *t);
        visit(d, &mut w, &mut |d, w| {
            if fits(dmg, d) {
                if k == which {
                    if let Some(t) = tt.take() {
                        hit = apply(t, dmg, d, w);
                    }
                }
                k += 1;
            }
        });
        if hit {
            done.push(dmg);
            hard += is_hard as u32;
            count(match dmg {
                Damage::Reorder => C::FieldReorder,
                Damage::LoseOptional | Damage::LoseRequired => C::FieldLost,
                Damage::RepeatOptional | Damage::RepeatRequired => C::FieldDup,
                Damage::Retype | Damage::RetypeElement => C::FieldRetype,
                _ => C::UnionFault,
            });
        }
    }
    let mut alt = if t.chance(1, 3) { Alt::draw(t) } else { Alt::canonical() };
    let mut bytes = encoded(&w, &mut alt);
    bytes.extend(tail(t));
    if !done.is_empty() {
        nontrivial();
    }
    let stream = Source::draw_stream(t, bytes.len());
    describe(|| format!("{} after {done:?}, memory and {stream:?}: {}", ops.name, hex(&bytes)));
    let r = decode(d, &bytes);
    let mem = consume(What::Read(&ops), &bytes, &Source::memory());
    let str = consume(What::Read(&ops), &bytes, &stream);
    event(mem.consumed as u64 * 2 + mem.result.is_ok() as u64);
    if r.unspecified {
        count(C::Unspecified);
        return Ok(());
    }
    let judge = |o: &Outcome, from: &str| -> Check {
        match (&r.result, &o.result) {
            (Ok(x), Ok(y)) => ensure!(
                x == y && r.consumed == o.consumed,
                "value-changed",
                "{} after {done:?} from {from}: {} after {} bytes instead of {} after {}; bytes {}",
                ops.name,
                y.brief(),
                o.consumed,
                x.brief(),
                r.consumed,
                hex(&bytes)
            ),
            (Ok(x), Err(e)) => fail!(
                "rejected",
                "{} after {done:?} from {from}: {e:?} instead of {}; bytes {}",
                ops.name,
                x.brief(),
                hex(&bytes)
            ),
            (Err(e), Ok(y)) => fail!(
                "accepted",
                "{} after {done:?} from {from}: {} although {e}; bytes {}",
                ops.name,
                y.brief(),
                hex(&bytes)
            ),
            (Err(want), Err(got)) => {
                if hard <= 1 {
                    let ok = match want.as_str() {
                        "duplicate" => matches!(got, ThriftError::DuplicateField),
                        "type" => matches!(got, ThriftError::InvalidType),
                        m if m.starts_with("missing ") => match got {
                            ThriftError::MissingField(n) => !got.to_string().is_empty() && n.to_string() == m["missing ".len()..],
                            _ => false,
                        },
                        _ => true,
                    };
                    ensure!(
                        ok,
                        "wrong-error",
                        "{} after {done:?} from {from}: {got:?} instead of {want}; bytes {}",
                        ops.name,
                        hex(&bytes)
                    );
                }
            }
        }
        Ok(())
    };
    judge(&mem, "memory")?;
    judge(&str, &format!("{stream:?}"))
}
