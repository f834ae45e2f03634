//! C21: configurations are accepted exactly when they are usable
use crate::common::*;
use g0::{Ret, TABLE, USABLE};
use rig::{E, VKey};
use vcore::{Case, Ctx, Res, Rng, decode, ensure, fail};

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "one evaluation per constructor call judged and per call on a storage with an accepted configuration; distinct = (geometry, kinds of the range ends, verdict)".into();
    ctx.assumptions = vec!["if several rules are broken, any of their errors will do".into()];
    ctx.batch("constructors", 400, 8000, constructors);
    ctx.batch("usable", 3000, 40_000, usable);
    for what in ["accepted", "start", "end", "range", "pages", "word", "reversed"] {
        ctx.require(what, 2000);
    }
    ctx.require("stored", 5000);
    ctx.require("pushed", 50_000);
}

fn edge(rng: &mut Rng, e: u32) -> u32 {
    let last = u32::MAX - u32::MAX % e;
    match rng.below(10) {
        0 => 0,
        1 => u32::MAX,
        2 => last,
        3 => last.saturating_sub(e.saturating_mul(rng.below(4) as u32)),
        4 => rng.next() as u32,
        5 => (rng.next() as u32) / e * e,
        6 => e.saturating_mul(rng.below(5) as u32).saturating_add(1),
        7 => e.saturating_mul(rng.below(5) as u32).saturating_sub(1),
        _ => (e as u64 * rng.below(6) as u64).min(u64::from(last)) as u32,
    }
}

fn constructors(case: &mut Case) -> Res {
    let mut rng = case.rng.fork();
    for t in TABLE {
        let (w, r, e) = t.g;
        let word = w.max(r);
        let pages_ok = e >= 3 * word + decode::up(8, word);
        let word_ok = word <= 32;
        for _ in 0..8 {
            let (start, end) = if rng.chance(1, 3) {
                let s = edge(&mut rng, e as u32);
                let pages = rng.below(5) as u64;
                (s, (u64::from(s) + pages * e as u64).min(u64::from(u32::MAX)) as u32)
            } else {
                (edge(&mut rng, e as u32), edge(&mut rng, e as u32))
            };
            for (name, min, f) in [("map", 2u64, t.map), ("queue", 1, t.queue)] {
                vcore::driver::call_begin();
                let (got, panicking) = f(start..end);
                vcore::driver::call_end();
                case.eval();
                let start_ok = u64::from(start) % e as u64 == 0;
                let end_ok = u64::from(end) % e as u64 == 0;
                let range_ok = end >= start && u64::from(end - start) / e as u64 >= min;
                let ok = match got {
                    Ret::Accepted => start_ok && end_ok && range_ok && pages_ok && word_ok,
                    Ret::Start => !start_ok,
                    Ret::End => !end_ok,
                    Ret::Range => !range_ok,
                    Ret::Pages => !pages_ok,
                    Ret::Word => !word_ok,
                    Ret::Panicked => false,
                };
                case.note(|| format!("{name} {:?} {start:#x}..{end:#x} -> {got:?} {panicking:?}", t.g));
                ensure!(
                    ok,
                    "{name} configuration {start:#x}..{end:#x} with write, read and erase sizes {:?}: {got:?} (start {start_ok}, end {end_ok}, range {range_ok}, pages {pages_ok}, word {word_ok})",
                    t.g
                );
                ensure!(
                    (panicking == Ret::Accepted) == (got == Ret::Accepted),
                    "{name} configuration {start:#x}..{end:#x} {:?}: try_new gives {got:?}, new gives {panicking:?}",
                    t.g
                );
                let what = match got {
                    Ret::Accepted => "accepted",
                    Ret::Start => "start",
                    Ret::End => "end",
                    Ret::Range => "range",
                    Ret::Pages => "pages",
                    Ret::Word => "word",
                    Ret::Panicked => "panicked",
                };
                case.count(what, 1);
                if end < start {
                    case.count("reversed", 1);
                }
                case.saw(vcore::hash_bytes(
                    min,
                    format!("{:?}{got:?}{start_ok}{end_ok}{range_ok}{}{}", t.g, end < start, u64::from(end.abs_diff(start)) / e as u64).as_bytes(),
                ));
            }
        }
    }
    Ok(())
}

/// The smallest pages, also many of them, are good for data
fn usable(case: &mut Case) -> Res {
    let mut rng = case.rng.fork();
    let g = USABLE[case.idx as usize % USABLE.len()];
    let pages = match rng.below(6) {
        0 => rng.range(20, 60),
        1 => 300,
        _ => rng.range(1, 8),
    };
    let last = ((1u64 << 32) / g.2 as u64) as u32 - pages as u32 - 1;
    let base = match rng.below(4) {
        0 => last,
        1 => rng.below(last as usize) as u32,
        _ => rng.below(3) as u32,
    };
    case.note(|| format!("geometry {g:?} pages {pages} base {base}"));
    let core = core_of(g, pages, base).shared();
    let max = decode::max_data(&core.borrow());
    let steps = if pages > 100 { 40 } else { 80 };
    if pages >= 2 {
        let mut dut = g0::open_map(&core);
        ensure!(dut.range() == core.borrow().range(), "the map reports the range {:?}", dut.range());
        let mut model = MapModel::default();
        let mut seq = 0;
        let mut keys = vec![VKey(vec![])];
        if max > 1 {
            keys.extend([VKey(vec![1]), VKey(vec![2])]);
        }
        for _ in 0..steps {
            let k = rng.pick(&keys).clone();
            let free = max - k.0.len() - 1;
            let op = match rng.below(6) {
                0 => MapOp::Remove(k),
                1 => MapOp::Fetch(k),
                _ => {
                    let len = if rng.chance(1, 3) { free } else { rng.below(free + 1) };
                    if !model.room(&core.borrow(), decode::footprint(&core.borrow(), len + k.0.len() + 1)) {
                        continue;
                    }
                    case.count("stored", 1);
                    MapOp::Store { v: payload(&mut rng, &mut seq, len), k, generic: rng.chance(1, 2) }
                }
            };
            let out = map_do(&mut *dut, &op);
            case.note(|| format!("{} -> {}", op.show(), show_out(&out)));
            case.eval();
            model.apply(&op, &out, "call")?;
        }
        model.check_all(&mut *dut, "same storage")?;
        let copy = snapshot(&core);
        model.check_all(&mut *g0::open_map(&copy), "re-opened copy")?;
        let big = dut.store(&VKey(vec![9; max]), &[]);
        ensure!(big == Err(E::TooBig) || matches!(big, Err(E::Ser(_))), "an item that does not fit in a page: {big:?}");
        saw_layout(case, &core);
        drop(dut);
    }
    let core = core_of(g, pages, base).shared();
    let mut dut = g0::open_queue(&core);
    ensure!(dut.range() == core.borrow().range(), "the queue reports the range {:?}", dut.range());
    let mut model = QModel::default();
    let mut seq = 0;
    for _ in 0..steps {
        let op = match rng.below(6) {
            0 => QOp::Pop,
            1 => QOp::Peek,
            2 if rng.chance(1, 3) => QOp::MaxFit,
            _ => {
                let len = if rng.chance(1, 3) { max } else { rng.below(max + 1) };
                case.count("pushed", 1);
                QOp::Push { data: payload(&mut rng, &mut seq, len), overwrite: rng.chance(1, 2) }
            }
        };
        let view = view_of(&core)?;
        let before = core.borrow().image();
        let out = q_do(&mut *dut, &op);
        case.note(|| format!("{} -> {}", op.show(), show_q(&out)));
        case.eval();
        model.apply(&op, &out, &view, &before)?;
    }
    model.check(&mut *dut, "same storage")?;
    let copy = snapshot(&core);
    model.check(&mut *g0::open_queue(&copy), "re-opened copy")?;
    match dut.push(&vec![1; max + 1], true) {
        Err(E::TooBig) => {}
        r => fail!("an item that does not fit in a page: {r:?}"),
    }
    saw_layout(case, &core);
    Ok(())
}
