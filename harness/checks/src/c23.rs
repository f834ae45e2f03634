//! C23: too small buffers are reported and harm nothing
use crate::common::*;
use crate::dut::{open_map, open_queue};
use rig::{E, GEOMS};
use sequential_storage::map::SerializationError;
use vcore::{Case, Core, Ctx, Res, Rng, SharedCore, decode, ensure, fail};

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "one evaluation per call with a buffer of limited length whose result was judged; distinct = (call, length of the buffer, layout)".into();
    ctx.assumptions = vec![
        "a buffer as long as the longest item on the flash or to be stored, rounded up to the word size, is sufficient".into(),
        "a removal that reports a too small buffer may have removed part of what it was asked to remove".into(),
    ];
    ctx.batch("map", 6000, 80_000, map);
    ctx.batch("queue", 6000, 80_000, queue);
    ctx.batch("map_every_length", 600, 8000, map_every_length);
    ctx.require("map_refused_read", 5000);
    ctx.require("map_refused_serialize", 2000);
    ctx.require("map_small_but_ok", 5000);
    ctx.require("map_iter_refused", 5000);
    ctx.require("migration_refused", 200);
    ctx.require("queue_refused", 5000);
    ctx.require("queue_iter_refused", 5000);
}

/// Length of the longest item on the flash
fn longest(core: &Core) -> usize {
    decode::lenient_pages(core).iter().flat_map(|p| p.items.iter().map(|i| i.len)).max().unwrap_or(0)
}

fn word(core: &Core) -> usize {
    core.w.max(core.r)
}

fn need(core: &Core, op: &MapOp) -> usize {
    let mut n = longest(core);
    if let MapOp::Store { k, v, .. } = op {
        n = n.max(data_len(k, v));
    }
    decode::up(n, word(core))
}

fn pick_buf(rng: &mut Rng, need: usize, own: usize) -> usize {
    match rng.below(6) {
        0 => 0,
        1 => need.saturating_sub(rng.range(1, 3)),
        2 => own.saturating_sub(rng.below(4)),
        3 => own + rng.below(4),
        4 => need + rng.below(2),
        _ => rng.below(need + 1),
    }
}

/// Whether this is an acceptable way to report a buffer of `len` bytes, if `need` suffice
fn refused(e: &E, len: usize, need: usize) -> Res<bool> {
    match e {
        E::BufTooSmall(n) => {
            ensure!(len < need, "a buffer of {len} bytes is reported as too small, {need} are sufficient");
            ensure!(*n > len && *n <= need, "a buffer of {len} bytes is too small, reported as needed {n}, sufficient {need}");
            Ok(true)
        }
        E::Ser(SerializationError::BufferTooSmall) => {
            ensure!(len < need, "a buffer of {len} bytes is reported as too small, {need} are sufficient");
            Ok(true)
        }
        _ => Ok(false),
    }
}

fn setup_map(case: &mut Case) -> (Rng, SharedCore, usize) {
    let mut rng = case.rng.fork();
    let g = GEOMS[case.idx as usize % GEOMS.len()];
    let pages = pick_pages(&mut rng, 2).min(6);
    let base = pick_base(&mut rng, g, pages);
    let core = core_of(g, pages, base).shared();
    let cache = rng.below(rig::map::caches(g));
    case.note(|| format!("geometry {g:?} pages {pages} base {base} cache {}", rig::map::CACHE_NAMES[cache]));
    (rng, core, cache)
}

/// The content after a refused call
fn after_refusal(model: &mut MapModel, op: &MapOp) {
    match op {
        MapOp::Remove(_) | MapOp::RemoveAll => model.maybe(op),
        _ => {}
    }
}

fn own_len(op: &MapOp, model: &MapModel) -> usize {
    match op {
        MapOp::Store { k, v, .. } => data_len(k, v),
        MapOp::Fetch(k) | MapOp::Remove(k) => {
            let v = model.m.get(k).and_then(|s| s.opts.iter().flatten().next().cloned()).unwrap_or_default();
            data_len(k, &v)
        }
        _ => 0,
    }
}

fn map(case: &mut Case) -> Res {
    let (mut rng, core, cache) = setup_map(case);
    let full = core.borrow().e;
    let mut dut = open_map(&core, cache);
    let mut model = MapModel::default();
    let mut gen_ = MapGen::new(&mut rng, &core.borrow());
    let often = rng.range(1, 6);
    let steps = rng.range(30, 120);
    for step in 0..steps {
        let op = gen_.op(&mut rng, &model, &core.borrow());
        let need = need(&core.borrow(), &op);
        let own = own_len(&op, &model);
        let len = if rng.below(6) < often { pick_buf(&mut rng, need, own) } else { full };
        let mut is_refused = false;
        if op == MapOp::Iterate {
            is_refused = iterate(case, &mut rng, &mut *dut, &mut model, need)?;
        } else {
            dut.set_buf(len);
            let erases: u32 = core.borrow().erases.iter().sum();
            let before = snapshot(&core);
            let out = map_do(&mut *dut, &op);
            dut.set_buf(full);
            case.note(|| format!("{} with a buffer of {len} -> {}", op.show(), show_out(&out)));
            if len < need {
                case.eval();
                case.saw(vcore::hash_bytes(len as u64, op.show().as_bytes()));
            }
            match &out {
                Err(e) if refused(e, len, need)? => {
                    is_refused = true;
                    let storing = matches!(op, MapOp::Store { .. });
                    case.count(if storing && len < own { "map_refused_serialize" } else { "map_refused_read" }, 1);
                    if storing && before.borrow().mem != core.borrow().mem {
                        case.count("migration_refused", 1);
                    }
                    if storing && core.borrow().erases.iter().sum::<u32>() > erases {
                        case.count("migration_refused_after_erase", 1);
                    }
                    after_refusal(&mut model, &op);
                }
                _ => {
                    if len < need {
                        case.count("map_small_but_ok", 1);
                    }
                    model.apply(&op, &out, "call")?;
                }
            }
        }
        if is_refused || rng.chance(1, 10) || step + 1 == steps {
            saw_layout(case, &core);
            let copy = snapshot(&core);
            let mut fresh = open_map(&copy, 0);
            model.clone().check_all(&mut *fresh, "re-opened copy")?;
            if rng.chance(1, 2) {
                model.check_all(&mut *dut, "same storage")?;
            }
        }
    }
    Ok(())
}

/// Iterate with all kinds of buffers. No item may be lost when the call is repeated with a longer one.
fn iterate(case: &mut Case, rng: &mut Rng, dut: &mut dyn rig::map::MapDut, model: &mut MapModel, need: usize) -> Res<bool> {
    let n = rng.range(1, 30);
    let lens: Vec<usize> = (0..n).map(|_| pick_buf(rng, need, need / 2)).collect();
    let out = dut.iterate_bufs(&lens);
    case.note(|| {
        let shown: Vec<_> = out
            .iter()
            .map(|o| match o {
                Ok(Some((k, v))) => format!("{k:?}={}", vcore::hex(v)),
                Ok(None) => "end".into(),
                Err(e) => format!("{e:?}"),
            })
            .collect();
        format!("iterate with buffers {lens:?} -> {}", shown.join(" "))
    });
    let mut items = Vec::new();
    let mut any = false;
    for (i, o) in out.iter().enumerate() {
        // The creation of the iterator does not read items
        let len = lens.get(i + 1).copied().unwrap_or(usize::MAX);
        case.eval();
        match o {
            Ok(Some(kv)) => items.push(kv.clone()),
            Ok(None) => {
                model.observe_iter(&items, "iteration with various buffers")?;
                return Ok(any);
            }
            Err(e) => {
                let len = if out.len() == 1 { lens[0] } else { len };
                if !refused(e, len, need)? {
                    fail!("iteration with a buffer of {len} bytes returned {e:?}");
                }
                any = true;
                case.count("map_iter_refused", 1);
            }
        }
    }
    ensure!(out.len() == 1, "the iteration did not end");
    Ok(any)
}

/// The same call with every length of the buffer, on copies
fn map_every_length(case: &mut Case) -> Res {
    let (mut rng, core, _) = setup_map(case);
    let full = core.borrow().e;
    let mut dut = open_map(&core, 0);
    let mut model = MapModel::default();
    let mut gen_ = MapGen::new(&mut rng, &core.borrow());
    let steps = rng.range(5, 60);
    for _ in 0..steps {
        let op = gen_.op(&mut rng, &model, &core.borrow());
        let out = map_do(&mut *dut, &op);
        case.note(|| format!("{} -> {}", op.show(), show_out(&out)));
        model.apply(&op, &out, "call")?;
    }
    for _ in 0..3 {
        let op = gen_.op(&mut rng, &model, &core.borrow());
        if op == MapOp::Recreate {
            continue;
        }
        let need = need(&core.borrow(), &op);
        case.note(|| format!("then on copies: {} (sufficient {need})", op.show()));
        for len in 0..=need + 1 {
            if len > 40 && len + 24 < need && !rng.chance(1, 5) {
                continue;
            }
            let copy = snapshot(&core);
            let mut m = model.clone();
            let mut d = open_map(&copy, rng.below(3));
            d.set_buf(len);
            let out = map_do(&mut *d, &op);
            d.set_buf(full);
            case.note(|| format!("buffer of {len}: {}", show_out(&out)));
            case.eval();
            match &out {
                Err(e) if refused(e, len, need)? => {
                    after_refusal(&mut m, &op);
                    m.check_all(&mut *d, "same storage")?;
                    if len % 3 == 0 || matches!(op, MapOp::Store { .. }) {
                        // And it works with enough room
                        let out = map_do(&mut *d, &op);
                        case.note(|| format!("again: {}", show_out(&out)));
                        m.apply(&op, &out, "call after a too small buffer")?;
                        let last = snapshot(&copy);
                        m.check_all(&mut *open_map(&last, 0), "re-opened copy")?;
                    }
                }
                _ => {
                    m.apply(&op, &out, "call")?;
                    m.check_all(&mut *d, "same storage")?;
                }
            }
        }
    }
    Ok(())
}

fn queue(case: &mut Case) -> Res {
    let mut rng = case.rng.fork();
    let g = GEOMS[case.idx as usize % GEOMS.len()];
    let pages = if rng.chance(1, 6) { 1 } else { pick_pages(&mut rng, 2).min(6) };
    let base = pick_base(&mut rng, g, pages);
    let core = core_of(g, pages, base).shared();
    let cache = rng.below(rig::queue::caches(g));
    case.note(|| format!("geometry {g:?} pages {pages} base {base} cache {}", rig::queue::CACHE_NAMES[cache]));
    let full = core.borrow().e;
    let mut dut = open_queue(&core, cache);
    let mut model = QModel::default();
    let mut gen_ = QGen::new(&mut rng, &core.borrow());
    let often = rng.range(1, 6);
    let steps = rng.range(30, 150);
    for step in 0..steps {
        let op = gen_.op(&mut rng);
        let need = decode::up(longest(&core.borrow()), word(&core.borrow()));
        let first = model.items.first().map_or(0, Vec::len);
        let len = if rng.below(6) < often { pick_buf(&mut rng, need, first) } else { full };
        let view = view_of(&core)?;
        let before = core.borrow().image();
        let mut any = false;
        if let QOp::Walk { mask, .. } = op {
            any = walk(case, &mut rng, &mut *dut, &mut model, need, mask)?;
        } else {
            dut.set_buf(len);
            let out = q_do(&mut *dut, &op);
            dut.set_buf(full);
            case.note(|| format!("{} with a buffer of {len} -> {}", op.show(), show_q(&out)));
            match (&op, &out) {
                (QOp::Peek | QOp::Pop, Err(e)) if refused(e, len, need)? => {
                    case.eval();
                    case.saw(vcore::hash_bytes(len as u64, op.show().as_bytes()));
                    ensure!(
                        len < decode::up(first, word(&before)) && !model.items.is_empty(),
                        "a buffer of {len} bytes is enough for the oldest item of {first}, but {} was returned",
                        show_q(&out)
                    );
                    any = true;
                    case.count("queue_refused", 1);
                }
                _ => model.apply(&op, &out, &view, &before)?,
            }
        }
        if any || rng.chance(1, 10) || step + 1 == steps {
            saw_layout(case, &core);
            let copy = snapshot(&core);
            model.check(&mut *open_queue(&copy, 0), "re-opened copy")?;
            if rng.chance(1, 2) {
                model.check(&mut *dut, "same storage")?;
            }
        }
    }
    Ok(())
}

fn walk(case: &mut Case, rng: &mut Rng, dut: &mut dyn rig::queue::QueueDut, model: &mut QModel, need: usize, mask: u64) -> Res<bool> {
    let n = rng.range(1, 30);
    let first = model.items.first().map_or(0, Vec::len);
    let lens: Vec<usize> = (0..n).map(|_| pick_buf(rng, need, first)).collect();
    let out = dut.walk_bufs(&lens, mask);
    case.note(|| {
        let shown: Vec<_> = out
            .iter()
            .map(|o| match o {
                Ok(Some((d, p))) => format!("{}{}", vcore::hex(d), p.as_ref().map_or(String::new(), |p| format!("(pop {p:?})"))),
                Ok(None) => "end".into(),
                Err(e) => format!("{e:?}"),
            })
            .collect();
        format!("iterate with buffers {lens:?} and pop {mask:x} -> {}", shown.join(" "))
    });
    let mut at = 0;
    let mut any = false;
    for (i, o) in out.iter().enumerate() {
        case.eval();
        match o {
            Ok(Some((d, popped))) => {
                ensure!(
                    model.items.get(at) == Some(d),
                    "the iteration returned {} instead of {:?}",
                    vcore::hex(d),
                    model.items.get(at).map(|d| vcore::hex(d))
                );
                match popped {
                    Some(Ok(())) => {
                        model.items.remove(at);
                    }
                    Some(Err(e)) => fail!("popping {} returned {e:?}", vcore::hex(d)),
                    None => at += 1,
                }
            }
            Ok(None) => {
                ensure!(at == model.items.len(), "the iteration ended before item {at} of {}", model.items.len());
                return Ok(any);
            }
            Err(e) => {
                let len = lens.get(i).copied().unwrap_or(usize::MAX);
                if !refused(e, len, need)? {
                    fail!("iteration with a buffer of {len} bytes returned {e:?}");
                }
                any = true;
                case.count("queue_iter_refused", 1);
            }
        }
    }
    fail!("the iteration did not end")
}
