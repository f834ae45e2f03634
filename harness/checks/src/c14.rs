//! C14: map capacity, refusals are exact and never cost data
use crate::common::*;
use crate::dut::open_map;
use rig::map::{MapDut, caches};
use rig::{E, GEOMS, VKey};
use vcore::decode::{footprint, max_data};
use vcore::{Case, Ctx, Res, Rng, SharedCore, ensure, fail};

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "one evaluation per store whose acceptance or refusal was compared with the capacity rule; distinct = layouts".into();
    ctx.assumptions = vec![
        "clear room for an item of footprint f on p pages of capacity c: the live footprints sum up to at most (p-1)*(c-f)".into(),
        "between the clear room condition and impossibility both acceptance and refusal are allowed".into(),
    ];
    ctx.batch("boundary", 3000, 30_000, boundary);
    ctx.batch("fill", 8000, 120_000, fill);
    ctx.batch("scale", 12, 100, |c| scaled(c, fill));
    ctx.batch("hugepage", 12, 60, huge);
    ctx.require("refused_full", 10_000);
    ctx.require("refused_too_big", 10_000);
    ctx.require("accepted_max", 3000);
    ctx.require("accepted_after_room", 3000);
}

/// The largest item a page of this geometry holds, from the documented layout alone
fn limit(core: &SharedCore) -> usize {
    max_data(&core.borrow()).min(65_535)
}

fn content_kept(case: &mut Case, model: &mut MapModel, dut: &mut dyn MapDut, core: &SharedCore, both: bool) -> Res {
    case.count("full_checks", 1);
    model.check_all(&mut *open_map(&snapshot(core), 0), "re-opened copy after a refusal")?;
    if both {
        model.check_all(dut, "same storage after a refusal")?;
    }
    Ok(())
}

/// A store of a given data length, judged
fn store(case: &mut Case, model: &mut MapModel, dut: &mut dyn MapDut, core: &SharedCore, k: &VKey, v: Vec<u8>, generic: bool) -> Res<bool> {
    let len = data_len(k, &v);
    let limit = limit(core);
    let room = model.room(&core.borrow(), footprint(&core.borrow(), len));
    dut.set_buf((len + 64).max(core.borrow().e));
    model.slot(k);
    let op = MapOp::Store { k: k.clone(), v, generic };
    let out = map_do(dut, &op);
    case.note(|| format!("{} (data length {len}, limit {limit}, room {room}) -> {}", op.show(), show_out(&out)));
    case.eval();
    match out {
        Ok(_) => {
            ensure!(len <= limit, "data of {len} bytes was accepted, a page holds {limit}");
            model.done(&op);
            if len == limit {
                case.count("accepted_max", 1);
            }
            Ok(true)
        }
        Err(E::TooBig) => {
            ensure!(len > limit, "data of {len} bytes was refused as too big, a page holds {limit}");
            case.count("refused_too_big", 1);
            Ok(false)
        }
        Err(E::Full) => {
            ensure!(len <= limit, "data of {len} bytes was refused as full instead of too big");
            ensure!(!room, "refused as full although there is clearly enough room");
            case.count("refused_full", 1);
            Ok(false)
        }
        Err(e) => fail!("store returned {e:?}"),
    }
}

fn setup(case: &mut Case) -> (Rng, SharedCore, usize) {
    let mut rng = case.rng.fork();
    let g = GEOMS[case.idx as usize % GEOMS.len()];
    let pages = if rng.chance(1, 2) { rng.range(2, 3) } else { pick_pages(&mut rng, 2) };
    let (g, pages) = rescale(&mut rng, g, pages);
    let base = pick_base(&mut rng, g, pages);
    let core = core_of(g, pages, base).shared();
    let cache = rng.below(caches(g));
    case.note(|| format!("geometry {g:?} pages {pages} base {base} cache {}", rig::map::CACHE_NAMES[cache]));
    (rng, core, cache)
}

/// Sizes around the largest, at all fill levels
fn boundary(case: &mut Case) -> Res {
    let (mut rng, core, cache) = setup(case);
    let mut dut = open_map(&core, cache);
    let mut model = MapModel::default();
    let limit = limit(&core);
    let nkeys = rng.range(1, 4);
    let keys = make_keys(&mut rng, nkeys, (limit / 3).min(255));
    let mut seq = 0;
    for _ in 0..rng.range(6, 30) {
        let k = rng.pick(&keys).clone();
        let total = match rng.below(8) {
            0 | 1 => limit,
            2 => limit + 1,
            3 => limit + rng.range(1, 40),
            4 => limit - rng.below(9.min(limit)),
            5 => limit + rng.below(2) * 70_000,
            6 => limit * rng.range(1, 3) + rng.below(3),
            _ => rng.range(k.0.len() + 1, limit),
        };
        let v = payload(&mut rng, &mut seq, total.saturating_sub(k.0.len() + 1));
        let before = rng.chance(1, 2);
        if !store(case, &mut model, &mut *dut, &core, &k, v, before)? {
            let both = rng.chance(1, 2);
            content_kept(case, &mut model, &mut *dut, &core, both)?;
        }
        saw_layout(case, &core);
        if rng.chance(1, 6) {
            let op = MapOp::Remove(rng.pick(&keys).clone());
            model.slot(match &op {
                MapOp::Remove(k) => k,
                _ => unreachable!(),
            });
            let out = map_do(&mut *dut, &op);
            case.note(|| format!("{} -> {}", op.show(), show_out(&out)));
            model.apply(&op, &out, "call")?;
        }
        if rng.chance(1, 8) {
            dut = open_map(&core, cache);
        }
    }
    Ok(())
}

/// Fill it up, be refused, make room, store again
fn fill(case: &mut Case) -> Res {
    let (mut rng, core, cache) = setup(case);
    let mut dut = open_map(&core, cache);
    let mut model = MapModel::default();
    let max = limit(&core);
    let nkeys = rng.range(4, if scale() == 0 { 60 } else { 400 });
    let keys = make_keys(&mut rng, nkeys, (max / 3).min(40));
    let mut sizes = pick_sizes(&mut rng, max - 1);
    let mut seq = 0;
    let mut refused = 0;
    let mut budget = steps(rng.range(40, 140), &core);
    while budget > 0 {
        budget -= 1;
        let k = rng.pick(&keys).clone();
        let len = pick_len(&mut rng, sizes, max - k.0.len() - 1);
        let generic = rng.chance(1, 3);
        let v = payload(&mut rng, &mut seq, len);
        let need = footprint(&core.borrow(), data_len(&k, &v));
        if store(case, &mut model, &mut *dut, &core, &k, v, generic)? {
            continue;
        }
        saw_layout(case, &core);
        refused += 1;
        if refused % 2 == 1 || rng.chance(1, 4) {
            let both = rng.chance(1, 2);
            content_kept(case, &mut model, &mut *dut, &core, both)?;
        }
        if rng.chance(1, 4) {
            dut = open_map(&core, cache);
        }
        if rng.chance(1, 3) {
            // Insist: still refused or not, nothing is lost
            continue;
        }
        // Make room by removing or by replacing with something smaller, then it has to work
        let shrink = rng.chance(1, 2);
        let mut order: Vec<VKey> = model.m.keys().cloned().collect();
        while !model.room(&core.borrow(), need) {
            if order.is_empty() {
                break;
            }
            let victim = order.swap_remove(rng.below(order.len()));
            if victim == k {
                continue;
            }
            if shrink && !model.room(&core.borrow(), footprint(&core.borrow(), victim.0.len() + 1)) || !shrink {
                let op = MapOp::Remove(victim);
                let out = map_do(&mut *dut, &op);
                case.note(|| format!("{} -> {}", op.show(), show_out(&out)));
                model.apply(&op, &out, "remove")?;
            } else {
                store(case, &mut model, &mut *dut, &core, &victim, vec![], true)?;
            }
        }
        if model.room(&core.borrow(), need) {
            let v = payload(&mut rng, &mut seq, len);
            ensure!(
                store(case, &mut model, &mut *dut, &core, &k, v, generic)?,
                "refused although enough was removed"
            );
            case.count("accepted_after_room", 1);
        }
        if rng.chance(1, 6) {
            sizes = pick_sizes(&mut rng, max - 1);
        }
    }
    content_kept(case, &mut model, &mut *dut, &core, true)
}

/// Pages larger than the length field can express
fn huge(case: &mut Case) -> Res {
    let mut rng = case.rng.fork();
    let core = core_of((4, 4, 131_072), 2, 0).shared();
    let mut dut = open_map(&core, 0);
    let mut model = MapModel::default();
    let keys = make_keys(&mut rng, 2, 40);
    let mut seq = 0;
    for n in 0..6 {
        let k = rng.pick(&keys).clone();
        let total = match (n + case.idx as usize) % 6 {
            0 => 65_535,
            1 => 65_536,
            2 => 65_534,
            3 => 65_536 + rng.below(60_000),
            4 => 131_072 + rng.below(20),
            _ => rng.range(100, 65_535),
        };
        let v = payload(&mut rng, &mut seq, total - k.0.len() - 1);
        if !store(case, &mut model, &mut *dut, &core, &k, v, n % 2 == 0)? {
            content_kept(case, &mut model, &mut *dut, &core, true)?;
        }
        if n % 3 == 2 {
            let op = MapOp::Remove(k);
            let out = map_do(&mut *dut, &op);
            model.apply(&op, &out, "remove")?;
        }
    }
    content_kept(case, &mut model, &mut *dut, &core, true)
}
