//! C01: the map is a last-writer-wins dictionary
use crate::common::*;
use crate::dut::open_map;
use rig::map::caches;
use rig::GEOMS;
use vcore::{Case, Ctx, Res, ensure};

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "one evaluation per call whose result was compared with the dictionary; distinct = layouts of page states and fill levels".into();
    ctx.assumptions = vec![
        "fault-free in-memory NOR flash; every second batch of calls a copy re-opened without caches is compared completely".into(),
        "stores that do not have clear room (C14) are not generated here".into(),
    ];
    ctx.batch("history", 10_000, 150_000, history);
    ctx.batch("scale", 20, 200, |c| scaled(c, history));
    ctx.batch("hugepage", 6, 60, huge);
    ctx.require("calls", 500_000);
    ctx.require("wrapped", 2000);
    ctx.require("scaled_cases", 40);
    ctx.require("full_checks", 30_000);
}

fn history(case: &mut Case) -> Res {
    let mut rng = case.rng.fork();
    let g = if case.idx % 2 == 0 { GEOMS[(case.idx / 2) as usize % GEOMS.len()] } else { pick_geom(&mut rng) };
    let pages = pick_pages(&mut rng, 2);
    let (g, pages) = rescale(&mut rng, g, pages);
    let base = pick_base(&mut rng, g, pages);
    let core = core_of(g, pages, base).shared();
    let cache = rng.below(caches(g));
    case.note(|| format!("geometry {g:?} pages {pages} base {base} cache {}", rig::map::CACHE_NAMES[cache]));
    let mut dut = open_map(&core, cache);
    let mut model = MapModel::default();
    let mut gen_ = MapGen::new(&mut rng, &core.borrow());
    let steps = steps(rng.range(30, 160) + if case.thorough { 300 } else { 0 }, &core);
    let every = seldom(*rng.pick(&[1usize, 5, 17, 40]), steps);
    for step in 0..steps {
        let op = gen_.op(&mut rng, &model, &core.borrow());
        let out = map_do(&mut *dut, &op);
        case.note(|| format!("{} -> {}", op.show(), show_out(&out)));
        case.eval();
        case.count("calls", 1);
        model.apply(&op, &out, "call")?;
        if step % every == every - 1 || step + 1 == steps {
            case.count("full_checks", 1);
            saw_layout(case, &core);
            let copy = snapshot(&core);
            let mut fresh = open_map(&copy, 0);
            model.check_all(&mut *fresh, "re-opened copy")?;
            if rng.chance(1, 2) {
                model.check_all(&mut *dut, "same storage")?;
            }
        }
    }
    let c = core.borrow();
    if c.erases.iter().all(|e| *e > 0) {
        case.count("wrapped", 1);
    }
    case.count("page_erases", c.erases.iter().map(|e| u64::from(*e)).sum());
    ensure!(dut.range() == c.range(), "flash_range changed");
    Ok(())
}

/// Pages larger than the largest item: lengths around 65535
fn huge(case: &mut Case) -> Res {
    let mut rng = case.rng.fork();
    let g = (4, 4, 131_072);
    let core = core_of(g, 3, 0).shared();
    let mut dut = open_map(&core, 0);
    dut.set_buf(65_536);
    let mut model = MapModel::default();
    let keys = make_keys(&mut rng, 3, 40);
    let mut seq = 0;
    for _ in 0..8 {
        let k = rng.pick(&keys).clone();
        let max = 65_535 - k.0.len() - 1;
        let len = match rng.below(4) {
            0 => max,
            1 => max - rng.below(9),
            2 => 32_768 - rng.below(20),
            _ => rng.below(max),
        };
        let op = MapOp::Store { v: payload(&mut rng, &mut seq, len), k, generic: rng.chance(1, 2) };
        let foot = vcore::decode::footprint(&core.borrow(), 65_535);
        if !model.room(&core.borrow(), foot) {
            let op = MapOp::Remove(keys[0].clone());
            let out = map_do(&mut *dut, &op);
            model.apply(&op, &out, "call")?;
            continue;
        }
        let out = map_do(&mut *dut, &op);
        case.note(|| format!("{} -> {}", op.show(), show_out(&out)));
        case.eval();
        case.count("huge_stores", 1);
        model.apply(&op, &out, "call")?;
        model.check_all(&mut *dut, "same storage")?;
    }
    Ok(())
}
