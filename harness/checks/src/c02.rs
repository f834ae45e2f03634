//! C02: the queue is a FIFO that loses, duplicates and reorders nothing
//! C15: refusals are exact, overwriting evicts only the oldest
//! C24: capacity queries agree with what pushes accept
use crate::common::*;
use crate::dut::open_queue;
use rig::queue::caches;
use rig::{E, GEOMS};
use vcore::{Case, Ctx, Fail, Res, decode, ensure, fail};

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "one evaluation per call whose result was compared with the list model; distinct = layouts of page states and fill levels".into();
    ctx.assumptions = vec!["fault-free in-memory NOR flash; re-opened uncached copies are compared completely".into()];
    ctx.batch("history", 12_000, 200_000, history);
    ctx.batch("scale", 20, 200, |c| scaled(c, history));
    ctx.batch("hugepage", 6, 60, huge);
    ctx.require("calls", 500_000);
    ctx.require("wrapped", 2000);
    ctx.require("evictions", 3000);
    ctx.require("single_page", 500);
}

fn setup(case: &mut Case) -> (vcore::SharedCore, Box<dyn rig::queue::QueueDut>, vcore::Rng) {
    let mut rng = case.rng.fork();
    let g = if case.idx % 2 == 0 { GEOMS[(case.idx / 2) as usize % GEOMS.len()] } else { pick_geom(&mut rng) };
    let pages = if rng.chance(1, 8) { 1 } else { pick_pages(&mut rng, 2) };
    let (g, pages) = rescale(&mut rng, g, pages);
    let base = pick_base(&mut rng, g, pages);
    let core = core_of(g, pages, base).shared();
    let cache = rng.below(caches(g));
    case.note(|| format!("geometry {g:?} pages {pages} base {base} cache {}", rig::queue::CACHE_NAMES[cache]));
    if pages == 1 {
        case.count("single_page", 1);
    }
    let dut = open_queue(&core, cache);
    (core, dut, rng)
}

fn history(case: &mut Case) -> Res {
    let (core, mut dut, mut rng) = setup(case);
    let mut model = QModel::default();
    let mut gen_ = QGen::new(&mut rng, &core.borrow());
    let steps = steps(rng.range(30, 150) + if case.thorough { 300 } else { 0 }, &core);
    let every = seldom(*rng.pick(&[1usize, 5, 17, 40]), steps);
    for step in 0..steps {
        let op = gen_.op(&mut rng);
        let view = view_of(&core)?;
        let out = q_do(&mut *dut, &op);
        case.note(|| format!("{} -> {}", op.show(), show_q(&out)));
        case.eval();
        case.count("calls", 1);
        if let (QOp::Push { data, overwrite: true }, Ok(_)) = (&op, &out)
            && matches!(view.predict(&core.borrow(), data.len()), Pred::Evict(_))
        {
            case.count("evictions", 1);
        }
        model.apply(&op, &out, &view, &core.borrow())?;
        if step % every == every - 1 || step + 1 == steps {
            case.count("full_checks", 1);
            saw_layout(case, &core);
            let copy = snapshot(&core);
            model.check(&mut *open_queue(&copy, 0), "re-opened copy")?;
            if rng.chance(1, 2) {
                model.check(&mut *dut, "same storage")?;
            }
            if rng.chance(1, 4) {
                // Draining a copy with pops returns the same
                let copy = snapshot(&core);
                let mut q = open_queue(&copy, 0);
                for want in &model.items {
                    let got = q.pop().map_err(|e| Fail::new(format!("draining: pop returned {e:?}")))?;
                    ensure!(got.as_ref() == Some(want), "draining returned the wrong item");
                }
                ensure!(matches!(q.pop(), Ok(None)), "draining: the queue did not become empty");
            }
        }
    }
    let c = core.borrow();
    if c.erases.iter().all(|e| *e > 0) {
        case.count("wrapped", 1);
    }
    ensure!(dut.range() == c.range(), "flash_range changed");
    Ok(())
}

fn huge(case: &mut Case) -> Res {
    let mut rng = case.rng.fork();
    let g = (4, 4, 131_072);
    let pages = rng.range(1, 3);
    let core = core_of(g, pages, 0).shared();
    let mut dut = open_queue(&core, 0);
    dut.set_buf(65_536);
    let mut model = QModel::default();
    let mut seq = 0;
    for _ in 0..12 {
        let len = match rng.below(5) {
            0 => 65_535,
            1 => 65_535 - rng.below(9),
            2 => 65_536 + rng.below(2) * rng.below(70_000),
            3 => 32_768 - rng.below(20),
            _ => rng.below(65_536),
        };
        let op = if rng.chance(3, 4) {
            QOp::Push { data: payload(&mut rng, &mut seq, len), overwrite: rng.chance(1, 2) }
        } else {
            QOp::Pop
        };
        let view = view_of(&core)?;
        let out = q_do(&mut *dut, &op);
        case.note(|| format!("{} -> {}", op.show(), show_q(&out)));
        case.eval();
        case.count("huge_calls", 1);
        model.apply(&op, &out, &view, &core.borrow())?;
        model.check(&mut *dut, "same storage")?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

pub fn run15(ctx: &mut Ctx) {
    ctx.rule = "one evaluation per push whose acceptance, refusal or eviction was compared with the prediction from the independently decoded flash; distinct = layouts".into();
    ctx.assumptions = vec!["fault-free flash; capacity arithmetic from the documented format".into()];
    ctx.batch("limits", 12_000, 150_000, limits);
    ctx.batch("scale", 12, 100, |c| scaled(c, limits));
    ctx.batch("hugepage", 4, 40, huge);
    ctx.require("refused_full", 10_000);
    ctx.require("refused_too_big", 10_000);
    ctx.require("evictions", 10_000);
    ctx.require("exact_fits", 3000);
}

fn limits(case: &mut Case) -> Res {
    let (core, mut dut, mut rng) = setup(case);
    let mut model = QModel::default();
    let mut gen_ = QGen::new(&mut rng, &core.borrow());
    let pop_w = rng.range(0, 4);
    for _ in 0..steps(rng.range(20, 80), &core) {
        let view = view_of(&core)?;
        let op = if rng.below(10) < pop_w {
            if rng.chance(1, 4) { QOp::Walk { max: usize::MAX, mask: rng.next(), retries: 0 } } else { QOp::Pop }
        } else {
            // Around the exact limits
            let c = core.borrow();
            let y = &view.pages[view.youngest];
            let room = (y.end - y.free) as i64 - decode::footprint(&c, 0) as i64;
            let max = decode::max_data(&c) as i64;
            let d = rng.below(4) as i64 - 1;
            let len = match rng.below(8) {
                0 => max + d,
                1 => max - rng.below(c.word() + 2) as i64,
                2 | 3 => room + d,
                4 => room - rng.below(c.word() + 2) as i64,
                5 => max + 1 + rng.below(40) as i64,
                _ => pick_len(&mut rng, gen_.sizes, max as usize) as i64,
            }
            .max(0) as usize;
            drop(c);
            QOp::Push { data: payload(&mut rng, &mut gen_.seq, len), overwrite: rng.chance(1, 3) }
        };
        let before = core.borrow().mem.clone();
        let out = q_do(&mut *dut, &op);
        case.note(|| format!("{} -> {}", op.show(), show_q(&out)));
        case.count("calls", 1);
        model.apply(&op, &out, &view, &core.borrow())?;
        if let QOp::Push { data, .. } = &op {
            case.eval();
            let c = core.borrow();
            let y = &view.pages[view.youngest];
            if out.is_ok() && y.end - y.free == decode::footprint(&c, data.len()) {
                case.count("exact_fits", 1);
            }
            match &out {
                Err(E::Full) => case.count("refused_full", 1),
                Err(E::TooBig) => case.count("refused_too_big", 1),
                Ok(_) if matches!(view.predict(&c, data.len()), Pred::Evict(_)) => case.count("evictions", 1),
                _ => case.count("accepted", 1),
            }
            if out.is_err() {
                // Only the marker of the page in use may have been written
                let word = c.word();
                let changed = (0..c.mem.len()).find(|i| {
                    let in_page = i % c.e;
                    c.mem[*i] != before[*i] && in_page >= word && in_page < c.e - word
                });
                ensure!(changed.is_none(), "a refused push changed the flash at {changed:?}");
            }
            drop(c);
            saw_layout(case, &core);
            model.check(&mut *open_queue(&snapshot(&core), 0), "re-opened copy")?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C24

pub fn run24(ctx: &mut Ctx) {
    ctx.rule = "one evaluation per capacity query compared with trial pushes on copies and with the independently decoded layout; distinct = layouts".into();
    ctx.assumptions = vec!["fault-free flash".into()];
    ctx.batch("queries", 8000, 100_000, queries);
    ctx.batch("scale", 12, 100, |c| scaled(c, queries));
    ctx.batch("hugepage", 4, 40, huge_queries);
    ctx.require("max_fit_queries", 100_000);
    ctx.require("trial_refusals", 50_000);
    ctx.require("none_reported", 500);
}

fn query(case: &mut Case, core: &vcore::SharedCore, dut: &mut dyn rig::queue::QueueDut, buf: usize) -> Res<(Option<u32>, u32)> {
    let fit = dut.max_fit().map_err(|e| Fail::new(format!("find_max_fit returned {e:?}")))?;
    let space = dut.space_left().map_err(|e| Fail::new(format!("space_left returned {e:?}")))?;
    case.note(|| format!("find_max_fit {fit:?} space_left {space}"));
    case.eval();
    case.count("max_fit_queries", 1);
    let view = view_of(core)?;
    let want = view.space(&core.borrow());
    ensure!(space as usize == want, "space_left returned {space} but {want} bytes are free");
    let push = |len: usize| {
        let copy = snapshot(core);
        let mut q = open_queue(&copy, 0);
        q.set_buf(buf);
        q.push(&vec![0x5A; len], false)
    };
    match fit {
        Some(n) => {
            let r = push(n as usize);
            ensure!(r.is_ok(), "find_max_fit returned {n} but pushing {n} bytes returned {r:?}");
            let r = push(n as usize + 1);
            case.count("trial_refusals", 1);
            match r {
                Err(E::Full | E::TooBig) => {}
                r => fail!("find_max_fit returned {n} but pushing {} bytes returned {r:?}", n + 1),
            }
        }
        None => {
            case.count("none_reported", 1);
            match push(0) {
                Err(E::Full | E::TooBig) => {}
                r => fail!("find_max_fit found nothing but pushing an empty item returned {r:?}"),
            }
        }
    }
    Ok((fit, space))
}

fn queries(case: &mut Case) -> Res {
    let (core, mut dut, mut rng) = setup(case);
    let mut model = QModel::default();
    let mut gen_ = QGen::new(&mut rng, &core.borrow());
    let cap = decode::page_capacity(&core.borrow()) * core.borrow().pages();
    let (_, space) = query(case, &core, &mut *dut, 0)?;
    ensure!(space as usize == cap, "space_left of an empty queue is {space} instead of {cap}");
    for _ in 0..steps(rng.range(10, 60), &core) {
        let op = gen_.op(&mut rng);
        let view = view_of(&core)?;
        let before = dut.space_left().map_err(|e| Fail::new(format!("space_left returned {e:?}")))?;
        let out = q_do(&mut *dut, &op);
        case.note(|| format!("{} -> {}", op.show(), show_q(&out)));
        model.apply(&op, &out, &view, &core.borrow())?;
        let (_, after) = query(case, &core, &mut *dut, 0)?;
        if let (QOp::Push { data, .. }, Ok(_)) = (&op, &out) {
            let foot = decode::footprint(&core.borrow(), data.len()) as u32;
            if view.predict(&core.borrow(), data.len()) == Pred::Here {
                ensure!(before - foot == after, "a push of {foot} bytes changed space_left from {before} to {after}");
            }
        }
        saw_layout(case, &core);
    }
    Ok(())
}

fn huge_queries(case: &mut Case) -> Res {
    let mut rng = case.rng.fork();
    let pages = rng.range(1, 3);
    let core = core_of((4, 4, 131_072), pages, 0).shared();
    let mut dut = open_queue(&core, 0);
    dut.set_buf(65_536);
    for _ in 0..6 {
        query(case, &core, &mut *dut, 65_536)?;
        let len = if rng.chance(1, 2) { 65_535 } else { rng.below(65_536) };
        let _ = dut.push(&vec![1; len], rng.chance(1, 2));
    }
    Ok(())
}
