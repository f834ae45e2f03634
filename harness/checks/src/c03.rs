//! C03: map, power loss at any byte. C05: map, failed or cancelled accesses in the same session.
use crate::common::*;
use crate::dut::open_map;
use rig::map::{MapDut, caches};
use rig::GEOMS;
use vcore::flash::{ANY, Ev, MUTATE, READ, WRITE, When};
use vcore::{Case, Core, Ctx, Mode, Plan, Res, Rng, SharedCore, ensure, fail};

pub fn run(ctx: &mut Ctx) {
    ctx.level = "fault_enumeration";
    ctx.rule = "one evaluation per power cut after which the whole content was checked; distinct = (page layout, kind and offset of the interrupted access)".into();
    ctx.assumptions = vec![
        "an interrupted write or erase has done an ascending prefix of its bytes, as in the crate's own mock flash".into(),
        "erase_all is not interrupted; stores have clear room".into(),
    ];
    ctx.batch("sweep", 2200, 30_000, sweep);
    ctx.batch("chaos", 2500, 40_000, |c| chaos(c, true));
    ctx.batch("scale", 12, 100, |c| scaled(c, |c| chaos(c, true)));
    ctx.require("power_cuts", 30_000);
    ctx.require("cuts_in_erase", 3000);
    ctx.require("cuts_during_recovery", 1000);
}

pub fn run05(ctx: &mut Ctx) {
    ctx.level = "fault_enumeration";
    ctx.rule = "one evaluation per injected error or cancellation followed by checked calls on the same storage; distinct = (page layout, kind of the interrupted access)".into();
    ctx.assumptions = vec![
        "a failed or cancelled write or erase has done an ascending prefix of its bytes".into(),
        "erase_all is not interrupted; stores have clear room".into(),
    ];
    ctx.batch("sweep", 1500, 20_000, session_sweep);
    ctx.batch("chaos", 6000, 80_000, |c| chaos(c, false));
    ctx.batch("scale", 12, 100, |c| scaled(c, |c| chaos(c, false)));
    ctx.batch("iterator", 1500, 20_000, iterator);
    ctx.require("iterator_continued", 5000);
    ctx.require("faults", 30_000);
    ctx.require("cancellations", 8000);
    ctx.require("read_errors", 5000);
}

fn setup(case: &mut Case) -> (Rng, SharedCore, usize) {
    let mut rng = case.rng.fork();
    let g = if case.idx % 2 == 0 { GEOMS[(case.idx / 2) as usize % GEOMS.len()] } else { pick_geom(&mut rng) };
    let pages = if rng.chance(2, 3) { rng.range(2, 4) } else { pick_pages(&mut rng, 2) };
    let (g, pages) = rescale(&mut rng, g, pages);
    let base = pick_base(&mut rng, g, pages);
    let core = core_of(g, pages, base).shared();
    let cache = rng.below(caches(g));
    case.note(|| format!("geometry {g:?} pages {pages} base {base} cache {}", rig::map::CACHE_NAMES[cache]));
    (rng, core, cache)
}

/// Fill the map, fault-free
fn prefix(case: &mut Case, rng: &mut Rng, core: &SharedCore, gen_: &mut MapGen, model: &mut MapModel) -> Res {
    let mut dut = open_map(core, 0);
    let pages = core.borrow().pages();
    for _ in 0..rng.range(0, 30 + pages * 10) {
        let op = gen_.op(rng, model, &core.borrow());
        let out = map_do(&mut *dut, &op);
        case.note(|| format!("{} -> {}", op.show(), show_out(&out)));
        model.apply(&op, &out, "before the fault")?;
    }
    Ok(())
}

/// An iteration goes on where it was interrupted
fn iterator(case: &mut Case) -> Res {
    let (mut rng, core, cache) = setup(case);
    let mut gen_ = MapGen::new(&mut rng, &core.borrow());
    let mut model = MapModel::default();
    prefix(case, &mut rng, &core, &mut gen_, &mut model)?;
    let image = snapshot(&core);
    let mut dut = open_map(&core, cache);
    let want = match dut.iterate(usize::MAX) {
        Ok(items) => items,
        Err(e) => fail!("iteration returned {e:?}"),
    };
    model.observe_iter(&want, "iteration")?;
    // How many accesses are there?
    let copy = snapshot(&image);
    copy.borrow_mut().log_on = true;
    let mut d = open_map(&copy, cache);
    d.iterate(usize::MAX).ok();
    let total = copy.borrow().log.len();
    let tries = if total <= 60 { total } else { 40 };
    for i in 0..tries {
        let n = if total <= 60 { i } else { rng.below(total) };
        let copy = snapshot(&image);
        let mut d = open_map(&copy, cache);
        if rng.chance(1, 3) {
            // With a warm cache
            d.iterate(usize::MAX).ok();
        }
        let mode = if rng.chance(1, 2) { Mode::Error } else { Mode::Cancel };
        copy.borrow_mut().arm(Plan { when: When::Access { kinds: ANY, n: n as u64, part: 0 }, mode });
        let (items, errs, ended) = d.iterate_stubborn(usize::MAX, 3);
        let fired = copy.borrow_mut().disarm();
        copy.borrow_mut().cancelled = false;
        case.eval();
        if fired.is_none() {
            ensure!(ended && errs.is_empty() && items == want, "iteration without a fault: {} items, {errs:?}", items.len());
            continue;
        }
        if let Some(e) = errs.iter().find(|e| !e.interrupted()) {
            fail!("iteration with {mode:?} at access {n}: {e:?}");
        }
        if !ended {
            // The iterator could not be created
            ensure!(items.is_empty() && errs.len() == 1, "iteration with {mode:?} at access {n} did not end: {errs:?}");
        } else {
            case.count("iterator_continued", 1);
            ensure!(
                items == want,
                "iteration with {mode:?} at access {n} ({errs:?}) continued and gave {} items instead of {}: {:?} instead of {:?}",
                items.len(),
                want.len(),
                items.iter().map(|i| &i.0).collect::<Vec<_>>(),
                want.iter().map(|i| &i.0).collect::<Vec<_>>()
            );
        }
        let mut m = model.clone();
        m.check_all(&mut *d, "same storage")?;
    }
    Ok(())
}

/// An op that can be interrupted
fn victim(rng: &mut Rng, gen_: &mut MapGen, model: &MapModel, core: &Core) -> MapOp {
    match rng.below(8) {
        0 => MapOp::Remove(gen_.key(rng)),
        1 if rng.chance(1, 3) => MapOp::RemoveAll,
        _ => gen_.store(rng, model, core).unwrap_or_else(|| MapOp::Remove(gen_.key(rng))),
    }
}

fn kind_name(ev: &Ev) -> &'static str {
    match ev.kind {
        READ => "read",
        WRITE => "write",
        _ => "erase",
    }
}

/// Cut points: all of them when there are few, else all access boundaries and random ones
pub fn cuts(rng: &mut Rng, log: &[Ev], max: usize) -> Vec<u64> {
    let total: u64 = log.iter().filter(|e| e.kind & MUTATE != 0).map(|e| u64::from(e.len)).sum();
    if total <= max as u64 {
        return (0..total).collect();
    }
    let mut v = Vec::new();
    let mut at = 0u64;
    for e in log.iter().filter(|e| e.kind & MUTATE != 0) {
        for d in [0, 1, 2, 3, 4, 5, 6, 7, 8, u64::from(e.len) / 2, u64::from(e.len) - 1] {
            if d < u64::from(e.len) {
                v.push(at + d);
            }
        }
        at += u64::from(e.len);
    }
    while v.len() < max {
        v.push(rng.next() % total);
    }
    // Keep a random selection of bounded size
    while v.len() > max {
        let i = rng.below(v.len());
        v.swap_remove(i);
    }
    v.sort_unstable();
    v.dedup();
    v
}

fn sweep(case: &mut Case) -> Res {
    let (mut rng, core, _) = setup(case);
    let mut gen_ = MapGen::new(&mut rng, &core.borrow());
    let mut model = MapModel::default();
    prefix(case, &mut rng, &core, &mut gen_, &mut model)?;
    // Prefer calls that have to change pages
    let mut best: Option<(MapOp, Vec<Ev>)> = None;
    for _ in 0..4 {
        let op = victim(&mut rng, &mut gen_, &model, &core.borrow());
        let copy = snapshot(&core);
        copy.borrow_mut().log_on = true;
        let out = map_do(&mut *open_map(&copy, 0), &op);
        let log = std::mem::take(&mut copy.borrow_mut().log);
        if let Err(e) = &out {
            fail!("{} returned {e:?} without a fault", op.show());
        }
        let weight = |l: &Vec<Ev>| l.iter().filter(|e| e.kind & MUTATE != 0).count();
        if best.as_ref().is_none_or(|b| weight(&b.1) < weight(&log)) {
            best = Some((op, log));
        }
        if rng.chance(1, 3) {
            break;
        }
    }
    let (op, log) = best.unwrap();
    case.note(|| format!("interrupted call: {}", op.show()));
    let max = if case.thorough { 250 } else { 70 };
    for cut in cuts(&mut rng, &log, max) {
        let copy = snapshot(&core);
        let mut m = model.clone();
        copy.borrow_mut().arm(Plan { when: When::MutByte(cut), mode: Mode::PowerLoss });
        let cache = if rng.chance(1, 2) { 0 } else { rng.below(caches((core.borrow().w, core.borrow().r, core.borrow().e))) };
        let out = map_do(&mut *open_map(&copy, cache), &op);
        let Some(ev) = copy.borrow().fired else {
            continue;
        };
        count_cut(case, &copy, &ev, cut);
        copy.borrow_mut().revive();
        let start = case.trace.len();
        case.note(|| format!("power cut at mutated byte {cut} ({} of {} bytes at {:#x}): {}", kind_name(&ev), ev.len, ev.addr, show_out(&out)));
        if out.is_ok() {
            m.done(&op);
        } else {
            m.maybe(&op);
        }
        let mut gen2 = MapGen { keys: gen_.keys.clone(), ..gen_ };
        after_crash(case, &mut rng, &copy, &mut gen2, &mut m, 2)?;
        case.trace.truncate(start);
    }
    Ok(())
}

fn count_cut(case: &mut Case, core: &SharedCore, ev: &Ev, cut: u64) {
    case.eval();
    case.count("power_cuts", 1);
    if ev.kind == vcore::flash::ERASE {
        case.count("cuts_in_erase", 1);
    }
    case.saw(vcore::decode::states_hash(&core.borrow()) ^ (u64::from(ev.kind) << 48) ^ (u64::from(ev.addr) << 8) ^ cut.min(64));
}

/// Everything that must work after the power came back. `nested`: how many more cuts may happen.
fn after_crash(case: &mut Case, rng: &mut Rng, core: &SharedCore, gen_: &mut MapGen, model: &mut MapModel, nested: u32) -> Res {
    let g = (core.borrow().w, core.borrow().r, core.borrow().e);
    let cache = rng.below(caches(g));
    let mut dut = open_map(core, cache);
    // The first call after the crash is of any kind
    let first = match rng.below(6) {
        0 => Some(MapOp::Iterate),
        1 => Some(MapOp::Fetch(gen_.key(rng))),
        2 => gen_.store(rng, model, &core.borrow()),
        3 => Some(MapOp::Remove(gen_.key(rng))),
        4 if rng.chance(1, 4) => Some(MapOp::RemoveAll),
        _ => None,
    };
    if let Some(op) = first {
        if nested > 0 && rng.chance(1, 3) {
            // Another power cut, most likely during the recovery
            let copy = snapshot(core);
            let _ = map_do(&mut *open_map(&copy, 0), &op);
            let total = copy.borrow().mut_bytes;
            if total > 0 {
                let cut = rng.next() % total;
                core.borrow_mut().arm(Plan { when: When::MutByte(cut), mode: Mode::PowerLoss });
            }
        }
        let out = map_do(&mut *dut, &op);
        let fired = core.borrow().fired;
        case.note(|| format!("  after the crash: {} -> {} {fired:?}", op.show(), show_out(&out)));
        if let Some(ev) = fired {
            case.count("cuts_during_recovery", 1);
            count_cut(case, core, &ev, 99);
            core.borrow_mut().revive();
            if out.is_ok() {
                model.apply(&op, &out, "interrupted call that succeeded")?;
            } else {
                model.maybe(&op);
            }
            return after_crash(case, rng, core, gen_, model, nested - 1);
        }
        core.borrow_mut().disarm();
        model.apply(&op, &out, "first call after a power loss")?;
    }
    model.check_all(&mut *dut, "after a power loss")?;
    model.check_all(&mut *open_map(core, 0), "after a power loss, re-opened")?;
    // Life goes on
    for _ in 0..rng.below(12) {
        let op = gen_.op(rng, model, &core.borrow());
        let out = map_do(&mut *dut, &op);
        case.note(|| format!("  later: {} -> {}", op.show(), show_out(&out)));
        model.apply(&op, &out, "some calls after a power loss")?;
    }
    model.check_all(&mut *open_map(&snapshot(core), 0), "some calls after a power loss, re-opened copy")
}

fn random_plan(rng: &mut Rng, core: &SharedCore, op: &MapOp, power: bool) -> Option<Plan> {
    let copy = snapshot(core);
    let _ = map_do(&mut *open_map(&copy, 0), op);
    let c = copy.borrow();
    if power {
        if c.mut_bytes == 0 {
            return None;
        }
        return Some(Plan { when: When::MutByte(rng.next() % c.mut_bytes), mode: Mode::PowerLoss });
    }
    let mode = if rng.chance(1, 2) { Mode::Cancel } else { Mode::Error };
    let muts = c.n_writes + c.n_erases;
    let (kinds, total) = if muts > 0 && rng.chance(3, 4) { (MUTATE, muts) } else { (ANY, muts + c.n_reads) };
    if total == 0 {
        return None;
    }
    let part = match rng.below(4) {
        0 => 0,
        1 => usize::MAX,
        2 => rng.below(9),
        _ => rng.below(c.e),
    };
    Some(Plan { when: When::Access { kinds, n: rng.next() % total, part }, mode })
}

/// Long histories with many faults
fn chaos(case: &mut Case, power: bool) -> Res {
    let (mut rng, core, cache) = setup(case);
    let g = (core.borrow().w, core.borrow().r, core.borrow().e);
    let mut dut = open_map(&core, cache);
    let mut gen_ = MapGen::new(&mut rng, &core.borrow());
    let mut model = MapModel::default();
    let rate = *rng.pick(&[2usize, 4, 10]);
    let steps = steps(rng.range(20, 120), &core);
    let look = rng.range(0, 3);
    for step in 0..steps {
        let op = gen_.op(&mut rng, &model, &core.borrow());
        if rng.chance(1, rate)
            && !matches!(op, MapOp::EraseAll | MapOp::Recreate)
            && let Some(plan) = random_plan(&mut rng, &core, &op, power)
        {
            core.borrow_mut().arm(plan);
        }
        let out = map_do(&mut *dut, &op);
        let fired = core.borrow_mut().fired.take();
        case.note(|| format!("{} -> {} {fired:?}", op.show(), show_out(&out)));
        match fired {
            None => {
                core.borrow_mut().disarm();
                model.apply(&op, &out, "call")?;
            }
            Some(ev) => {
                count_fault(case, &core, &ev, &out);
                if out.is_ok() {
                    model.apply(&op, &out, "interrupted call that succeeded")?;
                } else {
                    model.maybe(&op);
                }
                core.borrow_mut().revive();
                if power {
                    let cache = rng.below(caches(g));
                    dut = open_map(&core, cache);
                }
            }
        }
        if rng.below(if scale() == 0 { 4 } else { 400 }) < look || step + 1 == steps {
            // On a copy: what is in flash now
            model.check_all(&mut *open_map(&snapshot(&core), 0), "re-opened copy")?;
        }
    }
    model.check_all(&mut *dut, "same storage")?;
    model.check_all(&mut *open_map(&core, 0), "re-opened")
}

fn count_fault(case: &mut Case, core: &SharedCore, ev: &Ev, out: &rig::Out<MapRet>) {
    case.eval();
    case.count("faults", 1);
    match ev.kind {
        READ => case.count("read_errors", 1),
        WRITE => case.count("write_errors", 1),
        _ => case.count("cuts_in_erase", 1),
    }
    match out {
        Err(rig::E::Cancelled) => case.count("cancellations", 1),
        Ok(_) => case.count("succeeded_anyway", 1),
        _ => {}
    }
    case.count("power_cuts", u64::from(core.borrow().dead));
    case.saw(vcore::decode::states_hash(&core.borrow()) ^ (u64::from(ev.kind) << 48) ^ (u64::from(ev.addr) << 8));
}

/// Interrupt one call at every access, then continue with the same storage and cache
fn session_sweep(case: &mut Case) -> Res {
    let (mut rng, core, cache) = setup(case);
    let mut gen_ = MapGen::new(&mut rng, &core.borrow());
    let mut model = MapModel::default();
    let mut history = Vec::new();
    {
        let pages = core.borrow().pages();
        let mut dut = open_map(&core, 0);
        for _ in 0..rng.range(0, 25 + pages * 8) {
            let op = gen_.op(&mut rng, &model, &core.borrow());
            let out = map_do(&mut *dut, &op);
            case.note(|| format!("{} -> {}", op.show(), show_out(&out)));
            model.apply(&op, &out, "before the fault")?;
            history.push(op);
        }
    }
    let op = if rng.chance(1, 5) {
        if rng.chance(1, 2) { MapOp::Iterate } else { MapOp::Fetch(gen_.key(&mut rng)) }
    } else {
        victim(&mut rng, &mut gen_, &model, &core.borrow())
    };
    let copy = snapshot(&core);
    copy.borrow_mut().log_on = true;
    let _ = map_do(&mut *open_map(&copy, 0), &op);
    let log = std::mem::take(&mut copy.borrow_mut().log);
    let max = if case.thorough { 120 } else { 30 };
    let mut points: Vec<usize> = (0..log.len()).collect();
    while points.len() > max {
        let i = rng.below(points.len());
        // Keep the mutating ones
        if log[points[i]].kind == READ || rng.chance(1, 4) {
            points.swap_remove(i);
        }
    }
    points.sort_unstable();
    let keep = rng.range(5, 40);
    for n in points {
        // Warm up the cache by replaying the end of the history on a new storage
        let fresh = core_of((core.borrow().w, core.borrow().r, core.borrow().e), core.borrow().pages(), core.borrow().base / core.borrow().e as u32).shared();
        let mut dut;
        let mut m = model.clone();
        if history.len() > 60 {
            // Long history: take the image and warm the cache by reading
            fresh.borrow_mut().load(&core.borrow());
            dut = open_map(&fresh, cache);
            for _ in 0..keep {
                let op = MapOp::Fetch(gen_.key(&mut rng));
                let out = map_do(&mut *dut, &op);
                m.apply(&op, &out, "before the fault")?;
            }
        } else {
            dut = open_map(&fresh, cache);
            for op in &history {
                let _ = map_do(&mut *dut, op);
            }
        }
        let mode = if rng.chance(1, 2) { Mode::Cancel } else { Mode::Error };
        let part = match rng.below(3) {
            0 => 0,
            1 => usize::MAX,
            _ => rng.below(12),
        };
        let muts = log[..n].iter().filter(|e| e.kind != READ).count() as u64;
        let reads = n as u64 - muts;
        let when = if log[n].kind == READ {
            // The cached storage reads less often
            When::Access { kinds: READ, n: if rng.chance(1, 2) { reads } else { reads % 6 }, part }
        } else {
            When::Access { kinds: MUTATE, n: muts, part }
        };
        fresh.borrow_mut().arm(Plan { when, mode });
        let out = map_do(&mut *dut, &op);
        let fired = fresh.borrow_mut().fired.take();
        let start = case.trace.len();
        case.note(|| format!("fault {when:?} {mode:?} in {} -> {} {fired:?}", op.show(), show_out(&out)));
        if let Some(ev) = &fired {
            count_fault(case, &fresh, ev, &out);
        }
        fresh.borrow_mut().revive();
        if out.is_ok() {
            m.apply(&op, &out, "interrupted call that succeeded")?;
        } else {
            m.maybe(&op);
        }
        let mut gen2 = MapGen { keys: gen_.keys.clone(), ..gen_ };
        continue_session(case, &mut rng, &fresh, &mut *dut, &mut gen2, &mut m)?;
        case.trace.truncate(start);
    }
    Ok(())
}

fn continue_session(case: &mut Case, rng: &mut Rng, core: &SharedCore, dut: &mut dyn MapDut, gen_: &mut MapGen, m: &mut MapModel) -> Res {
    for _ in 0..rng.below(8) {
        let op = match rng.below(6) {
            0 => MapOp::Iterate,
            1 => MapOp::Fetch(gen_.key(rng)),
            2 => MapOp::Remove(gen_.key(rng)),
            3 => gen_.store(rng, m, &core.borrow()).unwrap_or(MapOp::Iterate),
            _ => gen_.op(rng, m, &core.borrow()),
        };
        let out = map_do(dut, &op);
        case.note(|| format!("  same storage: {} -> {}", op.show(), show_out(&out)));
        m.apply(&op, &out, "call after an interrupted one")?;
    }
    m.check_all(dut, "same storage after an interrupted call")?;
    m.check_all(&mut *open_map(core, 0), "re-opened after an interrupted call")
}
