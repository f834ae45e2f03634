//! C16: flash errors reach the caller as storage errors
use crate::common::*;
use crate::dut::{open_map, open_queue};
use crate::hostile::scramble;
use rig::queue::Walk;
use rig::{E, GEOMS, Out};
use vcore::flash::{ANY, ERASE, READ, WRITE, When};
use vcore::{Case, Ctx, FlashErr, Mode, Plan, Res, Rng, SharedCore, ensure, fail};

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "one evaluation per call in which one flash access failed and the returned error was compared with it; distinct = (call, kind of access, number of the access, layout)".into();
    ctx.assumptions = vec!["each injected error has a value of its own, so a different error cannot pass for it".into()];
    ctx.batch("map", 6000, 80_000, map);
    ctx.batch("queue", 6000, 80_000, queue);
    ctx.batch("map_exhaustive", 500, 6000, map_exhaustive);
    ctx.batch("queue_exhaustive", 500, 6000, queue_exhaustive);
    ctx.require("failed_reads", 50_000);
    ctx.require("failed_writes", 10_000);
    ctx.require("failed_erases", 2000);
    ctx.require("failed_in_damaged", 5000);
    ctx.require("undisturbed", 20_000);
}

fn setup(case: &mut Case, queue: bool) -> (Rng, SharedCore, usize) {
    let mut rng = case.rng.fork();
    let g = GEOMS[case.idx as usize % GEOMS.len()];
    let pages = if queue && rng.chance(1, 8) { 1 } else { rng.range(2, 6) };
    let base = pick_base(&mut rng, g, pages);
    let n = if queue { rig::queue::caches(g) } else { rig::map::caches(g) };
    let cache = rng.below(n);
    let name = if queue { rig::queue::CACHE_NAMES[cache] } else { rig::map::CACHE_NAMES[cache] };
    case.note(|| format!("geometry {g:?} pages {pages} base {base} cache {name}"));
    (rng, core_of(g, pages, base).shared(), cache)
}

/// All errors a call returned, in order
fn map_errs(out: &Out<MapRet>) -> Vec<E> {
    out.as_ref().err().into_iter().cloned().collect()
}

fn walk_errs(w: &Walk) -> Vec<E> {
    let mut v: Vec<E> = w.seen.iter().filter_map(|s| s.1.clone()?.err()).collect();
    v.extend(w.errs.iter().cloned());
    v
}

fn q_errs(out: &Out<QRet>) -> Vec<E> {
    match out {
        Ok(QRet::Walk(w)) => walk_errs(w),
        Ok(_) => vec![],
        Err(e) => vec![e.clone()],
    }
}

/// Judge the errors of a call during which the plan was armed
fn judge(case: &mut Case, core: &SharedCore, what: &str, errs: &[E], damaged: bool) -> Res<bool> {
    let (fired, err) = {
        let mut c = core.borrow_mut();
        let err = c.last_err.take();
        (c.disarm(), err)
    };
    let storage: Vec<&FlashErr> = errs
        .iter()
        .filter_map(|e| match e {
            E::Storage(f) => Some(f),
            _ => None,
        })
        .collect();
    match (fired, err) {
        (Some(ev), Some(err)) => {
            case.eval();
            case.count(
                match ev.kind {
                    READ => "failed_reads",
                    WRITE => "failed_writes",
                    _ => "failed_erases",
                },
                1,
            );
            if damaged {
                case.count("failed_in_damaged", 1);
            }
            ensure!(
                errs.len() == 1 && storage == [&err],
                "{what}: the flash returned {err:?} for {ev:?} but the call returned {}",
                if errs.is_empty() { "success".to_string() } else { format!("{errs:?}") }
            );
            Ok(true)
        }
        _ => {
            ensure!(storage.is_empty(), "{what}: no flash access failed but the call returned {errs:?}");
            case.count("undisturbed", 1);
            Ok(false)
        }
    }
}

fn kinds(rng: &mut Rng) -> u8 {
    *rng.pick(&[ANY, ANY, READ, WRITE, WRITE, ERASE, WRITE | ERASE])
}

fn plan(rng: &mut Rng, core: &SharedCore) -> Plan {
    let kinds = kinds(rng);
    let n = match (kinds, rng.below(3)) {
        (ERASE, _) => rng.below(2),
        (WRITE, _) => rng.below(4),
        (_, 0) => rng.below(3),
        (_, 1) => rng.below(12),
        _ => rng.below(80),
    };
    let part = if rng.chance(1, 2) { 0 } else { rng.below(core.borrow().e + 1) };
    Plan { when: When::Access { kinds, n: n as u64, part }, mode: Mode::Error }
}

/// Leave the storage in a state that needs repair, or with content nobody wrote
fn disturb_state(case: &mut Case, rng: &mut Rng, core: &SharedCore, go: &mut dyn FnMut(&mut Rng)) -> bool {
    match rng.below(8) {
        0 => {
            let mut c = core.borrow_mut();
            scramble(rng, &mut c);
            case.note(|| "scrambled".into());
            true
        }
        1 => {
            let bytes = core.borrow().e * 3;
            core.borrow_mut().arm(Plan { when: When::MutByte(rng.below(bytes) as u64), mode: Mode::PowerLoss });
            for _ in 0..10 {
                go(rng);
            }
            core.borrow_mut().revive();
            case.note(|| "power was lost".into());
            true
        }
        _ => false,
    }
}

fn map(case: &mut Case) -> Res {
    let (mut rng, core, cache) = setup(case, false);
    let mut dut = open_map(&core, cache);
    let mut gen_ = MapGen::new(&mut rng, &core.borrow());
    let model = MapModel::default();
    let mut damaged = false;
    if rng.chance(1, 3) {
        damaged = disturb_state(case, &mut rng, &core, &mut |rng| {
            let op = gen_.op(rng, &model, &core.borrow());
            let _ = map_do(&mut *dut, &op);
        });
        if damaged {
            dut = open_map(&core, cache);
        }
    }
    for _ in 0..rng.range(10, 80) {
        let op = gen_.op(&mut rng, &model, &core.borrow());
        if rng.chance(1, 2) {
            let p = plan(&mut rng, &core);
            case.note(|| format!("  {p:?}"));
            core.borrow_mut().arm(p);
        }
        let out = map_do(&mut *dut, &op);
        case.note(|| format!("{} -> {}", op.show(), show_out(&out)));
        judge(case, &core, &op.show(), &map_errs(&out), damaged)?;
        if rng.chance(1, 20) {
            dut = open_map(&core, cache);
        }
        saw_layout(case, &core);
    }
    Ok(())
}

fn queue(case: &mut Case) -> Res {
    let (mut rng, core, cache) = setup(case, true);
    let mut dut = open_queue(&core, cache);
    let mut gen_ = QGen::new(&mut rng, &core.borrow());
    let mut damaged = false;
    if rng.chance(1, 3) {
        damaged = disturb_state(case, &mut rng, &core, &mut |rng| {
            let _ = q_do(&mut *dut, &gen_.op(rng));
        });
        if damaged {
            dut = open_queue(&core, cache);
        }
    }
    for _ in 0..rng.range(10, 80) {
        let op = gen_.op(&mut rng);
        if rng.chance(1, 2) {
            let p = plan(&mut rng, &core);
            case.note(|| format!("  {p:?}"));
            core.borrow_mut().arm(p);
        }
        let out = q_do(&mut *dut, &op);
        case.note(|| format!("{} -> {}", op.show(), show_q(&out)));
        judge(case, &core, &op.show(), &q_errs(&out), damaged)?;
        if rng.chance(1, 20) {
            dut = open_queue(&core, cache);
        }
        saw_layout(case, &core);
    }
    Ok(())
}

/// One state, one call, every access of it failing in turn
fn map_exhaustive(case: &mut Case) -> Res {
    let (mut rng, core, cache) = setup(case, false);
    let mut dut = open_map(&core, cache);
    let mut gen_ = MapGen::new(&mut rng, &core.borrow());
    let mut model = MapModel::default();
    for _ in 0..rng.range(5, 60) {
        let op = gen_.op(&mut rng, &model, &core.borrow());
        let out = map_do(&mut *dut, &op);
        case.note(|| format!("{} -> {}", op.show(), show_out(&out)));
        model.apply(&op, &out, "call")?;
    }
    let damaged = disturb_state(case, &mut rng, &core, &mut |rng| {
        let op = gen_.op(rng, &model, &core.borrow());
        let _ = map_do(&mut *dut, &op);
    });
    gen_.weights = [10, 3, 3, 1, 1, 2, 0];
    for _ in 0..3 {
        let op = gen_.op(&mut rng, &model, &core.borrow());
        for n in 0.. {
            let copy = snapshot(&core);
            let mut d = open_map(&copy, cache);
            copy.borrow_mut().arm(Plan { when: When::Access { kinds: ANY, n, part: rng.below(9) }, mode: Mode::Error });
            let out = map_do(&mut *d, &op);
            if !judge(case, &copy, &format!("{} with access {n} failing", op.show()), &map_errs(&out), damaged)? || n > 3000 {
                break;
            }
        }
    }
    Ok(())
}

fn queue_exhaustive(case: &mut Case) -> Res {
    let (mut rng, core, cache) = setup(case, true);
    let mut dut = open_queue(&core, cache);
    let mut gen_ = QGen::new(&mut rng, &core.borrow());
    for _ in 0..rng.range(5, 60) {
        let op = gen_.op(&mut rng);
        let out = q_do(&mut *dut, &op);
        case.note(|| format!("{} -> {}", op.show(), show_q(&out)));
        if let Err(E::Storage(e)) = &out {
            fail!("{} returned {e:?} although no access failed", op.show());
        }
    }
    let damaged = disturb_state(case, &mut rng, &core, &mut |rng| {
        let _ = q_do(&mut *dut, &gen_.op(rng));
    });
    gen_.weights = [5, 5, 3, 4, 4, 2, 2, 1, 0];
    for _ in 0..3 {
        let op = gen_.op(&mut rng);
        for n in 0.. {
            let copy = snapshot(&core);
            let mut d = open_queue(&copy, cache);
            copy.borrow_mut().arm(Plan { when: When::Access { kinds: ANY, n, part: rng.below(9) }, mode: Mode::Error });
            let out = q_do(&mut *d, &op);
            if !judge(case, &copy, &format!("{} with access {n} failing", op.show()), &q_errs(&out), damaged)? || n > 3000 {
                break;
            }
        }
    }
    Ok(())
}
