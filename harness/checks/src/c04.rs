//! C04: queue, power loss at any byte. C06: queue, failed or cancelled accesses in the same session.
use crate::c03::cuts;
use crate::common::*;
use crate::dut::open_queue;
use rig::queue::{QueueDut, caches};
use rig::{E, GEOMS};
use vcore::flash::{ANY, ERASE, Ev, MUTATE, Mode, Plan, READ, When};
use vcore::{Case, Ctx, Res, Rng, SharedCore, ensure, fail};

const FAULT_MODEL: &str = "an interrupted write or erase has done an ascending prefix of its bytes, as in the crate's own mock flash";

pub fn run(ctx: &mut Ctx) {
    ctx.level = "fault_enumeration";
    ctx.rule = "one evaluation per power cut after which the whole content was checked; distinct = (page layout, kind and offset of the interrupted access)".into();
    ctx.assumptions = vec![FAULT_MODEL.into(), "erase_all is not interrupted; a single page queue is not interrupted while it erases its page".into()];
    ctx.batch("sweep", 3000, 40_000, sweep);
    ctx.batch("chaos", 4000, 60_000, |c| chaos(c, true));
    ctx.batch("scale", 12, 100, |c| scaled(c, |c| chaos(c, true)));
    ctx.require("power_cuts", 30_000);
    ctx.require("cuts_in_erase", 3000);
    ctx.require("cuts_during_recovery", 500);
}

pub fn run06(ctx: &mut Ctx) {
    ctx.level = "fault_enumeration";
    ctx.rule = "one evaluation per injected error or cancellation followed by checked calls on the same storage; distinct = (page layout, kind of the interrupted access)".into();
    ctx.assumptions = vec![FAULT_MODEL.into(), "erase_all is not interrupted; a single page queue is not interrupted while it erases its page".into()];
    ctx.batch("sweep", 2500, 30_000, session_sweep);
    ctx.batch("chaos", 8000, 100_000, |c| chaos(c, false));
    ctx.batch("scale", 12, 100, |c| scaled(c, |c| chaos(c, false)));
    ctx.require("faults", 30_000);
    ctx.require("cancellations", 8000);
    ctx.require("read_errors", 5000);
}

fn setup(case: &mut Case) -> (Rng, SharedCore, usize) {
    let mut rng = case.rng.fork();
    let g = if case.idx % 2 == 0 { GEOMS[(case.idx / 2) as usize % GEOMS.len()] } else { pick_geom(&mut rng) };
    let pages = if rng.chance(2, 3) { rng.range(2, 4) } else { pick_pages(&mut rng, 1) };
    let (g, pages) = rescale(&mut rng, g, pages);
    let base = pick_base(&mut rng, g, pages);
    let core = core_of(g, pages, base).shared();
    core.borrow_mut().log_on = true;
    let cache = rng.below(caches(g));
    case.note(|| format!("geometry {g:?} pages {pages} base {base} cache {}", rig::queue::CACHE_NAMES[cache]));
    (rng, core, cache)
}

struct Obs {
    out: rig::Out<QRet>,
    before: QBefore,
    log: Vec<Ev>,
}

fn observe(dut: &mut dyn QueueDut, core: &SharedCore, op: &QOp) -> Obs {
    core.borrow_mut().log.clear();
    let before = QBefore::new(core);
    let out = q_do(dut, op);
    let log = std::mem::take(&mut core.borrow_mut().log);
    Obs { out, before, log }
}

fn plain(case: &mut Case, dut: &mut dyn QueueDut, core: &SharedCore, poss: &mut QPoss, op: &QOp, how: &str) -> Res {
    let o = observe(dut, core, op);
    case.note(|| format!("{how}: {} -> {}", op.show(), show_q(&o.out)));
    poss.apply(op, &o.out, &o.before, &o.log, how)
}

/// An op that can be interrupted
fn victim(rng: &mut Rng, gen_: &mut QGen) -> QOp {
    loop {
        let op = gen_.op(rng);
        match op {
            QOp::Push { .. } | QOp::Pop => return op,
            QOp::Walk { mask, .. } if mask != 0 => return op,
            QOp::Peek if rng.chance(1, 3) => return op,
            _ => {}
        }
    }
}

fn kind_name(ev: &Ev) -> &'static str {
    match ev.kind {
        READ => "read",
        ERASE => "erase",
        _ => "write",
    }
}

fn count(case: &mut Case, core: &SharedCore, ev: &Ev, cut: u64) {
    case.eval();
    match ev.kind {
        READ => case.count("read_errors", 1),
        ERASE => case.count("cuts_in_erase", 1),
        _ => case.count("cuts_in_write", 1),
    }
    case.saw(vcore::decode::states_hash(&core.borrow()) ^ (u64::from(ev.kind) << 48) ^ (u64::from(ev.addr) << 8) ^ cut.min(64));
}

/// Pages that will be erased by the plan are out of scope for single page queues
fn single_page_erase(core: &SharedCore, plan: &Plan, op: &QOp) -> bool {
    if core.borrow().pages() > 1 {
        return false;
    }
    let copy = snapshot(core);
    copy.borrow_mut().arm(plan.clone());
    let _ = q_do(&mut *open_queue(&copy, 0), op);
    let fired = copy.borrow().fired;
    fired.is_some_and(|e| e.kind == ERASE)
}

fn sweep(case: &mut Case) -> Res {
    let (mut rng, core, _) = setup(case);
    let mut gen_ = QGen::new(&mut rng, &core.borrow());
    let mut poss = QPoss::new();
    let g = (core.borrow().w, core.borrow().r, core.borrow().e);
    {
        let pages = core.borrow().pages();
        let mut dut = open_queue(&core, rng.below(caches(g)));
        for _ in 0..rng.range(0, 40 + pages * 10) {
            let op = gen_.op(&mut rng);
            plain(case, &mut *dut, &core, &mut poss, &op, "before the fault")?;
        }
    }
    let mut best: Option<(QOp, Vec<Ev>)> = None;
    for _ in 0..5 {
        let op = victim(&mut rng, &mut gen_);
        let copy = snapshot(&core);
        copy.borrow_mut().log_on = true;
        let _ = q_do(&mut *open_queue(&copy, 0), &op);
        let log = std::mem::take(&mut copy.borrow_mut().log);
        let weight = |l: &Vec<Ev>| l.iter().map(|e| if e.kind == READ { 0 } else if e.kind == ERASE { 3 } else { 1 }).sum::<usize>();
        if best.as_ref().is_none_or(|b| weight(&b.1) < weight(&log)) {
            best = Some((op, log));
        }
        if rng.chance(1, 3) {
            break;
        }
    }
    let (op, log) = best.unwrap();
    case.note(|| format!("interrupted call: {}", op.show()));
    let max = if case.thorough { 250 } else { 60 };
    for cut in cuts(&mut rng, &log, max) {
        let copy = snapshot(&core);
        copy.borrow_mut().log_on = true;
        let mut p = poss.clone();
        let plan = Plan { when: When::MutByte(cut), mode: Mode::PowerLoss };
        if single_page_erase(&core, &plan, &op) {
            continue;
        }
        copy.borrow_mut().arm(plan);
        let cache = rng.below(caches(g));
        let o = observe(&mut *open_queue(&copy, cache), &copy, &op);
        let Some(ev) = copy.borrow().fired else {
            continue;
        };
        case.count("power_cuts", 1);
        count(case, &copy, &ev, cut);
        copy.borrow_mut().revive();
        let start = case.trace.len();
        case.note(|| format!("power cut at mutated byte {cut} ({} of {} bytes at {:#x}): {}", kind_name(&ev), ev.len, ev.addr, show_q(&o.out)));
        p.interrupted(&op, &o.out, &o.before, &o.log, "interrupted call")?;
        after_crash(case, &mut rng, &copy, &mut gen_, &mut p, 2)?;
        case.trace.truncate(start);
    }
    Ok(())
}

/// Everything that must work after the power came back. `nested`: how many more cuts may happen.
fn after_crash(case: &mut Case, rng: &mut Rng, core: &SharedCore, gen_: &mut QGen, poss: &mut QPoss, nested: u32) -> Res {
    let g = (core.borrow().w, core.borrow().r, core.borrow().e);
    let mut dut = open_queue(core, rng.below(caches(g)));
    if rng.chance(2, 3) {
        let op = gen_.op(rng);
        if op == QOp::EraseAll {
            return Ok(());
        }
        if nested > 0 && rng.chance(1, 2) {
            let copy = snapshot(core);
            let _ = q_do(&mut *open_queue(&copy, 0), &op);
            let total = copy.borrow().mut_bytes;
            if total > 0 {
                let plan = Plan { when: When::MutByte(rng.next() % total), mode: Mode::PowerLoss };
                if !single_page_erase(core, &plan, &op) {
                    core.borrow_mut().arm(plan);
                }
            }
        }
        let o = observe(&mut *dut, core, &op);
        let fired = core.borrow().fired;
        case.note(|| format!("  after the crash: {} -> {} {fired:?}", op.show(), show_q(&o.out)));
        if let Some(ev) = fired {
            case.count("cuts_during_recovery", 1);
            case.count("power_cuts", 1);
            count(case, core, &ev, 99);
            core.borrow_mut().revive();
            poss.interrupted(&op, &o.out, &o.before, &o.log, "interrupted call after a power loss")?;
            return after_crash(case, rng, core, gen_, poss, nested - 1);
        }
        core.borrow_mut().disarm();
        poss.apply(&op, &o.out, &o.before, &o.log, "first call after a power loss")?;
    }
    poss.check(&mut *dut, "after a power loss")?;
    poss.check(&mut *open_queue(&snapshot(core), 0), "after a power loss, re-opened copy")?;
    for _ in 0..rng.below(10) {
        let op = gen_.op(rng);
        plain(case, &mut *dut, core, poss, &op, "  later")?;
    }
    poss.check(&mut *open_queue(&snapshot(core), 0), "some calls after a power loss, re-opened copy")?;
    if rng.chance(1, 4) {
        usable(rng, core, &mut *dut, poss)?;
    }
    Ok(())
}

/// Drain the queue, then all but one page can be filled with the largest items
fn usable(rng: &mut Rng, core: &SharedCore, dut: &mut dyn QueueDut, poss: &mut QPoss) -> Res {
    let want = poss.poss[0].clone();
    for d in &want {
        match dut.pop() {
            Ok(Some(got)) => ensure!(got == *d, "draining: popped {} instead of {}", vcore::hex(&got), vcore::hex(d)),
            other => fail!("draining: pop returned {other:?} instead of {}", vcore::hex(d)),
        }
    }
    ensure!(dut.pop() == Ok(None), "pop of a drained queue did not return None");
    let (max, pages) = (vcore::decode::max_data(&core.borrow()), core.borrow().pages());
    let data: Vec<Vec<u8>> = (0..pages - 1).map(|_| rng.bytes(max)).collect();
    for d in &data {
        let r = dut.push(d, false);
        ensure!(r == Ok(()), "pushing one page-sized item per page but one into a drained queue returned {r:?}");
    }
    *poss = QPoss { poss: vec![data] };
    poss.check(dut, "drained and filled again")
}

fn random_plan(rng: &mut Rng, core: &SharedCore, op: &QOp, power: bool) -> Option<Plan> {
    let copy = snapshot(core);
    let _ = q_do(&mut *open_queue(&copy, 0), op);
    let c = copy.borrow();
    if power {
        if c.mut_bytes == 0 {
            return None;
        }
        return Some(Plan { when: When::MutByte(rng.next() % c.mut_bytes), mode: Mode::PowerLoss });
    }
    let mode = if rng.chance(1, 2) { Mode::Cancel } else { Mode::Error };
    let muts = c.n_writes + c.n_erases;
    let (kinds, total) = if muts > 0 && rng.chance(3, 4) { (MUTATE, muts) } else { (ANY, muts + c.n_reads) };
    if total == 0 {
        return None;
    }
    let part = match rng.below(4) {
        0 => 0,
        1 => usize::MAX,
        2 => rng.below(9),
        _ => rng.below(c.e),
    };
    Some(Plan { when: When::Access { kinds, n: rng.next() % total, part }, mode })
}

fn chaos(case: &mut Case, power: bool) -> Res {
    let (mut rng, core, cache) = setup(case);
    let g = (core.borrow().w, core.borrow().r, core.borrow().e);
    let mut dut = open_queue(&core, cache);
    let mut gen_ = QGen::new(&mut rng, &core.borrow());
    let mut poss = QPoss::new();
    let rate = *rng.pick(&[2usize, 4, 10]);
    let steps = steps(rng.range(20, 150), &core);
    let look = rng.range(0, 3);
    for step in 0..steps {
        let mut op = gen_.op(&mut rng);
        if let QOp::Walk { retries, .. } = &mut op
            && !power
        {
            *retries = rng.below(3);
        }
        if rng.chance(1, rate)
            && !matches!(op, QOp::EraseAll | QOp::Recreate)
            && let Some(plan) = random_plan(&mut rng, &core, &op, power)
            && !(core.borrow().pages() == 1 && (!power || single_page_erase(&core, &plan, &op)))
        {
            core.borrow_mut().arm(plan);
        }
        let o = observe(&mut *dut, &core, &op);
        let fired = core.borrow_mut().fired.take();
        case.note(|| format!("{} -> {} {fired:?}", op.show(), show_q(&o.out)));
        match fired {
            None => {
                core.borrow_mut().disarm();
                poss.apply(&op, &o.out, &o.before, &o.log, "call")?;
            }
            Some(ev) => {
                count(case, &core, &ev, 0);
                case.count("faults", 1);
                case.count("power_cuts", u64::from(core.borrow().dead));
                case.count("cancellations", u64::from(was_cancelled(&o.out)));
                core.borrow_mut().revive();
                poss.interrupted(&op, &o.out, &o.before, &o.log, "interrupted call")?;
                if power {
                    dut = open_queue(&core, rng.below(caches(g)));
                }
            }
        }
        if rng.below(if scale() == 0 { 4 } else { 400 }) < look || step + 1 == steps {
            poss.check(&mut *open_queue(&snapshot(&core), 0), "re-opened copy")?;
        }
        if poss.poss.len() > 300 {
            poss.check(&mut *dut, "same storage")?;
        }
    }
    poss.check(&mut *dut, "same storage")?;
    usable(&mut rng, &core, &mut *dut, &mut poss)?;
    poss.check(&mut *open_queue(&core, 0), "re-opened")
}

fn was_cancelled(out: &rig::Out<QRet>) -> bool {
    match out {
        Err(E::Cancelled) => true,
        Ok(QRet::Walk(w)) => w.errs.contains(&E::Cancelled) || w.seen.iter().any(|s| s.1 == Some(Err(E::Cancelled))),
        _ => false,
    }
}

/// Interrupt one call at every access, then continue with the same storage and cache
fn session_sweep(case: &mut Case) -> Res {
    let (mut rng, core, cache) = setup(case);
    if core.borrow().pages() == 1 {
        return Ok(());
    }
    let mut gen_ = QGen::new(&mut rng, &core.borrow());
    let mut poss = QPoss::new();
    let mut history = Vec::new();
    {
        let mut dut = open_queue(&core, cache);
        let pages = core.borrow().pages();
        for _ in 0..rng.range(0, 30 + pages * 10) {
            let op = gen_.op(&mut rng);
            plain(case, &mut *dut, &core, &mut poss, &op, "before the fault")?;
            history.push(op);
        }
    }
    let mut op = if rng.chance(1, 6) { rng.pick(&[QOp::Peek, QOp::MaxFit, QOp::SpaceLeft]).clone() } else { victim(&mut rng, &mut gen_) };
    if let QOp::Walk { retries, .. } = &mut op {
        *retries = rng.below(3);
    }
    let copy = snapshot(&core);
    copy.borrow_mut().log_on = true;
    let _ = q_do(&mut *open_queue(&copy, 0), &op);
    let log = std::mem::take(&mut copy.borrow_mut().log);
    let max = if case.thorough { 120 } else { 30 };
    let mut points: Vec<usize> = (0..log.len()).collect();
    while points.len() > max {
        let i = rng.below(points.len());
        if log[points[i]].kind == READ || rng.chance(1, 4) {
            points.swap_remove(i);
        }
    }
    points.sort_unstable();
    let g = (core.borrow().w, core.borrow().r, core.borrow().e);
    for n in points {
        // The same history again, to have the same cache state
        let fresh = core_of(g, core.borrow().pages(), core.borrow().base / core.borrow().e as u32).shared();
        fresh.borrow_mut().log_on = true;
        let mut dut = open_queue(&fresh, cache);
        for op in &history {
            let _ = q_do(&mut *dut, op);
        }
        let mut p = poss.clone();
        let mode = if rng.chance(1, 2) { Mode::Cancel } else { Mode::Error };
        let part = match rng.below(3) {
            0 => 0,
            1 => usize::MAX,
            _ => rng.below(12),
        };
        let muts = log[..n].iter().filter(|e| e.kind != READ).count() as u64;
        let reads = n as u64 - muts;
        let when = if log[n].kind == READ {
            When::Access { kinds: READ, n: if rng.chance(1, 2) { reads } else { reads % 6 }, part }
        } else {
            When::Access { kinds: MUTATE, n: muts, part }
        };
        fresh.borrow_mut().arm(Plan { when: when.clone(), mode });
        let o = observe(&mut *dut, &fresh, &op);
        let fired = fresh.borrow_mut().fired.take();
        let start = case.trace.len();
        case.note(|| format!("fault {when:?} {mode:?} in {} -> {} {fired:?}", op.show(), show_q(&o.out)));
        let Some(ev) = fired else {
            continue;
        };
        count(case, &fresh, &ev, 0);
        case.count("faults", 1);
        case.count("cancellations", u64::from(was_cancelled(&o.out)));
        fresh.borrow_mut().revive();
        p.interrupted(&op, &o.out, &o.before, &o.log, "interrupted call")?;
        for _ in 0..rng.below(8) {
            let op = gen_.op(&mut rng);
            plain(case, &mut *dut, &fresh, &mut p, &op, "  same storage")?;
        }
        p.check(&mut *dut, "same storage after an interrupted call")?;
        p.check(&mut *open_queue(&snapshot(&fresh), 0), "re-opened copy after an interrupted call")?;
        if rng.chance(1, 5) {
            usable(&mut rng, &fresh, &mut *dut, &mut p)?;
        }
        case.trace.truncate(start);
    }
    Ok(())
}
