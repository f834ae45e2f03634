//! C19: the interrupt-safe ring delivers every accepted item exactly once, in order
use crate::common::*;
use crate::dut::open_queue;
use b0::{Producer, Ret, SHAREDS, Step, Task, cs, open_shared};
use rig::E;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap, VecDeque};
use std::rc::Rc;
use vcore::flash::{ANY, When};
use vcore::{Case, Ctx, Fail, Mode, Plan, Res, Rng, SharedCore, ensure, fail, hex};

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "one evaluation per task call judged by the acceptance log; distinct = positions (call, poll, critical section) at which interrupts enqueued, with what the ring held".into();
    ctx.assumptions = vec![
        "simulated interrupts happen before and after every critical section and at every suspension point of the flash, which covers all orders of effects of a single core".into(),
        "a call that is cancelled or fails with a flash error may leave its item both in flash and in the ring; wake-ups are judged for calls that completed".into(),
        "the schedules of the real threads are those the machine happens to produce".into(),
    ];
    ctx.batch("interrupts", 12_000, 250_000, interrupts);
    ctx.batch("preempted", 6000, 150_000, preempted);
    ctx.batch("threads", 40, 400, real_threads);
    ctx.require("enqueued_in_interrupt", 100_000);
    ctx.require("evicted", 20_000);
    ctx.require("evicted_in_flight", 500);
    ctx.require("drained", 50_000);
    ctx.require("woken", 2000);
    ctx.require("thread_items", 20_000);
    ctx.require("preempted", 20_000);
    ctx.require("preempted_eviction", 2000);
}

#[derive(Default)]
struct Log {
    seq: u16,
    content: HashMap<u16, Vec<u8>>,
    /// Sequence numbers in the ring, oldest first
    ring: VecDeque<u16>,
    /// Left the ring by a drain since this was last emptied
    drained: Vec<u16>,
    /// Evicted since this was last emptied
    evicted: Vec<u16>,
    /// Accepted since the last completed wait
    unseen: bool,
    trouble: Option<String>,
    in_isr: u64,
    n_evicted: u64,
    accepted: u64,
    refused: u64,
    shapes: BTreeSet<u64>,
}

impl Log {
    fn used(&self) -> usize {
        self.ring.iter().map(|s| self.content[s].len() + 2).sum()
    }
    fn wrong(&mut self, text: String) {
        self.trouble.get_or_insert(text);
    }
    /// Find out what the task took from the ring
    fn sync(&mut self, p: &dyn Producer) {
        let n = p.pending();
        if n > self.ring.len() {
            self.wrong(format!("the ring claims {n} items, there can only be {}", self.ring.len()));
            return;
        }
        while self.ring.len() > n {
            let s = self.ring.pop_front().unwrap();
            self.drained.push(s);
        }
        if p.free() != p.capacity() - self.used() {
            self.wrong(format!("{} bytes free instead of {}", p.free(), p.capacity() - self.used()));
        }
        let front = self.ring.front().map(|s| self.content[s].len());
        if p.oldest_len() != front {
            self.wrong(format!("length of the oldest item is {:?} instead of {front:?}", p.oldest_len()));
        }
    }
    fn enqueue(&mut self, p: &dyn Producer, len: usize, discard: bool) {
        self.sync(p);
        self.seq += 1;
        let mut d = vec![self.seq as u8; len.max(2)];
        d[..2].copy_from_slice(&self.seq.to_le_bytes());
        let want = d.len() + 2 <= if discard { p.capacity() } else { p.capacity() - self.used() };
        let got = p.enqueue(&d, discard);
        if got != want {
            self.wrong(format!("enqueue of {} bytes with {} of {} used and discard={discard} returned {got}", d.len(), self.used(), p.capacity()));
            return;
        }
        if !want {
            self.refused += 1;
            return;
        }
        while self.used() + d.len() + 2 > p.capacity() {
            let s = self.ring.pop_front().unwrap();
            self.evicted.push(s);
            self.n_evicted += 1;
        }
        self.content.insert(self.seq, d);
        self.ring.push_back(self.seq);
        self.accepted += 1;
        self.unseen = true;
        self.sync(p);
    }
}

struct Isr {
    rng: Rng,
    /// One in so many opportunities is used; 0: off
    rarity: usize,
    max_len: usize,
    discard: usize,
    trace: Vec<String>,
    place: u64,
    /// How often it may still happen during this call, which could go on for ever otherwise
    left: usize,
}

fn fire(log: &Rc<RefCell<Log>>, isr: &Rc<RefCell<Isr>>, p: &dyn Producer) {
    let mut i = isr.borrow_mut();
    i.place += 1;
    let rarity = i.rarity;
    if rarity == 0 || i.left == 0 || i.rng.below(rarity) != 0 {
        return;
    }
    i.left -= 1;
    let n = if i.rng.chance(1, 6) { i.rng.range(1, 6) } else { 1 };
    for _ in 0..n {
        let max = i.max_len;
        let len = i.rng.range(2, max.max(2));
        let d = i.discard;
        let discard = i.rng.below(4) < d;
        let mut l = log.borrow_mut();
        l.enqueue(p, len, discard);
        l.in_isr += 1;
        let h = i.place.wrapping_mul(131).wrapping_add(l.ring.len() as u64);
        l.shapes.insert(h);
        if i.trace.len() < 3000 {
            let text = format!("    interrupt at {}: enqueue #{} {len}B discard={discard}, ring {:?}", i.place, l.seq, l.ring);
            i.trace.push(text);
        }
    }
}

fn list(core: &SharedCore) -> Res<Vec<Vec<u8>>> {
    open_queue(&snapshot(core), 0).list().map_err(|e| Fail::new(format!("iterating over the flash returned {e:?}")))
}

fn interrupts(case: &mut Case) -> Res {
    let r = interrupts_inner(case);
    cs::set_hook(None);
    r
}

fn interrupts_inner(case: &mut Case) -> Res {
    let mut rng = case.rng.fork();
    let n = case.idx as usize % SHAREDS.len();
    let (g, cap) = SHAREDS[n];
    let pages = rng.range(2, 6);
    let core = core_of(g, pages, rng.below(3) as u32).shared();
    core.borrow_mut().yields = rng.chance(9, 10);
    let cache = rng.below(2);
    let mut dut = open_shared(n, &core, cache);
    dut.set_buf(core.borrow().e);
    let p = dut.producer();
    let max_len = (cap - 2).min(vcore::decode::max_data(&core.borrow())).min(*rng.pick(&[2usize, 4, 8, 40]));
    case.note(|| format!("geometry {g:?} pages {pages} ring {cap} cache {cache} items up to {max_len}"));
    let log = Rc::new(RefCell::new(Log::default()));
    let isr = Rc::new(RefCell::new(Isr {
        rng: rng.fork(),
        rarity: *rng.pick(&[2usize, 5, 12, 40, 100]),
        max_len,
        discard: rng.range(0, 4),
        trace: vec![],
        place: 0,
        left: 0,
    }));
    let sections = rng.chance(3, 4);
    {
        let (log, isr, p) = (log.clone(), isr.clone(), p.clone());
        cs::set_hook(Some(Box::new(move || {
            if sections {
                fire(&log, &isr, &*p);
            }
        })));
    }
    // What is in flash, oldest first, and which items may be there twice
    let mut flash: Vec<u16> = vec![];
    let mut twice: BTreeSet<u16> = BTreeSet::new();
    let faults = rng.chance(1, 4);
    for _ in 0..rng.range(5, 40) {
        let overwrite = rng.chance(1, 5);
        let task = match rng.below(10) {
            0 | 1 => Task::DrainOne { overwrite },
            2 | 3 => Task::DrainAll { overwrite },
            4 | 5 => Task::WaitAndDrainAll { overwrite },
            6 => Task::Wait,
            7 | 8 => Task::Pop { overwrite },
            _ => Task::Peek { overwrite },
        };
        // The task itself may enqueue as well
        if rng.chance(1, 3) {
            let (len, discard) = (rng.range(2, max_len.max(2)), rng.chance(1, 2));
            cs::quiet(|| log.borrow_mut().enqueue(&*p, len, discard));
            case.note(|| format!("enqueue #{} {len}B discard={discard}", log.borrow().seq));
        }
        let armed = faults && rng.chance(1, 6);
        if armed {
            core.borrow_mut().arm(Plan {
                when: When::Access { kinds: ANY, n: rng.below(20) as u64, part: rng.below(9) },
                mode: if rng.chance(1, 2) { Mode::Error } else { Mode::Cancel },
            });
        }
        {
            let mut l = log.borrow_mut();
            l.drained.clear();
            l.evicted.clear();
        }
        let start_ring: Vec<u16> = log.borrow().ring.iter().copied().collect();
        case.note(|| format!("{task:?} with ring {start_ring:?} flash {flash:?}"));
        let outcome = go(case, &mut *dut, &core, &log, &isr, &*p, task, &mut rng)?;
        case.eval();
        let fired = core.borrow_mut().disarm();
        cs::quiet(|| log.borrow_mut().sync(&*p));
        for t in isr.borrow_mut().trace.drain(..) {
            case.note(|| t);
        }
        case.note(|| format!("  -> {outcome:?}, ring {:?}", log.borrow().ring));
        let mut l = log.borrow_mut();
        if let Some(t) = l.trouble.take() {
            fail!("{task:?}: {t}");
        }
        let interrupted = match &outcome {
            None => matches!(task, Task::WaitAndDrainAll { .. } | Task::DrainOne { .. } | Task::DrainAll { .. } | Task::Pop { .. } | Task::Peek { .. }),
            Some(Err(e)) if e.interrupted() => true,
            Some(Err(E::Full)) => {
                ensure!(!overwrite, "{task:?} returned Full");
                false
            }
            Some(Err(e)) => fail!("{task:?} returned {e:?}"),
            Some(Ok(_)) => false,
        };
        ensure!(!interrupted || fired.is_some(), "{task:?} was interrupted by nothing");
        if interrupted {
            // The item that was being written may be there and in the ring too
            twice.extend(l.ring.front());
            twice.extend(l.evicted.iter());
            if pages == 1 {
                break;
            }
        }
        // What the flash holds now
        let now = list(&core)?;
        let mut seqs = vec![];
        for d in &now {
            let Some(s) = d.get(..2).map(|b| u16::from_le_bytes(b.try_into().unwrap())) else { fail!("{} in flash was never enqueued", hex(d)) };
            ensure!(l.content.get(&s) == Some(d), "{} in flash was never enqueued", hex(d));
            seqs.push(s);
        }
        ensure!(
            seqs.windows(2).all(|w| w[0] < w[1] || w[0] == w[1] && twice.contains(&w[0])),
            "{task:?}: items in flash are out of order or duplicated: {seqs:?}"
        );
        let popped = match (&task, &outcome) {
            (Task::Pop { .. }, Some(Ok(Ret::Item(i)))) => i.clone(),
            _ => None,
        };
        let seq_of = |d: &[u8]| d.get(..2).map(|b| u16::from_le_bytes(b.try_into().unwrap()));
        // Everything drained is in flash, nothing else that was not being written is
        let mut must: Vec<u16> = flash.iter().chain(l.drained.iter()).copied().collect();
        must.sort();
        must.dedup();
        case.count("drained", l.drained.len() as u64);
        if let Some(d) = &popped {
            let s = seq_of(d);
            ensure!(s.is_some_and(|s| l.content.get(&s) == Some(d)), "pop returned {} which was never enqueued", hex(d));
            let s = s.unwrap();
            let oldest = must.first().copied();
            if !overwrite {
                ensure!(
                    oldest == Some(s) || l.evicted.contains(&s) && oldest.is_none_or(|o| s < o),
                    "pop returned #{s} but the oldest is {oldest:?}"
                );
            }
            if oldest == Some(s) && !(twice.contains(&s) && seqs.first() == Some(&s)) {
                must.remove(0);
            }
            must.retain(|m| *m >= s);
        }
        if let (Task::Peek { .. }, Some(Ok(Ret::Item(i)))) = (&task, &outcome) {
            ensure!(*i == now.first().cloned(), "peek returned {:?} but the oldest is {:?}", i.as_ref().map(|d| hex(d)), seqs.first());
        }
        if let (Task::Pop { .. }, Some(Ok(Ret::Item(None)))) = (&task, &outcome) {
            ensure!(must.is_empty() && start_ring.is_empty(), "pop returned nothing although there are {must:?} and {start_ring:?}");
        }
        if interrupted && matches!(task, Task::Pop { .. }) && must.first().is_some_and(|m| !seqs.contains(m)) {
            // The interrupted pop may have happened
            must.remove(0);
        }
        let missing: Vec<_> = must.iter().filter(|m| !seqs.contains(m)).copied().collect();
        if overwrite {
            // Only the oldest ones may be gone
            let first = seqs.first().copied().unwrap_or(u16::MAX);
            ensure!(missing.iter().all(|m| *m < first), "{task:?}: {missing:?} are missing in flash {seqs:?}");
        } else {
            ensure!(missing.is_empty(), "{task:?}: accepted items {missing:?} are missing in flash {seqs:?}, drained were {:?}", l.drained);
        }
        for s in &seqs {
            let extra = !must.contains(s);
            ensure!(!extra || l.evicted.contains(s) || twice.contains(s), "{task:?}: #{s} is in flash although it was not drained");
            if extra && l.evicted.contains(s) {
                case.count("evicted_in_flight", 1);
            }
            ensure!(!l.ring.contains(s) || twice.contains(s), "#{s} is in flash and still in the ring");
        }
        flash = seqs;
        flash.dedup();
        // What the calls promise
        match (&task, &outcome) {
            (Task::DrainOne { .. }, Some(Ok(Ret::Bool(false)))) => {
                ensure!(start_ring.is_empty(), "drain_one returned false although the ring held {start_ring:?}")
            }
            (Task::DrainOne { .. }, Some(Ok(Ret::Bool(true)))) => {
                ensure!(l.drained.len() + l.evicted.len() > 0, "drain_one returned true but took nothing from the ring");
                ensure!(l.drained.len() <= 1, "drain_one took {:?} from the ring", l.drained);
            }
            (Task::DrainAll { .. } | Task::WaitAndDrainAll { .. } | Task::Pop { .. } | Task::Peek { .. }, Some(Ok(_))) => {
                let left: Vec<_> = start_ring.iter().filter(|s| l.ring.contains(s)).collect();
                ensure!(left.is_empty(), "{task:?} left {left:?} in the ring");
            }
            _ => {}
        }
        // Nothing is left behind without a wake-up
        if matches!(task, Task::WaitAndDrainAll { .. }) && matches!(outcome, Some(Ok(_))) && !l.ring.is_empty() {
            drop(l);
            let step = cs::quiet(|| {
                dut.start(Task::Wait);
                dut.step()
            });
            cs::quiet(|| dut.cancel());
            ensure!(
                step == Step::Done(Ok(Ret::Unit)),
                "after wait_and_drain_all the ring holds {:?} but no wake-up is pending",
                log.borrow().ring
            );
            case.count("caught_by_next_wait", 1);
            // Give the signal back
            log.borrow_mut().unseen = false;
        }
    }
    cs::set_hook(None);
    let l = log.borrow();
    case.count("accepted", l.accepted);
    case.count("refused", l.refused);
    case.count("evicted", l.n_evicted);
    case.count("enqueued_in_interrupt", l.in_isr);
    for s in &l.shapes {
        case.saw(s ^ (n as u64) << 40);
    }
    // The rest comes out in order
    drop(l);
    let mut last = None;
    for _ in 0..1000 {
        dut.start(Task::Pop { overwrite: true });
        let r = loop {
            if let Step::Done(r) = dut.step() {
                break r;
            }
        };
        match r {
            Ok(Ret::Item(Some(d))) => {
                let s = d.get(..2).map(|b| u16::from_le_bytes(b.try_into().unwrap()));
                ensure!(s.is_some_and(|s| log.borrow().content.get(&s) == Some(&d)), "{} was never enqueued", hex(&d));
                ensure!(last < s || last == s && twice.contains(&s.unwrap()), "#{s:?} after #{last:?}");
                last = s;
            }
            Ok(Ret::Item(None)) => break,
            r => fail!("the final pop returned {r:?}"),
        }
    }
    let l = log.borrow();
    if let Some(s) = l.ring.back() {
        // Items that were still waiting end with the newest one
        ensure!(last == Some(*s), "the newest waiting item #{s} was not delivered, the last was {last:?}");
    }
    Ok(())
}

/// Run one call of the task. None: it was cancelled, or waits for ever
#[allow(clippy::too_many_arguments)]
fn go(
    case: &mut Case,
    dut: &mut dyn b0::SharedDut,
    core: &SharedCore,
    log: &Rc<RefCell<Log>>,
    isr: &Rc<RefCell<Isr>>,
    p: &dyn Producer,
    task: Task,
    rng: &mut Rng,
) -> Res<Option<rig::Out<Ret>>> {
    dut.start(task);
    let waits = matches!(task, Task::Wait | Task::WaitAndDrainAll { .. });
    let quiet_flash = core.borrow().accesses();
    // Number of accepted items when the wait was certainly over
    let mut passed = None;
    let mut polls = 0;
    isr.borrow_mut().left = rng.range(1, 40);
    let end = |passed: Option<u64>| {
        if waits {
            let mut l = log.borrow_mut();
            l.unseen = passed.is_some_and(|p| l.accepted > p);
        }
    };
    loop {
        let wakes = dut.wakes();
        let unseen = log.borrow().unseen;
        let step = dut.step();
        polls += 1;
        cs::quiet(|| log.borrow_mut().sync(p));
        if log.borrow().trouble.is_some() {
            cs::quiet(|| dut.cancel());
            return Ok(Some(Ok(Ret::Unit)));
        }
        if passed.is_none() && core.borrow().accesses() > quiet_flash {
            passed = Some(log.borrow().accepted);
        }
        match step {
            Step::Done(r) => {
                end(passed);
                return Ok(Some(r));
            }
            Step::Pending => {
                if core.borrow().cancelled {
                    cs::quiet(|| dut.cancel());
                    end(passed);
                    return Ok(None);
                }
                if dut.wakes() == wakes {
                    // Nothing will poll it again unless something happens
                    ensure!(waits && passed.is_none(), "{task:?} waits for nothing");
                    ensure!(!unseen, "{task:?} waits although items were enqueued since the last wait");
                    if rng.chance(1, 4) && matches!(task, Task::Wait) {
                        cs::quiet(|| dut.cancel());
                        return Ok(Some(Ok(Ret::Unit)));
                    }
                    // An interrupt brings something
                    cs::quiet(|| log.borrow_mut().enqueue(p, 2, true));
                    if let Some(t) = log.borrow_mut().trouble.take() {
                        fail!("{t}");
                    }
                    ensure!(dut.wakes() > wakes, "an item was enqueued but the waiting {task:?} was not woken");
                    case.count("woken", 1);
                    continue;
                }
                // Between two polls anything can happen
                cs::quiet(|| fire(log, isr, p));
                ensure!(polls < 200_000, "{task:?} does not come to an end");
            }
        }
    }
}

// ---------------------------------------------------------------- calls preempted by others

/// What happens while another call is under way
#[derive(Debug, Clone)]
enum Nest {
    Enqueue(Vec<u8>, bool, bool),
    Drain(bool),
}

/// Ring and flash
type Both = (VecDeque<Vec<u8>>, Vec<Vec<u8>>);

/// Apply a call to the model; None: it cannot have returned what it did
fn apply(s: &mut Both, cap: usize, op: &Nest) -> Option<()> {
    let used = |r: &VecDeque<Vec<u8>>| r.iter().map(|d| d.len() + 2).sum::<usize>();
    match op {
        Nest::Enqueue(d, discard, ok) => {
            let fits = d.len() + 2 <= if *discard { cap } else { cap - used(&s.0) };
            if fits != *ok {
                return None;
            }
            if fits {
                while used(&s.0) + d.len() + 2 > cap {
                    s.0.pop_front();
                }
                s.0.push_back(d.clone());
            }
        }
        Nest::Drain(ok) => {
            let d = s.0.pop_front();
            if d.is_some() != *ok {
                return None;
            }
            s.1.extend(d);
        }
    }
    Some(())
}

/// An enqueue is preempted by other enqueues and by the drain task: it has to behave as if it
/// happened at one moment between them
fn preempted(case: &mut Case) -> Res {
    let r = preempted_inner(case);
    cs::set_hook(None);
    r
}

struct Preempt {
    rng: Rng,
    left: usize,
    ops: Vec<Nest>,
    seq: u8,
    trouble: Option<String>,
}

fn preempted_inner(case: &mut Case) -> Res {
    let mut rng = case.rng.fork();
    let n = case.idx as usize % SHAREDS.len();
    let (g, cap) = SHAREDS[n];
    let core = core_of(g, 6, 0).shared();
    core.borrow_mut().yields = false;
    let dut = Rc::new(RefCell::new(open_shared(n, &core, 0)));
    dut.borrow_mut().set_buf(core.borrow().e);
    let p = dut.borrow().producer();
    let max = (cap - 2).min(decode_max(&core)).min(*rng.pick(&[2usize, 5, 12, 40]));
    let drains = rng.chance(1, 2);
    let st = Rc::new(RefCell::new(Preempt { rng: rng.fork(), left: 0, ops: vec![], seq: 0, trouble: None }));
    fn data(rng: &mut Rng, max: usize, seq: &mut u8) -> Vec<u8> {
        *seq = seq.wrapping_add(1);
        vec![*seq; rng.range(1, max)]
    }
    fn drain(dut: &RefCell<Box<dyn b0::SharedDut>>, task: Task) -> Res<Ret> {
        let mut dut = dut.borrow_mut();
        dut.start(task);
        for _ in 0..100_000 {
            match dut.step() {
                Step::Done(Ok(r)) => return Ok(r),
                Step::Done(Err(e)) => fail!("{task:?} returned {e:?}"),
                Step::Pending => {}
            }
        }
        fail!("{task:?} does not come to an end")
    }
    let hook = {
        let (st, p, dut) = (st.clone(), p.clone(), dut.clone());
        move || {
            let mut s = st.borrow_mut();
            let s = &mut *s;
            if s.left == 0 || s.rng.chance(1, 2) {
                return;
            }
            for _ in 0..s.rng.range(1, 3) {
                if s.left == 0 {
                    return;
                }
                s.left -= 1;
                if drains && s.rng.chance(1, 2) {
                    match drain(&dut, Task::DrainOne { overwrite: false }) {
                        Ok(Ret::Bool(b)) => s.ops.push(Nest::Drain(b)),
                        Ok(r) => s.trouble = Some(format!("drain_one returned {r:?}")),
                        Err(e) => s.trouble = Some(e.msg),
                    }
                } else {
                    let d = data(&mut s.rng, max, &mut s.seq);
                    let discard = s.rng.chance(1, 2);
                    let ok = p.enqueue(&d, discard);
                    s.ops.push(Nest::Enqueue(d, discard, ok));
                }
            }
        }
    };
    cs::set_hook(Some(Box::new(hook)));
    for _ in 0..rng.range(10, 30) {
        // Something in the ring, nothing in flash
        let mut start: Both = (VecDeque::new(), vec![]);
        let fill = rng.below(cap + 3);
        cs::quiet(|| {
            while start.0.iter().map(|d| d.len() + 2).sum::<usize>() < fill {
                let d = data(&mut rng, max, &mut st.borrow_mut().seq);
                let op = Nest::Enqueue(d.clone(), false, p.enqueue(&d, false));
                if apply(&mut start, cap, &op).is_none() {
                    fail!("{op:?} with the ring {:?} of {cap}", start.0);
                }
                if matches!(op, Nest::Enqueue(_, _, false)) {
                    break;
                }
            }
            Ok(())
        })?;
        let d = data(&mut rng, max, &mut st.borrow_mut().seq);
        let discard = rng.chance(2, 3);
        {
            let mut s = st.borrow_mut();
            s.ops.clear();
            s.left = rng.range(1, 4);
        }
        let ok = p.enqueue(&d, discard);
        let outer = Nest::Enqueue(d, discard, ok);
        let ops = {
            let mut s = st.borrow_mut();
            s.left = 0;
            if let Some(t) = s.trouble.take() {
                fail!("{t}");
            }
            s.ops.clone()
        };
        case.eval();
        case.count("preempted", u64::from(!ops.is_empty()));
        let (used, pending, oldest) = cs::quiet(|| (cap - p.free(), p.pending(), p.oldest_len()));
        let accepted = ops.iter().chain([&outer]).any(|o| matches!(o, Nest::Enqueue(_, _, true))) || !start.0.is_empty();
        // Everything comes out
        let mut out: Both = (VecDeque::new(), vec![]);
        cs::quiet(|| {
            if accepted {
                let mut dut = dut.borrow_mut();
                dut.start(Task::Wait);
                let step = dut.step();
                dut.cancel();
                ensure!(step == Step::Done(Ok(Ret::Unit)), "items were enqueued, but there is nothing to wake a waiting task");
            }
            out.1 = list(&core)?;
            drain(&dut, Task::DrainAll { overwrite: false })?;
            let all = list(&core)?;
            ensure!(all.starts_with(&out.1), "draining changed the items in flash");
            out.0 = all[out.1.len()..].iter().cloned().collect();
            while !matches!(drain(&dut, Task::Pop { overwrite: false })?, Ret::Item(None)) {}
            Ok(())
        })?;
        ensure!(
            used == out.0.iter().map(|d| d.len() + 2).sum() && pending == out.0.len() && oldest == out.0.front().map(Vec::len),
            "{used} bytes and {pending} items were reported, the oldest with {oldest:?} bytes, but {:?} came out",
            out.0
        );
        let mut evicts = false;
        let fits = (0..=ops.len()).any(|at| {
            let mut s = start.clone();
            let order = ops[..at].iter().chain([&outer]).chain(&ops[at..]);
            let mut total = start.0.len();
            for op in order {
                if apply(&mut s, cap, op).is_none() {
                    return false;
                }
                total += usize::from(matches!(op, Nest::Enqueue(_, _, true)));
            }
            evicts = s.0.len() + s.1.len() < total;
            s == out
        });
        case.saw(vcore::hash_bytes(n as u64, format!("{} {ops:?}", start.0.len()).replace(char::is_numeric, "").as_bytes()));
        case.count("preempted_eviction", u64::from(evicts && !ops.is_empty()));
        let short = |s: &Both| format!("ring {:?} flash {:?}", s.0.iter().map(|d| (d[0], d.len())).collect::<Vec<_>>(), s.1.iter().map(|d| (d[0], d.len())).collect::<Vec<_>>());
        ensure!(
            fits,
            "ring of {cap}, {}: {outer:?} while {ops:?} happened gives {}: no order explains that",
            short(&start),
            short(&out)
        );
    }
    Ok(())
}

fn decode_max(core: &SharedCore) -> usize {
    vcore::decode::max_data(&core.borrow())
}

// ---------------------------------------------------------------- real threads

fn real_threads(case: &mut Case) -> Res {
    let mut rng = case.rng.fork();
    let producers = rng.range(2, 4);
    let discard = rng.below(3);
    let total = 2500;
    let items: Vec<(Vec<u8>, bool)> = (0..total)
        .map(|i: u32| {
            let mut d = vec![(i % 251) as u8; rng.range(4, 18)];
            d[..4].copy_from_slice(&i.to_le_bytes());
            (d, discard == 2 || discard == 1 && rng.chance(1, 2))
        })
        .collect();
    case.note(|| format!("{producers} producers, discard mode {discard}"));
    let t = if rng.chance(1, 2) { b0::threads::<60>(&items, producers) } else { b0::threads::<200>(&items, producers) };
    case.eval();
    ensure!(t.errors.is_empty(), "the drain task got {:?}", t.errors);
    ensure!(t.left_behind == 0, "{} items were left in the ring without a wake-up", t.left_behind);
    let accepted: usize = t.accepted.iter().map(Vec::len).sum();
    case.count("thread_items", accepted as u64);
    case.count("thread_refused", t.refused);
    case.count("thread_drains", t.drains);
    case.saw(t.drains << 20 ^ t.refused);
    // Per producer the delivered ones are an ordered selection of the accepted ones
    let mut seen = BTreeSet::new();
    let mut next = vec![0usize; producers];
    for d in &t.delivered {
        let id = d.get(..4).map(|b| u32::from_le_bytes(b.try_into().unwrap()));
        let Some(id) = id.filter(|i| (*i as usize) < items.len()) else { fail!("{} was delivered but never enqueued", hex(d)) };
        ensure!(items[id as usize].0 == *d, "item {id} was delivered as {}", hex(d));
        ensure!(seen.insert(id), "item {id} was delivered twice");
        let who = id as usize % producers;
        match t.accepted[who][next[who]..].iter().position(|a| a == d) {
            Some(i) => next[who] += i + 1,
            None => fail!("item {id} was delivered out of order or was not accepted"),
        }
    }
    if discard == 0 {
        ensure!(t.delivered.len() == accepted, "{accepted} items were accepted but {} delivered", t.delivered.len());
    }
    Ok(())
}
