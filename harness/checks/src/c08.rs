//! C08: flash accesses stay inside the range and within the contract
//! C09: words are programmed once per erase, headers of removed items once more
//! C10: pages are reused cyclically
//! C22: looking does not change anything, every call does bounded work
use crate::common::*;
use crate::dut::{open_map, open_queue};
use rig::map::MapDut;
use rig::queue::QueueDut;
use rig::{E, GEOMS, Out};
use vcore::flash::{ANY, MUTATE, When};
use vcore::{Case, Core, Ctx, Mode, Plan, Res, Rng, SharedCore, decode, ensure, fail};

fn setup(case: &mut Case, queue: bool) -> (Rng, SharedCore, usize) {
    let mut rng = case.rng.fork();
    let g = if case.idx % 2 == 0 { GEOMS[(case.idx / 2) as usize % GEOMS.len()] } else { pick_geom(&mut rng) };
    let pages = if queue && rng.chance(1, 8) { 1 } else { pick_pages(&mut rng, 2) };
    let (g, pages) = rescale(&mut rng, g, pages);
    let base = pick_base(&mut rng, g, pages);
    let n = if queue { rig::queue::caches(g) } else { rig::map::caches(g) };
    let cache = rng.below(n);
    let name = if queue { rig::queue::CACHE_NAMES[cache] } else { rig::map::CACHE_NAMES[cache] };
    case.note(|| format!("geometry {g:?} pages {pages} base {base} cache {name}"));
    (rng, core_of(g, pages, base).shared(), cache)
}

enum Dut {
    Map(Box<dyn MapDut>, MapGen, MapModel),
    Queue(Box<dyn QueueDut>, QGen),
}

enum Op {
    Map(MapOp),
    Queue(QOp),
}

impl Op {
    fn show(&self) -> String {
        match self {
            Op::Map(o) => o.show(),
            Op::Queue(o) => o.show(),
        }
    }
    /// Calls that may program the headers of items again
    fn pops(&self) -> bool {
        matches!(
            self,
            Op::Map(MapOp::Remove(_) | MapOp::RemoveAll) | Op::Queue(QOp::Pop | QOp::Walk { .. })
        )
    }
    fn erase_all(&self) -> bool {
        matches!(self, Op::Map(MapOp::EraseAll) | Op::Queue(QOp::EraseAll))
    }
    fn looks(&self) -> bool {
        matches!(
            self,
            Op::Map(MapOp::Fetch(_) | MapOp::Iterate)
                | Op::Queue(QOp::Peek | QOp::MaxFit | QOp::SpaceLeft | QOp::Walk { mask: 0, .. })
        )
    }
}

impl Dut {
    fn open(rng: &mut Rng, core: &SharedCore, cache: usize, queue: bool) -> Dut {
        if queue {
            Dut::Queue(open_queue(core, cache), QGen::new(rng, &core.borrow()))
        } else {
            let mut g = MapGen::new(rng, &core.borrow());
            // Looking is more interesting here
            if rng.chance(1, 3) {
                g.weights = [20, 8, 6, 1, 1, 4, 2];
            }
            Dut::Map(open_map(core, cache), g, MapModel::default())
        }
    }
    fn reopen(&mut self, core: &SharedCore, cache: usize) {
        match self {
            Dut::Map(d, ..) => *d = open_map(core, cache),
            Dut::Queue(d, _) => *d = open_queue(core, cache),
        }
    }
    fn op(&mut self, rng: &mut Rng, core: &SharedCore) -> Op {
        match self {
            Dut::Map(_, g, m) => Op::Map(g.op(rng, m, &core.borrow())),
            Dut::Queue(_, g) => Op::Queue(g.op(rng)),
        }
    }
    /// Returns the result in comparable form
    fn run(&mut self, op: &Op) -> Out<String> {
        match (self, op) {
            (Dut::Map(d, _, m), Op::Map(op)) => {
                let r = map_do(&mut **d, op);
                match &r {
                    Ok(_) => m.done(op),
                    Err(_) => m.maybe(op),
                }
                r.map(|r| format!("{r:?}"))
            }
            (Dut::Queue(d, _), Op::Queue(op)) => q_do(&mut **d, op).map(|r| format!("{r:?}")),
            _ => unreachable!(),
        }
    }
}

fn short(o: &Out<String>) -> String {
    match o {
        Ok(s) => s.chars().take(100).collect(),
        Err(e) => format!("{e:?}"),
    }
}

fn contract(core: &SharedCore, what: &str) -> Res {
    let c = core.borrow();
    if let Some((_, text)) = c.viol.iter().find(|v| v.0 != "zero-to-one") {
        fail!("{what}: {text}");
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "one evaluation per call all of whose flash accesses were checked against range, alignment, length and buffer alignment; distinct = layouts".into();
    ctx.assumptions = vec!["the caller's buffers are aligned to 4 bytes in the batches that check buffer alignment".into()];
    ctx.batch("map", 5000, 80_000, |c| access(c, false));
    ctx.batch("queue", 5000, 80_000, |c| access(c, true));
    ctx.batch("scale", 16, 100, |c| scaled(c, |c| access(c, c.idx % 2 == 0)));
    ctx.require("accesses", 5_000_000);
    ctx.require("faulty_calls", 10_000);
    ctx.require("bit_flips", 2000);
    ctx.require("garbage_images", 500);
    ctx.require("end_of_address_space", 500);
}

fn access(case: &mut Case, queue: bool) -> Res {
    let (mut rng, core, cache) = setup(case, queue);
    let kind = rng.below(6);
    if core.borrow().base > u32::MAX / 2 {
        case.count("end_of_address_space", 1);
    }
    if kind == 5 {
        crate::hostile::scramble(&mut rng, &mut core.borrow_mut());
        case.count("garbage_images", 1);
    }
    let mut dut = Dut::open(&mut rng, &core, cache, queue);
    let faults = if (1..3).contains(&kind) { 3 } else { 0 };
    let flips = if kind == 3 { 1 } else { 0 };
    for _ in 0..steps(rng.range(15, 90), &core) {
        let op = dut.op(&mut rng, &core);
        if rng.below(10) < faults {
            let part = if rng.chance(1, 2) { usize::MAX } else { rng.below(40) };
            let mode = match rng.below(3) {
                0 => Mode::PowerLoss,
                1 => Mode::Error,
                _ => Mode::Cancel,
            };
            let (kinds, n) = if rng.chance(1, 2) { (MUTATE, rng.below(4)) } else { (ANY, rng.below(60)) };
            core.borrow_mut().arm(Plan { when: When::Access { kinds, n: n as u64, part }, mode });
        }
        if rng.below(10) < flips {
            let mut c = core.borrow_mut();
            let off = rng.below(c.mem.len());
            c.flip(off, 1 << rng.below(8));
            drop(c);
            dut.reopen(&core, cache);
            case.count("bit_flips", 1);
        }
        let before = core.borrow().accesses();
        let out = dut.run(&op);
        case.note(|| format!("{} -> {}", op.show(), short(&out)));
        case.eval();
        case.count("accesses", core.borrow().accesses() - before);
        contract(&core, &op.show())?;
        let dead = core.borrow().dead;
        let fired = core.borrow_mut().disarm().is_some();
        core.borrow_mut().revive();
        case.count("faulty_calls", u64::from(fired));
        if dead {
            dut.reopen(&core, cache);
        }
        if matches!(out, Err(E::Panic(_) | E::Hang)) {
            // Judged by C13
            dut.reopen(&core, cache);
        }
        saw_layout(case, &core);
    }
    Ok(())
}

// ---------------------------------------------------------------- C09

pub fn run9(ctx: &mut Ctx) {
    ctx.rule = "one evaluation per call all of whose writes were checked against what the words held and how often they were programmed since their erase; distinct = layouts".into();
    ctx.assumptions = vec!["fault-free flash".into()];
    ctx.batch("map", 6000, 80_000, |c| programs(c, false));
    ctx.batch("queue", 6000, 80_000, |c| programs(c, true));
    ctx.batch("scale", 16, 100, |c| scaled(c, |c| programs(c, c.idx % 2 == 0)));
    ctx.require("words_programmed", 1_000_000);
    ctx.require("words_programmed_twice", 50_000);
    ctx.require("once_only_histories", 500);
}

fn programs(case: &mut Case, queue: bool) -> Res {
    let (mut rng, core, cache) = setup(case, queue);
    let mut dut = Dut::open(&mut rng, &core, cache, queue);
    let once = rng.chance(1, 5);
    let mut ever_twice = false;
    for _ in 0..steps(rng.range(25, 120), &core) {
        let op = dut.op(&mut rng, &core);
        if once && op.pops() {
            continue;
        }
        let before = decode::pages(&core.borrow());
        core.borrow_mut().reprog.clear();
        let words0 = core.borrow().mut_bytes;
        let out = dut.run(&op);
        case.note(|| format!("{} -> {}", op.show(), short(&out)));
        case.eval();
        let c = core.borrow();
        case.count("words_programmed", (c.mut_bytes - words0) / c.w as u64);
        case.count("words_programmed_twice", c.reprog.len() as u64);
        if let Some((_, text)) = c.viol.iter().find(|v| v.0 == "zero-to-one") {
            fail!("{}: {text}", op.show());
        }
        if let Some(w) = c.wcount.iter().position(|n| *n > 2) {
            fail!("{}: the word at offset {:#x} was programmed {} times", op.show(), w * c.w, c.wcount[w]);
        }
        if !c.reprog.is_empty() {
            ever_twice = true;
            ensure!(op.pops(), "{} programmed the word at offset {:#x} again", op.show(), c.reprog[0]);
            let header = decode::up(decode::HEADER, c.word());
            for w in &c.reprog {
                let w = *w as usize;
                let inside = before.iter().flat_map(|p| &p.items).any(|i| !i.erased && (i.off..i.off + header).contains(&w));
                ensure!(inside, "{} programmed the word at offset {w:#x} again, which is not in the header of a stored item", op.show());
            }
            let mut words = c.reprog.clone();
            words.sort_unstable();
            words.dedup();
            ensure!(words.len() == c.reprog.len(), "{} programmed a word more than once more", op.show());
        }
        drop(c);
        saw_layout(case, &core);
    }
    if once {
        ensure!(!ever_twice, "a history without removals programmed a word twice");
        case.count("once_only_histories", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C10

pub fn run10(ctx: &mut Ctx) {
    ctx.rule = "one evaluation per call whose erases were checked for order, necessity and content; distinct = layouts".into();
    ctx.assumptions = vec!["fault-free flash; a store is considered to fit when it fits behind the last item of the page in use, by an independent decoder".into()];
    ctx.batch("map", 6000, 80_000, |c| wear(c, false));
    ctx.batch("queue", 6000, 80_000, |c| wear(c, true));
    ctx.batch("scale", 16, 100, |c| scaled(c, |c| wear(c, c.idx % 2 == 0)));
    ctx.require("erases", 100_000);
    ctx.require("rounds", 5000);
    ctx.require("fitting_stores", 100_000);
    ctx.require("looks", 50_000);
}

/// Bytes free behind the last item of the page in use
fn room_here(c: &Core) -> Option<usize> {
    let v = q_view(c).ok()?;
    let y = &v.pages[v.youngest];
    Some(y.end - y.free)
}

fn wear(case: &mut Case, queue: bool) -> Res {
    let (mut rng, core, cache) = setup(case, queue);
    let mut dut = Dut::open(&mut rng, &core, cache, queue);
    core.borrow_mut().log_on = true;
    // Some histories start with pages that were used and erased before, at a different position
    let pages = core.borrow().pages();
    let mut last: Option<usize> = None;
    let mut since = vec![0u32; pages];
    for _ in 0..steps(rng.range(40, 250), &core) {
        let op = dut.op(&mut rng, &core);
        let room = room_here(&core.borrow());
        core.borrow_mut().erase_log.clear();
        core.borrow_mut().log.clear();
        let out = dut.run(&op);
        case.note(|| format!("{} -> {}", op.show(), short(&out)));
        case.eval();
        let c = core.borrow();
        if op.erase_all() {
            since.fill(0);
            last = None;
            continue;
        }
        for ev in c.log.iter().filter(|e| e.kind == vcore::flash::ERASE) {
            ensure!(ev.len as usize == c.e, "{} erased {} bytes at once", op.show(), ev.len);
        }
        for (p, live) in &c.erase_log {
            case.note(|| format!("  erased page {p} with {live} live items"));
            case.count("erases", 1);
            if let Some(l) = last {
                ensure!(*p == (l + 1) % pages, "{} erased page {p} although page {l} was erased last", op.show());
            }
            last = Some(*p);
            since[*p] += 1;
            if *p == 0 {
                case.count("rounds", 1);
            }
            match &op {
                Op::Map(MapOp::Store { .. }) => {}
                Op::Queue(QOp::Push { overwrite: true, .. }) => {}
                _ => ensure!(*live == 0 && queue, "{} erased page {p} with {live} live items", op.show()),
            }
        }
        let (lo, hi) = (since.iter().min().unwrap(), since.iter().max().unwrap());
        ensure!(hi - lo <= 1, "{}: the pages were erased {since:?} times", op.show());
        let len = match &op {
            Op::Map(MapOp::Store { k, v, .. }) => Some(data_len(k, v)),
            Op::Queue(QOp::Push { data, .. }) => Some(data.len()),
            _ => None,
        };
        match (len, room) {
            (Some(len), Some(room)) => {
                if decode::footprint(&c, len) <= room {
                    case.count("fitting_stores", 1);
                    ensure!(c.erase_log.is_empty(), "{} erased pages although it fits in the page in use", op.show());
                } else if queue {
                    ensure!(c.erase_log.len() <= 1, "{} erased more than one page", op.show());
                } else if out.is_ok() && c.erase_log.len() < pages {
                    // It only moves on from pages that have no room for it
                    let v = q_view(&c).map_err(vcore::Fail::new)?;
                    for back in 1..c.erase_log.len() {
                        let left = &v.pages[(v.youngest + pages - back) % pages];
                        case.count("moved_on", 1);
                        ensure!(
                            decode::footprint(&c, len) > left.end - left.free,
                            "{} erased another page although the {} bytes behind the last item of the page before were enough",
                            op.show(),
                            left.end - left.free
                        );
                    }
                }
            }
            _ => {
                case.count("looks", 1);
                ensure!(queue || c.erase_log.is_empty(), "{} erased a page", op.show());
                if matches!(op, Op::Queue(QOp::MaxFit | QOp::SpaceLeft | QOp::Recreate)) {
                    ensure!(c.erase_log.is_empty(), "{} erased a page", op.show());
                }
            }
        }
        drop(c);
        saw_layout(case, &core);
    }
    Ok(())
}

// ---------------------------------------------------------------- C22

pub fn run22(ctx: &mut Ctx) {
    ctx.rule = "one evaluation per call that was checked for side effects, repeatability or its number of flash accesses; distinct = layouts".into();
    ctx.assumptions = vec!["fault-free flash; the access bounds are several times what the current code needs".into()];
    ctx.batch("map", 5000, 60_000, |c| look(c, false));
    ctx.batch("queue", 5000, 60_000, |c| look(c, true));
    ctx.batch("scale", 16, 100, |c| scaled(c, |c| look(c, c.idx % 2 == 0)));
    ctx.require("looks", 60_000);
    ctx.require("bounded_calls", 300_000);
    ctx.require("popped_pages_erased", 100);
}

fn look(case: &mut Case, queue: bool) -> Res {
    let (mut rng, core, cache) = setup(case, queue);
    let mut dut = Dut::open(&mut rng, &core, cache, queue);
    core.borrow_mut().log_on = true;
    for _ in 0..steps(rng.range(25, 120), &core) {
        let op = dut.op(&mut rng, &core);
        let before = core.borrow().image();
        {
            let mut c = core.borrow_mut();
            c.erase_log.clear();
            c.log.clear();
            (c.n_reads, c.n_writes, c.n_erases) = (0, 0, 0);
        }
        let out = dut.run(&op);
        case.note(|| format!("{} -> {} with {} accesses", op.show(), short(&out), core.borrow().accesses()));
        case.eval();
        bounded(case, &before, &core.borrow(), &op)?;
        if op.looks() {
            case.count("looks", 1);
            {
                let c = core.borrow();
                ensure!(c.n_writes == 0, "{} wrote to the flash", op.show());
                ensure!(c.n_erases == 0 || matches!(op, Op::Queue(QOp::Peek | QOp::Walk { .. })), "{} erased a page", op.show());
                for (p, live) in &c.erase_log {
                    ensure!(*live == 0, "{} erased page {p} with {live} live items", op.show());
                    case.count("popped_pages_erased", 1);
                }
            }
            let again = dut.run(&op);
            ensure!(again == out, "{} returned {} and then {}", op.show(), short(&out), short(&again));
            core.borrow_mut().log.clear();
            core.borrow_mut().erase_log.clear();
        }
        saw_layout(case, &core);
    }
    Ok(())
}

/// Calls make a number of accesses linear in the size of the range; storing may scan once per item moved
fn bounded(case: &mut Case, before: &Core, c: &Core, op: &Op) -> Res {
    case.count("bounded_calls", 1);
    let pages = c.pages() as u64;
    let items = decode::pages(before).iter().map(|p| p.items.len() as u64).sum::<u64>() + 1;
    let unit = pages + items;
    let n = c.accesses();
    let (class, limit) = match op {
        Op::Map(MapOp::Store { .. }) => {
            let most = decode::pages(before).iter().map(|p| p.items.len() as u64).max().unwrap_or(0) + 2;
            let steps = c.n_erases + 1;
            (0, 8 * unit * most * steps + 60)
        }
        Op::Map(MapOp::Fetch(_)) => (1, 10 * unit + 40),
        Op::Map(MapOp::Remove(_) | MapOp::RemoveAll) => (2, 12 * unit + 40),
        Op::Map(MapOp::Iterate) => (3, 10 * unit + 40),
        Op::Queue(QOp::Walk { .. }) => (4, 16 * unit + 40),
        Op::Queue(QOp::Push { .. }) => (5, 12 * unit + 40),
        Op::Queue(_) => (6, 14 * unit + 40),
        Op::Map(_) => (7, 8 * unit + 40),
    };
    if std::env::var_os("RATIO").is_some() {
        use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
        static MAX: [AtomicU64; 8] = [const { AtomicU64::new(0) }; 8];
        let r = n * 1000 / limit;
        if MAX[class].fetch_max(r, Relaxed) < r {
            println!("class {class}: {r}/1000 n {n} unit {unit}");
        }
    }
    ensure!(n <= limit, "{} made {n} flash accesses with {items} items on {pages} pages", op.show());
    Ok(())
}
