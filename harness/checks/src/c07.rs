//! C07: caches never change what any call returns or writes
use crate::common::*;
use crate::dut::{open_map, open_queue};
use rig::{FULL_GEOMS, GEOMS};
use vcore::flash::{MUTATE, When};
use vcore::{Case, Ctx, Mode, Plan, Res, Rng, SharedCore, decode, ensure, fail};

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "one evaluation per call made on a cached and an uncached storage and compared in result, writes, erases and flash content; distinct = layouts".into();
    ctx.assumptions = vec![
        "faults are injected at the same write or erase of both storages (reads differ by design)".into(),
        "no fault is injected in erase_all, nor in a call that erases the page of a single page queue".into(),
    ];
    ctx.batch("map", 6000, 100_000, map);
    ctx.batch("queue", 6000, 100_000, queue);
    ctx.batch("scale_map", 30, 200, |c| scaled(c, map));
    ctx.batch("scale_queue", 12, 100, |c| scaled(c, queue));
    ctx.require("map_calls", 200_000);
    ctx.require("queue_calls", 200_000);
    ctx.require("faults", 20_000);
    ctx.require("recreations", 5000);
    ctx.require("erase_alls", 300);
}

struct Pair {
    a: SharedCore,
    b: SharedCore,
    cache: usize,
}

fn setup(case: &mut Case, queue: bool) -> (Rng, Pair) {
    let mut rng = case.rng.fork();
    let g = if rng.chance(3, 4) { *rng.pick(FULL_GEOMS) } else { *rng.pick(GEOMS) };
    let pages = pick_pages(&mut rng, if queue { 1 } else { 2 });
    let (g, pages) = rescale(&mut rng, g, pages);
    let base = pick_base(&mut rng, g, pages);
    let n = if queue { rig::queue::caches(g) } else { rig::map::caches(g) };
    let mut cache = 1 + (case.idx as usize) % (n - 1);
    if matches!(scale(), 1 | 4) && !queue && rng.chance(1, 2) {
        // Many cached keys
        cache = 9;
    }
    let name = if queue { rig::queue::CACHE_NAMES[cache] } else { rig::map::CACHE_NAMES[cache] };
    case.note(|| format!("geometry {g:?} pages {pages} base {base} cache {name}"));
    let p = Pair { a: core_of(g, pages, base).shared(), b: core_of(g, pages, base).shared(), cache };
    for c in [&p.a, &p.b] {
        c.borrow_mut().log_on = true;
    }
    (rng, p)
}

fn plan(rng: &mut Rng, probe: &vcore::Core) -> Option<Plan> {
    let muts = probe.n_writes + probe.n_erases;
    // The erase of the page of a single page queue is not resumable (see C06)
    if muts == 0 || (probe.n_erases > 0 && probe.mem.len() == probe.e) {
        return None;
    }
    let part = match rng.below(4) {
        0 => 0,
        1 => usize::MAX,
        2 => rng.below(9),
        _ => rng.below(probe.e),
    };
    let mode = if rng.chance(1, 2) { Mode::Cancel } else { Mode::Error };
    Some(Plan { when: When::Access { kinds: MUTATE, n: rng.next() % muts, part }, mode })
}

/// The two flashes did the same writes and erases and hold the same
fn same(p: &Pair, what: &str) -> Res {
    let (mut a, mut b) = (p.a.borrow_mut(), p.b.borrow_mut());
    let la: Vec<_> = std::mem::take(&mut a.log).into_iter().filter(|e| e.kind & MUTATE != 0).collect();
    let lb: Vec<_> = std::mem::take(&mut b.log).into_iter().filter(|e| e.kind & MUTATE != 0).collect();
    ensure!(la == lb, "{what}: writes and erases differ.\nuncached: {la:x?}\ncached:   {lb:x?}");
    if let Some(i) = (0..a.mem.len()).find(|i| a.mem[*i] != b.mem[*i]) {
        fail!("{what}: flash differs at offset {i:#x}: uncached {:02x}, cached {:02x}", a.mem[i], b.mem[i]);
    }
    Ok(())
}

fn disarm(case: &mut Case, p: &Pair) -> Res<bool> {
    let fa = p.a.borrow_mut().disarm();
    let fb = p.b.borrow_mut().disarm();
    ensure!(fa == fb, "the fault hit different accesses: {fa:?} and {fb:?}");
    if fa.is_some() {
        case.count("faults", 1);
    }
    Ok(fa.is_some())
}

fn map(case: &mut Case) -> Res {
    let (mut rng, p) = setup(case, false);
    let mut a = open_map(&p.a, 0);
    let mut b = open_map(&p.b, p.cache);
    let mut gen_ = MapGen::new(&mut rng, &p.a.borrow());
    // Fullness is allowed here: half of the cases do not care about room
    let careless = rng.chance(1, 2);
    let faults = *rng.pick(&[0usize, 0, 1, 3]);
    let mut model = MapModel::default();
    for _ in 0..steps(rng.range(20, 120), &p.a) {
        let full = MapModel::default();
        let op = gen_.op(&mut rng, if careless { &full } else { &model }, &p.a.borrow());
        if faults > 0 && rng.below(10) < faults && op != MapOp::Recreate && op != MapOp::EraseAll {
            let copy = snapshot(&p.a);
            let _ = map_do(&mut *open_map(&copy, 0), &op);
            if let Some(pl) = plan(&mut rng, &copy.borrow()) {
                p.a.borrow_mut().arm(pl);
                p.b.borrow_mut().arm(pl);
            }
        }
        let ra = map_do(&mut *a, &op);
        let rb = map_do(&mut *b, &op);
        case.note(|| format!("{} -> {}", op.show(), show_out(&ra)));
        case.eval();
        case.count("map_calls", 1);
        case.count("recreations", u64::from(op == MapOp::Recreate));
        case.count("erase_alls", u64::from(op == MapOp::EraseAll));
        ensure!(ra == rb, "{}: uncached returned {} but cached returned {}", op.show(), show_out(&ra), show_out(&rb));
        if let Err(rig::E::Panic(m)) = &ra {
            fail!("{} panicked: {m}", op.show());
        }
        let fired = disarm(case, &p)?;
        same(&p, &op.show())?;
        if ra.is_ok() {
            model.done(&op);
        } else if fired {
            model.maybe(&op);
        }
        saw_layout(case, &p.a);
    }
    Ok(())
}

fn queue(case: &mut Case) -> Res {
    let (mut rng, p) = setup(case, true);
    let mut a = open_queue(&p.a, 0);
    let mut b = open_queue(&p.b, p.cache);
    let mut gen_ = QGen::new(&mut rng, &p.a.borrow());
    let faults = *rng.pick(&[0usize, 0, 1, 3]);
    for _ in 0..steps(rng.range(20, 140), &p.a) {
        let mut op = gen_.op(&mut rng);
        if let QOp::Walk { retries, .. } = &mut op {
            *retries = rng.below(3);
        }
        if faults > 0 && rng.below(10) < faults && op != QOp::Recreate && op != QOp::EraseAll {
            let copy = snapshot(&p.a);
            let _ = q_do(&mut *open_queue(&copy, 0), &op);
            if let Some(pl) = plan(&mut rng, &copy.borrow()) {
                p.a.borrow_mut().arm(pl);
                p.b.borrow_mut().arm(pl);
            }
        }
        let ra = q_do(&mut *a, &op);
        let rb = q_do(&mut *b, &op);
        case.note(|| format!("{} -> {}", op.show(), show_q(&ra)));
        case.eval();
        case.count("queue_calls", 1);
        case.count("recreations", u64::from(op == QOp::Recreate));
        case.count("erase_alls", u64::from(op == QOp::EraseAll));
        let same_result = format!("{ra:?}") == format!("{rb:?}");
        ensure!(same_result, "{}: uncached returned {} but cached returned {}", op.show(), show_q(&ra), show_q(&rb));
        if let Err(rig::E::Panic(m)) = &ra {
            fail!("{} panicked: {m}", op.show());
        }
        disarm(case, &p)?;
        same(&p, &op.show())?;
        saw_layout(case, &p.a);
    }
    Ok(())
}

// ---------------------------------------------------------------- C25

pub fn run25(ctx: &mut Ctx) {
    ctx.rule = "one evaluation per call made on a cached and an uncached storage and compared in number of reads and bytes read; distinct = layouts".into();
    ctx.assumptions = vec!["fault-free in-memory NOR flash, sufficient buffers, caches as large as their documentation asks for".into()];
    ctx.batch("map", 6000, 100_000, cost_map);
    ctx.batch("queue", 6000, 100_000, cost_queue);
    ctx.batch("scale_map", 12, 100, |c| scaled(c, cost_map));
    ctx.batch("scale_queue", 12, 100, |c| scaled(c, cost_queue));
    ctx.require("map_calls", 200_000);
    ctx.require("queue_calls", 200_000);
    ctx.require("silent_stores", 20_000);
    ctx.require("silent_pushes", 20_000);
    ctx.require("direct_fetches", 20_000);
    ctx.require("direct_pops", 20_000);
    ctx.require("saved_reads", 1_000_000);
}

fn spent(c: &SharedCore) -> (u64, u64) {
    let mut c = c.borrow_mut();
    let r = (c.n_reads, c.bytes_read);
    c.n_reads = 0;
    c.bytes_read = 0;
    c.log.clear();
    r
}

/// Not more reads with a cache than without one
fn cheaper(case: &mut Case, p: &Pair, what: &str) -> Res<(u64, u64)> {
    let (a, b) = (spent(&p.a), spent(&p.b));
    ensure!(
        b.0 <= a.0 && b.1 <= a.1,
        "{what}: {} reads of {} bytes with the cache, but {} reads of {} bytes without",
        b.0, b.1, a.0, a.1
    );
    case.eval();
    case.count("saved_reads", a.0 - b.0);
    Ok(b)
}

/// Does an item of this length fit behind the newest item?
fn fits_behind(core: &vcore::Core, len: usize) -> bool {
    let pages = decode::pages(core);
    pages
        .iter()
        .any(|p| p.state == decode::Page::Partial && decode::footprint(core, len) <= p.end - p.free)
}

/// The oldest item of a queue, if it is on the oldest page in use
fn oldest(pages: &[decode::DPage]) -> Option<(usize, decode::DItem)> {
    let states: Vec<_> = pages.iter().map(|p| p.state).collect();
    let first = *decode::order(&states).ok()?.first()?;
    let item = pages[first].items.iter().find(|i| !i.erased)?;
    Some((first, item.clone()))
}

fn cost_map(case: &mut Case) -> Res {
    let (mut rng, p) = setup(case, false);
    let mut a = open_map(&p.a, 0);
    let mut b = open_map(&p.b, p.cache);
    let name = rig::map::CACHE_NAMES[p.cache];
    let (states, pointers) = (name.contains("states") || name.contains("calculated"), name.contains("ptr"));
    let keys = name.split("keys").nth(1).map_or(0, |n| n.parse::<usize>().unwrap());
    let mut gen_ = MapGen::new(&mut rng, &p.a.borrow());
    let mut model = MapModel::default();
    // Keys whose place the cache must know
    let mut known: Vec<(rig::VKey, Vec<rig::VKey>)> = vec![];
    let mut warm = false;
    for _ in 0..steps(rng.range(20, 120), &p.a) {
        let mut op = gen_.op(&mut rng, &model, &p.a.borrow());
        if !known.is_empty() && rng.chance(1, 4) {
            op = MapOp::Fetch(rng.pick(&known).0.clone());
        }
        let fits = match &op {
            MapOp::Store { k, v, .. } => fits_behind(&p.a.borrow(), data_len(k, v)),
            _ => false,
        };
        let ra = map_do(&mut *a, &op);
        let rb = map_do(&mut *b, &op);
        case.note(|| format!("{} -> {}", op.show(), show_out(&ra)));
        case.count("map_calls", 1);
        ensure!(ra == rb, "{}: uncached returned {} but cached returned {}", op.show(), show_out(&ra), show_out(&rb));
        let Ok(ret) = &ra else { fail!("{} returned {}", op.show(), show_out(&ra)) };
        let (n, bytes) = cheaper(case, &p, &op.show())?;
        model.done(&op);
        let core = p.a.borrow();
        match (&op, ret) {
            (MapOp::Store { k, .. }, _) => {
                if warm && fits && states && pointers {
                    case.count("silent_stores", 1);
                    ensure!(n == 0, "{} with {name} right after another store read {n} times", op.show());
                }
                warm = true;
                if !fits && (keys < 64 || gen_.keys.len() > keys) {
                    // A migration may have taken other keys along
                    known.clear();
                }
                touch(&mut known, k, keys);
                known.retain(|o| o.0 != *k);
                if keys > 0 {
                    known.push((k.clone(), vec![]));
                }
            }
            (MapOp::Fetch(k), MapRet::Value(Some(v))) => {
                if known.iter().any(|o| o.0 == *k) {
                    case.count("direct_fetches", 1);
                    let foot = decode::footprint(&core, data_len(k, v)) as u64;
                    ensure!(n <= 2 && bytes <= foot, "{} with {name} of a key used recently read {n} times, {bytes} bytes", op.show());
                }
                touch(&mut known, k, keys);
                if n > 2 && keys > 0 && !known.iter().any(|o| o.0 == *k) {
                    // It had to be searched for, so it was taken in now
                    known.push((k.clone(), vec![]));
                }
            }
            (MapOp::Remove(k), _) => {
                known.retain(|o| o.0 != *k);
                warm = false;
            }
            (MapOp::RemoveAll | MapOp::EraseAll, _) => {
                known.clear();
                warm = false;
            }
            _ => {}
        }
        drop(core);
        saw_layout(case, &p.a);
    }
    Ok(())
}

/// A key was used. A cache of `n` keys still knows another one for as long as fewer than `n`
/// different keys were used since the call that took it in.
fn touch(known: &mut Vec<(rig::VKey, Vec<rig::VKey>)>, k: &rig::VKey, n: usize) {
    for (_, since) in known.iter_mut().filter(|o| o.0 != *k) {
        if !since.contains(k) {
            since.push(k.clone());
        }
    }
    known.retain(|o| o.1.len() < n);
}

fn cost_queue(case: &mut Case) -> Res {
    let (mut rng, p) = setup(case, true);
    let mut a = open_queue(&p.a, 0);
    let mut b = open_queue(&p.b, p.cache);
    let name = rig::queue::CACHE_NAMES[p.cache];
    let (states, pointers) = (name.contains("states") || name.contains("calculated"), name.contains("ptr"));
    let mut gen_ = QGen::new(&mut rng, &p.a.borrow());
    let mut warm = false;
    let mut calm = false;
    // Where the items that were popped in order end on each page
    let e = p.a.borrow().e;
    let word = p.a.borrow().word();
    let mut popped: Vec<usize> = decode::pages(&p.a.borrow()).iter().map(|p| p.end + 2 * word - e).collect();
    for _ in 0..steps(rng.range(20, 140), &p.a) {
        let op = gen_.op(&mut rng);
        let fits = match &op {
            QOp::Push { data, .. } => fits_behind(&p.a.borrow(), data.len()),
            _ => false,
        };
        let pages = decode::pages(&p.a.borrow());
        let oldest = oldest(&pages);
        let ra = q_do(&mut *a, &op);
        let rb = q_do(&mut *b, &op);
        case.note(|| format!("{} -> {}", op.show(), show_q(&ra)));
        case.count("queue_calls", 1);
        let same_result = format!("{ra:?}") == format!("{rb:?}");
        ensure!(same_result, "{}: uncached returned {} but cached returned {}", op.show(), show_q(&ra), show_q(&rb));
        let (n, bytes) = cheaper(case, &p, &op.show())?;
        if let (QOp::Pop, Ok(QRet::Item(Some(_))), Some((page, item))) = (&op, &ra, oldest) {
            // Items popped out of order may have to be skipped one by one
            let skip = pages[page].items.iter().filter(|i| i.off >= popped[page] && i.off < item.off).count();
            let warm = calm && popped[page] > pages[page].items[0].off;
            if warm && states && pointers {
                case.count("direct_pops", 1);
                let core = p.a.borrow();
                ensure!(
                    n as usize <= 2 + skip && bytes as usize <= item.size + skip * decode::footprint(&core, 0),
                    "Pop with {name} read {n} times, {bytes} bytes, with {skip} popped items since the ones popped first"
                );
            }
        }
        // What the last pop had to know is still known
        calm = match &op {
            QOp::Pop => matches!(&ra, Ok(QRet::Item(Some(_)))),
            QOp::Push { .. } => calm && fits,
            QOp::Peek | QOp::Recreate => calm,
            _ => false,
        };
        for (at, page) in decode::pages(&p.a.borrow()).iter().enumerate() {
            for (i, item) in page.items.iter().enumerate() {
                let new = !pages[at].items.get(i).is_some_and(|o| o.erased);
                if popped[at] == item.off && item.erased && new {
                    popped[at] += item.size;
                }
            }
            if page.items.first().is_none_or(|i| !i.erased) {
                popped[at] = page.end + 2 * word - e;
            }
        }
        match &op {
            QOp::Push { .. } if ra.is_ok() => {
                if warm && fits && states && pointers {
                    case.count("silent_pushes", 1);
                    ensure!(n == 0, "{} with {name} after another push read {n} times", op.show());
                }
                warm = true;
            }
            QOp::EraseAll => warm = false,
            _ => {}
        }
        saw_layout(case, &p.a);
    }
    Ok(())
}
