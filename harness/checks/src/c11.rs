//! C11: corrupted items are dropped, never returned as data or in place of others
//! C12: a one-off wrong flash read is retried and goes unnoticed
use crate::common::*;
use crate::dut::{open_map, open_queue};
use rig::{E, GEOMS, VKey};
use std::collections::{BTreeMap, BTreeSet};
use vcore::decode::{self, DItem, up};
use vcore::flash::{READ, When};
use vcore::{Case, Core, Ctx, Fail, Mode, Plan, Res, Rng, SharedCore, ensure, fail, hex};

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "one evaluation per image with flipped bits whose content was compared with the undamaged items; distinct = layouts".into();
    ctx.assumptions = vec![
        "at most three bits flip in the header of an item (its CRCs detect that with certainty), any number in its data".into(),
        "histories in which skipping over an item with a damaged length runs into 0xFF bytes of its data are not generated (known finding), nor payloads that imitate headers".into(),
    ];
    ctx.batch("queue", 12_000, 200_000, queue);
    ctx.batch("map", 12_000, 200_000, map);
    ctx.single("ff-run", ff_run);
    ctx.require("damaged_items", 20_000);
    ctx.require("damaged_headers", 5000);
    ctx.require("undamaged_items", 50_000);
    ctx.require("calls_after", 100_000);
}

fn setup(case: &mut Case, queue: bool) -> (Rng, SharedCore, usize) {
    let mut rng = case.rng.fork();
    let g = if case.idx % 2 == 0 { GEOMS[(case.idx / 2) as usize % GEOMS.len()] } else { pick_geom(&mut rng) };
    let pages = if queue && rng.chance(1, 8) { 1 } else { rng.range(2, 6) };
    let base = pick_base(&mut rng, g, pages);
    let n = if queue { rig::queue::caches(g) } else { rig::map::caches(g) };
    let cache = rng.below(n);
    let name = if queue { rig::queue::CACHE_NAMES[cache] } else { rig::map::CACHE_NAMES[cache] };
    case.note(|| format!("geometry {g:?} pages {pages} base {base} cache {name}"));
    (rng, core_of(g, pages, base).shared(), cache)
}

struct Damage {
    /// Live items, oldest first, with: untouched, only padding hit, damaged
    items: Vec<(DItem, Hit)>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Hit {
    No,
    Padding,
    Yes,
}

/// All items, oldest first
fn all_items(c: &Core) -> Result<Vec<DItem>, String> {
    let pages = decode::pages(c);
    if let Some(p) = pages.iter().find_map(|p| p.odd.clone()) {
        return Err(p);
    }
    let states: Vec<_> = pages.iter().map(|p| p.state).collect();
    Ok(decode::order(&states)?.into_iter().flat_map(|p| pages[p].items.clone()).collect())
}

/// Flip bits of some items. None if there is nothing to damage or the result is excluded
fn damage(case: &mut Case, rng: &mut Rng, core: &SharedCore) -> Res<Option<Damage>> {
    let items = all_items(&core.borrow()).map_err(|e| Fail::new(format!("independent decoder: {e}")))?;
    if items.is_empty() {
        return Ok(None);
    }
    let saved = core.borrow().image();
    let word = saved.word();
    let h = up(8, word);
    let chance = *rng.pick(&[1usize, 3, 8]);
    let forced = rng.below(items.len());
    let mut out = Vec::new();
    let (mut damaged, mut headers) = (0, 0);
    let mut hit_pages = BTreeSet::new();
    for (n, i) in items.iter().enumerate() {
        let mut hit = Hit::No;
        if n == forced || rng.below(10) < chance {
            let mut c = core.borrow_mut();
            let style = rng.below(6);
            // Which bytes may flip, and how many
            let (from, to, flips) = match style {
                0 => (4, 8, rng.range(1, 3)),
                1 => (0, 4, rng.range(1, 3)),
                2 if i.len > 0 => (h, h + i.len, rng.range(1, 3)),
                3 if i.len > 0 => (h, h + i.len, rng.range(1, 40)),
                4 => (0, 8, 1),
                _ => (0, i.size, 1),
            };
            let mut bits = BTreeSet::new();
            for _ in 0..flips {
                bits.insert((rng.range(from, to - 1), rng.below(8)));
            }
            for (b, bit) in &bits {
                c.flip(i.off + b, 1 << bit);
                let real = *b < 8 || (h..h + i.len).contains(b);
                hit = if real || hit == Hit::Yes { Hit::Yes } else { Hit::Padding };
                if (4..8).contains(b) {
                    headers += 1;
                    hit_pages.insert(i.off / c.e);
                }
                case.note(|| format!("flip bit {bit} of byte {b} of item at {:#x} (length {})", i.off, i.len));
            }
            // Skipping over it may meet anything that looks like a header
            c.torn[i.off..i.off + i.size].fill(true);
            if hit != Hit::No {
                damaged += 1;
            }
        }
        if !i.erased {
            out.push((i.clone(), hit));
        }
    }
    // The known finding: the scan ends inside of a damaged item although more
    // follows or, written at the position the cache knows, will follow
    let c = core.borrow();
    for p in hit_pages {
        let l = decode::lenient_page(&c, p);
        let real_end = items.iter().filter(|i| i.off / c.e == p).map(|i| i.off + i.size).max().unwrap();
        if l.free < real_end {
            drop(c);
            core.borrow_mut().load(&saved);
            case.count("excluded_ff_runs", 1);
            return Ok(None);
        }
    }
    drop(c);
    case.count("damaged_items", damaged);
    case.count("damaged_headers", headers);
    case.count("undamaged_items", out.iter().filter(|o| o.1 == Hit::No).count() as u64);
    Ok(Some(Damage { items: out }))
}

fn queue(case: &mut Case) -> Res {
    let (mut rng, core, cache) = setup(case, true);
    let mut dut = open_queue(&core, cache);
    let mut gen_ = QGen::new(&mut rng, &core.borrow());
    for _ in 0..rng.range(3, 60) {
        let op = gen_.op(&mut rng);
        let out = q_do(&mut *dut, &op);
        case.note(|| format!("{} -> {}", op.show(), show_q(&out)));
    }
    for round in 0..rng.range(1, 2) {
        if round > 0 && all_items(&core.borrow()).is_err() {
            // The remains of the first damage are still there
            break;
        }
        let Some(d) = damage(case, &mut rng, &core)? else { break };
        case.eval();
        saw_layout(case, &core);
        if rng.chance(2, 3) {
            dut = open_queue(&core, cache);
        }
        // What is there now, as seen by a copy and by the storage itself
        let check = |items: &[Vec<u8>], how: &str| -> Res {
            // How many of the returned items can be explained by the stored ones so far. Items of which
            // only the padding was hit may be there or not
            let mut reach = BTreeSet::from([0usize]);
            for (i, hit) in &d.items {
                let next: BTreeSet<usize> = reach.iter().filter(|n| items.get(**n) == Some(&i.data)).map(|n| n + 1).collect();
                match hit {
                    Hit::No => {
                        ensure!(!next.is_empty(), "{how}: undamaged item {} is missing or out of order in {}", hex(&i.data), show_items(items));
                        reach = next;
                    }
                    Hit::Padding => reach.extend(next),
                    Hit::Yes => {}
                }
            }
            let got = *reach.last().unwrap();
            ensure!(reach.contains(&items.len()), "{how}: {} is not an undamaged item or out of order", hex(&items[got]));
            Ok(())
        };
        let copy = snapshot(&core);
        let list = open_queue(&copy, 0).list().map_err(|e| Fail::new(format!("iteration over the damaged queue returned {e:?}")))?;
        check(&list, "re-opened copy")?;
        let mut items = dut.list().map_err(|e| Fail::new(format!("iteration over the damaged queue returned {e:?}")))?;
        check(&items, "damaged queue")?;
        ensure!(items == list, "the storage and a re-opened copy disagree");
        // Keep using it
        for _ in 0..rng.range(0, 30) {
            let op = gen_.op(&mut rng);
            let out = q_do(&mut *dut, &op);
            case.note(|| format!("{} -> {}", op.show(), show_q(&out)));
            case.count("calls_after", 1);
            match (&op, &out) {
                (QOp::Push { overwrite: false, .. }, Err(E::Full)) | (QOp::Push { .. }, Err(E::TooBig)) => {}
                (QOp::Push { data, overwrite }, Ok(_)) => {
                    items.push(data.clone());
                    if *overwrite {
                        let now = open_queue(&snapshot(&core), 0).list().unwrap_or_default();
                        ensure!(!now.is_empty() && items.ends_with(&now), "an overwriting push left {} of {}", show_items(&now), show_items(&items));
                        items = now;
                    }
                }
                (_, Err(e)) => fail!("{} returned {e:?}", op.show()),
                (QOp::Peek, Ok(QRet::Item(got))) => ensure!(got.as_ref() == items.first(), "peek returned {}", show_q(&out)),
                (QOp::Pop, Ok(QRet::Item(got))) => {
                    ensure!(got.as_ref() == items.first(), "pop returned {} instead of {:?}", show_q(&out), items.first().map(|d| hex(d)));
                    if got.is_some() {
                        items.remove(0);
                    }
                }
                (QOp::Walk { .. }, Ok(QRet::Walk(w))) => {
                    ensure!(w.errs.is_empty(), "iteration returned {:?}", w.errs);
                    let mut i = 0;
                    for (d, popped) in &w.seen {
                        ensure!(items.get(i) == Some(d), "iteration returned {} out of order", hex(d));
                        match popped {
                            Some(_) => {
                                items.remove(i);
                            }
                            None => i += 1,
                        }
                    }
                    ensure!(!w.ended || i == items.len(), "iteration ended early");
                }
                (QOp::EraseAll, _) => items.clear(),
                _ => {}
            }
        }
        let now = open_queue(&snapshot(&core), 0).list().map_err(|e| Fail::new(format!("iteration returned {e:?}")))?;
        ensure!(now == items, "re-opened copy contains {} instead of {}", show_items(&now), show_items(&items));
        if rng.chance(1, 3) {
            // Drained, everything is possible again
            while let Some(i) = dut.pop().map_err(|e| Fail::new(format!("pop returned {e:?}")))? {
                ensure!(!items.is_empty() && i == items.remove(0), "draining returned {} out of order", hex(&i));
            }
            ensure!(items.is_empty(), "draining ended early");
            let max = gen_.max_data;
            let pages = core.borrow().pages();
            for n in 0..pages + 2 {
                let data = payload(&mut rng, &mut gen_.seq, max);
                // A single page with a damaged item on it can only be overwritten
                let r = dut.push(&data, pages == 1);
                ensure!(r.is_ok(), "push {n} after draining the damaged queue returned {r:?}");
                let got = dut.pop();
                ensure!(got == Ok(Some(data)), "popping it returned {got:?}");
                case.count("calls_after", 2);
            }
        }
    }
    Ok(())
}

fn split(i: &DItem) -> Option<(VKey, Vec<u8>)> {
    let n = *i.data.first()? as usize;
    Some((VKey(i.data.get(1..=n)?.to_vec()), i.data[n + 1..].to_vec()))
}

fn map(case: &mut Case) -> Res {
    let (mut rng, core, cache) = setup(case, false);
    let mut dut = open_map(&core, cache);
    let mut gen_ = MapGen::new(&mut rng, &core.borrow());
    let mut model = MapModel::default();
    for _ in 0..rng.range(3, 70) {
        let op = gen_.op(&mut rng, &model, &core.borrow());
        let out = map_do(&mut *dut, &op);
        case.note(|| format!("{} -> {}", op.show(), show_out(&out)));
        model.apply(&op, &out, "call")?;
    }
    let Some(d) = damage(case, &mut rng, &core)? else { return Ok(()) };
    case.eval();
    saw_layout(case, &core);
    if rng.chance(2, 3) {
        dut = open_map(&core, cache);
    }
    // Candidates per key, newest first, up to the first undamaged one
    let mut cands: BTreeMap<VKey, Vec<Option<Vec<u8>>>> = BTreeMap::new();
    let mut settled: BTreeSet<VKey> = BTreeSet::new();
    for (i, hit) in d.items.iter().rev() {
        let Some((k, v)) = split(i) else { fail!("item at {:#x} has no key", i.off) };
        if settled.contains(&k) {
            continue;
        }
        cands.entry(k.clone()).or_default().push(Some(v));
        match hit {
            Hit::No => {
                // Only this one and newer, damaged ones that happen to be readable
                settled.insert(k);
            }
            Hit::Padding => {}
            Hit::Yes => {
                // It is certainly detected
                cands.get_mut(&k).unwrap().pop();
            }
        }
    }
    for (k, slot) in &mut model.m {
        let mut opts = cands.remove(k).unwrap_or_default();
        if !settled.contains(k) {
            opts.push(None);
        }
        opts.dedup();
        *slot = Slot { opts, doomed: vec![] };
    }
    let copy = snapshot(&core);
    model.clone().check_all(&mut *open_map(&copy, 0), "re-opened damaged map")?;
    model.check_all(&mut *dut, "damaged map")?;
    model.check_all(&mut *open_map(&snapshot(&core), 0), "re-opened damaged map")?;
    for _ in 0..rng.range(0, 40) {
        let op = gen_.op(&mut rng, &model, &core.borrow());
        let out = map_do(&mut *dut, &op);
        case.note(|| format!("{} -> {}", op.show(), show_out(&out)));
        case.count("calls_after", 1);
        model.apply(&op, &out, "damaged map")?;
    }
    model.check_all(&mut *open_map(&snapshot(&core), 0), "re-opened at the end")?;
    model.check_all(&mut *dut, "at the end")
}

/// The recorded finding: a flipped bit in the length of an item whose data contains a run of 0xFF
/// bytes as long as a header hides the items behind it
fn ff_run(case: &mut Case) -> Res {
    let core = core_of((4, 4, 128), 2, 0).shared();
    let mut q = open_queue_4(&core);
    let items: Vec<Vec<u8>> = vec![vec![0xFF; 16], vec![1; 4], vec![2; 4]];
    for i in &items {
        q.push(i, false).map_err(|e| Fail::new(format!("push returned {e:?}")))?;
    }
    core.borrow_mut().flip(4 + 4, 1);
    case.eval();
    let got = open_queue_4(&core).list().map_err(|e| Fail::new(format!("iteration returned {e:?}")))?;
    if got == items[1..] {
        return Ok(());
    }
    if got.is_empty() {
        return Err(Fail::keyed(
            "queue-ff-run-behind-damaged-length",
            "a flipped bit in the length of an item of 16 bytes 0xFF hides the two undamaged items behind it",
        ));
    }
    fail!("after damage to the first item the queue contains {}", show_items(&got))
}

fn open_queue_4(core: &SharedCore) -> Box<dyn rig::queue::QueueDut> {
    rig::queue::rig::<4, 4, 128, _>(core, sequential_storage::cache::Cache::new_uncached())
}

// ---------------------------------------------------------------- C12

pub fn run12(ctx: &mut Ctx) {
    ctx.rule = "one evaluation per call with one disturbed read, compared with the same call undisturbed; distinct = layouts".into();
    ctx.assumptions = vec![
        "one to three bits of one byte of one read per call are wrong".into(),
        "not disturbed: the data CRC field of erased items, which nothing protects".into(),
    ];
    ctx.batch("map", 6000, 100_000, |c| transient(c, false));
    ctx.batch("queue", 6000, 100_000, |c| transient(c, true));
    ctx.require("disturbed_header_crc", 20_000);
    ctx.require("disturbed_header_len", 20_000);
    ctx.require("disturbed_data", 20_000);
    ctx.require("disturbed_marker", 20_000);
    ctx.require("disturbed_free_space", 2000);
}

/// Choose one read of the log and how to disturb it
fn disturb(case: &mut Case, rng: &mut Rng, before: &Core, after: &SharedCore) -> Option<Plan> {
    let after = after.borrow();
    let reads: Vec<_> = after.log.iter().filter(|e| e.kind == READ).copied().collect();
    if reads.is_empty() {
        return None;
    }
    let word = before.word();
    let h = up(8, word);
    for _ in 0..6 {
        let n = rng.below(reads.len());
        let ev = reads[n];
        let off = (ev.addr - before.base) as usize;
        let byte = rng.below(ev.len as usize);
        let in_page = off % before.e;
        let what = if in_page == 0 || in_page >= before.e - word {
            "disturbed_marker"
        } else if ev.len as usize == h && before.mem[off..off + h].iter().all(|b| *b == 0xFF) {
            "disturbed_free_space"
        } else if ev.len as usize == h && (before.mem[off..off + 4] == [0; 4] || after.mem[off..off + 4] == [0; 4]) {
            // Perhaps an item erased before or by this call
            if byte < 4 {
                continue;
            }
            "disturbed_erased"
        } else if ev.len as usize == h && byte < 4 {
            "disturbed_header_crc"
        } else if ev.len as usize == h && byte < 8 {
            "disturbed_header_len"
        } else {
            "disturbed_data"
        };
        let mut mask = 0u8;
        for _ in 0..rng.range(1, 3) {
            mask |= 1 << rng.below(8);
        }
        case.count(what, 1);
        case.note(|| format!("  disturbing read {n} of {} bytes at {off:#x}, byte {byte} mask {mask:#x} ({what})", ev.len));
        return Some(Plan { when: When::Access { kinds: READ, n: n as u64, part: 0 }, mode: Mode::FlipRead { byte, mask } });
    }
    None
}

fn transient(case: &mut Case, queue: bool) -> Res {
    let (mut rng, a, cache) = setup(case, queue);
    let b = a.borrow().image().shared();
    a.borrow_mut().log_on = true;
    let same = |a: &SharedCore, b: &SharedCore, what: &str| -> Res {
        let (a, b) = (a.borrow(), b.borrow());
        match (0..a.mem.len()).find(|i| a.mem[*i] != b.mem[*i]) {
            Some(i) => fail!("{what}: flash differs at offset {i:#x}"),
            None => Ok(()),
        }
    };
    if queue {
        let (mut qa, mut qb) = (open_queue(&a, cache), open_queue(&b, cache));
        let mut gen_ = QGen::new(&mut rng, &a.borrow());
        for _ in 0..rng.range(20, 100) {
            let op = gen_.op(&mut rng);
            let (plan, ra) = {
                let before = a.borrow().image();
                a.borrow_mut().log.clear();
                let ra = q_do(&mut *qa, &op);
                (disturb(case, &mut rng, &before, &a), ra)
            };
            if let Some(p) = plan {
                b.borrow_mut().arm(p);
            }
            let rb = q_do(&mut *qb, &op);
            b.borrow_mut().disarm();
            case.note(|| format!("{} -> {}", op.show(), show_q(&rb)));
            case.eval();
            ensure!(format!("{ra:?}") == format!("{rb:?}"), "{} returned {} instead of {}", op.show(), show_q(&rb), show_q(&ra));
            same(&a, &b, &op.show())?;
            saw_layout(case, &a);
        }
    } else {
        let (mut ma, mut mb) = (open_map(&a, cache), open_map(&b, cache));
        let mut gen_ = MapGen::new(&mut rng, &a.borrow());
        let mut model = MapModel::default();
        for _ in 0..rng.range(20, 100) {
            let op = gen_.op(&mut rng, &model, &a.borrow());
            let before = a.borrow().image();
            a.borrow_mut().log.clear();
            let ra = map_do(&mut *ma, &op);
            if ra.is_ok() {
                model.done(&op);
            }
            if let Some(p) = disturb(case, &mut rng, &before, &a) {
                b.borrow_mut().arm(p);
            }
            let rb = map_do(&mut *mb, &op);
            b.borrow_mut().disarm();
            case.note(|| format!("{} -> {}", op.show(), show_out(&rb)));
            case.eval();
            ensure!(ra == rb, "{} returned {} instead of {}", op.show(), show_out(&rb), show_out(&ra));
            same(&a, &b, &op.show())?;
            saw_layout(case, &a);
        }
    }
    Ok(())
}
