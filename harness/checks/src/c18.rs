//! C18: the buffered queue keeps FIFO order across RAM and flash
use crate::common::*;
use crate::dut::open_queue;
use b0::{BUFS, BufDut, open_buf};
use rig::E;
use rig::queue::QueueDut;
use std::collections::VecDeque;
use vcore::flash::{ANY, WRITE, When};
use vcore::{Case, Ctx, Mode, Plan, Res, Rng, SharedCore, ensure, fail, hex};

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "one evaluation per call compared with a model of the ring and a plain queue on a copy of the flash; distinct = (ring content shape, flash layout)".into();
    ctx.assumptions = vec![
        "what a plain queue does with the same flash is the reference for the flash part (C02, C15)".into(),
        "a drain that is interrupted by a flash error or cancellation keeps the item in RAM; it may be in flash as well".into(),
    ];
    ctx.batch("history", 12_000, 200_000, |c| history(c, false));
    ctx.batch("crowd", 12, 100, |c| history(c, true));
    ctx.require("enqueued", 100_000);
    ctx.require("refused", 10_000);
    ctx.require("evicted", 10_000);
    ctx.require("drained", 30_000);
    ctx.require("popped_ram", 10_000);
    ctx.require("popped_flash", 10_000);
    ctx.require("too_small", 1000);
    ctx.require("interrupted", 1000);
    ctx.require("wrapped", 5000);
    ctx.require("hundreds_in_ram", 500);
}

fn foot(d: &[u8]) -> usize {
    d.len() + 2
}

struct World {
    core: SharedCore,
    cap: usize,
    ram: VecDeque<Vec<u8>>,
    buf: usize,
}

impl World {
    fn used(&self) -> usize {
        self.ram.iter().map(|d| foot(d)).sum()
    }
    /// A plain queue on a copy of the flash
    fn twin(&self) -> (SharedCore, Box<dyn QueueDut>) {
        let copy = snapshot(&self.core);
        let mut t = open_queue(&copy, 0);
        t.set_buf(self.buf);
        (copy, t)
    }
    fn flash(&self) -> Res<Vec<Vec<u8>>> {
        list(&self.core)
    }
    fn counters(&self, dut: &dyn BufDut) -> Res {
        let used = self.used();
        let want = (self.cap, self.cap - used, self.ram.len(), used);
        let got = dut.counters();
        ensure!(got == want, "(capacity, free, items, used) is {got:?} instead of {want:?}");
        Ok(())
    }
}

fn list(core: &SharedCore) -> Res<Vec<Vec<u8>>> {
    open_queue(&snapshot(core), 0).list().map_err(|e| vcore::Fail::new(format!("iterating over the flash returned {e:?}")))
}

fn len(rng: &mut Rng, cap: usize, max: usize) -> usize {
    if cap > 100_000 && rng.chance(1, 3) {
        return *rng.pick(&[65_535, 65_536, 65_534, 70_000, 139_998, 139_999, 200_000]);
    }
    match rng.below(12) {
        0 => 0,
        1 => 1,
        2 => cap.saturating_sub(2),
        3 => cap.saturating_sub(1),
        4 => cap + rng.below(4),
        5 => max + rng.below(3),
        6 => max,
        7 => rng.below(cap / 2 + 1),
        _ => rng.below(13),
    }
    .min(150_000)
}

/// `crowd`: hundreds of small items in RAM
fn history(case: &mut Case, crowd: bool) -> Res {
    let mut rng = case.rng.fork();
    // The huge ring is expensive
    let n = if crowd || case.idx % 40 == 0 { BUFS.len() - 1 } else { case.idx as usize % (BUFS.len() - 1) };
    let (g, cap) = BUFS[n];
    let pages = rng.range(1, 4);
    let core = core_of(g, pages, rng.below(3) as u32).shared();
    let cache = rng.below(3);
    case.note(|| format!("geometry {g:?} pages {pages} ring {cap} cache {cache}"));
    let mut dut = open_buf(n, &core, cache);
    let max = vcore::decode::max_data(&core.borrow());
    let mut w = World { core: core.clone(), cap, ram: VecDeque::new(), buf: core.borrow().e };
    let mut seq = 0;
    let (mut total_in, mut interrupted) = (0, false);
    let weights = *rng.pick(&[[10u32, 6, 2, 5, 3, 1], [10, 2, 0, 8, 2, 0], [6, 6, 3, 2, 2, 1], [20, 3, 1, 3, 1, 0]]);
    let (weights, steps) = if crowd { ([40, 6, 1, 8, 2, 0], rng.range(700, 1400)) } else { (weights, rng.range(20, 120)) };
    for _ in 0..steps {
        if w.ram.len() > 256 {
            case.count("hundreds_in_ram", 1);
        }
        w.buf = match rng.below(6) {
            0 => rng.below(core.borrow().e),
            1 => w.ram.front().map_or(0, |d| d.len()).saturating_sub(rng.below(2)),
            // Enough for anything in the ring
            _ => core.borrow().e.max(if cap > 1000 { 140_000 } else { cap }),
        };
        dut.set_buf(w.buf);
        let before = w.flash()?;
        let traffic = core.borrow().accesses();
        let overwrite = rng.chance(1, 3);
        case.eval();
        case.saw(vcore::hash_bytes(n as u64, &w.ram.iter().map(|d| d.len() as u8).collect::<Vec<_>>()) ^ before.len() as u64);
        match rng.weighted(&weights) {
            0 => {
                let l = if crowd && !rng.chance(1, 800) { rng.below(9) } else { len(&mut rng, cap, max) };
                let d = payload(&mut rng, &mut seq, l);
                let discard = rng.chance(1, 2);
                let want = l <= 65_535 && foot(&d) <= if discard { cap } else { cap - w.used() };
                let got = dut.enqueue(&d, discard);
                case.note(|| format!("enqueue {l}B {} discard={discard} -> {got:?}", hex(&d)));
                ensure!(got == Ok(want), "enqueue of {l} bytes with {} of {cap} bytes used and discard={discard} returned {got:?}", w.used());
                if want {
                    while w.used() + foot(&d) > cap {
                        w.ram.pop_front();
                        case.count("evicted", 1);
                    }
                    total_in += foot(&d);
                    w.ram.push_back(d);
                    case.count("enqueued", 1);
                } else {
                    case.count("refused", 1);
                }
                ensure!(core.borrow().accesses() == traffic, "enqueue accessed the flash");
            }
            1 if rng.chance(1, 8) => {
                // Interrupted drain
                let cancel = rng.chance(1, 2);
                let part = rng.below(80);
                let kinds = *rng.pick(&[ANY, WRITE]);
                core.borrow_mut().arm(Plan {
                    when: When::Access { kinds, n: rng.below(8) as u64, part },
                    mode: if cancel { Mode::Cancel } else { Mode::Error },
                });
                let (_, mut t) = w.twin();
                let expect = w.ram.front().map(|d| t.push(d, overwrite));
                let got = dut.drain_one(overwrite);
                let fired = core.borrow_mut().disarm();
                case.note(|| format!("drain_one overwrite={overwrite} buffer {} interrupted: {fired:?} -> {got:?}", w.buf));
                match (&got, fired) {
                    (Err(e), Some(_)) if e.interrupted() => {
                        case.count("interrupted", 1);
                        interrupted = true;
                        // The page of a single page queue may be half erased now
                        if pages == 1 {
                            return Ok(());
                        }
                        let now = w.flash()?;
                        let mut with = before.clone();
                        with.push(w.ram.front().cloned().unwrap_or_default());
                        let same = overwrite && (with.ends_with(&now) || before.ends_with(&now)) || now == before || now == with;
                        ensure!(same, "interrupted drain left {} in flash", show_items(&now));
                    }
                    (_, Some(ev)) => fail!("{ev:?} failed but drain_one returned {got:?}"),
                    (_, None) => judge_drain(case, &mut w, &before, expect, got, &mut *t)?,
                }
            }
            1 => {
                let (_, mut t) = w.twin();
                let expect = w.ram.front().map(|d| t.push(d, overwrite));
                let got = dut.drain_one(overwrite);
                case.note(|| format!("drain_one overwrite={overwrite} buffer {} -> {got:?}", w.buf));
                judge_drain(case, &mut w, &before, expect, got, &mut *t)?;
            }
            2 => {
                let (_, mut t) = w.twin();
                let mut result = Ok(());
                let mut done = 0;
                for d in &w.ram {
                    if d.len() > w.buf {
                        result = Err(E::BufTooSmall(d.len()));
                        break;
                    }
                    result = t.push(d, overwrite);
                    if result.is_err() {
                        break;
                    }
                    done += 1;
                }
                let got = dut.drain_all(overwrite);
                case.note(|| format!("drain_all overwrite={overwrite} buffer {} -> {got:?}", w.buf));
                match (&got, &result) {
                    (Err(E::BufTooSmall(_)), Err(E::BufTooSmall(_))) => case.count("too_small", 1),
                    _ => ensure!(got == result, "drain_all returned {got:?} instead of {result:?}"),
                }
                w.ram.drain(..done);
                case.count("drained", done as u64);
                let (now, want) = (w.flash()?, t.list().unwrap_or_default());
                if w.buf >= core.borrow().e {
                    ensure!(now == want, "after drain_all the flash contains {} instead of {}", show_items(&now), show_items(&want));
                }
            }
            k @ (3 | 4) => {
                let pop = k == 3;
                let (_, mut t) = w.twin();
                let expect = if pop { t.pop() } else { t.peek() };
                let got = if pop { dut.pop() } else { dut.peek() };
                let name = if pop { "pop" } else { "peek" };
                case.note(|| format!("{name} buffer {} -> {:?}", w.buf, got.as_ref().map(|d| d.as_ref().map(|d| hex(d)))));
                match expect {
                    Ok(None) => match (w.ram.front(), &got) {
                        (Some(d), got) if d.len() > w.buf => {
                            ensure!(
                                matches!(got, Err(E::BufTooSmall(_))),
                                "{name} with a buffer of {} for a RAM item of {} bytes returned {got:?}",
                                w.buf,
                                d.len()
                            );
                            case.count("too_small", 1);
                        }
                        (front, got) => {
                            ensure!(
                                *got == Ok(front.cloned()),
                                "{name} returned {:?} instead of the oldest item in RAM {:?}",
                                got.as_ref().map(|d| d.as_ref().map(|d| hex(d))),
                                front.map(|d| hex(d))
                            );
                            if pop && w.ram.pop_front().is_some() {
                                case.count("popped_ram", 1);
                            }
                        }
                    },
                    Err(E::BufTooSmall(_)) => {
                        ensure!(matches!(got, Err(E::BufTooSmall(_))), "{name} with a too small buffer returned {got:?}");
                        case.count("too_small", 1);
                    }
                    expect => {
                        ensure!(
                            got == expect,
                            "{name} returned {:?} instead of {:?}",
                            got.as_ref().map(|d| d.as_ref().map(|d| hex(d))),
                            expect.as_ref().map(|d| d.as_ref().map(|d| hex(d)))
                        );
                        if pop {
                            case.count("popped_flash", 1);
                        }
                    }
                }
                let (now, want) = (w.flash()?, t_list(&mut *t, &core)?);
                ensure!(now == want, "after {name} the flash contains {} instead of {}", show_items(&now), show_items(&want));
            }
            _ => {
                if rng.chance(1, 4) {
                    case.note(|| "into_storage and new".into());
                    dut.unwrap_and_wrap();
                    w.ram.clear();
                    ensure!(w.flash()? == before, "into_storage changed the flash content");
                }
            }
        }
        w.counters(&*dut)?;
    }
    if total_in > cap {
        case.count("wrapped", 1);
    }
    // Everything comes out, flash first
    dut.set_buf(core.borrow().e.max(140_000));
    let mut want = w.flash()?;
    want.extend(w.ram.iter().cloned());
    let _ = interrupted;
    for d in want {
        let got = dut.pop();
        ensure!(
            got.as_ref() == Ok(&Some(d.clone())),
            "at the end pop returned {:?} instead of {}",
            got.as_ref().map(|d| d.as_ref().map(|d| hex(d))),
            hex(&d)
        );
    }
    let got = dut.pop();
    ensure!(got == Ok(None), "the queue should be empty but pop returned {got:?}");
    Ok(())
}

fn t_list(t: &mut dyn QueueDut, core: &SharedCore) -> Res<Vec<Vec<u8>>> {
    t.set_buf(core.borrow().e);
    t.list().map_err(|e| vcore::Fail::new(format!("iterating over the copy returned {e:?}")))
}

fn judge_drain(case: &mut Case, w: &mut World, before: &[Vec<u8>], expect: Option<rig::Out<()>>, got: rig::Out<bool>, t: &mut dyn QueueDut) -> Res {
    let mut unchanged = true;
    match expect {
        None => ensure!(got == Ok(false), "drain_one of an empty ring returned {got:?}"),
        Some(_) if w.ram[0].len() > w.buf => {
            ensure!(matches!(got, Err(E::BufTooSmall(_))), "drain_one with a buffer of {} for an item of {} bytes returned {got:?}", w.buf, w.ram[0].len());
            case.count("too_small", 1);
        }
        Some(Ok(())) => {
            ensure!(got == Ok(true), "drain_one returned {got:?} although the flash accepts the item");
            w.ram.pop_front();
            case.count("drained", 1);
            unchanged = false;
        }
        Some(Err(e)) => {
            ensure!(got == Err(e.clone()), "drain_one returned {got:?} instead of {e:?}");
        }
    }
    let now = w.flash()?;
    if unchanged {
        ensure!(now == before, "a drain that did not happen changed the flash content");
    } else {
        let want = t_list(t, &w.core)?;
        ensure!(now == want, "after drain_one the flash contains {} instead of {}", show_items(&now), show_items(&want));
    }
    Ok(())
}
