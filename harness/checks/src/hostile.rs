//! C13: arbitrary flash content never crashes, hangs or escapes the range
use crate::common::*;
use crate::dut::{open_map, open_queue};
use rig::{E, GEOMS, VKey};
use vcore::decode::{self, up};
use vcore::{Case, Core, Ctx, Res, Rng, ensure, fail, hex};

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "one evaluation per call on a hostile image that had to return within its access budget, without panic and inside the range; distinct = page state layouts of the images".into();
    ctx.assumptions = vec!["keys are self delimiting (length byte followed by the bytes), so hostile content includes keys that claim to be longer than their item".into()];
    ctx.batch("map", 20_000, 400_000, map);
    ctx.batch("queue", 20_000, 400_000, queue);
    ctx.require("calls", 250_000);
    ctx.require("usable_after_erase", 3000);
    ctx.require("errors_returned", 1000);
}

/// Raw header with a correct length CRC
fn header(c: &mut Core, at: usize, crc: u32, len: u16, good: bool) {
    let l = len.to_le_bytes();
    let lc = decode::crc16(&l).to_le_bytes();
    let mut h = [0u8; 8];
    h[..4].copy_from_slice(&crc.to_le_bytes());
    h[4..6].copy_from_slice(&l);
    h[6..].copy_from_slice(&lc);
    if !good {
        h[6] ^= 0x10;
    }
    let n = 8.min(c.mem.len() - at);
    c.mem[at..at + n].copy_from_slice(&h[..n]);
}

/// Fill the flash with something nobody wrote on purpose
pub fn scramble(rng: &mut Rng, c: &mut Core) {
    let word = c.word();
    let style = rng.below(8);
    if style == 0 {
        let n = c.mem.len();
        c.mem = rng.bytes(n);
        return;
    }
    if style == 1 {
        // Mostly erased or mostly zero
        let (base, noise) = (*rng.pick(&[0u8, 0xFF]), rng.range(1, 30));
        for b in &mut c.mem {
            *b = if rng.below(100) < noise { rng.below(256) as u8 } else { base };
        }
        return;
    }
    let all = rng.below(8);
    for p in 0..c.pages() {
        let (start, end) = (p * c.e, (p + 1) * c.e - word);
        // Any combination of markers, legal or not
        let m = match all {
            0 => 3,
            1 => 1,
            2 => 2,
            3 if p > 0 => 0,
            _ => rng.below(4),
        };
        if m & 1 != 0 {
            c.mem[start..start + word].fill(0);
        }
        if m & 2 != 0 {
            c.mem[end..end + word].fill(0);
        }
        if rng.chance(1, 12) {
            // Torn marker
            let i = rng.below(word);
            let at = if rng.chance(1, 2) { start } else { end };
            c.mem[at + i] ^= 1 << rng.below(8);
        }
        if rng.chance(1, 5) {
            continue;
        }
        let mut at = start + word;
        while at + up(8, word) <= end && !rng.chance(1, 12) {
            let room = end - at - up(8, word);
            match rng.below(14) {
                0 => {
                    // Length that leaves the page (or the range, or the address space)
                    let len = match rng.below(4) {
                        0 => 0xFFFF,
                        1 => room + 1 + rng.below(8),
                        2 => room + c.e,
                        _ => rng.below(65536),
                    };
                    header(c, at, rng.next() as u32, len.min(65535) as u16, true);
                    at += up(8, word);
                }
                1 => {
                    // Length CRC wrong
                    header(c, at, rng.next() as u32, rng.below(room + 1) as u16, false);
                    at += word;
                }
                2 => {
                    // Data CRC wrong
                    let len = rng.below(room + 1).min(40);
                    header(c, at, rng.next() as u32, len as u16, true);
                    at += up(8, word) + up(len, word);
                }
                3 => {
                    // Erased item that claims a length
                    let len = rng.below(room + 1).min(60);
                    header(c, at, 0, len as u16, true);
                    at += up(8, word) + up(len, word);
                }
                4 => {
                    // Empty item
                    header(c, at, if rng.chance(1, 2) { 0 } else { decode::crc32(&[]) }, 0, true);
                    at += up(8, word);
                }
                5 => {
                    // Gap
                    at += word * rng.range(1, 4);
                }
                6 => {
                    let n = rng.range(1, 4) * word;
                    for i in at..(at + n).min(end) {
                        c.mem[i] = rng.below(256) as u8;
                    }
                    at += n;
                }
                n => {
                    // Well formed item; as a map item its key may claim to be longer than the item
                    let len = if n < 9 { room } else { rng.below(room + 1).min(rng.range(0, 40)) }.min(65535);
                    let mut d = rng.bytes(len);
                    if let Some(b) = d.first_mut() {
                        *b = match rng.below(5) {
                            0 => 255,
                            1 => len.min(255) as u8,
                            2 => len.saturating_sub(1).min(255) as u8,
                            3 => (len / 2).min(255) as u8,
                            _ => rng.below(3) as u8,
                        };
                    }
                    at += decode::put_item(c, at, &d, rng.chance(1, 5));
                }
            }
        }
    }
    if style == 2 {
        // Sprinkle damage over it
        for _ in 0..rng.range(1, 12) {
            let i = rng.below(c.mem.len());
            c.mem[i] ^= 1 << rng.below(8);
        }
    }
    if style == 3 {
        // Two pages swapped or one copied
        let (a, b) = (rng.below(c.pages()), rng.below(c.pages()));
        let page: Vec<u8> = c.mem[a * c.e..(a + 1) * c.e].to_vec();
        c.mem[b * c.e..(b + 1) * c.e].copy_from_slice(&page);
    }
}

fn verdict(e: Option<&E>, c: &Core, what: &str) -> Res {
    match e {
        Some(E::Panic(m)) => fail!("{what} panicked: {m}"),
        Some(E::Hang) => fail!("{what} did not return within {} accesses", vcore::flash::DEFAULT_BUDGET),
        _ => {}
    }
    if let Some((_, text)) = c.viol.iter().find(|v| v.0 != "zero-to-one") {
        fail!("{what}: {text}");
    }
    Ok(())
}

fn image(case: &mut Case, queue: bool) -> (Rng, vcore::SharedCore, usize) {
    let mut rng = case.rng.fork();
    let g = if case.idx % 2 == 0 { GEOMS[(case.idx / 2) as usize % GEOMS.len()] } else { pick_geom(&mut rng) };
    let pages = if queue && rng.chance(1, 8) { 1 } else { rng.range(2, 6) };
    let base = pick_base(&mut rng, g, pages);
    let mut core = core_of(g, pages, base);
    scramble(&mut rng, &mut core);
    let n = if queue { rig::queue::caches(g) } else { rig::map::caches(g) };
    let cache = rng.below(n);
    let name = if queue { rig::queue::CACHE_NAMES[cache] } else { rig::map::CACHE_NAMES[cache] };
    case.note(|| format!("geometry {g:?} pages {pages} base {base} cache {name}"));
    for p in 0..core.pages() {
        case.note(|| format!("page {p}: {}", core.mem[p * core.e..(p + 1) * core.e].iter().map(|b| format!("{b:02x}")).collect::<String>()));
    }
    case.saw(decode::states_hash(&core));
    (rng, core.shared(), cache)
}

fn map(case: &mut Case) -> Res {
    let (mut rng, core, cache) = image(case, false);
    let mut dut = open_map(&core, cache);
    let mut gen_ = MapGen::new(&mut rng, &core.borrow());
    gen_.weights = [6, 4, 3, 1, 0, 3, 1];
    // Keys that may exist in the image
    for p in decode::lenient_pages(&core.borrow()) {
        for i in p.items {
            if let Some(n) = i.data.first().map(|n| *n as usize)
                && i.data.len() > n
                && gen_.keys.len() < 30
            {
                gen_.keys.push(VKey(i.data[1..=n].to_vec()));
            }
        }
    }
    gen_.keys.retain(|k| k.0.len() + 1 <= gen_.max_data.min(255));
    for _ in 0..rng.range(1, 15) {
        let op = gen_.op(&mut rng, &MapModel::default(), &core.borrow());
        let out = map_do(&mut *dut, &op);
        case.note(|| format!("{} -> {}", op.show(), show_out(&out)));
        case.eval();
        case.count("calls", 1);
        case.count("errors_returned", u64::from(out.is_err()));
        verdict(out.as_ref().err(), &core.borrow(), &op.show())?;
    }
    if rng.chance(1, 4) {
        core.borrow_mut().viol.clear();
        let r = dut.erase_all();
        ensure!(r.is_ok(), "erase_all returned {r:?}");
        if rng.chance(1, 2) {
            dut = open_map(&core, cache);
        }
        let mut model = MapModel::default();
        for _ in 0..20 {
            let op = gen_.op(&mut rng, &model, &core.borrow());
            let out = map_do(&mut *dut, &op);
            case.note(|| format!("{} -> {}", op.show(), show_out(&out)));
            model.apply(&op, &out, "after erase_all")?;
        }
        model.check_all(&mut *dut, "after erase_all")?;
        case.count("usable_after_erase", 1);
    }
    Ok(())
}

fn queue(case: &mut Case) -> Res {
    let (mut rng, core, cache) = image(case, true);
    let mut dut = open_queue(&core, cache);
    let mut gen_ = QGen::new(&mut rng, &core.borrow());
    gen_.weights = [6, 4, 3, 6, 3, 2, 2, 0, 1];
    for _ in 0..rng.range(1, 15) {
        let mut op = gen_.op(&mut rng);
        if let QOp::Walk { retries, .. } = &mut op {
            *retries = rng.below(3);
        }
        let out = q_do(&mut *dut, &op);
        case.note(|| format!("{} -> {}", op.show(), show_q(&out)));
        case.eval();
        case.count("calls", 1);
        case.count("errors_returned", u64::from(out.is_err()));
        if let Ok(QRet::Walk(w)) = &out {
            for e in w.errs.iter().chain(w.seen.iter().filter_map(|s| s.1.as_ref()).filter_map(|r| r.as_ref().err())) {
                case.count("errors_returned", 1);
                verdict(Some(e), &core.borrow(), "iteration")?;
                if let E::Other(t) = e {
                    fail!("{t}");
                }
            }
        }
        verdict(out.as_ref().err(), &core.borrow(), &op.show())?;
    }
    if rng.chance(1, 4) {
        core.borrow_mut().viol.clear();
        let r = dut.erase_all();
        ensure!(r.is_ok(), "erase_all returned {r:?}");
        if rng.chance(1, 2) {
            dut = open_queue(&core, cache);
        }
        let mut model = QModel::default();
        for _ in 0..20 {
            let op = gen_.op(&mut rng);
            let view = view_of(&core)?;
            let out = q_do(&mut *dut, &op);
            case.note(|| format!("{} -> {}", op.show(), show_q(&out)));
            model.apply(&op, &out, &view, &core.borrow())?;
        }
        model.check(&mut *dut, "after erase_all")?;
        case.count("usable_after_erase", 1);
    }
    let _ = hex(&[]);
    Ok(())
}
