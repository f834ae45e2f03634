//! C20: the on-flash format stays readable and independently decodable
use crate::common::*;
use crate::dut::{open_map, open_queue};
use rig::{FULL_GEOMS, GEOMS, Geom, VKey};
use std::collections::BTreeMap;
use vcore::decode::Page;
use vcore::{Case, Core, Ctx, Res, Rng, SharedCore, decode, ensure, fail, hex};

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "one evaluation per image read or written and compared; distinct = (page layout, geometry)".into();
    ctx.assumptions = vec![
        "the golden images were written by version 8.0.1 (the base commit) and are committed in golden/".into(),
        "the decoder and encoder in harness/core/src/decode.rs were written from the documented layout".into(),
    ];
    let n = golden_files().len() as u64;
    ctx.batch("golden", n * 10, n * 10, golden);
    ctx.batch("written_map", 3000, 40_000, written_map);
    ctx.batch("written_queue", 3000, 40_000, written_queue);
    ctx.batch("scale_map", 8, 100, |c| scaled(c, written_map));
    ctx.batch("scale_queue", 8, 100, |c| scaled(c, written_queue));
    ctx.batch("encoded_map", 4000, 60_000, encoded_map);
    ctx.batch("encoded_queue", 4000, 60_000, encoded_queue);
    ctx.batch("lengths", 400, 8000, lengths);
    ctx.batch("types", 300, 4000, t0::layouts);
    ctx.require("golden_maps", 100);
    ctx.require("golden_queues", 100);
    ctx.require("images_decoded", 50_000);
    ctx.require("images_encoded", 6000);
    ctx.require("typed_layouts", 10_000);
    ctx.require("special_lengths", 200);
    ctx.require("long_items", 500);
}

// ---- golden images ------------------------------------------------------------------------------

fn rle(mem: &[u8]) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < mem.len() {
        let n = mem[i..].iter().take_while(|b| **b == 0xFF).count();
        if n > 4 {
            s.push_str(&format!("*{n}."));
            i += n;
        } else {
            s.push_str(&format!("{:02x}", mem[i]));
            i += 1;
        }
    }
    s
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn full_hex(d: &[u8]) -> String {
    d.iter().map(|b| format!("{b:02x}")).collect()
}

fn unrle(s: &str) -> Vec<u8> {
    let mut out = Vec::new();
    let mut rest = s;
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix('*') {
            let (n, r) = r.split_once('.').unwrap();
            out.resize(out.len() + n.parse::<usize>().unwrap(), 0xFF);
            rest = r;
        } else {
            out.push(u8::from_str_radix(&rest[..2], 16).unwrap());
            rest = &rest[2..];
        }
    }
    out
}

/// Where the images are: next to the harness
fn golden_dir() -> std::path::PathBuf {
    std::path::Path::new(env!("CARGO_MANIFEST_DIR")).join("../../golden")
}

fn golden_files() -> Vec<std::path::PathBuf> {
    let mut v: Vec<_> = std::fs::read_dir(golden_dir())
        .expect("golden images")
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().is_some_and(|e| e == "txt"))
        .collect();
    v.sort();
    v
}

struct Image {
    core: SharedCore,
    map: Option<MapModel>,
    queue: Option<QModel>,
}

fn load(path: &std::path::Path) -> Image {
    let text = std::fs::read_to_string(path).expect("golden image");
    let mut lines = text.lines();
    let head: Vec<&str> = lines.next().unwrap().split(' ').collect();
    let n: Vec<usize> = head[1..].iter().map(|s| s.parse().unwrap()).collect();
    let mut core = core_of((n[0], n[1], n[2]), n[3], n[4] as u32);
    let mem = unrle(lines.next().unwrap());
    assert_eq!(mem.len(), core.mem.len());
    core.mem = mem;
    // Whatever is written counts as programmed once
    let w = core.w;
    for (i, word) in core.mem.chunks(w).enumerate() {
        core.wcount[i] = u8::from(word.iter().any(|b| *b != 0xFF));
    }
    let mut map = MapModel::default();
    let mut queue = QModel::default();
    for l in lines {
        let f: Vec<&str> = l.split(' ').collect();
        match f[0] {
            "k" => {
                map.slot(&VKey(unhex(f[1]))).opts = vec![Some(unhex(f[2]))];
            }
            "gone" => {
                map.slot(&VKey(unhex(f[1])));
            }
            "i" => queue.items.push(unhex(f[1])),
            other => panic!("{other}"),
        }
    }
    let is_map = head[0] == "map";
    Image { core: core.shared(), map: is_map.then_some(map), queue: (!is_map).then_some(queue) }
}

/// Write golden images with the code at hand. Only ever used with the base version.
pub fn generate(dir: &str) {
    let mut n = 0;
    for (gi, g) in GEOMS.iter().enumerate() {
        for i in 0..4 {
            let mut rng = Rng::new(1000 + gi as u64 * 10 + i);
            let pages = rng.range(2, 4);
            let core = core_of(*g, pages, i as u32).shared();
            let mut dut = open_map(&core, 0);
            let mut model = MapModel::default();
            let mut gen_ = MapGen::new(&mut rng, &core.borrow());
            for _ in 0..rng.range(20, 40 + 20 * pages) {
                let op = gen_.op(&mut rng, &model, &core.borrow());
                if op == MapOp::EraseAll || op == MapOp::RemoveAll {
                    continue;
                }
                let out = map_do(&mut *dut, &op);
                model.apply(&op, &out, "golden").map_err(|e| e.msg).unwrap();
            }
            model.check_all(&mut *dut, "golden").map_err(|e| e.msg).unwrap();
            let mut s = format!("map {} {} {} {pages} {i}\n{}\n", g.0, g.1, g.2, rle(&core.borrow().mem));
            for (k, slot) in &model.m {
                match &slot.opts[0] {
                    Some(v) => s.push_str(&format!("k {} {}\n", full_hex(&k.0), full_hex(v))),
                    None => s.push_str(&format!("gone {}\n", full_hex(&k.0))),
                }
            }
            std::fs::write(format!("{dir}/map-{}-{}-{}-{i}.txt", g.0, g.1, g.2), s).unwrap();
            n += 1;

            let pages = rng.range(1, 4);
            let core = core_of(*g, pages, i as u32).shared();
            let mut dut = open_queue(&core, 0);
            let mut items: Vec<Vec<u8>> = Vec::new();
            let mut gen_ = QGen::new(&mut rng, &core.borrow());
            for _ in 0..rng.range(20, 40 + 20 * pages) {
                let op = gen_.op(&mut rng);
                match (&op, q_do(&mut *dut, &op)) {
                    (QOp::EraseAll, _) => items.clear(),
                    _ => items = decode::live_items(&core.borrow()).unwrap(),
                }
            }
            assert_eq!(dut.list().unwrap(), items);
            let mut s = format!("queue {} {} {} {pages} {i}\n{}\n", g.0, g.1, g.2, rle(&core.borrow().mem));
            for d in &items {
                s.push_str(&format!("i {}\n", full_hex(d)));
            }
            std::fs::write(format!("{dir}/queue-{}-{}-{}-{i}.txt", g.0, g.1, g.2), s).unwrap();
            n += 1;
        }
    }
    println!("{n} images");
}

fn golden(case: &mut Case) -> Res {
    let files = golden_files();
    let path = &files[case.idx as usize % files.len()];
    let image = load(path);
    let mut rng = case.rng.fork();
    let core = image.core;
    case.note(|| format!("image {}", path.display()));
    let g: Geom = {
        let c = core.borrow();
        (c.w, c.r, c.e)
    };
    let round = case.idx as usize / files.len();
    if let Some(mut model) = image.map {
        let cache = round % rig::map::caches(g);
        compare_map(&core, &model)?;
        let mut dut = open_map(&core, cache);
        model.check_all(&mut *dut, "golden image")?;
        let mut gen_ = MapGen::new(&mut rng, &core.borrow());
        gen_.keys.extend(model.m.keys().cloned());
        go_on_map(case, &mut rng, &core, &mut *dut, &mut model, &mut gen_)?;
        case.count("golden_maps", 1);
    }
    if let Some(mut model) = image.queue {
        let cache = round % rig::queue::caches(g);
        compare_queue(&core, &model)?;
        let mut dut = open_queue(&core, cache);
        model.check(&mut *dut, "golden image")?;
        go_on_queue(case, &mut rng, &core, &mut *dut, &mut model)?;
        case.count("golden_queues", 1);
    }
    case.eval();
    saw_layout(case, &core);
    Ok(())
}

/// Keep using a map that came from an image
fn go_on_map(case: &mut Case, rng: &mut Rng, core: &SharedCore, dut: &mut dyn rig::map::MapDut, model: &mut MapModel, gen_: &mut MapGen) -> Res {
    for _ in 0..rng.range(5, 40) {
        let op = gen_.op(rng, model, &core.borrow());
        let out = map_do(dut, &op);
        case.note(|| format!("{} -> {}", op.show(), show_out(&out)));
        case.eval();
        model.apply(&op, &out, "call on the image")?;
    }
    compare_map(core, model)?;
    model.check_all(dut, "continued image")
}

fn go_on_queue(case: &mut Case, rng: &mut Rng, core: &SharedCore, dut: &mut dyn rig::queue::QueueDut, model: &mut QModel) -> Res {
    let mut gen_ = QGen::new(rng, &core.borrow());
    for _ in 0..rng.range(5, 40) {
        let op = gen_.op(rng);
        let view = view_of(core)?;
        let before = core.borrow().image();
        let out = q_do(dut, &op);
        case.note(|| format!("{} -> {}", op.show(), show_q(&out)));
        case.eval();
        model.apply(&op, &out, &view, &before)?;
    }
    compare_queue(core, model)?;
    model.check(dut, "continued image")
}

// ---- what the code writes -----------------------------------------------------------------------

fn no_oddity(core: &Core) -> Res {
    for (p, page) in decode::pages(core).iter().enumerate() {
        if let Some(odd) = &page.odd {
            fail!("page {p} does not follow the format: {odd}");
        }
    }
    Ok(())
}

/// The map as an independent decoder sees it
fn compare_map(core: &SharedCore, model: &MapModel) -> Res {
    let core = core.borrow();
    no_oddity(&core)?;
    let items = match decode::live_items(&core) {
        Ok(i) => i,
        Err(e) => fail!("the pages do not follow the format: {e}"),
    };
    let mut last: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
    for d in &items {
        let n = d.first().map_or(usize::MAX, |n| *n as usize);
        if d.len() < n.saturating_add(1) {
            fail!("an item does not start with its key: {}", hex(d));
        }
        last.insert(d[1..1 + n].to_vec(), d[1 + n..].to_vec());
    }
    for (k, s) in &model.m {
        let got = last.remove(&k.0);
        ensure!(
            s.opts.contains(&got),
            "the independent decoder reads {:?} for {k:?}, expected {:?}",
            got.as_ref().map(|v| hex(v)),
            s.opts.iter().map(|o| o.as_ref().map(|v| hex(v))).collect::<Vec<_>>()
        );
    }
    ensure!(last.is_empty(), "the independent decoder finds unknown keys: {:?}", last.keys().next());
    Ok(())
}

fn compare_queue(core: &SharedCore, model: &QModel) -> Res {
    let core = core.borrow();
    no_oddity(&core)?;
    match decode::live_items(&core) {
        Ok(i) => ensure!(
            i == model.items,
            "the independent decoder reads {} but the queue contains {}",
            show_items(&i),
            show_items(&model.items)
        ),
        Err(e) => fail!("the pages do not follow the format: {e}"),
    }
    Ok(())
}

fn pick(case: &mut Case, queue: bool) -> (Rng, SharedCore, usize) {
    let mut rng = case.rng.fork();
    let g = if case.idx % 2 == 0 { GEOMS[(case.idx / 2) as usize % GEOMS.len()] } else { pick_geom(&mut rng) };
    let g = if rng.chance(1, 10) { *rng.pick(FULL_GEOMS) } else { g };
    let pages = pick_pages(&mut rng, if queue { 1 } else { 2 });
    let (g, pages) = rescale(&mut rng, g, pages);
    let base = pick_base(&mut rng, g, pages);
    let cache = rng.below(if queue { rig::queue::caches(g) } else { rig::map::caches(g) });
    case.note(|| format!("geometry {g:?} pages {pages} base {base} cache {cache}"));
    (rng, core_of(g, pages, base).shared(), cache)
}

fn written_map(case: &mut Case) -> Res {
    let (mut rng, core, cache) = pick(case, false);
    let mut dut = open_map(&core, cache);
    let mut model = MapModel::default();
    let mut gen_ = MapGen::new(&mut rng, &core.borrow());
    for _ in 0..steps(rng.range(20, 100), &core) {
        let op = gen_.op(&mut rng, &model, &core.borrow());
        let out = map_do(&mut *dut, &op);
        case.note(|| format!("{} -> {}", op.show(), show_out(&out)));
        model.apply(&op, &out, "call")?;
        case.eval();
        case.count("images_decoded", 1);
        compare_map(&core, &model)?;
    }
    saw_layout(case, &core);
    Ok(())
}

fn written_queue(case: &mut Case) -> Res {
    let (mut rng, core, cache) = pick(case, true);
    let mut dut = open_queue(&core, cache);
    let mut model = QModel::default();
    let mut gen_ = QGen::new(&mut rng, &core.borrow());
    for _ in 0..steps(rng.range(20, 100), &core) {
        let op = gen_.op(&mut rng);
        let view = view_of(&core)?;
        let before = core.borrow().image();
        let out = q_do(&mut *dut, &op);
        case.note(|| format!("{} -> {}", op.show(), show_q(&out)));
        model.apply(&op, &out, &view, &before)?;
        case.eval();
        case.count("images_decoded", 1);
        compare_queue(&core, &model)?;
    }
    saw_layout(case, &core);
    Ok(())
}

// ---- what an independent encoder writes ---------------------------------------------------------

/// Pages to fill, oldest first, and whether the last one stays partial open
fn plan_pages(rng: &mut Rng, n: usize, spare: usize) -> (Vec<usize>, bool) {
    let used = rng.range(1, (n - spare).max(1));
    let first = rng.below(n);
    ((0..used).map(|i| (first + i) % n).collect(), rng.chance(3, 4) || used == n)
}

fn encode(core: &mut Core, pages: &[usize], partial: bool, mut item: impl FnMut(usize) -> Option<(Vec<u8>, bool)>) {
    let w = core.word();
    for (i, p) in pages.iter().enumerate() {
        decode::mark_start(core, *p);
        let last = i + 1 == pages.len();
        if !last || !partial {
            decode::mark_end(core, *p);
        }
        let mut at = p * core.e + w;
        let end = (p + 1) * core.e - w;
        loop {
            let room = (end - at).saturating_sub(decode::up(decode::HEADER, w)) / w * w;
            if at + decode::footprint(core, 0) > end {
                break;
            }
            let Some((data, erased)) = item(room) else { break };
            at += decode::put_item(core, at, &data, erased);
        }
    }
    let w = core.w;
    for i in 0..core.wcount.len() {
        core.wcount[i] = u8::from(core.mem[i * w..(i + 1) * w].iter().any(|b| *b != 0xFF));
    }
}

fn encoded_map(case: &mut Case) -> Res {
    let (mut rng, core, cache) = pick(case, false);
    let mut model = MapModel::default();
    let mut gen_ = MapGen::new(&mut rng, &core.borrow());
    let n = core.borrow().pages();
    // A map fills its pages from the first one on; once around, exactly one page is free
    let (mut pages, partial) = plan_pages(&mut rng, n, 1);
    if pages.len() < n - 1 {
        pages = (0..pages.len()).collect();
    }
    {
        let mut c = core.borrow_mut();
        let stop = rng.range(2, 20);
        encode(&mut c, &pages, partial, |room| {
            if rng.chance(1, stop) {
                return None;
            }
            let k = gen_.key(&mut rng);
            if room < k.0.len() + 1 {
                return None;
            }
            let len = rng.below((room - k.0.len()).min(40));
            let v = payload(&mut rng, &mut gen_.seq, len);
            let mut data = vec![k.0.len() as u8];
            data.extend(&k.0);
            data.extend(&v);
            // Removing erases every item of a key: an erased item with live older ones does not happen
            let erased = rng.chance(1, 5) && model.slot(&k).opts == [None];
            if !erased {
                model.slot(&k).opts = vec![Some(v)];
            }
            Some((data, erased))
        });
    }
    case.note(|| format!("pages {:?} -> {} keys", decode::states(&core.borrow()), model.count_live()));
    case.count("images_encoded", 1);
    case.eval();
    saw_layout(case, &core);
    compare_map(&core, &model)?;
    let mut dut = open_map(&core, cache);
    model.check_all(&mut *dut, "image of the independent encoder")?;
    // Its room is not that of a map with this content, so only a roomy one can go on
    let c = core.borrow();
    let roomy = model.live(&c) * 4 <= decode::page_capacity(&c);
    drop(c);
    if roomy {
        go_on_map(case, &mut rng, &core, &mut *dut, &mut model, &mut gen_)?;
        case.count("images_continued", 1);
    }
    Ok(())
}

fn encoded_queue(case: &mut Case) -> Res {
    let (mut rng, core, cache) = pick(case, true);
    let mut model = QModel::default();
    let n = core.borrow().pages();
    let (pages, partial) = plan_pages(&mut rng, n, 1);
    let popped = rng.below(4);
    let mut seq = 0;
    {
        let mut c = core.borrow_mut();
        let stop = rng.range(2, 20);
        encode(&mut c, &pages, partial, |room| {
            if rng.chance(1, stop) {
                return None;
            }
            let len = rng.below(room.min(40) + 1);
            let data = payload(&mut rng, &mut seq, len);
            let erased = rng.below(4) < popped;
            if !erased {
                model.items.push(data.clone());
            }
            Some((data, erased))
        });
    }
    case.note(|| format!("pages {:?} -> {}", decode::states(&core.borrow()), show_items(&model.items)));
    case.count("images_encoded", 1);
    case.eval();
    saw_layout(case, &core);
    ensure!(decode::states(&core.borrow()).iter().all(|s| *s != Page::Broken), "encoder");
    compare_queue(&core, &model)?;
    let mut dut = open_queue(&core, cache);
    model.check(&mut *dut, "image of the independent encoder")?;
    go_on_queue(case, &mut rng, &core, &mut *dut, &mut model)?;
    Ok(())
}

// ---- every length -------------------------------------------------------------------------------

/// Lengths whose checksum looks like erased or zeroed flash, or is one that has to be avoided
fn odd_lengths() -> Vec<usize> {
    (0..=65_535usize)
        .filter(|l| {
            let crc = decode::crc16(&(*l as u16).to_le_bytes());
            crc >= 0xFFFE || crc <= 1 || (crc & 0xFF == 0xFF || crc >> 8 == 0xFF) && l % 16 == 0
        })
        .collect()
}

/// Items of any length on large pages, written by the code and read by the decoder and the other
/// way round
fn lengths(case: &mut Case) -> Res {
    let mut rng = case.rng.fork();
    let odd = odd_lengths();
    let worst: Vec<usize> = odd.iter().copied().filter(|l| decode::crc16(&(*l as u16).to_le_bytes()) >= 0xFFFE).collect();
    let core = core_of((4, 4, 131_072), 1, 0).shared();
    let encoded = case.idx % 2 == 1;
    let mut want: Vec<Vec<u8>> = Vec::new();
    let mut seq = 0;
    let mut at = 4;
    let mut dut = open_queue(&core, 0);
    if encoded {
        decode::mark_start(&mut core.borrow_mut(), 0);
    }
    for i in 0..6 {
        let len = match i {
            0 => worst[(case.idx / 2) as usize % worst.len()],
            1 => *rng.pick(&odd),
            2 => rng.below(300),
            _ => rng.below(65_536),
        };
        if at + decode::footprint(&core.borrow(), len) > 131_072 - 4 {
            continue;
        }
        let data = payload(&mut rng, &mut seq, len);
        case.count("special_lengths", u64::from(odd.contains(&len)));
        case.count("long_items", 1);
        case.note(|| format!("item of {len} bytes"));
        if encoded {
            at += decode::put_item(&mut core.borrow_mut(), at, &data, false);
        } else {
            at += decode::footprint(&core.borrow(), len);
            let r = dut.push(&data, false);
            ensure!(r == Ok(()), "pushing {len} bytes into an empty enough page gives {r:?}");
        }
        want.push(data);
        case.eval();
    }
    let lens: Vec<usize> = want.iter().map(Vec::len).collect();
    no_oddity(&core.borrow())?;
    let items = decode::live_items(&core.borrow());
    ensure!(items.as_ref() == Ok(&want), "items of {lens:?} bytes: the independent decoder reads others");
    for fresh in [false, true] {
        if fresh {
            dut = open_queue(&core, 0);
        }
        match dut.list() {
            Ok(got) => ensure!(
                got == want,
                "items of {lens:?} bytes come out as items of {:?} bytes, or changed",
                got.iter().map(Vec::len).collect::<Vec<_>>()
            ),
            Err(e) => fail!("items of {lens:?} bytes: reading them gives {e:?}"),
        }
    }
    case.saw(vcore::hash_bytes(20, &lens.iter().flat_map(|l| (*l as u16).to_le_bytes()).collect::<Vec<_>>()));
    Ok(())
}
