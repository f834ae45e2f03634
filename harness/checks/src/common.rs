//! Workload generation and models shared by the checks
use rig::map::MapDut;
use rig::queue::QueueDut;
use rig::{E, FULL_GEOMS, GEOMS, Geom, Out, VKey};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use vcore::decode;
use vcore::{Case, Core, Res, Rng, SharedCore, ensure, fail, hex};

pub fn core_of(g: Geom, pages: usize, base_pages: u32) -> Core {
    Core::new(g.0, g.1, g.2, base_pages * g.2 as u32, pages)
}

pub fn pick_geom(rng: &mut Rng) -> Geom {
    // The small ones wrap fastest
    if rng.chance(1, 3) { GEOMS[rng.below(3)] } else { *rng.pick(GEOMS) }
}

pub fn pick_base(rng: &mut Rng, g: Geom, pages: usize) -> u32 {
    match rng.below(6) {
        0..=2 => 0,
        3 => rng.below(40) as u32,
        4 => 1,
        // The last usable pages below 4 GiB
        _ => (u32::MAX / g.2 as u32) - pages as u32,
    }
}

pub fn pick_pages(rng: &mut Rng, min: usize) -> usize {
    let hi = match rng.below(4) {
        0 => 3,
        1 => 5,
        2 => 8,
        _ => 16,
    };
    rng.range(min, hi.max(min))
}

// ------------------------------------------------------------------ scale

thread_local! {
    /// 0: the usual workloads; 1: hundreds of pages; 2: hundreds of items per page; 3: dozens of pages of ordinary size;
    /// 4: more keys than the key caches hold
    static SCALE: Cell<u8> = const { Cell::new(0) };
}

pub fn scale() -> u8 {
    SCALE.get()
}

/// Run a workload on a flash of unusual size
pub fn scaled(case: &mut Case, f: impl Fn(&mut Case) -> Res) -> Res {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            SCALE.set(0);
        }
    }
    let _reset = Reset;
    SCALE.set(1 + ((case.idx + case.idx / 8) % 4) as u8);
    case.count("scaled_cases", 1);
    f(case)
}

/// The flash to use instead of the one picked for the usual workloads
pub fn rescale(rng: &mut Rng, g: Geom, pages: usize) -> (Geom, usize) {
    match scale() {
        0 => (g, pages),
        1 => (*rng.pick(FULL_GEOMS), *rng.pick(&[20, 33, 65, 130, 257, 257, 300, 300])),
        2 => ((4, 4, 8192), rng.range(2, 3)),
        4 => (*rng.pick(FULL_GEOMS), rng.range(6, 20)),
        _ => ((4, 4, 1024), rng.range(17, 40)),
    }
}

/// Number of calls: `base`, or enough to go around a flash of unusual size
pub fn steps(base: usize, core: &SharedCore) -> usize {
    let core = core.borrow();
    match scale() {
        0 => base,
        1 => base + core.pages() * 4,
        2 => base + core.mem.len() / 14,
        4 => base + core.pages() * 40,
        _ => base + core.pages() * 5,
    }
}

/// How often to do what takes time in the size of the flash
pub fn seldom(every: usize, steps: usize) -> usize {
    if scale() == 0 { every } else { steps / 4 + 1 }
}

fn scaled_sizes(rng: &mut Rng, sizes: Sizes, max: usize) -> Sizes {
    match scale() {
        0 => sizes,
        4 => *rng.pick(&[Sizes::Tiny, Sizes::Fixed(2)]),
        2 => *rng.pick(&[Sizes::Tiny, Sizes::Tiny, Sizes::Tiny, Sizes::Fixed(1), Sizes::Fixed(3), Sizes::Mixed]),
        _ => *rng.pick(&[Sizes::Mixed, Sizes::Mixed, Sizes::Small, Sizes::Fixed(max / 3), Sizes::Fixed(max / 2 + 1)]),
    }
}

/// Distinct keys of diverse lengths, some of them prefixes of others
pub fn make_keys(rng: &mut Rng, n: usize, max_len: usize) -> Vec<VKey> {
    let mut set = BTreeSet::new();
    let mut out: Vec<VKey> = Vec::new();
    let mut tries = 0;
    while out.len() < n && tries < 10_000 {
        tries += 1;
        let k = if !out.is_empty() && rng.chance(1, 4) {
            let mut b = rng.pick(&out).0.clone();
            if rng.chance(1, 2) && b.len() < max_len {
                b.push(rng.below(256) as u8);
            } else if let Some(l) = b.last_mut() {
                *l ^= 1 << rng.below(8);
            }
            VKey(b)
        } else {
            let len = if rng.chance(1, 8) { rng.below(max_len + 1) } else { rng.below(4.min(max_len) + 1) };
            VKey(rng.bytes(len))
        };
        if set.insert(k.clone()) {
            out.push(k);
        }
    }
    out
}

pub fn data_len(k: &VKey, v: &[u8]) -> usize {
    k.0.len() + 1 + v.len()
}

/// Bytes of diverse shape, unique for `seq` as far as the length allows
pub fn payload(rng: &mut Rng, seq: &mut u32, len: usize) -> Vec<u8> {
    *seq += 1;
    let mut v = match rng.below(8) {
        0 => vec![0u8; len],
        1 => vec![0xFFu8; len],
        _ => rng.bytes(len),
    };
    let tag = seq.to_le_bytes();
    let n = len.min(match len {
        0..=3 => 2,
        _ => 4,
    });
    // The tag at the start or at the end
    if rng.chance(1, 2) {
        v[..n].copy_from_slice(&tag[..n]);
    } else {
        v[len - n..].copy_from_slice(&tag[..n]);
    }
    v
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Sizes {
    Tiny,
    Small,
    Mixed,
    Big,
    Fixed(usize),
}

pub fn pick_sizes(rng: &mut Rng, max: usize) -> Sizes {
    match rng.below(6) {
        0 => Sizes::Tiny,
        1 | 2 => Sizes::Small,
        3 => Sizes::Mixed,
        4 => Sizes::Big,
        _ => Sizes::Fixed(rng.below(max / 2 + 1)),
    }
}

pub fn pick_len(rng: &mut Rng, sizes: Sizes, max: usize) -> usize {
    let m = max;
    let len = match sizes {
        Sizes::Tiny => rng.below(5),
        Sizes::Small => rng.below(m / 4 + 2),
        Sizes::Mixed => match rng.below(10) {
            0 => m,
            1 => m - rng.below(8.min(m + 1)),
            2..=3 => rng.below(m + 1),
            4 => m / 2 - rng.below((m / 2 + 1).min(10)),
            _ => rng.below(m / 4 + 2),
        },
        Sizes::Big => m / 2 + rng.below(m / 2 + 1),
        Sizes::Fixed(n) => n,
    };
    len.min(m)
}

// ------------------------------------------------------------------ map

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum MapOp {
    Store { k: VKey, v: Vec<u8>, generic: bool },
    Fetch(VKey),
    Remove(VKey),
    RemoveAll,
    EraseAll,
    Iterate,
    Recreate,
}

impl MapOp {
    pub fn show(&self) -> String {
        match self {
            MapOp::Store { k, v, generic } => {
                format!("store{} {k:?} = {}B {}", if *generic { "_generic" } else { "" }, v.len(), hex(v))
            }
            o => format!("{o:?}"),
        }
    }
    pub fn mutating(&self) -> bool {
        !matches!(self, MapOp::Fetch(_) | MapOp::Iterate | MapOp::Recreate)
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum MapRet {
    Done,
    Value(Option<Vec<u8>>),
    Items(rig::map::Items),
}

impl MapRet {
    pub fn show(&self) -> String {
        match self {
            MapRet::Done => "done".into(),
            MapRet::Value(v) => format!("{:?}", v.as_ref().map(|v| hex(v))),
            MapRet::Items(i) => format!("{} items", i.len()),
        }
    }
}

pub fn show_out(o: &Out<MapRet>) -> String {
    match o {
        Ok(r) => r.show(),
        Err(e) => format!("{e:?}"),
    }
}

pub fn map_do(dut: &mut dyn MapDut, op: &MapOp) -> Out<MapRet> {
    Ok(match op {
        MapOp::Store { k, v, generic: false } => {
            dut.store(k, v)?;
            MapRet::Done
        }
        MapOp::Store { k, v, generic: true } => {
            dut.store_generic(k, v)?;
            MapRet::Done
        }
        MapOp::Fetch(k) => MapRet::Value(dut.fetch(k)?),
        MapOp::Remove(k) => {
            dut.remove(k)?;
            MapRet::Done
        }
        MapOp::RemoveAll => {
            dut.remove_all()?;
            MapRet::Done
        }
        MapOp::EraseAll => {
            dut.erase_all()?;
            MapRet::Done
        }
        MapOp::Iterate => MapRet::Items(dut.iterate(usize::MAX)?),
        MapOp::Recreate => {
            dut.recreate();
            MapRet::Done
        }
    })
}

/// What a key may hold
#[derive(Debug, Clone, Default)]
pub struct Slot {
    pub opts: Vec<Option<Vec<u8>>>,
    /// Values an interrupted removal may still take away later: seeing one of them does not settle it
    pub doomed: Vec<Vec<u8>>,
}

impl Slot {
    fn doubt_removal(&mut self) {
        self.doomed.extend(self.opts.iter().flatten().cloned());
        if !self.opts.contains(&None) {
            self.opts.push(None);
        }
    }
}

/// The dictionary, with doubts after interrupted calls
#[derive(Debug, Clone, Default)]
pub struct MapModel {
    pub m: BTreeMap<VKey, Slot>,
}

impl MapModel {
    pub fn slot(&mut self, k: &VKey) -> &mut Slot {
        self.m.entry(k.clone()).or_insert_with(|| Slot { opts: vec![None], doomed: vec![] })
    }
    /// Largest footprint of everything that may be live
    pub fn live(&self, core: &Core) -> usize {
        self.m
            .iter()
            .map(|(k, s)| {
                s.opts
                    .iter()
                    .flatten()
                    .map(|v| decode::footprint(core, data_len(k, v)))
                    .max()
                    .unwrap_or(0)
            })
            .sum()
    }
    pub fn certain(&self) -> bool {
        self.m.values().all(|s| s.opts.len() == 1)
    }
    pub fn count_live(&self) -> usize {
        self.m.values().filter(|s| s.opts.iter().any(|o| o.is_some())).count()
    }
    /// The clear room condition: the store cannot be refused as full
    pub fn room(&self, core: &Core, foot: usize) -> bool {
        let cap = decode::page_capacity(core);
        foot <= cap && self.live(core) <= (core.pages() - 1) * (cap - foot)
    }
    pub fn done(&mut self, op: &MapOp) {
        match op {
            MapOp::Store { k, v, .. } => {
                *self.slot(k) = Slot { opts: vec![Some(v.clone())], doomed: vec![] };
            }
            MapOp::Remove(k) => *self.slot(k) = Slot { opts: vec![None], doomed: vec![] },
            MapOp::RemoveAll | MapOp::EraseAll => {
                for s in self.m.values_mut() {
                    *s = Slot { opts: vec![None], doomed: vec![] };
                }
            }
            _ => {}
        }
    }
    pub fn maybe(&mut self, op: &MapOp) {
        match op {
            MapOp::Store { k, v, .. } => {
                let s = self.slot(k);
                let v = Some(v.clone());
                if !s.opts.contains(&v) {
                    s.opts.push(v);
                }
            }
            MapOp::Remove(k) => {
                self.slot(k).doubt_removal();
            }
            MapOp::RemoveAll | MapOp::EraseAll => {
                for s in self.m.values_mut() {
                    s.doubt_removal();
                }
            }
            _ => {}
        }
    }
    /// The value of `k` was observed
    pub fn observe(&mut self, k: &VKey, got: &Option<Vec<u8>>, how: &str) -> Res {
        let s = self.slot(k);
        if !s.opts.contains(got) {
            fail!(
                "{how}: key {k:?} has {:?} but must have {}",
                got.as_ref().map(|v| hex(v)),
                s.opts
                    .iter()
                    .map(|o| format!("{:?}", o.as_ref().map(|v| hex(v))))
                    .collect::<Vec<_>>()
                    .join(" or ")
            );
        }
        if got.as_ref().is_some_and(|v| s.doomed.contains(v)) {
            s.opts = vec![got.clone(), None];
        } else {
            s.opts = vec![got.clone()];
            s.doomed.clear();
        }
        Ok(())
    }
    /// All entries of an iteration were observed
    pub fn observe_iter(&mut self, items: &rig::map::Items, how: &str) -> Res {
        let mut last: BTreeMap<&VKey, &Vec<u8>> = BTreeMap::new();
        for (k, v) in items {
            last.insert(k, v);
        }
        for k in last.keys() {
            ensure!(self.m.contains_key(*k), "{how}: iteration returned key {k:?} that was never stored");
        }
        let keys: Vec<_> = self.m.keys().cloned().collect();
        for k in keys {
            let got = last.get(&k).map(|v| (*v).clone());
            self.observe(&k, &got, how)?;
        }
        Ok(())
    }
    /// Apply the outcome of a call and check its result
    pub fn apply(&mut self, op: &MapOp, out: &Out<MapRet>, how: &str) -> Res {
        match (op, out) {
            (_, Ok(MapRet::Value(v))) => {
                let MapOp::Fetch(k) = op else { unreachable!() };
                self.observe(k, v, how)
            }
            (_, Ok(MapRet::Items(i))) => self.observe_iter(i, how),
            (_, Ok(MapRet::Done)) => {
                self.done(op);
                Ok(())
            }
            (_, Err(e)) if e.interrupted() => {
                self.maybe(op);
                Ok(())
            }
            (_, Err(e)) => {
                fail!("{how}: {} returned {e:?}", op.show())
            }
        }
    }
    /// Compare everything with what the storage says
    pub fn check_all(&mut self, dut: &mut dyn MapDut, how: &str) -> Res {
        let keys: Vec<_> = self.m.keys().cloned().collect();
        for k in &keys {
            match dut.fetch(k) {
                Ok(v) => self.observe(k, &v, how)?,
                Err(e) => fail!("{how}: fetch of {k:?} returned {e:?}"),
            }
        }
        match dut.iterate(usize::MAX) {
            Ok(items) => self.observe_iter(&items, &format!("{how} (iteration)")),
            Err(e) => fail!("{how}: iteration returned {e:?}"),
        }
    }
}

/// Generates map histories whose stores always have clear room
pub struct MapGen {
    pub g: Geom,
    pub keys: Vec<VKey>,
    pub sizes: Sizes,
    pub seq: u32,
    pub weights: [u32; 7],
    pub max_data: usize,
}

impl MapGen {
    pub fn new(rng: &mut Rng, core: &Core) -> Self {
        let max_data = decode::max_data(core);
        let nkeys = match rng.below(4) {
            0 => rng.range(1, 3),
            1 => rng.range(2, 6),
            2 => rng.range(4, 12),
            _ => rng.range(8, 24),
        };
        let nkeys = match scale() {
            0 => nkeys,
            4 => rng.range(30, 80),
            _ => {
                let most = *rng.pick(&[30, 150, 400]);
                rng.range(nkeys, most)
            }
        };
        let max_key = (max_data / 3).min(if scale() == 2 { 3 } else { 60 });
        let mut keys = make_keys(rng, nkeys, max_key);
        if scale() == 4 && rng.chance(2, 3) {
            // Items of equal size come to lie where others were
            keys = (0..nkeys).map(|i| VKey(vec![i as u8, 0x33])).collect();
        }
        let sizes = pick_sizes(rng, max_data - 1);
        let sizes = scaled_sizes(rng, sizes, max_data - 1);
        // store fetch remove removeall eraseall iterate recreate
        let weights = match rng.below(4) {
            0 => [10, 0, 0, 0, 0, 0, 0],
            1 => [20, 3, 4, 0, 0, 1, 1],
            2 => [30, 10, 10, 1, 1, 3, 3],
            _ => [12, 2, 8, 1, 0, 1, 1],
        };
        let weights = match (scale(), weights) {
            (0, w) => w,
            (_, [s, f, r, ..]) => [s * 6, f * 6, r * 3, 0, u32::from(rng.chance(1, 4)), 1, 1],
        };
        MapGen { g: (core.w, core.r, core.e), keys, sizes, seq: 0, weights, max_data }
    }
    pub fn key(&mut self, rng: &mut Rng) -> VKey {
        // Skewed: some keys are old, some are hot
        let n = self.keys.len();
        let i = if rng.chance(1, 2) { rng.below(n) } else { rng.below(n).min(rng.below(n)).min(rng.below(n)) };
        self.keys[i].clone()
    }
    pub fn store(&mut self, rng: &mut Rng, model: &MapModel, core: &Core) -> Option<MapOp> {
        for _ in 0..6 {
            let k = self.key(rng);
            let max = self.max_data - k.0.len() - 1;
            let len = pick_len(rng, self.sizes, max);
            let foot = decode::footprint(core, k.0.len() + 1 + len);
            if model.room(core, foot) {
                let v = payload(rng, &mut self.seq, len);
                return Some(MapOp::Store { k, v, generic: rng.chance(1, 3) });
            }
        }
        None
    }
    pub fn op(&mut self, rng: &mut Rng, model: &MapModel, core: &Core) -> MapOp {
        loop {
            let op = match rng.weighted(&self.weights) {
                0 => match self.store(rng, model, core) {
                    Some(op) => op,
                    None => MapOp::Remove(self.key(rng)),
                },
                1 => MapOp::Fetch(self.key(rng)),
                2 => MapOp::Remove(self.key(rng)),
                3 if rng.chance(1, 4) => MapOp::RemoveAll,
                4 if rng.chance(1, 4) => MapOp::EraseAll,
                5 => MapOp::Iterate,
                6 => MapOp::Recreate,
                _ => continue,
            };
            return op;
        }
    }
}

// ------------------------------------------------------------------ queue

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum QOp {
    Push { data: Vec<u8>, overwrite: bool },
    Peek,
    Pop,
    /// Visit at most `max` items, pop those whose bit is set in the mask
    Walk { max: usize, mask: u64, retries: usize },
    MaxFit,
    SpaceLeft,
    EraseAll,
    Recreate,
}

impl QOp {
    pub fn show(&self) -> String {
        match self {
            QOp::Push { data, overwrite } => format!("push {}B {} overwrite={overwrite}", data.len(), hex(data)),
            o => format!("{o:?}"),
        }
    }
}

#[derive(Debug)]
pub enum QRet {
    Done,
    Item(Option<Vec<u8>>),
    Walk(rig::queue::Walk),
    Num(Option<u32>),
}

pub fn q_do(dut: &mut dyn QueueDut, op: &QOp) -> Out<QRet> {
    Ok(match op {
        QOp::Push { data, overwrite } => {
            dut.push(data, *overwrite)?;
            QRet::Done
        }
        QOp::Peek => QRet::Item(dut.peek()?),
        QOp::Pop => QRet::Item(dut.pop()?),
        QOp::Walk { max, mask, retries } => QRet::Walk(dut.walk(*max, *retries, 1, &mut |i| mask >> (i % 64) & 1 == 1)),
        QOp::MaxFit => QRet::Num(dut.max_fit()?),
        QOp::SpaceLeft => QRet::Num(Some(dut.space_left()?)),
        QOp::EraseAll => {
            dut.erase_all()?;
            QRet::Done
        }
        QOp::Recreate => {
            dut.recreate();
            QRet::Done
        }
    })
}

pub fn show_q(o: &Out<QRet>) -> String {
    match o {
        Ok(QRet::Done) => "done".into(),
        Ok(QRet::Item(i)) => format!("{:?}", i.as_ref().map(|v| hex(v))),
        Ok(QRet::Walk(w)) => format!(
            "walk {} seen, {} popped, errs {:?}, ended {}",
            w.seen.len(),
            w.seen.iter().filter(|s| s.1.is_some()).count(),
            w.errs,
            w.ended
        ),
        Ok(QRet::Num(n)) => format!("{n:?}"),
        Err(e) => format!("{e:?}"),
    }
}

pub fn show_items(v: &[Vec<u8>]) -> String {
    let mut s: Vec<_> = v.iter().take(12).map(|d| hex(d)).collect();
    if v.len() > 12 {
        s.push(format!("... {} items", v.len()));
    }
    format!("[{}]", s.join(", "))
}

/// Oldest first
pub type Items = Vec<Vec<u8>>;

/// Number of live items in the oldest page that holds any (the ones an overwriting push may evict)
pub fn oldest_page_items(core: &Core) -> usize {
    let pages = decode::pages(core);
    let states: Vec<_> = pages.iter().map(|p| p.state).collect();
    match decode::order(&states) {
        Ok(o) => o.first().map_or(0, |p| pages[*p].live()),
        Err(_) => 0,
    }
}

pub struct QGen {
    pub sizes: Sizes,
    pub seq: u32,
    /// push, push overwrite, peek, pop, walk, maxfit, space, eraseall, recreate
    pub weights: [u32; 9],
    pub max_data: usize,
    phase: usize,
}

impl QGen {
    pub fn new(rng: &mut Rng, core: &Core) -> Self {
        let max_data = decode::max_data(core);
        let sizes = pick_sizes(rng, max_data);
        let weights = match rng.below(5) {
            0 => [10, 0, 1, 8, 0, 0, 0, 0, 0],
            1 => [6, 6, 1, 3, 1, 0, 0, 0, 1],
            2 => [20, 4, 4, 12, 4, 2, 2, 1, 2],
            3 => [10, 0, 1, 4, 3, 0, 0, 0, 1],
            _ => [2, 12, 1, 3, 1, 0, 0, 0, 0],
        };
        let sizes = scaled_sizes(rng, sizes, max_data);
        let weights = match (scale(), weights) {
            (0, w) => w,
            (_, [a, b, c, d, ..]) => [a * 4, b * 4, c * 2, d * 4, 1, 1, 1, 0, 1],
        };
        QGen { sizes, seq: 0, weights, max_data, phase: 0 }
    }
    pub fn op(&mut self, rng: &mut Rng) -> QOp {
        // Waves of filling and draining
        let wave = if scale() == 0 { 30 } else { 300 };
        if rng.chance(1, wave) {
            self.phase = rng.below(3);
        }
        let mut w = self.weights;
        match self.phase {
            1 => w[3] = 0,
            2 => w[3] *= 3,
            _ => {}
        }
        loop {
            return match rng.weighted(&w) {
                n @ (0 | 1) => {
                    let len = pick_len(rng, self.sizes, self.max_data);
                    QOp::Push { data: payload(rng, &mut self.seq, len), overwrite: n == 1 }
                }
                2 => QOp::Peek,
                3 => QOp::Pop,
                4 => QOp::Walk {
                    max: if rng.chance(1, 3) { rng.below(8) } else { usize::MAX },
                    mask: match rng.below(4) {
                        0 => 0,
                        1 => u64::MAX,
                        2 => (1 << rng.below(20)) - 1,
                        _ => rng.next() & rng.next(),
                    },
                    retries: 0,
                },
                5 => QOp::MaxFit,
                6 => QOp::SpaceLeft,
                7 if rng.chance(1, 4) => QOp::EraseAll,
                8 => QOp::Recreate,
                _ => continue,
            };
        }
    }
}

/// Fresh uncached view of the current flash content, on a copy
pub fn snapshot(core: &SharedCore) -> SharedCore {
    core.borrow().image().shared()
}

pub fn unexpected(e: &E) -> bool {
    !e.interrupted()
}

pub fn saw_layout(case: &mut Case, core: &SharedCore) {
    let c = core.borrow();
    let mut h = decode::states_hash(&c);
    h ^= vcore::hash_bytes(11, &[c.w as u8, c.r as u8, (c.e / 16) as u8, c.pages() as u8]);
    // Fill level of each page in eighths
    for p in 0..c.pages() {
        let m = &c.mem[p * c.e..(p + 1) * c.e];
        let used = m.iter().rposition(|b| *b != 0xFF).map_or(0, |i| i + 1) * 8 / c.e;
        h = h.wrapping_mul(31).wrapping_add(used as u64);
    }
    drop(c);
    case.saw(h);
}

/// What a push is expected to do, derived from an independent decoding of the flash
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Pred {
    TooBig,
    /// Behind the newest item
    Here,
    /// On the next page, which is free
    Next,
    /// Only by dropping the live items of the next page
    Evict(usize),
}

pub struct QView {
    pub pages: Vec<decode::DPage>,
    pub youngest: usize,
    pub next: usize,
}

pub fn q_view(core: &Core) -> Result<QView, String> {
    let pages = decode::pages(core);
    if let Some(p) = pages.iter().find_map(|p| p.odd.clone()) {
        return Err(p);
    }
    let states: Vec<_> = pages.iter().map(|p| p.state).collect();
    let order = decode::order(&states)?;
    let n = pages.len();
    let youngest = match order.last() {
        None => 0,
        Some(p) if states[*p] == decode::Page::Partial => *p,
        Some(p) => (p + 1) % n,
    };
    Ok(QView { pages, youngest, next: (youngest + 1) % n })
}

impl QView {
    pub fn predict(&self, core: &Core, len: usize) -> Pred {
        if len > decode::max_data(core) {
            return Pred::TooBig;
        }
        let y = &self.pages[self.youngest];
        if y.end - y.free >= decode::footprint(core, len) {
            return Pred::Here;
        }
        match self.pages[self.next].live() {
            0 => Pred::Next,
            n => Pred::Evict(n),
        }
    }
    pub fn space(&self, core: &Core) -> usize {
        self.pages
            .iter()
            .map(|p| {
                let full = p.end - p.free < decode::footprint(core, 0);
                match p.state {
                    decode::Page::Open => decode::page_capacity(core),
                    decode::Page::Closed if p.live() == 0 => decode::page_capacity(core),
                    decode::Page::Closed => 0,
                    _ if full && p.live() == 0 => decode::page_capacity(core),
                    _ => p.end - p.free,
                }
            })
            .sum()
    }
    pub fn max_fit(&self, core: &Core) -> Option<usize> {
        if self.pages[self.next].live() == 0 && (self.next != self.youngest || self.pages[self.youngest].state == decode::Page::Open) {
            return Some(decode::max_data(core));
        }
        let y = &self.pages[self.youngest];
        let here = (y.end - y.free).checked_sub(decode::footprint(core, 0)).map(|n| n.min(decode::max_data(core)));
        // A single page of which everything was popped is used again when nothing fits behind
        if self.pages[self.next].live() == 0 { Some(decode::max_data(core)) } else { here }
    }
}

/// The queue content
#[derive(Debug, Clone, Default)]
pub struct QModel {
    pub items: Items,
}

impl QModel {
    /// Check the result of a fault-free call and update the content. `view` was taken before the call.
    pub fn apply(&mut self, op: &QOp, out: &Out<QRet>, view: &QView, core: &Core) -> Res {
        match (op, out) {
            (QOp::Push { data, overwrite }, out) => {
                let pred = view.predict(core, data.len());
                let ok = match (pred, *overwrite) {
                    (Pred::TooBig, _) => matches!(out, Err(E::TooBig)),
                    (Pred::Evict(_), false) => matches!(out, Err(E::Full)),
                    _ => matches!(out, Ok(_)),
                };
                ensure!(ok, "{} returned {} but {pred:?} was expected", op.show(), show_q(out));
                if out.is_ok() {
                    if let Pred::Evict(n) = pred {
                        ensure!(n <= self.items.len(), "more live items on a page than in the queue");
                        self.items.drain(..n);
                    }
                    self.items.push(data.clone());
                }
            }
            (_, Err(e)) => fail!("{} returned {e:?}", op.show()),
            (QOp::Peek, Ok(QRet::Item(got))) => {
                ensure!(
                    got.as_ref() == self.items.first(),
                    "peek returned {} but the oldest item is {:?}",
                    show_q(out),
                    self.items.first().map(|d| hex(d))
                );
            }
            (QOp::Pop, Ok(QRet::Item(got))) => {
                ensure!(
                    got.as_ref() == self.items.first(),
                    "pop returned {} but the oldest item is {:?}",
                    show_q(out),
                    self.items.first().map(|d| hex(d))
                );
                if got.is_some() {
                    self.items.remove(0);
                }
            }
            (QOp::Walk { max, .. }, Ok(QRet::Walk(w))) => {
                if let Some(e) = w.errs.first() {
                    fail!("iteration returned {e:?}");
                }
                let want = self.items.len().min(*max);
                let seen: Vec<_> = w.seen.iter().map(|s| &s.0).collect();
                let expect: Vec<_> = self.items.iter().take(want).collect();
                ensure!(
                    seen == expect,
                    "iteration returned {} instead of {}",
                    show_items(&w.seen.iter().map(|s| s.0.clone()).collect::<Vec<_>>()),
                    show_items(&self.items[..want])
                );
                ensure!(w.ended || want == *max, "iteration did not end");
                let mut i = 0;
                for (d, popped) in &w.seen {
                    match popped {
                        Some(Ok(())) => {
                            self.items.remove(i);
                        }
                        Some(Err(e)) => fail!("popping entry {} returned {e:?}", hex(d)),
                        None => i += 1,
                    }
                }
            }
            (QOp::EraseAll, _) => self.items.clear(),
            _ => {}
        }
        Ok(())
    }
    pub fn check(&self, dut: &mut dyn QueueDut, how: &str) -> Res {
        match dut.list() {
            Ok(l) => ensure!(
                l == self.items,
                "{how}: the queue contains {} but should contain {}",
                show_items(&l),
                show_items(&self.items)
            ),
            Err(e) => fail!("{how}: iteration returned {e:?}"),
        }
        Ok(())
    }
}

pub fn view_of(core: &SharedCore) -> Res<QView> {
    q_view(&core.borrow()).map_err(|e| vcore::Fail::new(format!("independent decoder: {e}")))
}

/// All contents the queue may have after interrupted calls
#[derive(Debug, Clone)]
pub struct QPoss {
    pub poss: Vec<Items>,
}

/// What the flash looked like and which pages were erased during a call
pub struct QBefore {
    pages: Vec<decode::DPage>,
    core: Core,
}

impl QBefore {
    pub fn new(core: &SharedCore) -> Self {
        let image = core.borrow().image();
        QBefore { pages: decode::lenient_pages(&image), core: image }
    }
    /// Live items of the pages erased since
    fn evicted(&self, log: &[vcore::flash::Ev]) -> Items {
        let mut done = std::collections::BTreeSet::new();
        let mut out = Items::new();
        for ev in log.iter().filter(|e| e.kind == vcore::flash::ERASE) {
            let p = (ev.addr - self.core.base) as usize / self.core.e;
            if p < self.pages.len() && self.pages[p].state != decode::Page::Broken && done.insert(p) {
                out.extend(self.pages[p].items.iter().filter(|i| i.ok && !i.erased).map(|i| i.data.clone()));
            }
        }
        out
    }
    /// Whether a refusal as full is justified. None if the pages are in disorder.
    fn refusal_ok(&self, len: usize) -> Option<bool> {
        let states: Vec<_> = self.pages.iter().map(|p| p.state).collect();
        let order = decode::order(&states).ok()?;
        let n = self.pages.len();
        let youngest = match order.last() {
            None => 0,
            Some(p) if states[*p] == decode::Page::Partial => *p,
            Some(p) => (p + 1) % n,
        };
        let y = &self.pages[youngest];
        let next = &self.pages[(youngest + 1) % n];
        let fits = y.end - y.free >= decode::footprint(&self.core, len);
        Some(!fits && next.state != decode::Page::Open && next.items.iter().any(|i| !i.erased))
    }
}

impl QPoss {
    pub fn new() -> Self {
        QPoss { poss: vec![vec![]] }
    }
    fn set(&mut self, mut v: Vec<Items>, err: Option<String>) -> Res {
        v.sort();
        v.dedup();
        if v.is_empty() {
            return Err(vcore::Fail::new(err.unwrap_or_else(|| "no possible content is left".into())));
        }
        self.poss = v;
        Ok(())
    }
    /// A call that was not interrupted, or returned success anyway
    pub fn apply(&mut self, op: &QOp, out: &Out<QRet>, before: &QBefore, log: &[vcore::flash::Ev], how: &str) -> Res {
        self.step(op, out, before, log, how, false)
    }
    /// A call hit by a fault
    pub fn interrupted(&mut self, op: &QOp, out: &Out<QRet>, before: &QBefore, log: &[vcore::flash::Ev], how: &str) -> Res {
        self.step(op, out, before, log, how, true)
    }
    fn step(&mut self, op: &QOp, out: &Out<QRet>, before: &QBefore, log: &[vcore::flash::Ev], how: &str, fault: bool) -> Res {
        let mut next = Vec::new();
        let mut err = None;
        let gone = before.evicted(log);
        for c in &self.poss {
            match one(c, op, out, before, &gone, fault) {
                Ok(v) => next.extend(v),
                Err(e) => err = Some(format!("{how}: {} returned {}: {e}", op.show(), show_q(out))),
            }
        }
        self.set(next, err)
    }
    pub fn check(&mut self, dut: &mut dyn QueueDut, how: &str) -> Res {
        match dut.list() {
            Ok(l) => {
                if !self.poss.contains(&l) {
                    let p: Vec<_> = self.poss.iter().map(|p| show_items(p)).collect();
                    fail!("{how}: the queue contains {} but should contain {}", show_items(&l), p.join(" or "));
                }
                self.poss = vec![l];
            }
            Err(e) => fail!("{how}: iteration returned {e:?}"),
        }
        Ok(())
    }
}

/// All contents possible after the call, or why this outcome is impossible
fn one(c: &Items, op: &QOp, out: &Out<QRet>, before: &QBefore, gone: &Items, fault: bool) -> Result<Vec<Items>, String> {
    match (op, out) {
        (QOp::Push { data, overwrite }, _) => {
            let mut variants = vec![];
            let mut with = c.clone();
            with.push(data.clone());
            let stripped = if gone.is_empty() {
                None
            } else {
                if !*overwrite {
                    return Err(format!("a push that may not overwrite erased {}", show_items(gone)));
                }
                if !c.starts_with(gone) {
                    return Err(format!("the push erased {} which are not the oldest items of {}", show_items(gone), show_items(c)));
                }
                Some(c[gone.len()..].to_vec())
            };
            match out {
                Ok(_) => match stripped {
                    Some(mut s) => {
                        s.push(data.clone());
                        variants.push(s);
                    }
                    None => variants.push(with),
                },
                Err(e) if e.interrupted() && fault => {
                    variants.push(c.clone());
                    match stripped {
                        Some(s) => {
                            let mut t = s.clone();
                            t.push(data.clone());
                            variants.push(s);
                            variants.push(t);
                        }
                        None => variants.push(with),
                    }
                }
                Err(E::Full) if !*overwrite && gone.is_empty() => {
                    if before.refusal_ok(data.len()) == Some(false) {
                        return Err("refused although there is room".into());
                    }
                    variants.push(c.clone());
                }
                Err(E::TooBig) if data.len() > decode::max_data(&before.core) => variants.push(c.clone()),
                Err(_) => return Err("unexpected error".into()),
            }
            Ok(variants)
        }
        (QOp::EraseAll, Ok(_)) => Ok(vec![vec![]]),
        (QOp::Recreate, _) => Ok(vec![c.clone()]),
        _ if !gone.is_empty() && !matches!(op, QOp::Walk { .. }) => Err(format!("items were erased: {}", show_items(gone))),
        (_, Err(e)) if e.interrupted() && fault => {
            let mut v = vec![c.clone()];
            if *op == QOp::Pop && !c.is_empty() {
                v.push(c[1..].to_vec());
            }
            Ok(v)
        }
        (_, Err(_)) => Err("unexpected error".into()),
        (QOp::Peek | QOp::Pop, Ok(QRet::Item(got))) => {
            if got.as_ref() != c.first() {
                return Err(format!("the oldest item is {:?}", c.first().map(|d| hex(d))));
            }
            Ok(vec![if *op == QOp::Pop && got.is_some() { c[1..].to_vec() } else { c.clone() }])
        }
        (QOp::Walk { max, .. }, Ok(QRet::Walk(w))) => {
            let mut variants: Vec<Items> = vec![vec![]];
            // Items of equal content cannot be told apart
            let erased_more_often = |d: &Vec<u8>| {
                gone.iter().filter(|g| *g == d).count() > w.seen.iter().filter(|s| s.0 == *d && s.1 == Some(Ok(()))).count()
            };
            if let Some(g) = gone.iter().find(|g| !w.seen.iter().any(|(d, p)| d == *g && p.is_some())) {
                return Err(format!("item {} was erased without being popped", hex(g)));
            }
            for (i, (d, popped)) in w.seen.iter().enumerate() {
                if c.get(i) != Some(d) {
                    return Err(format!("entry {i} was {} instead of {:?}", hex(d), c.get(i).map(|d| hex(d))));
                }
                match popped {
                    Some(Ok(())) => {}
                    None => variants.iter_mut().for_each(|v| v.push(d.clone())),
                    Some(Err(e)) if fault && e.interrupted() && erased_more_often(d) => {}
                    Some(Err(e)) if fault && e.interrupted() => {
                        let mut more = variants.clone();
                        more.iter_mut().for_each(|v| v.push(d.clone()));
                        variants.extend(more);
                    }
                    Some(Err(e)) => return Err(format!("popping entry {i} returned {e:?}")),
                }
            }
            if let Some(e) = w.errs.iter().find(|e| !(fault && e.interrupted())) {
                return Err(format!("iteration returned {e:?}"));
            }
            if w.ended && w.seen.len() < c.len().min(*max) {
                return Err(format!("the iteration ended after {} of {} items", w.seen.len(), c.len()));
            }
            variants.iter_mut().for_each(|v| v.extend_from_slice(&c[w.seen.len()..]));
            Ok(variants)
        }
        (_, Ok(_)) => Ok(vec![c.clone()]),
    }
}
