//! Independent decoder and encoder of the on-flash format of version 8.0.1, written from the
//! documented layout:
//!
//! page:  [start marker word] items... [end marker word]; a marker is written as zeros
//! item:  [data crc32 LE][length u16 LE][crc16 of the length LE][pad to word][data][pad to word]
//! An item whose data crc is zero is erased.

use crate::flash::Core;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Page {
    Open,
    Partial,
    Closed,
    /// Only the end marker is there
    Broken,
}

pub const HEADER: usize = 8;

pub fn up(n: usize, word: usize) -> usize {
    n.div_ceil(word) * word
}

pub fn crc16(data: &[u8]) -> u16 {
    // CRC-16F/4.2, reflected polynomial 0x1a2e, init and xorout 0xffff; never 0xffff
    let mut crc = 0xffffu16;
    for b in data {
        crc ^= u16::from(*b);
        for _ in 0..8 {
            let lsb = crc & 1;
            crc >>= 1;
            if lsb == 1 {
                crc ^= 0x1a2e;
            }
        }
    }
    let crc = !crc;
    if crc == 0xffff { 0xfffe } else { crc }
}

/// CRC-32C with initial value 0xEEEEEEEE; never 0 and never with a first byte of 0x00 or 0xFF
pub fn crc32(data: &[u8]) -> u32 {
    let mut crc = 0xEEEE_EEEEu32;
    for b in data {
        crc ^= u32::from(*b);
        for _ in 0..8 {
            let lsb = crc & 1;
            crc >>= 1;
            if lsb == 1 {
                crc ^= 0x82f6_3b78;
            }
        }
    }
    let crc = !crc;
    match crc {
        0 => 1,
        c if c & 0xFF == 0 || c & 0xFF == 0xFF => c ^ 1,
        c => c,
    }
}

#[derive(Debug, Clone)]
pub struct DItem {
    /// Offset of the header from the start of the range
    pub off: usize,
    pub len: usize,
    pub erased: bool,
    pub ok: bool,
    pub data: Vec<u8>,
    /// Bytes occupied including header and padding
    pub size: usize,
}

#[derive(Debug, Clone)]
pub struct DPage {
    pub state: Page,
    pub items: Vec<DItem>,
    /// Offset (from the start of the range) of the first byte after the last item
    pub free: usize,
    pub end: usize,
    /// Anything that a healthy image never contains
    pub odd: Option<String>,
}

impl DPage {
    pub fn live(&self) -> usize {
        self.items.iter().filter(|i| i.ok && !i.erased).count()
    }
}

fn marked(core: &Core, off: usize) -> bool {
    core.mem[off..off + core.r].iter().map(|b| b.count_zeros()).sum::<u32>() >= 4
}

pub fn page_state(core: &Core, page: usize) -> Page {
    let start = marked(core, page * core.e);
    let end = marked(core, (page + 1) * core.e - core.r);
    match (start, end) {
        (false, false) => Page::Open,
        (true, false) => Page::Partial,
        (true, true) => Page::Closed,
        (false, true) => Page::Broken,
    }
}

/// Decode one page strictly: stops at the first thing that is not an item
pub fn page(core: &Core, page: usize) -> DPage {
    let word = core.word();
    let start = page * core.e;
    let end = start + core.e - word;
    let state = page_state(core, page);
    let mut odd = None;
    for off in [start, end] {
        let m = &core.mem[off..off + word];
        if !(m.iter().all(|b| *b == 0xFF) || m.iter().all(|b| *b == 0)) {
            odd = Some(format!("marker word at {off:#x} is neither erased nor zero: {}", crate::hex(m)));
        }
    }
    let mut items = Vec::new();
    let mut at = start + word;
    loop {
        if at + up(HEADER, word) > end {
            break;
        }
        let h = &core.mem[at..at + up(HEADER, word)];
        if h.iter().all(|b| *b == 0xFF) {
            break;
        }
        let crc = u32::from_le_bytes(h[0..4].try_into().unwrap());
        let len = u16::from_le_bytes(h[4..6].try_into().unwrap()) as usize;
        let lcrc = u16::from_le_bytes(h[6..8].try_into().unwrap());
        if crc16(&h[4..6]) != lcrc {
            odd = Some(format!("length crc of item at {at:#x} is wrong"));
            break;
        }
        let data = at + up(HEADER, word);
        let size = up(HEADER, word) + up(len, word);
        if at + size > end {
            odd = Some(format!("item at {at:#x} leaves its page"));
            break;
        }
        let bytes = core.mem[data..data + len].to_vec();
        let ok = crc == 0 || crc32(&bytes) == crc;
        if !ok {
            odd = Some(format!("data crc of item at {at:#x} is wrong"));
        }
        items.push(DItem { off: at, len, erased: crc == 0, ok, data: bytes, size });
        at += size;
    }
    if odd.is_none() && !core.mem[at..end].iter().all(|b| *b == 0xFF) {
        odd = Some(format!("bytes after the last item of page {page} are not erased"));
    }
    if odd.is_none() && state == Page::Open && at != start + word {
        odd = Some(format!("page {page} contains items but has no start marker"));
    }
    DPage { state, items, free: at, end, odd }
}

/// Decode one page the way the format documents recovery: a header with a wrong length CRC, or that
/// leaves the page, is skipped one word at a time; a fully erased header ends the page.
pub fn lenient_page(core: &Core, page: usize) -> DPage {
    let word = core.word();
    let start = page * core.e;
    let end = start + core.e - word;
    let state = page_state(core, page);
    let mut items = Vec::new();
    let mut odd = None;
    let mut at = start + word;
    // What remains of a bad header is not usable, or it could be completed by accident
    let mut bad = 0;
    while at + up(HEADER, word) <= end {
        let h = &core.mem[at..at + up(HEADER, word)];
        if h.iter().all(|b| *b == 0xFF) {
            break;
        }
        let crc = u32::from_le_bytes(h[0..4].try_into().unwrap());
        let len = u16::from_le_bytes(h[4..6].try_into().unwrap()) as usize;
        let data = at + up(HEADER, word);
        let size = up(HEADER, word) + up(len, word);
        if crc16(&h[4..6]).to_le_bytes() != h[6..8] || at + size > end {
            bad = data;
            odd = Some(format!("no header at {at:#x}"));
            at += word;
            continue;
        }
        let bytes = core.mem[data..data + len].to_vec();
        let ok = crc == 0 || crc32(&bytes) == crc;
        items.push(DItem { off: at, len, erased: crc == 0, ok, data: bytes, size });
        at += size;
    }
    DPage { state, items, free: at.max(bad), end, odd }
}

pub fn lenient_pages(core: &Core) -> Vec<DPage> {
    (0..core.pages()).map(|p| lenient_page(core, p)).collect()
}

pub fn pages(core: &Core) -> Vec<DPage> {
    (0..core.pages()).map(|p| page(core, p)).collect()
}

/// Pages that hold data, oldest first. Err if the layout of pages is not a legal one.
pub fn order(states: &[Page]) -> Result<Vec<usize>, String> {
    let n = states.len();
    let partial: Vec<_> = (0..n).filter(|i| states[*i] == Page::Partial).collect();
    if states.contains(&Page::Broken) {
        return Err(format!("half erased page: {states:?}"));
    }
    let youngest = match partial.len() {
        1 => partial[0],
        0 => {
            let closed: Vec<_> = (0..n).filter(|i| states[*i] == Page::Closed).collect();
            if closed.is_empty() {
                return Ok(vec![]);
            }
            // The last closed page before an open one
            let mut ends: Vec<_> =
                closed.iter().copied().filter(|i| states[(i + 1) % n] == Page::Open).collect();
            match ends.len() {
                1 => ends.pop().unwrap(),
                _ => return Err(format!("no single youngest page: {states:?}")),
            }
        }
        _ => return Err(format!("more than one partial open page: {states:?}")),
    };
    // Walk back over closed pages
    let mut out = vec![youngest];
    let mut at = youngest;
    loop {
        at = (at + n - 1) % n;
        if at == youngest || states[at] != Page::Closed {
            break;
        }
        out.push(at);
    }
    let used = (0..n).filter(|i| states[*i] != Page::Open).count();
    if used != out.len() {
        return Err(format!("used pages are not consecutive: {states:?}"));
    }
    out.reverse();
    Ok(out)
}

/// All items that are neither erased nor damaged, oldest first
pub fn live_items(core: &Core) -> Result<Vec<Vec<u8>>, String> {
    let pages = pages(core);
    let states: Vec<_> = pages.iter().map(|p| p.state).collect();
    let mut out = Vec::new();
    for p in order(&states)? {
        for item in &pages[p].items {
            if item.ok && !item.erased {
                out.push(item.data.clone());
            }
        }
    }
    Ok(out)
}

pub fn states(core: &Core) -> Vec<Page> {
    (0..core.pages()).map(|p| page_state(core, p)).collect()
}

pub fn states_hash(core: &Core) -> u64 {
    let v: Vec<u8> = states(core).iter().map(|s| *s as u8).collect();
    crate::hash_bytes(3, &v)
}

// ---- encoder ----

/// Write an item at offset `at` (from the range start) into erased flash; returns its size
pub fn put_item(core: &mut Core, at: usize, data: &[u8], erased: bool) -> usize {
    let word = core.word();
    let h = up(HEADER, word);
    let crc = if erased { 0 } else { crc32(data) };
    let len = (data.len() as u16).to_le_bytes();
    core.mem[at..at + 4].copy_from_slice(&crc.to_le_bytes());
    core.mem[at + 4..at + 6].copy_from_slice(&len);
    core.mem[at + 6..at + 8].copy_from_slice(&crc16(&len).to_le_bytes());
    core.mem[at + h..at + h + data.len()].copy_from_slice(data);
    let size = h + up(data.len(), word);
    core.mem[at + h + data.len()..at + size].fill(0);
    size
}

pub fn mark_start(core: &mut Core, page: usize) {
    let word = core.word();
    let at = page * core.e;
    core.mem[at..at + word].fill(0);
}

pub fn mark_end(core: &mut Core, page: usize) {
    let word = core.word();
    let at = (page + 1) * core.e - word;
    core.mem[at..at + word].fill(0);
}

/// Largest data length an item on an empty page can have
pub fn max_data(core: &Core) -> usize {
    let word = core.word();
    let cap = core.e - 2 * word - up(HEADER, word);
    (cap / word * word).min(65535)
}

/// Bytes an item with `len` bytes of data occupies
pub fn footprint(core: &Core, len: usize) -> usize {
    up(HEADER, core.word()) + up(len, core.word())
}

pub fn page_capacity(core: &Core) -> usize {
    core.e - 2 * core.word()
}
