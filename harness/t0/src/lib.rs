//! C17: the built-in key and value types
use arrayvec::{ArrayString, ArrayVec};
use sequential_storage::cache::key_pointers::ArrayKeyPointers;
use sequential_storage::cache::page_pointers::ArrayPagePointers;
use sequential_storage::cache::page_states::ArrayPageStates;
use sequential_storage::cache::{Cache, CacheImpl};
use sequential_storage::map::{Key, MapConfig, MapStorage, PostcardValue, SerializationError, Value};
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::panic::{AssertUnwindSafe, catch_unwind};
use vcore::{Case, Core, Ctx, MonFlash, Res, Rng, ensure, fail, hex};

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "one evaluation per serialized value, per input decoded and per value stored and fetched; distinct = (type, serialized bytes)".into();
    ctx.assumptions = vec!["floats are compared by their bits".into()];
    ctx.batch("keys", 2000, 8000, keys);
    ctx.batch("values", 2000, 8000, values);
    ctx.batch("map", 4000, 8000, map);
    ctx.batch("foreign", 4000, 8000, foreign);
    ctx.single("limits", limits);
    for what in ["keys_round", "keys_short", "keys_arbitrary", "values_round", "values_followed", "values_short", "values_arbitrary"] {
        ctx.require(what, 5000);
    }
    ctx.require("keys_arbitrary_ok", 1000);
    ctx.require("keys_arbitrary_err", 1000);
    ctx.require("values_arbitrary_ok", 1000);
    ctx.require("values_arbitrary_err", 1000);
    ctx.require("map_fetched", 20_000);
    ctx.require("map_fetched_foreign", 5000);
    ctx.require("map_iterated", 5000);
    ctx.require("foreign_found", 2000);
    ctx.require("foreign_absent", 2000);
    ctx.require("foreign_refused", 5000);
    ctx.require("too_long_keys", 6);
    ctx.require("longest_keys", 6);
}

// ---- values of every type -----------------------------------------------------------------------

/// Arbitrary values, with the odd ones more often
pub trait Any: Debug {
    fn any(rng: &mut Rng) -> Self;
    fn same(&self, other: &Self) -> bool;
    /// As a value, its bytes tell where it ends
    fn own_end(&self) -> bool {
        true
    }
}

fn edge(rng: &mut Rng, len: usize) -> Vec<u8> {
    match rng.below(8) {
        0 => vec![0; len],
        1 => vec![0xFF; len],
        2 => vec![0x80; len],
        3 => {
            let mut v = vec![0; len];
            if let Some(b) = v.last_mut() {
                *b = 0x80;
            }
            v
        }
        4 => {
            let mut v = vec![0; len];
            if len > 0 {
                v[0] = rng.next() as u8;
            }
            v
        }
        5 => (0..len as u8).collect(),
        _ => rng.bytes(len),
    }
}

fn any_len(rng: &mut Rng, cap: usize) -> usize {
    match rng.below(5) {
        0 => cap,
        1 => 0,
        2 => rng.below(cap.min(4) + 1),
        _ => rng.below(cap + 1),
    }
}

fn any_bytes(rng: &mut Rng, cap: usize) -> Vec<u8> {
    let len = any_len(rng, cap);
    edge(rng, len)
}

fn any_text(rng: &mut Rng, cap: usize) -> String {
    let len = any_len(rng, cap);
    let chars = ['a', 'Z', '0', '\0', '\u{7f}', '\u{80}', 'é', 'ß', '\u{7ff}', '\u{800}', '€', '\u{ffff}', '😀', '\u{10ffff}'];
    let plain = rng.chance(1, 2);
    let mut s = String::new();
    loop {
        let c = if plain { chars[rng.below(4)] } else { *rng.pick(&chars) };
        if s.len() + c.len_utf8() > len {
            // Fill up to the exact length
            while s.len() < len {
                s.push('x');
            }
            return s;
        }
        s.push(c);
    }
}

macro_rules! any_num {
    ($($t:ty),*) => {$(
        impl Any for $t {
            fn any(rng: &mut Rng) -> Self {
                const N: usize = size_of::<$t>();
                Self::from_le_bytes(edge(rng, N).try_into().unwrap())
            }
            fn same(&self, other: &Self) -> bool {
                self.to_ne_bytes() == other.to_ne_bytes()
            }
        }
    )*};
}
any_num!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64);

impl<T: Any, const N: usize> Any for [T; N] {
    fn any(rng: &mut Rng) -> Self {
        std::array::from_fn(|_| T::any(rng))
    }
    fn same(&self, other: &Self) -> bool {
        self.iter().zip(other).all(|(a, b)| a.same(b))
    }
}
impl Any for () {
    fn any(_: &mut Rng) -> Self {}
    fn same(&self, _: &Self) -> bool {
        true
    }
}
impl Any for bool {
    fn any(rng: &mut Rng) -> Self {
        rng.chance(1, 2)
    }
    fn same(&self, other: &Self) -> bool {
        self == other
    }
}
impl<T: Any> Any for Option<T> {
    fn any(rng: &mut Rng) -> Self {
        if rng.chance(1, 4) { None } else { Some(T::any(rng)) }
    }
    fn same(&self, other: &Self) -> bool {
        match (self, other) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
    fn own_end(&self) -> bool {
        self.as_ref().is_none_or(Any::own_end)
    }
}
macro_rules! any_eq {
    ($end:expr; $([$($g:tt)*] $t:ty, |$rng:ident| $e:expr;)*) => {$(
        impl<$($g)*> Any for $t {
            fn any($rng: &mut Rng) -> Self {
                $e
            }
            fn same(&self, other: &Self) -> bool {
                self == other
            }
            fn own_end(&self) -> bool {
                $end
            }
        }
    )*};
}
any_eq! {
    false;
    [] Vec<u8>, |rng| any_bytes(rng, 70);
    [] String, |rng| any_text(rng, 70);
    [const N: usize] ArrayVec<u8, N>, |rng| any_bytes(rng, N).into_iter().collect();
    [const N: usize] ArrayString<N>, |rng| ArrayString::from(&any_text(rng, N)).unwrap();
    [const N: usize] heapless::Vec<u8, N>, |rng| heapless::Vec::from_slice(&any_bytes(rng, N)).unwrap();
    [const N: usize] heapless::String<N>, |rng| heapless::String::try_from(any_text(rng, N).as_str()).unwrap();
    [L: heapless_09::LenType, const N: usize] heapless_09::Vec<u8, N, L>, |rng| heapless_09::Vec::from_slice(&any_bytes(rng, N)).unwrap();
    [L: heapless_09::LenType, const N: usize] heapless_09::String<N, L>, |rng| heapless_09::String::try_from(any_text(rng, N).as_str()).unwrap();
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Mode {
    Off,
    Level(u32),
    Named { id: u16, name: String },
    Pair(bool, Option<char>),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Settings {
    a: u8,
    b: i64,
    list: Vec<u16>,
    mode: Mode,
    deep: Option<Box<Settings>>,
    tail: (),
}
impl PostcardValue<'_> for Settings {}
impl PostcardValue<'_> for Mode {}

/// Borrows from the buffer
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Borrowed<'a> {
    name: &'a str,
    data: &'a [u8],
    n: u32,
}
impl<'a> PostcardValue<'a> for Borrowed<'a> {}

any_eq! {
    false;
    [] Mode, |rng| match rng.below(4) {
        0 => Mode::Off,
        1 => Mode::Level(u32::any(rng)),
        2 => Mode::Named { id: u16::any(rng), name: any_text(rng, 20) },
        _ => Mode::Pair(bool::any(rng), if rng.chance(1, 2) { any_text(rng, 8).chars().next() } else { None }),
    };
    [] Settings, |rng| {
        let n = rng.below(8);
        Settings {
            a: u8::any(rng),
            b: i64::any(rng),
            list: (0..n).map(|_| u16::any(rng)).collect(),
            mode: Mode::any(rng),
            deep: if rng.chance(1, 4) { Some(Box::new(Settings::any(rng))) } else { None },
            tail: (),
        }
    };
}

// ---- the oracle ---------------------------------------------------------------------------------

fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    vcore::driver::call_begin();
    let r = catch_unwind(AssertUnwindSafe(f));
    vcore::driver::call_end();
    match r {
        Ok(v) => Ok(v),
        Err(_) => fail!("{what} panicked: {}", vcore::driver::last_panic()),
    }
}

type Ser = Result<usize, SerializationError>;

/// Serialize into all kinds of buffers, returns the bytes
fn serialize(case: &mut Case, rng: &mut Rng, name: &str, short: &'static str, f: &dyn Fn(&mut [u8]) -> Ser) -> Res<Vec<u8>> {
    // Plenty of room, with a background that has to survive
    let mut big = vec![0u8; 1 << 10];
    let n = guard(name, || f(&mut big))?;
    let Ok(n) = n else { fail!("{name}: serializing into 1024 bytes gives {n:?}") };
    ensure!(n <= big.len(), "{name}: {n} bytes of 1024 were used");
    let bytes = big[..n].to_vec();
    for fill in [0x00u8, 0xFF, rng.next() as u8] {
        let extra = rng.below(40);
        let mut buf = vec![fill; n + extra];
        let r = guard(name, || f(&mut buf))?;
        ensure!(r == Ok(n), "{name}: needs {n} bytes but gives {r:?} with a buffer of {}", buf.len());
        ensure!(buf[..n] == bytes[..], "{name}: the bytes depend on the buffer, {} or {}", hex(&buf[..n]), hex(&bytes));
        ensure!(buf[n..].iter().all(|b| *b == fill), "{name}: bytes behind the reported {n} were written");
    }
    for len in 0..n {
        if n > 80 && len > 8 && len < n - 8 && !rng.chance(1, 8) {
            continue;
        }
        let mut buf = vec![0xA5; len];
        let r = guard(name, || f(&mut buf))?;
        ensure!(
            r == Err(SerializationError::BufferTooSmall),
            "{name}: needs {n} bytes but gives {r:?} with a buffer of {len}"
        );
        case.count(short, 1);
    }
    case.eval();
    case.saw(vcore::hash_bytes(vcore::hash_bytes(17, name.as_bytes()), &bytes));
    Ok(bytes)
}

/// Something to decode: valid bytes with changes, or anything
fn hostile(rng: &mut Rng, valid: &[u8]) -> Vec<u8> {
    let mut v = match rng.below(5) {
        0 => any_bytes(rng, 80),
        1 => {
            // A plausible length prefix
            let len = rng.below(24) as u16;
            let mut v = len.to_le_bytes().to_vec();
            v.extend(any_bytes(rng, 24));
            v
        }
        2 => {
            let mut v = valid.to_vec();
            v.truncate(rng.below(valid.len() + 1));
            v
        }
        _ => valid.to_vec(),
    };
    for _ in 0..rng.below(3) {
        if !v.is_empty() {
            let i = rng.below(v.len());
            v[i] ^= 1 << rng.below(8);
        }
    }
    if rng.chance(1, 4) {
        v.extend(any_bytes(rng, 6));
    }
    v
}

fn key<K: Key + Any>(case: &mut Case, rng: &mut Rng, name: &str) -> Res {
    let k = K::any(rng);
    let bytes = serialize(case, rng, name, "keys_short", &|b| k.serialize_into(b))?;
    let n = bytes.len();
    // Decode, alone and in front of a value
    for tail in [0, 1, rng.below(60)] {
        let mut input = bytes.clone();
        input.extend(edge(rng, tail));
        let (back, len) = match guard(name, || K::deserialize_from(&input))? {
            Ok(x) => x,
            Err(e) => fail!("{name}: {k:?} cannot be decoded again: {e:?} with {tail} bytes behind it"),
        };
        ensure!(back.same(&k) && back == k, "{name}: {k:?} becomes {back:?} with {tail} bytes behind it");
        ensure!(len == n, "{name}: {k:?} was written with {n} bytes and read with {len}");
        let l = guard(name, || K::get_len(&input))?;
        ensure!(l == Ok(n), "{name}: the length of {k:?} is {n}, but get_len says {l:?}");
        case.count("keys_round", 1);
    }
    for cut in 0..n {
        let r = guard(name, || K::deserialize_from(&bytes[..cut]))?;
        ensure!(r.is_err(), "{name}: {k:?} cut at {cut} of {n} bytes decodes to {r:?}");
        guard(name, || K::get_len(&bytes[..cut]))?.ok();
    }
    for _ in 0..12 {
        let input = hostile(rng, &bytes);
        case.count("keys_arbitrary", 1);
        let l = guard(name, || K::get_len(&input))?;
        match guard(name, || K::deserialize_from(&input))? {
            Ok((k, n)) => {
                case.eval();
                case.count("keys_arbitrary_ok", 1);
                ensure!(n <= input.len(), "{name}: {n} bytes of {} were used", input.len());
                ensure!(l == Ok(n), "{name}: decoding {} uses {n} bytes, but get_len says {l:?}", hex(&input));
                // Nothing of the key is lost
                let mut again = vec![0; 300];
                let m = guard(name, || k.serialize_into(&mut again))?;
                ensure!(
                    m == Ok(n) && again[..n] == input[..n],
                    "{name}: {} decodes to {k:?}, which encodes to {m:?} {}",
                    hex(&input),
                    hex(&again[..n])
                );
            }
            Err(_) => case.count("keys_arbitrary_err", 1),
        }
    }
    Ok(())
}

fn value<V: for<'a> Value<'a> + Any>(case: &mut Case, rng: &mut Rng, name: &str) -> Res {
    let v = V::any(rng);
    let bytes = serialize(case, rng, name, "values_short", &|b| v.serialize_into(b))?;
    match guard(name, || V::deserialize_from(&bytes))? {
        Ok((back, len)) => {
            ensure!(back.same(&v), "{name}: {v:?} becomes {back:?}");
            ensure!(len == bytes.len(), "{name}: {v:?} was written with {} bytes and read with {len}", bytes.len());
            case.count("values_round", 1);
        }
        Err(e) => fail!("{name}: {v:?} cannot be decoded again: {e:?}"),
    }
    if v.own_end() {
        // Whatever follows is not part of the value
        for tail in [1, 2, rng.below(60)] {
            let mut input = bytes.clone();
            input.extend(edge(rng, tail));
            match guard(name, || V::deserialize_from(&input))? {
                Ok((back, len)) => {
                    ensure!(back.same(&v), "{name}: {v:?} becomes {back:?} with {tail} bytes behind it");
                    ensure!(
                        len == bytes.len(),
                        "{name}: {v:?} was written with {} bytes and read with {len}, with {tail} bytes behind it",
                        bytes.len()
                    );
                }
                Err(e) => fail!("{name}: {v:?} cannot be decoded again: {e:?} with {tail} bytes behind it"),
            }
            case.count("values_followed", 1);
        }
    }
    for _ in 0..12 {
        let input = hostile(rng, &bytes);
        case.count("values_arbitrary", 1);
        match guard(name, || V::deserialize_from(&input).map(|(v, n)| (v, n)))? {
            Ok((v, n)) => {
                case.eval();
                case.count("values_arbitrary_ok", 1);
                ensure!(n <= input.len(), "{name}: {n} bytes of {} were used", input.len());
                let mut again = vec![0; 600];
                let m = guard(name, || v.serialize_into(&mut again))?;
                let Ok(m) = m else { fail!("{name}: {v:?} was decoded from {} but cannot be encoded: {m:?}", hex(&input)) };
                let r = guard(name, || V::deserialize_from(&again[..m]).map(|r| r.0.same(&v)))?;
                ensure!(r == Ok(true), "{name}: {v:?} does not survive a round trip ({r:?})");
            }
            Err(_) => case.count("values_arbitrary_err", 1),
        }
    }
    Ok(())
}

fn slice_value(case: &mut Case, rng: &mut Rng) -> Res {
    let data = any_bytes(rng, 100);
    let v: &[u8] = &data;
    let bytes = serialize(case, rng, "&[u8]", "values_short", &|b| v.serialize_into(b))?;
    ensure!(bytes == data, "&[u8]: {} was written as {}", hex(&data), hex(&bytes));
    let r = <&[u8]>::deserialize_from(&bytes);
    ensure!(r == Ok((v, v.len())), "&[u8]: {} becomes {r:?}", hex(&data));
    let o = if rng.chance(1, 3) { None } else { Some(v) };
    let bytes = serialize(case, rng, "Option<&[u8]>", "values_short", &|b| o.serialize_into(b))?;
    let r = Option::<&[u8]>::deserialize_from(&bytes);
    ensure!(r == Ok((o, bytes.len())), "Option<&[u8]>: {o:?} becomes {r:?}");
    let name = any_text(rng, 30);
    let w = Borrowed { name: &name, data: &data, n: u32::any(rng) };
    let bytes = serialize(case, rng, "Borrowed", "values_short", &|b| w.serialize_into(b))?;
    let r = Borrowed::deserialize_from(&bytes);
    ensure!(r == Ok((w.clone(), bytes.len())), "Borrowed: {w:?} becomes {r:?}");
    for _ in 0..6 {
        let input = hostile(rng, &bytes);
        guard("Borrowed", || Borrowed::deserialize_from(&input).is_ok())?;
        let r = guard("Option<&[u8]>", || Option::<&[u8]>::deserialize_from(&input).map(|r| r.1))?;
        ensure!(r.is_err() == input.is_empty(), "Option<&[u8]>: {} gives {r:?}", hex(&input));
    }
    case.count("values_round", 3);
    Ok(())
}

macro_rules! all {
    ($f:ident, $case:expr, $rng:expr, [$($t:ty),* $(,)?]) => {
        $( $f::<$t>($case, $rng, stringify!($t))?; )*
    };
}

fn keys(case: &mut Case) -> Res {
    let mut rng = case.rng.fork();
    let rng = &mut rng;
    all!(key, case, rng, [
        u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, (),
        [u8; 0], [u8; 1], [u8; 3], [u8; 8], [u8; 33],
        Vec<u8>, String,
        ArrayVec<u8, 0>, ArrayVec<u8, 1>, ArrayVec<u8, 17>,
        ArrayString<0>, ArrayString<4>, ArrayString<19>,
        heapless::Vec<u8, 1>, heapless::Vec<u8, 17>,
        heapless::String<4>, heapless::String<19>,
        heapless_09::Vec<u8, 1>, heapless_09::Vec<u8, 17>, heapless_09::Vec<u8, 20, u8>,
        heapless_09::String<4>, heapless_09::String<19>, heapless_09::String<21, u8>,
    ]);
    Ok(())
}

fn values(case: &mut Case) -> Res {
    let mut rng = case.rng.fork();
    let rng = &mut rng;
    all!(value, case, rng, [
        u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, bool,
        [u8; 0], [u8; 5], [u16; 3], [u32; 1], [u32; 7], [u64; 4], [u128; 2],
        [i8; 3], [i16; 0], [i16; 9], [i32; 2], [i64; 3], [i128; 1], [f32; 5], [f64; 3],
        Option<u8>, Option<bool>, Option<u64>, Option<[u16; 3]>, Option<Option<i32>>, Option<Vec<u8>>, Option<String>, Option<f32>,
        Vec<u8>, String,
        heapless::Vec<u8, 1>, heapless::Vec<u8, 17>, heapless::String<4>, heapless::String<19>,
        heapless_09::Vec<u8, 1>, heapless_09::Vec<u8, 17>, heapless_09::Vec<u8, 20, u8>,
        heapless_09::String<4>, heapless_09::String<19>, heapless_09::String<21, u8>,
        Option<heapless::String<9>>, Option<heapless_09::Vec<u8, 9>>,
        Mode, Settings, Option<Mode>, Option<Settings>,
    ]);
    slice_value(case, rng)
}

/// Keys around the longest possible length
fn limits(case: &mut Case) -> Res {
    fn one<K: Key>(case: &mut Case, name: &str, make: impl Fn(usize) -> K) -> Res {
        let mut buf = vec![0u8; 70_000];
        for len in [65_534usize, 65_535] {
            let k = make(len);
            let r = guard(name, || k.serialize_into(&mut buf))?;
            ensure!(r == Ok(len + 2), "{name}: a key of {len} bytes gives {r:?}");
            let back = guard(name, || K::deserialize_from(&buf))?;
            ensure!(back == Ok((k.clone(), len + 2)), "{name}: a key of {len} bytes becomes something else");
            ensure!(K::get_len(&buf) == Ok(len + 2), "{name}: wrong length of a key of {len} bytes");
            let r = guard(name, || k.serialize_into(&mut buf[..len + 1]))?;
            ensure!(r == Err(SerializationError::BufferTooSmall), "{name}: a key of {len} bytes in {} bytes gives {r:?}", len + 1);
            case.count("longest_keys", 1);
        }
        for len in [65_536usize, 65_537, 66_000] {
            let k = make(len);
            let r = guard(name, || k.serialize_into(&mut buf))?;
            ensure!(r == Err(SerializationError::InvalidData), "{name}: a key of {len} bytes gives {r:?}");
            case.count("too_long_keys", 1);
        }
        case.eval();
        Ok(())
    }
    std::thread::scope(|s| {
        // Needs a large stack
        let case = &mut *case;
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, move || {
                one(case, "Vec<u8>", |n| (0..n).map(|i| i as u8).collect::<Vec<u8>>())?;
                one(case, "String", |n| "s".repeat(n))?;
                one(case, "ArrayVec", |n| (0..n).map(|i| i as u8).collect::<ArrayVec<u8, 66_000>>())?;
                one(case, "ArrayString", |n| ArrayString::<66_000>::from(&"s".repeat(n)).unwrap())?;
                one(case, "heapless::Vec", |n| heapless::Vec::<u8, 66_000>::from_slice(&vec![7; n]).unwrap())?;
                one(case, "heapless::String", |n| heapless::String::<66_000>::try_from("s".repeat(n).as_str()).unwrap())?;
                one(case, "heapless_09::Vec", |n| heapless_09::Vec::<u8, 66_000>::from_slice(&vec![7; n]).unwrap())?;
                one(case, "heapless_09::String", |n| heapless_09::String::<66_000>::try_from("s".repeat(n).as_str()).unwrap())
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

// ---- through the map ----------------------------------------------------------------------------

type Flash = MonFlash<4, 4, 1024>;

/// Store, fetch and iterate with keys and values of these types
fn through<K: Key + Any, V: for<'a> Value<'a> + Any>(case: &mut Case, rng: &mut Rng, name: &str) -> Res {
    if rng.chance(1, 2) {
        through_with::<K, V, _>(case, rng, name, Cache::new_uncached())
    } else {
        let cache = Cache::new(ArrayPageStates::<4>::new(), ArrayPagePointers::<4>::new(), ArrayKeyPointers::<K, 3>::new());
        through_with::<K, V, _>(case, rng, name, cache)
    }
}

fn through_with<K: Key + Any, V: for<'a> Value<'a> + Any, C: CacheImpl<K>>(case: &mut Case, rng: &mut Rng, name: &str, cache: C) -> Res {
    let core = Core::new(4, 4, 1024, 0, 3).shared();
    let range = core.borrow().range();
    let mut st = MapStorage::<K, Flash, C>::new(MonFlash::new(core.clone()), MapConfig::new(range), cache);
    let mut scratch = rig::Scratch::new(1024);
    let buf = scratch.get(1024);
    let mut model: Vec<(K, V)> = Vec::new();
    for _ in 0..rng.range(4, 14) {
        let k = if !model.is_empty() && rng.chance(1, 3) { model[rng.below(model.len())].0.clone() } else { K::any(rng) };
        if model.len() >= 6 && !model.iter().any(|m| m.0 == k) {
            continue;
        }
        if rng.chance(1, 8) {
            let r = rig::call(&core, st.remove_item(buf, &k));
            ensure!(r == Ok(()), "{name}: removing {k:?} gives {r:?}");
            model.retain(|m| m.0 != k);
            continue;
        }
        let v = V::any(rng);
        let r = rig::call(&core, st.store_item(buf, &k, &v));
        ensure!(r == Ok(()), "{name}: storing {k:?} = {v:?} gives {r:?}");
        model.retain(|m| m.0 != k);
        model.push((k, v));
    }
    for (k, v) in &model {
        let r = rig::call(&core, st.fetch_item::<V>(buf, k));
        match r {
            Ok(Some(got)) if got.same(v) => case.count("map_fetched", 1),
            r => fail!("{name}: {k:?} = {v:?} was stored, {r:?} was fetched"),
        }
        case.eval();
    }
    let k = K::any(rng);
    if !model.iter().any(|m| m.0 == k) {
        match rig::call(&core, st.fetch_item::<V>(buf, &k)) {
            Ok(None) => {}
            r => fail!("{name}: {k:?} was never stored, but {r:?} was fetched"),
        }
    }
    let mut last: Vec<(K, V)> = Vec::new();
    {
        let mut it = match rig::call(&core, st.fetch_all_items(buf)) {
            Ok(it) => it,
            Err(e) => fail!("{name}: iterating gives {e:?}"),
        };
        loop {
            match rig::call(&core, it.next::<V>(buf)) {
                Ok(Some((k, v))) => {
                    case.count("map_iterated", 1);
                    last.retain(|m| m.0 != k);
                    last.push((k, v));
                }
                Ok(None) => break,
                Err(e) => fail!("{name}: iterating gives {e:?}"),
            }
        }
    }
    ensure!(last.len() == model.len(), "{name}: iterating gives {last:?} instead of {model:?}");
    for (k, v) in &model {
        ensure!(last.iter().any(|m| m.0 == *k && m.1.same(v)), "{name}: iterating gives {last:?} instead of {model:?}");
    }
    // Bytes that were not written as such a value
    let k = K::any(rng);
    let bytes = any_bytes(rng, 60);
    let r = rig::call(&core, st.store_item(buf, &k, &bytes.as_slice()));
    ensure!(r == Ok(()), "{name}: storing {k:?} = {} gives {r:?}", hex(&bytes));
    let want = V::deserialize_from(&bytes).map(|r| r.0);
    let got = rig::call(&core, st.fetch_item::<V>(buf, &k));
    match (want, &got) {
        (Ok(a), Ok(Some(b))) if a.same(b) => {}
        (Err(a), Err(rig::E::Ser(b))) if a == *b => {}
        (want, _) => fail!("{name}: {} decodes to {want:?}, but fetching it gives {got:?}", hex(&bytes)),
    }
    case.count("map_fetched_foreign", 1);
    let got = rig::call(&core, st.fetch_item::<&[u8]>(buf, &k)).map(|o| o.map(|s| s.to_vec()));
    ensure!(got == Ok(Some(bytes.clone())), "{name}: {} was stored, {got:?} was fetched", hex(&bytes));
    Ok(())
}

macro_rules! through_all {
    ($case:expr, $rng:expr, $(($k:ty, $v:ty)),* $(,)?) => {
        $( through::<$k, $v>($case, $rng, concat!(stringify!($k), " => ", stringify!($v)))?; )*
    };
}

fn map(case: &mut Case) -> Res {
    let mut rng = case.rng.fork();
    let rng = &mut rng;
    through_all!(case, rng,
        (u8, u16), (u16, [i64; 3]), (u32, f32), (u64, bool), (u128, Option<u32>),
        (i8, [f64; 2]), (i16, i8), (i32, u128), (i64, Vec<u8>), (i128, String),
        ((), Option<Vec<u8>>), ([u8; 0], u32), ([u8; 3], heapless::Vec<u8, 17>), ([u8; 33], f64),
        (Vec<u8>, heapless::String<19>), (String, heapless_09::Vec<u8, 17>),
        (ArrayVec<u8, 17>, heapless_09::String<19>), (ArrayString<19>, [u8; 5]),
        (heapless::Vec<u8, 17>, Settings), (heapless::String<19>, Mode),
        (heapless_09::Vec<u8, 17>, Option<Settings>), (heapless_09::String<21, u8>, [u16; 0]),
    );
    Ok(())
}

/// A map that was filled with other keys: what cannot be decoded as key is reported, not skipped
fn foreign_keys<K: Key + Any>(case: &mut Case, rng: &mut Rng, name: &str) -> Res {
    let core = Core::new(4, 4, 1024, 0, 2).shared();
    let range = core.borrow().range();
    let flash = || MonFlash::<4, 4, 1024>::new(core.clone());
    let mut scratch = rig::Scratch::new(1024);
    let buf = scratch.get(1024);
    // All on one page, as plain bytes behind a key of no bytes
    let mut items: Vec<Vec<u8>> = Vec::new();
    let mut st = MapStorage::<(), Flash, _>::new(flash(), MapConfig::new(range.clone()), Cache::new_uncached());
    let mut last = None;
    for _ in 0..rng.range(1, 6) {
        let mut d = vec![0; 600];
        let k = match &last {
            Some(k) if rng.chance(1, 3) => Clone::clone(k),
            _ => K::any(rng),
        };
        let n = k.serialize_into(&mut d).unwrap();
        last = Some(k);
        d.truncate(n);
        d.extend(any_bytes(rng, 20));
        if rng.chance(1, 5) {
            d = hostile(rng, &d);
        }
        let r = rig::call(&core, st.store_item(buf, &(), &d.as_slice()));
        ensure!(r == Ok(()), "{name}: storing {} gives {r:?}", hex(&d));
        items.push(d);
    }
    let mut st = MapStorage::<K, Flash, _>::new(flash(), MapConfig::new(range), Cache::new_uncached());
    let k = if rng.chance(3, 4) { last.unwrap() } else { K::any(rng) };
    let mut want = Ok(None);
    let mut bad = None;
    for d in &items {
        match K::deserialize_from(d) {
            Ok((found, n)) => {
                if found == k {
                    want = Ok(Some(d[n..].to_vec()));
                }
            }
            Err(e) => {
                bad.get_or_insert(e);
            }
        }
    }
    case.eval();
    if let Some(e) = bad.clone() {
        want = Err(rig::E::Ser(e));
    }
    let got = rig::call(&core, st.fetch_item::<&[u8]>(buf, &k)).map(|o| o.map(|s| s.to_vec()));
    let show = || items.iter().map(|d| hex(d)).collect::<Vec<_>>();
    ensure!(got == want, "{name}: fetching {k:?} from {:?} gives {got:?} instead of {want:?}", show());
    let what = match want {
        Ok(Some(_)) => "foreign_found",
        Ok(None) => "foreign_absent",
        Err(_) => "foreign_refused",
    };
    case.count(what, 1);
    // The iteration gives every item up to the first that is no key
    let mut it = match rig::call(&core, st.fetch_all_items(buf)) {
        Ok(it) => it,
        Err(e) => fail!("{name}: iterating gives {e:?}"),
    };
    for d in &items {
        let r = rig::call(&core, it.next::<&[u8]>(buf)).map(|r| r.map(|(k, v)| (k, v.to_vec())));
        match K::deserialize_from(d) {
            Ok((k, n)) => match r {
                Ok(Some((k2, v))) if k2 == k && v == d[n..] => {}
                r => fail!("{name}: iterating over {:?} gives {r:?} instead of {k:?}", show()),
            },
            Err(e) => {
                ensure!(matches!(&r, Err(rig::E::Ser(e2)) if *e2 == e), "{name}: iterating over {:?} gives {r:?} instead of {e:?}", show());
                break;
            }
        }
    }
    drop(it);
    // Removing says so as well
    if bad.is_some() {
        let r = rig::call(&core, st.remove_item(buf, &k));
        ensure!(matches!(r, Err(rig::E::Ser(_))), "{name}: removing {k:?} from {:?} gives {r:?}", show());
    }
    Ok(())
}

fn foreign(case: &mut Case) -> Res {
    let mut rng = case.rng.fork();
    let rng = &mut rng;
    all!(foreign_keys, case, rng, [
        u8, u32, i64, u128, [u8; 3], Vec<u8>, String, ArrayVec<u8, 17>, ArrayString<19>, ArrayString<4>,
        heapless::Vec<u8, 17>, heapless::String<19>, heapless_09::Vec<u8, 1>, heapless_09::String<21, u8>,
    ]);
    Ok(())
}

// ---- C20: the bytes of keys and values are those of version 8.0.1 ---------------------------------

trait Layout {
    fn key_bytes(&self) -> Vec<u8>;
    fn value_bytes(&self) -> Vec<u8>;
}
macro_rules! layout_num {
    ($($t:ty),*) => {$(
        impl Layout for $t {
            fn key_bytes(&self) -> Vec<u8> { self.to_le_bytes().to_vec() }
            fn value_bytes(&self) -> Vec<u8> { self.to_le_bytes().to_vec() }
        }
    )*};
}
layout_num!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64);
impl<T: Layout, const N: usize> Layout for [T; N] {
    fn key_bytes(&self) -> Vec<u8> {
        self.value_bytes()
    }
    fn value_bytes(&self) -> Vec<u8> {
        self.iter().flat_map(|n| n.value_bytes()).collect()
    }
}
impl Layout for () {
    fn key_bytes(&self) -> Vec<u8> {
        vec![]
    }
    fn value_bytes(&self) -> Vec<u8> {
        vec![]
    }
}
impl Layout for bool {
    fn key_bytes(&self) -> Vec<u8> {
        unreachable!()
    }
    fn value_bytes(&self) -> Vec<u8> {
        vec![if *self { 1 } else { 0 }]
    }
}
impl<T: Layout> Layout for Option<T> {
    fn key_bytes(&self) -> Vec<u8> {
        unreachable!()
    }
    fn value_bytes(&self) -> Vec<u8> {
        match self {
            None => vec![0],
            Some(v) => [vec![1], v.value_bytes()].concat(),
        }
    }
}
fn prefixed(data: &[u8]) -> Vec<u8> {
    let n = data.len();
    [&[(n % 256) as u8, (n / 256) as u8][..], data].concat()
}
macro_rules! layout_bytes {
    ($([$($g:tt)*] $t:ty;)*) => {$(
        impl<$($g)*> Layout for $t {
            fn key_bytes(&self) -> Vec<u8> { let d: &[u8] = self.as_ref(); prefixed(d) }
            fn value_bytes(&self) -> Vec<u8> { let d: &[u8] = self.as_ref(); d.to_vec() }
        }
    )*};
}
macro_rules! layout_text {
    ($([$($g:tt)*] $t:ty;)*) => {$(
        impl<$($g)*> Layout for $t {
            fn key_bytes(&self) -> Vec<u8> { prefixed(self.as_str().as_bytes()) }
            fn value_bytes(&self) -> Vec<u8> { self.as_str().as_bytes().to_vec() }
        }
    )*};
}
layout_bytes! {
    [] Vec<u8>;
    [const N: usize] ArrayVec<u8, N>;
    [const N: usize] heapless::Vec<u8, N>;
    [L: heapless_09::LenType, const N: usize] heapless_09::Vec<u8, N, L>;
}
layout_text! {
    [] String;
    [const N: usize] ArrayString<N>;
    [const N: usize] heapless::String<N>;
    [L: heapless_09::LenType, const N: usize] heapless_09::String<N, L>;
}

fn key_layout<K: Key + Any + Layout>(case: &mut Case, rng: &mut Rng, name: &str) -> Res {
    let k = K::any(rng);
    let want = k.key_bytes();
    let mut buf = vec![0u8; 500];
    let n = guard(name, || k.serialize_into(&mut buf))?;
    ensure!(
        n.as_ref() == Ok(&want.len()) && buf[..want.len()] == want[..],
        "{name} as key: {k:?} is written as {n:?} {} instead of {}",
        hex(&buf[..want.len()]),
        hex(&want)
    );
    let back = guard(name, || K::deserialize_from(&want))?;
    ensure!(matches!(&back, Ok((b, n)) if b.same(&k) && *n == want.len()), "{name} as key: {k:?} is read as {back:?}");
    case.eval();
    case.count("typed_layouts", 1);
    Ok(())
}

fn value_layout<V: for<'a> Value<'a> + Any + Layout>(case: &mut Case, rng: &mut Rng, name: &str) -> Res {
    let v = V::any(rng);
    let want = v.value_bytes();
    let mut buf = vec![0u8; 500];
    let n = guard(name, || v.serialize_into(&mut buf))?;
    ensure!(
        n.as_ref() == Ok(&want.len()) && buf[..want.len()] == want[..],
        "{name} as value: {v:?} is written as {n:?} {} instead of {}",
        hex(&buf[..want.len()]),
        hex(&want)
    );
    let ok = guard(name, || V::deserialize_from(&want).map(|r| r.0.same(&v)))?;
    ensure!(ok == Ok(true), "{name} as value: {v:?} is read back differently ({ok:?})");
    case.eval();
    case.count("typed_layouts", 1);
    Ok(())
}

pub fn layouts(case: &mut Case) -> Res {
    let mut rng = case.rng.fork();
    let rng = &mut rng;
    all!(key_layout, case, rng, [
        u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, (), [u8; 0], [u8; 3], [u8; 33],
        Vec<u8>, String, ArrayVec<u8, 17>, ArrayString<19>, heapless::Vec<u8, 17>, heapless::String<19>,
        heapless_09::Vec<u8, 17>, heapless_09::String<21, u8>,
    ]);
    all!(value_layout, case, rng, [
        u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, bool,
        [u8; 5], [u16; 3], [u32; 7], [u64; 4], [u128; 2], [i8; 3], [i16; 9], [i32; 2], [i64; 3], [i128; 1], [f32; 5], [f64; 3],
        Option<u8>, Option<bool>, Option<Option<i32>>, Option<Vec<u8>>, Option<String>,
        Vec<u8>, String, heapless::Vec<u8, 17>, heapless::String<19>, heapless_09::Vec<u8, 17>, heapless_09::String<21, u8>,
    ]);
    // A struct with postcard: varints, then the variant and the length of the text
    let v = Mode::Named { id: 300, name: "ab".into() };
    let mut buf = [0u8; 20];
    let n = v.serialize_into(&mut buf);
    ensure!(n == Ok(6) && buf[..6] == [2, 0xAC, 0x02, 2, b'a', b'b'], "postcard value is written as {n:?} {}", hex(&buf));
    Ok(())
}
