#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

MAP, Q, LIB, ITEM, BUF = "src/map.rs", "src/queue/mod.rs", "src/lib.rs", "src/item.rs", "src/queue/buffered.rs"
CACHE = ["src/cache/mod.rs", "src/cache/page_states.rs", "src/cache/page_pointers.rs", "src/cache/key_pointers.rs"]
FLASH = "the NorFlash/MultiwriteNorFlash calls the crate makes"

p("C01", "The map is a last-writer-wins dictionary",
  "On fault-free flash, after any history of stores, removes, remove-alls, erase-alls and re-opens, fetching a key returns exactly the value of the last successful store of that key, or nothing if the key was never stored or was removed since. Iterating over the map yields, as the last entry of each key, exactly that same content and no other key. This holds for every flash geometry, key length and value length that fits, across any number of page wrap-arounds and data migrations.",
  ["histories", "inputs", "configurations"],
  "every sequence of map calls, every key/value content and length, every supported page count, page size, read/write word size and base address",
  "the unit tests run a few fixed sequences on three geometries; the fuzz target runs one geometry (4 pages, 4-byte words) with 1-byte keys and never removes or iterates while pages wrap",
  [MAP, ITEM, LIB],
  [("append + newest-wins lookup, backwards page walk", "src/map.rs fetch_item_with_location"),
   ("page rotation and migration of live items", "src/map.rs store_item_inner, migrate_items"),
   ("removal of every stored version, oldest first", "src/map.rs remove_item_inner"),
   ("iteration from the oldest page to the newest", "src/map.rs fetch_all_items, MapItemIter::next")],
  [("page markers", "open / partial open / closed, stored in the first and last word of each page", "src/lib.rs get_page_state")],
  ["return values of the public map calls", "flash image, by re-opening a copy with a fresh cache"])

p("C02", "The queue is a FIFO that loses, duplicates and reorders nothing",
  "On fault-free flash, after any history of pushes, peeks, pops, iterations with pops of arbitrary entries, erase-alls and re-opens, the queue content is exactly the successfully pushed items that were not popped (nor evicted by an overwriting push), in push order and byte for byte. Peek and pop return the oldest remaining item, pop removes exactly the item it returns, and iteration visits every remaining item once, oldest first. This holds for every flash geometry including a single page, and across any number of page wrap-arounds.",
  ["histories", "inputs", "configurations"],
  "every sequence of queue calls including out-of-order pops through the iterator, every item length including zero and the maximum, every geometry",
  "the unit tests push and pop fixed patterns on two geometries; the fuzz target uses one geometry and one buffer alignment",
  [Q, ITEM, LIB],
  [("oldest/youngest page search", "src/queue/mod.rs find_youngest_page, find_oldest_page"),
   ("page advance and reuse on push", "src/queue/mod.rs push_inner"),
   ("iterator walk and early re-opening of emptied pages", "src/queue/mod.rs next_inner"),
   ("erase marker on pop", "src/item.rs ItemHeader::erase_data")],
  None, ["return values of the public queue calls", "flash image, by re-opening a copy with a fresh cache"])

p("C03", "Map: power loss at any byte loses and resurrects nothing committed",
  "If power is lost at any byte of any flash write or erase, including during the recovery from an earlier power loss, then after re-opening with a fresh cache every call works without reporting corruption and every key has the value of its last completed store or removal. Only the interrupted call itself may be seen either done or not done: an interrupted store leaves the old or the new value, an interrupted removal leaves the old value or nothing (per key, for a remove-all). Once the state after an interrupted store was observed it stays, and the storage accepts new stores as before. (An interrupted erase-all, which destroys everything, has to be repeated.)",
  ["crash_points", "histories", "configurations"],
  "every history of map calls, every byte-granular crash point of every write and erase, repeated crashes, with or without reads between them",
  "the unit tests check a handful of crash points of one scenario; the fuzz target allows one shut-off per run, always looks at the map directly afterwards, and covers one geometry",
  [MAP, LIB, ITEM],
  [("marker ordering on page close / partial close", "src/lib.rs close_page, partial_close_page"),
   ("header written before data, CRC over data", "src/item.rs Item::write_raw, adapted_crc32"),
   ("redo of interrupted migration, re-erase of half erased pages", "src/map.rs try_repair, src/lib.rs try_general_repair"),
   ("oldest-first removal", "src/map.rs remove_item_inner")],
  None, ["flash image after each prefix of the byte stream of writes and erases"])

p("C04", "Queue: power loss at any byte loses and duplicates nothing committed",
  "If power is lost at any byte of any flash write or erase, including during the recovery from an earlier power loss, then after re-opening with a fresh cache every call works without reporting corruption and the queue content is exactly what it was before the interrupted call or what it would be after it. In particular an interrupted push adds its item or nothing, an interrupted pop removes its item or nothing, and all other items stay intact and in order; only a push that is allowed to overwrite may additionally have evicted the items it was entitled to evict. The queue accepts new pushes and pops as before. (An interrupted erase-all has to be repeated, and a queue on a single page is not protected while that page is being erased.)",
  ["crash_points", "histories", "configurations"],
  "every history of queue calls on two or more pages, every byte-granular crash point of every write and erase, repeated crashes",
  "the unit tests check a few hand-picked interruptions; the fuzz target allows one shut-off per run on one geometry",
  [Q, LIB, ITEM],
  [("marker ordering on page close / partial close", "src/lib.rs close_page, partial_close_page"),
   ("page search tolerant of interrupted page advance", "src/queue/mod.rs find_youngest_page, push_inner"),
   ("re-erase of half erased pages", "src/lib.rs try_general_repair"),
   ("CRC protected items, zero CRC means popped", "src/item.rs")],
  None, ["flash image after each prefix of the byte stream of writes and erases"])

p("C05", "Map: a failed flash access or cancelled call never corrupts later calls",
  "If a flash read, write or erase fails, or the future of a map call is dropped while it waits for the flash, and the program simply keeps using the same storage object and cache, then no later call reports corruption, loses a committed value, returns another key's value or brings back a replaced or completely removed value. Only the interrupted call itself may turn out done or not done. This holds for every cache configuration and whichever call comes next, and an iteration that is continued after an interruption visits the same items as an undisturbed one. (An interrupted erase-all, which destroys everything, has to be repeated.)",
  ["fault_sequences", "histories", "configurations"],
  "every history of map calls with flash errors or cancellations injected at any flash access, every cache type, every kind of next call",
  "the fuzz target always fetches directly after the interrupted call, which happens to refresh the cache, and never injects read errors",
  [MAP, LIB] + CACHE,
  [("dirty flag and cache invalidation at the start of calls", "src/map.rs store_item_inner, fetch_item_with_location, remove_item_inner, fetch_all_items; src/cache/mod.rs DirtTracker")],
  [("cache dirty flag", "the cache may disagree with flash since the last call did not finish", "src/cache/mod.rs")],
  ["return values of the public map calls", "flash image"])

p("C06", "Queue: a failed flash access or cancelled call never corrupts later calls",
  "If a flash read, write or erase fails, or the future of a queue call is dropped while it waits for the flash, and the program simply keeps using the same storage object and cache, then no later call reports corruption and no committed item is lost, duplicated, altered or reordered. Only the interrupted push or pop itself may turn out done or not done. This holds for every cache configuration and whichever call comes next, and an iteration that is continued after an interruption visits the same items as an undisturbed one. (An interrupted erase-all has to be repeated, and a queue on a single page is not protected while that page is being erased.)",
  ["fault_sequences", "histories", "configurations"],
  "every history of queue calls on two or more pages with flash errors or cancellations injected at any flash access, every cache type, every kind of next call",
  "the fuzz target shuts off once per run on one geometry, never fails reads and never continues an iterator",
  [Q, LIB] + CACHE,
  [("dirty flag and cache invalidation at the start of calls", "src/queue/mod.rs push_inner, find_start_address, next_inner, find_max_fit_inner, space_left_inner; src/cache/mod.rs DirtTracker")],
  None, ["return values of the public queue calls", "flash image"])

p("C07", "Caches never change what any call returns or writes",
  "For any history of calls, including erase-all, destroying the storage and re-creating it with the same cache, and interrupted calls, a storage with any combination of caches returns the same results and leaves the same bytes in flash as a storage without caching that performs the same calls. Caches smaller than the number of keys or larger than the number of pages behave the same way. (Interrupted erase-alls, and interrupted erases of a single-page queue, are excepted.)",
  ["histories", "configurations", "fault_sequences"],
  "every history of map or queue calls, every combination of page-state, page-pointer and key caches of any capacity",
  "the unit tests compare read counts on one fixed access pattern; the fuzz targets use a fixed selection of caches and never erase the range or re-create the storage",
  CACHE + [MAP, Q, LIB, ITEM],
  [("cache notices next to each flash change", "src/lib.rs, src/item.rs, src/map.rs"),
   ("derived page states", "src/cache/page_states.rs CalculatedPageStates"),
   ("first free / first unpopped pointers", "src/cache/page_pointers.rs TrackedPagePointers"),
   ("key locations with move-to-front eviction", "src/cache/key_pointers.rs")],
  None, ["results and flash image of a cached and an uncached storage driven in lock step"])

p("C08", "Flash is only accessed inside the configured range and within its contract",
  "Whatever the history, fault or flash content, every read, write and erase stays completely inside the configured flash range, is aligned to and a multiple of the flash's read, write or erase size, is not empty, and every erase covers whole pages. Data handed to a write sits at an address aligned to four bytes whenever the caller's own buffers are so aligned. This holds for every combination of word sizes, page size, page count and base address, including ranges at the very end of the 32-bit address space's usable part.",
  ["histories", "configurations", "fault_sequences", "inputs"],
  "every history of map and queue calls, all geometries and base addresses, with faults, bit flips and arbitrary flash contents",
  "the mock flash starts at address 0, has equal read and write sizes and mostly uses the whole device, so an access outside the range or misaligned for a larger read size is invisible to the tests",
  [LIB, ITEM, MAP, Q],
  [("address arithmetic from the range start", "src/lib.rs calculate_page_address, calculate_page_end_address, calculate_page_index"),
   ("padding of headers and data to the word size", "src/item.rs Item::write_raw, ItemHeader::write; src/lib.rs round_up_to_alignment")],
  None, [FLASH])

p("C09", "Flash words are programmed at most once per erase, erased items once more",
  "In normal operation no bit is ever programmed from 0 back to 1, and between two erases of a page each write word is programmed at most once, except that removing or popping an item programs the words holding its header exactly one more time. So histories without removals and pops work on flash that allows a single program per word, and all others on flash that allows two.",
  ["histories", "configurations", "inputs"],
  "every fault-free history of map and queue calls, all geometries and caches",
  "the mock flash checks write counts, but only along the few fixed sequences and one geometry the tests and fuzz targets use, and does not check for bits programmed back to 1",
  [ITEM, LIB, MAP, Q],
  [("append-only writing after the last item", "src/item.rs find_next_free_item_spot"),
   ("markers written once per state change", "src/lib.rs partial_close_page, close_page"),
   ("second header write with zero CRC", "src/item.rs ItemHeader::erase_data")],
  None, [FLASH])

p("C10", "Pages are reused cyclically so all pages wear equally",
  "Apart from explicit erase-alls, pages are filled and erased in cyclic order one at a time, so in fault-free operation the numbers of erases of any two pages since the storage was empty never differ by more than one. A page is only erased when its space is needed or it holds nothing but popped items: reading the map, and stores and pushes that fit in the current page, erase nothing.",
  ["histories", "configurations"],
  "every fault-free history of map and queue calls on two or more pages, all geometries and caches",
  "no test looks at per-page erase counts",
  [MAP, Q, LIB],
  [("next page selection", "src/lib.rs next_page, find_first_page; src/map.rs store_item_inner; src/queue/mod.rs push_inner, next_inner")],
  None, ["erase calls per page, in order"])

p("C11", "Corrupted items are dropped, never returned as data or in place of others",
  "If bits of stored items flip in flash, every item whose stored bytes are undamaged is still returned unchanged and in order, and a damaged item is either not returned at all or returned with its correct content; altered data is never returned. For the map an older value of the same key may reappear when the newest one is damaged, as if the damaged store had never happened. Later stores and pushes keep working; a single-page queue may have to be overwritten.",
  ["inputs", "histories", "fault_sequences"],
  "every stored content and every set of one or two flipped bits inside items of a healthy storage",
  "a few unit tests zero or flip one hand-picked byte; the tests do not vary position, item size or geometry",
  [ITEM, MAP, Q],
  [("data CRC and length CRC", "src/item.rs adapted_crc32, crc16, ItemHeader::read_new, read_item"),
   ("skipping of unreadable headers", "src/item.rs ItemHeaderIter::traverse")],
  None, ["return values after bits were flipped in the flash image"])

p("C12", "A one-off wrong flash read is retried and goes unnoticed",
  "If a single read of an item or page marker from flash returns a few wrong bits of one byte while the flash content itself is fine and a repeated read is correct, the call returns the same result as without the disturbance and the flash content ends up the same. In particular no item is skipped, lost or altered because of one bad read. (The zero checksum that marks an item as removed or popped is not protected.)",
  ["fault_sequences", "histories"],
  "every single read of item headers and data during every kind of call, every flipped bit in the returned buffer",
  "no test makes a read return transiently wrong data",
  [ITEM],
  [("one retry on header or data CRC mismatch", "src/item.rs ItemHeader::read_new, read_item")],
  None, ["results and flash image with and without the disturbed read"])

p("C13", "Arbitrary flash content never crashes, hangs or escapes the range",
  "Whatever bytes the flash range contains initially, every map and queue call returns in bounded time with a result or an error and without panicking, and touches nothing outside the range. After erasing the range the storage works like a new one.",
  ["inputs", "configurations"],
  "every initial flash content: random, structured, mutated valid images, foreign images (map data opened as a queue and vice versa), every cache",
  "the random-flash fuzz target exists, but is not run by the tests and covers one geometry without iteration, removal or capacity queries",
  [ITEM, MAP, Q, LIB] + CACHE,
  [("bounds checks on lengths read from flash", "src/item.rs ItemHeader::read_new, read_item"),
   ("corruption errors and repair", "src/lib.rs run_with_auto_repair, try_general_repair; src/map.rs try_repair")],
  None, ["panics, number of flash accesses per call, accessed addresses"])

p("C14", "Map capacity: refusals are exact and never cost data",
  "A store is refused as too big exactly when key plus value exceed what an empty page can hold (or 65535 bytes), and never as full while the live data leaves clearly enough room, that is while the live items and the new one fit into all but one page with one page-tail per page lost to fragmentation. A store that is refused leaves every key with its previous value, also after re-opening, and storing again works once enough data was removed or replaced by something smaller.",
  ["inputs", "histories", "configurations"],
  "every item size around the limits, every fill level, every geometry and cache",
  "one unit test fills the map until it is full; boundaries are not swept and contents are not compared after a refusal",
  [MAP, LIB],
  [("size check", "src/map.rs store_item_inner"),
   ("recursion limit over pages before giving up", "src/map.rs store_item_inner"),
   ("migration keeps live items only", "src/map.rs migrate_items")],
  None, ["return values of stores", "content after each refusal"])

p("C15", "Queue capacity: refusals are exact, overwriting evicts only the oldest",
  "A push is refused as too big exactly when the data exceeds what an empty page can hold (or 65535 bytes); a push that may not overwrite never loses an item and is refused as full only when it neither fits behind the newest item nor in a following page that is free. A push that may overwrite always succeeds for a fitting item and evicts only when it otherwise would be refused, and then only items of the oldest page, oldest first. A refused push changes nothing.",
  ["inputs", "histories", "configurations"],
  "every item size around the limits, every fill level, mixed overwriting and non-overwriting pushes with interleaved pops, every geometry including a single page",
  "one unit test overwrites on a two page flash; eviction sets, refusals and boundaries are not swept",
  [Q, LIB],
  [("size check and page selection", "src/queue/mod.rs push_inner"),
   ("emptiness check of the page to reuse", "src/item.rs is_page_empty")],
  None, ["return values of pushes", "queue content before and after each push"])

p("C16", "Flash errors reach the caller as storage errors",
  "If a flash read, write or erase fails during a call, that call returns a storage error carrying exactly the flash driver's error value; it never reports success, emptiness, end of iteration or a different error instead. A call during which no flash access failed never returns a storage error.",
  ["fault_sequences", "histories"],
  "every single failing read, write or erase during every kind of map and queue call, every cache",
  "the tests have no failing reads, and the only failing writes are power-loss simulations whose error is ignored",
  [LIB, ITEM, MAP, Q],
  [("error mapping at every flash access", "src/lib.rs, src/item.rs"),
   ("repair only on corruption errors", "src/lib.rs run_with_auto_repair; src/item.rs ItemHeaderIter::traverse; src/map.rs MapItemIter::next")],
  None, ["return value of the call in which the failure was injected"])

p("C17", "Built-in key and value types round-trip and fail cleanly",
  "For every built-in key and value type, serializing any value and deserializing the result gives back the same value and the same length, also when more bytes follow a key or a number, boolean, array or option of these, and the shortcut for the key length agrees. Serializing into a buffer that is too small is reported as such, and any arbitrary input bytes lead to an error or to a value, never to a panic, a wrong value or bytes written beyond the reported length. Storing and fetching such values through the map gives them back unchanged, and stored bytes that cannot be decoded as the key or value asked for are reported as such instead of being passed over.",
  ["inputs"],
  "every value of every built-in type (integers, floats, arrays, booleans, options, byte slices, unit, String and Vec variants of alloc, arrayvec, heapless 0.8 and 0.9, postcard values), every buffer length, every input byte string",
  "the unit tests try one or two values per type",
  [MAP, "src/alloc_impl.rs", "src/arrayvec_impl.rs", "src/heapless_impl.rs", "src/heapless_09_impl.rs"],
  [("Key and Value implementations", "src/map.rs, src/*_impl.rs")],
  None, ["serialized bytes, returned lengths and values"])

p("C18", "The buffered queue keeps FIFO order across RAM and flash",
  "For any history of enqueues with either overflow policy, drains, pops and peeks, the items come out in enqueue order, each at most once, flash items before RAM items; an accepted item only disappears by being popped, by the discard-oldest policy evicting the oldest RAM item exactly when space is needed, or by an overwriting flash push. Enqueueing never touches flash and is accepted exactly as capacity and policy dictate, the reported byte and item counts are always exact, and a drain whose flash push fails keeps the item (a drain that was interrupted during its push may leave its item both in RAM and in flash). A buffer too small for the next item gives an error instead of claiming emptiness.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "every history of buffered-queue calls, every item length including zero, every ring size, failing or full flash, small buffers",
  "the unit tests run short fixed sequences on one ring size",
  [BUF],
  [("byte ring with length prefixes", "src/queue/buffered.rs RamRing"),
   ("drain and read paths", "src/queue/buffered.rs BufferedQueue")],
  None, ["return values of the public calls, counters, flash accesses per call"])

p("C19", "The interrupt-safe ring delivers every accepted item exactly once, in order",
  "When items are enqueued from interrupts or other threads at any moment of a drain, pop or peek, every accepted item reaches the flash queue exactly once and in acceptance order, unless the discard-oldest policy evicted it before it was written, and evictions only ever hit the oldest item still waiting. Calls that preempt an enqueue leave it as if it had happened at one moment between them. A drain that is cancelled or fails may leave its item in the ring as well as in flash, but never loses it. A waiting drain task is always woken when items arrive, pops and peeks first move what waits in the ring to flash, and once wait_and_drain_all has completed successfully no accepted item is left behind without a pending wake-up.",
  ["schedules", "histories"],
  "every interleaving of enqueues with the suspension points of drain_one, drain_all, pop, peek and wait, and preemptive multi-threaded schedules",
  "the unit tests call the ring from a single task without any concurrent enqueue",
  [BUF],
  [("critical-section mutex around the ring, signal on enqueue", "src/queue/buffered.rs SharedRamRing"),
   ("peek - push to flash - discard sequence", "src/queue/buffered.rs drain_one")],
  [("RAM ring", "items accepted but not yet in flash", "src/queue/buffered.rs RamRing")],
  ["acceptance log of enqueues, content and order of the flash queue, waker calls"])

p("C20", "The on-flash format stays readable and independently decodable",
  "Flash images written by version 8.0.1 for any supported geometry are read back with the same content, and every image the code writes follows that documented layout: page markers in the first and last word, items as data CRC, length, length CRC, padding and data, zero CRC for erased items. So an independent decoder of the documented format reads the same content from flash as the library, and the library reads what an independent encoder writes.",
  ["inputs", "histories", "configurations"],
  "every content and history, every word size and page size; images from version 8.0.1 and from an independent encoder",
  "the tests always write and read with the same build, so a consistent change of format, checksum or padding passes",
  [ITEM, LIB],
  [("item layout and checksums", "src/item.rs ItemHeader, crc16, adapted_crc32"),
   ("page markers", "src/lib.rs MARKER, get_page_state")],
  None, ["flash image compared through an independent decoder"])

p("C21", "Configurations are accepted exactly when they are usable",
  "For every pair of range ends and every flash geometry, the fallible configuration constructors return without panicking, accept exactly page-aligned, ordered ranges with enough pages (two for the map, one for the queue) whose pages can hold an item, and otherwise return the error that names the broken rule. Every accepted configuration can store and return data, and the reported range is the configured one.",
  ["configurations"],
  "every range start and end including reversed, empty and extreme ones, every geometry including pages that are too small or words that are too large",
  "the unit tests do not test the constructors' error cases beyond panicking constants",
  [MAP, Q, LIB],
  [("constructor checks", "src/map.rs MapConfig::try_new; src/queue/mod.rs QueueConfig::try_new")],
  None, ["return value of try_new, followed by use"])

p("C22", "Looking does not change anything and every call does bounded work",
  "On an intact storage, fetching, iterating, peeking and the capacity queries write and erase nothing, except that queue reads may erase pages from which every item was popped, and they give the same answer when repeated. Every call makes a number of flash accesses bounded by a small multiple of what the size of the flash range requires, so it always terminates.",
  ["histories", "configurations", "inputs"],
  "every reachable state of an intact storage, every geometry, fill level and cache",
  "the tests do not observe flash traffic of read calls except for the totals in the cache tests",
  [MAP, Q, ITEM],
  [("read-only lookups", "src/map.rs fetch_item, fetch_all_items; src/queue/mod.rs iter, peek, find_max_fit, space_left"),
   ("page-by-page, item-by-item traversal", "src/item.rs ItemHeaderIter")],
  None, [FLASH])

p("C23", "Too small buffers are reported and harm nothing",
  "If the data buffer passed to any map or queue call is too small for what the call has to read or serialize, the call returns a buffer or serialization error (or succeeds if it turns out not to need more) without panicking and without returning truncated or wrong data, and a reported needed length is longer than the buffer. An iteration that is continued with a longer buffer has not lost the item. Afterwards, with a sufficient buffer, the storage still has all its content and works as before.",
  ["inputs", "histories", "configurations"],
  "every buffer length from zero up to the required one, for every call at every storage state, every geometry and cache",
  "one or two unit tests use a too small buffer for a peek",
  [ITEM, MAP, Q],
  [("buffer length check", "src/item.rs read_item"),
   ("serialization into sub-slices", "src/map.rs store_item_inner, Key/Value implementations")],
  None, ["return values and storage content afterwards"])

p("C24", "Queue capacity queries agree with what pushes accept",
  "The reported maximum fit is the length of the longest item that a non-overwriting push would accept right now: a push of that length succeeds and one byte more is refused (as full or too big), and if none is reported even an empty item is refused. The reported space left is exactly the number of bytes free behind the newest item plus the capacity of every page that is free, so it equals the capacity of all pages on an erased queue and shrinks by exactly the item's footprint for a push that fits in the current page.",
  ["histories", "configurations"],
  "every reachable queue state, every geometry including a single page, every cache",
  "one unit test checks space_left along a fixed sequence of a two page flash and none checks find_max_fit against actual pushes",
  [Q, ITEM],
  [("max fit", "src/queue/mod.rs find_max_fit_inner; src/item.rs available_data_bytes"),
   ("space left", "src/queue/mod.rs space_left_inner")],
  None, ["reported numbers compared with pushes on a copy of the flash"])

p("C25", "Caches only ever save flash reads, and save the ones they are there for",
  "On an intact storage no call reads more often or more bytes from flash with a cache than without one. With page states and page pointers cached, a store or push that fits behind the newest item of the page in use reads nothing from flash, once another store or push came before it, and repeated pops read only the headers and data of the items they pass. With key pointers, fetching a key that is still among the most recently cached ones reads only that item. A cache that is handed over to a new storage object on the same flash keeps this effect.",
  ["histories", "configurations"],
  "every history of calls, every cache type, every geometry",
  "the cache tests only print total reads of one fixed workload per cache type, so a cache that is never filled or dropped after each call passes",
  CACHE + [MAP, Q, LIB],
  [("cache lookups before flash reads", "src/cache/mod.rs, src/lib.rs get_page_state_cached, find_first_page"),
   ("dirt tracking, which drops the cache if a call did not finish", "src/cache/mod.rs DirtTracker"),
   ("key pointer lookup before searching", "src/map.rs fetch_item_with_location")],
  [("caches", "what is known about page states, first written and unwritten item per page, places of keys", "src/cache")],
  [FLASH])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
