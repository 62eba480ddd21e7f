#!/usr/bin/env python3
"""Source of properties.jsonl (kept as Python for readability)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

BST = [("inline flag", "lowest bit of the last inline byte: the bytes live in the handle itself", "src/bytes.rs Bytes.vtable"),
       ("owner/capacity/vtable", "who keeps the viewed bytes alive, and how it is retained and released", "src/bytes.rs Bytes, BytesVt")]

p("B01", "A Bytes value always shows exactly the bytes it was built from",
  "Whatever constructor or conversion builds a Bytes (empty, static, borrowed slice, inlined slice, copied slice, raw parts, Box, Vec, Arc of a slice, Arc of anything viewable as bytes), its length and its contents through every view equal those of the source, and no byte of the source is changed. Sources no longer than MAX_INLINE_SIZE can be inlined and longer ones cannot: the inlining constructor returns a value exactly in the first case. Comparing, ordering and hashing Bytes gives the same answer as doing so on the plain byte slices, whatever backs either side.",
  ["inputs"], "every byte content, every length on both sides of the inline limit, every kind of backing storage",
  "Doctests build a handful of literals and the fuzz test samples random contents of 10..100 bytes for one backing; none reaches every length, content and constructor, nor inlined operands of comparisons.",
  ["src/bytes.rs"],
  [("inline/outline tag", "Bytes::is_inlined, inline_unchecked, from_slice, inline_slice"), ("views", "Bytes::len, as_slice, Deref/AsRef/Borrow"), ("conversions", "impl From<..> for Bytes"), ("slice-delegating comparisons", "impl PartialEq/PartialOrd/Ord/Hash for Bytes")], BST)

p("B02", "Slicing and splitting Bytes agrees with slicing the plain byte slice",
  "Narrowing a Bytes to any kind of range, splitting it at any index, or reading from it as a stream yields exactly the bytes that the same operation yields on the plain slice, whether the value is inlined or not and however often it was sliced before. A range that is out of bounds or reversed panics, a split index beyond the end hands the value back unchanged, and no other request is refused. No combination of bounds, including those at the end of the integer range, is silently turned into a different range.",
  ["inputs", "histories"], "every range form and pair of bounds, every split index, every content, every backing, chained slicings",
  "The fuzz test samples half-open in-range slices of one Arc-backed value; inclusive, unbounded, reversed, out-of-range and extreme bounds, and slicing of already inlined values, are not exercised.",
  ["src/bytes.rs"],
  [("range normalisation and bounds check", "Bytes::shrink_to"), ("split", "Bytes::split_at"), ("stream", "impl io::Read for Bytes")], BST)

p("B03", "Bytes retain and release their storage exactly as often as needed",
  "Along any sequence of clones, slicings, splits, upgrades and drops of a Bytes and the handles derived from it, the backing storage is released exactly once per reference that was taken, with the very owner data it was created with, never while some handle still views it, and completely once all handles are gone. Handles without shared ownership are copied rather than shared, a value with no release function is never released, and inlined values touch no storage. Memory handed over as Box, Vec or Arc is freed exactly once: no leak, no double free, no use after free.",
  ["inputs", "histories"], "every backing (custom retain/release pair, each optional function missing, Box, Vec, Arc of slice, Arc of type), every operation and split point, every order of drops",
  "Tests run with the default allocator and no counters: a leaked or doubled reference in one branch of split, clone or slice does not make any of them fail.",
  ["src/bytes.rs"],
  [("reference counting through the vtable", "Bytes::noalloc_clone, Clone, Drop"), ("branches that drop or duplicate the handle", "Bytes::shrink_to, split_at, upgrade"), ("owner-specific functions", "retain_arc_bytes, release_arc_bytes, retain/release<T>, release_box_bytes")], BST)

p("B04", "Upgrading Bytes never lets borrowed data outlive its borrow",
  "A handle obtained with an unrestricted lifetime (by upgrading, by upgrading without allocation, or by inlining) never refers to memory that was only borrowed: it is either inlined, a copy, or kept alive by an owner. Upgrading always succeeds and preserves the contents; upgrading without allocation succeeds whenever the data is inlined, owned, static or short enough to be inlined, and otherwise returns the original value unchanged.",
  ["inputs", "histories"], "every content, length and backing, borrowed data whose storage is later reused or freed",
  "No test calls the non-allocating upgrade, and the ones that upgrade keep the borrowed buffer alive, so a dangling result is invisible to them.",
  ["src/bytes.rs"],
  [("borrow test", "BytesVt::is_borrowed"), ("upgrades", "Bytes::upgrade, noalloc_upgrade, inline_slice, copied_from_slice")], BST)

p("B05", "Bytes predicts correctly whether cloning or upgrading will allocate",
  "The predictions 'clone will allocate' and 'upgrade will allocate' are true exactly when performing that operation on that value copies its contents into a new allocation. The non-allocating clone returns a value exactly when the value can be shared or duplicated without copying the contents to the heap, and that value equals the original.",
  ["inputs"], "every length (in particular around the inline limit) and every backing",
  "Doctests check a two-digit and a 100+ byte literal only; lengths between the inline limit and the size of the handle are never tried.",
  ["src/bytes.rs"],
  [("predictions", "Bytes::upgrade_will_allocate, clone_will_allocate"), ("operations", "Bytes::upgrade, Clone, noalloc_clone, copied_from_slice")], BST)

p("B06", "Downcasting Bytes to an Arc succeeds only for the whole original Arc",
  "Converting a Bytes back into Arc<[u8]> succeeds exactly when the value is backed by such an Arc and still shows all of it; the result is that same Arc, with its reference count unchanged. In every other case (other backing, inlined, narrowed on either side) the original value comes back with the same contents and ownership. A value that had to be copied in order to be cloned or upgraded converts successfully when no inlining took place.",
  ["inputs", "histories"], "every backing, every narrowing before the conversion",
  "No test performs the conversion on narrowed, cloned or foreign-backed values, nor looks at the counts.",
  ["src/bytes.rs"], [("identity of vtable, start and length", "impl TryFrom<Bytes> for Arc<[u8]>")], BST)

p("C01", "C string handles are always NUL-terminated and free of interior NULs",
  "Building a C-string handle, borrowed or owned, from Rust text succeeds exactly when the only NUL byte, if any, is the last byte; an absent terminator is added for owned handles and required for borrowed ones, except that empty text is always accepted. On failure the fallible constructors report an error that hands back the input text unchanged, and the infallible one panics. The pointer handed to C is never null and the bytes it points to are exactly the text followed by one NUL.",
  ["inputs"], "every text content, any length, with NUL bytes at any position",
  "Tests use a few literals; positions of NUL bytes, empty and terminator-only inputs, and what the error carries are not enumerated.",
  ["src/char_p.rs", "src/proc_macro/c_str.rs"],
  [("terminator scan", "TryFrom<&str> for char_p_ref, TryFrom<String> for char_p_boxed"), ("infallible constructor", "char_p::new / MyFrom"), ("empty sentinel", "char_p_ref::EMPTY, EMPTY_SENTINEL")])

p("C02", "C string handles read back and hand back exactly their text",
  "For every C-string handle the accessors (bytes, bytes with terminator, text, length-free iteration, owned copies, comparison) return exactly the bytes before the terminator, and nothing past the terminator is ever read. Turning an owned handle back into a String or byte vector, cloning it, or dropping it neither leaks nor frees twice, frees the whole original allocation, and leaves copies independent; the shared empty sentinel is never freed.",
  ["inputs", "histories"], "every text content and length, the empty text, clones dropped in any order",
  "Tests print or compare a few literals and never check allocation sizes, the empty sentinel or drop order.",
  ["src/char_p.rs"],
  [("accessors", "char_p_ref::bytes, to_bytes, to_bytes_with_null, to_str"), ("owned conversions", "From<char_p_boxed> for Vec<u8>/String, Drop, Clone for char_p_boxed")])

p("S01", "Slice views cross the FFI boundary unchanged",
  "Converting a shared, mutable or boxed slice, or a str, into its C-layout fat pointer and back yields the same address, length and elements, the pointer part is never null even for empty slices and zero-sized elements, and reborrowing, copying, mutating through or raw-converting the view refers to the same elements. Comparison and ordering of the views, where offered, agree with those of the underlying slices and strings.",
  ["inputs"], "every length including empty, every element value, element types of several sizes including zero",
  "Tests pass a couple of short arrays; empty slices, zero-sized elements, and writes through reborrowed views are not covered.",
  ["src/slice.rs", "src/string/slice.rs"],
  [("conversions", "From impls of slice_ref, slice_mut, slice_raw, slice_boxed, str_ref, str_boxed"), ("views", "as_slice, as_ref, as_mut, as_str, Deref")])

p("S02", "Owned containers cross the FFI boundary without leak, copy or double free",
  "Converting a Box, boxed slice, Vec, boxed str or String into its C-layout counterpart and back preserves the address, length, capacity and every element; dropping the C-layout value drops each element exactly once and frees the whole allocation. Cloning, where offered, makes an equal and independent value. Operating on the underlying Rust container in place leaves the C-layout value equal to the container's final state, for any growth or shrinkage.",
  ["inputs", "histories"], "every content, length and capacity, element types with destructors, every order of drops and any in-place mutation",
  "Tests convert a few small values and run without leak or layout checking.",
  ["src/boxed.rs", "src/vec.rs", "src/slice.rs", "src/string/_mod.rs", "src/string/slice.rs", "src/utils/markers.rs"],
  [("conversions and Drop", "src/boxed.rs Box_, src/vec.rs Vec, src/slice.rs slice_boxed, src/string String/str_boxed"), ("in-place access", "Vec::with_rust_mut, String::with_rust_mut")])

p("P01", "Typed pointer wrappers keep the pointer and drop what they own exactly once",
  "The non-null shared, mutable, owned and out pointer wrappers preserve the address and provenance through conversion, casting, reborrowing and copying, are never null, and have the size and null-niche of a plain pointer. Writing through the out wrapper stores exactly the given value, and the owned wrapper's release operations run the destructor exactly once and free exactly the memory of the value, doing nothing to the heap for zero-sized values.",
  ["inputs"], "every pointer value and pointee, zero-sized and non-zero-sized types",
  "There is no test of these wrappers beyond type-level use.",
  ["src/ptr.rs", "src/layout/_mod.rs", "src/_lib.rs"],
  [("wrappers", "NonNullRef, NonNullMut, NonNullOwned"), ("release", "NonNullOwned::dealloc, drop_in_place_and_dealloc"), ("out pointers", "Out / uninit re-exports, ReprC for Out")])

p("L01", "Raw values are accepted exactly when they are valid for the Rust type",
  "Checking a raw C value accepts it exactly when it is a legal value of the Rust type: booleans are 0 or 1, plain references, boxes, slices, strings and out-parameters have non-null, suitably aligned pointers, function pointers are non-null, arrays and structs are legal in every element and non-zero-sized field, and any bit pattern is legal for integers, floats and plain pointers. The checked conversion returns a value exactly when the check accepts, with the same bits, and nothing otherwise.",
  ["inputs"], "every bit pattern of every basic type, arrays, tuples and derived structs, nested",
  "Tests try a few hand-picked bit patterns of a few types; they cannot quantify over all bit patterns nor over which field of a struct is the invalid one.",
  ["src/layout/_mod.rs", "src/layout/impls.rs", "src/layout/macros.rs", "src/proc_macro/derives/repr_c/struct_.rs"],
  [("validity predicates", "ReprC::is_valid impls"), ("checked conversion", "layout::from_raw, from_raw_unchecked, into_raw")])

p("L02", "The C layout of a type is bit-for-bit its Rust layout",
  "For every supported type, basic or derived, its C-layout twin has the same size, alignment and field offsets, and converting a value into its raw form and back, in either ownership form (by value, by shared reference), returns the same value with every bit preserved and no destructor run twice or skipped.",
  ["inputs", "programs"], "every value of each supported type; derived structs, transparent wrappers, tuples, arrays and opaque types",
  "Layout tests cover a few concrete structs at a few values; bit preservation for all values and the drop count of round trips are not observed.",
  ["src/layout/_mod.rs", "src/layout/impls.rs", "src/layout/macros.rs", "src/tuple.rs", "src/proc_macro/derives/repr_c/struct_.rs", "src/proc_macro/derives/c_type/struct_.rs", "src/utils/_mod.rs"],
  [("raw conversions", "layout::into_raw, from_raw_unchecked, transmute_unchecked"), ("size and alignment assertions", "layout/impls.rs, derive output")])

p("L03", "Derived enums accept exactly their declared discriminants",
  "For every fieldless enum made C-compatible, a raw integer is accepted exactly when it equals the discriminant of some declared variant (explicit, negative or implied by the previous one), and it then converts to that very variant and back. The raw form has the size of the declared integer representation.",
  ["inputs", "programs"], "every raw integer of each representation, enums with explicit, implied, negative and extreme discriminants",
  "Tests try one or two invalid integers of one enum.",
  ["src/proc_macro/derives/repr_c/enum_.rs", "src/layout/macros.rs"],
  [("discriminant match", "derive(ReprC) on enums: is_valid")])

p("L04", "Optional values cross the FFI boundary without losing or inventing a value",
  "An optional pointer-like value is null in C exactly when it is None in Rust, and every raw value it accepts is either that null or a legal value of the inner type. The tagged optional type for values without a spare bit pattern converts from and to Option for every value without changing it or running a destructor twice, and its raw form accepts only the two tags, looking at the payload only when the tag says it is there.",
  ["inputs"], "every raw value and every Option value, over several inner types including ones with destructors",
  "Tests cover one inner type and a few values.",
  ["src/layout/niche.rs", "src/layout/impls.rs", "src/option.rs"],
  [("niche", "HasNiche::is_niche, ReprC for Option<T>"), ("tagged option", "TaggedOption, its From impls and raw layout")])

p("K01", "FFI closures call the wrapped closure with its arguments and manage it once",
  "Calling an FFI closure object, boxed, shared or borrowed, of any supported arity runs the wrapped Rust closure exactly once with the arguments in order and returns its result. The captured environment is destroyed exactly once, when the owning object, or the last of the shared clones, is dropped, and never before; cloning a shared closure adds exactly one reference and borrowed closures never destroy the environment. Cloning a C-provided shared closure that offers no retain function panics rather than aliasing it.",
  ["inputs", "histories"], "every argument tuple and arity 0 to 9, every sequence of calls, clones and drops, C-provided function tables with missing entries",
  "Tests call a unary closure or two with fixed values and do not observe destruction.",
  ["src/closure/_mod.rs", "src/closure/boxed.rs", "src/closure/arc.rs", "src/closure/borrowed.rs"],
  [("environment pointer and call thunk", "BoxDynFnMut*, ArcDynFn*, RefDynFnMut*: From / new / call"), ("destruction and retain", "Drop, Clone for ArcDynFn*")])

p("D01", "Virtual objects dispatch to the wrapped value and destroy it exactly once",
  "Calling a method of an FFI trait object built from a box, a shared or mutable reference, an Rc or an Arc runs that method of that very value with the given arguments and returns its result, and state changes are visible to later calls. Dropping the trait object destroys a boxed value exactly once, decrements a reference count exactly once, and leaves a borrowed value alone; cloning one yields an object over a clone of a boxed value or one more reference to a shared value.",
  ["inputs", "histories", "programs"], "every method, argument and receiver kind of a derived trait, every container, every sequence of calls, clones and drops",
  "Tests instantiate a couple of traits with fixed arguments and rarely observe destruction or counts.",
  ["src/dyn_traits/_mod.rs", "src/dyn_traits/dyn_drop.rs", "src/proc_macro/derives/dyn_trait/_mod.rs", "src/proc_macro/derives/dyn_trait/coercions.rs", "src/proc_macro/derives/dyn_trait/vtable_entry.rs"],
  [("vtable construction per container", "dyn_trait/coercions.rs"), ("virtual dispatch", "dyn_trait/vtable_entry.rs"), ("Drop / DynClone", "src/dyn_traits/_mod.rs VirtualPtr")])

p("F01", "FFI futures report pending, readiness and the result faithfully",
  "Polling a future through its FFI form polls the wrapped future exactly once per poll with a waker that wakes the caller's, reports pending exactly when it is pending, and delivers its exact output when it is ready. Dropping the FFI form at any point drops the wrapped future exactly once.",
  ["inputs", "histories"], "every future that becomes ready after any number of polls, every output value, dropped at any point",
  "The async tests run a few ready or timer-based futures to completion and cannot see spurious polls, lost wake-ups or drops midway.",
  ["src/dyn_traits/futures/_mod.rs"], [("poll conversion", "FfiFuture / PollFuture adapters")])

p("X01", "Exported functions behave as the Rust function they wrap",
  "Calling an exported function through its C symbol with the raw form of any arguments runs the Rust body exactly once with those arguments, in order, and returns the raw form of its result; ownership of arguments and result moves exactly once. Functions exported under another name or as async with a blocking executor behave likewise. A panic in the body never unwinds into the caller.",
  ["inputs", "programs"], "every argument tuple of exported functions mixing scalars, pointers, owned and borrowed values, results of every kind",
  "Tests call exported functions with one argument set each, and only generate headers for most.",
  ["src/proc_macro/ffi_export/fn_/_mod.rs", "src/proc_macro/ffi_export/fn_/async_fn.rs", "src/_lib.rs", "src/layout/_mod.rs"],
  [("exported shim", "ffi_export on fn"), ("unwind guard", "__abort_with_msg__, UnwindGuard")])

p("H01", "Header generation defines every item once and never clobbers a name",
  "During header generation a name is defined at most once however many times the type is used, every first use triggers its definition before the item that needs it, and defining it again is a no-op that leaves the output unchanged. Errors of the output or of the definition are reported, and two different exported items with the same name are detected rather than both emitted where the documentation says so.",
  ["inputs", "histories"], "every sequence of definition requests with repeated and nested names, and any failing writer",
  "Header tests compare one generated file; they do not vary the order, repetition or failure of definition requests.",
  ["src/headers/definer.rs", "src/headers/_mod.rs", "src/headers/languages/mod.rs"],
  [("define-once", "Definer::define_once, insert"), ("set-backed definer", "HashSetDefiner")])

p("H02", "The C types named in headers have the size and signedness of the Rust types",
  "For every basic type that can be exported, the C type written in the generated header denotes, on the supported ABI, a type of the same size, alignment and signedness as the Rust type, and array lengths, constant values and enum discriminants are printed with their exact value. Names of enum variants in headers are the exact upper-snake-case transformation of the Rust names.",
  ["inputs", "programs"], "every basic type, every array length, every name and every value",
  "The golden header covers the types that happen to occur in it.",
  ["src/layout/impls.rs", "src/headers/languages/c.rs", "src/utils/_mod.rs", "src/proc_macro/ffi_export/const_.rs"],
  [("C type names", "LegacyCType impls"), ("case conversion", "utils::screaming_case")])

p("T02", "Executor handles deliver each task's result once and notice lost tasks",
  "Over any executor that keeps its contract, blocking on a future returns exactly that future's output, and awaiting a spawned future or blocking closure stays pending until the executor has run it and then yields exactly its result, whether the executor runs it at once or later. A task that the executor drops without running is destroyed exactly once and reported (a panic, or a cancellation for blocking closures), never answered with a result; an executor that runs a blocking closure twice is detected. Dropping the handle, the guard of an entered executor, or a clone of the executor releases each exactly once.",
  ["inputs", "histories"], "every future and output, every executor behaviour (run at once, later, never; drop the task), handles dropped before or after completion",
  "Tests use one well-behaved runtime, which never drops a task or runs it twice.",
  ["src/dyn_traits/futures/executor.rs", "src/dyn_traits/futures/_mod.rs", "src/dyn_traits/_mod.rs"],
  [("adapters", "VirtualPtr<dyn FfiFutureExecutor>: spawn, spawn_blocking, block_on, enter"), ("executor clone and drop", "derive_ReprC(dyn, Clone) on FfiFutureExecutor")])

p("T01", "Concurrent executors lose no task and no wake-up",
  "With several executor threads, a future or blocking closure handed to an FFI executor runs to completion exactly once and its result reaches the awaiting task: no interleaving of the threads that run, wake, cancel and await it loses the task, its result or a wake-up.",
  ["schedules", "histories"], "every interleaving of executor threads, every spawn/await/cancel order",
  "Tests run a few tasks under one scheduler.",
  ["src/dyn_traits/futures/executor.rs"], [("dispatch", "DropGlue, spawn, spawn_blocking, block_on")])

p("J01", "JavaScript values convert to and from FFI values faithfully",
  "Every FFI value handed to or received from JavaScript converts to the corresponding value without truncation, sign change or loss, and values that do not fit are rejected with an error.",
  ["inputs"], "every number, string, buffer and callback crossing the JavaScript boundary",
  "JavaScript tests exercise a sample of values on one runtime.",
  ["src/js/_mod.rs", "src/js/impls.rs", "src/js/ffi_helpers.rs"], [("conversions", "ReprNapi impls")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P))
