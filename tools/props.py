"""What each check runs and reports.  `runs`: harness modules of /verif/kani (one cargo feature each)."""

TRUSTED = [
    "Kani 0.68 (MIR to goto translation), CBMC 6.11 and CaDiCaL: the deductive back end",
    "rustc (nightly-2026-08-21, the toolchain of Kani) compiles the sources to the MIR that runs elsewhere; the project pins 1.72.1",
    "tools/cbmc_wrap.py: hands CBMC's complete result table to Kani and refuses results of a run that ended abnormally",
    "stubs of core::result::Result::{unwrap,expect} and core::slice::index::slice_index_fail: same panicking condition, simpler message",
    "Kani's model of the global allocator: allocation never fails, and a fresh object never overlaps another",
    "target x86_64-unknown-linux-gnu, little-endian, 64 bit, feature set std of safer-ffi unless said otherwise",
]
ASSUMPTIONS = [
    "termination is not proved (partial correctness); loops are unrolled with unwinding assertions on, so no iteration is cut off",
    "panics are compared as reached / not reached: messages, unwinding and poisoning are not modelled",
    "lengths of symbolic slices are below 2^40 bytes (address space of the machine model)",
    "the staged manifest drops the feature js and its unreachable git dependency napi; no .rs file is changed or copied",
    "machine arithmetic is modelled exactly (wrap-around flagged); atomics are modelled as sequential",
]
COPIED = "Bytes::copied_from_slice, where it is replaced by its contract (fresh memory, same length, same byte at an arbitrary index; " \
         "the contract is proved of the real body, at any length, by b01::pq_copied_short and b01::pq_copied_long)"
NO_COPY = "Bytes::copied_from_slice, where it must not be called: replaced by a failure"
BYTES_FNS = ["Bytes::empty", "Bytes::from_static", "Bytes::from_slice", "Bytes::from_raw_parts", "Bytes::inline_slice", "Bytes::inline_unchecked",
             "Bytes::len", "Bytes::as_slice", "Bytes::is_inlined", "Bytes::vtable", "Bytes::read_inline_length_byte"]

PROPS = {
    "B01": dict(
        runs=[dict(module="b01")],
        functions=BYTES_FNS + ["Bytes::default", "Bytes::copied_from_slice", "<Bytes as Deref/AsRef/Borrow>", "<Bytes as From<&'static [u8]>>",
                               "<Bytes as From<&'static [u8; N]>>", "<Bytes as From<&'static str>>", "<Bytes as From<Arc<[u8]>>>",
                               "<Bytes as From<Arc<T>>>", "<Bytes as From<Box<[u8]>>>", "<Bytes as From<Vec<u8>>>",
                               "<Bytes as PartialEq/PartialOrd/Ord/Hash>"],
        bounded=["bq_arc_*: Arc of an array of 0, 3, 33 bytes (the type is generic)", "bq_compare: operands of at most 3 bytes", "bt_compare_long: operands of 30..34 bytes"],
        assumptions=["Hash is compared as the sequence of calls made on the hasher"]),
    "B02": dict(
        runs=[dict(module="b02")],
        functions=BYTES_FNS + ["Bytes::shrink_to (all range types of std, and pairs of bounds)", "Bytes::subsliced", "Bytes::split_at",
                               "<Bytes as io::Read>::read", "<Bytes as Clone>::clone", "Bytes::noalloc_clone"],
        trusted=[COPIED, NO_COPY, "<[u8]>::copy_from_slice in the read harnesses: replaced by its contract seen through one arbitrary address of the destination"]),
    "B03": dict(
        runs=[dict(module="b03"), dict(module="b03m", leak=True)],
        functions=BYTES_FNS + ["<Bytes as Drop>::drop", "<Bytes as Clone>::clone", "Bytes::noalloc_clone", "Bytes::shrink_to", "Bytes::subsliced", "Bytes::split_at",
                               "Bytes::upgrade", "Bytes::noalloc_upgrade", "<Arc<[u8]> as TryFrom<Bytes>>", "retain_arc_bytes", "release_arc_bytes",
                               "retain<T>, release<T> of From<Arc<T>>", "release_box_bytes"],
        bounded=["bq_arc_slice*: Arc<[u8]> of 1, 40, 72 bytes", "bq_box_clone, bq_box_short_clone, bq_vec, bq_upgrade_copy: lengths of at most 40 bytes",
                 "bq_split_copying: 66..70 bytes"],
        trusted=[COPIED, NO_COPY]),
    "B04": dict(
        runs=[dict(module="b04")],
        functions=BYTES_FNS + ["Bytes::upgrade", "Bytes::noalloc_upgrade", "BytesVt::is_borrowed"],
        trusted=[COPIED, NO_COPY]),
    "B05": dict(
        runs=[dict(module="b05")],
        functions=BYTES_FNS + ["Bytes::clone_will_allocate", "Bytes::upgrade_will_allocate", "Bytes::noalloc_clone", "<Bytes as Clone>::clone", "Bytes::upgrade"],
        bounded=["bq_box_*: boxes of 31, 32, 33, 40, 41 bytes with nothing replaced"],
        trusted=[COPIED, NO_COPY],
        assumptions=["'allocates' is observed as: the contents of the result lie neither in the storage nor in the handle"]),
    "B06": dict(
        runs=[dict(module="b06")],
        functions=BYTES_FNS + ["<Arc<[u8]> as TryFrom<Bytes>>::try_from", "<Bytes as From<Arc<[u8]>>>"],
        bounded=["bq_whole_*: Arc of 0, 1, 20, 40 bytes", "bq_narrowed, bq_split_parts: Arc of 80 bytes", "bq_copied: 40 bytes"],
        trusted=[NO_COPY]),
    "C01": dict(
        runs=[dict(module="c01")],
        functions=["<char_p::Ref as TryFrom<&str>>", "<char_p::Ref as From<&CStr>>", "<char_p::Raw as From<char_p::Ref>>", "c! macro",
                   "<char_p::Box as TryFrom<String>>", "char_p::new (&str, String, CString, &CStr)", "<char_p::Box as From<CString>>",
                   "char_p::Ref::to_owned", "InvalidNulTerminator"],
        bounded=["bq_ref_*, bq_new_*, bq_owned_*, bq_to_owned: texts of at most 3 bytes, every content (bt_*: 5)"],
        trusted=["<[u8]>::contains in pq_owned_any, pq_new_str_any*: replaced by its contract (true exactly if some index holds the byte)"]),
    "C02": dict(
        runs=[dict(module="c02", leak=True)],
        functions=["char_p::Ref::{to_bytes, to_bytes_with_nul, to_nonzero_bytes, bytes, to_str, to_string}", "<char_p::Ref as PartialEq/PartialOrd/Ord/Debug>",
                   "<char_p::Box as Deref/AsRef/Clone/Drop/PartialEq>", "char_p::Box::{as_ref, into_vec, into_vec_with_nul, into_string}", "EMPTY_SENTINEL handling",
                   "<char_p::Box as From<CString>>"],
        bounded=["every harness named bq_*: texts of at most 4 bytes, every content (bt_read_12: 12): the length is found by scanning for the terminator"]),
    "S01": dict(
        runs=[dict(module="s01")],
        functions=["slice_raw, slice_ref, slice_mut, slice_boxed, str_ref, str_boxed: From in both directions, as_slice, as_ref, as_mut, Deref, DerefMut, Clone, Default, Into<slice_raw>",
                   "<slice_* as PartialEq/PartialOrd/Ord/Hash>"],
        bounded=["bq_compare_*: operands of at most 2 elements; bq_str_*: of at most 2 bytes"]),
    "S02": dict(
        native="s02", runs=[dict(module="s02", leak=True)],
        functions=["repr_c::Box<T>: new, From, into, Deref, DerefMut, Clone, Drop", "repr_c::Box<[T]>, repr_c::Box<str>: From, into, Deref, Clone, Drop",
                   "repr_c::Vec<T>: From, into, as_ref, Clone, Drop, with_rust_mut, c_vec!", "repr_c::String: From, into, Clone, Drop, with_rust_mut"],
        bounded=["harnesses named bq_*: at most 3 elements",
                 "with_rust_mut when the closure panics (unwinding is not modelled): native/src/s02.rs, 0..4 elements, 0..6 spare, 11 mutations, run on the real code"]),
    "P01": dict(
        runs=[dict(module="p01", leak=True)],
        functions=["NonNullRef, NonNullMut, NonNullOwned: From<NonNull<T>>, Deref, DerefMut, as_ptr, as_mut_ptr, cast, copy, Clone, From<&T>, From<&mut T>",
                   "NonNullOwned::{drop_in_place, drop_in_place_and_dealloc}", "Out: as_out, write, and the pointers made from it", "layout of all of them and of their Option"],
        bounded=[]),
    "L01": dict(
        runs=[dict(module="l01")],
        functions=["ReprC::is_valid of bool, integers, floats, char-likes, pointers, references, boxes, slices, str, Out, function pointers, arrays, tuples, derived structs (repr(C), repr(transparent)), opaque types",
                   "layout::{from_raw, from_raw_unchecked, from_raw_ref, into_raw}"],
        bounded=[],
        assumptions=["arrays: lengths 1, 2, 3, 4, 6, 7, 16, 32, 50 (the impls are one macro over all lengths)"]),
    "L02": dict(
        runs=[dict(module="l02", leak=True)],
        functions=["LegacyCType/ReprC impls: size, alignment and field offsets of CLayout", "layout::{into_raw, from_raw, from_raw_ref, as_raw}", "derive_ReprC on repr(C) and repr(transparent) structs, tuples, generics, arrays"],
        bounded=[]),
    "L03": dict(
        runs=[dict(module="l03")],
        functions=["derive_ReprC on fieldless enums: is_valid of the generated ReprC impl, for every repr, with explicit, negative, implied and sparse discriminants", "layout::{from_raw, into_raw} on them"],
        bounded=[]),
    "L04": dict(
        runs=[dict(module="l04")],
        functions=["<Option<T> as ReprC>::is_valid, is_niche of every pointer-like type", "TaggedOption: From<Option<T>>, From<T>, into Option<T>, into_rust, as_ref, as_mut, map_or_else, unwrap_or_else, and_then, take, is_valid"],
        bounded=[]),
    "K01": dict(
        runs=[dict(module="k01", leak=True)],
        functions=["BoxDynFnMut0..9: new, From<Box<F>>, call, Drop", "ArcDynFn0..9: new, From<Arc<F>>, call, Clone, Drop", "RefDynFnMut0..9: new, From<&mut F>, call",
                   "the C-callable call, free, retain, release functions they store", "is_valid of the three"],
        bounded=[],
        assumptions=["every arity 0 to 9 is verified with one set of argument types; the impls are generic in them"]),
    "D01": dict(
        runs=[dict(module="d01", leak=True)],
        functions=["derive_ReprC(dyn): the generated vtable, the forwarding methods, From<Box/&/&mut/Rc/Arc/Pin<..>> for VirtualPtr, and its drop, clone and borrow functions",
                   "VirtualPtr: from_raw_parts, Drop, Clone, is_valid, is_niche (Option)", "derive_ReprC(dyn, Clone)", "DynDrop::new, Clone, Drop"],
        bounded=[],
        assumptions=["the code is generated per trait: verified on five traits covering receivers &self, &mut self, Pin<&mut Self>, 0 to 6 arguments, owning, borrowed, optional and enum arguments and results"]),
    "X01": dict(
        native="x01", runs=[dict(module="x01", leak=True)],
        functions=["the C entry point generated by #[ffi_export] on fn (plain, renamed, generic lifetimes, async with executor), moved out of the expansion by kani/lift on every run",
                   "layout::{from_raw_unchecked, into_raw} on its arguments and result", "the exported symbol's name", "UnwindGuard::drop never returns"],
        bounded=["a panic in the body ends the process, naming the function (unwinding is not modelled): native/src/x01.rs, 13 cases, run on the real code"],
        trusted=["kani/lift: moves the generated function item to module level under another name and drops #[export_name]/#[no_mangle], keeping its text"],
        assumptions=["the code is generated per function: verified on 16 functions covering 0 to 12 arguments, scalars, structs, enums, owned and borrowed values",
                     "unwinding is not modelled: proved is that the guard's drop never returns; that the guard is in force during the call is only run natively"]),
    "F01": dict(
        runs=[dict(module="f01", leak=True)],
        functions=["FfiFuture::dyn_poll of Pin<Box<F>>, Pin<&mut F> (Send and not)", "VirtualPtr<dyn FfiFuture>: From, into_future, Drop", "PollFuture conversions",
                   "rust_future_task_context_wake, rust_future_task_context_get_waker (moved out of their ffi_export by kani/lift)"],
        bounded=[],
        trusted=["futures::future::poll_fn: compiled and verified in place, not replaced"]),
    "T02": dict(
        runs=[dict(module="t02", leak=True)], harness_timeout=dict(quick=500, thorough=1500),
        functions=["VirtualPtr<dyn FfiFutureExecutor>: spawn, spawn_blocking, block_on, enter", "FfiFutureExecutor and its Clone and Drop through the generated vtable",
                   "DropGlue, ImplDropGlue", "FfiFuture::dyn_poll and into_future of the tasks handed over", "BoxDynFnMut0 of the blocking closure"],
        bounded=[],
        trusted=["core::fmt::rt::Argument::{new_debug, new_display} replaced: what diagnostics print is not modelled",
                 "atomics of futures::channel::oneshot (its real code is compiled in) are modelled as sequential: one thread"],
        assumptions=["executors: seven behaviours (run at once, run when the handle is polled, drop the task and be done, drop the task and never be done, run a closure twice, block with a limited number of polls)"]),
}
FMT = ["kani/src/ghostfmt.rs: Arguments::{from_str, as_str}, Formatter::pad, alloc::fmt::format and String::push_str replaced by their contracts (the same text, up to white space, "
       "in buffers that do not move); core::fmt::write and every Display and Debug run for real", "str::from_utf8 and Vec::extend_from_slice, where text goes through them: replaced by their contracts",
       "kani/inventory: inventory 0.3.5 whose submit! names the item it submits instead of putting it in a link section, so that the generated code can be called"]
PROPS["H01"] = dict(
    native="h01", runs=[dict(module="h01")], no_playback=True,
    functions=["Definer::define_once", "HashSetDefiner::{insert, out}", "define_self of derived structs (generic or not, nested), enums, opaque types, arrays, pointers, references, function pointers, bool, integers",
               "the gen_def generated by #[ffi_export] on functions, constants and types", "Builder::{generate_with_definer, write_banner, write_prelude, write_body, write_epilogue}"],
    bounded=["bq_*: registries of three exports, in any order, with any failing write", "native/src/h01.rs: 20 types, every pair of them, every order by rotation, output failing at every write, run on the real code"],
    trusted=FMT + ["HeaderLanguage::emit_* of C replaced by their contract: one definition of the item, or an error (their text is H02's)",
                   "HashSet::insert, in pq_hashset: replaced by its contract (whether the value is new is up to the history)"],
    assumptions=["the code is generated per item: verified, for any set of names defined before and any failing emission, on 17 items covering every kind"])
PROPS["H02"] = dict(
    native="h02", runs=[dict(module="h02")], no_playback=True,
    harness_timeout=dict(quick=450, thorough=1500),
    functions=["CType::{short_name, name, name_wrapping_var} of bool, integers, floats, c_char, c_int, pointers, references, boxes, options, function pointers, arrays, ()",
               "C::{emit_docs, emit_struct, emit_simple_enum, emit_opaque_type, emit_function, emit_constant}, define_self of arrays and integers",
               "derive_ReprC and ffi_export: names, discriminants and values handed to them", "utils::screaming_case"],
    bounded=["bq_case_*: names of at most 4 letters, any ASCII", "native/src/h02.rs: 60 types, 12 constants, 7 functions, 9 enums: the real header, compiled by gcc with static assertions"],
    trusted=FMT + ["what the C standard and the LP64 ABI say about each C type name: the table c() in kani/src/h02.rs"],
    assumptions=["text is compared up to white space; the out! macro's splitting into lines is only run natively",
                 "isize is named ssize_t, which the generated #includes do not declare (POSIX does): the native cases include <sys/types.h>"])
NOT_YET = {
    "T01": "quantifies over thread interleavings and scheduler histories; Kani has no thread support and no contract over one call can express them",
    "J01": "the js feature needs the git dependency napi, which cannot be fetched here, so its code cannot be compiled, let alone verified",
}
HOOKS = ["49eecfc", "e8fb332"]
