//! Makes the C entry points that `#[ffi_export]` generates nameable, so that a contract can be put on them.
//!
//! `#[ffi_export] fn f(..) { body }` expands to `fn f(..) { { <the exported function> } body }`: the exported
//! function is an item nobody can name.  `#[lift]`, written below `#[ffi_export]`, runs on that expansion and moves
//! the item, token for token, next to `f` (as `f__ffi_export__`); nothing else changes.  It also emits
//! `const f__export_name__: &str`, the symbol the generated code asks for.
use proc_macro::{Delimiter, Group, Ident, Literal, TokenStream, TokenTree as TT};

fn find_export_name(ts: TokenStream) -> Option<Literal> {
    let v: Vec<TT> = ts.into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        match t {
            TT::Ident(id) if id.to_string() == "export_name" => {
                if let Some(TT::Literal(l)) = v.get(i + 2) { return Some(l.clone()) }
                if let Some(TT::Group(g)) = v.get(i + 2) { if let Some(TT::Literal(l)) = g.stream().into_iter().next() { return Some(l) } }
            }
            TT::Group(g) => if let Some(l) = find_export_name(g.stream()) { return Some(l) },
            _ => {}
        }
    }
    None
}
fn fn_name(v: &[TT]) -> Option<Ident> {
    v.iter().position(|t| matches!(t, TT::Ident(i) if i.to_string() == "fn")).and_then(|i| match &v[i + 1] { TT::Ident(i) => Some(i.clone()), _ => None })
}

#[proc_macro_attribute]
pub fn lift(_: TokenStream, input: TokenStream) -> TokenStream {
    let mut v: Vec<TT> = input.clone().into_iter().collect();
    // the function the item was written for
    let at = match v.iter().position(|t| matches!(t, TT::Ident(i) if i.to_string() == "fn")) { Some(i) => i, None => return input };
    let body = match v[at..].iter().position(|t| matches!(t, TT::Group(g) if g.delimiter() == Delimiter::Brace)) { Some(i) => at + i, None => return input };
    let name = fn_name(&v).unwrap();
    if name.to_string().ends_with("__ffi_export__") { return input }    // the exported function itself carries a copy of the attribute
    let inner: Vec<TT> = match &v[body] { TT::Group(g) => g.stream().into_iter().collect(), _ => unreachable!() };
    let exported = match inner.first() {
        Some(TT::Group(g)) if g.delimiter() == Delimiter::Brace => g.stream(),
        _ => panic!("lift: #[ffi_export] is expected to put the exported function first into the body"),
    };
    let sym = find_export_name(exported.clone()).expect("lift: no export_name found");
    let rest: TokenStream = inner.into_iter().skip(1).collect();
    let mut g = Group::new(Delimiter::Brace, rest);
    if let TT::Group(old) = &v[body] { g.set_span(old.span()); }
    v[body] = TT::Group(g);
    let mut out: TokenStream = v.into_iter().collect();
    let ex: Vec<TT> = exported.clone().into_iter().collect();
    let ex_name = fn_name(&ex).unwrap();
    out.extend(exported);
    out.extend(format!("#[allow(non_upper_case_globals)] pub const {name}__export_name__: &str = {sym};").parse::<TokenStream>().unwrap());
    if name.to_string().starts_with("rust_future_") {       // an item of `ffi_export_future_helpers!`, in a scope of its own
        out.extend(format!("impl crate::f01::Exported for crate::f01::{name} {{ const SYMBOL: &'static str = {sym}; \
                            fn call(a: <Self as crate::f01::Sig>::A) -> <Self as crate::f01::Sig>::R {{ {ex_name}(a) }} }}").parse::<TokenStream>().unwrap());
    }
    out
}

/// `#[safer_ffi::ffi_export(..)] #[lift]`, for the macros of safer_ffi that call an attribute `ffi_export` of the calling scope.
#[proc_macro_attribute]
pub fn ffi_export(args: TokenStream, input: TokenStream) -> TokenStream {
    let mut out: TokenStream = format!("#[::safer_ffi::ffi_export({args})] #[::lift::lift]").parse().unwrap();
    out.extend(input);
    out
}
