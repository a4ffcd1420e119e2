//! The macros of frame_support for the miniframe
mod nobound;
mod pallet;
mod runtime;
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::*;

#[proc_macro_derive(RuntimeDebug)]
pub fn runtime_debug(ts: TokenStream) -> TokenStream {
	nobound::debug(parse_macro_input!(ts as DeriveInput), true).into()
}
#[proc_macro_derive(RuntimeDebugNoBound)]
pub fn runtime_debug_nb(ts: TokenStream) -> TokenStream {
	nobound::debug(parse_macro_input!(ts as DeriveInput), false).into()
}
#[proc_macro_derive(DebugNoBound)]
pub fn debug_nb(ts: TokenStream) -> TokenStream {
	nobound::debug(parse_macro_input!(ts as DeriveInput), false).into()
}
#[proc_macro_derive(CloneNoBound)]
pub fn clone_nb(ts: TokenStream) -> TokenStream {
	nobound::clone(parse_macro_input!(ts as DeriveInput)).into()
}
#[proc_macro_derive(PartialEqNoBound)]
pub fn partial_eq_nb(ts: TokenStream) -> TokenStream {
	nobound::partial_eq(parse_macro_input!(ts as DeriveInput)).into()
}
#[proc_macro_derive(EqNoBound)]
pub fn eq_nb(ts: TokenStream) -> TokenStream {
	nobound::eq(parse_macro_input!(ts as DeriveInput)).into()
}
#[proc_macro_derive(DefaultNoBound, attributes(default))]
pub fn default_nb(ts: TokenStream) -> TokenStream {
	nobound::default(parse_macro_input!(ts as DeriveInput)).into()
}

struct StaticParam {
	attrs: Vec<Attribute>,
	vis: Visibility,
	name: Ident,
	ty: Type,
	value: Expr,
}
impl parse::Parse for StaticParam {
	fn parse(i: parse::ParseStream) -> Result<Self> {
		let attrs = i.call(Attribute::parse_outer)?;
		let vis = i.parse()?;
		i.parse::<Token![static]>()?;
		let name = i.parse()?;
		i.parse::<Token![:]>()?;
		let ty = i.parse()?;
		i.parse::<Token![=]>()?;
		let value = i.parse()?;
		i.parse::<Option<Token![;]>>()?;
		Ok(Self { attrs, vis, name, ty, value })
	}
}
fn screaming(s: &str) -> String {
	let mut r = String::new();
	for (i, c) in s.chars().enumerate() {
		if c.is_uppercase() && i > 0 {
			r.push('_')
		}
		r.extend(c.to_uppercase());
	}
	r
}
#[proc_macro]
pub fn mf_static_parameter(ts: TokenStream) -> TokenStream {
	let StaticParam { attrs, vis, name, ty, value } = parse_macro_input!(ts as StaticParam);
	let st = format_ident!("{}", screaming(&name.to_string()));
	quote!(
		#(#attrs)* #vis struct #name;
		::std::thread_local! { #[allow(non_upper_case_globals, dead_code)] #vis static #st: ::std::cell::RefCell<#ty> = ::std::cell::RefCell::new(#value); }
		#[allow(dead_code)]
		impl #name {
			pub fn get() -> #ty { #st.with(|v| v.borrow().clone()) }
			pub fn set(t: #ty) { #st.with(|v| *v.borrow_mut() = t) }
			pub fn mutate<R, F: FnOnce(&mut #ty) -> R>(m: F) -> R { let mut c = Self::get(); let r = m(&mut c); Self::set(c); r }
			pub fn take() -> #ty where #ty: Default { #st.with(|v| ::std::mem::take(&mut *v.borrow_mut())) }
		}
		impl<__I: From<#ty>> ::frame_support::traits::Get<__I> for #name { fn get() -> __I { __I::from(Self::get()) } }
	)
	.into()
}

#[proc_macro_attribute]
pub fn storage_alias(_: TokenStream, ts: TokenStream) -> TokenStream {
	let mut a = parse_macro_input!(ts as ItemType);
	let name = a.ident.clone();
	let text = name.to_string();
	let pre = format_ident!("__AliasPrefix{}", name);
	let vis = a.vis.clone();
	let params: Vec<Ident> = a.generics.type_params().map(|p| p.ident.clone()).collect();
	let decl = params.clone();
	let generics = a.generics.clone();
	let (ig, _, wc) = generics.split_for_impl();
	let Type::Path(p) = &mut *a.ty else { panic!("storage_alias: a path is expected") };
	let seg = p.path.segments.last_mut().unwrap();
	let kind = seg.ident.clone();
	seg.ident = kind;
	let PathArguments::AngleBracketed(args) = &mut seg.arguments else { panic!("storage_alias: arguments are expected") };
	let first = args.args[0].clone();
	args.args[0] = parse_quote!(#pre<#(#params),*>);
	if p.path.segments.len() == 1 {
		let path = p.path.clone();
		p.path = parse_quote!(::frame_support::storage::types::#path);
	}
	let prefix = quote!(<#first as ::frame_support::traits::PalletInfoAccess>::name());
	quote!(
		#[doc(hidden)]
		#[allow(non_camel_case_types)]
		#vis struct #pre<#(#decl),*>(::core::marker::PhantomData<(#(#decl,)*)>);
		impl #ig ::frame_support::traits::StorageInstance for #pre<#(#decl),*> #wc {
			fn pallet_prefix() -> &'static str { #prefix }
			const STORAGE_PREFIX: &'static str = #text;
		}
		#[allow(type_alias_bounds)]
		#a
	)
	.into()
}

#[proc_macro_attribute]
pub fn pallet(_: TokenStream, ts: TokenStream) -> TokenStream {
	pallet::expand(parse_macro_input!(ts as ItemMod)).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro]
pub fn construct_runtime(ts: TokenStream) -> TokenStream {
	runtime::expand(parse_macro_input!(ts as runtime::Def)).into()
}
/// accepted and ignored
#[proc_macro_attribute]
pub fn ignored_attr(_: TokenStream, ts: TokenStream) -> TokenStream {
	ts
}

/// enumflags2::bitflags: gives the variants their bits and implements the flag trait
#[proc_macro_attribute]
pub fn bitflags(_: TokenStream, ts: TokenStream) -> TokenStream {
	let mut e = parse_macro_input!(ts as ItemEnum);
	let repr = e.attrs.iter().find(|a| a.path().is_ident("repr")).map(|a| a.parse_args::<Ident>().unwrap()).unwrap_or(format_ident!("usize"));
	let mut next = 1u64;
	for v in &mut e.variants {
		match &v.discriminant {
			None => {
				let l = LitInt::new(&next.to_string(), proc_macro2::Span::call_site());
				v.discriminant = Some((Default::default(), parse_quote!(#l)));
			},
			Some((_, Expr::Lit(ExprLit { lit: Lit::Int(l), .. }))) => next = l.base10_parse().unwrap(),
			_ => {},
		}
		next <<= 1;
	}
	let name = &e.ident;
	let vs: Vec<&Ident> = e.variants.iter().map(|v| &v.ident).collect();
	quote!(
		#e
		impl ::enumflags2::BitFlag for #name {
			type Numeric = #repr;
			const ALL_BITS: #repr = 0 #(| (#name::#vs as #repr))*;
			const EMPTY_BITS: #repr = 0;
			fn variants() -> &'static [Self] { &[#(#name::#vs),*] }
			fn bit(self) -> #repr { self as #repr }
		}
	)
	.into()
}
/// `#[serial]`
#[proc_macro_attribute]
pub fn serial(_: TokenStream, ts: TokenStream) -> TokenStream {
	ts
}

struct Apis(Vec<ItemTrait>);
impl syn::parse::Parse for Apis {
	fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
		let mut v = vec![];
		while !i.is_empty() {
			v.push(i.parse()?);
		}
		Ok(Apis(v))
	}
}
/// the client side of each trait: every method takes the block to look at and may fail
#[proc_macro]
pub fn decl_runtime_apis(ts: TokenStream) -> TokenStream {
	let mut out = proc_macro2::TokenStream::new();
	for mut t in parse_macro_input!(ts as Apis).0 {
		t.attrs.retain(|a| a.path().is_ident("doc"));
		t.generics.params.insert(0, parse_quote!(Block: ::sp_api::BlockT));
		for i in &mut t.items {
			if let TraitItem::Fn(f) = i {
				f.attrs.retain(|a| a.path().is_ident("doc"));
				let args = f.sig.inputs.clone();
				let at: FnArg = parse_quote!(__at: <Block as ::sp_api::BlockT>::Hash);
				let me: FnArg = parse_quote!(&self);
				f.sig.inputs = [me, at].into_iter().chain(args).collect();
				let r = match &f.sig.output {
					ReturnType::Default => quote!(()),
					ReturnType::Type(_, t) => quote!(#t),
				};
				f.sig.output = parse_quote!(-> ::core::result::Result<#r, ::sp_api::ApiError>);
			}
		}
		out.extend(quote!(#t));
	}
	out.into()
}
/// the server trait of a jsonrpsee API, with the module that serves it by the published names
#[proc_macro_attribute]
pub fn rpc(_: TokenStream, ts: TokenStream) -> TokenStream {
	let mut t = parse_macro_input!(ts as ItemTrait);
	t.ident = format_ident!("{}Server", t.ident);
	let mut bounds = vec![];
	let mut register = vec![];
	for i in &mut t.items {
		let TraitItem::Fn(f) = i else { continue };
		for a in f.attrs.iter().filter(|a| a.path().is_ident("method")) {
			let mut names = vec![];
			a.parse_nested_meta(|m| {
				if m.path.is_ident("name") {
					names.push(m.value()?.parse::<LitStr>()?);
				} else if m.path.is_ident("aliases") {
					let list;
					let v = m.value()?;
					bracketed!(list in v);
					names.extend(list.parse_terminated(<LitStr as syn::parse::Parse>::parse, Token![,])?);
				} else if m.input.peek(Token![=]) {
					m.value()?.parse::<Expr>()?;
				}
				Ok(())
			})
			.expect("a method attribute");
			let mut take = vec![];
			let mut give = vec![];
			for (n, x) in f.sig.inputs.iter().skip(1).enumerate() {
				let FnArg::Typed(x) = x else { panic!("an argument") };
				let ty = &x.ty;
				let Pat::Ident(p) = &*x.pat else { panic!("an argument's name") };
				let name = p.ident.to_string();
				let v = format_ident!("__a{n}");
				let optional = matches!(&**ty, Type::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "Option"));
				bounds.push(quote!(#ty: ::jsonrpsee::serde::de::DeserializeOwned));
				take.push(quote!(let #v: #ty = __p.take(#n, #name, #optional)?;));
				give.push(v);
			}
			let r = match &f.sig.output {
				ReturnType::Type(_, t) => t,
				_ => panic!("a result"),
			};
			let Type::Path(r) = &**r else { panic!("a result") };
			let PathArguments::AngleBracketed(r) = &r.path.segments.last().expect("a result").arguments else { panic!("a result") };
			let ok = r.args.first().expect("a result");
			bounds.push(quote!(#ok: ::jsonrpsee::serde::Serialize));
			let id = &f.sig.ident;
			for name in names {
				register.push(quote!(
					__m.register(#name, {
						let __me = __me.clone();
						::std::boxed::Box::new(move |__p: &::jsonrpsee::Params| {
							#(#take)*
							let __r: #ok = __me.#id(#(#give),*)?;
							::jsonrpsee::answer(&__r)
						})
					});
				));
			}
		}
		f.attrs.retain(|a| a.path().is_ident("doc"));
	}
	t.items.push(parse_quote!(
		/// the module that serves this interface
		fn into_rpc(self) -> ::jsonrpsee::RpcModule<Self>
		where
			Self: Sized + 'static,
			#(#bounds,)*
		{
			let mut __m = ::jsonrpsee::RpcModule::empty();
			let __me = ::std::rc::Rc::new(self);
			#(#register)*
			__m
		}
	));
	quote!(#t).into()
}

struct Impls(Vec<ItemImpl>);
impl syn::parse::Parse for Impls {
	fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
		let mut v = vec![];
		while !i.is_empty() {
			v.push(i.parse()?);
		}
		Ok(Impls(v))
	}
}
/// The runtime's answers to the API calls of its own pallets, as methods of `RuntimeApi`. The APIs of
/// polkadot-sdk are left out.
#[proc_macro]
pub fn impl_runtime_apis(ts: TokenStream) -> TokenStream {
	let mut out = proc_macro2::TokenStream::new();
	// the same for the node, which does not know what is in an extrinsic: all that passes between it and
	// the runtime is encoded on one side and decoded on the other
	let mut opaque = proc_macro2::TokenStream::new();
	for mut t in parse_macro_input!(ts as Impls).0 {
		if runtime::enabled(&t.attrs) == Some(false) {
			continue
		}
		let path = t.trait_.as_ref().expect("a trait").1.clone();
		let first = path.segments[0].ident.to_string();
		if !(first.starts_with("pallet_") && first.ends_with("_runtime_api") && first != "pallet_transaction_payment_rpc_runtime_api" || first == "system_runtime_api" || path.segments.last().is_some_and(|s| s.ident == "AccountNonceApi")) {
			continue
		}
		t.attrs.retain(|a| !a.path().is_ident("cfg"));
		t.self_ty = parse_quote!(RuntimeApi);
		let mut outer = t.clone();
		let mut real = path.clone();
		if let Some(PathSegment { arguments: PathArguments::AngleBracketed(a), .. }) = real.segments.last_mut() {
			if let Some(b) = a.args.first_mut() {
				*b = parse_quote!(super::Block);
			}
		}
		for (i, o) in t.items.iter_mut().zip(&mut outer.items) {
			if let (ImplItem::Fn(f), ImplItem::Fn(o)) = (i, o) {
				let args = f.sig.inputs.clone();
				let at: FnArg = parse_quote!(__at: <Block as ::sp_api::BlockT>::Hash);
				let me: FnArg = parse_quote!(&self);
				f.sig.inputs = [me.clone(), at.clone()].into_iter().chain(args.clone()).collect();
				let r = match &f.sig.output {
					ReturnType::Default => quote!(()),
					ReturnType::Type(_, t) => quote!(#t),
				};
				f.sig.output = parse_quote!(-> ::core::result::Result<#r, ::sp_api::ApiError>);
				let b = &f.block;
				f.block = parse_quote!({ let _ = __at; ::core::result::Result::Ok((move || -> #r #b)()) });
				let (mut give, mut inputs) = (vec![], vec![me, at]);
				for (n, a) in args.into_iter().enumerate() {
					let FnArg::Typed(a) = a else { continue };
					let (v, ty) = (format_ident!("__a{n}"), a.ty);
					inputs.push(parse_quote!(#v: #ty));
					give.push(quote!(::sp_api::carried(&#v)?));
				}
				let id = &f.sig.ident;
				o.sig.inputs = inputs.into_iter().collect();
				o.sig.output = f.sig.output.clone();
				o.block = parse_quote!({ ::sp_api::asked(&__at); ::sp_api::carried(&<RuntimeApi as #real>::#id(self, __at, #(#give),*)?) });
			}
		}
		out.extend(quote!(#t));
		opaque.extend(quote!(#outer));
	}
	quote!(
		pub const RUNTIME_API_VERSIONS: &[([u8; 8], u32)] = &[];
		#[derive(Default)]
		pub struct RuntimeApi;
		#out
		mod node_side {
			#[allow(unused_imports)]
			use super::*;
			type Block = ::common_primitives::node::Block;
			#opaque
		}
	)
	.into()
}

/// the body in a storage layer of its own
#[proc_macro_attribute]
pub fn transactional(_: TokenStream, ts: TokenStream) -> TokenStream {
	let ItemFn { attrs, vis, sig, block } = parse_macro_input!(ts as ItemFn);
	let out = match &sig.output {
		ReturnType::Type(_, t) => quote!(#t),
		ReturnType::Default => quote!(()),
	};
	quote!(#(#attrs)* #vis #sig {
		frame_support::storage::with_storage_layer(|| { let r: #out = (|| #block)(); r })
	})
	.into()
}
#[proc_macro_attribute]
pub fn require_transactional(_: TokenStream, ts: TokenStream) -> TokenStream {
	let ItemFn { attrs, vis, sig, block } = parse_macro_input!(ts as ItemFn);
	quote!(#(#attrs)* #vis #sig {
		if !frame_support::storage::transactional::is_transactional() {
			return Err(frame_support::dispatch::DispatchError::Transactional(frame_support::sp_runtime::TransactionalError::NoLayer).into());
		}
		#block
	})
	.into()
}
