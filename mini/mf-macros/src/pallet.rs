use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use syn::*;

/// takes the `#[pallet::name...]` attributes called `name` out of the list
fn take(attrs: &mut Vec<Attribute>, name: &str) -> Vec<Attribute> {
	let hit = |a: &Attribute| a.path().segments.len() == 2 && a.path().segments[0].ident == "pallet" && a.path().segments[1].ident == name;
	let (a, b): (Vec<_>, Vec<_>) = std::mem::take(attrs).into_iter().partition(hit);
	*attrs = b;
	a
}
fn has(attrs: &mut Vec<Attribute>, name: &str) -> bool {
	!take(attrs, name).is_empty()
}
fn is(attrs: &[Attribute], name: &str) -> bool {
	attrs.iter().any(|a| a.path().segments.len() == 2 && a.path().segments[0].ident == "pallet" && a.path().segments[1].ident == name)
}
fn strip(attrs: &mut Vec<Attribute>) {
	attrs.retain(|a| a.path().segments[0].ident != "pallet");
}
fn args(a: &Attribute) -> TokenStream {
	match &a.meta {
		Meta::List(l) => l.tokens.clone(),
		_ => quote!(),
	}
}
fn cfgs(attrs: &[Attribute]) -> Vec<Attribute> {
	attrs.iter().filter(|a| a.path().is_ident("cfg")).cloned().collect()
}

pub fn expand(mut m: ItemMod) -> Result<TokenStream> {
	let (_, items) = m.content.take().expect("an inline module");
	let mut out: Vec<TokenStream> = vec![];
	let mut inst = false;
	for it in &items {
		if let Item::Struct(s) = it {
			if s.ident == "Pallet" {
				inst = s.generics.type_params().count() > 1;
			}
		}
	}
	// declaration and use of the generics
	let (bound, using, decl) = if inst {
		(quote!(T: Config<I>, I: 'static), quote!(T, I), quote!(T, I = ()))
	} else {
		(quote!(T: Config), quote!(T), quote!(T))
	};
	let fs = quote!(::frame_support);
	let mut has_event = false;
	let mut has_call = false;
	let mut has_hooks = false;
	let mut has_error = false;
	let mut getters: Vec<TokenStream> = vec![];
	let mut storage_names: Vec<String> = vec![];
	for it in items {
		match it {
			Item::Trait(mut t) if is(&t.attrs, "config") => {
				strip(&mut t.attrs);
				for i in &mut t.items {
					match i {
						TraitItem::Type(x) => strip(&mut x.attrs),
						TraitItem::Fn(x) => strip(&mut x.attrs),
						TraitItem::Const(x) => strip(&mut x.attrs),
						_ => {},
					}
				}
				t.supertraits.push(parse_quote!('static));
				out.push(t.to_token_stream());
			},
			Item::Struct(mut s) if is(&s.attrs, "pallet") => {
				let sv = take(&mut s.attrs, "storage_version").first().map(args);
				strip(&mut s.attrs);
				let (at, vis) = (&s.attrs, &s.vis);
				out.push(quote!(
					#(#at)* #vis struct Pallet<#decl>(::core::marker::PhantomData<(#using)>);
					impl<#using> ::core::clone::Clone for Pallet<#using> { fn clone(&self) -> Self { Self(::core::marker::PhantomData) } }
					impl<#using> ::core::cmp::PartialEq for Pallet<#using> { fn eq(&self, _: &Self) -> bool { true } }
					impl<#using> ::core::cmp::Eq for Pallet<#using> {}
					impl<#using> ::core::fmt::Debug for Pallet<#using> { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str("Pallet") } }
					impl<#bound> #fs::traits::PalletInfoAccess for Pallet<#using> {
						fn index() -> usize { <<T as ::frame_system::Config>::PalletInfo as #fs::traits::PalletInfo>::index::<Self>().expect("the pallet is part of the runtime") }
						fn name() -> &'static str { <<T as ::frame_system::Config>::PalletInfo as #fs::traits::PalletInfo>::name::<Self>().expect("the pallet is part of the runtime") }
					}
				));
				let (ty, val) = match sv {
					Some(v) => (quote!(#fs::traits::StorageVersion), quote!(#v)),
					None => (quote!(#fs::traits::NoStorageVersionSet), quote!(#fs::traits::NoStorageVersionSet)),
				};
				out.push(quote!(
					impl<#bound> #fs::traits::GetStorageVersion for Pallet<#using> {
						type CurrentStorageVersion = #ty;
						fn current_storage_version() -> Self::CurrentStorageVersion { #val }
						fn on_chain_storage_version() -> #fs::traits::StorageVersion { #fs::traits::StorageVersion::get::<Self>() }
					}
				));
			},
			Item::Type(mut t) if is(&t.attrs, "storage") => {
				let getter = take(&mut t.attrs, "getter").first().map(args);
				let named = take(&mut t.attrs, "storage_prefix").first().map(args);
				strip(&mut t.attrs);
				let name = t.ident.clone();
				let prefix = match named {
					Some(p) => parse2::<LitStr>(p)?.value(),
					None => name.to_string(),
				};
				storage_names.push(prefix.clone());
				let pre = format_ident!("_GeneratedPrefixForStorage{}", name);
				let vis = t.vis.clone();
				let cf = cfgs(&t.attrs);
				let Type::Path(p) = &mut *t.ty else { return Err(Error::new_spanned(&t.ty, "a storage type is expected")) };
				let seg = p.path.segments.last_mut().unwrap();
				let PathArguments::AngleBracketed(a) = &mut seg.arguments else { return Err(Error::new_spanned(&seg, "arguments are expected")) };
				a.args[0] = parse_quote!(#pre<#using>);
				let kind = seg.ident.to_string();
				let ga: Vec<GenericArgument> = a.args.iter().cloned().collect();
				let n = t.generics.type_params().count();
				let alias = if n > 1 {
					quote!(#name<#using>)
				} else if n == 1 {
					quote!(#name<T>)
				} else {
					quote!(#name)
				};
				out.push(quote!(
					#(#cf)* #[doc(hidden)] #vis struct #pre<#decl>(::core::marker::PhantomData<(#using)>);
					#(#cf)* impl<#bound> #fs::traits::StorageInstance for #pre<#using> {
						fn pallet_prefix() -> &'static str { <Pallet<#using> as #fs::traits::PalletInfoAccess>::name() }
						const STORAGE_PREFIX: &'static str = #prefix;
					}
					#[allow(type_alias_bounds)]
					#t
				));
				if let Some(g) = getter {
					// (fn name)
					let f: Ident = parse2(g.into_iter().nth(1).into_iter().collect())?;
					let (v, q, keys): (usize, usize, Vec<usize>) = match kind.as_str() {
						"StorageValue" => (1, 2, vec![]),
						"StorageMap" | "CountedStorageMap" => (3, 4, vec![2]),
						"StorageDoubleMap" => (5, 6, vec![2, 4]),
						"StorageNMap" => (2, 3, vec![1]),
						k => return Err(Error::new_spanned(&t, format!("storage {k} is not supported"))),
					};
					let vt = &ga[v];
					let optional = ga.get(q).map_or(true, |q| !q.to_token_stream().to_string().ends_with("ValueQuery"));
					let ret = if optional { quote!(::core::option::Option<#vt>) } else { quote!(#vt) };
					let kn: Vec<Ident> = (0..keys.len()).map(|i| format_ident!("k{}", i)).collect();
					let kg: Vec<Ident> = (0..keys.len()).map(|i| format_ident!("KArg{}", i)).collect();
					let kt: Vec<&GenericArgument> = keys.iter().map(|i| &ga[*i]).collect();
					let bounds = if kind == "StorageNMap" {
						quote!(#(#kg: #fs::storage::types::EncodeKey<#kt>),*)
					} else {
						quote!(#(#kg: #fs::__mf::codec::EncodeLike<#kt>),*)
					};
					let full = alias.clone();
					let alias = if n > 0 { quote!(<#full>) } else { quote!(#full) };
					getters.push(quote!(
						#(#cf)*
						impl<#bound> Pallet<#using> {
							#[allow(missing_docs)]
							pub fn #f<#(#kg),*>(#(#kn: #kg),*) -> #ret where #bounds { #alias::get(#(#kn),*) }
						}
					));
				}
			},
			Item::Fn(mut f) if is(&f.attrs, "type_value") => {
				strip(&mut f.attrs);
				let (vis, name, g, b, at) = (&f.vis, &f.sig.ident, &f.sig.generics, &f.block, &f.attrs);
				let ReturnType::Type(_, ret) = &f.sig.output else { return Err(Error::new_spanned(&f.sig, "a value is expected")) };
				let (ig, tg, wc) = g.split_for_impl();
				let ps: Vec<_> = g.type_params().map(|p| p.ident.clone()).collect();
				out.push(quote!(
					#(#at)* #vis struct #name<#(#ps),*>(::core::marker::PhantomData<(#(#ps,)*)>);
					impl #ig #fs::traits::Get<#ret> for #name #tg #wc { fn get() -> #ret #b }
				));
			},
			Item::Enum(mut e) if is(&e.attrs, "error") => {
				has_error = true;
				strip(&mut e.attrs);
				let generic = e.generics.type_params().count() > 0;
				let (ig, tg) = if generic { (quote!(<#bound>), quote!(<#using>)) } else { (quote!(), quote!()) };
				let names: Vec<Ident> = e.variants.iter().map(|v| v.ident.clone()).collect();
				let texts: Vec<String> = names.iter().map(|n| n.to_string()).collect();
				let idx: Vec<u8> = (0..names.len() as u8).collect();
				let ignore = if generic {
					e.variants.push(parse_quote!(#[doc(hidden)] __Ignore(::core::marker::PhantomData<(#using)>, #fs::__mf::Never)));
					quote!(Self::__Ignore(..) => unreachable!(),)
				} else {
					quote!()
				};
				for g in e.generics.type_params_mut() {
					g.bounds = Default::default();
				}
				let plain = if generic { quote!(<#using>) } else { quote!() };
				out.push(quote!(
					#e
					impl #plain Error #tg {
						#[doc(hidden)]
						pub fn as_str(&self) -> &'static str { match self { #ignore #(Self::#names => #texts,)* } }
						#[doc(hidden)]
						pub fn __index(&self) -> u8 { match self { #ignore #(Self::#names => #idx,)* } }
					}
					impl #plain ::core::fmt::Debug for Error #tg { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str(self.as_str()) } }
					impl #plain ::core::convert::From<Error #tg> for &'static str { fn from(e: Error #tg) -> &'static str { e.as_str() } }
				));
				if generic {
					out.push(quote!(
						impl #ig ::core::convert::From<Error #tg> for #fs::dispatch::DispatchError {
							fn from(e: Error #tg) -> Self {
								let index = <Pallet<#using> as #fs::traits::PalletInfoAccess>::index() as u8;
								#fs::dispatch::DispatchError::Module(#fs::__mf::runtime::ModuleError { index, error: [e.__index(), 0, 0, 0], message: ::core::option::Option::Some(e.as_str()) })
							}
						}
					));
				}
			},
			Item::Enum(mut e) if is(&e.attrs, "event") => {
				has_event = true;
				let dep = take(&mut e.attrs, "generate_deposit").first().map(args);
				strip(&mut e.attrs);
				let n = e.generics.type_params().count();
				let tg = match n {
					0 => quote!(),
					1 => quote!(<T>),
					_ => quote!(<#using>),
				};
				if n > 0 {
					e.variants.push(parse_quote!(#[doc(hidden)] #[codec(skip)] __Ignore(::core::marker::PhantomData<(#using)>, #fs::__mf::Never)));
				}
				e.attrs.push(parse_quote!(#[derive(#fs::CloneNoBound, #fs::EqNoBound, #fs::PartialEqNoBound, #fs::RuntimeDebugNoBound, #fs::__mf::codec::Encode, #fs::__mf::codec::Decode, #fs::__mf::scale_info::TypeInfo)]));
				e.attrs.push(parse_quote!(#[codec(encode_bound(), decode_bound())]));
				let (ig, _, _) = e.generics.split_for_impl();
				out.push(quote!(#e impl #ig ::core::convert::From<Event #tg> for () { fn from(_: Event #tg) {} }));
				if n > 1 {
					out.push(quote!(#[doc(hidden)] pub type __EventOf<T, I = ()> = Event<T, I>;));
				} else if inst {
					out.push(quote!(#[doc(hidden)] pub type __EventOf<T, I = ()> = Event #tg;));
				} else if n == 1 {
					out.push(quote!(#[doc(hidden)] pub type __EventOf<T> = Event<T>;));
				}
				if let Some(d) = dep {
					let cfg = if inst { quote!(<T as Config<I>>) } else { quote!(<T as Config>) };
					out.push(quote!(
						impl<#bound> Pallet<#using> {
							#[allow(dead_code)]
							#d(event: Event #tg) {
								let event = <#cfg::RuntimeEvent as ::core::convert::From<Event #tg>>::from(event);
								let event = <#cfg::RuntimeEvent as ::core::convert::Into<<T as ::frame_system::Config>::RuntimeEvent>>::into(event);
								<::frame_system::Pallet<T>>::deposit_event(event)
							}
						}
					));
				}
			},
			Item::Impl(mut i) if is(&i.attrs, "hooks") => {
				has_hooks = true;
				strip(&mut i.attrs);
				out.push(i.to_token_stream());
				out.push(hooks(&fs, &bound, &using, &i.generics.where_clause));
			},
			Item::Impl(mut i) if is(&i.attrs, "call") => {
				has_call = true;
				strip(&mut i.attrs);
				out.push(call(&fs, i, &bound, &using, &decl, inst)?);
			},
			Item::Impl(mut i) if is(&i.attrs, "genesis_build") => {
				strip(&mut i.attrs);
				let st = &i.self_ty;
				let (ig, _, wc) = i.generics.split_for_impl();
				out.push(quote!(
					impl #ig #fs::__mf::runtime::BuildStorage for #st #wc {
						fn assimilate_storage(&self, s: &mut #fs::__mf::runtime::Storage) -> ::core::result::Result<(), ::std::string::String> {
							#fs::__mf::io::with_storage(s, || #fs::traits::BuildGenesisConfig::build(self));
							Ok(())
						}
					}
					#i
				));
			},
			Item::Struct(mut s) if is(&s.attrs, "genesis_config") => {
				strip(&mut s.attrs);
				for f in s.fields.iter_mut() {
					f.attrs.retain(|a| !a.path().is_ident("serde"));
				}
				out.push(s.to_token_stream());
			},
			Item::Enum(mut s) if is(&s.attrs, "genesis_config") => out.push(s.to_token_stream()),
			Item::Enum(mut e) if is(&e.attrs, "composite_enum") => {
				strip(&mut e.attrs);
				let n = e.variants.len() as u32;
				let id = &e.ident;
				out.push(quote!(
					#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Debug, #fs::__mf::codec::Encode, #fs::__mf::codec::Decode, #fs::__mf::codec::MaxEncodedLen, #fs::__mf::scale_info::TypeInfo)]
					#e
					impl #fs::traits::VariantCount for #id { const VARIANT_COUNT: u32 = #n; }
				));
			},
			Item::Impl(mut i) => {
				strip(&mut i.attrs);
				out.push(i.to_token_stream());
			},
			Item::Type(mut i) => {
				strip(&mut i.attrs);
				out.push(i.to_token_stream());
			},
			Item::Enum(mut i) => {
				strip(&mut i.attrs);
				out.push(i.to_token_stream());
			},
			Item::Struct(mut i) => {
				strip(&mut i.attrs);
				out.push(i.to_token_stream());
			},
			x => out.push(x.to_token_stream()),
		}
	}
	out.extend(getters);
	if !has_hooks {
		out.push(quote!(impl<#bound> #fs::traits::Hooks<::frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet<#using> {}));
		out.push(hooks(&fs, &bound, &using, &None));
	}
	let _ = (has_event, has_call, has_error);
	let (at, vis, name) = (&m.attrs, &m.vis, &m.ident);
	Ok(quote!(#(#at)* #[allow(dead_code, unused_imports, type_alias_bounds, clippy::all)] #vis mod #name { #(#out)* }))
}

fn hooks(fs: &TokenStream, bound: &TokenStream, using: &TokenStream, wc: &Option<WhereClause>) -> TokenStream {
	let bn = quote!(::frame_system::pallet_prelude::BlockNumberFor<T>);
	let me = quote!(<Self as #fs::traits::Hooks<#bn>>);
	let w = quote!(#fs::weights::Weight);
	quote!(
		impl<#bound> #fs::traits::OnInitialize<#bn> for Pallet<#using> #wc { fn on_initialize(n: #bn) -> #w { #me::on_initialize(n) } }
		impl<#bound> #fs::traits::OnFinalize<#bn> for Pallet<#using> #wc { fn on_finalize(n: #bn) { #me::on_finalize(n) } }
		impl<#bound> #fs::traits::OnIdle<#bn> for Pallet<#using> #wc { fn on_idle(n: #bn, x: #w) -> #w { #me::on_idle(n, x) } }
		impl<#bound> #fs::traits::OffchainWorker<#bn> for Pallet<#using> #wc { fn offchain_worker(n: #bn) { #me::offchain_worker(n) } }
		impl<#bound> #fs::traits::IntegrityTest for Pallet<#using> #wc { fn integrity_test() { #me::integrity_test() } }
		impl<#bound> #fs::traits::OnRuntimeUpgrade for Pallet<#using> #wc { fn on_runtime_upgrade() -> #w { #me::on_runtime_upgrade() } }
	)
}

struct Method {
	name: Ident,
	index: u8,
	weight: TokenStream,
	args: Vec<(Ident, Type, bool)>,
	attrs: Vec<Attribute>,
}

fn call(fs: &TokenStream, mut i: ItemImpl, bound: &TokenStream, using: &TokenStream, decl: &TokenStream, inst: bool) -> Result<TokenStream> {
	let mut ms: Vec<Method> = vec![];
	for it in &mut i.items {
		let ImplItem::Fn(f) = it else { continue };
		let index = take(&mut f.attrs, "call_index").first().map(args).map(|a| parse2::<LitInt>(a)).transpose()?.map(|l| l.base10_parse::<u8>()).transpose()?.unwrap_or(ms.len() as u8);
		let weight = take(&mut f.attrs, "weight").first().map(args).unwrap_or(quote!(#fs::weights::Weight::zero()));
		strip(&mut f.attrs);
		let mut a = vec![];
		for x in f.sig.inputs.iter_mut().skip(1) {
			let FnArg::Typed(t) = x else { return Err(Error::new_spanned(x, "no self here")) };
			let compact = has(&mut t.attrs, "compact");
			let Pat::Ident(p) = &*t.pat else { return Err(Error::new_spanned(&t.pat, "a name is expected")) };
			a.push((p.ident.clone(), (*t.ty).clone(), compact));
		}
		let block = &f.block;
		f.block = parse_quote!({ #fs::storage::with_storage_layer(|| #block) });
		f.attrs.push(parse_quote!(#[allow(clippy::useless_conversion)]));
		ms.push(Method { name: f.sig.ident.clone(), index, weight, args: a, attrs: f.attrs.iter().filter(|a| a.path().is_ident("doc") || a.path().is_ident("cfg") || a.path().is_ident("deprecated")).cloned().collect() });
	}
	let wc = &i.generics.where_clause;
	let gen = if inst { quote!(<T: Config<I>, I: 'static = ()>) } else { quote!(<T: Config>) };
	let _ = decl;
	let variants = ms.iter().map(|m| {
		let at = m.attrs.iter().filter(|a| !a.path().is_ident("deprecated"));
		let (n, ix) = (&m.name, m.index);
		let f = m.args.iter().map(|(n, t, c)| if *c { quote!(#[codec(compact)] #n: #t) } else { quote!(#n: #t) });
		quote!(#(#at)* #[codec(index = #ix)] #n { #(#f),* })
	});
	let names: Vec<String> = ms.iter().map(|m| m.name.to_string()).collect();
	let ids: Vec<&Ident> = ms.iter().map(|m| &m.name).collect();
	let idx: Vec<u8> = ms.iter().map(|m| m.index).collect();
	let info = ms.iter().map(|m| {
		let (n, w) = (&m.name, &m.weight);
		let a = m.args.iter().map(|a| &a.0);
		quote!(Self::#n { #(#a),* } => #fs::dispatch::IntoDispatchInfo::into_dispatch_info(#w),)
	});
	let run = ms.iter().map(|m| {
		let n = &m.name;
		let a: Vec<_> = m.args.iter().map(|a| &a.0).collect();
		quote!(Self::#n { #(#a),* } => <Pallet<#using>>::#n(origin, #(#a),*).map(::core::convert::Into::into).map_err(::core::convert::Into::into),)
	});
	let ctors = ms.iter().map(|m| {
		let n = &m.name;
		let f = format_ident!("new_call_variant_{}", m.name);
		let a: Vec<_> = m.args.iter().map(|a| &a.0).collect();
		let t = m.args.iter().map(|a| &a.1);
		quote!(#[allow(missing_docs)] pub fn #f(#(#a: #t),*) -> Self { Self::#n { #(#a),* } })
	});
	let alias = if inst { quote!(#[doc(hidden)] pub type __CallOf<T, I = ()> = Call<T, I>;) } else { quote!(#[doc(hidden)] pub type __CallOf<T> = Call<T>;) };
	let body = if ms.is_empty() { quote!() } else { quote!() };
	Ok(quote!(
		#body
		#[derive(#fs::CloneNoBound, #fs::EqNoBound, #fs::PartialEqNoBound, #fs::RuntimeDebugNoBound, #fs::__mf::codec::Encode, #fs::__mf::codec::Decode, #fs::__mf::scale_info::TypeInfo)]
		#[codec(encode_bound(), decode_bound())]
		#[allow(non_camel_case_types, missing_docs)]
		pub enum Call #gen {
			#[doc(hidden)]
			#[codec(skip)]
			__Ignore(::core::marker::PhantomData<(#using)>, #fs::__mf::Never),
			#(#variants),*
		}
		#alias
		impl<#bound> Call<#using> { #(#ctors)* }
		impl<#bound> #fs::dispatch::GetDispatchInfo for Call<#using> #wc {
			#[allow(unused_variables)]
			fn get_dispatch_info(&self) -> #fs::dispatch::DispatchInfo {
				match self { #(#info)* Self::__Ignore(..) => unreachable!() }
			}
		}
		impl<#bound> #fs::traits::GetCallName for Call<#using> {
			fn get_call_name(&self) -> &'static str { match self { #(Self::#ids { .. } => #names,)* Self::__Ignore(..) => unreachable!() } }
			fn get_call_names() -> &'static [&'static str] { &[#(#names),*] }
		}
		impl<#bound> #fs::traits::GetCallIndex for Call<#using> {
			fn get_call_index(&self) -> u8 { match self { #(Self::#ids { .. } => #idx,)* Self::__Ignore(..) => unreachable!() } }
		}
		impl<#bound> #fs::traits::UnfilteredDispatchable for Call<#using> #wc {
			type RuntimeOrigin = ::frame_system::pallet_prelude::OriginFor<T>;
			#[allow(unused_variables, deprecated)]
			fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> #fs::dispatch::DispatchResultWithPostInfo {
				match self { #(#run)* Self::__Ignore(..) => unreachable!() }
			}
		}
		#i
	))
}
