use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::{format_ident, quote};
use syn::{ext::IdentExt, parse::*, *};

pub struct P {
	attrs: Vec<Attribute>,
	name: Ident,
	path: TokenStream,
	inst: Option<Ident>,
	/// part name, generic arguments
	parts: Vec<(String, usize)>,
	index: u8,
}
pub struct Def {
	name: Ident,
	pallets: Vec<P>,
}
impl Parse for Def {
	fn parse(i: ParseStream) -> Result<Self> {
		i.parse::<Visibility>()?;
		if i.peek(Token![enum]) {
			i.parse::<Token![enum]>()?;
		} else {
			i.parse::<Token![struct]>()?;
		}
		let name = i.parse()?;
		while !i.peek(token::Brace) {
			i.parse::<TokenTree>()?;
		}
		let body;
		braced!(body in i);
		let mut pallets: Vec<P> = vec![];
		while !body.is_empty() {
			let attrs = body.call(Attribute::parse_outer)?;
			let name: Ident = body.parse()?;
			body.parse::<Token![:]>()?;
			let mut path = TokenStream::new();
			let mut inst = None;
			let mut parts = None;
			loop {
				if body.peek(Token![<]) {
					body.parse::<Token![<]>()?;
					inst = Some(body.parse()?);
					body.parse::<Token![>]>()?;
				} else if body.peek(token::Brace) {
					let g: Group = body.parse()?;
					assert!(g.delimiter() == Delimiter::Brace);
					parts = Some(parse2::<Parts>(g.stream())?.0);
				} else {
					let id = Ident::parse_any(&body)?;
					if path.is_empty() {
						path = quote!(#id);
					} else {
						path = quote!(#path::#id);
					}
				}
				if body.peek(Token![::]) {
					body.parse::<Token![::]>()?;
				} else {
					break
				}
			}
			let index = if body.peek(Token![=]) {
				body.parse::<Token![=]>()?;
				body.parse::<LitInt>()?.base10_parse()?
			} else {
				pallets.last().map_or(0, |p| p.index + 1)
			};
			body.parse::<Option<Token![,]>>()?;
			pallets.push(P { attrs, name, path, inst, parts: parts.unwrap_or_else(|| vec![("Pallet".into(), 0), ("Call".into(), 0), ("Event".into(), 1)]), index });
		}
		Ok(Def { name, pallets })
	}
}
struct Parts(Vec<(String, usize)>);
impl Parse for Parts {
	fn parse(i: ParseStream) -> Result<Self> {
		let mut r = vec![];
		while !i.is_empty() {
			let n: Ident = i.parse()?;
			let mut g = 0;
			if i.peek(Token![<]) {
				let a: AngleBracketedGenericArguments = i.parse()?;
				g = a.args.len();
			}
			i.parse::<Option<Token![,]>>()?;
			r.push((n.to_string(), g));
		}
		Ok(Parts(r))
	}
}
impl P {
	fn has(&self, n: &str) -> Option<usize> {
		self.parts.iter().find(|p| p.0 == n).map(|p| p.1)
	}
	/// arguments of a type of the pallet
	fn gen(&self, rt: &Ident, n: usize) -> TokenStream {
		let p = &self.path;
		match (&self.inst, n) {
			(_, 0) => quote!(),
			(Some(i), _) => quote!(<#rt, #p::#i>),
			(None, _) => quote!(<#rt>),
		}
	}
}
fn snake(s: &str) -> String {
	let mut r = String::new();
	for (i, c) in s.chars().enumerate() {
		if c.is_uppercase() && i > 0 {
			r.push('_')
		}
		r.extend(c.to_lowercase());
	}
	r
}

/// Evaluates `#[cfg(..)]` over features when the crate's build script names the enabled ones in
/// MF_FEATURES; None: not evaluated, the attribute stays.
pub fn enabled(attrs: &[Attribute]) -> Option<bool> {
	let on: Vec<String> = std::env::var("MF_FEATURES").ok()?.split(',').map(|s| s.to_string()).collect();
	fn eval(m: &Meta, on: &[String]) -> Option<bool> {
		match m {
			Meta::NameValue(n) if n.path.is_ident("feature") => match &n.value {
				Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(on.contains(&s.value())),
				_ => None,
			},
			Meta::List(l) => {
				let parts: Vec<Meta> = l.parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated).ok()?.into_iter().collect();
				let vals: Vec<bool> = parts.iter().map(|p| eval(p, on)).collect::<Option<_>>()?;
				if l.path.is_ident("any") {
					Some(vals.iter().any(|x| *x))
				} else if l.path.is_ident("all") {
					Some(vals.iter().all(|x| *x))
				} else if l.path.is_ident("not") {
					Some(!vals[0])
				} else {
					None
				}
			},
			Meta::Path(p) if p.is_ident("test") => Some(false),
			_ => None,
		}
	}
	let mut r = true;
	for a in attrs.iter().filter(|a| a.path().is_ident("cfg")) {
		r &= eval(&a.parse_args::<Meta>().ok()?, &on)?;
	}
	Some(r)
}
pub fn expand(mut d: Def) -> TokenStream {
	d.pallets.retain_mut(|p| match enabled(&p.attrs) {
		Some(true) => {
			p.attrs.retain(|a| !a.path().is_ident("cfg"));
			true
		},
		Some(false) => false,
		None => true,
	});
	let rt = &d.name;
	let fs = quote!(::frame_support);
	let sys = quote!(::frame_system);
	let cf: Vec<Vec<&Attribute>> = d.pallets.iter().map(|p| p.attrs.iter().collect()).collect();
	let _ = cf;
	let aliases = d.pallets.iter().map(|p| {
		let (n, path, at, g) = (&p.name, &p.path, &p.attrs, p.gen(rt, 1));
		quote!(#(#at)* #[allow(dead_code)] pub type #n = #path::Pallet #g;)
	});
	let pallet_ty = |p: &P| {
		let (path, g) = (&p.path, p.gen(rt, 1));
		quote!(#path::Pallet #g)
	};
	let index = d.pallets.iter().map(|p| {
		let (t, i, at) = (pallet_ty(p), p.index as usize, &p.attrs);
		quote!(#(#at)* if __t == ::core::any::TypeId::of::<#t>() { return ::core::option::Option::Some(#i) })
	});
	let name = d.pallets.iter().map(|p| {
		let (t, i, at) = (pallet_ty(p), p.name.to_string(), &p.attrs);
		quote!(#(#at)* if __t == ::core::any::TypeId::of::<#t>() { return ::core::option::Option::Some(#i) })
	});
	let derive = quote!(#[derive(Clone, PartialEq, Eq, Debug, #fs::__mf::codec::Encode, #fs::__mf::codec::Decode, #fs::__mf::scale_info::TypeInfo)]);

	// events
	let ev: Vec<(&P, TokenStream)> = d
		.pallets
		.iter()
		.filter_map(|p| {
			p.has("Event").map(|n| {
				let (path, g) = (&p.path, p.gen(rt, n));
				(p, quote!(#path::Event #g))
			})
		})
		.collect();
	let ev_var = ev.iter().map(|(p, t)| {
		let (n, i, at) = (&p.name, p.index, &p.attrs);
		quote!(#(#at)* #[codec(index = #i)] #n(#t))
	});
	let ev_from = ev.iter().map(|(p, t)| {
		let (n, at) = (&p.name, &p.attrs);
		quote!(
			#(#at)* impl From<#t> for RuntimeEvent { fn from(x: #t) -> Self { RuntimeEvent::#n(x) } }
			#(#at)* impl TryFrom<RuntimeEvent> for #t { type Error = (); #[allow(unreachable_patterns)] fn try_from(x: RuntimeEvent) -> ::core::result::Result<Self, ()> { match x { RuntimeEvent::#n(e) => Ok(e), _ => Err(()) } } }
		)
	});

	// calls
	let ca: Vec<(&P, TokenStream)> = d
		.pallets
		.iter()
		.filter(|p| p.has("Call").is_some())
		.map(|p| {
			let (path, g) = (&p.path, p.gen(rt, 1));
			(p, quote!(#path::Call #g))
		})
		.collect();
	let ca_n: Vec<&Ident> = ca.iter().map(|c| &c.0.name).collect();
	let ca_t: Vec<&TokenStream> = ca.iter().map(|c| &c.1).collect();
	let ca_i: Vec<u8> = ca.iter().map(|c| c.0.index).collect();
	let ca_s: Vec<String> = ca_n.iter().map(|n| n.to_string()).collect();
	let ca_a: Vec<TokenStream> = ca.iter().map(|c| { let a = &c.0.attrs; quote!(#(#a)*) }).collect();

	// origins
	let or: Vec<(&P, TokenStream)> = d
		.pallets
		.iter()
		.filter_map(|p| {
			p.has("Origin").map(|n| {
				let (path, g) = (&p.path, p.gen(rt, n));
				(p, quote!(#path::Origin #g))
			})
		})
		.collect();
	let or_n: Vec<&Ident> = or.iter().map(|c| &c.0.name).collect();
	let or_t: Vec<&TokenStream> = or.iter().map(|c| &c.1).collect();
	let or_i: Vec<u8> = or.iter().map(|c| c.0.index).collect();

	// reasons
	let reasons = |part: &str, en: &str| {
		let en = format_ident!("{}", en);
		let ps: Vec<&P> = d.pallets.iter().filter(|p| p.has(part).is_some()).collect();
		let part = format_ident!("{}", part);
		let n: Vec<&Ident> = ps.iter().map(|p| &p.name).collect();
		let i: Vec<u8> = ps.iter().map(|p| p.index).collect();
		let t: Vec<TokenStream> = ps
			.iter()
			.map(|p| {
				let (path, at) = (&p.path, &p.attrs);
				let _ = at;
				quote!(#path::#part)
			})
			.collect();
		quote!(
			#[derive(Copy, Clone, Eq, PartialEq, Debug, Ord, PartialOrd, #fs::__mf::codec::Encode, #fs::__mf::codec::Decode, #fs::__mf::codec::MaxEncodedLen, #fs::__mf::scale_info::TypeInfo)]
			pub enum #en { #(#[codec(index = #i)] #n(#t)),* }
			#(impl From<#t> for #en { fn from(x: #t) -> Self { #en::#n(x) } })*
			impl #fs::traits::VariantCount for #en { const VARIANT_COUNT: u32 = 0 #(+ <#t as #fs::traits::VariantCount>::VARIANT_COUNT)*; }
		)
	};
	let freeze = reasons("FreezeReason", "RuntimeFreezeReason");
	let hold = reasons("HoldReason", "RuntimeHoldReason");

	// genesis
	let ge: Vec<(&P, TokenStream)> = d
		.pallets
		.iter()
		.filter_map(|p| {
			p.has("Config").map(|n| {
				let (path, g) = (&p.path, p.gen(rt, n));
				(p, quote!(#path::GenesisConfig #g))
			})
		})
		.collect();
	let ge_n: Vec<Ident> = ge.iter().map(|g| format_ident!("{}", snake(&g.0.name.to_string()))).collect();
	let ge_t: Vec<&TokenStream> = ge.iter().map(|c| &c.1).collect();

	let vu = d.pallets.iter().filter(|p| p.has("ValidateUnsigned").is_some()).map(|p| {
		let (n, path, g, at) = (&p.name, &p.path, p.gen(rt, 1), &p.attrs);
		(quote!(#(#at)* RuntimeCall::#n(c) => <#path::Pallet #g as #fs::unsigned::ValidateUnsigned>::pre_dispatch(c),), quote!(#(#at)* RuntimeCall::#n(c) => <#path::Pallet #g as #fs::unsigned::ValidateUnsigned>::validate_unsigned(source, c),))
	});
	let (vu_pre, vu_val): (Vec<_>, Vec<_>) = vu.unzip();
	let all = d.pallets.iter().map(|p| &p.name);

	quote!(
		#[derive(Clone, Copy, PartialEq, Eq, Debug, #fs::__mf::scale_info::TypeInfo)]
		pub struct #rt;
		#(#aliases)*
		pub struct PalletInfo;
		impl #fs::traits::PalletInfo for PalletInfo {
			fn index<P: 'static>() -> ::core::option::Option<usize> { let __t = ::core::any::TypeId::of::<P>(); #(#index)* ::core::option::Option::None }
			fn name<P: 'static>() -> ::core::option::Option<&'static str> { let __t = ::core::any::TypeId::of::<P>(); #(#name)* ::core::option::Option::None }
		}
		#[allow(dead_code)]
		pub type AllPalletsWithSystem = (#(#all,)*);

		#derive
		#[allow(clippy::large_enum_variant)]
		pub enum RuntimeEvent { #(#ev_var),* }
		#(#ev_from)*

		#derive
		#[allow(clippy::large_enum_variant)]
		pub enum RuntimeCall { #(#ca_a #[codec(index = #ca_i)] #ca_n(#ca_t)),* }
		#(
			#ca_a impl From<#ca_t> for RuntimeCall { fn from(x: #ca_t) -> Self { RuntimeCall::#ca_n(x) } }
			#ca_a impl #fs::traits::IsSubType<#ca_t> for RuntimeCall { #[allow(unreachable_patterns)] fn is_sub_type(&self) -> ::core::option::Option<&#ca_t> { match self { RuntimeCall::#ca_n(x) => Some(x), _ => None } } }
		)*
		impl #fs::dispatch::GetDispatchInfo for RuntimeCall {
			fn get_dispatch_info(&self) -> #fs::dispatch::DispatchInfo { match self { #(#ca_a RuntimeCall::#ca_n(c) => c.get_dispatch_info(),)* } }
		}
		impl #fs::traits::GetCallMetadata for RuntimeCall {
			fn get_call_metadata(&self) -> #fs::traits::CallMetadata {
				match self { #(#ca_a RuntimeCall::#ca_n(c) => #fs::traits::CallMetadata { function_name: #fs::traits::GetCallName::get_call_name(c), pallet_name: #ca_s },)* }
			}
		}
		impl #fs::traits::UnfilteredDispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			fn dispatch_bypass_filter(self, o: RuntimeOrigin) -> #fs::dispatch::DispatchResultWithPostInfo {
				match self { #(#ca_a RuntimeCall::#ca_n(c) => #fs::traits::UnfilteredDispatchable::dispatch_bypass_filter(c, o),)* }
			}
		}
		impl #fs::dispatch::Dispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			type Config = RuntimeCall;
			type Info = #fs::dispatch::DispatchInfo;
			type PostInfo = #fs::dispatch::PostDispatchInfo;
			fn dispatch(self, o: RuntimeOrigin) -> #fs::dispatch::DispatchResultWithPostInfo {
				if !<RuntimeOrigin as #fs::traits::OriginTrait>::filter_call(&o, &self) {
					return ::core::result::Result::Err(#sys::Error::<#rt>::CallFiltered.into())
				}
				#fs::traits::UnfilteredDispatchable::dispatch_bypass_filter(self, o)
			}
		}
		impl #fs::unsigned::ValidateUnsigned for #rt {
			type Call = RuntimeCall;
			#[allow(unreachable_patterns, unused_variables)]
			fn pre_dispatch(call: &RuntimeCall) -> ::core::result::Result<(), #fs::unsigned::TransactionValidityError> {
				match call { #(#vu_pre)* _ => ::core::result::Result::Err(#fs::unsigned::UnknownTransaction::NoUnsignedValidator.into()) }
			}
			#[allow(unreachable_patterns, unused_variables)]
			fn validate_unsigned(source: #fs::unsigned::TransactionSource, call: &RuntimeCall) -> #fs::unsigned::TransactionValidity {
				match call { #(#vu_val)* _ => #fs::unsigned::UnknownTransaction::NoUnsignedValidator.into() }
			}
		}

		#derive
		pub enum RuntimeTask {}

		#derive
		#[allow(non_camel_case_types)]
		pub enum OriginCaller {
			#[codec(index = 0)]
			system(#sys::Origin<#rt>),
			#(#[codec(index = #or_i)] #or_n(#or_t)),*
		}
		#[derive(Clone)]
		pub struct RuntimeOrigin {
			pub caller: OriginCaller,
			filter: ::std::rc::Rc<dyn Fn(&RuntimeCall) -> bool>,
		}
		impl ::core::fmt::Debug for RuntimeOrigin { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.debug_struct("Origin").field("caller", &self.caller).finish() } }
		impl PartialEq for RuntimeOrigin { fn eq(&self, o: &Self) -> bool { self.caller == o.caller } }
		impl RuntimeOrigin {
			fn with_caller(caller: OriginCaller) -> Self {
				RuntimeOrigin { caller, filter: ::std::rc::Rc::new(|c| <<#rt as #sys::Config>::BaseCallFilter as #fs::traits::Contains<RuntimeCall>>::contains(c)) }
			}
			#[allow(dead_code)]
			pub fn none() -> Self { <Self as #fs::traits::OriginTrait>::none() }
			#[allow(dead_code)]
			pub fn root() -> Self { <Self as #fs::traits::OriginTrait>::root() }
			#[allow(dead_code)]
			pub fn signed(by: <#rt as #sys::Config>::AccountId) -> Self { <Self as #fs::traits::OriginTrait>::signed(by) }
		}
		impl #fs::traits::OriginTrait for RuntimeOrigin {
			type Call = RuntimeCall;
			type PalletsOrigin = OriginCaller;
			type AccountId = <#rt as #sys::Config>::AccountId;
			fn add_filter(&mut self, f: impl Fn(&RuntimeCall) -> bool + 'static) {
				let old = self.filter.clone();
				self.filter = ::std::rc::Rc::new(move |c| old(c) && f(c));
			}
			fn reset_filter(&mut self) { self.filter = Self::with_caller(self.caller.clone()).filter }
			fn set_caller_from(&mut self, o: impl Into<Self>) { self.caller = o.into().caller }
			fn filter_call(&self, c: &RuntimeCall) -> bool {
				match self.caller { OriginCaller::system(#sys::RawOrigin::Root) => true, _ => (self.filter)(c) }
			}
			fn caller(&self) -> &OriginCaller { &self.caller }
			fn into_caller(self) -> OriginCaller { self.caller }
			fn none() -> Self { #sys::RawOrigin::None.into() }
			fn root() -> Self { #sys::RawOrigin::Root.into() }
			fn signed(by: Self::AccountId) -> Self { #sys::RawOrigin::Signed(by).into() }
			#[allow(unreachable_patterns)]
			fn as_system_ref(&self) -> ::core::option::Option<&#sys::RawOrigin<Self::AccountId>> { match &self.caller { OriginCaller::system(o) => Some(o), _ => None } }
		}
		impl From<#sys::Origin<#rt>> for OriginCaller { fn from(x: #sys::Origin<#rt>) -> Self { OriginCaller::system(x) } }
		impl From<#sys::Origin<#rt>> for RuntimeOrigin { fn from(x: #sys::Origin<#rt>) -> Self { RuntimeOrigin::with_caller(x.into()) } }
		impl From<OriginCaller> for RuntimeOrigin { fn from(x: OriginCaller) -> Self { RuntimeOrigin::with_caller(x) } }
		impl From<::core::option::Option<<#rt as #sys::Config>::AccountId>> for RuntimeOrigin {
			fn from(x: ::core::option::Option<<#rt as #sys::Config>::AccountId>) -> Self { <#sys::Origin<#rt>>::from(x).into() }
		}
		impl From<RuntimeOrigin> for ::core::result::Result<#sys::Origin<#rt>, RuntimeOrigin> {
			#[allow(unreachable_patterns)]
			fn from(x: RuntimeOrigin) -> Self { match x.caller { OriginCaller::system(ref l) => Ok(l.clone()), _ => Err(x) } }
		}
		#(
			impl From<#or_t> for OriginCaller { fn from(x: #or_t) -> Self { OriginCaller::#or_n(x) } }
			impl From<#or_t> for RuntimeOrigin { fn from(x: #or_t) -> Self { RuntimeOrigin::with_caller(x.into()) } }
			impl From<RuntimeOrigin> for ::core::result::Result<#or_t, RuntimeOrigin> {
				fn from(x: RuntimeOrigin) -> Self { match x.caller { OriginCaller::#or_n(ref l) => Ok(l.clone()), _ => Err(x) } }
			}
		)*

		#freeze
		#hold

		#[derive(Default)]
		#[allow(dead_code)]
		pub struct RuntimeGenesisConfig { #(pub #ge_n: #ge_t),* }
		impl #fs::__mf::runtime::BuildStorage for RuntimeGenesisConfig {
			fn assimilate_storage(&self, s: &mut #fs::__mf::runtime::Storage) -> ::core::result::Result<(), ::std::string::String> {
				#(#fs::__mf::runtime::BuildStorage::assimilate_storage(&self.#ge_n, s)?;)*
				Ok(())
			}
		}
	)
}
