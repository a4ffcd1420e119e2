//! derive(Encode, Decode, MaxEncodedLen, CompactAs) for the parity-scale-codec stand-in
use proc_macro::TokenStream;
use proc_macro2::TokenStream as T2;
use quote::{format_ident, quote};
use syn::{punctuated::Punctuated, *};

struct Attrs {
	compact: bool,
	skip: bool,
	index: Option<u8>,
	encoded_as: Option<Type>,
	enc_bound: Option<Vec<WherePredicate>>,
	dec_bound: Option<Vec<WherePredicate>>,
	mel_bound: Option<Vec<WherePredicate>>,
}

fn attrs(list: &[Attribute]) -> Attrs {
	let mut a = Attrs { compact: false, skip: false, index: None, encoded_as: None, enc_bound: None, dec_bound: None, mel_bound: None };
	for at in list.iter().filter(|a| a.path().is_ident("codec") || a.path().is_ident("compact")) {
		if at.path().is_ident("compact") {
			a.compact = true;
			continue
		}
		let _ = at.parse_nested_meta(|m| {
			let preds = |m: &meta::ParseNestedMeta| -> Result<Vec<WherePredicate>> {
				let c;
				parenthesized!(c in m.input);
				Ok(Punctuated::<WherePredicate, Token![,]>::parse_terminated(&c)?.into_iter().collect())
			};
			if m.path.is_ident("compact") {
				a.compact = true
			} else if m.path.is_ident("skip") {
				a.skip = true
			} else if m.path.is_ident("index") {
				let l: LitInt = m.value()?.parse()?;
				a.index = Some(l.base10_parse()?)
			} else if m.path.is_ident("encoded_as") {
				let l: LitStr = m.value()?.parse()?;
				a.encoded_as = Some(l.parse()?)
			} else if m.path.is_ident("mel_bound") {
				a.mel_bound = Some(preds(&m)?)
			} else if m.path.is_ident("encode_bound") {
				a.enc_bound = Some(preds(&m)?)
			} else if m.path.is_ident("decode_bound") {
				a.dec_bound = Some(preds(&m)?)
			} else if m.input.peek(token::Paren) {
				let _ = preds(&m);
			} else if m.input.peek(Token![=]) {
				let _: Expr = m.value()?.parse()?;
			}
			Ok(())
		});
	}
	a
}

fn mentions(ty: &Type, params: &[Ident]) -> bool {
	struct V<'a>(&'a [Ident], bool);
	impl<'a, 'b> visit::Visit<'b> for V<'a> {
		fn visit_ident(&mut self, i: &'b Ident) {
			if self.0.contains(i) {
				self.1 = true
			}
		}
	}
	let mut v = V(params, false);
	visit::Visit::visit_type(&mut v, ty);
	v.1
}
fn mentions_self(ty: &Type, name: &Ident) -> bool {
	mentions(ty, &[name.clone()])
}

fn where_for(input: &DeriveInput, fields: &[(Type, Attrs)], plain: &T2, skip: &T2, custom: Option<Vec<WherePredicate>>) -> Generics {
	let mut g = input.generics.clone();
	let params: Vec<Ident> = g.type_params().map(|p| p.ident.clone()).collect();
	let w = g.make_where_clause();
	if let Some(c) = custom {
		w.predicates.extend(c);
		return g
	}
	if params.is_empty() {
		return g
	}
	for (ty, a) in fields {
		if !mentions(ty, &params) || mentions_self(ty, &input.ident) {
			continue
		}
		if a.skip {
			w.predicates.push(parse_quote!(#ty: #skip));
		} else if a.compact {
			w.predicates.push(parse_quote!(#ty: ::parity_scale_codec::HasCompact));
		} else {
			w.predicates.push(parse_quote!(#ty: #plain));
		}
	}
	g
}

fn all_fields(d: &Data) -> Vec<(Type, Attrs)> {
	match d {
		Data::Struct(s) => s.fields.iter().map(|f| (f.ty.clone(), attrs(&f.attrs))).collect(),
		Data::Enum(e) => e
			.variants
			.iter()
			.filter(|v| !attrs(&v.attrs).skip)
			.flat_map(|v| v.fields.iter().map(|f| (f.ty.clone(), attrs(&f.attrs))))
			.collect(),
		_ => panic!("unions are not supported"),
	}
}

/// variant indices: codec(index), else the discriminant, else the position
fn indices(e: &DataEnum) -> Vec<T2> {
	let mut r = vec![];
	let mut i = 0usize;
	for v in e.variants.iter() {
		let a = attrs(&v.attrs);
		if a.skip {
			r.push(quote!(0u8));
			continue
		}
		if let Some(x) = a.index {
			r.push(quote!(#x))
		} else if let Some((_, d)) = &v.discriminant {
			r.push(quote!({ #[allow(unnecessary_cast)] { (#d) as u8 } }))
		} else {
			let x = i as u8;
			r.push(quote!(#x))
		}
		i += 1;
	}
	r
}

fn enc_field(ty: &Type, a: &Attrs, expr: T2) -> T2 {
	if a.skip {
		quote!(let _ = #expr;)
	} else if a.compact {
		quote!({
			let r = <<#ty as ::parity_scale_codec::HasCompact>::Type as ::parity_scale_codec::EncodeAsRef<'_, #ty>>::RefType::from(#expr);
			::parity_scale_codec::Encode::encode_to(&r, __dest);
		})
	} else {
		quote!(::parity_scale_codec::Encode::encode_to(#expr, __dest);)
	}
}
fn dec_field(ty: &Type, a: &Attrs) -> T2 {
	if a.skip {
		quote!(::core::default::Default::default())
	} else if a.compact {
		quote!(::core::convert::Into::<#ty>::into(<<#ty as ::parity_scale_codec::HasCompact>::Type as ::parity_scale_codec::Decode>::decode(__input)?))
	} else {
		quote!(<#ty as ::parity_scale_codec::Decode>::decode(__input)?)
	}
}

#[proc_macro_derive(Encode, attributes(codec))]
pub fn encode(ts: TokenStream) -> TokenStream {
	let input = parse_macro_input!(ts as DeriveInput);
	let name = &input.ident;
	let fs = all_fields(&input.data);
	let g = where_for(&input, &fs, &quote!(::parity_scale_codec::Encode), &quote!(Sized), attrs(&input.attrs).enc_bound);
	let (ig, tg, wc) = g.split_for_impl();
	let body = match &input.data {
		Data::Struct(s) => {
			let st = s.fields.iter().enumerate().map(|(i, f)| {
				let m: Member = f.ident.clone().map(Member::Named).unwrap_or(Member::Unnamed(i.into()));
				enc_field(&f.ty, &attrs(&f.attrs), quote!(&self.#m))
			});
			quote!(#(#st)*)
		},
		Data::Enum(e) => {
			let idx = indices(e);
			let arms = e.variants.iter().zip(idx).map(|(v, ix)| {
				let vn = &v.ident;
				if attrs(&v.attrs).skip {
					let pat = match &v.fields {
						Fields::Unit => quote!(),
						Fields::Named(_) => quote!({ .. }),
						Fields::Unnamed(_) => quote!((..)),
					};
					return quote!(Self::#vn #pat => {})
				}
				let bs: Vec<Ident> = (0..v.fields.len()).map(|i| format_ident!("__f{}", i)).collect();
				let pat = match &v.fields {
					Fields::Unit => quote!(),
					Fields::Named(n) => {
						let ns = n.named.iter().map(|f| f.ident.clone().unwrap());
						quote!({ #(#ns: #bs),* })
					},
					Fields::Unnamed(_) => quote!((#(#bs),*)),
				};
				let st = v.fields.iter().zip(&bs).map(|(f, b)| enc_field(&f.ty, &attrs(&f.attrs), quote!(#b)));
				quote!(Self::#vn #pat => { __dest.push_byte(#ix); #(#st)* })
			});
			if e.variants.is_empty() {
				quote!(match *self {})
			} else {
				quote!(match self { #(#arms)* })
			}
		},
		_ => unreachable!(),
	};
	quote!(
		#[allow(deprecated, unused_variables, clippy::all)]
		const _: () = {
			#[automatically_derived]
			impl #ig ::parity_scale_codec::Encode for #name #tg #wc {
				fn encode_to<__O: ::parity_scale_codec::Output + ?Sized>(&self, __dest: &mut __O) { #body }
			}
			#[automatically_derived]
			impl #ig ::parity_scale_codec::EncodeLike for #name #tg #wc {}
		};
	)
	.into()
}

#[proc_macro_derive(Decode, attributes(codec))]
pub fn decode(ts: TokenStream) -> TokenStream {
	let input = parse_macro_input!(ts as DeriveInput);
	let name = &input.ident;
	let fs = all_fields(&input.data);
	let g = where_for(&input, &fs, &quote!(::parity_scale_codec::Decode), &quote!(Default), attrs(&input.attrs).dec_bound);
	let (ig, tg, wc) = g.split_for_impl();
	let make = |path: T2, fields: &Fields| match fields {
		Fields::Unit => quote!(#path),
		Fields::Named(n) => {
			let st = n.named.iter().map(|f| {
				let i = &f.ident;
				let d = dec_field(&f.ty, &attrs(&f.attrs));
				quote!(#i: #d)
			});
			quote!(#path { #(#st),* })
		},
		Fields::Unnamed(u) => {
			let st = u.unnamed.iter().map(|f| dec_field(&f.ty, &attrs(&f.attrs)));
			quote!(#path ( #(#st),* ))
		},
	};
	let body = match &input.data {
		Data::Struct(s) => {
			let m = make(quote!(Self), &s.fields);
			quote!(Ok(#m))
		},
		Data::Enum(e) => {
			let idx = indices(e);
			let arms = e.variants.iter().zip(idx).filter(|(v, _)| !attrs(&v.attrs).skip).map(|(v, ix)| {
				let vn = &v.ident;
				let m = make(quote!(Self::#vn), &v.fields);
				quote!(x if x == #ix => Ok(#m),)
			});
			let msg = format!("Could not decode `{}`, variant doesn't exist", name);
			quote!(match ::parity_scale_codec::Input::read_byte(__input)? { #(#arms)* _ => Err(#msg.into()) })
		},
		_ => unreachable!(),
	};
	quote!(
		#[allow(deprecated, unused_variables, unreachable_code, clippy::all)]
		const _: () = {
			#[automatically_derived]
			impl #ig ::parity_scale_codec::Decode for #name #tg #wc {
				fn decode<__I: ::parity_scale_codec::Input>(__input: &mut __I) -> ::core::result::Result<Self, ::parity_scale_codec::Error> { #body }
			}
		};
	)
	.into()
}

#[proc_macro_derive(MaxEncodedLen, attributes(codec))]
pub fn mel(ts: TokenStream) -> TokenStream {
	let input = parse_macro_input!(ts as DeriveInput);
	let name = &input.ident;
	let fs = all_fields(&input.data);
	let custom = attrs(&input.attrs).mel_bound;
	let mut g = where_for(&input, &fs, &quote!(::parity_scale_codec::MaxEncodedLen), &quote!(Sized), custom.clone());
	// the supertrait: the type has to be Encode under these bounds
	let enc = where_for(&input, &fs, &quote!(::parity_scale_codec::Encode), &quote!(Sized), attrs(&input.attrs).enc_bound);
	if let Some(w) = enc.where_clause {
		g.make_where_clause().predicates.extend(w.predicates);
	}
	if custom.is_none() {
		let params: Vec<Ident> = g.type_params().map(|p| p.ident.clone()).collect();
		for (ty, a) in &fs {
			if a.compact && mentions(ty, &params) {
				g.make_where_clause().predicates.push(parse_quote!(#ty: ::parity_scale_codec::MaxEncodedLen));
			}
		}
	}
	let (ig, tg, wc) = g.split_for_impl();
	let len = |f: &Field| {
		let ty = &f.ty;
		let a = attrs(&f.attrs);
		if a.skip {
			quote!()
		} else if a.compact {
			// one byte more than the number itself, and two for two bytes
			quote!(.saturating_add({
				let __n = <#ty as ::parity_scale_codec::MaxEncodedLen>::max_encoded_len();
				__n.saturating_add(if __n == 2 { 2 } else { 1 })
			}))
		} else {
			quote!(.saturating_add(<#ty as ::parity_scale_codec::MaxEncodedLen>::max_encoded_len()))
		}
	};
	let body = match &input.data {
		Data::Struct(s) => {
			let l = s.fields.iter().map(len);
			quote!(0usize #(#l)*)
		},
		Data::Enum(e) => {
			let arms = e.variants.iter().filter(|v| !attrs(&v.attrs).skip).map(|v| {
				let l = v.fields.iter().map(len);
				quote!(__m = ::core::cmp::max(__m, 0usize #(#l)*);)
			});
			quote!({ let mut __m = 0usize; #(#arms)* __m.saturating_add(1) })
		},
		_ => unreachable!(),
	};
	quote!(
		#[allow(deprecated, clippy::all, unused_mut)]
		const _: () = {
			#[automatically_derived]
			impl #ig ::parity_scale_codec::MaxEncodedLen for #name #tg #wc {
				fn max_encoded_len() -> usize { #body }
			}
		};
	)
	.into()
}

#[proc_macro_derive(CompactAs, attributes(codec))]
pub fn compact_as(ts: TokenStream) -> TokenStream {
	let input = parse_macro_input!(ts as DeriveInput);
	let name = &input.ident;
	let (ig, tg, wc) = input.generics.split_for_impl();
	let Data::Struct(s) = &input.data else { panic!("CompactAs: structs only") };
	let f = s.fields.iter().next().expect("one field");
	let ty = &f.ty;
	let m: Member = f.ident.clone().map(Member::Named).unwrap_or(Member::Unnamed(0.into()));
	quote!(
		const _: () = {
			impl #ig ::parity_scale_codec::CompactAs for #name #tg #wc {
				type As = #ty;
				fn encode_as(&self) -> &#ty { &self.#m }
				fn decode_from(x: #ty) -> ::core::result::Result<Self, ::parity_scale_codec::Error> { Ok(Self { #m: x }) }
			}
			impl #ig ::core::convert::From<::parity_scale_codec::Compact<#name #tg>> for #name #tg #wc {
				fn from(x: ::parity_scale_codec::Compact<#name #tg>) -> Self { x.0 }
			}
		};
	)
	.into()
}

