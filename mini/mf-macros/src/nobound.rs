use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::*;

fn pat(path: TokenStream, f: &Fields, p: &str) -> (TokenStream, Vec<Ident>) {
	let b: Vec<Ident> = (0..f.len()).map(|i| format_ident!("{}{}", p, i)).collect();
	let t = match f {
		Fields::Unit => quote!(#path),
		Fields::Unnamed(_) => quote!(#path(#(#b),*)),
		Fields::Named(n) => {
			let k = n.named.iter().map(|f| f.ident.clone().unwrap());
			quote!(#path { #(#k: #b),* })
		},
	};
	(t, b)
}
fn variants(d: &Data) -> Vec<(TokenStream, String, Fields)> {
	match d {
		Data::Struct(s) => vec![(quote!(Self), String::new(), s.fields.clone())],
		Data::Enum(e) => e
			.variants
			.iter()
			.map(|v| {
				let i = &v.ident;
				(quote!(Self::#i), i.to_string(), v.fields.clone())
			})
			.collect(),
		_ => panic!("unions are not supported"),
	}
}
pub fn debug(i: DeriveInput, bounds: bool) -> TokenStream {
	let n = &i.ident;
	let mut g = i.generics.clone();
	if bounds {
		let ps: Vec<Ident> = g.type_params().map(|p| p.ident.clone()).collect();
		let w = g.make_where_clause();
		for p in ps {
			w.predicates.push(parse_quote!(#p: ::core::fmt::Debug));
		}
	}
	let (ig, tg, wc) = g.split_for_impl();
	let arms = variants(&i.data).into_iter().map(|(p, name, f)| {
		let name = if name.is_empty() { n.to_string() } else { name };
		let (pt, b) = pat(p, &f, "f");
		match f {
			Fields::Named(ref k) => {
				let ks = k.named.iter().map(|f| f.ident.as_ref().unwrap().to_string());
				quote!(#pt => __f.debug_struct(#name)#(.field(#ks, #b))*.finish(),)
			},
			_ => quote!(#pt => __f.debug_tuple(#name)#(.field(#b))*.finish(),),
		}
	});
	let body = if matches!(&i.data, Data::Enum(e) if e.variants.is_empty()) { quote!(match *self {}) } else { quote!(match self { #(#arms)* }) };
	quote!(const _: () = { #[automatically_derived] impl #ig ::core::fmt::Debug for #n #tg #wc { fn fmt(&self, __f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { #body } } };)
}
pub fn clone(i: DeriveInput) -> TokenStream {
	let n = &i.ident;
	let (ig, tg, wc) = i.generics.split_for_impl();
	let arms = variants(&i.data).into_iter().map(|(p, _, f)| {
		let (pt, b) = pat(p.clone(), &f, "f");
		let out = match &f {
			Fields::Unit => quote!(#p),
			Fields::Unnamed(_) => quote!(#p(#(::core::clone::Clone::clone(#b)),*)),
			Fields::Named(k) => {
				let ks = k.named.iter().map(|f| f.ident.as_ref().unwrap());
				quote!(#p { #(#ks: ::core::clone::Clone::clone(#b)),* })
			},
		};
		quote!(#pt => #out,)
	});
	quote!(const _: () = { #[automatically_derived] impl #ig ::core::clone::Clone for #n #tg #wc { fn clone(&self) -> Self { match self { #(#arms)* } } } };)
}
pub fn partial_eq(i: DeriveInput) -> TokenStream {
	let n = &i.ident;
	let (ig, tg, wc) = i.generics.split_for_impl();
	let vs = variants(&i.data);
	let many = vs.len() > 1;
	let arms = vs.into_iter().map(|(p, _, f)| {
		let (a, x) = pat(p.clone(), &f, "a");
		let (b, y) = pat(p, &f, "b");
		quote!((#a, #b) => true #(&& #x == #y)*,)
	});
	let rest = if many { quote!(_ => false,) } else { quote!() };
	quote!(const _: () = { #[automatically_derived] impl #ig ::core::cmp::PartialEq for #n #tg #wc { fn eq(&self, __o: &Self) -> bool { match (self, __o) { #(#arms)* #rest } } } };)
}
pub fn eq(i: DeriveInput) -> TokenStream {
	let n = &i.ident;
	let (ig, tg, wc) = i.generics.split_for_impl();
	quote!(const _: () = { #[automatically_derived] impl #ig ::core::cmp::Eq for #n #tg #wc {} };)
}
pub fn default(i: DeriveInput) -> TokenStream {
	let n = &i.ident;
	let (ig, tg, wc) = i.generics.split_for_impl();
	let v = match &i.data {
		Data::Enum(e) => {
			let v = e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))).expect("a #[default] variant");
			let id = &v.ident;
			(quote!(Self::#id), v.fields.clone())
		},
		Data::Struct(s) => (quote!(Self), s.fields.clone()),
		_ => panic!(),
	};
	let p = v.0;
	let d = v.1.iter().map(|_| quote!(::core::default::Default::default()));
	let body = match &v.1 {
		Fields::Unit => quote!(#p),
		Fields::Unnamed(_) => quote!(#p(#(#d),*)),
		Fields::Named(k) => {
			let ks = k.named.iter().map(|f| f.ident.as_ref().unwrap());
			quote!(#p { #(#ks: #d),* })
		},
	};
	quote!(const _: () = { #[automatically_derived] impl #ig ::core::default::Default for #n #tg #wc { fn default() -> Self { #body } } };)
}
