use proc_macro::TokenStream;
use quote::quote;
use syn::*;
#[proc_macro_derive(TypeInfo, attributes(scale_info, codec))]
pub fn type_info(ts: TokenStream) -> TokenStream {
	let input = parse_macro_input!(ts as DeriveInput);
	let name = &input.ident;
	let (ig, tg, wc) = input.generics.split_for_impl();
	quote!(
		#[allow(deprecated)]
		const _: () = {
			impl #ig ::scale_info::TypeInfo for #name #tg #wc {
				type Identity = Self;
				fn type_info() -> ::scale_info::Type { ::scale_info::Type::default() }
			}
		};
	)
	.into()
}
