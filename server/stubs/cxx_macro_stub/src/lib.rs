//! #[cxx::bridge]: the functions of the bridge call the simulator's engine.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, ForeignItem, Item, ItemMod};
#[proc_macro_attribute]
pub fn bridge(_: TokenStream, item: TokenStream) -> TokenStream {
    let m = parse_macro_input!(item as ItemMod);
    let (vis, name) = (m.vis, m.ident);
    let mut out = Vec::new();
    for i in m.content.map(|c| c.1).unwrap_or_default() {
        match i {
            Item::ForeignMod(f) => for x in f.items {
                if let ForeignItem::Fn(f) = x {
                    let s = f.sig;
                    let body = match s.ident.to_string().as_str() {
                        "create_pipeline" => quote! { ::cxx::create(&id, &program) },
                        "delete_pipeline" => quote! { ::cxx::delete(&id) },
                        "receive_message_in_pipeline" => quote! { ::cxx::receive(&id, message.timestamp, &message.values).into_iter().map(|(timestamp, values)| RtBotMessage { timestamp, values }).collect() },
                        _ => quote! { unimplemented!() },
                    };
                    out.push(quote! { pub #s { #body } });
                }
            },
            other => out.push(quote! { #other }),
        }
    }
    quote! { #vis mod #name { #(#out)* } }.into()
}
