//! Offline stand-in for async-trait: `async fn` with a `&self` and reference arguments in traits.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_quote, FnArg, ImplItem, Item, ReturnType, Signature, TraitItem};

fn boxed(sig: &mut Signature) -> bool {
    if sig.asyncness.take().is_none() {
        return false;
    }
    sig.generics.params.insert(0, parse_quote!('at));
    for a in sig.inputs.iter_mut() {
        match a {
            FnArg::Receiver(r) => *r = if r.mutability.is_some() { parse_quote!(&'at mut self) } else { parse_quote!(&'at self) },
            FnArg::Typed(t) => {
                if let syn::Type::Reference(r) = &mut *t.ty {
                    r.lifetime = Some(parse_quote!('at));
                }
            }
        }
    }
    let out = match &sig.output {
        ReturnType::Default => quote!(()),
        ReturnType::Type(_, t) => quote!(#t),
    };
    sig.output = parse_quote!(-> std::pin::Pin<Box<dyn std::future::Future<Output = #out> + 'at>>);
    true
}

#[proc_macro_attribute]
pub fn async_trait(_: TokenStream, item: TokenStream) -> TokenStream {
    match syn::parse_macro_input!(item as Item) {
        Item::Trait(mut t) => {
            for i in t.items.iter_mut() {
                if let TraitItem::Fn(f) = i {
                    if boxed(&mut f.sig) {
                        if let Some(b) = f.default.take() {
                            f.default = Some(parse_quote!({ Box::pin(async move #b) }));
                        }
                    }
                }
            }
            quote!(#t).into()
        }
        Item::Impl(mut t) => {
            for i in t.items.iter_mut() {
                if let ImplItem::Fn(f) = i {
                    if boxed(&mut f.sig) {
                        let b = &f.block;
                        f.block = parse_quote!({ Box::pin(async move #b) });
                    }
                }
            }
            quote!(#t).into()
        }
        x => quote!(#x).into(),
    }
}
