//! Stand-in for `#[roam::service]`: the trait as implementors see it, a dispatcher and a client.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{FnArg, ItemTrait, ReturnType, TraitItem, parse_macro_input};

#[proc_macro_attribute]
pub fn service(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let t = parse_macro_input!(item as ItemTrait);
    let (vis, name, attrs) = (&t.vis, &t.ident, &t.attrs);
    let disp = format_ident!("{}Dispatcher", name);
    let client = format_ident!("{}Client", name);
    let (mut sigs, mut arms, mut calls) = (vec![], vec![], vec![]);
    for (k, i) in t.items.iter().enumerate() {
        let TraitItem::Fn(f) = i else { continue };
        let k = k as u32;
        let m = &f.sig.ident;
        let docs = &f.attrs;
        let args: Vec<_> = f.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(p) = a { Some(p) } else { None }).collect();
        let pats: Vec<_> = args.iter().map(|p| &p.pat).collect();
        let tys: Vec<_> = args.iter().map(|p| &p.ty).collect();
        let ns: Vec<_> = (0..args.len()).collect();
        let n = args.len();
        let (ret, enc, dec) = match &f.sig.output {
            ReturnType::Default => (quote!(()), quote!({ let () = r; ::roam::facet::Val::None }), quote!({ let _ = v; Ok(()) })),
            ReturnType::Type(_, ty) => (quote!(#ty), quote!(::roam::facet::Facet::to_val(&r)), quote!(<#ty as ::roam::facet::Facet>::from_val(&v).map_err(|e| ::roam::CallError::Decode(e.to_string())))),
        };
        sigs.push(quote! { #(#docs)* #[allow(async_fn_in_trait)] async fn #m(&self, cx: &::roam::Context, #(#pats: #tys),*) -> #ret; });
        arms.push(quote! {
            #k => {
                let items = ::roam::facet::seq(&args).map_err(|e| e.to_string())?;
                ::roam::facet::arity(items, #n).map_err(|e| e.to_string())?;
                let r = self.0.#m(cx, #(<#tys as ::roam::facet::Facet>::from_val(&items[#ns]).map_err(|e| e.to_string())?),*).await;
                Ok(#enc)
            }
        });
        calls.push(quote! {
            #(#docs)* pub async fn #m(&self, #(#pats: #tys),*) -> Result<#ret, ::roam::CallError> {
                let v = self.0.call(#k, ::roam::facet::Val::Seq(vec![#(::roam::facet::Facet::to_val(&#pats)),*])).await?;
                #dec
            }
        });
    }
    quote! {
        #(#attrs)* #vis trait #name { #(#sigs)* }
        #[derive(Clone)]
        #vis struct #disp<T>(T);
        impl<T: #name + 'static> #disp<T> { pub fn new(t: T) -> Self { Self(t) } }
        impl<T: #name + 'static> ::roam::Dispatcher for #disp<T> {
            async fn dispatch(&self, cx: &::roam::Context, method: u32, args: ::roam::facet::Val) -> Result<::roam::facet::Val, String> {
                match method { #(#arms)* _ => Err(format!("no method {method}")) }
            }
        }
        #[derive(Clone)]
        #vis struct #client(::roam::Handle);
        impl #client { pub fn new(h: ::roam::Handle) -> Self { Self(h) } #(#calls)* }
    }
    .into()
}
