//! Stand-in for facet's derive: generates conversions to and from `facet::Val`.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{Data, DeriveInput, Expr, Fields, Lit, Meta, parse_macro_input, punctuated::Punctuated, token::Comma};

#[derive(Default)]
struct Opts {
    transparent: bool,
    cow: bool,
    error: bool,
    proxy: Option<syn::Path>,
    docs: Vec<String>,
}

fn opts(attrs: &[syn::Attribute]) -> Opts {
    let mut o = Opts::default();
    for a in attrs {
        if a.path().is_ident("doc") {
            if let Meta::NameValue(nv) = &a.meta
                && let Expr::Lit(l) = &nv.value
                && let Lit::Str(s) = &l.lit
            {
                o.docs.push(s.value().trim().to_string());
            }
            continue;
        }
        if !a.path().is_ident("facet") {
            continue;
        }
        let Ok(items) = a.parse_args_with(Punctuated::<Meta, Comma>::parse_terminated) else { continue };
        for m in items {
            if m.path().is_ident("transparent") {
                o.transparent = true
            } else if m.path().is_ident("cow") {
                o.cow = true
            } else if m.path().is_ident("derive") {
                if let Meta::List(l) = &m
                    && l.tokens.to_string().contains("Error")
                {
                    o.error = true
                }
            } else if m.path().is_ident("proxy")
                && let Meta::NameValue(nv) = &m
                && let Expr::Path(p) = &nv.value
            {
                o.proxy = Some(p.path.clone())
            }
        }
    }
    o
}

fn enc(o: &Opts, e: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    match &o.proxy {
        Some(p) => quote!({ let proxied: #p = ::core::convert::From::from(#e); ::facet::Facet::to_val(&proxied) }),
        None => quote!(::facet::Facet::to_val(#e)),
    }
}
fn dec(o: &Opts, ty: &syn::Type, e: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    match &o.proxy {
        Some(p) => quote!(<#ty as ::core::convert::From<#p>>::from(<#p as ::facet::Facet>::from_val(#e)?)),
        None => quote!(<#ty as ::facet::Facet>::from_val(#e)?),
    }
}

fn fields(f: &Fields, make: proc_macro2::TokenStream) -> (proc_macro2::TokenStream, proc_macro2::TokenStream, proc_macro2::TokenStream) {
    // (pattern, list of values, constructor reading `items`)
    match f {
        Fields::Unit => (quote!(), quote!(vec![]), quote!({ ::facet::arity(items, 0)?; #make })),
        Fields::Named(n) => {
            let names: Vec<_> = n.named.iter().map(|f| f.ident.clone().unwrap()).collect();
            let encs: Vec<_> = n.named.iter().zip(&names).map(|(f, i)| enc(&opts(&f.attrs), quote!(#i))).collect();
            let decs: Vec<_> = n.named.iter().enumerate().map(|(k, f)| dec(&opts(&f.attrs), &f.ty, quote!(&items[#k]))).collect();
            let len = names.len();
            (quote!({ #(#names),* }), quote!(vec![#(#encs),*]), quote!({ ::facet::arity(items, #len)?; #make { #(#names: #decs),* } }))
        }
        Fields::Unnamed(u) => {
            let names: Vec<_> = (0..u.unnamed.len()).map(|i| format_ident!("f{}", i)).collect();
            let encs: Vec<_> = u.unnamed.iter().zip(&names).map(|(f, i)| enc(&opts(&f.attrs), quote!(#i))).collect();
            let decs: Vec<_> = u.unnamed.iter().enumerate().map(|(k, f)| dec(&opts(&f.attrs), &f.ty, quote!(&items[#k]))).collect();
            let len = names.len();
            (quote!(( #(#names),* )), quote!(vec![#(#encs),*]), quote!({ ::facet::arity(items, #len)?; #make ( #(#decs),* ) }))
        }
    }
}

#[proc_macro_derive(Facet, attributes(facet))]
pub fn derive(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let o = opts(&d.attrs);
    let name = &d.ident;
    let (ig, tg, wc) = d.generics.split_for_impl();
    let mut extra = quote!();
    let (to, from) = match &d.data {
        Data::Struct(s) if o.transparent => {
            let f = s.fields.iter().next().unwrap();
            let e = enc(&opts(&f.attrs), quote!(&self.0));
            let r = dec(&opts(&f.attrs), &f.ty, quote!(v));
            (e, quote!(Ok(Self(#r))))
        }
        Data::Struct(s) => {
            let (pat, vals, make) = fields(&s.fields, quote!(Self));
            (quote!(let Self #pat = self; ::facet::Val::Seq(#vals)), quote!(let items = ::facet::seq(v)?; Ok(#make)))
        }
        Data::Enum(e) if o.cow => {
            let arms = e.variants.iter().map(|v| {
                let i = &v.ident;
                quote!(Self::#i(s) => { let s: &str = s; ::facet::Val::Str(s.to_string()) })
            });
            let owned = e.variants.iter().find(|v| v.ident == "Owned").expect("cow enum with an Owned variant");
            let ty = &owned.fields.iter().next().unwrap().ty;
            (quote!(match self { #(#arms),* }), quote!(Ok(Self::Owned(<#ty as ::core::convert::From<String>>::from(<String as ::facet::Facet>::from_val(v)?)))))
        }
        Data::Enum(e) => {
            let mut to = vec![];
            let mut from = vec![];
            let mut show = vec![];
            for (k, v) in e.variants.iter().enumerate() {
                let i = &v.ident;
                let k = k as u32;
                let (pat, vals, make) = fields(&v.fields, quote!(Self::#i));
                to.push(quote!(Self::#i #pat => ::facet::Val::Variant(#k, #vals)));
                from.push(quote!(#k => Ok(#make)));
                if o.error {
                    let text = opts(&v.attrs).docs.join(" ");
                    show.push(quote!(Self::#i #pat => write!(f, #text)));
                }
            }
            if o.error {
                extra = quote! {
                    impl #ig ::core::fmt::Display for #name #tg #wc {
                        #[allow(unused_variables)]
                        fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                            match self { #(#show),* }
                        }
                    }
                    impl #ig ::std::error::Error for #name #tg #wc {}
                };
            }
            (quote!(match self { #(#to),* }), quote! {
                let (k, items) = ::facet::variant(v)?;
                match k { #(#from,)* _ => Err(::facet::Error(format!("no variant {k}"))) }
            })
        }
        Data::Union(_) => unimplemented!(),
    };
    quote! {
        impl #ig ::facet::Facet for #name #tg #wc {
            #[allow(unused_variables, clippy::all)]
            fn to_val(&self) -> ::facet::Val { #to }
            #[allow(unused_variables, clippy::all)]
            fn from_val(v: &::facet::Val) -> ::core::result::Result<Self, ::facet::Error> { #from }
        }
        #extra
    }
    .into()
}
