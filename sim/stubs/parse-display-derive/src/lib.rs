use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::*;

enum Attr {
    Style(String),
    Fmt(String),
}
fn attr(l: &[Attribute]) -> Option<Attr> {
    for a in l {
        if !a.path().is_ident("display") {
            continue;
        }
        if let Ok(s) = a.parse_args::<LitStr>() {
            return Some(Attr::Fmt(s.value()));
        }
        let nv: MetaNameValue = a.parse_args().expect("display(style = ..)");
        if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = nv.value {
            return Some(Attr::Style(s.value()));
        }
    }
    None
}
fn style(s: &str, name: &str) -> String {
    match s {
        "lowercase" => name.to_lowercase(),
        "kebab-case" => {
            let mut o = String::new();
            for (i, c) in name.chars().enumerate() {
                if c.is_uppercase() && i > 0 {
                    o.push('-');
                }
                o.extend(c.to_lowercase());
            }
            o
        }
        "" => name.to_string(),
        _ => panic!("style {s}"),
    }
}
#[proc_macro_derive(Display, attributes(display, from_str))]
pub fn display(i: TokenStream) -> TokenStream {
    let i: DeriveInput = parse_macro_input!(i);
    let n = &i.ident;
    let top = attr(&i.attrs);
    let body = match &i.data {
        Data::Enum(e) => {
            let st = match &top {
                Some(Attr::Style(s)) => s.clone(),
                _ => String::new(),
            };
            let arms = e.variants.iter().map(|v| {
                let vn = &v.ident;
                match (attr(&v.attrs), v.fields.len()) {
                    (Some(Attr::Fmt(f)), 1) if f == "{0}" => quote!(#n::#vn(x) => ::std::fmt::Display::fmt(x, f),),
                    (Some(Attr::Fmt(t)), 0) => quote!(#n::#vn => f.write_str(#t),),
                    (None, 0) => {
                        let t = style(&st, &vn.to_string());
                        quote!(#n::#vn => f.write_str(#t),)
                    }
                    _ => panic!("display form"),
                }
            });
            quote!(match self { #(#arms)* })
        }
        Data::Struct(s) => {
            let Some(Attr::Fmt(f)) = top else { panic!("display on struct") };
            let names: Vec<_> = s.fields.iter().map(|x| x.ident.clone().unwrap()).collect();
            quote!({ let #n { #(#names),* } = self; f.write_fmt(format_args!(#f)) })
        }
        _ => panic!("union"),
    };
    quote!(impl ::std::fmt::Display for #n { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { #body } }).into()
}
#[proc_macro_derive(FromStr, attributes(display, from_str))]
pub fn from_str(i: TokenStream) -> TokenStream {
    let i: DeriveInput = parse_macro_input!(i);
    let n = &i.ident;
    let top = attr(&i.attrs);
    let body = match &i.data {
        Data::Enum(e) => {
            let st = match &top {
                Some(Attr::Style(s)) => s.clone(),
                _ => String::new(),
            };
            let tries = e.variants.iter().map(|v| {
                let vn = &v.ident;
                match (attr(&v.attrs), v.fields.len()) {
                    (Some(Attr::Fmt(f)), 1) if f == "{0}" => quote!(if let Ok(x) = s.parse() { return Ok(#n::#vn(x)); }),
                    (Some(Attr::Fmt(t)), 0) => quote!(if s == #t { return Ok(#n::#vn); }),
                    (None, 0) => {
                        let t = style(&st, &vn.to_string());
                        quote!(if s == #t { return Ok(#n::#vn); })
                    }
                    _ => panic!("display form"),
                }
            });
            quote!(#(#tries)* Err(::parse_display::ParseError::new()))
        }
        Data::Struct(s) => {
            // fields separated by literal text
            let Some(Attr::Fmt(f)) = top else { panic!("display on struct") };
            let names: Vec<_> = s.fields.iter().map(|x| x.ident.clone().unwrap()).collect();
            assert!(names.len() == 2);
            let sep = f.strip_prefix(&format!("{{{}}}", names[0])).and_then(|f| f.strip_suffix(&format!("{{{}}}", names[1]))).expect("two fields").to_string();
            let (a, b) = (format_ident!("{}", names[0]), format_ident!("{}", names[1]));
            quote!(
                let (x, y) = s.split_once(#sep).ok_or(::parse_display::ParseError::new())?;
                Ok(#n { #a: x.parse().map_err(|_| ::parse_display::ParseError::new())?, #b: y.parse().map_err(|_| ::parse_display::ParseError::new())? })
            )
        }
        _ => panic!("union"),
    };
    quote!(impl ::std::str::FromStr for #n { type Err = ::parse_display::ParseError; fn from_str(s: &str) -> ::std::result::Result<Self, Self::Err> { #body } }).into()
}
