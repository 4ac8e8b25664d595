use proc_macro::TokenStream;
macro_rules! nothing { ($($n:ident $f:ident),*) => { $(
    #[proc_macro_derive($n, attributes(clap, arg, command, group, value))]
    pub fn $f(_: TokenStream) -> TokenStream { TokenStream::new() }
)* } }
nothing!(Parser parser, Args args, Subcommand subcommand, ValueEnum value_enum);
