//! Verification stub: tracing spans have no effect.
use proc_macro::TokenStream;

#[proc_macro_attribute]
pub fn tracing_span(_attr: TokenStream, item: TokenStream) -> TokenStream {
    item
}
