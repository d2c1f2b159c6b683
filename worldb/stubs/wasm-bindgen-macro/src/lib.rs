use proc_macro::TokenStream;
/// Exported functions stay ordinary functions.
#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
    item
}
