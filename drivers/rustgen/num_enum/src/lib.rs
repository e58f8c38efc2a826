// Stands in for the num_enum crate, which is not available offline: derives
// TryFrom<u32> for a fieldless enum of representation u32.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_derive(TryFromPrimitive)]
pub fn derive(input: TokenStream) -> TokenStream {
    let mut name = String::new();
    let mut arms = String::new();
    let mut was_enum = false;
    for t in input {
        match t {
            TokenTree::Ident(i) if was_enum => {
                name = i.to_string();
                was_enum = false;
            }
            TokenTree::Ident(i) => was_enum = i.to_string() == "enum",
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                for t in g.stream() {
                    if let TokenTree::Ident(v) = t {
                        arms += &format!("x if x == {name}::{v} as u32 => Ok({name}::{v}),\n");
                    }
                }
            }
            _ => {}
        }
    }
    format!("impl ::core::convert::TryFrom<u32> for {name} {{ type Error = u32; fn try_from(x: u32) -> Result<Self, u32> {{ match x {{ {arms} _ => Err(x) }} }} }}").parse().unwrap()
}
