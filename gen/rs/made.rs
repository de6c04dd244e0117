/// Derived parsers inside each other: an enum whose groups contain argument structs that contain the enum.
mod made {
    use mc::canon::{Canon, at, flat_str};
    use structmeta::{Flag, Parse, StructMeta};
    use syn::punctuated::Punctuated;
    use syn::token::{Bracket, Paren};
    use syn::{Ident, LitInt, Token};
    #[derive(Parse)]
    pub enum Made {
        Range(LitInt, Token![..], LitInt),
        Call(#[parse(peek, any)] Ident, #[parse(peek)] #[to_tokens("(")] Paren, Args),
        List {
            #[to_tokens("[")]
            bracket: Bracket,
            #[parse(terminated)]
            items: Punctuated<Made, Token![;]>,
        },
        Less(Token![+], Option<LitInt>),
        Int(LitInt),
    }
    #[derive(StructMeta)]
    pub struct Args {
        #[struct_meta(unnamed)]
        v: Vec<Made>,
        x: Option<LitInt>,
        f: Flag,
    }
    fn t(x: &impl quote::ToTokens) -> String {
        flat_str(x.to_token_stream())
    }
    impl Canon for Made {
        fn canon(&self) -> String {
            match self {
                Made::Range(a, d, b) => [t(a), t(d), t(b)].join(" "),
                Made::Call(i, p, a) => {
                    let mut v = vec![t(i), format!("({}", at(p.span.open()))];
                    v.extend(a.v.iter().map(|x| x.canon()));
                    v.extend(a.x.iter().map(|x| x.canon()));
                    v.extend(a.f.span.map(|s| format!("f{}", at(s))));
                    v.push(format!("){}", at(p.span.close())));
                    v.join(" ")
                }
                Made::List { bracket, items } => {
                    let mut v = vec![format!("[{}", at(bracket.span.open()))];
                    for p in items.pairs() {
                        v.push(p.value().canon());
                        v.extend(p.punct().map(t));
                    }
                    v.push(format!("]{}", at(bracket.span.close())));
                    v.join(" ")
                }
                Made::Less(m, n) => [t(m)].into_iter().chain(n.as_ref().map(t)).collect::<Vec<_>>().join(" "),
                Made::Int(n) => t(n),
            }
        }
    }
}
use made::Made;
