//! Token printing: one statement per line, so verifier messages have useful line numbers.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: TokenStream) -> String {
    let mut p = P { out: String::new(), ind: 0, joint: true };
    p.ts(ts);
    p.out
}

struct P { out: String, ind: usize, joint: bool }

impl P {
    fn nl(&mut self) {
        while self.out.ends_with(' ') { self.out.pop(); }
        self.out.push('\n');
        for _ in 0..self.ind { self.out.push_str("    "); }
        self.joint = true;
    }
    fn sp(&mut self) { if !self.joint { self.out.push(' '); } }
    fn ts(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let n = v.len();
        for (i, t) in v.into_iter().enumerate() {
            match t {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::Brace {
                        self.sp();
                        self.out.push_str(o);
                        self.ind += 1;
                        let empty = g.stream().is_empty();
                        if !empty { self.nl(); }
                        self.ts(g.stream());
                        self.ind -= 1;
                        if !empty { self.nl(); }
                        self.out.push_str(c);
                        self.joint = false;
                        if i + 1 < n { self.nl(); }
                    } else {
                        self.out.push_str(o);
                        self.joint = true;
                        self.ts(g.stream());
                        self.out.push_str(c);
                        self.joint = false;
                    }
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if c == '!' || c == '.' || c == '?' || c == ',' || c == ';' || c == '#' {
                        self.out.push(c);
                    } else {
                        self.sp();
                        self.out.push(c);
                    }
                    self.joint = p.spacing() == Spacing::Joint || c == '.' || c == '!' || c == '#' || c == '&' || c == '*' && false;
                    if c == ';' { if i + 1 < n { self.nl(); } }
                    if c == '&' && p.spacing() == Spacing::Alone { self.joint = true; }
                }
                TokenTree::Ident(id) => { self.sp(); self.out.push_str(&id.to_string()); self.joint = false; }
                TokenTree::Literal(l) => { self.sp(); self.out.push_str(&l.to_string()); self.joint = false; }
            }
        }
    }
}
