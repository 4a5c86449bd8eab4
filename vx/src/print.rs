//! Prints token streams one statement per line; loop marks become lines of their own.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree as TT};

pub fn print(ts: TokenStream, ind: usize) -> String {
    let mut p = P { out: String::new(), ind, bol: true, glue: false };
    p.stream(ts, false);
    p.out
}

struct P {
    out: String,
    ind: usize,
    bol: bool,
    glue: bool,
}

impl P {
    fn word(&mut self, s: &str) {
        if self.bol {
            for _ in 0..self.ind {
                self.out.push_str("  ");
            }
            self.bol = false;
        } else if !self.glue {
            self.out.push(' ');
        }
        self.out.push_str(s);
        self.glue = false;
    }
    fn nl(&mut self) {
        if !self.bol {
            self.out.push('\n');
            self.bol = true;
        }
        self.glue = false;
    }
    fn stream(&mut self, ts: TokenStream, inparen: bool) {
        let v: Vec<TT> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TT::Ident(id) if id == "vx_mark" => {
                    if let Some(TT::Group(g)) = v.get(i + 2) {
                        let a = g.stream().to_string().replace(' ', "");
                        let mut it = a.split(',');
                        let (k, n) = (it.next().unwrap().to_string(), it.next().unwrap().to_string());
                        self.nl();
                        self.word(&format!("//@@ {k} {n}"));
                        self.nl();
                        i += 3;
                        if let Some(TT::Punct(p)) = v.get(i) {
                            if p.as_char() == ';' {
                                i += 1;
                            }
                        }
                        continue;
                    }
                    self.word("vx_mark");
                }
                TT::Ident(id) => self.word(&id.to_string()),
                TT::Literal(l) => self.word(&l.to_string()),
                TT::Punct(p) => {
                    let c = p.as_char();
                    if matches!(c, ',' | ';' | '.' | '?') {
                        self.glue = true;
                    }
                    self.word(&c.to_string());
                    if p.spacing() == Spacing::Joint || c == '\'' || c == '.' {
                        self.glue = true;
                    }
                    if c == ';' && !inparen {
                        self.nl();
                    }
                }
                TT::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        self.word("{");
                        self.ind += 1;
                        self.nl();
                        self.stream(g.stream(), false);
                        self.nl();
                        self.ind -= 1;
                        self.word("}");
                        let cont = matches!(v.get(i + 1), Some(TT::Punct(_)))
                            || matches!(v.get(i + 1), Some(TT::Ident(x)) if x == "else");
                        if !cont && !inparen {
                            self.nl();
                        }
                    }
                    Delimiter::None => self.stream(g.stream(), inparen),
                    d => {
                        let (o, c) = if d == Delimiter::Parenthesis { ("(", ")") } else { ("[", "]") };
                        self.glue = i > 0 && matches!(&v[i - 1], TT::Ident(x) if !matches!(x.to_string().as_str(), "in" | "return" | "if" | "while" | "match" | "let" | "mut" | "for" | "as"));
                        self.word(o);
                        self.glue = true;
                        self.stream(g.stream(), true);
                        if self.bol {
                            self.word(c);
                        } else {
                            self.glue = true;
                            self.word(c);
                        }
                    }
                },
            }
            i += 1;
        }
    }
}
