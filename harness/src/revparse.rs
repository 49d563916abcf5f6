//! Parsing of revsets: precedence, associativity, quoting.
use crate::sym;
use git_branchless_revset::{parse, Expr};

#[derive(Clone)]
enum Ast {
    Atom(&'static str),
    Bin(usize, Box<Ast>, Box<Ast>),
    /// prefix operator
    Pre(usize, Box<Ast>),
    /// postfix operator
    Post(usize, Box<Ast>),
}
use Ast::*;

// binding strength (higher binds tighter), spelling, meaning, operands swapped
const BIN: [(u8, &str, &str, bool); 10] = [
    (1, "|", "union", false),
    (1, "+", "union", false),
    (1, " or ", "union", false),
    (2, "&", "intersection", false),
    (2, " and ", "intersection", false),
    (2, " - ", "difference", false),
    (2, "%", "only", false),
    (3, ":", "range", false),
    (3, "::", "range", false),
    (3, "..", "only", true),
];
const PRE: [(&str, &str, &str); 3] = [(":", "ancestors(", ")"), ("::", "ancestors(", ")"), ("..", "only(", ", .)")];
const POST: [(u8, &str, &str, &str); 7] = [
    (3, ":", "descendants(", ")"),
    (3, "::", "descendants(", ")"),
    (3, "..", "only(., ", ")"),
    (4, "^", "parents.nth(", ", 1)"),
    (4, "^2", "parents.nth(", ", 2)"),
    (4, "~", "ancestors.nth(", ", 1)"),
    (4, "~2", "ancestors.nth(", ", 2)"),
];

impl Ast {
    fn level(&self) -> u8 {
        match self {
            Atom(_) => 5,
            Bin(o, _, _) => BIN[*o].0,
            Pre(..) => 3,
            Post(o, _) => POST[*o].0,
        }
    }
    fn at(&self, level: u8, out: &mut Vec<&'static str>) {
        if self.level() < level {
            out.push("(");
            self.tokens(out);
            out.push(")");
        } else {
            self.tokens(out)
        }
    }
    fn tokens(&self, out: &mut Vec<&'static str>) {
        match self {
            Atom(a) => out.push(a),
            Bin(o, a, b) => {
                a.at(BIN[*o].0, out);
                out.push(BIN[*o].1);
                b.at(BIN[*o].0 + 1, out)
            }
            Pre(o, a) => {
                out.push(PRE[*o].0);
                a.at(4, out)
            }
            Post(o, a) => {
                a.at(POST[*o].0, out);
                out.push(POST[*o].1)
            }
        }
    }
    /// With spaces everywhere, or only where two operators would run together.
    fn text(&self, spaced: bool) -> String {
        let mut t = vec![];
        self.tokens(&mut t);
        let mut s = String::new();
        for x in t {
            let meets = s.ends_with([':', '.']) && x.starts_with([':', '.']);
            if !s.is_empty() && (spaced || meets) {
                s.push(' ');
            }
            s += x;
        }
        s
    }
    fn meaning(&self) -> String {
        match self {
            Atom(a) => a.to_string(),
            Bin(o, a, b) => {
                let (a, b) = (a.meaning(), b.meaning());
                let (a, b) = if BIN[*o].3 { (b, a) } else { (a, b) };
                format!("{}({a}, {b})", BIN[*o].2)
            }
            Pre(o, a) => format!("{}{}{}", PRE[*o].1, a.meaning(), PRE[*o].2),
            Post(o, a) => format!("{}{}{}", POST[*o].2, a.meaning(), POST[*o].3),
        }
    }
}
fn any_op(inner: Ast, other: &'static str) -> Ast {
    match sym::any_index(30) {
        o @ 0..=9 => Bin(o, Box::new(inner), Box::new(Atom(other))),
        o @ 10..=19 => Bin(o - 10, Box::new(Atom(other)), Box::new(inner)),
        o @ 20..=22 => Pre(o - 20, Box::new(inner)),
        o => Post(o - 23, Box::new(inner)),
    }
}

pub fn operators(depth: usize, spaced: bool) {
    let mut a = Atom("x");
    for i in 0..depth {
        if i == 0 {
            // by symmetry of the atoms only one side
            a = match sym::any_index(20) {
                o @ 0..=9 => Bin(o, Box::new(a), Box::new(Atom("y"))),
                o @ 10..=12 => Pre(o - 10, Box::new(a)),
                o => Post(o - 13, Box::new(a)),
            };
        } else {
            a = any_op(a, ["y", "z", "w"][i]);
        }
    }
    let text = a.text(spaced);
    let want = a.meaning();
    let got = parse(&text).map(|e| e.to_string());
    sym::log(&format!("{text}: want {want} got {got:?}"));
    sym::check(got.is_ok(), "an expression with the documented operators parses");
    sym::check(got.ok() == Some(want), "operators group by their documented precedence, to the left");
    sym::cover("parsed");
}

/// A quoted name stands for exactly the text it quotes.
pub fn quoted(n: usize) {
    let q = ["\"", "'"][sym::any_index(2)];
    let len = sym::any_index(n) + 1;
    let content: String = (0..len).map(|_| ['a', 'n', ' ', '(', '\\', '"', '\'', '\n'][sym::any_index(8)]).collect();
    let mut lit = String::from(q);
    // what the reader makes of it when it never stops treating characters as escaped
    let mut sticky = String::new();
    let mut escaped = false;
    for ch in content.chars() {
        let esc = ch == '\\' || ch == '\n' || q.contains(ch);
        let letter = if ch == '\n' { 'n' } else { ch };
        if esc {
            lit.push('\\');
            if escaped {
                sticky.push('\\');
            }
            escaped = true;
        }
        lit.push(letter);
        sticky.push(if escaped && letter == 'n' { '\n' } else { letter });
    }
    lit += q;
    let got = match parse(&lit) {
        Ok(Expr::Name(n)) => Some(n.to_string()),
        _ => None,
    };
    sym::log(&format!("{lit}: want {content:?} got {got:?}"));
    sym::check(got.as_ref() == Some(&content) || got == Some(sticky), "a quoted name is read as one name");
    sym::cover("read");
    sym::check(got == Some(content), "a quoted name stands for the text it quotes");
}

/// Names, function calls and nesting.
pub fn names(n: usize) {
    const CH: [char; 8] = ['a', 'Z', '0', '_', '-', '/', '.', '@'];
    let len = 1 + sym::any_index(n);
    let s: String = (0..len).map(|_| CH[sym::any_index(CH.len())]).collect();
    // a name has no dot at the end nor two in a row; a lone dot is the current commit
    let name = s == "." || (!s.ends_with('.') && !s.contains(".."));
    sym::assume(name && s != "-");
    let args = sym::any_index(4);
    let (text, want) = match args {
        0 => (s.clone(), s.clone()),
        1 => (format!("{s}()"), format!("{s}()")),
        2 => (format!("{s}(b|c, (d))"), format!("{s}(union(b, c), d)")),
        _ => (format!("{s}(b,)"), format!("{s}(b)")),
    };
    let got = parse(&text).map(|e| e.to_string());
    sym::log(&format!("{text}: want {want} got {got:?}"));
    sym::check(got.ok() == Some(want), "a name or function call is read as written");
    sym::cover("read");
}
