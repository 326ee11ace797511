//! Comparison of a parsed scene (through its Debug rendering) with the model's.
//!
//! Equal strings are equal scenes. When the strings differ both are read back
//! into trees and compared structurally, projected on what the property is
//! about; field names and the order of named fields do not matter.

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Atom(String),
    Str(String),
    List(Vec<Node>),
    /// name (empty for a tuple), children
    Tuple(String, Vec<Node>),
    Struct(String, Vec<(String, Node)>),
}

struct Rd<'a> {
    s: &'a [u8],
    i: usize,
}

impl<'a> Rd<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b',') {
            self.i += 1;
        }
    }
    fn list(&mut self, close: u8) -> Option<Vec<Node>> {
        let mut v = vec![];
        loop {
            self.ws();
            if *self.s.get(self.i)? == close {
                self.i += 1;
                return Some(v);
            }
            v.push(self.node()?);
        }
    }
    fn ident(&mut self) -> String {
        let a = self.i;
        while self.i < self.s.len() && !b" ,()[]{}:\"".contains(&self.s[self.i]) {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[a..self.i]).into_owned()
    }
    fn node(&mut self) -> Option<Node> {
        self.ws();
        match *self.s.get(self.i)? {
            b'"' => {
                let a = self.i;
                self.i += 1;
                loop {
                    match *self.s.get(self.i)? {
                        b'\\' => self.i += 2,
                        b'"' => {
                            self.i += 1;
                            break;
                        }
                        _ => self.i += 1,
                    }
                }
                Some(Node::Str(String::from_utf8_lossy(&self.s[a..self.i]).into_owned()))
            }
            b'[' => {
                self.i += 1;
                Some(Node::List(self.list(b']')?))
            }
            b'(' => {
                self.i += 1;
                Some(Node::Tuple(String::new(), self.list(b')')?))
            }
            _ => {
                let id = self.ident();
                if id.is_empty() {
                    return None;
                }
                let save = self.i;
                match self.s.get(self.i) {
                    Some(b'(') => {
                        self.i += 1;
                        return Some(Node::Tuple(id, self.list(b')')?));
                    }
                    Some(b' ') => {
                        self.ws();
                        if self.s.get(self.i) == Some(&b'{') {
                            self.i += 1;
                            let mut v = vec![];
                            loop {
                                self.ws();
                                if *self.s.get(self.i)? == b'}' {
                                    self.i += 1;
                                    return Some(Node::Struct(id, v));
                                }
                                let f = self.ident();
                                if self.s.get(self.i) != Some(&b':') {
                                    return None;
                                }
                                self.i += 1;
                                v.push((f, self.node()?));
                            }
                        }
                        self.i = save;
                    }
                    _ => (),
                }
                Some(Node::Atom(id))
            }
        }
    }
}

pub fn read(s: &str) -> Option<Node> {
    let mut r = Rd { s: s.as_bytes(), i: 0 };
    let n = r.node()?;
    r.ws();
    if r.i == r.s.len() {
        Some(n)
    } else {
        None
    }
}

/// What a property looks at.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Proj {
    /// everything but positions
    NoPos,
    /// kinds, types, names, nesting, order: neither positions nor parameters
    Shape,
    /// strings only (and the shape that carries them)
    Strings,
    /// numbers only
    Numbers,
    /// positions only, when the shapes agree
    Pos,
    /// everything
    All,
}

fn float_like(s: &str) -> Option<f64> {
    let t = s.strip_prefix('-').unwrap_or(s);
    if t.starts_with(|c: char| c.is_ascii_digit()) || t == "inf" || t == "NaN" {
        s.parse::<f64>().ok()
    } else {
        None
    }
}

fn strip(n: &Node, p: Proj) -> Node {
    match n {
        Node::Struct(name, f) => {
            if name == "Pos" && p != Proj::Pos && p != Proj::All {
                return Node::Atom("_".into());
            }
            if name == "ParamSet" && p == Proj::Shape {
                return Node::Atom("_".into());
            }
            let mut v: Vec<(String, Node)> = f.iter().map(|(k, x)| (k.clone(), if name == "Pos" { x.clone() } else { strip(x, p) })).collect();
            // a parameter and a position are compared by the order of their fields,
            // the others by field name
            if name != "Pos" && name != "Param" {
                v.sort_by(|a, b| a.0.cmp(&b.0));
            } else {
                for x in v.iter_mut() {
                    x.0.clear();
                }
            }
            Node::Struct(name.clone(), v)
        }
        Node::Tuple(name, v) => Node::Tuple(name.clone(), v.iter().map(|x| strip(x, p)).collect()),
        Node::List(v) => Node::List(v.iter().map(|x| strip(x, p)).collect()),
        Node::Str(s) => match p {
            Proj::Numbers | Proj::Pos => Node::Atom("_".into()),
            _ => Node::Str(s.clone()),
        },
        Node::Atom(a) => match p {
            Proj::Pos => Node::Atom("_".into()),
            Proj::Strings if float_like(a).is_some() => Node::Atom("_".into()),
            _ => Node::Atom(a.clone()),
        },
    }
}

fn same(a: &Node, b: &Node, tol: f64) -> bool {
    match (a, b) {
        (Node::Atom(x), Node::Atom(y)) => {
            if x == y {
                return true;
            }
            if tol > 0.0 {
                if let (Some(u), Some(v)) = (float_like(x), float_like(y)) {
                    return (u.is_infinite() || v.is_infinite()) && (u - v).is_nan()
                        || (u - v).abs() <= tol * u.abs().max(v.abs())
                        || u.abs().max(v.abs()) < 1e-37
                        || u.abs().min(v.abs()) > 3e38;
                }
            }
            false
        }
        (Node::Str(x), Node::Str(y)) => x == y,
        (Node::List(x), Node::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q, tol)),
        (Node::Tuple(n, x), Node::Tuple(m, y)) => {
            n == m && x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q, tol))
        }
        (Node::Struct(n, x), Node::Struct(m, y)) => {
            n == m && x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0 && same(&p.1, &q.1, tol))
        }
        _ => false,
    }
}

fn strip_all_pos(n: &Node) -> Node {
    strip(&strip(n, Proj::Pos), Proj::NoPos)
}

/// Does the actual rendering agree with the expected one as far as `p` can see?
pub fn agree(expected: &str, actual: &str, p: Proj, tol: f64) -> bool {
    if expected == actual {
        return true;
    }
    let (Some(e), Some(a)) = (read(expected), read(actual)) else { return false };
    if p == Proj::Pos && !same(&strip_all_pos(&e), &strip_all_pos(&a), 0.0) {
        // different scenes: not a question of positions
        return true;
    }
    same(&strip(&e, p), &strip(&a, p), tol)
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn reads() {
        let s = r#"([Identity(Pos { r: 1, c: 2 }), Rotate(Pos { r: 1, c: 1 }, -1.5, Vector3 { x: 1.0, y: 0.0, z: inf })], World(BlockStruct { pos: Pos { r: 3, c: 4 }, children: [] }))"#;
        assert!(read(s).is_some());
        assert!(agree(s, &s.replace("c: 4", "c: 5"), Proj::NoPos, 0.0));
        assert!(!agree(s, &s.replace("c: 4", "c: 5"), Proj::Pos, 0.0));
        assert!(!agree(s, &s.replace("c: 4", "c: 5"), Proj::All, 0.0));
        assert!(agree(s, &s.replace("-1.5", "-1.25"), Proj::Pos, 0.0) == true);
        assert!(!agree(s, &s.replace("-1.5", "-1.25"), Proj::NoPos, 0.0));
        assert!(agree(s, &s.replace("r: ", "row: ").replace("c: ", "col: "), Proj::All, 0.0));
    }
}
