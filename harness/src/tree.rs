//! Generic syntax tree: what the oracle predicts and what the parser's AST is converted to.
//! Absent optional fields and empty lists are simply not stored.

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Loc((usize, usize)),
    Str(Vec<u8>),
    Num(u64),
    Node(Box<T>),
    List(Vec<T>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct T {
    pub kind: &'static str,
    pub f: Vec<(&'static str, V)>,
}

/// Placeholder for a here-document whose body is only emitted later.
pub const DEFER: &str = "@defer";

impl T {
    pub fn new(kind: &'static str) -> T {
        T { kind, f: vec![] }
    }
    pub fn put(&mut self, name: &'static str, v: V) {
        self.f.push((name, v))
    }
    pub fn l(mut self, name: &'static str, loc: (usize, usize)) -> T {
        self.f.push((name, V::Loc(loc)));
        self
    }
    pub fn ol(mut self, name: &'static str, loc: Option<(usize, usize)>) -> T {
        if let Some(l) = loc {
            self.f.push((name, V::Loc(l)));
        }
        self
    }
    pub fn s(mut self, name: &'static str, s: impl AsRef<[u8]>) -> T {
        self.f.push((name, V::Str(s.as_ref().to_vec())));
        self
    }
    pub fn os(mut self, name: &'static str, s: Option<impl AsRef<[u8]>>) -> T {
        if let Some(s) = s {
            self.f.push((name, V::Str(s.as_ref().to_vec())));
        }
        self
    }
    pub fn n(mut self, name: &'static str, t: T) -> T {
        self.f.push((name, V::Node(Box::new(t))));
        self
    }
    pub fn on(mut self, name: &'static str, t: Option<T>) -> T {
        if let Some(t) = t {
            self.f.push((name, V::Node(Box::new(t))));
        }
        self
    }
    pub fn li(mut self, name: &'static str, l: Vec<T>) -> T {
        if !l.is_empty() {
            self.f.push((name, V::List(l)));
        }
        self
    }
    pub fn num(mut self, name: &'static str, n: u64) -> T {
        self.f.push((name, V::Num(n)));
        self
    }
    pub fn e(self, loc: (usize, usize)) -> T {
        self.l("expression_l", loc)
    }
    pub fn get(&self, name: &str) -> Option<&V> {
        self.f.iter().find(|x| x.0 == name).map(|x| &x.1)
    }
    pub fn get_mut(&mut self, name: &str) -> Option<&mut V> {
        self.f.iter_mut().find(|x| x.0 == name).map(|x| &mut x.1)
    }
    pub fn loc(&self, name: &str) -> Option<(usize, usize)> {
        match self.get(name) {
            Some(V::Loc(l)) => Some(*l),
            _ => None,
        }
    }
    /// Location of the whole node. Panics on a node without one (a harness bug).
    pub fn ex(&self) -> (usize, usize) {
        self.loc("expression_l").unwrap_or_else(|| panic!("no expression_l in {:?}", self))
    }
    pub fn ex_or_default(&self) -> (usize, usize) {
        self.loc("expression_l").unwrap_or((0, 0))
    }
    pub fn set_loc(&mut self, name: &'static str, loc: (usize, usize)) {
        match self.get_mut(name) {
            Some(v) => *v = V::Loc(loc),
            None => self.put(name, V::Loc(loc)),
        }
    }
    pub fn strval(&self, name: &str) -> Option<&[u8]> {
        match self.get(name) {
            Some(V::Str(s)) => Some(s),
            _ => None,
        }
    }
    pub fn node(&self, name: &str) -> Option<&T> {
        match self.get(name) {
            Some(V::Node(s)) => Some(s),
            _ => None,
        }
    }
    pub fn list(&self, name: &str) -> &[T] {
        match self.get(name) {
            Some(V::List(s)) => s,
            _ => &[],
        }
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a T)) {
        f(self);
        for (_, v) in &self.f {
            match v {
                V::Node(n) => n.walk(f),
                V::List(l) => l.iter().for_each(|n| n.walk(f)),
                _ => {}
            }
        }
    }
    pub fn walk_mut(&mut self, f: &mut dyn FnMut(&mut T)) {
        f(self);
        for (_, v) in &mut self.f {
            match v {
                V::Node(n) => n.walk_mut(f),
                V::List(l) => l.iter_mut().for_each(|n| n.walk_mut(f)),
                _ => {}
            }
        }
    }
    pub fn count(&self) -> usize {
        let mut n = 0;
        self.walk(&mut |_| n += 1);
        n
    }
    /// S-expression with locations.
    pub fn show(&self) -> String {
        let mut s = format!("({}", self.kind);
        for (k, v) in &self.f {
            match v {
                V::Loc(l) => s += &format!(" {}@{}-{}", k.trim_end_matches("_l").replace("expression", ""), l.0, l.1),
                V::Str(b) => s += &format!(" {}={:?}", k, show(b)),
                V::Num(n) => s += &format!(" {}={}", k, n),
                V::Node(n) => s += &format!(" {}:{}", k, n.show()),
                V::List(l) => s += &format!(" {}:[{}]", k, l.iter().map(|n| n.show()).collect::<Vec<_>>().join(" ")),
            }
        }
        s + ")"
    }
    /// S-expression without locations.
    pub fn sexp(&self) -> String {
        let mut s = format!("({}", self.kind);
        for (k, v) in &self.f {
            match v {
                V::Loc(_) => {}
                V::Str(b) => s += &format!(" {}={:?}", k, show(b)),
                V::Num(n) => s += &format!(" {}={}", k, n),
                V::Node(n) => s += &format!(" {}:{}", k, n.sexp()),
                V::List(l) => {
                    s += &format!(" {}:[", k);
                    for (i, n) in l.iter().enumerate() {
                        if i > 0 {
                            s += " ";
                        }
                        s += &n.sexp();
                    }
                    s += "]";
                }
            }
        }
        s + ")"
    }
}

pub fn show(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => s.to_string(),
        Err(_) => b.iter().map(|c| if c.is_ascii_graphic() || *c == b' ' { (*c as char).to_string() } else { format!("\\x{:02x}", c) }).collect(),
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Struct,
    Locs,
}

/// First difference between the predicted and the actual tree, or None.
/// `Struct` ignores locations. `Locs` reports only location differences, and stops descending
/// where the structure differs.
pub fn diff(exp: &T, act: &T, mode: Mode) -> Option<String> {
    diff_at(exp, act, mode, &mut exp.kind.to_string())
}

fn diff_at(exp: &T, act: &T, mode: Mode, path: &mut String) -> Option<String> {
    if exp.kind != act.kind {
        return match mode {
            Mode::Struct => Some(format!("at {}: expected {} but parsed {}", path, exp.sexp(), act.sexp())),
            Mode::Locs => None,
        };
    }
    let names = exp.f.iter().map(|x| x.0).chain(act.f.iter().map(|x| x.0).filter(|n| exp.get(n).is_none()));
    for name in names {
        let (e, a) = (exp.get(name), act.get(name));
        let is_loc = matches!(e, Some(V::Loc(_))) || matches!(a, Some(V::Loc(_)));
        if is_loc {
            if mode == Mode::Locs && e != a {
                return Some(format!("at {}.{}: expected location {} but got {}", path, name, sl(e), sl(a)));
            }
            continue;
        }
        match (e, a) {
            (Some(V::Node(x)), Some(V::Node(y))) => {
                let keep = path.len();
                path.push_str(&format!(".{}:{}", name, x.kind));
                let d = diff_at(x, y, mode, path);
                path.truncate(keep);
                if d.is_some() {
                    return d;
                }
            }
            (Some(V::List(x)), Some(V::List(y))) => {
                if x.len() != y.len() {
                    if mode == Mode::Struct {
                        return Some(format!("at {}.{}: expected {} items but got {}: expected {} but parsed {}", path, name, x.len(), y.len(), exp.sexp(), act.sexp()));
                    }
                    continue;
                }
                for (i, (x, y)) in x.iter().zip(y).enumerate() {
                    let keep = path.len();
                    path.push_str(&format!(".{}[{}]:{}", name, i, x.kind));
                    let d = diff_at(x, y, mode, path);
                    path.truncate(keep);
                    if d.is_some() {
                        return d;
                    }
                }
            }
            _ if e == a => {}
            _ => {
                if mode == Mode::Struct {
                    return Some(format!("at {}.{}: expected {} but got {}", path, name, sv(e), sv(a)));
                }
            }
        }
    }
    None
}

fn sl(v: Option<&V>) -> String {
    match v {
        Some(V::Loc((a, b))) => format!("{}...{}", a, b),
        None => "none".into(),
        Some(o) => format!("{:?}", o),
    }
}

fn sv(v: Option<&V>) -> String {
    match v {
        Some(V::Str(b)) => format!("{:?}", show(b)),
        Some(V::Num(n)) => n.to_string(),
        Some(V::Node(n)) => n.sexp(),
        Some(V::List(l)) => format!("[{}]", l.iter().map(|x| x.sexp()).collect::<Vec<_>>().join(" ")),
        Some(V::Loc(l)) => format!("{:?}", l),
        None => "nothing".into(),
    }
}
