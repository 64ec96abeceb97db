//! trees of source programs, and a reader for the printed form.  The reader follows the grammar
//! of compiler/src/parser.rs (precedence, literals, escapes); it does not use the printing code.
use redscript::ast::*;

#[derive(Clone, PartialEq)]
pub struct T(pub String, pub Vec<T>);

impl std::fmt::Debug for T {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.1.is_empty() {
            return write!(f, "{}", self.0);
        }
        write!(f, "({}", self.0)?;
        for x in &self.1 {
            write!(f, " {x:?}")?;
        }
        write!(f, ")")
    }
}

pub fn leaf(s: impl Into<String>) -> T {
    T(s.into(), vec![])
}
pub fn node(s: impl Into<String>, v: Vec<T>) -> T {
    T(s.into(), v)
}

/// smallest pair of differing parts
pub fn differ<'a>(a: &'a T, b: &'a T) -> (&'a T, &'a T) {
    if a.0 == b.0 && a.1.len() == b.1.len() {
        if let Some((x, y)) = a.1.iter().zip(&b.1).find(|(x, y)| x != y) {
            let sub = differ(x, y);
            // keep one level of context for leaves
            return if sub.0 .1.is_empty() && sub.1 .1.is_empty() && std::ptr::eq(sub.0, x) { (a, b) } else { sub };
        }
    }
    (a, b)
}

pub const BINOPS: [(&str, &str, u8); 22] = [
    ("OperatorAssignAdd", "+=", 0), ("OperatorAssignSubtract", "-=", 0), ("OperatorAssignMultiply", "*=", 0),
    ("OperatorAssignDivide", "/=", 0), ("OperatorAssignOr", "|=", 0), ("OperatorAssignAnd", "&=", 0),
    ("OperatorLogicOr", "||", 1), ("OperatorLogicAnd", "&&", 2), ("OperatorOr", "|", 3), ("OperatorXor", "^", 4),
    ("OperatorAnd", "&", 5), ("OperatorEqual", "==", 6), ("OperatorNotEqual", "!=", 6), ("OperatorLess", "<", 7),
    ("OperatorLessEqual", "<=", 7), ("OperatorGreater", ">", 7), ("OperatorGreaterEqual", ">=", 7),
    ("OperatorAdd", "+", 8), ("OperatorSubtract", "-", 8), ("OperatorMultiply", "*", 9), ("OperatorDivide", "/", 9), ("OperatorModulo", "%", 9),
];
pub const UNOPS: [(&str, &str); 3] = [("OperatorLogicNot", "!"), ("OperatorBitNot", "~"), ("OperatorNeg", "-")];

pub fn type_text(t: &TypeName) -> String {
    let n = t.name().to_string();
    let a = t.arguments();
    if a.is_empty() { n } else { format!("{n}<{}>", a.iter().map(type_text).collect::<Vec<_>>().join(", ")) }
}

pub fn of_const(c: &Constant) -> T {
    leaf(match c {
        Constant::String(Literal::String, s) => format!("str:{s:?}"),
        Constant::String(Literal::Name, s) => format!("name:{s:?}"),
        Constant::String(Literal::Resource, s) => format!("res:{s:?}"),
        Constant::String(Literal::TweakDbId, s) => format!("tdb:{s:?}"),
        Constant::F32(v) => format!("f32:{:x}", v.to_bits()),
        Constant::F64(v) => format!("f64:{:x}", v.to_bits()),
        Constant::I32(v) => format!("i32:{v}"),
        Constant::I64(v) => format!("i64:{v}"),
        Constant::U32(v) => format!("u32:{v}"),
        Constant::U64(v) => format!("u64:{v}"),
        Constant::Bool(v) => format!("bool:{v}"),
    })
}

pub fn of_seq(s: &Seq<SourceAst>) -> T {
    node("seq", s.exprs.iter().filter(|e| !matches!(e, Expr::Seq(s) if s.exprs.is_empty())).map(of_expr).collect())
}

pub fn of_expr(e: &Expr<SourceAst>) -> T {
    let v = |es: &[Expr<SourceAst>]| es.iter().map(of_expr).collect::<Vec<_>>();
    let targs = |ts: &[TypeName]| if ts.is_empty() { String::new() } else { format!("<{}>", ts.iter().map(type_text).collect::<Vec<_>>().join(", ")) };
    match e {
        Expr::Ident(i, _) => leaf(format!("id:{i}")),
        Expr::Constant(c, _) => of_const(c),
        Expr::ArrayLit(xs, _, _) => node("[...]", v(xs)),
        Expr::InterpolatedString(..) => leaf("s\"\""),
        Expr::Declare(n, t, x, _) => node(format!("let {n}: {}", t.as_ref().map(|t| type_text(t)).unwrap_or_default()), x.iter().map(|x| of_expr(x)).collect()),
        Expr::Cast(t, x, _) => node(format!("as {}", type_text(t)), vec![of_expr(x)]),
        Expr::Assign(a, b, _) => node("=", vec![of_expr(a), of_expr(b)]),
        Expr::Call(n, ts, xs, _) => node(format!("call {n}{}", targs(ts)), v(xs)),
        Expr::MethodCall(o, n, xs, _) => {
            let mut a = vec![of_expr(o)];
            a.extend(v(xs));
            node(format!("mcall {n}"), a)
        }
        Expr::Member(o, n, _) => node(format!(".{n}"), vec![of_expr(o)]),
        Expr::ArrayElem(a, b, _) => node("[]", vec![of_expr(a), of_expr(b)]),
        Expr::New(t, xs, _) => node(format!("new {}", type_text(t)), v(xs)),
        Expr::Return(x, _) => node("return", x.iter().map(|x| of_expr(x)).collect()),
        Expr::Seq(s) => of_seq(s),
        Expr::Switch(x, cases, d, _) => {
            let mut a = vec![of_expr(x)];
            a.extend(cases.iter().map(|c| node("case", vec![of_expr(&c.matcher), of_seq(&c.body)])));
            a.extend(d.iter().map(|d| node("default", vec![of_seq(d)])));
            node("switch", a)
        }
        Expr::Goto(t, _) => leaf(format!("goto {}", t.position.value)),
        Expr::If(x, a, b, _) => {
            let mut o = vec![of_expr(x), of_seq(a)];
            o.extend(b.iter().map(of_seq));
            node("if", o)
        }
        Expr::Conditional(a, b, c, _) => node("?:", vec![of_expr(a), of_expr(b), of_expr(c)]),
        Expr::While(a, b, _) => node("while", vec![of_expr(a), of_seq(b)]),
        Expr::ForIn(..) => leaf("for"),
        Expr::BinOp(a, b, op, _) => node(format!("bin {op}"), vec![of_expr(a), of_expr(b)]),
        Expr::UnOp(a, op, _) => node(format!("un {op}"), vec![of_expr(a)]),
        Expr::This(_) => leaf("this"),
        Expr::Super(_) => leaf("super"),
        Expr::Break(_) => leaf("break"),
        Expr::Null(_) => leaf("null"),
    }
}

/// fold a minus sign into the number it precedes, so that both readings of "-5" agree
fn fold(t: T) -> T {
    if t.0 == "un OperatorNeg" {
        let k = &t.1[0].0;
        if let Some((p, d)) = k.split_once(':') {
            match p {
                "i32" | "i64" | "u32" | "u64" if !d.starts_with('-') => return leaf(if d == "0" { k.clone() } else { format!("{p}:-{d}") }),
                "f32" => {
                    let b = u32::from_str_radix(d, 16).unwrap();
                    if b >> 31 == 0 { return leaf(format!("f32:{:x}", b | 1 << 31)); }
                }
                "f64" => {
                    let b = u64::from_str_radix(d, 16).unwrap();
                    if b >> 63 == 0 { return leaf(format!("f64:{:x}", b | 1 << 63)); }
                }
                _ => (),
            }
        }
    }
    t
}

/// what printed text should read back as: calls of operators become operators, names lose their
/// signature, conversions between reference kinds disappear unless `verbose`
pub fn surface(t: &T, verbose: bool) -> T {
    let kids: Vec<T> = t.1.iter().map(|k| surface(k, verbose)).collect();
    if let Some(n) = t.0.strip_prefix("call ") {
        let (name, targs) = match n.split_once(';') {
            Some((a, b)) => (a.to_string(), b.find('<').filter(|_| b.ends_with('>') && a == "Cast").map(|i| b[i..].to_string()).unwrap_or_default()),
            None => match n.split_once('<') {
                Some((a, b)) => (a.to_string(), format!("<{b}")),
                None => (n.to_string(), String::new()),
            },
        };
        if let Some(b) = BINOPS.iter().find(|b| b.0 == name) {
            return node(format!("bin {}", b.0), kids);
        }
        if UNOPS.iter().any(|u| u.0 == name) {
            return fold(node(format!("un {name}"), kids));
        }
        if !verbose && ["WeakRefToRef", "RefToWeakRef", "AsRef"].contains(&name.as_str()) {
            return kids.into_iter().next().unwrap();
        }
        return node(format!("call {name}{targs}"), kids);
    }
    if let Some(n) = t.0.strip_prefix("mcall ") {
        return node(format!("mcall {}", n.split(';').next().unwrap()), kids);
    }
    node(t.0.clone(), kids)
}

pub struct P<'a> {
    s: &'a [u8],
    at: usize,
}

type R<X> = Result<X, String>;

#[derive(Debug, PartialEq, Clone, Default)]
pub struct Decl {
    pub kind: String, // class struct func let enum
    pub notes: Vec<(String, Vec<String>)>,
    pub quals: Vec<String>,
    pub name: String,
    pub base: Option<String>,
    pub params: Vec<(Vec<String>, String, String)>,
    pub type_: Option<String>,
    pub body: Option<T>,
    pub members: Vec<Decl>,
    pub values: Vec<(String, i64)>,
}

impl<'a> P<'a> {
    pub fn new(s: &'a str) -> Self {
        P { s: s.as_bytes(), at: 0 }
    }
    fn ws(&mut self) {
        while self.s.get(self.at).map_or(false, |c| b" \n\r\t".contains(c)) {
            self.at += 1;
        }
    }
    pub fn end(&mut self) -> bool {
        self.ws();
        self.at == self.s.len()
    }
    fn bad<X>(&self, w: &str) -> R<X> {
        let from = self.at.saturating_sub(20);
        Err(format!("expected {w} at byte {}, near {:?}", self.at, String::from_utf8_lossy(&self.s[from..(self.at + 30).min(self.s.len())])))
    }
    fn peek(&self, t: &str) -> bool {
        self.s[self.at..].starts_with(t.as_bytes())
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        let y = self.peek(t);
        if y {
            self.at += t.len();
        }
        y
    }
    fn need(&mut self, t: &str) -> R<()> {
        if self.eat(t) { Ok(()) } else { self.bad(&format!("{t:?}")) }
    }
    fn word_char(c: u8) -> bool {
        c.is_ascii_alphanumeric() || c == b'_'
    }
    fn key(&mut self, k: &str) -> bool {
        self.ws();
        let y = self.peek(k) && !self.s.get(self.at + k.len()).map_or(false, |c| Self::word_char(*c));
        if y {
            self.at += k.len();
        }
        y
    }
    fn ident(&mut self) -> R<String> {
        self.ws();
        let b = self.at;
        if !self.s.get(b).map_or(false, |c| Self::word_char(*c) && !c.is_ascii_digit()) {
            return self.bad("an identifier");
        }
        while self.s.get(self.at).map_or(false, |c| Self::word_char(*c)) {
            self.at += 1;
        }
        Ok(String::from_utf8(self.s[b..self.at].to_vec()).unwrap())
    }
    fn list<X>(&mut self, close: &str, f: impl Fn(&mut Self) -> R<X>) -> R<Vec<X>> {
        let mut v = vec![];
        if self.eat(close) {
            return Ok(v);
        }
        loop {
            v.push(f(self)?);
            if !self.eat(",") {
                break;
            }
        }
        self.need(close)?;
        Ok(v)
    }
    fn type_(&mut self) -> R<String> {
        let n = self.ident()?;
        if self.eat("<") {
            let v = self.list(">", |p| {
                let t = p.type_()?;
                if p.eat(";") {
                    // sized arrays
                    p.ws();
                    let b = p.at;
                    while p.s.get(p.at).map_or(false, |c| c.is_ascii_digit()) {
                        p.at += 1;
                    }
                    return Ok(format!("{t}; {}", String::from_utf8_lossy(&p.s[b..p.at])));
                }
                Ok(t)
            })?;
            return Ok(format!("{n}<{}>", v.join(", ")));
        }
        Ok(n)
    }
    fn number(&mut self) -> R<T> {
        self.ws();
        let b = self.at;
        if self.peek("-") {
            self.at += 1;
        }
        let d = self.at;
        while self.s.get(self.at).map_or(false, |c| c.is_ascii_digit() || *c == b'.') {
            self.at += 1;
        }
        if self.at == d {
            self.at = b;
            return self.bad("a number");
        }
        let t = std::str::from_utf8(&self.s[b..self.at]).unwrap();
        let u = self.peek("u");
        if u {
            self.at += 1;
        }
        let post = if self.peek("l") { 'l' } else if self.peek("d") { 'd' } else { ' ' };
        if post != ' ' {
            self.at += 1;
        }
        let e = |_| format!("bad number {t:?}");
        Ok(of_const(&if post == 'd' {
            Constant::F64(t.parse().map_err(|_| format!("bad number {t:?}"))?)
        } else if t.contains('.') {
            Constant::F32(t.parse().map_err(|_| format!("bad number {t:?}"))?)
        } else if u && post == 'l' {
            Constant::U64(t.parse().map_err(e)?)
        } else if u {
            Constant::U32(t.parse().map_err(e)?)
        } else if post == 'l' {
            Constant::I64(t.parse().map_err(e)?)
        } else {
            Constant::I32(t.parse().map_err(e)?)
        }))
    }
    /// after the opening quote
    fn string(&mut self) -> R<String> {
        let rest = std::str::from_utf8(&self.s[self.at..]).unwrap();
        let mut it = rest.char_indices();
        let mut o = String::new();
        while let Some((i, c)) = it.next() {
            match c {
                '"' => {
                    self.at += i + 1;
                    return Ok(o);
                }
                '\\' => match it.next().map(|x| x.1) {
                    Some('n') => o.push('\n'),
                    Some('r') => o.push('\r'),
                    Some('t') => o.push('\t'),
                    Some('\'') => o.push('\''),
                    Some('"') => o.push('"'),
                    Some('\\') => o.push('\\'),
                    Some('u') => {
                        let mut v = 0;
                        let mut n = 0;
                        if it.next().map(|x| x.1) != Some('{') {
                            return Err("bad escape".into());
                        }
                        loop {
                            match it.next().map(|x| x.1) {
                                Some('}') => break,
                                Some(h) if h.is_ascii_hexdigit() && n < 6 => {
                                    v = v * 16 + h.to_digit(16).unwrap();
                                    n += 1;
                                }
                                _ => return Err("bad escape".into()),
                            }
                        }
                        o.push(char::from_u32(v).ok_or("bad escape")?);
                    }
                    e => return Err(format!("escape {e:?}")),
                },
                c => o.push(c),
            }
        }
        Err("unterminated text".into())
    }
    fn atom(&mut self) -> R<T> {
        self.ws();
        let b = self.at;
        for (n, t) in UNOPS {
            if self.peek(t) {
                self.at += 1;
                match self.expr(11) {
                    Ok(x) => return Ok(fold(node(format!("un {n}"), vec![x]))),
                    Err(_) => self.at = b,
                }
            }
        }
        if self.key("new") {
            let n = self.ident()?;
            self.need("(")?;
            return Ok(node(format!("new {n}"), self.list(")", |p| p.expr(0))?));
        }
        if self.eat("(") {
            let x = self.expr(0)?;
            self.need(")")?;
            return Ok(x);
        }
        for k in ["null", "this", "super"] {
            if self.key(k) {
                return Ok(leaf(k));
            }
        }
        for k in ["true", "false"] {
            if self.key(k) {
                return Ok(leaf(format!("bool:{k}")));
            }
        }
        if let Ok(n) = self.number() {
            return Ok(n);
        }
        for (p, k) in [("\"", "str"), ("n\"", "name"), ("r\"", "res"), ("t\"", "tdb")] {
            if self.peek(p) {
                self.at += p.len();
                return Ok(leaf(format!("{k}:{:?}", self.string()?)));
            }
        }
        let n = self.ident()?;
        let b = self.at;
        let mut targs = String::new();
        self.ws();
        if self.peek("<") {
            self.at += 1;
            match self.list(">", |p| p.type_()) {
                Ok(v) => targs = format!("<{}>", v.join(", ")),
                Err(_) => self.at = b,
            }
        }
        if self.eat("(") {
            return Ok(node(format!("call {n}{targs}"), self.list(")", |p| p.expr(0))?));
        }
        self.at = b;
        Ok(leaf(format!("id:{n}")))
    }
    /// operators of level `min` and tighter.  Levels: 0 ?: and assignments, 1 ||, .. 9 * / %, 10 prefix, 11 postfix
    pub fn expr(&mut self, min: u8) -> R<T> {
        let mut l = self.atom()?;
        'next: loop {
            let b = self.at;
            if min == 0 {
                if self.eat("?") {
                    let y = self.expr(0)?;
                    self.need(":")?;
                    let z = self.expr(0)?;
                    l = node("?:", vec![l, y, z]);
                    continue;
                }
                if self.eat("=") {
                    if let Ok(r) = self.expr(0) {
                        l = node("=", vec![l, r]);
                        continue;
                    }
                    self.at = b;
                }
            }
            for (n, t, lv) in BINOPS {
                if lv >= min && self.eat(t) {
                    let right = if lv == 0 { 0 } else { lv + 1 };
                    if let Ok(r) = self.expr(right) {
                        l = node(format!("bin {n}"), vec![l, r]);
                        continue 'next;
                    }
                    self.at = b;
                }
            }
            if self.eat("[") {
                let i = self.expr(0)?;
                self.need("]")?;
                l = node("[]", vec![l, i]);
                continue;
            }
            if self.eat(".") {
                let n = self.ident()?;
                if self.eat("(") {
                    let mut a = vec![l];
                    a.extend(self.list(")", |p| p.expr(0))?);
                    l = node(format!("mcall {n}"), a);
                } else {
                    l = node(format!(".{n}"), vec![l]);
                }
                continue;
            }
            if self.key("as") {
                let t = self.type_()?;
                l = node(format!("as {t}"), vec![l]);
                continue;
            }
            self.at = b;
            return Ok(l);
        }
    }
    fn block(&mut self) -> R<T> {
        self.need("{")?;
        let s = self.seq()?;
        self.need("}")?;
        Ok(s)
    }
    pub fn seq(&mut self) -> R<T> {
        let mut v = vec![];
        loop {
            self.ws();
            let b = self.at;
            if self.end() || self.peek("}") || self.key("case") || self.key("default") {
                self.at = b;
                return Ok(node("seq", v));
            }
            v.push(self.stmt()?);
        }
    }
    pub fn stmt(&mut self) -> R<T> {
        if self.key("while") {
            let c = self.expr(0)?;
            let b = self.block()?;
            self.eat(";");
            return Ok(node("while", vec![c, b]));
        }
        if self.key("if") {
            let mut o = vec![self.expr(0)?, self.block()?];
            if self.key("else") {
                self.ws();
                if self.peek("if") {
                    let s = self.stmt()?;
                    o.push(node("seq", vec![s]));
                } else {
                    o.push(self.block()?);
                }
            }
            self.eat(";");
            return Ok(node("if", o));
        }
        if self.key("switch") {
            let mut o = vec![self.expr(0)?];
            self.need("{")?;
            while self.key("case") {
                let m = self.expr(0)?;
                self.need(":")?;
                o.push(node("case", vec![m, self.seq()?]));
            }
            if self.key("default") {
                self.need(":")?;
                o.push(node("default", vec![self.seq()?]));
            }
            self.need("}")?;
            self.eat(";");
            return Ok(node("switch", o));
        }
        if self.key("return") {
            if self.eat(";") {
                return Ok(node("return", vec![]));
            }
            let e = self.expr(0)?;
            self.need(";")?;
            return Ok(node("return", vec![e]));
        }
        if self.key("break") {
            self.need(";")?;
            return Ok(leaf("break"));
        }
        if self.key("let") {
            let n = self.ident()?;
            let t = if self.eat(":") { self.type_()? } else { String::new() };
            let mut v = vec![];
            if self.eat("=") {
                v.push(self.expr(0)?);
            }
            self.need(";")?;
            return Ok(node(format!("let {n}: {t}"), v));
        }
        let e = self.expr(0)?;
        self.need(";")?;
        Ok(e)
    }
    pub fn decl(&mut self) -> R<Decl> {
        let mut d = Decl::default();
        while self.eat("@") {
            let n = self.ident()?;
            self.need("(")?;
            // up to the closing bracket: texts or bare words
            let a = self.list(")", |p| {
                p.ws();
                if p.peek("\"") {
                    p.at += 1;
                    return Ok(format!("{:?}", p.string()?));
                }
                let b = p.at;
                while p.s.get(p.at).map_or(false, |c| !b",)\n".contains(c)) {
                    p.at += 1;
                }
                Ok(String::from_utf8_lossy(&p.s[b..p.at]).trim().to_string())
            })?;
            d.notes.push((n, a));
        }
        loop {
            let b = self.at;
            let w = self.ident()?;
            match w.as_str() {
                "class" | "struct" | "enum" | "func" | "let" => {
                    d.kind = w;
                    break;
                }
                _ if d.quals.len() < 20 => d.quals.push(w),
                _ => {
                    self.at = b;
                    return self.bad("a declaration");
                }
            }
        }
        d.name = self.ident()?;
        match d.kind.as_str() {
            "let" => {
                self.need(":")?;
                d.type_ = Some(self.type_()?);
                self.need(";")?;
            }
            "enum" => {
                self.need("{")?;
                while !self.eat("}") {
                    let n = self.ident()?;
                    self.need("=")?;
                    self.ws();
                    let b = self.at;
                    while self.s.get(self.at).map_or(false, |c| c.is_ascii_digit() || *c == b'-') {
                        self.at += 1;
                    }
                    let v = std::str::from_utf8(&self.s[b..self.at]).unwrap().parse::<i64>().map_err(|e| format!("enum value: {e}"))?;
                    d.values.push((n, v));
                    self.eat(",");
                }
            }
            "func" => {
                self.need("(")?;
                d.params = self.list(")", |p| {
                    let mut q = vec![];
                    loop {
                        let w = p.ident()?;
                        if p.eat(":") {
                            return Ok((q, w, p.type_()?));
                        }
                        q.push(w);
                    }
                })?;
                self.need("->")?;
                d.type_ = Some(self.type_()?);
                if !self.eat(";") {
                    d.body = Some(self.block()?);
                }
            }
            _ => {
                if self.key("extends") {
                    d.base = Some(self.ident()?);
                }
                self.need("{")?;
                while !self.eat("}") {
                    d.members.push(self.decl()?);
                }
            }
        }
        Ok(d)
    }
}
