//! type names: how they are shown, stored and told apart
use redscript::ast::{Kind, TypeName};
use redscript::ast::Ident;

use crate::util::*;

#[derive(Debug, Clone, PartialEq)]
struct Shape {
    name: String,
    of: Vec<Shape>,
}

fn shape(g: &mut Rng, depth: u64, chain: bool) -> Shape {
    const NAMES: &[&str] = &["ref", "wref", "script_ref", "array", "Int32", "ref", "wref", "Refs", "wre", "", "Bool"];
    let name = if g.below(4) == 0 { g.word(5) } else { (*g.pick(NAMES)).to_owned() };
    let n = if depth == 0 { 0 } else if chain { g.below(2).max(g.below(2)) } else { *g.pick(&[0, 1, 1, 1, 2, 3]) };
    Shape { name, of: (0..n).map(|_| shape(g, depth - 1, chain)).collect() }
}

fn build(s: &Shape) -> TypeName {
    let args: Vec<TypeName> = s.of.iter().map(build).collect();
    if args.is_empty() && s.name.len() % 2 == 0 {
        return TypeName::basic_owned(redscript::Ref::from(s.name.as_str()));
    }
    TypeName::new(Ident::from_ref(&s.name), args)
}

fn read(t: &TypeName) -> Shape {
    Shape { name: t.name().to_string(), of: t.arguments().iter().map(read).collect() }
}

fn spelled(s: &Shape, sep: &str) -> String {
    if s.of.is_empty() { return s.name.clone(); }
    format!("{}<{}>", s.name, s.of.iter().map(|x| spelled(x, sep)).collect::<Vec<_>>().join(sep))
}

fn plain(s: &Shape) -> Shape {
    if (s.name == "ref" || s.name == "wref") && s.of.len() == 1 { return plain(&s.of[0]); }
    Shape { name: s.name.clone(), of: s.of.iter().map(plain).collect() }
}

fn stored(s: &Shape) -> String {
    let mut o = s.name.clone();
    for x in &s.of {
        o.push(':');
        o.push_str(&stored(x));
    }
    o
}

fn parsed(parts: &[&str]) -> Shape {
    Shape { name: parts[0].to_owned(), of: if parts.len() > 1 { vec![parsed(&parts[1..])] } else { vec![] } }
}

fn kind(k: Kind) -> &'static str {
    match k { Kind::Prim => "prim", Kind::Ref => "ref", Kind::WRef => "wref", Kind::ScriptRef => "script_ref", Kind::Array => "array" }
}

pub fn run(c: &mut Ctx) {
    const T: &[(&TypeName, &str)] = &[
        (&TypeName::BOOL, "Bool"), (&TypeName::CNAME, "CName"), (&TypeName::DOUBLE, "Double"), (&TypeName::FLOAT, "Float"), (&TypeName::INT16, "Int16"), (&TypeName::INT32, "Int32"),
        (&TypeName::INT64, "Int64"), (&TypeName::INT8, "Int8"), (&TypeName::RESOURCE, "ResRef"), (&TypeName::STRING, "String"), (&TypeName::TWEAKDB_ID, "TweakDBID"), (&TypeName::UINT16, "Uint16"),
        (&TypeName::UINT32, "Uint32"), (&TypeName::UINT64, "Uint64"), (&TypeName::UINT8, "Uint8"), (&TypeName::VARIANT, "Variant"), (&TypeName::VOID, "Void"),
    ];
    for (t, n) in T {
        c.check(read(t) == Shape { name: (*n).to_owned(), of: vec![] } && t.repr().as_ref() == *n && t.pretty().as_ref() == *n, "constant", || format!("the constant for {n} is {t:?}"));
    }
    for i in 0..c.n(20000) {
        let chain = i % 3 == 0;
        let s = shape(&mut c.rng, 5, chain);
        let input = format!("{s:?}");
        let t = build(&s);
        c.case("types", &input, || ());
        let mut say = |ok: bool, key: &str, got: String, want: String| c.check(ok, key, || format!("{input}: got {got}, expected {want}"));
        say(read(&t) == s, "parts", format!("{t:?}"), input.clone());
        let k = match s.name.as_str() { n @ ("ref" | "wref" | "script_ref" | "array") => n, _ => "prim" };
        say(kind(t.kind()) == k, "kind", kind(t.kind()).into(), k.into());
        let w = spelled(&s, ", ");
        say(t.pretty().as_ref() == w, "pretty", t.pretty().to_string(), w);
        let w = spelled(&plain(&s), ",");
        say(t.mangled().as_ref() == w, "mangled", t.mangled().to_string(), w.clone());
        say(t.to_string() == w, "shown", t.to_string(), w);
        let w = stored(&s);
        say(t.repr().as_ref() == w, "stored", t.repr().to_string(), w.clone());
        let q: Vec<&str> = w.split(':').collect();
        let b = TypeName::from_repr(&w);
        say(read(&b) == parsed(&q), "read", format!("{b:?}"), format!("{:?}", parsed(&q)));
        if chain {
            say(b == t, "back", format!("{b:?}"), format!("{t:?}"));
        }
    }
    for _ in 0..c.n(5000) {
        let mut t = String::new();
        for _ in 0..c.rng.below(5) {
            t.push_str(&c.rng.text(4));
            if c.rng.bool() { t.push(':'); }
        }
        let b = TypeName::from_repr(&t);
        c.case("texts", &t, || ());
        c.check(b.repr().as_ref() == t, "again", || format!("{t:?} reads as {b:?}, which is stored as {:?}", b.repr()));
    }
}
