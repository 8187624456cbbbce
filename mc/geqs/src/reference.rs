//! Reference semantics of expressions: a recursive descent parser over tokens.

use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Num(f64),
    Id(String),
    Op(char),
    /// Something that is neither a number nor a name nor an operator.
    Junk,
}

#[derive(Clone, Debug)]
pub enum Ast {
    Num(f64),
    Var(String),
    Neg(Box<Ast>),
    Bin(char, Box<Ast>, Box<Ast>),
    Call(String, Vec<Ast>),
}

#[derive(Debug, PartialEq)]
pub enum Bad {
    Malformed,
    /// A function name without parentheses: what it means is not specified.
    Unspecified,
}

/// Evaluation has no result.
#[derive(Debug, PartialEq)]
pub struct DivZero;

pub type Funcs = BTreeMap<&'static str, (usize, fn(&[f64]) -> f64)>;

pub struct Env {
    pub names: BTreeMap<String, f64>,
    pub funcs: Funcs,
}

fn pick(a: &[f64]) -> f64 {
    let holds = match a[1].round() as i64 {
        1 => a[0] == a[2],
        2 => a[0] <= a[2],
        3 => a[0] >= a[2],
        4 => a[0] < a[2],
        5 => a[0] > a[2],
        _ => a[0] != a[2],
    };
    if holds {
        a[3]
    } else {
        a[4]
    }
}

/// The functions every default context has; arguments in written order.
pub fn builtin() -> Funcs {
    let mut m: Funcs = BTreeMap::new();
    m.insert("if", (5, pick));
    m.insert("sin", (1, |a| a[0].sin()));
    m.insert("cos", (1, |a| a[0].cos()));
    m.insert("tan", (1, |a| a[0].tan()));
    m.insert("arcsin", (1, |a| a[0].asin()));
    m.insert("arccos", (1, |a| a[0].acos()));
    m.insert("arctan", (1, |a| a[0].atan()));
    m.insert("sinh", (1, |a| a[0].sinh()));
    m.insert("cosh", (1, |a| a[0].cosh()));
    m.insert("tanh", (1, |a| a[0].tanh()));
    m.insert("ln", (1, |a| a[0].ln()));
    m.insert("log10", (1, |a| a[0].log10()));
    m.insert("log", (2, |a| a[1].ln() / a[0].ln()));
    m.insert("abs", (1, |a| a[0].abs()));
    m
}

impl Env {
    pub fn standard() -> Env {
        let mut names = BTreeMap::new();
        names.insert("pi".to_string(), std::f64::consts::PI);
        names.insert("e".to_string(), std::f64::consts::E);
        Env { names, funcs: builtin() }
    }
    pub fn with(mut self, n: &str, v: f64) -> Env {
        self.names.insert(n.to_string(), v);
        self
    }
}

/// Splits text at operators and white space.
pub fn lex(text: &str) -> Vec<Tok> {
    let mut out = vec![];
    let mut word = String::new();
    let flush = |w: &mut String, out: &mut Vec<Tok>| {
        if w.is_empty() {
            return;
        }
        let t = if w.chars().all(|c| c.is_ascii_digit() || c == '.') {
            w.parse::<f64>().map(Tok::Num).unwrap_or(Tok::Junk)
        } else if w.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && w.starts_with(|c: char| c.is_ascii_alphabetic()) {
            Tok::Id(w.clone())
        } else if let Ok(x) = w.parse::<f64>() {
            Tok::Num(x) // 1e5
        } else {
            Tok::Junk
        };
        out.push(t);
        w.clear();
    };
    for c in text.chars() {
        if "()^*/+-,".contains(c) {
            flush(&mut word, &mut out);
            out.push(Tok::Op(c));
        } else if c.is_whitespace() {
            flush(&mut word, &mut out);
        } else {
            word.push(c);
        }
    }
    flush(&mut word, &mut out);
    out
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
    env: &'a Env,
}

impl P<'_> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(&Tok::Op(c)) {
            self.i += 1;
            return true;
        }
        false
    }
    fn sum(&mut self) -> Result<Ast, Bad> {
        let mut l = self.term()?;
        loop {
            let op = if self.eat('+') {
                '+'
            } else if self.eat('-') {
                '-'
            } else {
                return Ok(l);
            };
            let r = self.term()?;
            l = Ast::Bin(op, Box::new(l), Box::new(r));
        }
    }
    fn term(&mut self) -> Result<Ast, Bad> {
        let mut l = self.unary()?;
        loop {
            let op = if self.eat('*') {
                '*'
            } else if self.eat('/') {
                '/'
            } else {
                return Ok(l);
            };
            let r = self.unary()?;
            l = Ast::Bin(op, Box::new(l), Box::new(r));
        }
    }
    fn unary(&mut self) -> Result<Ast, Bad> {
        if self.eat('-') {
            return Ok(Ast::Neg(Box::new(self.unary()?)));
        }
        let base = self.atom()?;
        if self.eat('^') {
            let ex = self.unary()?;
            return Ok(Ast::Bin('^', Box::new(base), Box::new(ex)));
        }
        Ok(base)
    }
    fn atom(&mut self) -> Result<Ast, Bad> {
        match self.peek().cloned() {
            Some(Tok::Num(x)) => {
                self.i += 1;
                Ok(Ast::Num(x))
            }
            Some(Tok::Id(n)) => {
                self.i += 1;
                if let Some((arity, _)) = self.env.funcs.get(n.as_str()) {
                    let arity = *arity;
                    if !self.eat('(') {
                        return Err(Bad::Malformed);
                    }
                    let mut args = vec![];
                    if !self.eat(')') {
                        loop {
                            args.push(self.sum()?);
                            if self.eat(',') {
                                continue;
                            }
                            if self.eat(')') {
                                break;
                            }
                            return Err(Bad::Malformed);
                        }
                    }
                    if args.len() != arity {
                        return Err(Bad::Malformed);
                    }
                    return Ok(Ast::Call(n, args));
                }
                if self.env.names.contains_key(&n) {
                    return Ok(Ast::Var(n));
                }
                Err(Bad::Malformed)
            }
            Some(Tok::Op('(')) => {
                self.i += 1;
                let e = self.sum()?;
                if self.eat(')') {
                    Ok(e)
                } else {
                    Err(Bad::Malformed)
                }
            }
            _ => Err(Bad::Malformed),
        }
    }
}

pub fn parse(t: &[Tok], env: &Env) -> Result<Ast, Bad> {
    for (i, x) in t.iter().enumerate() {
        if let Tok::Id(n) = x {
            if env.funcs.contains_key(n.as_str()) && t.get(i + 1) != Some(&Tok::Op('(')) && i + 1 < t.len() {
                return Err(Bad::Unspecified);
            }
        }
    }
    let mut p = P { t, i: 0, env };
    let e = p.sum()?;
    if p.i == t.len() {
        Ok(e)
    } else {
        Err(Bad::Malformed)
    }
}

pub fn eval(a: &Ast, env: &Env) -> Result<f64, DivZero> {
    Ok(match a {
        Ast::Num(x) => *x,
        Ast::Var(n) => env.names[n],
        Ast::Neg(x) => -eval(x, env)?,
        Ast::Call(f, args) => {
            let mut v = vec![];
            for x in args {
                v.push(eval(x, env)?);
            }
            (env.funcs[f.as_str()].1)(&v)
        }
        Ast::Bin(op, l, r) => {
            let (x, y) = (eval(l, env)?, eval(r, env)?);
            match op {
                '+' => x + y,
                '-' => x - y,
                '*' => x * y,
                '/' => {
                    if y == 0.0 {
                        return Err(DivZero);
                    }
                    x / y
                }
                _ => x.powf(y),
            }
        }
    })
}

/// The outcome the text must have: a value, "no value" or "not an expression".
#[derive(Debug, PartialEq)]
pub enum Want {
    Value(f64),
    NoValue,
    Malformed,
    Unspecified,
}

pub fn want(text: &str, env: &Env) -> Want {
    match parse(&lex(text), env) {
        Ok(a) => match eval(&a, env) {
            Ok(v) => Want::Value(v),
            Err(_) => Want::NoValue,
        },
        Err(Bad::Malformed) => Want::Malformed,
        Err(Bad::Unspecified) => Want::Unspecified,
    }
}
