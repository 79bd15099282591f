//! SQL reference: syntax trees, their S-expression form (as rendered by the hook), printing in
//! many layouts, a lexer and a recursive-descent parser written from the grammar, and a
//! generator of arbitrary statements.

use crate::engine::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Lit {
    Str(String),
    Num(String),
    Null,
    CurTime,
    CurDate,
    CurTs,
    Date(String),
    Time(String),
    Ts(String),
}

pub type Name = String;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Mul,
    Div,
    Add,
    Sub,
    Cat,
    And,
    Or,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cmp {
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
    Like,
}

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Lit(Lit),
    Id(Vec<Name>),
    Tuple(Vec<E>),
    Sub(Box<Sel>),
    Neg(Box<E>),
    Not(Box<E>),
    IsNull(Box<E>),
    Bin(Bin, Box<E>, Box<E>),
    Cmp(Cmp, Box<E>, Box<E>),
    In(Box<E>, InSet),
    Between(Box<E>, Box<E>, Box<E>),
    Case(Option<Box<E>>, Vec<(E, E)>, Option<Box<E>>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum InSet {
    Sel(Box<Sel>),
    List(Vec<E>),
    Name(Vec<Name>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Sel {
    pub common: Vec<Cte>,
    pub set: Set,
    pub order: Vec<Ord_>,
    pub limit: Option<(E, Option<E>)>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Cte {
    pub id: Name,
    pub cols: Option<Vec<Name>>,
    pub query: Sel,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ord_ {
    pub expr: E,
    pub collate: Option<Name>,
    pub desc: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SetOp {
    Intersect,
    Except,
    Union,
    UnionAll,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Set {
    Values(Vec<Vec<E>>),
    Query { distinct: bool, cols: Cols, from: Vec<Tab>, wher: Option<E>, group: Option<(Vec<E>, Option<E>)> },
    Op(SetOp, Box<Set>, Box<Set>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cols {
    All,
    List(Vec<Col>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Col {
    AllFrom(Name),
    Expr(E, Option<Name>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum JT {
    Inner,
    Left,
    Right,
    Full,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum JOp {
    Join(JT),
    Natural(JT),
    Cross,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Con {
    On(E),
    Using(Vec<Name>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tab {
    Named(Vec<Name>, Option<Name>),
    Derived(Sel, Option<Name>),
    Join(Box<Tab>, Box<Tab>, JOp, Con),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stmt {
    Select(Sel),
    Insert { common: Vec<Cte>, table: Vec<Name>, cols: Option<Vec<Name>>, source: Set },
    Delete { common: Vec<Cte>, table: Vec<Name>, wher: Option<E> },
    Update { common: Vec<Cte>, table: Vec<Name>, sets: Vec<(Vec<Name>, E)>, wher: Option<E> },
    Attach(String, Vec<Name>),
    Describe(Vec<Name>),
    Explain(Box<Stmt>),
}

// ---------------------------------------------------------------- S-expressions
fn list<T>(xs: &[T], f: impl Fn(&T) -> String) -> String {
    format!("[{}]", xs.iter().map(f).collect::<Vec<_>>().join(" "))
}
fn opt<T>(x: &Option<T>, f: impl Fn(&T) -> String) -> String {
    x.as_ref().map(f).unwrap_or("-".into())
}
fn names(x: &Vec<Name>) -> String {
    list(x, |n| n.clone())
}

pub fn dump(s: &Stmt) -> String {
    match s {
        Stmt::Select(s) => d_sel(s),
        Stmt::Insert { common, table, cols, source } => {
            format!("(insert {} {} {} {})", list(common, d_cte), names(table), opt(cols, names), d_set(source))
        }
        Stmt::Delete { common, table, wher } => format!("(delete {} {} {})", list(common, d_cte), names(table), opt(wher, d_e)),
        Stmt::Update { common, table, sets, wher } => format!(
            "(update {} {} {} {})",
            list(common, d_cte),
            names(table),
            list(sets, |(c, e)| format!("(assign {} {})", names(c), d_e(e))),
            opt(wher, d_e)
        ),
        Stmt::Attach(p, n) => format!("(attach {:?} {})", p, names(n)),
        Stmt::Describe(n) => format!("(describe {})", names(n)),
        Stmt::Explain(s) => format!("(explain {})", dump(s)),
    }
}

fn d_cte(c: &Cte) -> String {
    format!("(cte {} {} {})", c.id, opt(&c.cols, names), d_sel(&c.query))
}

fn d_sel(s: &Sel) -> String {
    format!(
        "(select {} {} {} {})",
        list(&s.common, d_cte),
        d_set(&s.set),
        list(&s.order, |o| format!(
            "(order {} {} {})",
            d_e(&o.expr),
            opt(&o.collate, |n| n.clone()),
            if o.desc { "desc" } else { "asc" }
        )),
        opt(&s.limit, |(n, o)| format!("(limit {} {})", d_e(n), opt(o, d_e)))
    )
}

fn d_set(s: &Set) -> String {
    match s {
        Set::Values(rows) => format!("(values {})", list(rows, |r| list(r, d_e))),
        Set::Query { distinct, cols, from, wher, group } => format!(
            "(query {} {} {} {} {})",
            if *distinct { "distinct" } else { "all" },
            match cols {
                Cols::All => "*".into(),
                Cols::List(cs) => list(cs, |c| match c {
                    Col::AllFrom(n) => format!("(all-from {})", n),
                    Col::Expr(e, n) => format!("(col {} {})", d_e(e), opt(n, |n| n.clone())),
                }),
            },
            list(from, d_tab),
            opt(wher, d_e),
            opt(group, |(g, h)| format!("(group {} {})", list(g, d_e), opt(h, d_e)))
        ),
        Set::Op(o, l, r) => format!(
            "({} {} {})",
            match o {
                SetOp::Intersect => "intersect",
                SetOp::Except => "except",
                SetOp::Union => "union",
                SetOp::UnionAll => "union-all",
            },
            d_set(l),
            d_set(r)
        ),
    }
}

fn d_jt(j: JT) -> &'static str {
    match j {
        JT::Inner => "inner",
        JT::Left => "left",
        JT::Right => "right",
        JT::Full => "full",
    }
}

fn d_tab(t: &Tab) -> String {
    match t {
        Tab::Named(n, a) => format!("(named {} {})", names(n), opt(a, |n| n.clone())),
        Tab::Derived(s, a) => format!("(derived {} {})", d_sel(s), opt(a, |n| n.clone())),
        Tab::Join(l, r, op, c) => format!(
            "({} {} {} {})",
            match op {
                JOp::Join(t) => format!("join-{}", d_jt(*t)),
                JOp::Natural(t) => format!("natural-{}", d_jt(*t)),
                JOp::Cross => "cross".into(),
            },
            d_tab(l),
            d_tab(r),
            match c {
                Con::On(e) => format!("(on {})", d_e(e)),
                Con::Using(n) => format!("(using {})", names(n)),
            }
        ),
    }
}

fn d_e(e: &E) -> String {
    match e {
        E::Lit(l) => match l {
            Lit::Str(s) => format!("{:?}", s),
            Lit::Num(s) => format!("#{}", s),
            Lit::Null => "null".into(),
            Lit::CurTime => "current_time".into(),
            Lit::CurDate => "current_date".into(),
            Lit::CurTs => "current_timestamp".into(),
            Lit::Date(s) => format!("(date {:?})", s),
            Lit::Time(s) => format!("(time {:?})", s),
            Lit::Ts(s) => format!("(timestamp {:?})", s),
        },
        E::Id(n) => format!("(id {})", names(n)),
        E::Tuple(es) => format!("(tuple {})", list(es, d_e)),
        E::Sub(s) => format!("(scalar {})", d_sel(s)),
        E::Neg(e) => format!("(neg {})", d_e(e)),
        E::Not(e) => format!("(not {})", d_e(e)),
        E::IsNull(e) => format!("(is-null {})", d_e(e)),
        E::Bin(o, l, r) => format!(
            "({} {} {})",
            match o {
                Bin::Mul => "*",
                Bin::Div => "/",
                Bin::Add => "+",
                Bin::Sub => "-",
                Bin::Cat => "||",
                Bin::And => "and",
                Bin::Or => "or",
            },
            d_e(l),
            d_e(r)
        ),
        E::Cmp(o, l, r) => format!(
            "({} {} {})",
            match o {
                Cmp::Eq => "=",
                Cmp::Ne => "!=",
                Cmp::Lt => "<",
                Cmp::Le => "<=",
                Cmp::Gt => ">",
                Cmp::Ge => ">=",
                Cmp::Like => "like",
            },
            d_e(l),
            d_e(r)
        ),
        E::In(e, s) => format!(
            "(in {} {})",
            d_e(e),
            match s {
                InSet::Sel(s) => d_sel(s),
                InSet::List(es) => list(es, d_e),
                InSet::Name(n) => format!("(table {})", names(n)),
            }
        ),
        E::Between(e, l, u) => format!("(between {} {} {})", d_e(e), d_e(l), d_e(u)),
        E::Case(e, w, x) => format!(
            "(case {} {} {})",
            opt(e, |e| d_e(e)),
            list(w, |(g, b)| format!("(when {} {})", d_e(g), d_e(b))),
            opt(x, |e| d_e(e))
        ),
    }
}

// ---------------------------------------------------------------- tokens
#[derive(Clone, Debug, PartialEq)]
pub enum Tk {
    /// keyword, upper case
    Kw(&'static str),
    Id(String),
    Num(String),
    Str(String),
    Sym(&'static str),
}

pub const KEYWORDS: [&str; 70] = [
    "ALL", "AND", "AS", "ASC", "ATTACH", "BETWEEN", "BY", "CASE", "COLLATE", "CROSS", "CURRENT_DATE", "CURRENT_TIME",
    "CURRENT_TIMESTAMP", "DATE", "DELETE", "DESC", "DESCRIBE", "DISTINCT", "ELSE", "END", "EXPLAIN", "EXCEPT", "FILE", "FROM",
    "FULL", "GROUP", "HAVING", "IN", "INNER", "INSERT", "INTERSECT", "INTO", "IS", "ISNULL", "JOIN", "LEFT", "LIMIT", "LIKE",
    "NATURAL", "NOT", "NOTNULL", "NULL", "OFFSET", "ON", "OR", "ORDER", "OUTER", "PLAN", "QUERY", "RIGHT", "SELECT", "SET",
    "TABLE", "THEN", "TIME", "TIMESTAMP", "UPDATE", "UNION", "USING", "VALUES", "WHEN", "WHERE", "WITH", "", "", "", "", "", "", "",
];

pub const SYMBOLS: [&str; 15] = [",", ".", "(", ")", "*", "/", "+", "-", "=", "!=", "<", "<=", ">", ">=", "||"];

/// an identifier that is a word of some language but no keyword
pub fn sql_word(s: &mut Src) -> String {
    let w = crate::model::word(s);
    if keyword(&w).is_some() {
        format!("{}_", w)
    } else {
        w
    }
}

pub fn keyword(w: &str) -> Option<&'static str> {
    let u = w.to_ascii_uppercase();
    KEYWORDS.iter().find(|k| !k.is_empty() && **k == u).copied()
}

/// None: not a sequence of tokens
pub fn lex(text: &str) -> Option<Vec<Tk>> {
    let c: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    let digit = |i: usize| i < c.len() && c[i].is_ascii_digit();
    // exponent starting at i, if there is one
    let exponent = |i: usize| -> usize {
        if i < c.len() && c[i] == 'E' {
            let mut j = i + 1;
            if j < c.len() && (c[j] == '+' || c[j] == '-') {
                j += 1;
            }
            if digit(j) {
                while digit(j) {
                    j += 1;
                }
                return j;
            }
        }
        i
    };
    while i < c.len() {
        let ch = c[i];
        if ch.is_whitespace() {
            i += 1;
        } else if ch.is_ascii_alphabetic() || ch == '_' {
            let s = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            let w: String = c[s..i].iter().collect();
            out.push(match keyword(&w) {
                Some(k) => Tk::Kw(k),
                None => Tk::Id(w),
            });
        } else if ch == '0' && i + 2 < c.len() && c[i + 1] == 'x' && c[i + 2].is_ascii_hexdigit() {
            let s = i;
            i += 2;
            while i < c.len() && c[i].is_ascii_hexdigit() {
                i += 1;
            }
            out.push(Tk::Num(c[s..i].iter().collect()));
        } else if ch.is_ascii_digit() {
            let s = i;
            while digit(i) {
                i += 1;
            }
            if i < c.len() && c[i] == '.' {
                i += 1;
                while digit(i) {
                    i += 1;
                }
            }
            i = exponent(i);
            out.push(Tk::Num(c[s..i].iter().collect()));
        } else if ch == '.' && digit(i + 1) {
            let s = i;
            i += 1;
            while digit(i) {
                i += 1;
            }
            i = exponent(i);
            out.push(Tk::Num(c[s..i].iter().collect()));
        } else if ch == '\'' {
            let s = i + 1;
            i = s;
            while i < c.len() && c[i] != '\'' && !(c[i] < ' ' || c[i] == '\u{7f}') {
                i += 1;
            }
            if i >= c.len() || c[i] != '\'' {
                return None;
            }
            out.push(Tk::Str(c[s..i].iter().collect()));
            i += 1;
        } else {
            let two: String = c[i..(i + 2).min(c.len())].iter().collect();
            if let Some(s) = SYMBOLS.iter().find(|s| s.len() == 2 && **s == two) {
                out.push(Tk::Sym(s));
                i += 2;
            } else if let Some(s) = SYMBOLS.iter().find(|s| s.len() == 1 && s.starts_with(ch)) {
                out.push(Tk::Sym(s));
                i += 1;
            } else {
                return None;
            }
        }
    }
    Some(out)
}

// ---------------------------------------------------------------- reference parser
pub struct P<'a> {
    t: &'a [Tk],
    i: usize,
}

type R<T> = Result<T, ()>;

pub fn parse(toks: &[Tk]) -> Option<Stmt> {
    let mut p = P { t: toks, i: 0 };
    let s = p.sql().ok()?;
    if p.i == toks.len() {
        Some(s)
    } else {
        None
    }
}

pub fn parse_text(text: &str) -> Option<Stmt> {
    parse(&lex(text)?)
}

impl<'a> P<'a> {
    fn kw_at(&self, k: usize, w: &str) -> bool {
        matches!(self.t.get(self.i + k), Some(Tk::Kw(x)) if *x == w)
    }
    fn sym_at(&self, k: usize, w: &str) -> bool {
        matches!(self.t.get(self.i + k), Some(Tk::Sym(x)) if *x == w)
    }
    fn kw(&mut self, w: &str) -> bool {
        let r = self.kw_at(0, w);
        self.i += r as usize;
        r
    }
    fn sym(&mut self, w: &str) -> bool {
        let r = self.sym_at(0, w);
        self.i += r as usize;
        r
    }
    fn need_kw(&mut self, w: &str) -> R<()> {
        if self.kw(w) {
            Ok(())
        } else {
            Err(())
        }
    }
    fn need(&mut self, w: &str) -> R<()> {
        if self.sym(w) {
            Ok(())
        } else {
            Err(())
        }
    }
    fn id_at(&self, k: usize) -> bool {
        matches!(self.t.get(self.i + k), Some(Tk::Id(_)))
    }
    fn id(&mut self) -> R<Name> {
        match self.t.get(self.i) {
            Some(Tk::Id(n)) => {
                self.i += 1;
                Ok(n.clone())
            }
            _ => Err(()),
        }
    }
    fn string(&mut self) -> R<String> {
        match self.t.get(self.i) {
            Some(Tk::Str(n)) => {
                self.i += 1;
                Ok(n.clone())
            }
            _ => Err(()),
        }
    }
    fn qid(&mut self, max: usize) -> R<Vec<Name>> {
        let mut v = vec![self.id()?];
        while v.len() < max && self.sym_at(0, ".") && self.id_at(1) {
            self.i += 1;
            v.push(self.id()?);
        }
        Ok(v)
    }
    fn ids(&mut self) -> R<Vec<Name>> {
        let mut v = vec![self.id()?];
        while self.sym(",") {
            v.push(self.id()?);
        }
        Ok(v)
    }
    fn select_follows(&self, k: usize) -> bool {
        self.kw_at(k, "SELECT") || self.kw_at(k, "VALUES") || self.kw_at(k, "WITH")
    }

    fn sql(&mut self) -> R<Stmt> {
        if self.kw("EXPLAIN") {
            if self.kw("QUERY") {
                self.need_kw("PLAN")?;
            }
            return Ok(Stmt::Explain(Box::new(self.statement()?)));
        }
        if self.kw("ATTACH") {
            self.need_kw("FILE")?;
            let p = self.string()?;
            self.need_kw("AS")?;
            return Ok(Stmt::Attach(p, self.qid(2)?));
        }
        if self.kw("DESCRIBE") {
            return Ok(Stmt::Describe(self.qid(2)?));
        }
        self.statement()
    }

    fn statement(&mut self) -> R<Stmt> {
        let common = self.with()?;
        if self.kw("INSERT") {
            self.need_kw("INTO")?;
            let table = self.qid(3)?;
            let cols = if self.sym("(") {
                let v = self.ids()?;
                self.need(")")?;
                Some(v)
            } else {
                None
            };
            return Ok(Stmt::Insert { common, table, cols, source: self.core()? });
        }
        if self.kw("DELETE") {
            self.need_kw("FROM")?;
            let table = self.qid(3)?;
            return Ok(Stmt::Delete { common, table, wher: self.wher()? });
        }
        if self.kw("UPDATE") {
            let table = self.qid(3)?;
            self.need_kw("SET")?;
            let mut sets = vec![];
            loop {
                let ids = self.ids()?;
                self.need("=")?;
                sets.push((ids, self.expr()?));
                if !self.sym(",") {
                    break;
                }
            }
            return Ok(Stmt::Update { common, table, sets, wher: self.wher()? });
        }
        Ok(Stmt::Select(self.select_rest(common)?))
    }

    fn wher(&mut self) -> R<Option<E>> {
        Ok(if self.kw("WHERE") { Some(self.expr()?) } else { None })
    }

    fn with(&mut self) -> R<Vec<Cte>> {
        let mut v = vec![];
        if self.kw("WITH") {
            loop {
                let id = self.id()?;
                let cols = if self.sym("(") {
                    let c = self.ids()?;
                    self.need(")")?;
                    Some(c)
                } else {
                    None
                };
                self.need_kw("AS")?;
                self.need("(")?;
                let query = self.select()?;
                self.need(")")?;
                v.push(Cte { id, cols, query });
                if !self.sym(",") {
                    break;
                }
            }
        }
        Ok(v)
    }

    fn select(&mut self) -> R<Sel> {
        let common = self.with()?;
        self.select_rest(common)
    }

    fn select_rest(&mut self, common: Vec<Cte>) -> R<Sel> {
        let mut set = self.core()?;
        loop {
            let op = if self.kw("UNION") {
                if self.kw("ALL") {
                    SetOp::UnionAll
                } else {
                    SetOp::Union
                }
            } else if self.kw("INTERSECT") {
                SetOp::Intersect
            } else if self.kw("EXCEPT") {
                SetOp::Except
            } else {
                break;
            };
            let r = self.core()?;
            set = Set::Op(op, Box::new(set), Box::new(r));
        }
        let mut order = vec![];
        if self.kw("ORDER") {
            self.need_kw("BY")?;
            loop {
                let expr = self.expr()?;
                let collate = if self.kw("COLLATE") { Some(self.id()?) } else { None };
                let desc = if self.kw("ASC") { false } else { self.kw("DESC") };
                order.push(Ord_ { expr, collate, desc });
                if !self.sym(",") {
                    break;
                }
            }
        }
        let mut limit = None;
        if self.kw("LIMIT") {
            let n = self.expr()?;
            let o = if self.sym(",") || self.kw("OFFSET") { Some(self.expr()?) } else { None };
            limit = Some((n, o));
        }
        Ok(Sel { common, set, order, limit })
    }

    fn core(&mut self) -> R<Set> {
        if self.kw("VALUES") {
            let mut rows = vec![];
            loop {
                self.need("(")?;
                rows.push(self.exprs()?);
                self.need(")")?;
                if !self.sym(",") {
                    break;
                }
            }
            return Ok(Set::Values(rows));
        }
        self.need_kw("SELECT")?;
        let distinct = if self.kw("ALL") { false } else { self.kw("DISTINCT") };
        let cols = if self.sym("*") {
            Cols::All
        } else {
            let mut v = vec![];
            loop {
                if self.id_at(0) && self.sym_at(1, ".") && self.sym_at(2, "*") {
                    v.push(Col::AllFrom(self.id()?));
                    self.i += 2;
                } else {
                    let e = self.expr()?;
                    let n = if self.kw("AS") || self.id_at(0) { Some(self.id()?) } else { None };
                    v.push(Col::Expr(e, n));
                }
                if !self.sym(",") {
                    break;
                }
            }
            Cols::List(v)
        };
        let mut from = vec![];
        if self.kw("FROM") {
            loop {
                from.push(self.table()?);
                if !self.sym(",") {
                    break;
                }
            }
        }
        let wher = self.wher()?;
        let mut group = None;
        if self.kw("GROUP") {
            self.need_kw("BY")?;
            let g = self.exprs()?;
            let h = if self.kw("HAVING") { Some(self.expr()?) } else { None };
            group = Some((g, h));
        }
        Ok(Set::Query { distinct, cols, from, wher, group })
    }

    fn table(&mut self) -> R<Tab> {
        let mut l = self.table_primary()?;
        loop {
            let op = if self.kw("CROSS") {
                self.need_kw("JOIN")?;
                JOp::Cross
            } else {
                let natural = self.kw("NATURAL");
                let ty = if self.kw("LEFT") {
                    self.kw("OUTER");
                    Some(JT::Left)
                } else if self.kw("RIGHT") {
                    self.kw("OUTER");
                    Some(JT::Right)
                } else if self.kw("FULL") {
                    self.kw("OUTER");
                    Some(JT::Full)
                } else if self.kw("INNER") {
                    Some(JT::Inner)
                } else {
                    None
                };
                if natural || ty.is_some() {
                    self.need_kw("JOIN")?;
                } else if !self.kw("JOIN") {
                    break;
                }
                let ty = ty.unwrap_or(JT::Inner);
                if natural {
                    JOp::Natural(ty)
                } else {
                    JOp::Join(ty)
                }
            };
            let r = self.table_primary()?;
            let c = if self.kw("ON") {
                Con::On(self.expr()?)
            } else {
                self.need_kw("USING")?;
                self.need("(")?;
                let v = self.ids()?;
                self.need(")")?;
                Con::Using(v)
            };
            l = Tab::Join(Box::new(l), Box::new(r), op, c);
        }
        Ok(l)
    }

    fn alias(&mut self) -> R<Option<Name>> {
        Ok(if self.kw("AS") || self.id_at(0) { Some(self.id()?) } else { None })
    }

    fn table_primary(&mut self) -> R<Tab> {
        if self.sym("(") {
            if self.select_follows(0) {
                let s = self.select()?;
                self.need(")")?;
                return Ok(Tab::Derived(s, self.alias()?));
            }
            let t = self.table()?;
            self.need(")")?;
            return Ok(t);
        }
        let n = self.qid(3)?;
        Ok(Tab::Named(n, self.alias()?))
    }

    fn exprs(&mut self) -> R<Vec<E>> {
        let mut v = vec![self.expr()?];
        while self.sym(",") {
            v.push(self.expr()?);
        }
        Ok(v)
    }

    fn expr(&mut self) -> R<E> {
        let mut l = self.and()?;
        while self.kw("OR") {
            l = E::Bin(Bin::Or, Box::new(l), Box::new(self.and()?));
        }
        Ok(l)
    }

    fn and(&mut self) -> R<E> {
        let mut l = self.not()?;
        while self.kw("AND") {
            l = E::Bin(Bin::And, Box::new(l), Box::new(self.not()?));
        }
        Ok(l)
    }

    fn not(&mut self) -> R<E> {
        if self.kw("NOT") {
            return Ok(E::Not(Box::new(self.complex()?)));
        }
        self.complex()
    }

    fn complex(&mut self) -> R<E> {
        if self.kw("CASE") {
            let e = if self.kw_at(0, "WHEN") { None } else { Some(Box::new(self.expr()?)) };
            let mut w = vec![];
            self.need_kw("WHEN")?;
            loop {
                let g = self.expr()?;
                self.need_kw("THEN")?;
                let b = self.expr()?;
                w.push((g, b));
                if !self.kw("WHEN") {
                    break;
                }
            }
            let x = if self.kw("ELSE") { Some(Box::new(self.expr()?)) } else { None };
            self.need_kw("END")?;
            return Ok(E::Case(e, w, x));
        }
        let mut l = self.additive()?;
        loop {
            let b = Box::new(l.clone());
            let cmp = [("=", Cmp::Eq), ("!=", Cmp::Ne), ("<", Cmp::Lt), ("<=", Cmp::Le), (">", Cmp::Gt), (">=", Cmp::Ge)];
            if let Some((_, op)) = cmp.iter().find(|(s, _)| self.sym_at(0, s)) {
                self.i += 1;
                l = E::Cmp(*op, b, Box::new(self.additive()?));
            } else if self.kw("LIKE") {
                l = E::Cmp(Cmp::Like, b, Box::new(self.additive()?));
            } else if self.kw("IS") {
                let n = self.kw("NOT");
                self.need_kw("NULL")?;
                l = E::IsNull(b);
                if n {
                    l = E::Not(Box::new(l));
                }
            } else if self.kw("ISNULL") {
                l = E::IsNull(b);
            } else if self.kw("NOTNULL") {
                l = E::Not(Box::new(E::IsNull(b)));
            } else if self.kw_at(0, "NOT") || self.kw_at(0, "IN") || self.kw_at(0, "BETWEEN") {
                let n = self.kw("NOT");
                if n && self.kw("NULL") {
                    l = E::IsNull(b);
                } else if self.kw("IN") {
                    let set = if self.sym("(") {
                        let s = if self.sym_at(0, ")") {
                            InSet::List(vec![])
                        } else if self.select_follows(0) {
                            InSet::Sel(Box::new(self.select()?))
                        } else {
                            InSet::List(self.exprs()?)
                        };
                        self.need(")")?;
                        s
                    } else {
                        InSet::Name(self.qid(3)?)
                    };
                    l = E::In(b, set);
                } else if self.kw("BETWEEN") {
                    let lo = self.additive()?;
                    self.need_kw("AND")?;
                    let hi = self.additive()?;
                    l = E::Between(b, Box::new(lo), Box::new(hi));
                } else {
                    return Err(());
                }
                if n {
                    l = E::Not(Box::new(l));
                }
            } else {
                return Ok(l);
            }
        }
    }

    fn additive(&mut self) -> R<E> {
        let mut l = self.mult()?;
        loop {
            let op = if self.sym("+") {
                Bin::Add
            } else if self.sym("-") {
                Bin::Sub
            } else if self.sym("||") {
                Bin::Cat
            } else {
                return Ok(l);
            };
            l = E::Bin(op, Box::new(l), Box::new(self.mult()?));
        }
    }

    fn mult(&mut self) -> R<E> {
        let mut l = self.unary()?;
        loop {
            let op = if self.sym("*") {
                Bin::Mul
            } else if self.sym("/") {
                Bin::Div
            } else {
                return Ok(l);
            };
            l = E::Bin(op, Box::new(l), Box::new(self.unary()?));
        }
    }

    fn unary(&mut self) -> R<E> {
        if self.sym("+") {
            return self.unary();
        }
        if self.sym("-") {
            return Ok(E::Neg(Box::new(self.unary()?)));
        }
        self.primary()
    }

    fn primary(&mut self) -> R<E> {
        if self.sym("(") {
            if self.select_follows(0) {
                let s = self.select()?;
                self.need(")")?;
                return Ok(E::Sub(Box::new(s)));
            }
            let mut v = self.exprs()?;
            self.need(")")?;
            return Ok(if v.len() == 1 { v.remove(0) } else { E::Tuple(v) });
        }
        let lit = match self.t.get(self.i) {
            Some(Tk::Num(s)) => Lit::Num(s.clone()),
            Some(Tk::Str(s)) => Lit::Str(s.clone()),
            Some(Tk::Kw("NULL")) => Lit::Null,
            Some(Tk::Kw("CURRENT_TIME")) => Lit::CurTime,
            Some(Tk::Kw("CURRENT_DATE")) => Lit::CurDate,
            Some(Tk::Kw("CURRENT_TIMESTAMP")) => Lit::CurTs,
            Some(Tk::Kw(k @ ("DATE" | "TIME" | "TIMESTAMP"))) => {
                let k = *k;
                self.i += 1;
                let s = self.string()?;
                return Ok(E::Lit(match k {
                    "DATE" => Lit::Date(s),
                    "TIME" => Lit::Time(s),
                    _ => Lit::Ts(s),
                }));
            }
            Some(Tk::Id(_)) => return Ok(E::Id(self.qid(3)?)),
            _ => return Err(()),
        };
        self.i += 1;
        Ok(E::Lit(lit))
    }
}

// ---------------------------------------------------------------- printing
/// Turns a statement into tokens, with redundant parentheses and optional words as drawn.
pub struct Printer<'a> {
    pub s: &'a mut Src,
    pub out: Vec<Tk>,
    /// add redundant parentheses and unary plus signs
    pub noise: bool,
}

pub fn tokens(s: &mut Src, stmt: &Stmt, noise: bool) -> Vec<Tk> {
    let mut p = Printer { s, out: vec![], noise };
    p.stmt(stmt);
    p.out
}

impl<'a> Printer<'a> {
    fn k(&mut self, words: &str) {
        for w in words.split(' ') {
            self.out.push(Tk::Kw(keyword(w).unwrap_or_else(|| panic!("harness bug: keyword {}", w))));
        }
    }
    fn y(&mut self, s: &str) {
        self.out.push(Tk::Sym(SYMBOLS.iter().find(|x| **x == s).unwrap()));
    }
    fn id(&mut self, n: &str) {
        self.out.push(Tk::Id(n.to_string()));
    }
    fn qid(&mut self, n: &[Name]) {
        for (i, x) in n.iter().enumerate() {
            if i > 0 {
                self.y(".");
            }
            self.id(x);
        }
    }
    fn ids(&mut self, n: &[Name]) {
        for (i, x) in n.iter().enumerate() {
            if i > 0 {
                self.y(",");
            }
            self.id(x);
        }
    }
    fn maybe(&mut self, den: u64) -> bool {
        self.noise && self.s.chance(1, den)
    }

    fn stmt(&mut self, st: &Stmt) {
        match st {
            Stmt::Select(s) => self.sel(s),
            Stmt::Insert { common, table, cols, source } => {
                self.with(common);
                self.k("INSERT INTO");
                self.qid(table);
                if let Some(c) = cols {
                    self.y("(");
                    self.ids(c);
                    self.y(")");
                }
                self.set(source);
            }
            Stmt::Delete { common, table, wher } => {
                self.with(common);
                self.k("DELETE FROM");
                self.qid(table);
                self.wher(wher);
            }
            Stmt::Update { common, table, sets, wher } => {
                self.with(common);
                self.k("UPDATE");
                self.qid(table);
                self.k("SET");
                for (i, (c, e)) in sets.iter().enumerate() {
                    if i > 0 {
                        self.y(",");
                    }
                    self.ids(c);
                    self.y("=");
                    self.e(e, 1);
                }
                self.wher(wher);
            }
            Stmt::Attach(p, n) => {
                self.k("ATTACH FILE");
                self.out.push(Tk::Str(p.clone()));
                self.k("AS");
                self.qid(n);
            }
            Stmt::Describe(n) => {
                self.k("DESCRIBE");
                self.qid(n);
            }
            Stmt::Explain(s) => {
                self.k("EXPLAIN");
                if self.maybe(2) {
                    self.k("QUERY PLAN");
                }
                self.stmt(s);
            }
        }
    }

    fn with(&mut self, c: &[Cte]) {
        for (i, c) in c.iter().enumerate() {
            if i == 0 {
                self.k("WITH");
            } else {
                self.y(",");
            }
            self.id(&c.id);
            if let Some(n) = &c.cols {
                self.y("(");
                self.ids(n);
                self.y(")");
            }
            self.k("AS");
            self.y("(");
            self.sel(&c.query);
            self.y(")");
        }
    }

    fn wher(&mut self, w: &Option<E>) {
        if let Some(e) = w {
            self.k("WHERE");
            self.e(e, 1);
        }
    }

    fn sel(&mut self, s: &Sel) {
        self.with(&s.common);
        self.set(&s.set);
        for (i, o) in s.order.iter().enumerate() {
            if i == 0 {
                self.k("ORDER BY");
            } else {
                self.y(",");
            }
            self.e(&o.expr, 1);
            if let Some(c) = &o.collate {
                self.k("COLLATE");
                self.id(c);
            }
            if o.desc {
                self.k("DESC");
            } else if self.maybe(2) {
                self.k("ASC");
            }
        }
        if let Some((n, o)) = &s.limit {
            self.k("LIMIT");
            self.e(n, 1);
            if let Some(o) = o {
                if self.maybe(2) {
                    self.y(",");
                } else {
                    self.k("OFFSET");
                }
                self.e(o, 1);
            }
        }
    }

    fn set(&mut self, s: &Set) {
        match s {
            Set::Op(op, l, r) => {
                self.set(l);
                self.k(match op {
                    SetOp::Intersect => "INTERSECT",
                    SetOp::Except => "EXCEPT",
                    SetOp::Union => "UNION",
                    SetOp::UnionAll => "UNION ALL",
                });
                self.set(r);
            }
            Set::Values(rows) => {
                self.k("VALUES");
                for (i, r) in rows.iter().enumerate() {
                    if i > 0 {
                        self.y(",");
                    }
                    self.y("(");
                    self.es(r);
                    self.y(")");
                }
            }
            Set::Query { distinct, cols, from, wher, group } => {
                self.k("SELECT");
                if *distinct {
                    self.k("DISTINCT");
                } else if self.maybe(4) {
                    self.k("ALL");
                }
                match cols {
                    Cols::All => self.y("*"),
                    Cols::List(cs) => {
                        for (i, c) in cs.iter().enumerate() {
                            if i > 0 {
                                self.y(",");
                            }
                            match c {
                                Col::AllFrom(n) => {
                                    self.id(n);
                                    self.y(".");
                                    self.y("*");
                                }
                                Col::Expr(e, n) => {
                                    self.e(e, 1);
                                    self.alias(n);
                                }
                            }
                        }
                    }
                }
                for (i, t) in from.iter().enumerate() {
                    if i == 0 {
                        self.k("FROM");
                    } else {
                        self.y(",");
                    }
                    self.tab(t, false);
                }
                self.wher(wher);
                if let Some((g, h)) = group {
                    self.k("GROUP BY");
                    self.es(g);
                    if let Some(h) = h {
                        self.k("HAVING");
                        self.e(h, 1);
                    }
                }
            }
        }
    }

    fn alias(&mut self, n: &Option<Name>) {
        if let Some(n) = n {
            if !self.maybe(2) {
                self.k("AS");
            }
            self.id(n);
        }
    }

    fn tab(&mut self, t: &Tab, primary: bool) {
        let parens = self.maybe(8);
        if parens {
            self.y("(");
        }
        match t {
            Tab::Named(n, a) => {
                self.qid(n);
                self.alias(a);
            }
            Tab::Derived(s, a) => {
                self.y("(");
                self.sel(s);
                self.y(")");
                self.alias(a);
            }
            Tab::Join(l, r, op, c) => {
                let more = primary && !parens;
                if more {
                    self.y("(");
                }
                self.tab(l, false);
                let jt = match op {
                    JOp::Cross => {
                        self.k("CROSS");
                        None
                    }
                    JOp::Natural(t) => {
                        self.k("NATURAL");
                        Some(*t)
                    }
                    JOp::Join(t) => Some(*t),
                };
                if let Some(t) = jt {
                    match t {
                        JT::Inner => {
                            if self.maybe(2) {
                                self.k("INNER");
                            }
                        }
                        _ => {
                            self.k(match t {
                                JT::Left => "LEFT",
                                JT::Right => "RIGHT",
                                _ => "FULL",
                            });
                            if self.maybe(2) {
                                self.k("OUTER");
                            }
                        }
                    }
                }
                self.k("JOIN");
                self.tab(r, true);
                match c {
                    Con::On(e) => {
                        self.k("ON");
                        self.e(e, 1);
                    }
                    Con::Using(n) => {
                        self.k("USING");
                        self.y("(");
                        self.ids(n);
                        self.y(")");
                    }
                }
                if more {
                    self.y(")");
                }
            }
        }
        if parens {
            self.y(")");
        }
    }

    fn es(&mut self, es: &[E]) {
        for (i, e) in es.iter().enumerate() {
            if i > 0 {
                self.y(",");
            }
            self.e(e, 1);
        }
    }

    /// Level: 1 OR, 2 AND, 3 NOT, 4 CASE, 5 comparison, 6 additive, 7 multiplicative, 8 unary, 9 primary
    fn e(&mut self, e: &E, min: u8) {
        if self.maybe(10) {
            self.y("(");
            self.e(e, 1);
            self.y(")");
            return;
        }
        if min <= 8 && self.maybe(24) {
            self.y("+");
            self.e(e, 8);
            return;
        }
        // NOT over a predicate has a second spelling
        let negated = match e {
            E::Not(x) => match &**x {
                E::In(..) | E::Between(..) | E::IsNull(..) => self.s.chance(1, 2),
                _ => false,
            },
            _ => false,
        };
        let level = match e {
            E::Bin(Bin::Or, ..) => 1,
            E::Bin(Bin::And, ..) => 2,
            E::Not(_) if !negated => 3,
            E::Case(..) => 4,
            E::Cmp(..) | E::In(..) | E::Between(..) | E::IsNull(..) | E::Not(_) => 5,
            E::Bin(Bin::Add | Bin::Sub | Bin::Cat, ..) => 6,
            E::Bin(..) => 7,
            E::Neg(_) => 8,
            _ => 9,
        };
        // a CASE can stand where a whole condition can, but not inside a comparison
        let parens = level < min;
        if parens {
            self.y("(");
        }
        if negated {
            match e {
                E::Not(x) => self.predicate(x, true),
                _ => unreachable!(),
            }
        } else {
            self.bare(e);
        }
        if parens {
            self.y(")");
        }
    }

    fn predicate(&mut self, e: &E, not: bool) {
        match e {
            E::In(x, s) => {
                self.e(x, 5);
                if not {
                    self.k("NOT");
                }
                self.k("IN");
                match s {
                    InSet::Name(n) => self.qid(n),
                    InSet::Sel(s) => {
                        self.y("(");
                        self.sel(s);
                        self.y(")");
                    }
                    InSet::List(es) => {
                        self.y("(");
                        self.es(es);
                        self.y(")");
                    }
                }
            }
            E::Between(x, l, u) => {
                self.e(x, 5);
                if not {
                    self.k("NOT");
                }
                self.k("BETWEEN");
                self.e(l, 6);
                self.k("AND");
                self.e(u, 6);
            }
            E::IsNull(x) => {
                self.e(x, 5);
                let alt = if self.noise { self.s.upto(2) } else { 0 };
                match (not, alt) {
                    (false, 0) => self.k("IS NULL"),
                    (false, _) => self.k("ISNULL"),
                    (true, 0) => self.k("IS NOT NULL"),
                    (true, 1) => self.k("NOTNULL"),
                    (true, _) => self.k("NOT NULL"),
                }
            }
            _ => unreachable!(),
        }
    }

    fn bare(&mut self, e: &E) {
        match e {
            E::Lit(l) => match l {
                Lit::Str(s) => self.out.push(Tk::Str(s.clone())),
                Lit::Num(s) => self.out.push(Tk::Num(s.clone())),
                Lit::Null => self.k("NULL"),
                Lit::CurTime => self.k("CURRENT_TIME"),
                Lit::CurDate => self.k("CURRENT_DATE"),
                Lit::CurTs => self.k("CURRENT_TIMESTAMP"),
                Lit::Date(s) => {
                    self.k("DATE");
                    self.out.push(Tk::Str(s.clone()))
                }
                Lit::Time(s) => {
                    self.k("TIME");
                    self.out.push(Tk::Str(s.clone()))
                }
                Lit::Ts(s) => {
                    self.k("TIMESTAMP");
                    self.out.push(Tk::Str(s.clone()))
                }
            },
            E::Id(n) => self.qid(n),
            E::Tuple(es) => {
                self.y("(");
                self.es(es);
                self.y(")");
            }
            E::Sub(s) => {
                self.y("(");
                self.sel(s);
                self.y(")");
            }
            E::Neg(x) => {
                self.y("-");
                self.e(x, 8);
            }
            E::Not(x) => {
                self.k("NOT");
                self.e(x, 4);
            }
            E::IsNull(_) | E::In(..) | E::Between(..) => self.predicate(e, false),
            E::Bin(op, l, r) => {
                let (lv, rv, sym) = match op {
                    Bin::Or => (1, 2, "OR"),
                    Bin::And => (2, 3, "AND"),
                    Bin::Add => (6, 7, "+"),
                    Bin::Sub => (6, 7, "-"),
                    Bin::Cat => (6, 7, "||"),
                    Bin::Mul => (7, 8, "*"),
                    Bin::Div => (7, 8, "/"),
                };
                self.e(l, lv);
                if lv <= 2 {
                    self.k(sym);
                } else {
                    self.y(sym);
                }
                self.e(r, rv);
            }
            E::Cmp(op, l, r) => {
                self.e(l, 5);
                match op {
                    Cmp::Like => self.k("LIKE"),
                    Cmp::Eq => self.y("="),
                    Cmp::Ne => self.y("!="),
                    Cmp::Lt => self.y("<"),
                    Cmp::Le => self.y("<="),
                    Cmp::Gt => self.y(">"),
                    Cmp::Ge => self.y(">="),
                }
                self.e(r, 6);
            }
            E::Case(x, w, y) => {
                self.k("CASE");
                if let Some(x) = x {
                    self.e(x, 1);
                }
                for (g, b) in w {
                    self.k("WHEN");
                    self.e(g, 1);
                    self.k("THEN");
                    self.e(b, 1);
                }
                if let Some(y) = y {
                    self.k("ELSE");
                    self.e(y, 1);
                }
                self.k("END");
            }
        }
    }
}

/// Letter case of keywords and white space between tokens as drawn.
/// mode 0: upper case, single spaces; 1: single spaces; 2: as few as possible; 3: anything
pub fn layout(s: &mut Src, toks: &[Tk], mode: u64) -> String {
    let words: Vec<String> = toks
        .iter()
        .map(|t| match t {
            Tk::Kw(k) => {
                let style = if mode == 0 { 0 } else { s.upto(2) };
                match style {
                    0 => k.to_string(),
                    1 => k.to_lowercase(),
                    _ => k.chars().map(|c| if s.coin() { c.to_ascii_lowercase() } else { c }).collect(),
                }
            }
            Tk::Id(n) => n.clone(),
            Tk::Num(n) => n.clone(),
            Tk::Str(n) => format!("'{}'", n),
            Tk::Sym(y) => y.to_string(),
        })
        .collect();
    if mode >= 2 {
        let mut out = String::new();
        for (i, w) in words.iter().enumerate() {
            if i > 0 {
                let tight = tight(&toks[i - 1], &words[i - 1], w);
                let sep = if mode == 2 { 0 } else { s.upto(7) };
                out.push_str(match sep {
                    0 | 1 => {
                        if tight {
                            ""
                        } else {
                            " "
                        }
                    }
                    2 => " ",
                    3 => "\n",
                    4 => "\t",
                    5 => "\r\n",
                    6 => "  \n\t ",
                    _ => "\u{b} \u{c}",
                });
            }
            out.push_str(w);
        }
        if mode == 3 && s.chance(1, 4) {
            out = format!("\n {}\t ", out);
        }
        if lex(&out).as_deref() == Some(toks) {
            return out;
        }
    }
    words.join(" ")
}

fn tight(prev_tk: &Tk, prev: &str, next: &str) -> bool {
    let a = prev.chars().last().unwrap();
    let b = next.chars().next().unwrap();
    let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
    if word(a) && word(b) {
        return false;
    }
    if matches!(prev_tk, Tk::Num(_)) && (b == '.' || word(b)) || a == '.' && b.is_ascii_digit() {
        return false;
    }
    if matches!(a, '<' | '>' | '!' | '=' | '|') && matches!(b, '=' | '|' | '>') {
        return false;
    }
    true
}

// ---------------------------------------------------------------- arbitrary statements
pub struct Gen<'a> {
    pub s: &'a mut Src,
    /// remaining nodes
    pub fuel: i32,
    pub names: &'a [&'static str],
}

pub const NAMES: [&str; 24] = [
    "a", "b", "C", "t1", "T2", "x", "y_1", "_", "__z", "Order1", "selecting", "ALLx", "e5", "E5", "x1F", "NULLS", "current", "datetime", "inn",
    "isnul", "notnul", "lefty", "ascii", "a_very_long_identifier_with_many_letters_0123456789",
];

impl<'a> Gen<'a> {
    fn spend(&mut self) -> bool {
        self.fuel -= 1;
        self.fuel > 0
    }
    pub fn name(&mut self) -> Name {
        let n = if self.s.chance(1, 16) { sql_word(self.s) } else { self.s.pick(self.names).to_string() };
        match self.s.weighted(&[6, 1, 1]) {
            0 => n,
            1 => n.to_uppercase(),
            _ => n.to_lowercase(),
        }
    }
    fn name_list(&mut self) -> Vec<Name> {
        let k = self.s.weighted(&[5, 3, 1, 1]) + 1;
        (0..k).map(|_| self.name()).collect()
    }
    fn qname(&mut self, max: usize) -> Vec<Name> {
        let k = if max == 2 { self.s.weighted(&[3, 2]) } else { self.s.weighted(&[4, 4, 1]) } + 1;
        (0..k).map(|_| self.name()).collect()
    }
    fn text(&mut self) -> String {
        let k = self.s.len(8);
        (0..k)
            .map(|_| {
                let i = self.s.upto(31);
                [
                    'a', 'Z', ' ', '0', '9', '-', ':', '.', '"', '\\', '/', '*', '%', '_', '(', ')', ';', ',', '=', '!', '\u{a0}', 'é', 'ß', 'ſ', 'K',
                    '\u{2028}', '日', '😀', '\u{85}', '\u{301}', 'n', '`',
                ][i as usize]
            })
            .collect()
    }
    fn number(&mut self) -> String {
        let d = |g: &mut Self, n: u64| -> String {
            let k = 1 + g.s.upto(n);
            (0..k).map(|_| (b'0' + g.s.upto(9) as u8) as char).collect()
        };
        let exp = |g: &mut Self| -> String {
            if g.s.chance(1, 3) {
                let sign = *g.s.pick(&["", "+", "-"]);
                let n = d(g, 3);
                format!("E{}{}", sign, n)
            } else {
                String::new()
            }
        };
        match self.s.weighted(&[5, 2, 2, 1, 2]) {
            0 => d(self, 4),
            1 => {
                let (a, b) = (d(self, 3), d(self, 3));
                format!("{}.{}{}", a, b, exp(self))
            }
            2 => {
                let a = d(self, 3);
                format!(".{}{}", a, exp(self))
            }
            3 => {
                let a = d(self, 3);
                format!("{}{}{}", a, if self.s.coin() { "." } else { "" }, exp(self))
            }
            _ => {
                let k = 1 + self.s.upto(7);
                let h: String = (0..k).map(|_| *self.s.pick(&['0', '7', '9', 'a', 'F', 'E', 'e', 'B'])).collect();
                format!("0x{}", h)
            }
        }
    }
    pub fn lit(&mut self) -> Lit {
        match self.s.weighted(&[4, 4, 2, 1, 1, 1, 1, 1, 1]) {
            0 => Lit::Num(self.number()),
            1 => Lit::Str(self.text()),
            2 => Lit::Null,
            3 => Lit::CurTime,
            4 => Lit::CurDate,
            5 => Lit::CurTs,
            6 => Lit::Date(self.text()),
            7 => Lit::Time(self.text()),
            _ => Lit::Ts(self.text()),
        }
    }
    fn elist(&mut self) -> Vec<E> {
        let k = self.s.weighted(&[4, 4, 2, 1]) + 1;
        (0..k).map(|_| self.expr()).collect()
    }
    pub fn expr(&mut self) -> E {
        if !self.spend() {
            return if self.s.coin() { E::Lit(self.lit()) } else { E::Id(self.qname(3)) };
        }
        let b = |g: &mut Self| Box::new(g.expr());
        match self.s.weighted(&[6, 6, 2, 2, 2, 3, 3, 14, 7, 4, 4, 3]) {
            0 => E::Id(self.qname(3)),
            1 => E::Lit(self.lit()),
            2 => {
                let mut v = self.elist();
                if v.len() < 2 {
                    v.push(self.expr());
                }
                E::Tuple(v)
            }
            3 => E::Sub(Box::new(self.sel())),
            4 => E::Neg(b(self)),
            5 => E::Not(b(self)),
            6 => E::IsNull(b(self)),
            7 => {
                let op = *self.s.pick(&[Bin::Add, Bin::Sub, Bin::Cat, Bin::Mul, Bin::Div, Bin::And, Bin::Or]);
                let (l, r) = (b(self), b(self));
                E::Bin(op, l, r)
            }
            8 => {
                let op = *self.s.pick(&[Cmp::Eq, Cmp::Ne, Cmp::Lt, Cmp::Le, Cmp::Gt, Cmp::Ge, Cmp::Like]);
                let (l, r) = (b(self), b(self));
                E::Cmp(op, l, r)
            }
            9 => {
                let x = b(self);
                let set = match self.s.weighted(&[3, 1, 2, 2]) {
                    0 => InSet::List(self.elist()),
                    1 => InSet::List(vec![]),
                    2 => InSet::Name(self.qname(3)),
                    _ => InSet::Sel(Box::new(self.sel())),
                };
                E::In(x, set)
            }
            10 => {
                let (x, l, u) = (b(self), b(self), b(self));
                E::Between(x, l, u)
            }
            _ => {
                let x = if self.s.coin() { Some(b(self)) } else { None };
                let k = self.s.weighted(&[3, 2, 1]) + 1;
                let w = (0..k).map(|_| (self.expr(), self.expr())).collect();
                let y = if self.s.coin() { Some(b(self)) } else { None };
                E::Case(x, w, y)
            }
        }
    }
    fn ctes(&mut self) -> Vec<Cte> {
        if self.fuel < 4 || !self.s.chance(1, 5) {
            return vec![];
        }
        let k = self.s.weighted(&[3, 1]) + 1;
        (0..k)
            .map(|_| Cte { id: self.name(), cols: if self.s.chance(1, 3) { Some(self.name_list()) } else { None }, query: self.sel() })
            .collect()
    }
    pub fn sel(&mut self) -> Sel {
        self.spend();
        let common = self.ctes();
        let mut set = self.core();
        while self.fuel > 2 && self.s.chance(1, 5) {
            let op = *self.s.pick(&[SetOp::Union, SetOp::UnionAll, SetOp::Intersect, SetOp::Except]);
            let r = self.core();
            set = Set::Op(op, Box::new(set), Box::new(r));
        }
        let mut order = vec![];
        if self.s.chance(1, 4) {
            let k = self.s.weighted(&[3, 1]) + 1;
            for _ in 0..k {
                order.push(Ord_ {
                    expr: self.expr(),
                    collate: if self.s.chance(1, 4) { Some(self.name()) } else { None },
                    desc: self.s.coin(),
                });
            }
        }
        let limit = if self.s.chance(1, 4) {
            let n = self.expr();
            let o = if self.s.coin() { Some(self.expr()) } else { None };
            Some((n, o))
        } else {
            None
        };
        Sel { common, set, order, limit }
    }
    fn core(&mut self) -> Set {
        if self.s.chance(1, 6) {
            let k = self.s.weighted(&[3, 2, 1]) + 1;
            return Set::Values((0..k).map(|_| self.elist()).collect());
        }
        let distinct = self.s.chance(1, 4);
        let cols = if self.s.chance(1, 6) {
            Cols::All
        } else {
            let k = self.s.weighted(&[4, 3, 1]) + 1;
            Cols::List(
                (0..k)
                    .map(|_| {
                        if self.s.chance(1, 7) {
                            Col::AllFrom(self.name())
                        } else {
                            let e = self.expr();
                            Col::Expr(e, if self.s.chance(1, 3) { Some(self.name()) } else { None })
                        }
                    })
                    .collect(),
            )
        };
        let k = self.s.weighted(&[1, 4, 2, 1]);
        let from = (0..k).map(|_| self.tab()).collect();
        let wher = if self.s.chance(1, 3) { Some(self.expr()) } else { None };
        let group = if self.s.chance(1, 5) {
            let g = self.elist();
            let h = if self.s.coin() { Some(self.expr()) } else { None };
            Some((g, h))
        } else {
            None
        };
        Set::Query { distinct, cols, from, wher, group }
    }
    fn tab(&mut self) -> Tab {
        if !self.spend() {
            return Tab::Named(self.qname(3), None);
        }
        match self.s.weighted(&[5, 2, 3]) {
            0 => {
                let n = self.qname(3);
                Tab::Named(n, if self.s.coin() { Some(self.name()) } else { None })
            }
            1 => {
                let q = self.sel();
                Tab::Derived(q, if self.s.coin() { Some(self.name()) } else { None })
            }
            _ => {
                let l = self.tab();
                let r = self.tab();
                let t = *self.s.pick(&[JT::Inner, JT::Left, JT::Right, JT::Full]);
                let op = match self.s.weighted(&[4, 1, 1]) {
                    0 => JOp::Join(t),
                    1 => JOp::Natural(t),
                    _ => JOp::Cross,
                };
                let c = if self.s.chance(1, 3) { Con::Using(self.name_list()) } else { Con::On(self.expr()) };
                Tab::Join(Box::new(l), Box::new(r), op, c)
            }
        }
    }
    pub fn stmt(&mut self) -> Stmt {
        match self.s.weighted(&[10, 3, 2, 3, 1, 1, 1]) {
            0 => Stmt::Select(self.sel()),
            1 => {
                let common = self.ctes();
                let table = self.qname(3);
                let cols = if self.s.coin() { Some(self.name_list()) } else { None };
                Stmt::Insert { common, table, cols, source: self.core() }
            }
            2 => {
                let common = self.ctes();
                let table = self.qname(3);
                Stmt::Delete { common, table, wher: if self.s.coin() { Some(self.expr()) } else { None } }
            }
            3 => {
                let common = self.ctes();
                let table = self.qname(3);
                let k = self.s.weighted(&[3, 2, 1]) + 1;
                let sets = (0..k).map(|_| (self.name_list(), self.expr())).collect();
                Stmt::Update { common, table, sets, wher: if self.s.coin() { Some(self.expr()) } else { None } }
            }
            4 => {
                let p = self.text();
                Stmt::Attach(p, self.qname(2))
            }
            5 => Stmt::Describe(self.qname(2)),
            _ => loop {
                match self.stmt() {
                    Stmt::Attach(..) | Stmt::Describe(..) | Stmt::Explain(..) => {
                        let sel = self.sel();
                        break Stmt::Explain(Box::new(Stmt::Select(sel)));
                    }
                    s => break Stmt::Explain(Box::new(s)),
                }
            },
        }
    }
}

pub fn gen_stmt(s: &mut Src, fuel: i32) -> Stmt {
    Gen { s, fuel, names: &NAMES }.stmt()
}

/// number of nodes that make a statement interesting
pub fn weight(d: &str) -> usize {
    d.bytes().filter(|b| *b == b'(').count()
}
