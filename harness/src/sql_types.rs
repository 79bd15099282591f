//! Reference type checker for SQL statements. It answers with three verdicts: a statement that
//! must be refused, one that must be accepted (with the result columns), or one on which the
//! property says nothing.

use crate::sql_ast::*;
use cathlamet::sql::verif as hook;

pub type T = hook::ColumnType;
pub const ALL_T: [T; 8] = [T::Generic, T::Varchar, T::Numeric, T::Logical, T::Date, T::Time, T::Timestamp, T::Geometry];

pub fn ordered(t: T) -> bool {
    matches!(t, T::Varchar | T::Numeric | T::Date | T::Time | T::Timestamp)
}

/// may the value be null: no, either answer is fine, yes
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum N {
    No,
    Free,
    Yes,
}

pub fn or(a: N, b: N) -> N {
    match (a, b) {
        (N::Yes, _) | (_, N::Yes) => N::Yes,
        (N::No, N::No) => N::No,
        _ => N::Free,
    }
}

#[derive(Clone, Debug)]
pub enum Ty {
    /// scalar; the type may be unknown
    S(Option<T>, N),
    Tuple(Vec<Ty>),
    Unknown,
}

#[derive(Clone, Debug, PartialEq)]
pub enum CName {
    Exact(String),
    /// the name followed by digits (a repeated name made unique)
    Suffixed(String),
    /// a generated name
    Any,
}

#[derive(Clone, Debug)]
pub struct Column {
    pub name: CName,
    pub t: Option<T>,
    pub n: N,
}

#[derive(Clone, Debug)]
pub struct Table {
    pub schema: String,
    pub name: String,
    pub cols: Vec<(String, T, bool)>,
    pub view: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Cat {
    pub schemas: Vec<String>,
    pub default: String,
    pub tables: Vec<Table>,
}

impl Cat {
    pub fn find(&self, schema: &str, name: &str) -> Option<&Table> {
        self.tables.iter().find(|t| same_up(&t.schema, schema) && same_up(&t.name, name))
    }
    pub fn real(&self) -> hook::Catalog {
        let mut c = hook::Catalog::new();
        for s in &self.schemas {
            let _ = c.create_schema(s);
        }
        for t in &self.tables {
            let cols: Vec<hook::Column> = t
                .cols
                .iter()
                .map(|(n, t, nn)| hook::Column { name: n.clone(), data_type: *t, not_null: *nn, primary_key: false })
                .collect();
            c.add_object(&t.schema, &t.name, &cols, t.view);
        }
        c
    }
    pub fn text(&self) -> String {
        self.tables
            .iter()
            .map(|t| {
                format!(
                    "{}{}.{}({})",
                    if t.view { "view " } else { "" },
                    t.schema,
                    t.name,
                    t.cols.iter().map(|(n, t, nn)| format!("{} {}{}", n, t, if *nn { " NOT NULL" } else { "" })).collect::<Vec<_>>().join(", ")
                )
            })
            .collect::<Vec<_>>()
            .join("; ")
    }
}

pub fn up(s: &str) -> String {
    if s.is_ascii() {
        return s.to_ascii_uppercase();
    }
    s.chars().flat_map(|c| c.to_uppercase()).collect()
}

fn same_up(a: &str, b: &str) -> bool {
    if a.is_ascii() && b.is_ascii() {
        return a.eq_ignore_ascii_case(b);
    }
    up(a) == up(b)
}

#[derive(Clone, Debug, Default)]
pub struct Scope {
    pub rels: Vec<(String, Vec<Column>)>,
    pub cols: Vec<Column>,
    /// something in the scope is not known
    pub fuzzy: bool,
}

#[derive(Clone)]
pub struct Env<'a> {
    pub cat: &'a Cat,
    /// innermost last; None: columns unknown
    pub ctes: Vec<(String, Option<Vec<Column>>)>,
    pub outer: Vec<Scope>,
}

impl<'a> Env<'a> {
    pub fn new(cat: &'a Cat) -> Env<'a> {
        Env { cat, ctes: vec![], outer: vec![] }
    }
    fn inside(&self, s: &Scope) -> Env<'a> {
        let mut e = self.clone();
        e.outer.push(s.clone());
        e
    }
}

#[derive(Default)]
pub struct Chk {
    pub bad: Option<String>,
    pub dunno: Option<String>,
}

#[derive(Debug)]
pub enum Verdict {
    Refuse(String),
    Accept(Option<Vec<Column>>),
    Open(String),
}

pub fn verdict(cat: &Cat, st: &Stmt) -> Verdict {
    let mut c = Chk::default();
    let cols = c.stmt(&Env::new(cat), st);
    if let Some(b) = c.bad {
        Verdict::Refuse(b)
    } else if let Some(d) = c.dunno {
        Verdict::Open(d)
    } else {
        Verdict::Accept(cols)
    }
}

fn all_digits(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())
}

/// (could be this name, is certainly this name)
fn matches_name(c: &CName, name: &str) -> (bool, bool) {
    if let CName::Exact(x) = c {
        let same = same_up(x, name);
        return (same, same);
    }
    let n = up(name);
    match c {
        CName::Exact(_) => unreachable!(),
        CName::Suffixed(x) => (n.strip_prefix(&up(x)).map(all_digits).unwrap_or(false), false),
        CName::Any => (n.starts_with("COL") || n.starts_with("_COL"), false),
    }
}

fn find_cols<'a>(cols: &'a [Column], name: &str) -> (Vec<&'a Column>, usize) {
    let sure: Vec<&Column> = cols.iter().filter(|c| matches_name(&c.name, name).1).collect();
    let maybe = cols.iter().filter(|c| matches_name(&c.name, name).0).count() - sure.len();
    (sure, maybe)
}

/// Names of a result with the given wanted names: repeated names get a numeric suffix
fn unique(names: Vec<CName>) -> Vec<CName> {
    let mut out: Vec<CName> = vec![];
    for n in names {
        let n = match n {
            CName::Exact(x) => {
                // taken, or perhaps taken by a generated name
                let sure = out.iter().any(|o| matches_name(o, &x).1);
                let maybe = out.iter().any(|o| matches_name(o, &x).0);
                if sure {
                    CName::Suffixed(x)
                } else if maybe {
                    CName::Any
                } else {
                    CName::Exact(x)
                }
            }
            o => o,
        };
        out.push(n);
    }
    out
}

impl Chk {
    fn err<S: Into<String>>(&mut self, m: S) -> Ty {
        if self.bad.is_none() {
            self.bad = Some(m.into());
        }
        Ty::Unknown
    }
    fn open<S: Into<String>>(&mut self, m: S) -> Ty {
        if self.dunno.is_none() {
            self.dunno = Some(m.into());
        }
        Ty::Unknown
    }

    fn column(&mut self, env: &Env, sc: &Scope, path: &[Name]) -> Ty {
        let pick = |me: &mut Chk, cols: &[Column], name: &str| -> Option<Ty> {
            let (sure, maybe) = find_cols(cols, name);
            match (sure.len(), maybe) {
                (0, 0) => None,
                (1, 0) => Some(Ty::S(sure[0].t, sure[0].n)),
                (k, _) if k >= 2 => Some(me.err(format!("ambiguous column {}", name))),
                _ => Some(me.open(format!("column {} may be one of several", name))),
            }
        };
        match path.len() {
            1 => {
                if sc.fuzzy {
                    return self.open("scope not known");
                }
                if let Some(t) = pick(self, &sc.cols, &path[0]) {
                    return t;
                }
                if env.outer.iter().any(|o| o.fuzzy || o.cols.iter().any(|c| matches_name(&c.name, &path[0]).0)) {
                    return self.open("correlated subquery");
                }
                self.err(format!("unknown column {}", path[0]))
            }
            2 => {
                if sc.fuzzy {
                    return self.open("scope not known");
                }
                let rels: Vec<_> = sc.rels.iter().filter(|r| same_up(&r.0, &path[0])).collect();
                match rels.len() {
                    0 => {
                        if env.outer.iter().any(|o| o.fuzzy || o.rels.iter().any(|r| same_up(&r.0, &path[0]))) {
                            return self.open("correlated subquery");
                        }
                        self.err(format!("unknown relation {}", path[0]))
                    }
                    1 => {
                        let cols = rels[0].1.clone();
                        match pick(self, &cols, &path[1]) {
                            Some(t) => t,
                            None => self.err(format!("no column {} in {}", path[1], path[0])),
                        }
                    }
                    _ => self.open("two relations of one name"),
                }
            }
            _ => self.err("column name of three parts"),
        }
    }

    pub fn table(&mut self, env: &Env, path: &[Name]) -> Option<Vec<Column>> {
        let cols = table_columns;
        match path.len() {
            1 => {
                if let Some(c) = env.ctes.iter().rev().find(|c| same_up(&c.0, &path[0])) {
                    return c.1.clone();
                }
                match env.cat.find(&env.cat.default, &path[0]) {
                    Some(t) => Some(cols(t)),
                    None => {
                        self.err(format!("unknown table {}", path[0]));
                        None
                    }
                }
            }
            2 => {
                if env.ctes.iter().any(|c| same_up(&c.0, &path[0])) {
                    self.err("schema hidden by a common table expression");
                    return None;
                }
                match env.cat.find(&path[0], &path[1]) {
                    Some(t) => Some(cols(t)),
                    None => {
                        self.err(format!("unknown table {}.{}", path[0], path[1]));
                        None
                    }
                }
            }
            _ => {
                self.err("table name of three parts");
                None
            }
        }
    }

    // common type of two values
    fn unify_t(&mut self, a: Option<T>, b: Option<T>, what: &str) -> Option<T> {
        match (a, b) {
            (None, _) | (_, None) => {
                self.open("type not known");
                None
            }
            (Some(T::Generic), x) | (x, Some(T::Generic)) => x,
            (Some(x), Some(y)) if x == y => Some(x),
            (Some(x), Some(y)) => {
                self.err(format!("{}: {} and {}", what, x, y));
                None
            }
        }
    }

    /// equality of two values; the answer is whether it may be null
    fn compat(&mut self, a: &Ty, b: &Ty, what: &str) -> N {
        match (a, b) {
            (Ty::S(t1, n1), Ty::S(t2, n2)) => {
                self.unify_t(*t1, *t2, what);
                or(*n1, *n2)
            }
            (Ty::Tuple(x), Ty::Tuple(y)) => {
                if x.len() != y.len() {
                    self.err(format!("{}: tuples of unequal width", what));
                    return N::Free;
                }
                let mut n = N::No;
                for (a, b) in x.iter().zip(y) {
                    n = or(n, self.compat(a, b, what));
                }
                n
            }
            (Ty::Unknown, _) | (_, Ty::Unknown) => N::Free,
            _ => {
                self.err(format!("{}: tuple and scalar", what));
                N::Free
            }
        }
    }

    fn want(&mut self, t: &Ty, w: T, what: &str) -> N {
        match t {
            Ty::S(Some(x), n) if *x == w => *n,
            Ty::S(Some(T::Generic), n) => {
                self.open(format!("{} on a generic value", what));
                *n
            }
            Ty::S(Some(x), n) => {
                self.err(format!("{} on {}", what, x));
                *n
            }
            Ty::S(None, n) => {
                self.open("type not known");
                *n
            }
            Ty::Tuple(_) => {
                self.err(format!("{} on a tuple", what));
                N::Free
            }
            Ty::Unknown => N::Free,
        }
    }

    fn ordered(&mut self, xs: &[&Ty], what: &str) -> N {
        let mut n = N::No;
        let mut t = Some(T::Generic);
        if xs.iter().any(|x| matches!(x, Ty::Tuple(_))) {
            self.err(format!("{} of tuples", what));
            return N::Free;
        }
        for x in xs {
            match x {
                Ty::S(u, m) => {
                    n = or(n, *m);
                    if let Some(u) = u {
                        if !ordered(*u) && *u != T::Generic {
                            self.err(format!("{} on {}", what, u));
                        }
                    }
                    if self.bad.is_none() {
                        t = self.unify_t(t, *u, what);
                    }
                }
                _ => {
                    n = or(n, N::Free);
                    t = None;
                }
            }
        }
        if t == Some(T::Generic) {
            self.open(format!("{} of generic values", what));
        }
        n
    }

    pub fn expr(&mut self, env: &Env, sc: &Scope, e: &E) -> Ty {
        match e {
            E::Lit(l) => match l {
                Lit::Str(_) => Ty::S(Some(T::Varchar), N::No),
                Lit::Num(_) => Ty::S(Some(T::Numeric), N::No),
                Lit::Null => Ty::S(Some(T::Generic), N::Yes),
                Lit::CurTime | Lit::Time(_) => Ty::S(Some(T::Time), N::No),
                Lit::CurDate | Lit::Date(_) => Ty::S(Some(T::Date), N::No),
                Lit::CurTs | Lit::Ts(_) => Ty::S(Some(T::Timestamp), N::No),
            },
            E::Id(p) => self.column(env, sc, p),
            E::Tuple(es) => Ty::Tuple(es.iter().map(|e| self.expr(env, sc, e)).collect()),
            E::Sub(s) => {
                let r = self.sel(&env.inside(sc), s);
                match r {
                    None => Ty::Unknown,
                    Some(c) if c.len() == 1 => Ty::S(c[0].t, if c[0].n == N::Yes { N::Yes } else { N::Free }),
                    Some(c) => self.err(format!("scalar subquery with {} columns", c.len())),
                }
            }
            E::Neg(x) => {
                let t = self.expr(env, sc, x);
                Ty::S(Some(T::Numeric), self.want(&t, T::Numeric, "negation"))
            }
            E::Not(x) => {
                let t = self.expr(env, sc, x);
                Ty::S(Some(T::Logical), self.want(&t, T::Logical, "NOT"))
            }
            E::IsNull(x) => {
                if let Ty::Tuple(_) = self.expr(env, sc, x) {
                    self.err("IS NULL on a tuple");
                }
                Ty::S(Some(T::Logical), N::No)
            }
            E::Bin(op, l, r) => {
                let (l, r) = (self.expr(env, sc, l), self.expr(env, sc, r));
                let t = match op {
                    Bin::Mul | Bin::Div | Bin::Add | Bin::Sub => T::Numeric,
                    Bin::Cat => T::Varchar,
                    Bin::And | Bin::Or => T::Logical,
                };
                let what = format!("{:?}", op);
                let n = self.want(&l, t, &what);
                let m = self.want(&r, t, &what);
                Ty::S(Some(t), or(n, m))
            }
            E::Cmp(op, l, r) => {
                let (l, r) = (self.expr(env, sc, l), self.expr(env, sc, r));
                let n = match op {
                    Cmp::Eq | Cmp::Ne => self.compat(&l, &r, "equality"),
                    Cmp::Like => {
                        let n = self.want(&l, T::Varchar, "LIKE");
                        let m = self.want(&r, T::Varchar, "LIKE");
                        or(n, m)
                    }
                    _ => self.ordered(&[&l, &r], "comparison"),
                };
                Ty::S(Some(T::Logical), n)
            }
            E::Between(x, l, u) => {
                let (x, l, u) = (self.expr(env, sc, x), self.expr(env, sc, l), self.expr(env, sc, u));
                Ty::S(Some(T::Logical), self.ordered(&[&x, &l, &u], "BETWEEN"))
            }
            E::In(x, set) => {
                let t = self.expr(env, sc, x);
                let n = match set {
                    InSet::List(es) if es.is_empty() => {
                        if let Ty::Tuple(_) = t {
                            self.open("tuple in an empty list");
                        }
                        // nothing decides this but the list itself
                        N::No
                    }
                    InSet::List(es) => {
                        let ts: Vec<Ty> = es.iter().map(|e| self.expr(env, sc, e)).collect();
                        let mut n = N::No;
                        let mut common = Some(T::Generic);
                        for u in &ts {
                            n = or(n, self.compat(&t, u, "IN"));
                            if let Ty::S(a, _) = u {
                                common = self.unify_t(common, *a, "IN list");
                            } else {
                                common = None;
                            }
                        }
                        for u in &ts[1..] {
                            self.compat(&ts[0], u, "IN list");
                        }
                        if matches!(t, Ty::Tuple(_)) || ts.iter().any(|u| matches!(u, Ty::Tuple(_))) {
                            self.err("IN over tuples");
                        }
                        n
                    }
                    InSet::Sel(s) => {
                        let r = self.sel(&env.inside(sc), s);
                        self.in_columns(&t, r)
                    }
                    InSet::Name(p) => {
                        let r = self.table(env, p);
                        self.in_columns(&t, r)
                    }
                };
                Ty::S(Some(T::Logical), n)
            }
            E::Case(x, whens, other) => {
                match x {
                    Some(x) => {
                        let t = self.expr(env, sc, x);
                        if let Ty::Tuple(_) = t {
                            self.open("CASE on a tuple");
                        }
                        for (g, _) in whens {
                            let u = self.expr(env, sc, g);
                            self.compat(&u, &t, "CASE guard");
                        }
                    }
                    None => {
                        for (g, _) in whens {
                            let u = self.expr(env, sc, g);
                            self.want(&u, T::Logical, "CASE guard");
                        }
                    }
                }
                let mut t = Some(T::Generic);
                let mut n = if other.is_none() { N::Yes } else { N::No };
                for b in whens.iter().map(|w| &w.1).chain(other.iter().map(|o| &**o)) {
                    match self.expr(env, sc, b) {
                        Ty::S(u, m) => {
                            t = self.unify_t(t, u, "CASE results");
                            n = or(n, m);
                        }
                        Ty::Tuple(_) => {
                            self.err("CASE yielding tuples");
                            t = None;
                        }
                        Ty::Unknown => {
                            t = None;
                            n = or(n, N::Free);
                        }
                    }
                }
                Ty::S(t, n)
            }
        }
    }

    fn in_columns(&mut self, t: &Ty, cols: Option<Vec<Column>>) -> N {
        let cols = match cols {
            Some(c) => c,
            None => return N::Free,
        };
        match t {
            Ty::Tuple(ts) => {
                self.err(format!("IN over tuples of {} with {} columns", ts.len(), cols.len()));
                N::Free
            }
            Ty::Unknown => {
                if cols.len() != 1 {
                    self.open("IN: width");
                }
                N::Free
            }
            _ if cols.len() != 1 => {
                self.err(format!("IN over a set with {} columns", cols.len()));
                N::Free
            }
            _ => self.compat(t, &Ty::S(cols[0].t, cols[0].n), "IN"),
        }
    }

    pub fn with<'a>(&mut self, env: &Env<'a>, common: &[Cte]) -> Env<'a> {
        let mut env = env.clone();
        let mut names: Vec<String> = vec![];
        for c in common {
            if names.contains(&up(&c.id)) {
                self.err(format!("two common table expressions named {}", c.id));
            }
            names.push(up(&c.id));
            let mut q = env.clone();
            q.outer.clear();
            let mut cols = self.sel(&q, &c.query);
            if let (Some(list), Some(have)) = (&c.cols, cols.clone()) {
                let mut out = vec![];
                for (i, n) in list.iter().enumerate() {
                    if list[..i].iter().any(|m| same_up(m, n)) {
                        self.open("column listed twice");
                        continue;
                    }
                    let (sure, maybe) = find_cols(&have, n);
                    match (sure.len(), maybe) {
                        (1, 0) => out.push(Column { name: CName::Exact(n.clone()), ..sure[0].clone() }),
                        (0, 0) => {
                            self.err(format!("column {} not in the query", n));
                        }
                        _ => {
                            self.open("listed column not certain");
                        }
                    }
                }
                cols = if out.len() == list.len() { Some(out) } else { None };
            }
            env.ctes.push((c.id.clone(), cols));
        }
        env
    }

    /// None: the columns are not known (and the verdict is not acceptance)
    pub fn sel(&mut self, env: &Env, s: &Sel) -> Option<Vec<Column>> {
        let env = &self.with(env, &s.common);
        let (cols, scope) = self.set(env, &s.set);
        if !s.order.is_empty() {
            let mut sc = scope.unwrap_or_default();
            match &cols {
                Some(res) => {
                    // a result column hides table columns of its name
                    let all = sc.cols.clone();
                    sc.cols.retain(|c| match &c.name {
                        CName::Exact(n) => !res.iter().any(|r| matches_name(&r.name, n).0),
                        _ => true,
                    });
                    for r in res {
                        let mut r = r.clone();
                        if let CName::Exact(n) = &r.name {
                            // a different column of the same name: which one is meant is open
                            if all.iter().any(|c| matches_name(&c.name, n).0 && c.t != r.t) {
                                r.t = None;
                            }
                            if all.iter().any(|c| matches_name(&c.name, n).0) {
                                r.n = N::Free;
                            }
                        }
                        sc.cols.push(r);
                    }
                }
                None => sc.fuzzy = true,
            }
            for o in &s.order {
                let t = self.expr(env, &sc, &o.expr);
                match (&t, &o.collate) {
                    (Ty::Tuple(_), _) => drop(self.err("ordering by a tuple")),
                    (Ty::S(Some(T::Varchar), _), Some(_)) | (_, None) => {}
                    _ => drop(self.open("collation of a value that is no string")),
                }
            }
        }
        if let Some((n, o)) = &s.limit {
            let mut lenv = env.clone();
            lenv.outer.clear();
            for e in std::iter::once(n).chain(o) {
                let sc = Scope::default();
                // no column is visible in a LIMIT
                let t = self.expr(&lenv, &sc, e);
                match self.want(&t, T::Numeric, "LIMIT") {
                    N::No => {}
                    N::Free => drop(self.open("LIMIT that is perhaps null")),
                    N::Yes => drop(self.err("LIMIT that may be null")),
                }
            }
        }
        cols
    }

    fn set(&mut self, env: &Env, s: &Set) -> (Option<Vec<Column>>, Option<Scope>) {
        match s {
            Set::Values(rows) => {
                let sc = Scope::default();
                let mut cols: Vec<Column> = vec![];
                for (i, r) in rows.iter().enumerate() {
                    if i > 0 && r.len() != cols.len() {
                        self.err("VALUES rows of unequal width");
                        return (None, None);
                    }
                    for (j, e) in r.iter().enumerate() {
                        let t = self.expr(env, &sc, e);
                        let (t, n) = match t {
                            Ty::S(t, n) => (t, n),
                            Ty::Tuple(_) => {
                                self.err("tuple in a VALUES row");
                                (None, N::Free)
                            }
                            Ty::Unknown => (None, N::Free),
                        };
                        if i == 0 {
                            cols.push(Column { name: CName::Any, t, n });
                        } else {
                            cols[j].t = self.unify_t(cols[j].t, t, "VALUES rows");
                            cols[j].n = or(cols[j].n, n);
                        }
                    }
                }
                (Some(cols), None)
            }
            Set::Op(op, l, r) => {
                let (l, _) = self.set(env, l);
                let (r, _) = self.set(env, r);
                let (l, r) = match (l, r) {
                    (Some(l), Some(r)) => (l, r),
                    _ => return (None, None),
                };
                if l.len() != r.len() {
                    self.err("set operands of unequal width");
                    return (None, None);
                }
                let cols = l
                    .into_iter()
                    .zip(r)
                    .map(|(a, b)| Column {
                        name: a.name,
                        t: self.unify_t(a.t, b.t, "set operands"),
                        n: match op {
                            SetOp::Union | SetOp::UnionAll => or(a.n, b.n),
                            SetOp::Intersect => match (a.n, b.n) {
                                (N::Yes, N::Yes) => N::Yes,
                                (N::No, N::No) => N::No,
                                _ => N::Free,
                            },
                            SetOp::Except => match (a.n, b.n) {
                                (N::Yes, _) => N::Yes,
                                (N::No, N::No) => N::No,
                                _ => N::Free,
                            },
                        },
                    })
                    .collect();
                (Some(cols), None)
            }
            Set::Query { cols, from, wher, group, .. } => {
                let sc = self.from(env, from);
                if let Some(w) = wher {
                    let t = self.expr(env, &sc, w);
                    self.want(&t, T::Logical, "WHERE");
                }
                if let Some((g, h)) = group {
                    for e in g {
                        if let Ty::Tuple(_) = self.expr(env, &sc, e) {
                            self.open("grouping by a tuple");
                        }
                    }
                    if let Some(h) = h {
                        let t = self.expr(env, &sc, h);
                        self.want(&t, T::Logical, "HAVING");
                    }
                }
                let mut out: Vec<Column> = vec![];
                match cols {
                    Cols::All => {
                        if from.is_empty() || sc.fuzzy {
                            self.open("* without known columns");
                            return (None, Some(sc));
                        }
                        out = sc.cols.clone();
                    }
                    Cols::List(list) => {
                        for c in list {
                            match c {
                                Col::AllFrom(n) => {
                                    let rels: Vec<_> = sc.rels.iter().filter(|r| same_up(&r.0, n)).collect();
                                    if rels.len() == 1 {
                                        out.extend(rels[0].1.iter().cloned());
                                    } else if sc.fuzzy || rels.len() > 1 {
                                        self.open("* of an unknown relation");
                                        return (None, Some(sc));
                                    } else {
                                        if env.outer.iter().any(|o| o.fuzzy || o.rels.iter().any(|r| same_up(&r.0, n))) {
                                            self.open("* of an outer relation");
                                        } else {
                                            self.err(format!("unknown relation {}", n));
                                        }
                                        return (None, Some(sc));
                                    }
                                }
                                Col::Expr(e, alias) => {
                                    let (t, n) = match self.expr(env, &sc, e) {
                                        Ty::S(t, n) => (t, n),
                                        Ty::Tuple(_) => {
                                            self.err("tuple as result column");
                                            (None, N::Free)
                                        }
                                        Ty::Unknown => (None, N::Free),
                                    };
                                    let name = match (alias, e) {
                                        (Some(a), _) => CName::Exact(a.clone()),
                                        (None, E::Id(p)) => CName::Exact(p.last().unwrap().clone()),
                                        _ => CName::Any,
                                    };
                                    out.push(Column { name, t, n });
                                }
                            }
                        }
                    }
                }
                let names = unique(out.iter().map(|c| c.name.clone()).collect());
                for (c, n) in out.iter_mut().zip(names) {
                    c.name = n;
                }
                (Some(out), Some(sc))
            }
        }
    }

    pub fn from(&mut self, env: &Env, from: &[Tab]) -> Scope {
        let mut sc = Scope::default();
        for t in from {
            let x = self.tab(env, t, &sc);
            self.merge(&mut sc, x);
        }
        sc
    }

    fn merge(&mut self, a: &mut Scope, b: Scope) {
        for r in &b.rels {
            if a.rels.iter().any(|x| same_up(&x.0, &r.0)) {
                self.err(format!("two relations named {}", r.0));
            }
        }
        a.fuzzy |= b.fuzzy;
        a.rels.extend(b.rels);
        a.cols.extend(b.cols);
    }

    fn tab(&mut self, env: &Env, t: &Tab, before: &Scope) -> Scope {
        match t {
            Tab::Named(p, alias) => {
                let name = alias.clone().unwrap_or(p.last().unwrap().clone());
                match self.table(env, p) {
                    Some(c) => Scope { rels: vec![(name, c.clone())], cols: c, fuzzy: false },
                    None => Scope { rels: vec![], cols: vec![], fuzzy: true },
                }
            }
            Tab::Derived(s, alias) => {
                // a derived table does not see its neighbours
                match self.sel(&env.inside(before), s) {
                    Some(c) => Scope { rels: alias.iter().map(|a| (a.clone(), c.clone())).collect(), cols: c, fuzzy: false },
                    None => Scope { rels: vec![], cols: vec![], fuzzy: true },
                }
            }
            Tab::Join(l, r, op, con) => {
                let mut a = self.tab(env, l, before);
                let mut b = self.tab(env, r, before);
                let (jt, natural) = match op {
                    JOp::Join(t) => (*t, false),
                    JOp::Natural(t) => (*t, true),
                    JOp::Cross => (JT::Inner, false),
                };
                if natural && a.cols.iter().any(|x| b.cols.iter().any(|y| overlap(&x.name, &y.name))) {
                    self.open("natural join with common columns");
                }
                let (a0, b0) = (a.cols.clone(), b.cols.clone());
                if matches!(jt, JT::Right | JT::Full) {
                    nullable(&mut a);
                }
                if matches!(jt, JT::Left | JT::Full) {
                    nullable(&mut b);
                }
                let mut front = vec![];
                if let Con::Using(names) = con {
                    for (i, n) in names.iter().enumerate() {
                        if names[..i].iter().any(|m| same_up(m, n)) {
                            self.open("column listed twice in USING");
                            continue;
                        }
                        if a.fuzzy || b.fuzzy {
                            self.open("USING on unknown columns");
                            continue;
                        }
                        let (x, xm) = find_cols(&a0, n);
                        let (y, ym) = find_cols(&b0, n);
                        if x.len() >= 2 || y.len() >= 2 {
                            self.err(format!("ambiguous USING column {}", n));
                        } else if xm + ym > 0 {
                            self.open("USING column not certain");
                        } else if x.is_empty() || y.is_empty() {
                            self.err(format!("USING column {} missing", n));
                        } else {
                            let t = self.unify_t(x[0].t, y[0].t, "USING");
                            let m = match jt {
                                JT::Left => x[0].n,
                                JT::Right => y[0].n,
                                JT::Full => {
                                    if x[0].n == N::Yes || y[0].n == N::Yes {
                                        N::Yes
                                    } else {
                                        N::Free
                                    }
                                }
                                JT::Inner => {
                                    if x[0].n == N::No && y[0].n == N::No {
                                        N::No
                                    } else {
                                        N::Free
                                    }
                                }
                            };
                            front.push(Column { name: x[0].name.clone(), t, n: m });
                            a.cols.retain(|c| !matches_name(&c.name, n).1);
                            b.cols.retain(|c| !matches_name(&c.name, n).1);
                        }
                    }
                }
                let mut sc = Scope { cols: front, ..Default::default() };
                self.merge(&mut sc, a);
                self.merge(&mut sc, b);
                if let Con::On(e) = con {
                    // the tables named before are perhaps visible
                    let t = self.expr(&env.inside(before), &sc, e);
                    self.want(&t, T::Logical, "ON");
                }
                sc
            }
        }
    }

    fn assign(&mut self, what: &str, col: &(String, T, bool), t: Option<T>, n: N) {
        self.unify_t(Some(col.1), t, what);
        if col.2 {
            match n {
                N::Yes => drop(self.err(format!("{}: value that may be null for {}", what, col.0))),
                N::Free => drop(self.open("value that is perhaps null")),
                N::No => {}
            }
        }
    }

    /// what is modified is a table of the catalog
    fn target<'a>(&mut self, env: &Env<'a>, path: &[Name]) -> Option<&'a Table> {
        let t = match path.len() {
            1 => env.cat.find(&env.cat.default, &path[0]),
            2 => env.cat.find(&path[0], &path[1]),
            _ => {
                self.err("table name of three parts");
                return None;
            }
        };
        match t {
            None => drop(self.err(format!("unknown table {}", path.join(".")))),
            Some(t) if t.view => {
                self.open("modification of a view");
            }
            _ => {}
        }
        t
    }

    pub fn stmt(&mut self, env: &Env, st: &Stmt) -> Option<Vec<Column>> {
        let own = |t: &Table| -> Scope {
            let c = table_columns(t);
            Scope { rels: vec![(t.name.clone(), c.clone())], cols: c, fuzzy: false }
        };
        match st {
            Stmt::Select(s) => self.sel(env, s),
            Stmt::Explain(s) => self.stmt(env, s),
            Stmt::Attach(..) => None,
            Stmt::Describe(p) => {
                self.table(env, p);
                None
            }
            Stmt::Insert { common, table, cols, source } => {
                let with = self.with(env, common);
                let t = self.target(env, table);
                let vals = self.set(&with, source).0;
                if let (Some(t), Some(vals)) = (t, vals) {
                    let mut given: Vec<String> = vec![];
                    match cols {
                        None => {
                            if vals.len() > t.cols.len() {
                                self.err("more values than columns");
                            }
                            for (c, v) in t.cols.iter().zip(&vals) {
                                self.assign("INSERT", c, v.t, v.n);
                                given.push(up(&c.0));
                            }
                            if vals.len() < t.cols.len() {
                                self.open("fewer values than columns");
                            }
                        }
                        Some(list) => {
                            if list.len() != vals.len() {
                                self.err("number of values and columns differ");
                            }
                            for (n, v) in list.iter().zip(&vals) {
                                if given.contains(&up(n)) {
                                    self.err(format!("column {} given twice", n));
                                }
                                given.push(up(n));
                                match t.cols.iter().find(|c| same_up(&c.0, n)) {
                                    Some(c) => self.assign("INSERT", c, v.t, v.n),
                                    None => drop(self.err(format!("unknown column {}", n))),
                                }
                            }
                        }
                    }
                    for c in &t.cols {
                        if c.2 && !given.contains(&up(&c.0)) {
                            self.err(format!("no value for column {}", c.0));
                        }
                    }
                }
                None
            }
            Stmt::Delete { common, table, wher } => {
                let with = self.with(env, common);
                if let Some(t) = self.target(env, table) {
                    if let Some(w) = wher {
                        let t = self.expr(&with, &own(t), w);
                        self.want(&t, T::Logical, "WHERE");
                    }
                }
                None
            }
            Stmt::Update { common, table, sets, wher } => {
                let with = self.with(env, common);
                if let Some(t) = self.target(env, table) {
                    let sc = own(t);
                    let mut done: Vec<String> = vec![];
                    for (list, e) in sets {
                        let v = self.expr(&with, &sc, e);
                        for n in list {
                            if done.contains(&up(n)) {
                                self.err(format!("column {} assigned twice", n));
                            }
                            done.push(up(n));
                            match t.cols.iter().find(|c| same_up(&c.0, n)) {
                                None => drop(self.err(format!("unknown column {}", n))),
                                Some(c) => match &v {
                                    Ty::S(x, m) => {
                                        // one scalar for all of the columns may be fine or not, but not one of another type
                                        self.assign("UPDATE", c, *x, *m);
                                        if list.len() > 1 {
                                            self.open("several columns assigned at once");
                                        }
                                    }
                                    Ty::Tuple(_) if list.len() == 1 => drop(self.err("tuple assigned to a column")),
                                    Ty::Tuple(ts) if list.len() != ts.len() => drop(self.err("tuple assigned to another number of columns")),
                                    Ty::Tuple(_) => drop(self.open("tuple assigned to several columns")),
                                    Ty::Unknown => {}
                                },
                            }
                        }
                    }
                    if let Some(w) = wher {
                        let t = self.expr(&with, &sc, w);
                        self.want(&t, T::Logical, "WHERE");
                    }
                }
                None
            }
        }
    }
}

pub fn overlap(a: &CName, b: &CName) -> bool {
    match (a, b) {
        (CName::Exact(x), o) | (o, CName::Exact(x)) => matches_name(o, x).0,
        _ => true,
    }
}

pub fn table_columns(t: &Table) -> Vec<Column> {
    t.cols
        .iter()
        .map(|(n, t, nn)| Column { name: CName::Exact(n.clone()), t: Some(*t), n: if *nn { N::No } else { N::Yes } })
        .collect()
}

fn nullable(s: &mut Scope) {
    for c in s.cols.iter_mut() {
        c.n = N::Yes;
    }
    for r in s.rels.iter_mut() {
        for c in r.1.iter_mut() {
            c.n = N::Yes;
        }
    }
}

/// the answer of the code under test for a result column
pub fn column_matches(c: &Column, got: &(String, T, bool)) -> Result<(), String> {
    let (may, _) = matches_name(&c.name, &got.0);
    if !may && c.name != CName::Any {
        return Err(format!("is named {:?}, expected {:?}", got.0, c.name));
    }
    if let Some(t) = c.t {
        if t != got.1 {
            return Err(format!("has type {}, expected {}", got.1, t));
        }
    }
    match (c.n, got.2) {
        (N::Yes, false) => Err("is reported as never null, but may be null".into()),
        (N::No, true) => Err("is reported as nullable, but cannot be null".into()),
        _ => Ok(()),
    }
}
