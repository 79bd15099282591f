//! Catalogs, type-directed generation of statements, and mutation of statements.

use crate::engine::*;
use crate::sql_ast::*;
use crate::sql_types::*;

pub const TABLES: [&str; 8] = ["t1", "T2", "u", "x", "a", "Orders", "v_9", "main"];
pub const COLUMNS: [&str; 10] = ["a", "b", "C", "x", "y_1", "t1", "u", "Total", "id", "a1"];
pub const ALIASES: [&str; 10] = ["p", "q", "R", "a", "t1", "T2", "x", "w_1", "id", "s9"];

fn ty(s: &mut Src) -> T {
    *s.pick(&[
        T::Numeric,
        T::Varchar,
        T::Numeric,
        T::Varchar,
        T::Logical,
        T::Date,
        T::Time,
        T::Timestamp,
        T::Geometry,
        T::Numeric,
        T::Varchar,
        T::Logical,
    ])
}

pub fn gen_cat(s: &mut Src) -> Cat {
    let mut c = Cat { schemas: vec!["main".into()], default: "main".into(), tables: vec![] };
    for n in ["Aux", "t1", "x"] {
        if s.chance(1, 3) {
            c.schemas.push(n.into());
        }
    }
    for sc in c.schemas.clone() {
        let n = if sc == "main" { 2 + s.upto(2) } else { 1 + s.upto(1) };
        for _ in 0..n {
            let name = if s.chance(1, 24) { sql_word(s) } else { s.pick(&TABLES).to_string() };
            if c.find(&sc, &name).is_some() {
                continue;
            }
            let k = 1 + s.weighted(&[3, 4, 4, 3, 2]);
            let mut cols: Vec<(String, T, bool)> = vec![];
            for _ in 0..k {
                let n = if s.chance(1, 24) { sql_word(s) } else { s.pick(&COLUMNS).to_string() };
                if cols.iter().any(|c| up(&c.0) == up(&n)) {
                    continue;
                }
                let t = if s.chance(1, 40) { T::Generic } else { ty(s) };
                cols.push((n, t, s.coin()));
            }
            let view = s.chance(1, 6);
            c.tables.push(Table { schema: sc.clone(), name, cols, view });
        }
    }
    if s.chance(1, 8) {
        c.default = s.pick(&c.schemas).clone();
    }
    if s.chance(1, 6) {
        c.default = recase(s, &c.default.clone());
    }
    c
}

pub fn recase(s: &mut Src, n: &str) -> String {
    match s.weighted(&[5, 1, 1]) {
        0 => n.to_string(),
        1 => n.to_ascii_uppercase(),
        _ => n.to_ascii_lowercase(),
    }
}

pub struct TG<'c> {
    pub s: &'c mut Src,
    pub cat: &'c Cat,
    pub fuel: i32,
}

type En<'c> = Env<'c>;

/// unambiguous references to the columns of a scope
fn refs(sc: &Scope) -> Vec<(Vec<Name>, Column)> {
    let mut out = vec![];
    let exact = |c: &Column| match &c.name {
        CName::Exact(n) => Some(n.clone()),
        _ => None,
    };
    for c in &sc.cols {
        if let Some(n) = exact(c) {
            if sc.cols.iter().filter(|d| overlap(&c.name, &d.name)).count() == 1 {
                out.push((vec![n], c.clone()));
            }
        }
    }
    for (r, cols) in &sc.rels {
        for c in cols {
            if let Some(n) = exact(c) {
                if cols.iter().filter(|d| overlap(&c.name, &d.name)).count() == 1 {
                    out.push((vec![r.clone(), n], c.clone()));
                }
            }
        }
    }
    out
}

impl<'c> TG<'c> {
    fn spend(&mut self) -> bool {
        self.fuel -= 1;
        self.fuel > 0
    }
    fn id(&mut self, n: &[Name]) -> Vec<Name> {
        n.iter().map(|x| recase(self.s, x)).collect()
    }
    fn text(&mut self) -> String {
        self.s.pick(&["", "a", "x y", "2020-01-01", "é"]).to_string()
    }

    /// a type of which values can be written down here
    pub fn some_type(&mut self, sc: &Scope) -> T {
        let r = refs(sc);
        if !r.is_empty() && self.s.chance(3, 4) {
            let c = &r[self.s.upto(r.len() as u64 - 1) as usize].1;
            if let Some(t) = c.t {
                if t != T::Generic {
                    return t;
                }
            }
        }
        *self.s.pick(&[T::Numeric, T::Varchar, T::Logical, T::Date, T::Time, T::Timestamp])
    }

    fn leaf(&mut self, sc: &Scope, t: T, nn: bool) -> E {
        let r: Vec<_> = refs(sc).into_iter().filter(|r| r.1.t == Some(t) && (!nn || r.1.n == N::No)).collect();
        if !r.is_empty() && self.s.chance(4, 5) {
            let k = self.s.upto(r.len() as u64 - 1) as usize;
            return E::Id(self.id(&r[k].0.clone()));
        }
        let l = match t {
            T::Varchar => Lit::Str(self.text()),
            T::Numeric => Lit::Num(self.s.pick(&["0", "1", "17", "1.5", ".5", "1E5", "0xFF"]).to_string()),
            T::Date => {
                if self.s.coin() {
                    Lit::CurDate
                } else {
                    Lit::Date(self.text())
                }
            }
            T::Time => {
                if self.s.coin() {
                    Lit::CurTime
                } else {
                    Lit::Time(self.text())
                }
            }
            T::Timestamp => {
                if self.s.coin() {
                    Lit::CurTs
                } else {
                    Lit::Ts(self.text())
                }
            }
            T::Generic => Lit::Null,
            T::Geometry => {
                // not written as a literal: any column will do, or nothing is right here
                let r: Vec<_> = refs(sc).into_iter().filter(|r| r.1.t == Some(t)).collect();
                if !r.is_empty() {
                    let k = self.s.upto(r.len() as u64 - 1) as usize;
                    return E::Id(self.id(&r[k].0.clone()));
                }
                Lit::Null
            }
            T::Logical => {
                let x = *self.s.pick(&[T::Numeric, T::Varchar, T::Date]);
                let (l, r) = (self.leaf(&Scope::default(), x, true), self.leaf(&Scope::default(), x, true));
                return E::Cmp(*self.s.pick(&[Cmp::Eq, Cmp::Lt, Cmp::Ge, Cmp::Ne]), Box::new(l), Box::new(r));
            }
        };
        E::Lit(l)
    }

    /// value in a place where NULL is fine too
    fn val(&mut self, env: &En<'c>, sc: &Scope, t: T) -> E {
        if self.s.chance(1, 10) {
            E::Lit(Lit::Null)
        } else {
            self.expr(env, sc, t, false)
        }
    }

    pub fn expr(&mut self, env: &En<'c>, sc: &Scope, t: T, nn: bool) -> E {
        if !self.spend() || self.s.chance(2, 5) {
            return self.leaf(sc, t, nn);
        }
        let bx = |g: &mut Self, t: T| Box::new(g.expr(env, sc, t, nn));
        if self.s.chance(1, 7) {
            let k = 1 + self.s.upto(2);
            let (x, guards) = if self.s.coin() {
                let u = self.some_type(sc);
                (Some(Box::new(self.val(env, sc, u))), u)
            } else {
                (None, T::Logical)
            };
            let w = (0..k)
                .map(|_| {
                    let g = if x.is_some() { self.val(env, sc, guards) } else { self.expr(env, sc, guards, false) };
                    let b = if nn { self.expr(env, sc, t, true) } else { self.val(env, sc, t) };
                    (g, b)
                })
                .collect();
            let e = if nn || self.s.coin() { Some(Box::new(self.expr(env, sc, t, nn))) } else { None };
            return E::Case(x, w, e);
        }
        if !nn && self.s.chance(1, 8) {
            return E::Sub(Box::new(self.sel(env, sc, Some(&[(t, false)]))));
        }
        match t {
            T::Numeric => match self.s.weighted(&[1, 4]) {
                0 => E::Neg(bx(self, t)),
                _ => {
                    let op = *self.s.pick(&[Bin::Add, Bin::Sub, Bin::Mul, Bin::Div]);
                    E::Bin(op, bx(self, t), bx(self, t))
                }
            },
            T::Varchar => E::Bin(Bin::Cat, bx(self, t), bx(self, t)),
            T::Logical => self.logical(env, sc, nn),
            _ => self.leaf(sc, t, nn),
        }
    }

    fn logical(&mut self, env: &En<'c>, sc: &Scope, nn: bool) -> E {
        let bx = |g: &mut Self, t: T| Box::new(g.expr(env, sc, t, nn));
        let bv = |g: &mut Self, t: T| Box::new(if nn { g.expr(env, sc, t, true) } else { g.val(env, sc, t) });
        let u = self.some_type(sc);
        let ord = if ordered(u) { u } else { T::Numeric };
        match self.s.weighted(&[4, 2, 3, 5, 4, 2, 4, 3, 1]) {
            0 => {
                let op = *self.s.pick(&[Bin::And, Bin::Or]);
                E::Bin(op, bx(self, T::Logical), bx(self, T::Logical))
            }
            1 => E::Not(bx(self, T::Logical)),
            2 => E::IsNull(Box::new(self.val(env, sc, u))),
            3 => {
                let op = *self.s.pick(&[Cmp::Eq, Cmp::Ne]);
                E::Cmp(op, bv(self, u), bv(self, u))
            }
            4 => {
                let op = *self.s.pick(&[Cmp::Lt, Cmp::Le, Cmp::Gt, Cmp::Ge]);
                let l = bx(self, ord);
                E::Cmp(op, l, bv(self, ord))
            }
            5 => E::Cmp(Cmp::Like, bx(self, T::Varchar), bx(self, T::Varchar)),
            6 => {
                let set = match self.s.weighted(&[4, 2, 2]) {
                    0 => {
                        let k = self.s.weighted(&[1, 3, 3, 2]);
                        InSet::List((0..k).map(|_| *bv(self, u)).collect())
                    }
                    1 => InSet::Sel(Box::new(self.sel(env, sc, Some(&[(u, nn)])))),
                    _ => {
                        // tables with a single column
                        let mut ps: Vec<(Vec<Name>, Column)> = vec![];
                        for (p, c) in self.sources(env) {
                            if c.len() == 1 && c[0].t.is_some() && c[0].t != Some(T::Generic) {
                                ps.push((p, c[0].clone()));
                            }
                        }
                        if ps.is_empty() {
                            return E::In(bv(self, u), InSet::List(vec![*bv(self, u)]));
                        }
                        let k = self.s.upto(ps.len() as u64 - 1) as usize;
                        let u = ps[k].1.t.unwrap();
                        let x = bv(self, u);
                        return E::In(x, InSet::Name(self.id(&ps[k].0.clone())));
                    }
                };
                E::In(bv(self, u), set)
            }
            7 => {
                let x = bx(self, ord);
                E::Between(x, bv(self, ord), bv(self, ord))
            }
            _ => {
                let k = 2 + self.s.upto(1);
                let ts: Vec<T> = (0..k).map(|_| self.some_type(sc)).collect();
                let l = ts.iter().map(|t| *bv(self, *t)).collect();
                let r = ts.iter().map(|t| *bv(self, *t)).collect();
                E::Cmp(*self.s.pick(&[Cmp::Eq, Cmp::Ne]), Box::new(E::Tuple(l)), Box::new(E::Tuple(r)))
            }
        }
    }

    /// what can stand in a FROM clause
    fn sources(&mut self, env: &En<'c>) -> Vec<(Vec<Name>, Vec<Column>)> {
        let mut out: Vec<(Vec<Name>, Vec<Column>)> = vec![];
        let mut names: Vec<Vec<Name>> = vec![];
        for (n, _) in env.ctes.iter() {
            names.push(vec![n.clone()]);
            names.push(vec![n.clone()]);
        }
        for t in &self.cat.tables {
            if up(&t.schema) == up(&self.cat.default) {
                names.push(vec![t.name.clone()]);
            }
            names.push(vec![t.schema.clone(), t.name.clone()]);
        }
        for n in names {
            let mut c = Chk::default();
            if let Some(cols) = c.table(env, &n) {
                if c.bad.is_none() && c.dunno.is_none() {
                    out.push((n, cols));
                }
            }
        }
        out
    }

    fn alias(&mut self, used: &[String]) -> Name {
        if self.s.chance(1, 24) {
            let n = sql_word(self.s);
            if !used.contains(&up(&n)) {
                return n;
            }
        }
        let free: Vec<&str> = ALIASES.iter().copied().filter(|a| !used.contains(&up(a))).collect();
        if free.is_empty() {
            return format!("z{}", used.len());
        }
        let k = self.s.upto(free.len() as u64 - 1) as usize;
        let n = free[k].to_string();
        recase(self.s, &n)
    }

    /// a table expression whose relations are not in `used`; these are added
    fn tab(&mut self, env: &En<'c>, used: &mut Vec<String>, depth: u32) -> Tab {
        let kind = if self.fuel <= 2 { 0 } else { self.s.weighted(&[6, 2, if depth > 3 { 0 } else { 4 }]) };
        self.spend();
        match kind {
            0 => {
                let srcs = self.sources(env);
                if srcs.is_empty() {
                    return Tab::Named(vec!["nosuch".into()], None);
                }
                let k = self.s.upto(srcs.len() as u64 - 1) as usize;
                let p = srcs[k].0.clone();
                let own = up(p.last().unwrap());
                let a = if used.contains(&own) || self.s.chance(1, 3) { Some(self.alias(used)) } else { None };
                used.push(a.as_ref().map(|a| up(a)).unwrap_or(own));
                Tab::Named(self.id(&p), a)
            }
            1 => {
                let q = self.sel(env, &Scope::default(), None);
                let a = if self.s.chance(3, 4) { Some(self.alias(used)) } else { None };
                used.extend(a.iter().map(|a| up(a)));
                Tab::Derived(q, a)
            }
            _ => {
                let l = self.tab(env, used, depth + 1);
                let r = self.tab(env, used, depth + 1);
                let t = *self.s.pick(&[JT::Inner, JT::Left, JT::Right, JT::Full]);
                let op = match self.s.weighted(&[8, 1, 1]) {
                    0 => JOp::Join(t),
                    1 => JOp::Natural(t),
                    _ => JOp::Cross,
                };
                let mut c = Chk::default();
                let (a, b) = (c.from(env, &[l.clone()]), c.from(env, &[r.clone()]));
                let one = |sc: &Scope, n: &CName| sc.cols.iter().filter(|d| overlap(&d.name, n)).count() == 1;
                let both: Vec<Name> = a
                    .cols
                    .iter()
                    .filter_map(|x| match &x.name {
                        CName::Exact(n)
                            if one(&a, &x.name)
                                && one(&b, &x.name)
                                && b.cols.iter().any(|y| overlap(&x.name, &y.name) && matches!(y.name, CName::Exact(_)) && (y.t == x.t || y.t == Some(T::Generic) || x.t == Some(T::Generic))) =>
                        {
                            Some(n.clone())
                        }
                        _ => None,
                    })
                    .collect();
                if !both.is_empty() && self.s.chance(2, 3) {
                    let mut ns = vec![];
                    for n in both {
                        if ns.is_empty() || self.s.coin() {
                            ns.push(recase(self.s, &n));
                        }
                    }
                    if ns.len() > 1 && self.s.coin() {
                        ns.reverse();
                    }
                    let op = if let JOp::Natural(_) = op { JOp::Join(t) } else { op };
                    return Tab::Join(Box::new(l), Box::new(r), op, Con::Using(ns));
                }
                let common = a.cols.iter().any(|x| b.cols.iter().any(|y| overlap(&x.name, &y.name)));
                let op = match op {
                    JOp::Natural(t) if common => JOp::Join(t),
                    o => o,
                };
                let sc = c.from(env, &[Tab::Join(Box::new(l.clone()), Box::new(r.clone()), JOp::Join(JT::Inner), Con::Using(vec![]))]);
                let e = self.expr(env, &sc, T::Logical, false);
                Tab::Join(Box::new(l), Box::new(r), op, Con::On(e))
            }
        }
    }

    fn ctes(&mut self, env: &En<'c>) -> (Vec<Cte>, En<'c>) {
        if self.fuel < 6 || !self.s.chance(1, 4) {
            return (vec![], env.clone());
        }
        let k = 1 + self.s.upto(1);
        let mut common: Vec<Cte> = vec![];
        for _ in 0..k {
            let mut c = Chk::default();
            let inner = c.with(env, &common);
            let query = self.sel(&inner, &Scope::default(), None);
            let used: Vec<String> = common.iter().map(|c| up(&c.id)).collect();
            let id = self.alias(&used);
            let mut cols = None;
            if self.s.chance(1, 3) {
                if let Some(have) = Chk::default().sel(&inner, &query) {
                    let sc = Scope { rels: vec![], cols: have, fuzzy: false };
                    let r = refs(&sc);
                    if !r.is_empty() {
                        let mut list: Vec<Name> = vec![];
                        for (p, _) in r {
                            if list.is_empty() || self.s.chance(3, 4) {
                                let at = self.s.upto(list.len() as u64) as usize;
                                let n = recase(self.s, &p[0]);
                                list.insert(at, n);
                            }
                        }
                        cols = Some(list);
                    }
                }
            }
            common.push(Cte { id, cols, query });
        }
        let env = Chk::default().with(env, &common);
        (common, env)
    }

    /// a query; with the given column types, where wanted
    pub fn sel(&mut self, env: &En<'c>, outer: &Scope, want: Option<&[(T, bool)]>) -> Sel {
        self.spend();
        let mut env = env.clone();
        env.outer.push(outer.clone());
        let (common, env) = self.ctes(&env);
        let set = self.set(&env, want, 0);
        let mut order = vec![];
        if self.s.chance(1, 4) {
            let mut c = Chk::default();
            let sc = match &set {
                Set::Query { from, .. } if self.s.coin() => c.from(&env, from),
                _ => {
                    let s = Sel { common: vec![], set: set.clone(), order: vec![], limit: None };
                    Scope { rels: vec![], cols: c.sel(&env, &s).unwrap_or_default(), fuzzy: false }
                }
            };
            for _ in 0..1 + self.s.upto(1) {
                let t = self.some_type(&sc);
                let expr = if self.s.chance(2, 3) { self.leaf(&sc, t, false) } else { self.expr(&env, &sc, t, false) };
                let collate = if t == T::Varchar && self.s.chance(1, 4) { Some("binary".to_string()) } else { None };
                order.push(Ord_ { expr, collate, desc: self.s.coin() });
            }
        }
        let limit = if self.s.chance(1, 6) {
            let sc = Scope::default();
            let n = self.expr(&env, &sc, T::Numeric, true);
            let o = if self.s.coin() { Some(self.expr(&env, &sc, T::Numeric, true)) } else { None };
            Some((n, o))
        } else {
            None
        };
        Sel { common, set, order, limit }
    }

    pub fn set(&mut self, env: &En<'c>, want: Option<&[(T, bool)]>, depth: u32) -> Set {
        if depth < 3 && self.fuel > 4 && self.s.chance(1, 6) {
            let op = *self.s.pick(&[SetOp::Union, SetOp::UnionAll, SetOp::Intersect, SetOp::Except]);
            let l = self.set(env, want, depth + 1);
            let types: Vec<(T, bool)> = match want {
                Some(w) => w.to_vec(),
                None => {
                    let s = Sel { common: vec![], set: l.clone(), order: vec![], limit: None };
                    match Chk::default().sel(env, &s) {
                        Some(c) => c.iter().map(|c| (c.t.unwrap_or(T::Generic), false)).collect(),
                        None => return l,
                    }
                }
            };
            let r = self.core(env, Some(&types));
            return Set::Op(op, Box::new(l), Box::new(r));
        }
        self.core(env, want)
    }

    fn item(&mut self, env: &En<'c>, sc: &Scope, t: T, nn: bool) -> E {
        if nn {
            self.expr(env, sc, t, true)
        } else {
            self.val(env, sc, t)
        }
    }

    fn core(&mut self, env: &En<'c>, want: Option<&[(T, bool)]>) -> Set {
        if self.s.chance(1, 7) {
            let none = Scope::default();
            let types: Vec<(T, bool)> = match want {
                Some(w) => w.to_vec(),
                None => (0..1 + self.s.upto(2)).map(|_| (self.some_type(&none), false)).collect(),
            };
            let k = 1 + self.s.weighted(&[2, 2, 1]);
            return Set::Values((0..k).map(|_| types.iter().map(|(t, nn)| self.item(env, &none, *t, *nn)).collect()).collect());
        }
        let mut used = vec![];
        let k = self.s.weighted(&[1, 5, 2, 1]);
        let from: Vec<Tab> = (0..k).map(|_| self.tab(env, &mut used, 0)).collect();
        let sc = Chk::default().from(env, &from);
        let distinct = self.s.chance(1, 4);
        let cols = match want {
            Some(w) => {
                let fits = sc.cols.len() == w.len() && sc.cols.iter().zip(w).all(|(c, w)| c.t == Some(w.0) && (!w.1 || c.n == N::No));
                if fits && self.s.chance(1, 2) {
                    Cols::All
                } else {
                    Cols::List(
                        w.iter()
                            .map(|(t, nn)| {
                                let e = self.item(env, &sc, *t, *nn);
                                Col::Expr(e, self.rename())
                            })
                            .collect(),
                    )
                }
            }
            None if !from.is_empty() && self.s.chance(1, 6) => Cols::All,
            None => {
                let k = 1 + self.s.weighted(&[3, 4, 3, 1]);
                Cols::List(
                    (0..k)
                        .map(|_| {
                            if !sc.rels.is_empty() && self.s.chance(1, 6) {
                                let k = self.s.upto(sc.rels.len() as u64 - 1) as usize;
                                Col::AllFrom(recase(self.s, &sc.rels[k].0.clone()))
                            } else {
                                let t = self.some_type(&sc);
                                let e = if self.s.coin() { self.leaf(&sc, t, false) } else { self.item(env, &sc, t, false) };
                                Col::Expr(e, self.rename())
                            }
                        })
                        .collect(),
                )
            }
        };
        let wher = if self.s.chance(1, 3) { Some(self.expr(env, &sc, T::Logical, false)) } else { None };
        let group = if self.s.chance(1, 7) {
            let k = 1 + self.s.upto(1);
            let g = (0..k)
                .map(|_| {
                    let t = self.some_type(&sc);
                    self.expr(env, &sc, t, false)
                })
                .collect();
            let h = if self.s.coin() { Some(self.expr(env, &sc, T::Logical, false)) } else { None };
            Some((g, h))
        } else {
            None
        };
        Set::Query { distinct, cols, from, wher, group }
    }

    fn rename(&mut self) -> Option<Name> {
        if self.s.chance(2, 5) {
            let n = match self.s.weighted(&[8, 8, 1]) {
                0 => self.s.pick(&COLUMNS).to_string(),
                1 => self.s.pick(&ALIASES).to_string(),
                _ => sql_word(self.s),
            };
            Some(recase(self.s, &n))
        } else {
            None
        }
    }

    pub fn stmt(&mut self) -> Stmt {
        let cat = self.cat;
        let env = Env::new(cat);
        let none = Scope::default();
        let k = self.s.weighted(&[12, 3, 2, 3, 1, 1]);
        if k == 0 {
            return Stmt::Select(self.sel(&env, &none, None));
        }
        if k == 4 {
            let srcs = self.sources(&env);
            let k = self.s.upto(srcs.len().max(1) as u64 - 1) as usize;
            let p = srcs.get(k).map(|s| s.0.clone()).unwrap_or(vec!["nosuch".into()]);
            return Stmt::Describe(self.id(&p));
        }
        if k == 5 {
            return loop {
                let s = self.stmt();
                if !matches!(s, Stmt::Describe(_) | Stmt::Explain(_)) {
                    break Stmt::Explain(Box::new(s));
                }
            };
        }
        let (common, inner) = self.ctes(&env);
        let tables: Vec<&Table> = cat.tables.iter().filter(|t| !t.view).collect();
        if tables.is_empty() {
            return Stmt::Select(self.sel(&env, &none, None));
        }
        let t = tables[self.s.upto(tables.len() as u64 - 1) as usize];
        let mut table = vec![t.schema.clone(), t.name.clone()];
        if up(&t.schema) == up(&cat.default) && self.s.coin() {
            table.remove(0);
        }
        let table = self.id(&table);
        let own = Scope {
            rels: vec![(t.name.clone(), table_columns(t))],
            cols: table_columns(t),
            fuzzy: false,
        };
        match k {
            1 => {
                let mut list: Vec<(String, T, bool)> = t.cols.clone();
                let cols = if self.s.coin() {
                    list.retain(|c| c.2 || self.s.chance(2, 3));
                    for i in 1..list.len() {
                        let j = self.s.upto(i as u64) as usize;
                        list.swap(i, j);
                    }
                    if list.is_empty() {
                        list.push(t.cols[0].clone());
                    }
                    Some(list.iter().map(|c| recase(self.s, &c.0)).collect())
                } else {
                    None
                };
                let want: Vec<(T, bool)> = list.iter().map(|c| (c.1, c.2)).collect();
                let source = self.core(&inner, Some(&want));
                Stmt::Insert { common, table, cols, source }
            }
            2 => {
                let wher = if self.s.chance(4, 5) { Some(self.expr(&inner, &own, T::Logical, false)) } else { None };
                Stmt::Delete { common, table, wher }
            }
            _ => {
                let mut sets = vec![];
                for c in &t.cols {
                    if sets.is_empty() || self.s.coin() {
                        let e = self.item(&inner, &own, c.1, c.2);
                        sets.push((vec![recase(self.s, &c.0)], e));
                    }
                }
                let wher = if self.s.chance(1, 2) { Some(self.expr(&inner, &own, T::Logical, false)) } else { None };
                Stmt::Update { common, table, sets, wher }
            }
        }
    }
}

// ---------------------------------------------------------------- places of a statement
#[derive(Default)]
pub struct Places<'a> {
    pub es: Vec<*mut E>,
    pub sets: Vec<*mut Set>,
    pub tabs: Vec<*mut Tab>,
    pub sels: Vec<*mut Sel>,
    _p: std::marker::PhantomData<&'a mut Stmt>,
}

impl<'a> Places<'a> {
    pub fn of(st: &'a mut Stmt) -> Places<'a> {
        let mut p = Places::default();
        p.stmt(st);
        p
    }
    fn stmt(&mut self, st: &mut Stmt) {
        match st {
            Stmt::Select(s) => self.sel(s),
            Stmt::Insert { common, source, .. } => {
                self.ctes(common);
                self.set(source);
            }
            Stmt::Delete { common, wher, .. } => {
                self.ctes(common);
                self.opt(wher);
            }
            Stmt::Update { common, sets, wher, .. } => {
                self.ctes(common);
                for s in sets {
                    self.e(&mut s.1);
                }
                self.opt(wher);
            }
            Stmt::Attach(..) | Stmt::Describe(_) => {}
            Stmt::Explain(s) => self.stmt(s),
        }
    }
    fn opt(&mut self, e: &mut Option<E>) {
        if let Some(e) = e {
            self.e(e);
        }
    }
    fn ctes(&mut self, c: &mut [Cte]) {
        for c in c {
            self.sel(&mut c.query);
        }
    }
    fn sel(&mut self, s: &mut Sel) {
        self.sels.push(s);
        self.ctes(&mut s.common);
        self.set(&mut s.set);
        for o in &mut s.order {
            self.e(&mut o.expr);
        }
        if let Some((n, o)) = &mut s.limit {
            self.e(n);
            self.opt(o);
        }
    }
    fn set(&mut self, s: &mut Set) {
        self.sets.push(s);
        match s {
            Set::Values(rows) => rows.iter_mut().flatten().for_each(|e| self.e(e)),
            Set::Op(_, l, r) => {
                self.set(l);
                self.set(r);
            }
            Set::Query { cols, from, wher, group, .. } => {
                if let Cols::List(l) = cols {
                    for c in l {
                        if let Col::Expr(e, _) = c {
                            self.e(e);
                        }
                    }
                }
                for t in from {
                    self.tab(t);
                }
                self.opt(wher);
                if let Some((g, h)) = group {
                    g.iter_mut().for_each(|e| self.e(e));
                    self.opt(h);
                }
            }
        }
    }
    fn tab(&mut self, t: &mut Tab) {
        self.tabs.push(t);
        match t {
            Tab::Named(..) => {}
            Tab::Derived(s, _) => self.sel(s),
            Tab::Join(l, r, _, c) => {
                self.tab(l);
                self.tab(r);
                if let Con::On(e) = c {
                    self.e(e);
                }
            }
        }
    }
    fn e(&mut self, e: &mut E) {
        self.es.push(e);
        match e {
            E::Lit(_) | E::Id(_) => {}
            E::Tuple(v) => v.iter_mut().for_each(|e| self.e(e)),
            E::Sub(s) => self.sel(s),
            E::Neg(x) | E::Not(x) | E::IsNull(x) => self.e(x),
            E::Bin(_, l, r) | E::Cmp(_, l, r) => {
                self.e(l);
                self.e(r);
            }
            E::In(x, set) => {
                self.e(x);
                match set {
                    InSet::List(v) => v.iter_mut().for_each(|e| self.e(e)),
                    InSet::Sel(s) => self.sel(s),
                    InSet::Name(_) => {}
                }
            }
            E::Between(a, b, c) => {
                self.e(a);
                self.e(b);
                self.e(c);
            }
            E::Case(x, w, y) => {
                if let Some(x) = x {
                    self.e(x);
                }
                for (g, b) in w {
                    self.e(g);
                    self.e(b);
                }
                if let Some(y) = y {
                    self.e(y);
                }
            }
        }
    }
}

fn query(cols: Vec<E>, from: Vec<Tab>) -> Sel {
    Sel {
        common: vec![],
        set: Set::Query {
            distinct: false,
            cols: Cols::List(cols.into_iter().map(|e| Col::Expr(e, None)).collect()),
            from,
            wher: None,
            group: None,
        },
        order: vec![],
        limit: None,
    }
}

fn any_name(s: &mut Src) -> Name {
    let n = match s.weighted(&[4, 3, 2, 1]) {
        0 => s.pick(&COLUMNS).to_string(),
        1 => s.pick(&ALIASES).to_string(),
        2 => s.pick(&TABLES).to_string(),
        _ => "nosuch".to_string(),
    };
    recase(s, &n)
}

fn any_leaf(s: &mut Src, cat: &Cat) -> E {
    match s.weighted(&[5, 4, 4]) {
        0 => E::Lit(match s.upto(8) {
            0 => Lit::Num("3".into()),
            1 => Lit::Str("s".into()),
            2 => Lit::CurDate,
            3 => Lit::CurTime,
            4 => Lit::CurTs,
            5 => Lit::Date("d".into()),
            6 => Lit::Time("t".into()),
            7 => Lit::Ts("t".into()),
            _ => Lit::Null,
        }),
        1 => {
            let n = any_name(s);
            E::Id(if s.chance(1, 3) { vec![any_name(s), n] } else { vec![n] })
        }
        _ => {
            if cat.tables.is_empty() {
                return E::Lit(Lit::Null);
            }
            let t = s.pick(&cat.tables);
            let c = s.pick(&t.cols).0.clone();
            E::Id(if s.chance(1, 3) { vec![t.name.clone(), c] } else { vec![c] })
        }
    }
}

fn mutate_e(s: &mut Src, cat: &Cat, e: &mut E) {
    let old = e.clone();
    let b = |e: E| Box::new(e);
    match s.weighted(&[8, 2, 2, 3, 3, 5, 3, 2, 2, 2]) {
        0 => *e = any_leaf(s, cat),
        1 => *e = E::Tuple(vec![old, any_leaf(s, cat)]),
        2 => *e = E::Sub(b2(query(vec![old, any_leaf(s, cat)], vec![]))),
        3 => {
            *e = match s.upto(2) {
                0 => E::Neg(b(old)),
                1 => E::Not(b(old)),
                _ => E::IsNull(b(old)),
            }
        }
        4 => {
            let op = *s.pick(&[Bin::Add, Bin::Sub, Bin::Cat, Bin::Mul, Bin::Div, Bin::And, Bin::Or]);
            let x = any_leaf(s, cat);
            *e = if s.coin() { E::Bin(op, b(old), b(x)) } else { E::Bin(op, b(x), b(old)) };
        }
        5 => {
            // another operator
            *e = match old {
                E::Bin(_, l, r) => E::Bin(*s.pick(&[Bin::Add, Bin::Sub, Bin::Cat, Bin::Mul, Bin::Div, Bin::And, Bin::Or]), l, r),
                E::Cmp(_, l, r) => E::Cmp(*s.pick(&[Cmp::Eq, Cmp::Ne, Cmp::Lt, Cmp::Le, Cmp::Gt, Cmp::Ge, Cmp::Like]), l, r),
                E::Not(x) => E::Neg(x),
                E::Neg(x) => E::Not(x),
                E::IsNull(x) => E::Not(x),
                E::In(x, InSet::List(mut v)) => {
                    let at = s.upto(v.len() as u64) as usize;
                    v.insert(at, any_leaf(s, cat));
                    E::In(x, InSet::List(v))
                }
                E::In(x, InSet::Sel(mut q)) => {
                    if let Set::Query { cols: Cols::List(l), .. } = &mut q.set {
                        l.push(Col::Expr(any_leaf(s, cat), None));
                    }
                    E::In(x, InSet::Sel(q))
                }
                E::In(x, InSet::Name(_)) => E::In(x, InSet::Name(any_table(s, cat))),
                E::Between(x, l, _) => E::Between(x, l, b(any_leaf(s, cat))),
                E::Case(x, mut w, y) => {
                    if s.coin() {
                        w.push((any_leaf(s, cat), any_leaf(s, cat)));
                        E::Case(x, w, y)
                    } else if s.coin() {
                        E::Case(x, w, Some(b(any_leaf(s, cat))))
                    } else {
                        E::Case(if x.is_none() { Some(b(any_leaf(s, cat))) } else { None }, w, y)
                    }
                }
                E::Sub(mut q) => {
                    if let Set::Query { cols: Cols::List(l), .. } = &mut q.set {
                        l.push(Col::Expr(any_leaf(s, cat), None));
                    }
                    E::Sub(q)
                }
                E::Id(mut p) => {
                    if p.len() == 1 {
                        p.insert(0, any_name(s));
                    } else {
                        p.remove(0);
                    }
                    E::Id(p)
                }
                E::Tuple(mut v) => {
                    v.push(any_leaf(s, cat));
                    E::Tuple(v)
                }
                E::Lit(_) => any_leaf(s, cat),
            }
        }
        6 => {
            let op = *s.pick(&[Cmp::Eq, Cmp::Ne, Cmp::Lt, Cmp::Le, Cmp::Gt, Cmp::Ge, Cmp::Like]);
            let x = any_leaf(s, cat);
            *e = if s.coin() { E::Cmp(op, b(old), b(x)) } else { E::Cmp(op, b(x), b(old)) };
        }
        7 => {
            let l = (0..s.upto(2)).map(|_| any_leaf(s, cat)).collect();
            *e = match s.upto(2) {
                0 => E::In(b(old), InSet::List(l)),
                1 => E::In(b(old), InSet::Name(any_table(s, cat))),
                _ => E::In(b(old), InSet::Sel(b2(query(vec![any_leaf(s, cat)], vec![])))),
            };
        }
        8 => *e = E::Sub(b2(query(vec![any_leaf(s, cat)], vec![Tab::Named(any_table(s, cat), None)]))),
        _ => {
            let x = any_leaf(s, cat);
            let y = any_leaf(s, cat);
            *e = if s.coin() { E::Between(b(old), b(x), b(y)) } else { E::Case(Some(b(x)), vec![(y, old)], None) };
        }
    }
}

fn b2<X>(x: X) -> Box<X> {
    Box::new(x)
}

fn any_table(s: &mut Src, cat: &Cat) -> Vec<Name> {
    if cat.tables.is_empty() || s.chance(1, 4) {
        let n = any_name(s);
        return if s.chance(1, 4) { vec![any_name(s), n] } else { vec![n] };
    }
    let t = s.pick(&cat.tables);
    if s.chance(1, 3) {
        vec![t.name.clone()]
    } else {
        vec![t.schema.clone(), t.name.clone()]
    }
}

/// one random change
pub fn mutate(s: &mut Src, cat: &Cat, st: &mut Stmt) {
    let copy = st.clone();
    let mut places = Places::of(st);
    let (ne, ns, nt, nq) = (places.es.len(), places.sets.len(), places.tabs.len(), places.sels.len());
    let w = [if ne > 0 { 10 } else { 0 }, if ns > 0 { 2 } else { 0 }, if nt > 0 { 3 } else { 0 }, if nq > 0 { 2 } else { 0 }, 0];
    let dml = matches!(&copy, Stmt::Insert { .. } | Stmt::Update { .. } | Stmt::Delete { .. } | Stmt::Describe(_));
    let w = [w[0], w[1], w[2], w[3], if dml { 6 } else { 0 }];
    if w.iter().sum::<u32>() == 0 {
        return;
    }
    // the pointers refer into *st, which is not touched otherwise while they are used
    match s.weighted(&w) {
        0 => {
            let k = s.upto(ne as u64 - 1) as usize;
            mutate_e(s, cat, unsafe { &mut *places.es[k] })
        }
        1 => {
            let set = unsafe { &mut *places.sets[s.upto(ns as u64 - 1) as usize] };
            match set {
                Set::Values(rows) => {
                    let k = s.upto(rows.len() as u64 - 1) as usize;
                    if s.coin() || rows[k].len() < 2 {
                        rows[k].push(any_leaf(s, cat));
                    } else {
                        rows[k].pop();
                    }
                }
                Set::Op(_, l, r) => {
                    if s.coin() {
                        std::mem::swap(l, r);
                    }
                    let w = 1 + s.upto(2);
                    **r = Set::Values(vec![(0..w).map(|_| any_leaf(s, cat)).collect()]);
                }
                Set::Query { cols, from, wher, group, .. } => match s.upto(5) {
                    0 => *cols = Cols::All,
                    1 | 2 => {
                        if let Cols::List(l) = cols {
                            let c = if s.coin() { Col::AllFrom(any_name(s)) } else { Col::Expr(any_leaf(s, cat), None) };
                            let at = s.upto(l.len() as u64) as usize;
                            l.insert(at, c);
                        }
                    }
                    3 => {
                        from.pop();
                    }
                    4 => *wher = Some(any_leaf(s, cat)),
                    _ => *group = Some((vec![any_leaf(s, cat)], Some(any_leaf(s, cat)))),
                },
            }
        }
        2 => {
            let t = unsafe { &mut *places.tabs[s.upto(nt as u64 - 1) as usize] };
            match t {
                Tab::Named(p, a) => match s.upto(2) {
                    0 => *p = any_table(s, cat),
                    1 => *a = Some(any_name(s)),
                    _ => *a = None,
                },
                Tab::Derived(_, a) => *a = if s.coin() { None } else { Some(any_name(s)) },
                Tab::Join(l, r, op, c) => match s.upto(4) {
                    0 => *c = Con::On(any_leaf(s, cat)),
                    1 => *c = Con::Using(vec![any_name(s)]),
                    2 => {
                        if let Con::Using(v) = c {
                            v.push(any_name(s));
                        }
                    }
                    3 => std::mem::swap(l, r),
                    _ => *op = JOp::Join(*s.pick(&[JT::Inner, JT::Left, JT::Right, JT::Full])),
                },
            }
        }
        3 => {
            let q = unsafe { &mut *places.sels[s.upto(nq as u64 - 1) as usize] };
            match s.upto(3) {
                0 => q.limit = Some((any_leaf(s, cat), if s.coin() { Some(any_leaf(s, cat)) } else { None })),
                1 => q.order.push(Ord_ { expr: any_leaf(s, cat), collate: None, desc: false }),
                2 if !q.common.is_empty() => {
                    let k = s.upto(q.common.len() as u64 - 1) as usize;
                    match s.upto(2) {
                        0 => q.common[k].id = any_name(s),
                        1 => {
                            let mut l = q.common[k].cols.clone().unwrap_or_default();
                            l.push(any_name(s));
                            q.common[k].cols = Some(l);
                        }
                        _ => {
                            let c = q.common[k].clone();
                            q.common.push(c);
                        }
                    }
                }
                _ => {
                    let id = any_name(s);
                    q.common.push(Cte { id, cols: None, query: query(vec![any_leaf(s, cat)], vec![]) });
                }
            }
        }
        _ => match st {
            Stmt::Insert { table, cols, source, .. } => match s.upto(5) {
                0 => *table = any_table(s, cat),
                1 => *cols = None,
                2 | 3 => {
                    let c = cols.get_or_insert(vec![]);
                    let at = s.upto(c.len() as u64) as usize;
                    let n = any_name(s);
                    if s.coin() && at < c.len() {
                        c[at] = n;
                    } else {
                        c.insert(at, n);
                        // keep the number of values
                        if let Set::Values(rows) = source {
                            for r in rows {
                                r.insert(at.min(r.len()), any_leaf(s, cat));
                            }
                        }
                    }
                }
                4 => {
                    if let Some(c) = cols {
                        if c.len() > 1 {
                            c.pop();
                            if let Set::Values(rows) = source {
                                for r in rows {
                                    if r.len() > 1 {
                                        r.pop();
                                    }
                                }
                            }
                        }
                    }
                }
                _ => {
                    if let Set::Values(rows) = source {
                        for r in rows {
                            r.push(any_leaf(s, cat));
                        }
                    }
                }
            },
            Stmt::Update { table, sets, .. } => match s.upto(3) {
                0 => *table = any_table(s, cat),
                1 => {
                    let k = s.upto(sets.len() as u64 - 1) as usize;
                    sets[k].0[0] = any_name(s);
                }
                2 => {
                    let k = s.upto(sets.len() as u64 - 1) as usize;
                    let c = sets[k].clone();
                    sets.push(c);
                }
                _ => {
                    let n = any_name(s);
                    sets.push((vec![n], any_leaf(s, cat)));
                }
            },
            Stmt::Delete { table, .. } => *table = any_table(s, cat),
            Stmt::Describe(p) => *p = any_table(s, cat),
            _ => {}
        },
    }
}
