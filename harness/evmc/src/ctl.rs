//! The lookups within and across tables, read from the stark objects
//! themselves, and their evaluation on rows.
use evm_arithmetization::verif_hooks::tables::{Starks, Table};
use plonky2::field::goldilocks_field::GoldilocksField;
use plonky2::field::types::Field;

pub type F = GoldilocksField;
pub fn f(x: u64) -> F {
    F::from_noncanonical_u64(x)
}
pub fn u(x: F) -> u64 {
    use plonky2::field::types::PrimeField64;
    x.to_canonical_u64()
}

/// What the derived debug text of a value says.
#[derive(Clone, Debug)]
pub enum Node {
    Atom(String),
    Seq(Vec<Node>),
    Struct(Vec<(String, Node)>),
}
impl Node {
    pub fn get(&self, k: &str) -> &Node {
        match self {
            Node::Struct(v) => &v.iter().find(|(n, _)| n == k).unwrap_or_else(|| panic!("no field {k} in debug text")).1,
            _ => panic!("not a struct: {self:?}"),
        }
    }
    pub fn seq(&self) -> &[Node] {
        match self {
            Node::Seq(v) => v,
            _ => panic!("not a sequence: {self:?}"),
        }
    }
    pub fn num(&self) -> u64 {
        match self {
            Node::Atom(s) => s.parse().unwrap_or_else(|_| panic!("not a number: {s}")),
            _ => panic!("not a number: {self:?}"),
        }
    }
}
struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        let r = self.s.get(self.i) == Some(&c);
        self.i += r as usize;
        r
    }
    fn word(&mut self) -> String {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || b"_-+.".contains(&self.s[self.i])) {
            self.i += 1;
        }
        String::from_utf8(self.s[st..self.i].to_vec()).unwrap()
    }
    fn list(&mut self, end: u8) -> Vec<Node> {
        let mut v = vec![];
        while !self.eat(end) {
            v.push(self.node());
            self.eat(b',');
        }
        v
    }
    fn node(&mut self) -> Node {
        if self.eat(b'[') {
            return Node::Seq(self.list(b']'));
        }
        if self.eat(b'(') {
            return Node::Seq(self.list(b')'));
        }
        let w = self.word();
        if self.eat(b'{') {
            let mut v = vec![];
            while !self.eat(b'}') {
                let k = self.word();
                assert!(self.eat(b':'), "debug text: expected ':' after {k}");
                v.push((k, self.node()));
                self.eat(b',');
            }
            return Node::Struct(v);
        }
        if self.eat(b'(') {
            let mut l = self.list(b')');
            return if l.len() == 1 { l.pop().unwrap() } else { Node::Seq(l) };
        }
        assert!(!w.is_empty(), "debug text: nothing at {}", self.i);
        Node::Atom(w)
    }
}
pub fn parse(s: &str) -> Node {
    P { s: s.as_bytes(), i: 0 }.node()
}

#[derive(Clone, Debug)]
pub struct Column {
    pub lin: Vec<(usize, F)>,
    pub next: Vec<(usize, F)>,
    pub constant: F,
}
impl Column {
    fn of(n: &Node) -> Self {
        let lin = |k: &str| n.get(k).seq().iter().map(|p| (p.seq()[0].num() as usize, f(p.seq()[1].num()))).collect();
        Column { lin: lin("linear_combination"), next: lin("next_row_linear_combination"), constant: f(n.get("constant").num()) }
    }
    pub fn eval(&self, lv: &[F], nv: &[F]) -> F {
        self.lin.iter().map(|(c, k)| lv[*c] * *k).sum::<F>() + self.next.iter().map(|(c, k)| nv[*c] * *k).sum::<F>() + self.constant
    }
}
#[derive(Clone, Debug)]
pub struct Filter {
    products: Vec<(Column, Column)>,
    constants: Vec<Column>,
}
impl Filter {
    fn of(n: &Node) -> Self {
        Filter {
            products: n.get("products").seq().iter().map(|p| (Column::of(&p.seq()[0]), Column::of(&p.seq()[1]))).collect(),
            constants: n.get("constants").seq().iter().map(Column::of).collect(),
        }
    }
    pub fn eval(&self, lv: &[F], nv: &[F]) -> F {
        self.products.iter().map(|(a, b)| a.eval(lv, nv) * b.eval(lv, nv)).sum::<F>() + self.constants.iter().map(|c| c.eval(lv, nv)).sum::<F>()
    }
}
/// One side of a lookup.
#[derive(Clone, Debug)]
pub struct Side {
    pub table: usize,
    pub columns: Vec<Column>,
    pub filter: Filter,
}
impl Side {
    fn of(n: &Node) -> Self {
        Side {
            table: n.get("table").num() as usize,
            columns: n.get("columns").seq().iter().map(Column::of).collect(),
            filter: Filter::of(n.get("filter")),
        }
    }
    pub fn tuple(&self, lv: &[F], nv: &[F]) -> Vec<F> {
        self.columns.iter().map(|c| c.eval(lv, nv)).collect()
    }
}
#[derive(Clone, Debug)]
pub struct Ctl {
    pub looking: Vec<Side>,
    pub looked: Side,
}
/// A lookup of one table into itself.
#[derive(Clone, Debug)]
pub struct Inner {
    pub columns: Vec<Column>,
    pub table: Column,
    pub frequencies: Column,
    pub filters: Vec<Filter>,
}
impl Inner {
    /// The set of values that may be looked up.
    pub fn values(&self, t: &Table) -> std::collections::HashSet<u64> {
        let n = t[0].len();
        (0..n).map(|i| u(self.table.eval(&row(t, i), &row(t, (i + 1) % n)))).collect()
    }
    pub fn ok(&self, lv: &[F], nv: &[F], set: &dyn Fn(u64) -> bool) -> bool {
        self.columns.iter().zip(&self.filters).all(|(c, fl)| fl.eval(lv, nv) == F::ZERO || set(u(c.eval(lv, nv))))
    }
}
pub fn row(t: &Table, i: usize) -> Vec<F> {
    t.iter().map(|c| c[i]).collect()
}

pub struct Lookups {
    pub ctls: Vec<Ctl>,
    pub inner: Vec<Vec<Inner>>,
}
pub fn lookups(s: &Starks) -> Lookups {
    Lookups {
        ctls: parse(&s.cross_table_lookups())
            .seq()
            .iter()
            .map(|n| Ctl { looking: n.get("looking_tables").seq().iter().map(Side::of).collect(), looked: Side::of(n.get("looked_table")) })
            .collect(),
        inner: s
            .lookups()
            .iter()
            .map(|t| {
                parse(t)
                    .seq()
                    .iter()
                    .map(|n| Inner {
                        columns: n.get("columns").seq().iter().map(Column::of).collect(),
                        table: Column::of(n.get("table_column")),
                        frequencies: Column::of(n.get("frequencies_column")),
                        filters: n.get("filter_columns").seq().iter().map(Filter::of).collect(),
                    })
                    .collect()
            })
            .collect(),
    }
}
