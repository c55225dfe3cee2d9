//! Canonical form of a trained model: what a caller can observe, as bytes and back.
use multi_target_decision_tree::leaf::*;
use multi_target_decision_tree::node::TreeNode;

#[derive(Clone, Debug, PartialEq)]
pub enum LeafD {
    Data { rows: Vec<Vec<f64>>, cols: Vec<Vec<f64>>, labels: Vec<Vec<f64>> },
    Sorted { cols: Vec<Vec<(f64, u64)>>, labels: Vec<Vec<f64>> },
    Out(Vec<f64>),
    Amg { max: f64, class: u64 },
    /// a leaf whose content is absent
    Missing,
}
#[derive(Clone, Debug, PartialEq)]
pub enum NodeD {
    Split { col: u32, val: f64, t: usize, f: usize },
    Leaf(LeafD),
    /// neither a leaf nor a full split: a partially built node
    Broken,
}
pub type TreeD = Vec<NodeD>; // root at 0

#[derive(Clone, Debug, PartialEq, Default)]
pub struct ModelD {
    pub trees: Vec<TreeD>,
    pub init: Vec<f64>,
    pub lr: f64,
}

pub trait LeafDump: Leaf {
    fn dump(&self) -> LeafD;
}
impl LeafDump for RegressionLeaf {
    fn dump(&self) -> LeafD {
        match &self.data {
            None => LeafD::Missing,
            Some(d) => LeafD::Data { rows: d.feature_rows.clone(), cols: d.feature_columns.clone(), labels: d.labels.clone() },
        }
    }
}
impl<'a> LeafDump for RegressionLeafNewPartition<'a> {
    fn dump(&self) -> LeafD {
        match &self.data {
            None => LeafD::Missing,
            Some(d) => LeafD::Sorted {
                cols: d.sorted_feature_columns.iter().map(|c| c.iter().map(|p| (p.0, p.1 as u64)).collect()).collect(),
                labels: d.labels.iter().map(|l| (*l).clone()).collect(),
            },
        }
    }
}
impl LeafDump for GradBoostLeaf {
    fn dump(&self) -> LeafD {
        match &self.leaf_output {
            None => LeafD::Missing,
            Some(v) => LeafD::Out(v.clone()),
        }
    }
}
impl LeafDump for AMGBoostLeaf {
    fn dump(&self) -> LeafD {
        match (self.max_value, self.class) {
            (Some(max), Some(class)) => LeafD::Amg { max, class: class as u64 },
            _ => LeafD::Missing,
        }
    }
}

fn walk<L: LeafDump>(n: &TreeNode<L>, out: &mut TreeD) -> usize {
    let me = out.len();
    out.push(NodeD::Broken);
    match (&n.true_branch, &n.false_branch, &n.leaf) {
        (None, None, Some(l)) => out[me] = NodeD::Leaf(l.dump()),
        (Some(t), Some(f), None) => {
            let ti = walk(t, out);
            let fi = walk(f, out);
            out[me] = NodeD::Split { col: n.question.column, val: n.question.value, t: ti, f: fi };
        }
        _ => {}
    }
    me
}
pub fn dump_tree<L: LeafDump>(n: &TreeNode<L>) -> TreeD {
    let mut v = Vec::new();
    walk(n, &mut v);
    v
}

// ------------------------------------------------------------------ bytes
pub struct W(pub Vec<u8>);
impl W {
    pub fn u(&mut self, x: u64) {
        self.0.extend_from_slice(&x.to_le_bytes());
    }
    pub fn d(&mut self, x: f64) {
        self.u(x.to_bits());
    }
    pub fn v(&mut self, v: &[f64]) {
        self.u(v.len() as u64);
        for x in v {
            self.d(*x);
        }
    }
    pub fn m(&mut self, m: &[Vec<f64>]) {
        self.u(m.len() as u64);
        for r in m {
            self.v(r);
        }
    }
}
pub struct R<'a>(pub &'a [u8]);
impl<'a> R<'a> {
    pub fn u(&mut self) -> u64 {
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        u64::from_le_bytes(a.try_into().unwrap())
    }
    pub fn d(&mut self) -> f64 {
        f64::from_bits(self.u())
    }
    pub fn v(&mut self) -> Vec<f64> {
        (0..self.u()).map(|_| self.d()).collect()
    }
    pub fn m(&mut self) -> Vec<Vec<f64>> {
        (0..self.u()).map(|_| self.v()).collect()
    }
}

pub fn enc_model(m: &ModelD, w: &mut W) {
    w.v(&m.init);
    w.d(m.lr);
    w.u(m.trees.len() as u64);
    for t in &m.trees {
        w.u(t.len() as u64);
        for n in t {
            match n {
                NodeD::Split { col, val, t, f } => {
                    w.u(1);
                    w.u(*col as u64);
                    w.d(*val);
                    w.u(*t as u64);
                    w.u(*f as u64);
                }
                NodeD::Broken => w.u(2),
                NodeD::Leaf(LeafD::Missing) => w.u(3),
                NodeD::Leaf(LeafD::Data { rows, cols, labels }) => {
                    w.u(4);
                    w.m(rows);
                    w.m(cols);
                    w.m(labels);
                }
                NodeD::Leaf(LeafD::Sorted { cols, labels }) => {
                    w.u(5);
                    w.u(cols.len() as u64);
                    for c in cols {
                        w.u(c.len() as u64);
                        for (x, i) in c {
                            w.d(*x);
                            w.u(*i);
                        }
                    }
                    w.m(labels);
                }
                NodeD::Leaf(LeafD::Out(v)) => {
                    w.u(6);
                    w.v(v);
                }
                NodeD::Leaf(LeafD::Amg { max, class }) => {
                    w.u(7);
                    w.d(*max);
                    w.u(*class);
                }
            }
        }
    }
}
pub fn dec_model(r: &mut R) -> ModelD {
    let init = r.v();
    let lr = r.d();
    let nt = r.u();
    let trees = (0..nt)
        .map(|_| {
            (0..r.u())
                .map(|_| match r.u() {
                    1 => {
                        let col = r.u() as u32;
                        let val = r.d();
                        let t = r.u() as usize;
                        let f = r.u() as usize;
                        NodeD::Split { col, val, t, f }
                    }
                    2 => NodeD::Broken,
                    3 => NodeD::Leaf(LeafD::Missing),
                    4 => NodeD::Leaf(LeafD::Data { rows: r.m(), cols: r.m(), labels: r.m() }),
                    5 => {
                        let n = r.u();
                        let cols = (0..n).map(|_| (0..r.u()).map(|_| (r.d(), r.u())).collect()).collect();
                        NodeD::Leaf(LeafD::Sorted { cols, labels: r.m() })
                    }
                    6 => NodeD::Leaf(LeafD::Out(r.v())),
                    7 => NodeD::Leaf(LeafD::Amg { max: r.d(), class: r.u() }),
                    x => panic!("bad model encoding {}", x),
                })
                .collect()
        })
        .collect();
    ModelD { trees, init, lr }
}

/// Index of the leaf a row reaches, by the documented rule (x >= value goes to the true branch).
pub fn route(t: &TreeD, row: &[f64]) -> usize {
    let mut i = 0;
    loop {
        match &t[i] {
            NodeD::Split { col, val, t: a, f: b } => {
                i = if row[*col as usize] >= *val { *a } else { *b };
            }
            _ => return i,
        }
    }
}

pub fn broken(m: &ModelD) -> Option<String> {
    for (i, t) in m.trees.iter().enumerate() {
        for (j, n) in t.iter().enumerate() {
            match n {
                NodeD::Broken => return Some(format!("tree {} node {} is neither a leaf nor a complete split", i, j)),
                NodeD::Leaf(LeafD::Missing) => return Some(format!("tree {} node {} is a leaf without content", i, j)),
                _ => {}
            }
        }
    }
    None
}

/// First difference between two models, described for a person; None if identical to the bit.
pub fn diff(a: &ModelD, b: &ModelD) -> Option<String> {
    let bits = |x: &[f64], y: &[f64]| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.to_bits() == q.to_bits());
    if !bits(&a.init, &b.init) {
        return Some(format!("initial guess {:?} vs {:?}", a.init, b.init));
    }
    if a.lr.to_bits() != b.lr.to_bits() {
        return Some(format!("learning rate {} vs {}", a.lr, b.lr));
    }
    if a.trees.len() != b.trees.len() {
        return Some(format!("{} trees vs {}", a.trees.len(), b.trees.len()));
    }
    for i in 0..a.trees.len() {
        let (s, t) = (&a.trees[i], &b.trees[i]);
        for j in 0..s.len().min(t.len()) {
            let same = match (&s[j], &t[j]) {
                (NodeD::Split { col: c, val: v, t: x, f: y }, NodeD::Split { col: c2, val: v2, t: x2, f: y2 }) => {
                    c == c2 && v.to_bits() == v2.to_bits() && x == x2 && y == y2
                }
                (NodeD::Leaf(p), NodeD::Leaf(q)) => {
                    let mut w1 = W(vec![]);
                    let mut w2 = W(vec![]);
                    enc_model(&ModelD { trees: vec![vec![NodeD::Leaf(p.clone())]], ..Default::default() }, &mut w1);
                    enc_model(&ModelD { trees: vec![vec![NodeD::Leaf(q.clone())]], ..Default::default() }, &mut w2);
                    w1.0 == w2.0
                }
                (NodeD::Broken, NodeD::Broken) => true,
                _ => false,
            };
            if !same {
                return Some(format!("tree {} node {}: {} vs {}", i, j, brief(&s[j]), brief(&t[j])));
            }
        }
        if s.len() != t.len() {
            return Some(format!("tree {}: {} nodes vs {}", i, s.len(), t.len()));
        }
    }
    None
}
pub fn brief(n: &NodeD) -> String {
    match n {
        NodeD::Split { col, val, .. } => format!("split(feature {} >= {:?})", col, val),
        NodeD::Broken => "partially built node".into(),
        NodeD::Leaf(LeafD::Missing) => "empty leaf".into(),
        NodeD::Leaf(LeafD::Data { rows, labels, .. }) => {
            format!("leaf({} rows, labels {})", rows.len(), trunc(&format!("{:?}", labels)))
        }
        NodeD::Leaf(LeafD::Sorted { labels, .. }) => format!("leaf({} labels {})", labels.len(), trunc(&format!("{:?}", labels))),
        NodeD::Leaf(LeafD::Out(v)) => format!("leaf(output {})", trunc(&format!("{:?}", v))),
        NodeD::Leaf(LeafD::Amg { max, class }) => format!("leaf(max {:?} class {})", max, class),
    }
}
fn trunc(s: &str) -> String {
    if s.len() > 160 {
        format!("{}...", &s[..160])
    } else {
        s.into()
    }
}
