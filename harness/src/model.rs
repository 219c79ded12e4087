//! The reference model: an ordered forest written down directly, used as the oracle.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeSet, HashMap};

thread_local! {
    pub static LIVE: RefCell<BTreeSet<u64>> = RefCell::new(BTreeSet::new());
    pub static NEXT: Cell<u64> = Cell::new(1);
}

/// Node data: every instance has its own identity; dropping is observed.
pub struct D { pub id: u64, pub val: u32 }
impl D {
    pub fn new(val: u32) -> D {
        let id = NEXT.with(|n| { let v = n.get(); n.set(v + 1); v });
        LIVE.with(|l| l.borrow_mut().insert(id));
        D { id, val }
    }
}
impl Clone for D { fn clone(&self) -> D { D::new(self.val) } }
impl Drop for D {
    fn drop(&mut self) {
        let ok = LIVE.with(|l| l.borrow_mut().remove(&self.id));
        if !ok { crate::fatal("node data dropped twice"); }
    }
}
impl PartialEq for D { fn eq(&self, o: &D) -> bool { self.val == o.val } }
impl Eq for D {}
impl std::fmt::Debug for D { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.val) } }
/// A second data type, for comparisons between trees of different types.
pub struct E(pub u32);
impl PartialEq<E> for D { fn eq(&self, o: &E) -> bool { self.val == o.0 } }
impl PartialEq<E> for E { fn eq(&self, o: &E) -> bool { self.0 == o.0 } }
impl Clone for E { fn clone(&self) -> E { E(self.0) } }

#[derive(Clone, Debug)]
pub struct MN { pub did: u64, pub val: u32, pub par: Option<usize>, pub ch: Vec<usize>, pub tree: usize }
#[derive(Clone, Debug)]
pub struct MT { pub root: usize, pub vac: bool }
#[derive(Clone, Default)]
pub struct Model { pub n: Vec<MN>, pub t: Vec<MT>, pub by: HashMap<u64, usize> }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pos { First, Last, Prev, Next }
pub const POS: [Pos; 4] = [Pos::First, Pos::Last, Pos::Prev, Pos::Next];
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Er { Loop, Empty, Sib, Borrow }

impl Model {
    pub fn add(&mut self, did: u64, val: u32, tree: usize) -> usize {
        self.n.push(MN { did, val, par: None, ch: vec![], tree });
        self.by.insert(did, self.n.len() - 1);
        self.n.len() - 1
    }
    pub fn new_tree(&mut self, did: u64, val: u32) -> usize {
        let t = self.t.len();
        let n = self.add(did, val, t);
        self.t.push(MT { root: n, vac: false });
        n
    }
    pub fn idx(&self, x: usize) -> usize { let p = self.n[x].par.unwrap(); self.n[p].ch.iter().position(|&c| c == x).unwrap() }
    pub fn sib(&self, x: usize, d: i64) -> Option<usize> {
        let p = self.n[x].par?;
        let i = self.idx(x) as i64 + d;
        if i < 0 { None } else { self.n[p].ch.get(i as usize).copied() }
    }
    pub fn sibs(&self, x: usize) -> Vec<usize> { match self.n[x].par { Some(p) => self.n[p].ch.clone(), None => vec![x] } }
    pub fn root(&self, mut x: usize) -> usize { while let Some(p) = self.n[x].par { x = p; } x }
    pub fn anc(&self, x: usize) -> Vec<usize> { let mut v = vec![]; let mut c = self.n[x].par; while let Some(p) = c { v.push(p); c = self.n[p].par; } v }
    pub fn is_in(&self, mut x: usize, top: usize) -> bool { loop { if x == top { return true; } match self.n[x].par { Some(p) => x = p, None => return false } } }
    pub fn pre(&self, x: usize) -> Vec<usize> { let mut v = vec![]; self.pre_(x, &mut v); v }
    fn pre_(&self, x: usize, v: &mut Vec<usize>) { v.push(x); for &c in &self.n[x].ch { self.pre_(c, v); } }
    /// Depth-first events (open?, node, depth).
    pub fn events(&self, x: usize, max: usize) -> Vec<(bool, usize, usize)> { let mut v = vec![]; self.ev_(x, 0, max, &mut v); v }
    fn ev_(&self, x: usize, d: usize, max: usize, v: &mut Vec<(bool, usize, usize)>) {
        v.push((true, x, d));
        if d < max { for &c in &self.n[x].ch { self.ev_(c, d + 1, max, v); } }
        v.push((false, x, d));
    }
    pub fn bfs(&self, x: usize, start: usize) -> Vec<(usize, usize)> {
        let mut out = vec![]; let mut lv = vec![x]; let mut d = 0;
        while !lv.is_empty() {
            if d >= start { out.extend(lv.iter().map(|&n| (n, d))); }
            lv = lv.iter().flat_map(|&n| self.n[n].ch.clone()).collect();
            d += 1;
        }
        out
    }
    pub fn eq(&self, a: usize, b: usize) -> bool {
        let (x, y) = (&self.n[a], &self.n[b]);
        x.val == y.val && x.ch.len() == y.ch.len() && x.ch.iter().zip(&y.ch).all(|(&p, &q)| self.eq(p, q))
    }
    pub fn can_create(&self, at: usize, p: Pos) -> Result<(), Er> {
        if matches!(p, Pos::Prev | Pos::Next) && self.n[at].par.is_none() { Err(Er::Sib) } else { Ok(()) }
    }
    pub fn link(&mut self, x: usize, at: usize, p: Pos) {
        let (par, i) = match p {
            Pos::First => (at, 0),
            Pos::Last => (at, self.n[at].ch.len()),
            Pos::Prev => (self.n[at].par.unwrap(), self.idx(at)),
            Pos::Next => (self.n[at].par.unwrap(), self.idx(at) + 1),
        };
        self.n[par].ch.insert(i, x);
        self.n[x].par = Some(par);
    }
    pub fn set_tree(&mut self, x: usize, t: usize) { for n in self.pre(x) { self.n[n].tree = t; } }
    pub fn unlink(&mut self, x: usize) { if let Some(p) = self.n[x].par { let i = self.idx(x); self.n[p].ch.remove(i); self.n[x].par = None; } }
    pub fn int_parent(&mut self, at: usize, new: usize) {
        match self.n[at].par {
            Some(p) => { let i = self.idx(at); self.n[p].ch[i] = new; self.n[new].par = Some(p); }
            None => { let t = self.n[at].tree; self.t[t].root = new; }
        }
        self.n[new].ch = vec![at];
        self.n[at].par = Some(new);
    }
    pub fn int_child(&mut self, at: usize, new: usize) {
        let ch = std::mem::replace(&mut self.n[at].ch, vec![new]);
        for &c in &ch { self.n[c].par = Some(new); }
        self.n[new].ch = ch;
        self.n[new].par = Some(at);
    }
    pub fn detach(&mut self, x: usize) {
        if self.n[x].par.is_none() { return; }
        self.unlink(x);
        let t = self.t.len();
        self.t.push(MT { root: x, vac: false });
        self.set_tree(x, t);
    }
    pub fn can_move(&self, x: usize, at: usize, p: Pos) -> Result<(), Er> {
        let par = match p { Pos::First | Pos::Last => at, _ => self.n[at].par.ok_or(Er::Sib)? };
        if self.is_in(par, x) { Err(Er::Loop) } else { Ok(()) }
    }
    pub fn mv(&mut self, x: usize, at: usize, p: Pos) {
        if x == at { return; }
        let (a, b) = (self.n[x].tree, self.n[at].tree);
        if a != b { if self.n[x].par.is_none() { self.t[a].vac = true; } self.set_tree(x, b); }
        self.unlink(x);
        self.link(x, at, p);
    }
    pub fn can_replace(&self, x: usize) -> Result<(), Er> {
        if self.n[x].par.is_none() { match self.n[x].ch.len() { 0 => Err(Er::Empty), 1 => Ok(()), _ => Err(Er::Sib) } } else { Ok(()) }
    }
    pub fn replace(&mut self, x: usize) {
        let ch = std::mem::take(&mut self.n[x].ch);
        match self.n[x].par.take() {
            Some(p) => {
                let i = self.n[p].ch.iter().position(|&c| c == x).unwrap();
                self.n[p].ch.splice(i..i + 1, ch.iter().copied());
                for &c in &ch { self.n[c].par = Some(p); }
            }
            None => { let t = self.n[x].tree; self.t[t].root = ch[0]; self.n[ch[0]].par = None; }
        }
        let t = self.t.len();
        self.t.push(MT { root: x, vac: false });
        self.n[x].tree = t;
    }
    pub fn show(&self, x: usize) -> String {
        let n = &self.n[x];
        let mut s = format!("n{}:{}", x, n.val);
        if !n.ch.is_empty() { s += "["; s += &n.ch.iter().map(|&c| self.show(c)).collect::<Vec<_>>().join(" "); s += "]"; }
        s
    }
}
