//! Operations on real handles next to the model, and the audit that compares the two.
use crate::model::*;
use crate::nl::NL;
use dendron::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub enum HK { P(Node<D>), H(HotNode<D>), F(FrozenNode<D>), T(Tree<D>), G(HierarchyEditGrant<D>), R(HierarchyEditProhibition<D>), NW(NodeWeak<D>), TW(TreeWeak<D>) }
pub struct Hd { pub k: HK, pub m: usize }
#[derive(Debug, Clone)]
pub struct Fail { pub props: Vec<&'static str>, pub msg: String }
pub type R<T = ()> = Result<T, Fail>;

#[derive(Default)]
pub struct World { pub m: Model, pub h: Vec<Hd>, pub mutb: Option<usize>, pub allb: bool, pub cur: Vec<&'static str> }

#[macro_export]
macro_rules! chk {
    ($w:expr, [$($p:expr),*], $c:expr, $($f:tt)*) => { if !$c { return Err($w.fail(&[$($p),*], format!($($f)*))); } };
}
/// As `chk`, for an observation only: if it is about another property, the search goes on.
#[macro_export]
macro_rules! soft {
    ($w:expr, [$($p:expr),*], $c:expr, $($f:tt)*) => { if !$c { $crate::keep(Err($w.fail(&[$($p),*], format!($($f)*))))?; } };
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Exp { Ok, Err(Er), Grant }

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| crate::last_panic())
}
fn er(e: &HierarchyError) -> Er {
    match e { HierarchyError::AncestorDescendantLoop => Er::Loop, HierarchyError::EmptyTree => Er::Empty, HierarchyError::SiblingsWithoutParent => Er::Sib, _ => Er::Borrow }
}
pub fn ins<'a>(p: Pos, h: &'a HotNode<D>) -> InsertAs<&'a HotNode<D>> {
    match p { Pos::First => InsertAs::FirstChildOf(h), Pos::Last => InsertAs::LastChildOf(h), Pos::Prev => InsertAs::PreviousSiblingOf(h), Pos::Next => InsertAs::NextSiblingOf(h) }
}
pub fn adopt_as(p: Pos) -> AdoptAs { match p { Pos::First => AdoptAs::FirstChild, Pos::Last => AdoptAs::LastChild, Pos::Prev => AdoptAs::PreviousSibling, Pos::Next => AdoptAs::NextSibling } }

impl World {
    pub fn fail(&self, extra: &[&'static str], msg: String) -> Fail {
        let mut props = self.cur.clone();
        for e in extra { if !props.contains(e) { props.push(e); } }
        if (self.mutb.is_some() || self.allb) && !props.contains(&"C23") { props.push("C23+"); }
        Fail { props, msg }
    }
    pub fn log(&self, s: String) { crate::log(s); crate::now_doing(&self.cur, &[]); }

    // ---- model facts derived from the handles
    pub fn tree_of(&self, h: &Hd) -> usize { match h.k { HK::P(_) | HK::H(_) | HK::F(_) | HK::NW(_) => self.m.n[h.m].tree, _ => h.m } }
    pub fn alive(&self, t: usize) -> bool { self.h.iter().any(|h| matches!(h.k, HK::P(_) | HK::H(_) | HK::F(_) | HK::T(_)) && self.tree_of(h) == t) }
    pub fn grants(&self, t: usize) -> usize { self.h.iter().filter(|h| matches!(h.k, HK::H(_) | HK::G(_)) && self.tree_of(h) == t).count() }
    pub fn prohs(&self, t: usize) -> usize { self.h.iter().filter(|h| matches!(h.k, HK::F(_) | HK::R(_)) && self.tree_of(h) == t).count() }
    pub fn pick(&self, a: u32, f: impl Fn(&HK) -> bool) -> Option<usize> {
        let v: Vec<usize> = (0..self.h.len()).filter(|&i| f(&self.h[i].k)).collect();
        if v.is_empty() { None } else { Some(v[a as usize % v.len()]) }
    }
    pub fn push(&mut self, k: HK, m: usize) { self.h.push(Hd { k, m }); }
    pub fn plain(&self, i: usize) -> Option<Node<D>> { match &self.h[i].k { HK::P(n) => Some(n.clone()), HK::H(n) => Some(n.plain()), HK::F(n) => Some(n.plain()), _ => None } }

    // ---- identity
    pub fn id(&self, n: &Node<D>) -> R<usize> {
        let g = guard(|| n.try_borrow_data().ok().map(|d| (d.id, d.val)));
        match g {
            Ok(Some((did, val))) => match self.m.by.get(&did) {
                Some(&x) if self.m.n[x].did == did => {
                    chk!(self, ["C23"], self.m.n[x].val == val, "data of n{} is {} instead of {}", x, val, self.m.n[x].val);
                    chk!(self, ["C23"], self.mutb != Some(x), "n{}: data can be borrowed while mutably borrowed", x);
                    Ok(x)
                }
                _ => Err(self.fail(&["C23", "C01"], format!("a node has unknown data (instance {}, value {})", did, val))),
            },
            Ok(None) => match self.mutb { Some(x) => Ok(x), None => Err(self.fail(&["C23"], "data cannot be borrowed although no borrow is active".into())) },
            Err(e) => Err(self.fail(&["C23"], format!("try_borrow_data panicked: {}", e))),
        }
    }
    fn ids(&self, n: &Option<Node<D>>) -> R<Option<usize>> { match n { Some(n) => Ok(Some(self.id(n)?)), None => Ok(None) } }

    pub fn call<T>(&self, props: &[&'static str], what: &str, f: impl FnOnce() -> T) -> R<T> {
        crate::now_doing(&self.cur, props);
        guard(f).map_err(|e| self.fail(props, format!("{} panicked: {}", what, e)))
    }

    /// Every accessor of one node handle against the model.
    pub fn audit_node<N: NL>(&self, n: &N, x: usize, root: &Node<D>) -> R {
        let m = &self.m;
        let k = N::K;
        chk!(self, ["C01", "C24", "C19"], self.id(&n.pl())? == x, "{} handle of n{} refers to another node", k, x);
        macro_rules! opt { ($p:expr, $f:ident, $e:expr) => {{
            let r = self.call(&$p, &format!("{}::{}", k, stringify!($f)), || n.$f().map(|v| v.pl()))?;
            let got = self.ids(&r)?; let want: Option<usize> = $e;
            if got != want { return Err(self.fail(&$p, format!("{}::{} of n{} is {:?} instead of {:?}", k, stringify!($f), x, got, want))); }
        }} }
        macro_rules! one { ($p:expr, $f:ident, $e:expr) => {{
            let r = self.call(&$p, &format!("{}::{}", k, stringify!($f)), || n.$f().pl())?;
            let got = self.id(&r)?; let want: usize = $e;
            if got != want { return Err(self.fail(&$p, format!("{}::{} of n{} is n{} instead of n{}", k, stringify!($f), x, got, want))); }
        }} }
        macro_rules! val { ($p:expr, $f:ident, $e:expr) => {{
            let got = self.call(&$p, &format!("{}::{}", k, stringify!($f)), || n.$f())?; let want = $e;
            if got != want { return Err(self.fail(&$p, format!("{}::{} of n{} is {:?} instead of {:?}", k, stringify!($f), x, got, want))); }
        }} }
        let nd = &m.n[x];
        let sibs = m.sibs(x);
        let i = sibs.iter().position(|&s| s == x).unwrap();
        let a = ["C01", "C07"];
        opt!(a, parent, nd.par);
        opt!(a, first_child, nd.ch.first().copied());
        opt!(a, last_child, nd.ch.last().copied());
        opt!(a, prev_sibling, m.sib(x, -1));
        opt!(a, next_sibling, m.sib(x, 1));
        let b = ["C08", "C01"];
        val!(b, is_root, nd.par.is_none());
        val!(b, num_children, nd.ch.len());
        val!(b, count_children, nd.ch.len());
        val!(b, has_children, !nd.ch.is_empty());
        val!(b, has_one_child, nd.ch.len() == 1);
        val!(b, has_multiple_children, nd.ch.len() > 1);
        val!(b, has_prev_sibling, i > 0);
        val!(b, has_next_sibling, i + 1 < sibs.len());
        val!(b, count_preceding_siblings, i);
        val!(b, count_following_siblings, sibs.len() - 1 - i);
        val!(b, count_ancestors, m.anc(x).len());
        let c = ["C07"];
        one!(c, first_sibling, sibs[0]);
        one!(c, last_sibling, *sibs.last().unwrap());
        let (f, l) = self.call(&c, "first_last_sibling", || n.first_last_sibling())?;
        let got = (self.id(&f.pl())?, self.id(&l.pl())?);
        chk!(self, ["C07"], got == (sibs[0], *sibs.last().unwrap()), "{}::first_last_sibling of n{} is {:?}", k, x, got);
        drop((f, l));
        let fl = self.call(&c, "first_last_child", || n.first_last_child())?;
        let got = match &fl { Some((f, l)) => Some((self.id(&f.pl())?, self.id(&l.pl())?)), None => None };
        chk!(self, ["C07"], got == nd.ch.first().map(|&f| (f, *nd.ch.last().unwrap())), "{}::first_last_child of n{} is {:?}", k, x, got);
        drop(fl);
        one!(["C07", "C19"], root, m.root(x));
        let t = self.call(&["C19"], "tree", || n.tree())?;
        chk!(self, ["C19"], self.call(&["C19"], "belongs_to", || n.belongs_to(&t))?, "{}: n{} does not belong to its own tree()", k, x);
        let r = self.call(&["C19"], "Tree::root", || t.root())?;
        chk!(self, ["C19", "C01"], r.ptr_eq(root), "{}: root of tree() of n{} is another node", k, x);
        chk!(self, ["C19"], n.pl().belongs_to_same_tree(root) && n.same_tree(n), "{}: n{} is not in the tree of its root", k, x);
        chk!(self, ["C24"], n.same(n), "{}: n{} is not ptr_eq to itself", k, x);
        Ok(())
    }

    pub fn audit(&self) -> R {
        // C17, C18: the data alive are exactly those of the trees that are kept alive.
        let mut want: Vec<u64> = vec![];
        let av: Vec<bool> = (0..self.m.t.len()).map(|t| self.alive(t)).collect();
        for n in &self.m.n { if av[n.tree] { want.push(n.did); } }
        want.sort();
        let got: Vec<u64> = LIVE.with(|l| l.borrow().iter().copied().collect());
        if got != want {
            let dead: Vec<_> = want.iter().filter(|d| !got.contains(d)).map(|d| format!("n{}", self.m.by[d])).collect();
            let leak: Vec<_> = got.iter().filter(|d| !want.contains(d)).map(|d| self.m.by.get(d).map_or("a temporary".into(), |x| format!("n{}", x))).collect();
            return Err(self.fail(&["C17", "C18"], format!("data destroyed although its tree is in use: {:?}; data alive although nothing refers to its tree: {:?}", dead, leak)));
        }
        for t in 0..self.m.t.len() {
            if !av[t] { continue; }
            let th = self.h.iter().find(|h| matches!(h.k, HK::P(_) | HK::H(_) | HK::F(_) | HK::T(_)) && self.tree_of(h) == t).unwrap();
            let (g, p) = (self.grants(t), self.prohs(t));
            let tree = match &th.k { HK::P(n) => n.tree(), HK::H(n) => n.tree(), HK::F(n) => n.tree(), HK::T(x) => x.clone(), _ => unreachable!() };
            // C14, C15: a lock can be acquired exactly when no lock of the other kind is active.
            for h in &self.h { if let HK::T(x) = &h.k { chk!(self, ["C24"], x.ptr_eq(&tree) == (h.m == t), "Tree::ptr_eq wrong for t{} and t{}", h.m, t); } }
            let gg = self.call(&["C14", "C15"], "grant_hierarchy_edit", || tree.grant_hierarchy_edit().is_ok())?;
            chk!(self, ["C14", "C15"], gg == (p == 0), "t{} with {} grants and {} prohibitions: grant_hierarchy_edit() {}", t, g, p, if gg { "succeeded" } else { "failed" });
            let pp = self.call(&["C14", "C15"], "prohibit_hierarchy_edit", || tree.prohibit_hierarchy_edit().is_ok())?;
            chk!(self, ["C14", "C15"], pp == (g == 0), "t{} with {} grants and {} prohibitions: prohibit_hierarchy_edit() {}", t, g, p, if pp { "succeeded" } else { "failed" });
            if self.m.t[t].vac { continue; }
            let root = self.call(&["C19", "C01"], "Tree::root", || tree.root())?;
            let x = self.id(&root)?;
            chk!(self, ["C19", "C01"], x == self.m.t[t].root, "root of t{} is n{} instead of n{}", t, x, self.m.t[t].root);
            self.walk(&root, x, &root, &tree, t)?;
            for h in &self.h {
                match &h.k {
                    HK::G(k) => chk!(self, ["C16"], k.is_valid_for_node(&root) == (h.m == t), "a grant of t{} is {} for a node of t{}", h.m, if h.m == t { "invalid" } else { "valid" }, t),
                    HK::R(k) => chk!(self, ["C16"], k.is_valid_for_node(&root) == (h.m == t), "a prohibition of t{} is {} for a node of t{}", h.m, if h.m == t { "invalid" } else { "valid" }, t),
                    _ => {}
                }
            }
            let bg = self.call(&["C14", "C15"], "bundle_new_hierarchy_edit_grant", || root.clone().bundle_new_hierarchy_edit_grant().is_ok())?;
            chk!(self, ["C14", "C15"], bg == (p == 0), "t{} with {} grants and {} prohibitions: bundle_new_hierarchy_edit_grant() {}", t, g, p, bg);
            let bp = self.call(&["C14", "C15"], "bundle_new_hierarchy_edit_prohibition", || root.clone().bundle_new_hierarchy_edit_prohibition().is_ok())?;
            chk!(self, ["C14", "C15"], bp == (g == 0), "t{} with {} grants and {} prohibitions: bundle_new_hierarchy_edit_prohibition() {}", t, g, p, bp);
        }
        for h in &self.h {
            match &h.k {
                HK::P(n) => { let r = n.root(); self.audit_node(n, h.m, &r)?; }
                HK::H(n) => { let r = n.plain().root(); self.audit_node(n, h.m, &r)?; chk!(self, ["C24"], n.ptr_eq_plain(&n.plain()), "HotNode::ptr_eq_plain"); }
                HK::F(n) => { let r = n.plain().root(); self.audit_node(n, h.m, &r)?; }
                HK::NW(n) => {
                    let t = self.m.n[h.m].tree;
                    let u = self.call(&["C17"], "NodeWeak::upgrade", || n.upgrade())?;
                    chk!(self, ["C17"], u.is_some() == av[t], "NodeWeak::upgrade of n{} is {}", h.m, if u.is_some() { "Some after the tree is gone" } else { "None while the tree is in use" });
                    if let Some(u) = u { chk!(self, ["C17", "C24"], self.id(&u)? == h.m, "NodeWeak::upgrade gives another node"); }
                }
                HK::TW(n) => { let u = self.call(&["C17"], "TreeWeak::upgrade", || n.upgrade())?; chk!(self, ["C17"], u.is_some() == av[h.m], "TreeWeak::upgrade of t{} is {}", h.m, u.is_some()); }
                _ => {}
            }
        }
        Ok(())
    }
    fn walk(&self, n: &Node<D>, x: usize, root: &Node<D>, tree: &Tree<D>, t: usize) -> R {
        chk!(self, ["C19"], n.belongs_to(tree), "n{} does not belong to t{}", x, t);
        self.audit_node(n, x, root)?;
        let mut c = n.first_child();
        for &want in &self.m.n[x].ch {
            match c {
                Some(cn) => { let got = self.id(&cn)?; chk!(self, ["C01", "C07"], got == want, "child of n{} is n{} instead of n{}", x, got, want); self.walk(&cn, got, root, tree, t)?; c = cn.next_sibling(); }
                None => return Err(self.fail(&["C01", "C07"], format!("n{} has too few children: n{} is missing", x, want))),
            }
        }
        chk!(self, ["C01", "C07"], c.is_none(), "n{} has too many children", x);
        Ok(())
    }

    /// Compares the observed outcome of an edit with the documented one.
    fn outcome<T>(&self, exp: Exp, tri: bool, got: Result<Result<T, HierarchyError>, String>) -> R<Option<T>> {
        let d = match &got { Ok(Ok(_)) => "it succeeded".to_string(), Ok(Err(e)) => format!("it failed with {:?}", er(e)), Err(p) => format!("it panicked ({})", p) };
        match (exp, got) {
            (Exp::Ok, Ok(Ok(v))) => Ok(Some(v)),
            (Exp::Ok, _) => Err(self.fail(&[], format!("the operation should succeed, but {}", d))),
            (Exp::Err(e), Ok(Err(g))) if tri && er(&g) == e => Ok(None),
            (Exp::Err(_), Err(_)) if !tri => Ok(None),
            (Exp::Err(e), _) => Err(self.fail(&["C06"], format!("the operation should {} {:?}, but {}", if tri { "fail with" } else { "panic for" }, e, d))),
            (Exp::Grant, Err(_)) => Ok(None),
            (Exp::Grant, _) => Err(self.fail(&["C16"], format!("the grant is for another tree, but {}", d))),
        }
    }
    fn set_cur(&mut self, exp: Exp, op: &[&'static str]) {
        self.cur = op.to_vec();
        match exp { Exp::Ok => {}, Exp::Err(_) => self.cur.push("C06"), Exp::Grant => { self.cur.push("C16"); self.cur.push("C06"); } }
    }
    /// Adds the nodes of a fresh copy of `src` to the model.
    fn adopt(&mut self, n: &Node<D>, src: usize, tree: usize) -> R<usize> {
        let (did, val) = { let d = self.call(&["C21"], "borrow of cloned data", || n.try_borrow_data().map(|d| (d.id, d.val)).ok())?; match d { Some(v) => v, None => return Err(self.fail(&["C21"], "the data of a cloned node cannot be borrowed".into())) } };
        chk!(self, ["C21"], !self.m.by.contains_key(&did), "the clone shares the data of n{}", self.m.by[&did]);
        chk!(self, ["C21"], val == self.m.n[src].val, "the clone of n{} has data {} instead of {}", src, val, self.m.n[src].val);
        let x = self.m.add(did, val, tree);
        let ch = self.m.n[src].ch.clone();
        let mut c = n.first_child();
        for s in ch {
            let cn = match c { Some(c) => c, None => return Err(self.fail(&["C21"], format!("the clone of n{} has too few children", src))) };
            let y = self.adopt(&cn, s, tree)?;
            self.m.n[x].ch.push(y);
            self.m.n[y].par = Some(x);
            c = cn.next_sibling();
        }
        chk!(self, ["C21"], c.is_none(), "the clone of n{} has too many children", src);
        Ok(x)
    }

    // ---- edit operations
    /// `via`: 0 Node+grant try, 1 Node+grant, 2 Hot try, 3 Hot, 4 Node create_node_as (try), 5 same (panicking), 6, 7 the Hot ones.
    pub fn create(&mut self, i: usize, g: Option<usize>, p: Pos, via: u32, val: u32) -> R {
        let x = self.h[i].m;
        let t = self.m.n[x].tree;
        let hot = matches!(self.h[i].k, HK::H(_));
        let exp = match (hot, g) { (false, Some(g)) if self.h[g].m != t => Exp::Grant, _ => match self.m.can_create(x, p) { Ok(()) => Exp::Ok, Err(e) => Exp::Err(e) } };
        self.set_cur(exp, &["C02"]);
        if !hot { self.cur.push("C16"); }
        let as_ = via & 2 != 0;
        let tri = via & 1 == 0 && (as_ || matches!(p, Pos::Prev | Pos::Next));
        self.log(format!("create {:?} of n{} data {} [{}{}{}]", p, x, val, if hot { "HotNode" } else { "Node+grant" }, if as_ { " create_node_as" } else { "" }, if tri { " try" } else { "" }));
        let d = D::new(val);
        let did = d.id;
        let got: Result<Result<HK, HierarchyError>, String> = match &self.h[i].k {
            HK::H(n) => guard(|| match (as_, tri, p) {
                (true, true, _) => n.try_create_node_as(d, adopt_as(p)).map(HK::H),
                (true, false, _) => Ok(HK::H(n.create_node_as(d, adopt_as(p)))),
                (_, _, Pos::First) => Ok(HK::H(n.create_as_first_child(d))),
                (_, _, Pos::Last) => Ok(HK::H(n.create_as_last_child(d))),
                (_, true, Pos::Prev) => n.try_create_as_prev_sibling(d).map(HK::H),
                (_, false, Pos::Prev) => Ok(HK::H(n.create_as_prev_sibling(d))),
                (_, true, Pos::Next) => n.try_create_as_next_sibling(d).map(HK::H),
                (_, false, Pos::Next) => Ok(HK::H(n.create_as_next_sibling(d))),
            }),
            HK::P(n) => { let g = match &self.h[g.unwrap()].k { HK::G(g) => g, _ => unreachable!() }; guard(|| match (as_, tri, p) {
                (true, true, _) => n.try_create_node_as(g, d, adopt_as(p)).map(HK::P),
                (true, false, _) => Ok(HK::P(n.create_node_as(g, d, adopt_as(p)))),
                (_, _, Pos::First) => Ok(HK::P(n.create_as_first_child(g, d))),
                (_, _, Pos::Last) => Ok(HK::P(n.create_as_last_child(g, d))),
                (_, true, Pos::Prev) => n.try_create_as_prev_sibling(g, d).map(HK::P),
                (_, false, Pos::Prev) => Ok(HK::P(n.create_as_prev_sibling(g, d))),
                (_, true, Pos::Next) => n.try_create_as_next_sibling(g, d).map(HK::P),
                (_, false, Pos::Next) => Ok(HK::P(n.create_as_next_sibling(g, d))),
            }) }
            _ => return Ok(()),
        };
        if let Some(k) = self.outcome(exp, tri, got)? { let y = self.m.add(did, val, t); self.m.link(y, x, p); self.push(k, y); }
        Ok(())
    }
    pub fn interrupt(&mut self, i: usize, g: Option<usize>, parent: bool, val: u32) -> R {
        let x = self.h[i].m;
        let t = self.m.n[x].tree;
        let hot = matches!(self.h[i].k, HK::H(_));
        let exp = match (hot, g) { (false, Some(g)) if self.h[g].m != t => Exp::Grant, _ => Exp::Ok };
        self.set_cur(exp, &["C03"]);
        if !hot { self.cur.push("C16"); }
        self.log(format!("create_as_interrupting_{} of n{} data {} [{}]", if parent { "parent" } else { "child" }, x, val, if hot { "HotNode" } else { "Node+grant" }));
        let d = D::new(val);
        let did = d.id;
        let got: Result<Result<HK, HierarchyError>, String> = match &self.h[i].k {
            HK::H(n) => guard(|| Ok(HK::H(if parent { n.create_as_interrupting_parent(d) } else { n.create_as_interrupting_child(d) }))),
            HK::P(n) => { let g = match &self.h[g.unwrap()].k { HK::G(g) => g, _ => unreachable!() }; guard(|| Ok(HK::P(if parent { n.create_as_interrupting_parent(g, d) } else { n.create_as_interrupting_child(g, d) }))) }
            _ => return Ok(()),
        };
        if let Some(k) = self.outcome(exp, false, got)? {
            let y = self.m.add(did, val, t);
            if parent { self.m.int_parent(x, y) } else { self.m.int_child(x, y) }
            self.push(k, y);
        }
        Ok(())
    }
    pub fn detach(&mut self, i: usize, g: Option<usize>) -> R {
        let x = self.h[i].m;
        let hot = matches!(self.h[i].k, HK::H(_));
        let exp = match (hot, g) { (false, Some(g)) if self.h[g].m != self.m.n[x].tree => Exp::Grant, _ => Exp::Ok };
        self.set_cur(exp, &["C04"]);
        if !hot { self.cur.push("C16"); }
        self.log(format!("detach_subtree of n{} [{}]", x, if hot { "HotNode" } else { "Node+grant" }));
        let got = match &self.h[i].k {
            HK::H(n) => guard(|| Ok(n.detach_subtree())),
            HK::P(n) => { let g = match &self.h[g.unwrap()].k { HK::G(g) => g, _ => unreachable!() }; guard(|| Ok(n.detach_subtree(g))) }
            _ => return Ok(()),
        };
        if self.outcome(exp, false, got)?.is_some() { self.m.detach(x); }
        Ok(())
    }
    pub fn replace(&mut self, i: usize, g: Option<usize>, tri: bool) -> R {
        let x = self.h[i].m;
        let hot = matches!(self.h[i].k, HK::H(_));
        let exp = match (hot, g) { (false, Some(g)) if self.h[g].m != self.m.n[x].tree => Exp::Grant, _ => match self.m.can_replace(x) { Ok(()) => Exp::Ok, Err(e) => Exp::Err(e) } };
        self.set_cur(exp, &["C05"]);
        if !hot { self.cur.push("C16"); }
        self.log(format!("{}replace_with_children of n{} [{}]", if tri { "try_" } else { "" }, x, if hot { "HotNode" } else { "Node+grant" }));
        let got = match &self.h[i].k {
            HK::H(n) => guard(|| if tri { n.try_replace_with_children() } else { Ok(n.replace_with_children()) }),
            HK::P(n) => { let g = match &self.h[g.unwrap()].k { HK::G(g) => g, _ => unreachable!() }; guard(|| if tri { n.try_replace_with_children(g) } else { Ok(n.replace_with_children(g)) }) }
            _ => return Ok(()),
        };
        if self.outcome(exp, tri, got)?.is_some() { self.m.replace(x); }
        Ok(())
    }
    pub fn mv(&mut self, i: usize, g: Option<usize>, dest: usize, p: Pos, tri: bool) -> R {
        let (x, y) = (self.h[i].m, self.h[dest].m);
        let hot = matches!(self.h[i].k, HK::H(_));
        let exp = match (hot, g) { (false, Some(g)) if self.h[g].m != self.m.n[x].tree => Exp::Grant, _ => match self.m.can_move(x, y, p) { Ok(()) => Exp::Ok, Err(e) => Exp::Err(e) } };
        self.set_cur(exp, &["C04"]);
        if !hot { self.cur.push("C16"); }
        self.log(format!("{}detach_insert_subtree of n{} as {:?} of n{} [{}]", if tri { "try_" } else { "" }, x, p, y, if hot { "HotNode" } else { "Node+grant" }));
        let dn = match &self.h[dest].k { HK::H(n) => n, _ => return Ok(()) };
        let got = match &self.h[i].k {
            HK::H(n) => guard(|| if tri { n.try_detach_insert_subtree(ins(p, dn)) } else { Ok(n.detach_insert_subtree(ins(p, dn))) }),
            HK::P(n) => { let g = match &self.h[g.unwrap()].k { HK::G(g) => g, _ => unreachable!() }; guard(|| if tri { n.try_detach_insert_subtree(g, ins(p, dn)) } else { Ok(n.detach_insert_subtree(g, ins(p, dn))) }) }
            _ => return Ok(()),
        };
        if self.outcome(exp, tri, got)?.is_some() { self.m.mv(x, y, p); }
        Ok(())
    }
    fn borrowed_in(&self, x: usize) -> bool { self.mutb.map_or(false, |b| self.m.is_in(b, x)) }
    pub fn clone_subtree(&mut self, i: usize, via: u32) -> R {
        let x = self.h[i].m;
        self.cur = vec!["C21"];
        if self.borrowed_in(x) { self.cur.push("C06"); }
        self.log(format!("clone_subtree of n{} (via {})", x, via % 3));
        let root = self.m.n[x].par.is_none();
        let n = self.plain(i).unwrap();
        let got = guard(|| match (&self.h[i].k, via % 3) {
            (_, 2) if root => n.tree().try_clone_tree().map(|t| t.root()),
            (HK::H(n), _) => n.clone_try(), (HK::F(n), _) => n.clone_try(), (HK::P(n), _) => n.clone_try(), _ => unreachable!(),
        });
        match got {
            Ok(Ok(c)) => {
                chk!(self, ["C21"], !self.borrowed_in(x), "the clone succeeded although data in the subtree is mutably borrowed");
                let t = self.m.t.len();
                let before = c.clone();
                chk!(self, ["C21"], c.is_root(), "the clone of a subtree is not a root");
                let y = self.adopt(&before, x, t)?;
                self.m.t.push(MT { root: y, vac: false });
                self.push(HK::P(c), y);
            }
            Ok(Err(_)) => chk!(self, ["C21"], self.borrowed_in(x), "the clone failed although all data can be borrowed"),
            Err(p) => return Err(self.fail(&["C21"], format!("clone_subtree panicked: {}", p))),
        }
        Ok(())
    }
    pub fn clone_insert(&mut self, i: usize, dest: usize, p: Pos) -> R {
        let (x, y) = (self.h[i].m, self.h[dest].m);
        let exp = if self.borrowed_in(x) { Exp::Err(Er::Borrow) } else { match self.m.can_create(y, p) { Ok(()) => Exp::Ok, Err(e) => Exp::Err(e) } };
        if self.borrowed_in(x) && self.m.can_create(y, p).is_err() { return Ok(()); }
        self.set_cur(exp, &["C21"]);
        self.log(format!("try_clone_insert_subtree of n{} as {:?} of n{}", x, p, y));
        let dn = match &self.h[dest].k { HK::H(n) => n, _ => return Ok(()) };
        let got = guard(|| match &self.h[i].k { HK::H(n) => n.clone_ins(ins(p, dn)), HK::F(n) => n.clone_ins(ins(p, dn)), HK::P(n) => n.clone_ins(ins(p, dn)), _ => unreachable!() });
        if let Some(h) = self.outcome(exp, true, got)? {
            let t = self.m.n[y].tree;
            let c = self.adopt(&h.plain(), x, t)?;
            self.m.link(c, y, p);
            self.push(HK::H(h), c);
        }
        Ok(())
    }

    // ---- everything else
    pub fn nav(&mut self, i: usize, w: u32) -> R {
        self.cur = vec!["C07"];
        let x = self.h[i].m;
        macro_rules! go { ($n:expr, $K:path) => {{
            let n = $n.clone();
            let r = match w % 14 {
                0 => n.parent(), 1 => n.prev_sibling(), 2 => n.next_sibling(), 3 => n.first_child(), 4 => n.last_child(),
                5 => Some(n.root()), 6 => Some(n.first_sibling()), 7 => Some(n.last_sibling()), 8 => Some(n.first_last_sibling().0), 9 => Some(n.first_last_sibling().1),
                10 => n.first_last_child().map(|v| v.0), 11 => n.first_last_child().map(|v| v.1), 12 => Some(n.clone()), _ => n.parent().and_then(|p| p.last_child()),
            };
            r.map($K)
        }} }
        let r = match &self.h[i].k { HK::P(n) => go!(n, HK::P), HK::H(n) => go!(n, HK::H), HK::F(n) => go!(n, HK::F), _ => return Ok(()) };
        let m = &self.m;
        let s = m.sibs(x);
        let want = match w % 14 {
            0 => m.n[x].par, 1 => m.sib(x, -1), 2 => m.sib(x, 1), 3 | 10 => m.n[x].ch.first().copied(), 4 | 11 => m.n[x].ch.last().copied(),
            5 => Some(m.root(x)), 6 | 8 => Some(s[0]), 7 | 9 => s.last().copied(), 12 => Some(x), _ => m.n[x].par.map(|p| *m.n[p].ch.last().unwrap()),
        };
        self.log(format!("navigate from n{} (way {}) -> {:?}", x, w % 14, want));
        match (r, want) {
            (Some(k), Some(y)) => self.push(k, y),
            (None, None) => {}
            (r, want) => return Err(self.fail(&[], format!("navigation from n{}: {} instead of {:?}", x, if r.is_some() { "some node" } else { "none" }, want))),
        }
        Ok(())
    }
    pub fn drop_h(&mut self, i: usize) -> R {
        self.cur = vec!["C17", "C18", "C15"];
        let h = self.h.swap_remove(i);
        let w = match h.k { HK::P(_) => "Node n", HK::H(_) => "HotNode n", HK::F(_) => "FrozenNode n", HK::T(_) => "Tree t", HK::G(_) => "grant t", HK::R(_) => "prohibition t", HK::NW(_) => "NodeWeak n", HK::TW(_) => "TreeWeak t" };
        self.log(format!("drop {}{}", w, h.m));
        guard(move || drop(h)).map_err(|e| self.fail(&[], format!("drop panicked: {}", e)))
    }
    pub fn other(&mut self, k: u32, a: u32, b: u32, c: u32) -> R {
        let node = |k: &HK| matches!(k, HK::P(_) | HK::H(_) | HK::F(_));
        match k {
            0 => { self.cur = vec!["C02"]; let d = D::new(c); let did = d.id; let x = self.m.new_tree(did, c); self.log(format!("new tree n{} data {} [{}]", x, c, if b % 2 == 0 { "Node" } else { "HotNode" }));
                if b % 2 == 0 { self.push(HK::P(Node::new_tree(d)), x) } else { self.push(HK::H(HotNode::new_tree(d)), x) } }
            1 => { self.cur = vec!["C15", "C17"]; if let Some(i) = self.pick(a, |_| true) {
                let m = self.h[i].m; self.log(format!("clone handle #{} (of {})", i, m));
                let k = guard(|| match &self.h[i].k { HK::P(n) => HK::P(n.clone()), HK::H(n) => HK::H(n.clone()), HK::F(n) => HK::F(n.clone()), HK::T(t) => HK::T(t.clone()),
                    HK::G(g) => HK::G(if b % 2 == 0 { g.try_clone().expect("try_clone") } else { g.clone() }), HK::R(r) => HK::R(r.try_clone().expect("try_clone")), HK::NW(n) => HK::NW(n.clone()), HK::TW(t) => HK::TW(t.clone()) })
                    .map_err(|e| self.fail(&[], format!("cloning a handle panicked: {}", e)))?;
                self.push(k, m); } }
            2 => { if let Some(i) = self.pick(a, |_| true) { return self.drop_h(i); } }
            3 => { self.cur = vec!["C24", "C19"]; if let Some(i) = self.pick(a, node) {
                let x = self.h[i].m; let t = self.m.n[x].tree;
                let p = self.plain(i).unwrap();
                match b % 4 {
                    0 => { self.log(format!("plain() of n{}", x)); self.push(HK::P(p), x) }
                    1 => { self.log(format!("tree() of n{}", x)); let k = HK::T(p.tree()); self.push(k, t) }
                    2 => { self.log(format!("downgrade n{}", x)); self.push(HK::NW(p.downgrade()), x) }
                    _ => { self.log(format!("downgrade t{}", t)); let k = HK::TW(p.tree().downgrade()); self.push(k, t) }
                } } }
            4 => { self.cur = vec!["C17"]; if let Some(i) = self.pick(a, |k| matches!(k, HK::NW(_) | HK::TW(_))) {
                let m = self.h[i].m; let t = self.tree_of(&self.h[i]); let al = self.alive(t);
                self.log(format!("upgrade weak #{} of {}", i, m));
                let k = guard(|| match &self.h[i].k { HK::NW(n) => n.upgrade().map(HK::P), HK::TW(n) => n.upgrade().map(HK::T), _ => None }).map_err(|e| self.fail(&[], format!("upgrade panicked: {}", e)))?;
                chk!(self, ["C17"], k.is_some() == al, "upgrade is {} while the tree is {}", k.is_some(), if al { "in use" } else { "gone" });
                if let Some(k) = k { self.push(k, m) } } }
            5 => { self.cur = vec!["C14", "C15"]; if let Some(i) = self.pick(a, |k| matches!(k, HK::T(_))) { // lock through a tree
                let t = self.h[i].m; let tr = match &self.h[i].k { HK::T(t) => t.clone(), _ => unreachable!() };
                if b % 2 == 0 { self.log(format!("grant t{}", t)); let r = tr.grant_hierarchy_edit(); chk!(self, [], r.is_ok() == (self.prohs(t) == 0), "grant_hierarchy_edit of t{}: {}", t, r.is_ok()); if let Ok(g) = r { self.push(HK::G(g), t) } }
                else { self.log(format!("prohibit t{}", t)); let r = tr.prohibit_hierarchy_edit(); chk!(self, [], r.is_ok() == (self.grants(t) == 0), "prohibit_hierarchy_edit of t{}: {}", t, r.is_ok()); if let Ok(g) = r { self.push(HK::R(g), t) } } } }
            6 => { self.cur = vec!["C14", "C15"]; if let Some(i) = self.pick(a, |k| matches!(k, HK::P(_))) {
                let x = self.h[i].m; let t = self.m.n[x].tree; let n = self.plain(i).unwrap();
                if b % 2 == 0 { self.log(format!("bundle new grant with n{}", x)); let r = n.bundle_new_hierarchy_edit_grant(); chk!(self, [], r.is_ok() == (self.prohs(t) == 0), "bundle_new_hierarchy_edit_grant of n{}: {}", x, r.is_ok()); if let Ok(g) = r { self.push(HK::H(g), x) } }
                else { self.log(format!("bundle new prohibition with n{}", x)); let r = n.bundle_new_hierarchy_edit_prohibition(); chk!(self, [], r.is_ok() == (self.grants(t) == 0), "bundle_new_hierarchy_edit_prohibition of n{}: {}", x, r.is_ok()); if let Ok(g) = r { self.push(HK::F(g), x) } } } }
            7 => { self.cur = vec!["C14", "C15", "C16"]; if let (Some(i), Some(j)) = (self.pick(a, |k| matches!(k, HK::P(_))), self.pick(b, |k| matches!(k, HK::G(_) | HK::R(_)))) {
                let x = self.h[i].m; let t = self.m.n[x].tree; let ok = self.h[j].m == t; let n = self.plain(i).unwrap();
                self.log(format!("bundle token of t{} with n{}", self.h[j].m, x));
                let r = guard(|| match &self.h[j].k { HK::G(g) => HK::H(n.bundle_hierarchy_edit_grant(g)), HK::R(r) => HK::F(n.bundle_hierarchy_edit_prohibition(r)), _ => unreachable!() });
                match r { Ok(k) => { chk!(self, [], ok, "a token of t{} was bundled with a node of t{}", self.h[j].m, t); self.push(k, x) }, Err(e) => chk!(self, [], !ok, "bundling a valid token panicked: {}", e) } } }
            8 => { self.cur = vec!["C14", "C15"]; if let Some(i) = self.pick(a, |k| matches!(k, HK::H(_) | HK::F(_))) {
                let x = self.h[i].m; let t = self.m.n[x].tree; self.log(format!("extract token of n{}", x));
                let k = guard(|| match &self.h[i].k { HK::H(n) => HK::G(n.extract_hierarchy_edit_grant()), HK::F(n) => HK::R(n.extract_hierarchy_edit_prohibition()), _ => unreachable!() }).map_err(|e| self.fail(&[], format!("extract panicked: {}", e)))?;
                self.push(k, t) } }
            9 => { self.cur = vec!["C23"]; if let Some(i) = self.pick(a, node) {
                let x = self.h[i].m; self.log(format!("set data of n{} to {}", x, c));
                let got = guard(|| match &self.h[i].k {
                    HK::P(n) => if b % 2 == 0 { n.wr().map(|mut d| d.val = c).is_ok() } else { n.wr_p().val = c; true },
                    HK::H(n) => if b % 2 == 0 { n.wr().map(|mut d| d.val = c).is_ok() } else { n.wr_p().val = c; true },
                    HK::F(n) => if b % 2 == 0 { n.wr().map(|mut d| d.val = c).is_ok() } else { n.wr_p().val = c; true }, _ => unreachable!() });
                let ok = self.mutb != Some(x);
                let got = got.unwrap_or(false);
                chk!(self, [], got == ok, "mutable borrow of n{}: {}", x, got);
                if got { self.m.n[x].val = c }
                if ok { // shared borrows: several at once, and no mutable borrow next to them
                    let p = self.plain(i).unwrap(); let q = p.clone();
                    let r1 = p.borrow_data(); let r2 = q.try_borrow_data();
                    chk!(self, [], r2.is_ok() && r1.val == c, "shared borrows of n{}", x);
                    chk!(self, [], q.try_borrow_data_mut().is_err(), "n{} can be mutably borrowed while borrowed", x);
                    drop(r2);
                    chk!(self, [], q.try_borrow_data_mut().is_err(), "n{} can be mutably borrowed while borrowed", x);
                    drop(r1);
                    chk!(self, [], q.try_borrow_data_mut().is_ok(), "n{} cannot be mutably borrowed after the borrows ended", x);
                } } }
            10 => { self.cur = vec!["C24", "C22"]; if let (Some(i), Some(j)) = (self.pick(a, node), self.pick(b, node)) { return self.compare(i, j); } }
            11 => { self.cur = vec!["C19"]; if let Some(i) = self.pick(a, |k| matches!(k, HK::T(_))) { let t = self.h[i].m; if !self.m.t[t].vac { let r = match &self.h[i].k { HK::T(t) => t.root(), _ => unreachable!() }; self.log(format!("root() of t{}", t)); let x = self.m.t[t].root; self.push(HK::P(r), x) } } }
            12 => { self.cur = vec!["C24", "C17", "C15"]; if let Some(i) = self.pick(a, |k| matches!(k, HK::H(_) | HK::F(_))) { // conversion into Node consumes the bundled handle
                let h = self.h.swap_remove(i); self.log(format!("Node::from(n{})", h.m));
                let k = guard(|| match h.k { HK::H(n) => HK::P(n.into()), HK::F(n) => HK::P(n.into()), _ => unreachable!() }).map_err(|e| self.fail(&[], format!("conversion panicked: {}", e)))?; self.push(k, h.m) } }
            _ => {}
        }
        Ok(())
    }
    pub fn compare(&mut self, i: usize, j: usize) -> R {
        let (x, y) = (self.h[i].m, self.h[j].m);
        self.log(format!("compare n{} with n{}", x, y));
        let (p, q) = (self.plain(i).unwrap(), self.plain(j).unwrap());
        chk!(self, ["C24"], p.ptr_eq(&q) == (x == y), "ptr_eq of n{} and n{} is {}", x, y, p.ptr_eq(&q));
        chk!(self, ["C19"], p.belongs_to_same_tree(&q) == (self.m.n[x].tree == self.m.n[y].tree), "belongs_to_same_tree of n{} and n{}", x, y);
        let (tx, ty) = (p.tree(), q.tree());
        chk!(self, ["C19"], p.belongs_to(&ty) == (self.m.n[x].tree == self.m.n[y].tree), "belongs_to of n{} and the tree of n{}", x, y);
        chk!(self, ["C24"], tx.ptr_eq(&ty) == (self.m.n[x].tree == self.m.n[y].tree), "Tree::ptr_eq of the trees of n{} and n{}", x, y);
        match (&self.h[i].k, &self.h[j].k) {
            (HK::H(a), HK::H(b)) => { chk!(self, ["C24"], a.ptr_eq(b) == (x == y), "HotNode::ptr_eq"); chk!(self, ["C19"], a.belongs_to_same_tree(b) == tx.ptr_eq(&ty), "HotNode::belongs_to_same_tree"); }
            (HK::F(a), HK::F(b)) => { chk!(self, ["C24"], a.ptr_eq(b) == (x == y), "FrozenNode::ptr_eq"); chk!(self, ["C19"], a.belongs_to_same_tree(b) == tx.ptr_eq(&ty), "FrozenNode::belongs_to_same_tree"); }
            (HK::H(a), _) => chk!(self, ["C24"], a.ptr_eq_plain(&q) == (x == y), "HotNode::ptr_eq_plain"),
            _ => {}
        }
        match &self.h[i].k { HK::H(a) => chk!(self, ["C19"], a.belongs_to(&ty) == tx.ptr_eq(&ty), "HotNode::belongs_to"), HK::F(a) => chk!(self, ["C19"], a.belongs_to(&ty) == tx.ptr_eq(&ty), "FrozenNode::belongs_to"), _ => {} }
        if self.borrowed_in(x) || self.borrowed_in(y) { return Ok(()); }
        let want = self.m.eq(x, y);
        let got = self.call(&["C22"], "try_eq", || p.try_eq(&q))?;
        chk!(self, ["C22"], got.as_ref().ok() == Some(&want), "try_eq of n{} and n{} is {:?} instead of {}", x, y, got.map_err(|_| "a borrow error"), want);
        macro_rules! eqs { ($a:expr, $b:expr) => { chk!(self, ["C22", "C24"], ($a == $b) == want && ($b == $a) == want && (*$a != *$b) == !want, "== of n{} and n{} is not {}", x, y, want) } }
        match (&self.h[i].k, &self.h[j].k) {
            (HK::P(a), HK::P(b)) => eqs!(a, b), (HK::P(a), HK::H(b)) => eqs!(a, b), (HK::P(a), HK::F(b)) => eqs!(a, b),
            (HK::H(a), HK::P(b)) => eqs!(a, b), (HK::H(a), HK::H(b)) => eqs!(a, b), (HK::H(a), HK::F(b)) => eqs!(a, b),
            (HK::F(a), HK::P(b)) => eqs!(a, b), (HK::F(a), HK::H(b)) => eqs!(a, b), (HK::F(a), HK::F(b)) => eqs!(a, b), _ => {}
        }
        let (rx, ry) = (self.m.root(x), self.m.root(y));
        if !self.borrowed_in(rx) && !self.borrowed_in(ry) {
            let w = self.m.eq(rx, ry);
            chk!(self, ["C22"], tx.try_eq(&ty).ok() == Some(w) && (tx == ty) == w, "comparison of the trees of n{} and n{} is not {}", x, y, w);
        }
        Ok(())
    }

    /// One operation of a history.
    pub fn exec(&mut self, op: &[u32; 6]) -> R {
        let [k, a, b, c, d, v] = *op;
        let v = v % 3;
        let cap = self.m.n.iter().filter(|n| self.alive(n.tree)).count() > 14;
        let hotp = |k: &HK| matches!(k, HK::P(_) | HK::H(_));
        match k {
            0..=15 if cap => self.other(2, a, 0, 0),
            0..=9 => { let Some(i) = self.pick(a, hotp) else { return self.other(0, a, b, v) }; let g = self.gr(i, b); if g.is_none() && !matches!(self.h[i].k, HK::H(_)) { return self.other(6, a, b, v) } self.create(i, g, POS[c as usize % 4], d, v) }
            10..=15 => { let Some(i) = self.pick(a, hotp) else { return self.other(0, a, b, v) }; let g = self.gr(i, b); if g.is_none() && !matches!(self.h[i].k, HK::H(_)) { return self.other(6, a, b, v) } self.interrupt(i, g, c % 2 == 0, v) }
            16..=19 => { let Some(i) = self.pick(a, hotp) else { return Ok(()) }; let g = self.gr(i, b); if g.is_none() && !matches!(self.h[i].k, HK::H(_)) { return self.other(6, a, b, v) } self.detach(i, g) }
            20..=23 => { let Some(i) = self.pick(a, hotp) else { return Ok(()) }; let g = self.gr(i, b); if g.is_none() && !matches!(self.h[i].k, HK::H(_)) { return self.other(6, a, b, v) } self.replace(i, g, d % 2 == 0) }
            24..=31 => { let Some(i) = self.pick(a, hotp) else { return Ok(()) }; let Some(j) = self.pick(c, |k| matches!(k, HK::H(_))) else { return self.other(6, a, 0, v) }; let g = self.gr(i, b); if g.is_none() && !matches!(self.h[i].k, HK::H(_)) { return self.other(6, a, b, v) } self.mv(i, g, j, POS[d as usize % 4], v != 0) }
            32 if !cap => { let Some(i) = self.pick(a, |k| matches!(k, HK::P(_) | HK::H(_) | HK::F(_))) else { return Ok(()) }; self.clone_subtree(i, b) }
            33..=34 if !cap => { let Some(i) = self.pick(a, |k| matches!(k, HK::P(_) | HK::H(_) | HK::F(_))) else { return Ok(()) }; let Some(j) = self.pick(c, |k| matches!(k, HK::H(_))) else { return Ok(()) }; self.clone_insert(i, j, POS[d as usize % 4]) }
            35..=40 => { let Some(i) = self.pick(a, |k| matches!(k, HK::P(_) | HK::H(_) | HK::F(_))) else { return Ok(()) }; self.nav(i, b) }
            41..=48 => self.other(2, a, b, v),
            49..=50 => { // an operation while some data is mutably borrowed
                let Some(i) = self.pick(a, |k| matches!(k, HK::P(_) | HK::H(_) | HK::F(_))) else { return Ok(()) };
                if self.mutb.is_some() || self.allb || cap { return Ok(()) }
                let free = crate::NOBORROW.load(std::sync::atomic::Ordering::Relaxed) != 0;
                if k == 50 { // an edit while all data are borrowed
                    let op = [b % 32, c, d, a, v, b / 64];
                    if free { return self.exec(&op); }
                    let mut ns: Vec<Node<D>> = vec![];
                    fn all(n: Node<D>, ns: &mut Vec<Node<D>>) { let mut c = n.first_child(); ns.push(n); while let Some(x) = c { c = x.next_sibling(); all(x, ns); } }
                    let mut seen = vec![];
                    for i in 0..self.h.len() { if let Some(n) = self.plain(i) { let t = self.m.n[self.h[i].m].tree; if !seen.contains(&t) { seen.push(t); all(n.root(), &mut ns); } } }
                    self.log(format!("with the data of all nodes {} borrowed:", if c % 2 == 0 { "mutably" } else { "immutably" }));
                    let mut g = vec![]; let mut h = vec![];
                    for n in &ns { if c % 2 == 0 { match n.try_borrow_data_mut() { Ok(r) => g.push(r), Err(_) => return Err(self.fail(&["C23"], "a node cannot be mutably borrowed".into())) } } else { match n.try_borrow_data() { Ok(r) => h.push(r), Err(_) => return Err(self.fail(&["C23"], "a node cannot be borrowed".into())) } } }
                    self.allb = true;
                    let r = self.exec(&op);
                    self.allb = false;
                    drop((g, h));
                    return r;
                }
                let x = self.h[i].m;
                let n = self.plain(i).unwrap();
                self.push(HK::P(n.clone()), x);
                self.log(format!("with the data of n{} mutably borrowed:", x));
                if free { self.exec(&[b % 36, c, d, a, v, b / 64])?; n.borrow_data_mut().val = v; self.m.n[x].val = v; return Ok(()) }
                let Ok(mut r) = n.try_borrow_data_mut() else { return Err(self.fail(&["C23"], format!("n{} cannot be mutably borrowed", x))) };
                self.mutb = Some(x);
                let res = self.exec(&[b % 36, c, d, a, v, b / 64]).and_then(|_| { let cur = self.cur.clone(); self.cur.push("C23"); let r = self.audit(); self.cur = cur; r });
                self.mutb = None;
                res?;
                r.val = v;
                self.m.n[x].val = v;
                drop(r);
                // the borrow kept by this operation ends
                drop(n);
                Ok(())
            }
            51 => self.other(0, a, b, v),
            52..=53 => self.other(1, a, b, v),
            54..=55 => self.other(3, a, b, v),
            56 => self.other(4, a, b, v),
            57 => self.other(5, a, b, v),
            58 => self.other(6, a, b, v),
            59 => self.other(7, a, b, v),
            60 => self.other(8, a, b, v),
            61 => self.other(9, a, b, v),
            62 => self.other(10, a, b, v),
            _ => self.other(11 + a % 2, a / 2, b, v),
        }
    }
    /// A grant for the node handle: mostly a valid one.
    fn gr(&self, i: usize, b: u32) -> Option<usize> {
        if matches!(self.h[i].k, HK::H(_)) { return None; }
        let t = self.m.n[self.h[i].m].tree;
        let v: Vec<usize> = (0..self.h.len()).filter(|&j| matches!(self.h[j].k, HK::G(_)) && (b % 8 == 0 || self.h[j].m == t)).collect();
        if v.is_empty() { None } else { Some(v[(b / 8) as usize % v.len()]) }
    }
    /// Drops every handle: nothing may stay alive.
    pub fn finish(&mut self, order: u32) -> R {
        self.cur = vec!["C17", "C18"];
        while !self.h.is_empty() { let i = (order as usize).wrapping_mul(7) % self.h.len(); self.drop_h(i)?; self.cur = vec!["C17", "C18"]; if order % 3 == 0 { self.audit()?; } }
        self.audit()
    }
}
