//! Replays and explores dendron against the reference model.
//! replay explore PROP SEED MS THOROUGH OUTFILE | replay redo FILE | replay deep N
#![allow(clippy::all, deprecated, unused_assignments)]
mod model;
mod nl;
mod ops;
mod reads;
use model::*;
use ops::*;
use reads::*;
use dendron::traverse::DftEvent;
use dendron::serial::*;
use dendron::*;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static LOG: Mutex<Vec<String>> = Mutex::new(Vec::new());
static DOING: Mutex<Vec<&'static str>> = Mutex::new(Vec::new());
static PANIC: Mutex<String> = Mutex::new(String::new());
static TICK: AtomicU64 = AtomicU64::new(0);
pub static NOBORROW: AtomicU64 = AtomicU64::new(0);
static SOFT: AtomicU64 = AtomicU64::new(0);
static SOFTMSG: Mutex<String> = Mutex::new(String::new());
static CASE: Mutex<String> = Mutex::new(String::new());
static PROP: Mutex<String> = Mutex::new(String::new());
static OUT: Mutex<String> = Mutex::new(String::new());

pub fn log(s: String) { LOG.lock().unwrap().push(s); }
pub fn now_doing(a: &[&'static str], b: &[&'static str]) { let mut d = DOING.lock().unwrap(); d.clear(); d.extend_from_slice(a); d.extend_from_slice(b); }
pub fn last_panic() -> String { PANIC.lock().unwrap().clone() }
/// Ends the process: the code under test is in a state the harness cannot continue from.
pub fn fatal(msg: &str) -> ! {
    let props = DOING.lock().map(|d| d.clone()).unwrap_or_default();
    report_and_exit(&Fail { props: [props, vec!["C17", "C18"]].concat(), msg: msg.into() });
}
fn report_and_exit(f: &Fail) -> ! {
    let prop = PROP.lock().map(|p| p.clone()).unwrap_or_default();
    let case = CASE.lock().map(|p| p.clone()).unwrap_or_default();
    let hit = f.props.iter().any(|p| *p == prop);
    let out = OUT.lock().map(|p| p.clone()).unwrap_or_default();
    if hit { write_replay(&out, &prop, &case, f); }
    println!("{{\"evaluations\": 1, \"distinct\": 1, \"by_suite\": {{}}, \"samples\": [], \"other\": {}, \"fail\": {}}}", if hit { 0 } else { 1 }, if hit { js(&f.msg) } else { "null".into() });
    std::process::exit(if hit { 1 } else { 0 });
}
/// Only a failure of the property in question ends the case.
pub fn keep(r: R) -> R {
    match r {
        Err(f) => {
            let prop = PROP.lock().map(|p| p.clone()).unwrap_or_default();
            if f.props.iter().any(|p| *p == prop) { return Err(f); }
            if SOFT.fetch_add(1, Relaxed) == 0 { if let Ok(mut s) = SOFTMSG.lock() { *s = f.msg; } }
            Ok(())
        }
        r => r,
    }
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o + "\""
}
fn write_replay(out: &str, prop: &str, case: &str, f: &Fail) {
    if out.is_empty() { return; }
    let log = LOG.lock().map(|l| l.clone()).unwrap_or_default();
    let mut s = format!("property: {}\nfailure: {}\nlabels: {}\ncase: {}\nhistory:\n", prop, f.msg, f.props.join(" "), case);
    for (i, l) in log.iter().enumerate() { s += &format!("  {}. {}\n", i + 1, l); }
    let _ = std::fs::write(out, s);
}

#[derive(Clone)]
enum Case { Hist(Vec<[u32; 6]>, u32), Exh(Vec<u32>), Shape(Vec<usize>, u64), Builder(Vec<i64>, bool, u32) }
impl Case {
    fn enc(&self) -> String {
        let j = |v: Vec<String>| v.join(" ");
        match self {
            Case::Hist(o, f) => format!("hist {} {}", f, j(o.iter().flat_map(|o| o.iter().map(|v| v.to_string())).collect())),
            Case::Exh(v) => format!("exh {}", j(v.iter().map(|v| v.to_string()).collect())),
            Case::Shape(v, s) => format!("shape {} {}", s, j(v.iter().map(|v| v.to_string()).collect())),
            Case::Builder(v, r, b) => format!("builder {} {} {}", *r as u32, b, j(v.iter().map(|v| v.to_string()).collect())),
        }
    }
    fn dec(s: &str) -> Option<Case> {
        let mut w = s.split_whitespace();
        let k = w.next()?;
        let v: Vec<i64> = w.map(|x| x.parse().unwrap()).collect();
        Some(match k {
            "hist" => Case::Hist(v[1..].chunks(6).map(|c| { let mut o = [0; 6]; for (i, x) in c.iter().enumerate() { o[i] = *x as u32 } o }).collect(), v[0] as u32),
            "exh" => Case::Exh(v.iter().map(|x| *x as u32).collect()),
            "shape" => Case::Shape(v[1..].iter().map(|x| *x as usize).collect(), v[0] as u64),
            "builder" => Case::Builder(v[2..].to_vec(), v[0] != 0, v[1] as u32),
            _ => return None,
        })
    }
    fn run(&self, thorough: bool, sig: &mut HashSet<u64>) -> R {
        TICK.fetch_add(1, Relaxed);
        LOG.lock().unwrap().clear();
        DOING.lock().unwrap().clear();
        *CASE.lock().unwrap() = self.enc();
        LIVE.with(|l| l.borrow_mut().clear());
        // A panic that escapes is a failure of whatever was being done.
        let mut w = World::default();
        let r = guard(|| match self {
            Case::Hist(o, f) => hist(&mut w, o, *f, sig),
            Case::Exh(v) => exh(&mut w, v, sig),
            Case::Shape(v, s) => shape(&mut w, v, *s, thorough, sig),
            Case::Builder(v, r, b) => builder(&mut w, v, *r, *b, sig),
        });
        let r = match r {
            Ok(r) => r,
            Err(p) => { let d = DOING.lock().unwrap().clone(); Err(Fail { props: d, msg: format!("panicked: {}", p) }) }
        };
        if r.is_err() {
            // the handles may be in an inconsistent state: never drop them
            std::mem::forget(w);
        }
        r
    }
}
fn note(w: &World, op: u64, sig: &mut HashSet<u64>) {
    if sig.len() > 2_000_000 { return; }
    let mut h = std::collections::hash_map::DefaultHasher::new();
    op.hash(&mut h);
    for n in &w.m.n { (n.par, &n.ch, n.tree, n.val).hash(&mut h); }
    sig.insert(h.finish());
}
fn hist(w: &mut World, ops: &[[u32; 6]], fin: u32, sig: &mut HashSet<u64>) -> R {
    for op in ops {
        w.exec(op)?;
        note(w, op[0] as u64, sig);
        w.audit()?;
    }
    w.finish(fin)
}
/// All ordered trees of n nodes, as depth sequences.
fn shapes(n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![0]];
    for _ in 1..n { v = v.into_iter().flat_map(|s: Vec<usize>| (1..=s[s.len() - 1] + 1).map(move |d| { let mut t = s.clone(); t.push(d); t })).collect(); }
    v
}
/// Builds the tree with the given depths; returns the indices of the handles (HotNodes) in preorder.
fn build(w: &mut World, depths: &[usize], val: u32) -> R<Vec<usize>> {
    let d = D::new(val);
    let did = d.id;
    let x = w.m.new_tree(did, val);
    let mut hs = vec![w.h.len()];
    w.push(HK::H(HotNode::new_tree(d)), x);
    let mut path = vec![hs[0]];
    for (i, &dp) in depths.iter().enumerate().skip(1) {
        path.truncate(dp);
        let p = *path.last().unwrap();
        w.create(p, None, Pos::Last, 0, (val + i as u32) % 3)?;
        hs.push(w.h.len() - 1);
        path.push(w.h.len() - 1);
    }
    w.cur.clear();
    Ok(hs)
}
fn depths_of(code: u32) -> Vec<usize> { let mut k = code as usize; for n in 1.. { let v = shapes(n); if k < v.len() { return v[k].clone(); } k -= v.len(); } unreachable!() }
/// One edit on a small pair of trees. v = [shape a, shape b, op, x, y, pos, via, keep, second op...]
fn exh(w: &mut World, v: &[u32], sig: &mut HashSet<u64>) -> R {
    let a = build(w, &depths_of(v[0]), 0)?;
    let b = build(w, &depths_of(v[1]), 1)?;
    let all = [a.clone(), b.clone()].concat();
    let (x, y) = (all[v[3] as usize % all.len()], all[v[4] as usize % all.len()]);
    let (mx, my) = (w.h[x].m, w.h[y].m);
    let mut px = x; let mut g = None;
    if v[6] & 4 != 0 { // through a plain node and a token
        let n = w.plain(x).unwrap();
        let t = w.m.n[mx].tree;
        let tok = if v[6] & 8 != 0 { w.m.n[w.h[if w.m.n[mx].tree == w.m.n[w.h[a[0]].m].tree { b[0] } else { a[0] }].m].tree } else { t };
        let gr = w.h.iter().find_map(|h| match &h.k { HK::H(n) if w.m.n[h.m].tree == tok => Some(n.extract_hierarchy_edit_grant()), _ => None }).unwrap();
        w.push(HK::P(n), mx); px = w.h.len() - 1;
        w.push(HK::G(gr), tok); g = Some(w.h.len() - 1);
    }
    // which handles stay: bit 0 all, otherwise only those needed
    if v[7] & 1 == 0 {
        let mut keep = vec![px, y]; if let Some(g) = g { keep.push(g); } if v[7] & 2 != 0 { keep.push(a[0]); } if v[7] & 4 != 0 { keep.push(b[0]); }
        if v[7] & 8 != 0 { let t = w.plain(px).unwrap().tree(); let mt = w.m.n[mx].tree; w.push(HK::T(t), mt); keep.push(w.h.len() - 1); }
        let ids: Vec<usize> = keep;
        let old = std::mem::take(&mut w.h);
        let mut map = std::collections::HashMap::new();
        let mut rest = vec![];
        for (i, h) in old.into_iter().enumerate() { if ids.contains(&i) { map.insert(i, w.h.len()); w.h.push(h); } else { rest.push(h); } }
        w.cur = vec!["C17", "C15", "C18"];
        guard(move || drop(rest)).map_err(|e| w.fail(&[], format!("drop panicked: {}", e)))?;
        return exh_op(w, v, map[&px], map[&y], g.map(|g| map[&g]), my, sig);
    }
    exh_op(w, v, px, y, g, my, sig)
}
fn exh_op(w: &mut World, v: &[u32], x: usize, y: usize, g: Option<usize>, _my: usize, sig: &mut HashSet<u64>) -> R {
    w.audit()?;
    let p = POS[v[5] as usize % 4];
    note(w, (v[2] * 64 + v[5] * 16 + v[6]) as u64 * 1000 + (v[3] * 30 + v[4]) as u64, sig);
    match v[2] {
        0 => w.create(x, g, p, v[6], 2)?,
        1 => w.interrupt(x, g, v[5] % 2 == 0, 2)?,
        2 => w.detach(x, g)?,
        3 => w.replace(x, g, v[6] & 1 == 0)?,
        4 => w.mv(x, g, y, p, v[6] & 1 == 0)?,
        5 => w.clone_subtree(x, v[6])?,
        6 => w.clone_insert(x, y, p)?,
        _ => w.compare(x, y)?,
    }
    w.audit()?;
    for op in v[8..].chunks(6) { if op.len() == 6 { let mut o = [0; 6]; o.copy_from_slice(op); w.exec(&o)?; w.audit()?; } }
    w.finish(v[3])
}
fn shape(w: &mut World, depths: &[usize], seed: u64, thorough: bool, sig: &mut HashSet<u64>) -> R {
    let mut rng = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    let hs = build(w, depths, rng.next() % 3)?;
    log(format!("tree {}", w.m.show(0)));
    note(w, 999, sig);
    w.audit()?;
    // plain, hot
    let x = rng.below(hs.len());
    for (i, &h) in hs.iter().enumerate() {
        w.cur.clear();
        log(format!("read-only checks from n{}", w.h[h].m));
        if let HK::H(n) = &w.h[h].k { if i == x { w.reads(n, w.h[h].m)?; } if i != x || hs.len() == 1 { w.reads(&n.plain(), w.h[h].m)?; } }
    }
    // frozen: turn every handle into a frozen one
    let old = std::mem::take(&mut w.h);
    let plain: Vec<(Node<D>, usize)> = old.iter().map(|h| match &h.k { HK::H(n) => (n.plain(), h.m), _ => unreachable!() }).collect();
    drop(old);
    w.cur = vec!["C14", "C15"];
    for (n, m) in plain { match n.bundle_new_hierarchy_edit_prohibition() { Ok(f) => w.push(HK::F(f), m), Err(_) => return Err(w.fail(&[], "no prohibition although all grants are released".into())) } }
    w.cur.clear();
    for i in 0..w.h.len() {
        w.cur.clear();
        log(format!("stable traversals from n{}", w.h[i].m));
        if let HK::F(n) = &w.h[i].k { if i == x { w.reads(n, w.h[i].m)?; } w.stable(n, w.h[i].m, &mut rng, thorough)?; }
    }
    w.audit()?;
    for i in 0..w.h.len() { let j = rng.below(w.h.len()); w.compare(i, j)?; }
    w.finish(seed as u32)
}
/// A sequence of builder events: >= 0 opens a node with that value, -1-k closes k levels.
/// `batch` 0: one call per event; otherwise groups of events are given to `push_events`.
fn builder(w: &mut World, evs: &[i64], with_root: bool, batch: u32, sig: &mut HashSet<u64>) -> R {
    if batch >= 6 { return linear(w, evs, with_root, batch); }
    w.cur = vec!["C20"];
    let mut m = TreeBuilder::new();
    let (mut root, mut cur): (Option<usize>, Option<usize>) = (None, None);
    if with_root {
        let hs = build(w, &[0, 1, 2, 1], 0)?;
        w.cur = vec!["C20"];
        let h = match &w.h[hs[1]].k { HK::H(n) => n.clone(), _ => unreachable!() };
        m = TreeBuilder::with_root(h);
        root = Some(w.h[hs[1]].m);
        cur = root;
        log("TreeBuilder::with_root (a node with a parent, a sibling and a child)".into());
    }
    // the builder holds handles of its own: a frozen audit is possible after finish
    let mut poisoned = false;
    let mut rng = Rng((batch as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15) | 1);
    let mut k0 = 0;
    while k0 < evs.len() && !poisoned {
        chk!(w, [], m.is_root_available() == root.is_some(), "is_root_available() is {}", m.is_root_available());
        chk!(w, [], m.is_root_closed() == (root.is_some() && cur.is_none()), "is_root_closed() is {}", m.is_root_closed());
        let n = if batch == 0 { 1 } else { (1 + rng.below(if batch == 1 { evs.len() } else { 4 })).min(evs.len() - k0) };
        let part = &evs[k0..k0 + n];
        k0 += n;
        // what the model says
        let mut want = "Ok";
        let mut give: Vec<Event<D>> = vec![];
        let mut taken = 0;
        for &e in part {
            if e >= 0 {
                let d = D::new(e as u32);
                let did = d.id;
                give.push(Event::Open(d));
                if want != "Ok" { continue; }
                taken += 1;
                if !(root.is_none() || cur.is_some()) { want = "RootClosed"; continue; }
                let x = match cur { None => { let x = w.m.new_tree(did, e as u32); root = Some(x); x } Some(c) => { let t = w.m.n[c].tree; let x = w.m.add(did, e as u32, t); w.m.link(x, c, Pos::Last); x } };
                cur = Some(x);
            } else {
                let k = (-1 - e) as usize;
                give.push(Event::Close(k));
                if want != "Ok" { continue; }
                taken += 1;
                let mut c = cur; let mut ok = true;
                for _ in 0..k { match c { Some(x) => c = if Some(x) == root { None } else { w.m.n[x].par }, None => { ok = false; break } } }
                if ok { cur = c; } else { want = if root.is_none() { "RootNotOpened" } else { "RootClosed" }; poisoned = root.is_some(); } // where the builder stands after a failed close is not documented
            }
        }
        log(format!("{} {}", if batch == 0 { "event" } else { "push_events of" }, part.iter().map(|&e| if e >= 0 { format!("open {}", e) } else { format!("close {}", -1 - e) }).collect::<Vec<_>>().join(", ")));
        now_doing(&["C20"], &[]);
        let mut used = 0;
        let r = guard(|| if batch == 0 {
            match give.pop().unwrap() { Event::Open(d) if d.id % 2 == 0 => m.open(d), Event::Close(k) if k % 2 == 0 => m.close(k), e => m.push_event(e) }
        } else {
            m.push_events(give.into_iter().inspect(|_| used += 1))
        }).map_err(|p| w.fail(&[], format!("the builder panicked: {}", p)))?;
        let got = match r { Ok(()) => "Ok", Err(TreeBuildError::RootNotOpened) => "RootNotOpened", Err(TreeBuildError::RootClosed) => "RootClosed", Err(_) => "another error" };
        chk!(w, [], got == want, "the builder answers {} instead of {}", got, want);
        if batch != 0 { chk!(w, [], used == taken, "push_events takes {} events instead of {}", used, taken); }
    }
    note(w, 777 + with_root as u64, sig);
    log("finish".into());
    let r = m.finish();
    match (r, root) {
        (Ok(n), Some(x)) => { chk!(w, [], w.id(&n)? == x, "finish gives another node"); w.push(HK::P(n), x); w.audit()?; }
        (Err(TreeBuildError::RootNotOpened), None) => {}
        (r, root) => return Err(w.fail(&[], format!("finish gives {} (root {:?})", if r.is_ok() { "a tree" } else { "an error" }, root))),
    }
    w.finish(evs.len() as u32)
}
/// The events given as traversal events of other nodes, or (batch >= 100) to a builder that already has a chain of that many open nodes.
fn linear(w: &mut World, evs: &[i64], with_root: bool, batch: u32) -> R {
    w.cur = vec!["C20"];
    let mut m = TreeBuilder::new();
    let mut want: Vec<(usize, u32)> = vec![]; // the depth and the data of each node, in tree order
    let (mut open, mut root) = (0usize, false);
    let host = HotNode::new_tree(D::new(1000));
    if with_root {
        let h = host.create_as_last_child(D::new(1001));
        let _ = host.create_as_last_child(D::new(1002));
        let c = h.create_as_first_child(D::new(1003));
        let _ = c.create_as_first_child(D::new(1004));
        m = TreeBuilder::with_root(h);
        want = vec![(0, 1001), (1, 1003), (2, 1004)];
        open = 1; root = true;
        log("TreeBuilder::with_root (a node with a parent, a sibling and descendants)".into());
    }
    let chain = if batch >= 100 { batch as usize } else { 0 };
    if chain > 0 {
        log(format!("push_events of {} opens", chain));
        let r = m.push_events((0..chain).map(|i| Event::Open(D::new(i as u32))));
        chk!(w, [], r.is_ok(), "opening {} nodes below each other fails", chain);
        for i in 0..chain { want.push((open, i as u32)); open += 1; }
        root = true;
    }
    let other = Node::new_tree(D::new(2000));
    let mut rng = Rng((batch as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15) | 1);
    let mut k0 = 0;
    while k0 < evs.len() {
        let n = if batch == 7 { (1 + rng.below(6)).min(evs.len() - k0) } else { 1 };
        let part = &evs[k0..k0 + n];
        k0 += n;
        let mut give: Vec<DftEvent<Node<D>>> = vec![];
        let (mut exp, mut taken, mut poisoned) = ("Ok", 0, false);
        let got = if chain > 0 {
            let e = part[0];
            if e >= 0 {
                log(format!("open {}", e));
                if root && open == 0 { exp = "RootClosed" } else { want.push((open, e as u32)); open += 1; root = true; }
                guard(|| m.open(D::new(e as u32)))
            } else {
                let k = match -1 - e { 2 => chain / 2, 3 => chain - 2, k => k as usize };
                log(format!("close {}", k));
                if k > open { exp = "RootClosed"; poisoned = true } else { open -= k }
                if k % 2 == 0 { guard(|| m.close(k)) } else { guard(|| m.push_event(Event::Close(k))) }
            }
        } else {
            for &e in part {
                if e >= 0 {
                    give.push(DftEvent::Open(if e % 2 == 0 { Node::new_tree(D::new(e as u32)) } else { other.create_as_last_child(&other.tree().grant_hierarchy_edit().unwrap(), D::new(e as u32)) }));
                    if exp != "Ok" { continue; }
                    taken += 1;
                    if root && open == 0 { exp = "RootClosed" } else { want.push((open, e as u32)); open += 1; root = true; }
                } else {
                    for _ in 0..-1 - e {
                        give.push(DftEvent::Close(other.clone()));
                        if exp != "Ok" { continue; }
                        taken += 1;
                        if open > 0 { open -= 1 } else if root { exp = "RootClosed" } else { exp = "RootNotOpened" }
                    }
                }
            }
            log(format!("{} {}", if batch == 6 { "push_dft_event, each of" } else { "push_dft_events of" }, part.iter().map(|&e| if e >= 0 { format!("open {}", e) } else { format!("{} closes", -1 - e) }).collect::<Vec<_>>().join(", ")));
            now_doing(&["C20"], &[]);
            let mut used = 0;
            let r = guard(|| if batch == 6 { let mut r = Ok(()); for ev in give { used += 1; r = m.push_dft_event(ev); if r.is_err() { break; } } r } else { m.push_dft_events(give.into_iter().inspect(|_| used += 1)) });
            { chk!(w, [], used == taken, "the builder takes {} events instead of {}", used, taken); }
            r
        };
        let got = match got.map_err(|p| w.fail(&[], format!("the builder panicked: {}", p)))? { Ok(()) => "Ok", Err(TreeBuildError::RootNotOpened) => "RootNotOpened", Err(TreeBuildError::RootClosed) => "RootClosed", Err(_) => "another error" };
        chk!(w, [], got == exp, "the builder answers {} instead of {}", got, exp);
        if poisoned { break; }
        chk!(w, [], m.is_root_closed() == (root && open == 0), "is_root_closed() is {}", m.is_root_closed());
    }
    log("finish".into());
    match m.finish() {
        Ok(n) => {
            chk!(w, [], root, "finish gives a tree although no root was opened");
            let (mut d, mut got) = (0usize, vec![]);
            for ev in n.depth_first_traverse() { match ev { DftEvent::Open(v) => { got.push((d, v.borrow_data().val)); d += 1; } DftEvent::Close(_) => d -= 1 } }
            if got != want { let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len())); return Err(w.fail(&[], format!("the tree built is another one: node number {} (depth, data) is {:?} instead of {:?}", at, got.get(at), want.get(at)))); }
            if with_root { chk!(w, [], n.parent().map_or(false, |p| p.ptr_eq(&host.plain())) && n.next_sibling().is_some() && host.count_children() == 2, "the given root lost its place"); }
        }
        Err(_) => chk!(w, [], !root, "finish fails although the root was opened"),
    }
    Ok(())
}
/// Teardown of very deep and very wide trees on a small stack; run in a process of its own.
fn deep(n: usize) {
    let h = std::thread::Builder::new().stack_size(256 * 1024).spawn(move || {
        for kind in 0..4 {
            let root = HotNode::new_tree(D::new(0));
            let mut cur = root.clone();
            for i in 0..n {
                let c = match kind { 1 => root.create_as_last_child(D::new(1)), 2 => root.create_as_first_child(D::new(1)), 3 if i % 2 == 0 => { let _ = cur.create_as_first_child(D::new(2)); cur.create_as_last_child(D::new(1)) }, _ => cur.create_as_last_child(D::new(1)) };
                if kind != 1 && kind != 2 { cur = c; }
            }
            let live = LIVE.with(|l| l.borrow().len());
            if live < n { println!("DEEP nodes lost while building: {}", live); std::process::exit(7); }
            match kind { 0 => { let t = root.tree(); drop(cur); drop(root); drop(t) } 1 => { drop(cur); drop(root) } 2 => { let f = root.plain(); drop(cur); drop(root); drop(f) } _ => { drop(root); drop(cur) } }
            let live = LIVE.with(|l| l.borrow().len());
            if live != 0 { println!("DEEP {} node data leaked by the teardown (kind {})", live, kind); std::process::exit(7); }
        }
        // a vacated tree, and a subtree detached and replaced
        let a = HotNode::new_tree(D::new(0));
        let mut cur = a.clone();
        for _ in 0..n { cur = cur.create_as_last_child(D::new(1)); }
        let b = HotNode::new_tree(D::new(5));
        a.detach_insert_subtree(InsertAs::FirstChildOf(&b));
        drop(a); drop(cur); drop(b);
        let live = LIVE.with(|l| l.borrow().len());
        if live != 0 { println!("DEEP {} node data leaked after a move", live); std::process::exit(7); }
    }).unwrap();
    if h.join().is_err() { println!("DEEP panicked"); std::process::exit(7); }
    println!("DEEP ok {}", n);
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "deep" { deep(a[2].parse().unwrap()); return; }
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let m = format!("{} at {}", m, i.location().map_or(String::new(), |l| format!("{}:{}", l.file().rsplit("/src/").next().unwrap_or(""), l.line())));
        if m.contains("panic in a destructor during cleanup") || m.contains("panic in a function that cannot unwind") { let p = PANIC.lock().map(|p| p.clone()).unwrap_or_default(); fatal(&format!("panic while panicking: {} / {}", p, m)); }
        if let Ok(mut p) = PANIC.try_lock() { *p = m; }
    }));
    std::thread::spawn(|| { let mut last = (u64::MAX, Instant::now()); loop { std::thread::sleep(Duration::from_millis(500)); let t = TICK.load(Relaxed); if t != last.0 { last = (t, Instant::now()); } else if last.1.elapsed() > Duration::from_secs(20) {
        let props = DOING.lock().map(|d| d.clone()).unwrap_or_default();
        report_and_exit(&Fail { props, msg: "no end within 20 s (an endless loop)".into() }); } } });
    if a[1] == "redo" {
        let s = std::fs::read_to_string(&a[2]).unwrap();
        let prop = s.lines().find_map(|l| l.strip_prefix("property: ")).unwrap_or("").to_string();
        *PROP.lock().unwrap() = prop.clone();
        let case = s.lines().find_map(|l| l.strip_prefix("case: ")).and_then(Case::dec).expect("no case in the file");
        match case.run(true, &mut HashSet::new()) {
            Ok(()) => println!("the case passes"),
            Err(f) => { for l in LOG.lock().unwrap().iter() { println!("  {}", l); } println!("FAILS [{}]: {}", f.props.join(" "), f.msg); std::process::exit(if f.props.iter().any(|p| p.trim_end_matches('+') == prop) { 1 } else { 2 }); }
        }
        return;
    }
    let (prop, seed, ms, thorough, out) = (a[2].clone(), a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap(), a[5] == "1", a[6].clone());
    *PROP.lock().unwrap() = prop.clone();
    *OUT.lock().unwrap() = out.clone();
    let t0 = Instant::now();
    let mut rng = Rng(seed.wrapping_mul(0x2545F4914F6CDD1D) | 1);
    for _ in 0..8 { rng.next(); }
    let (part, parts) = (a.get(7).map_or(0, |v| v.parse::<usize>().unwrap()), a.get(8).map_or(1, |v| v.parse::<usize>().unwrap()));
    let mut sig = HashSet::new();
    let (mut evals, mut other) = (0u64, 0u64);
    let mut by = [0u64; 4];
    let mut samples: Vec<String> = vec![];
    let mut others: Vec<String> = vec![];
    // which suites, with weights: history, edit, shape, builder
    let wts: [u32; 4] = match prop.as_str() {
        "C09" | "C10" | "C11" | "C12" | "C13" | "C22" => [1, 1, 8, 0],
        "C20" => [1, 1, 4, 8], "C21" => [4, 6, 2, 1], "C02" | "C03" | "C05" | "C06" => [4, 8, 1, 1], "C04" => [6, 8, 0, 0],
        "C07" | "C08" => [4, 4, 2, 0], "C24" => [4, 4, 3, 0], _ => [8, 5, 1, 1],
    };
    let nsh: Vec<usize> = (1..=5).map(|n| shapes(n).len()).collect();
    let small: usize = nsh[..3].iter().sum();
    let mid: usize = nsh[..if thorough { 5 } else { 4 }].iter().sum();
    let mut shq: Vec<Vec<usize>> = (1..=if thorough { 7 } else { 6 }).flat_map(shapes).collect();
    shq = shq.into_iter().enumerate().filter(|(i, _)| i % parts == part).map(|(_, s)| s).collect();
    let mut bq: Vec<(Vec<i64>, bool, u32)> = vec![];
    { let al = [0i64, -2, -1, -3, 1, -4]; let l = if thorough { 6 } else { 5 }; let mut idx = 0usize; for len in 0..=l { for k in 0..al.len().pow(len as u32) { let mut q = k; let mut v = vec![]; for _ in 0..len { v.push(al[q % al.len()]); q /= al.len(); } idx += 1; if idx % parts == part { bq.push((v.clone(), false, (idx % 4) as u32)); bq.push((v.clone(), true, (idx / 4 % 4) as u32)); if len < l { for r in [false, true] { bq.push((v.clone(), r, 6)); bq.push((v.clone(), r, 7)); } } } } } }
    bq.reverse(); shq.reverse();
    let tot: u32 = wts.iter().sum();
    let mut found: Option<(Case, Fail)> = None;
    'out: while t0.elapsed() < Duration::from_millis(ms) {
        let mut r = rng.next() % tot;
        let mut s = 0; while r >= wts[s] { r -= wts[s]; s += 1; }
        let case = match s {
            0 => { let big = rng.below(4) == 0; let n = 2 + rng.below(if big { 60 } else { 24 }); Case::Hist((0..n).map(|i| { let k = if i < 3 { [51, 6, 54][rng.below(3)] } else if prop == "C23" && rng.below(3) == 0 { 49 + rng.next() % 2 } else { rng.next() % 65 }; [k, rng.next() % 4096, rng.next() % 4096, rng.next() % 4096, rng.next() % 4096, rng.next() % 64] }).collect(), rng.next() % 1000) }
            1 => { let mut v = vec![rng.below(mid) as u32, rng.below(small) as u32, [0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 4, 4, 5, 6, 7][rng.below(15)], rng.next() % 16, rng.next() % 16, rng.next() % 4, rng.next() % 16, rng.next() % 16];
                if v[6] & 8 != 0 && rng.below(3) > 0 { v[6] &= 7; }
                if prop == "C03" && rng.below(2) == 0 { v[2] = 1 } if prop == "C05" && rng.below(2) == 0 { v[2] = 3 } if prop == "C04" && rng.below(2) == 0 { v[2] = 4 } if prop == "C21" && rng.below(2) == 0 { v[2] = 5 + rng.next() % 2 } if prop == "C16" && rng.below(2) == 0 { v[6] |= 12 }
                for _ in 0..rng.below(3) { v.extend([rng.next() % 65, rng.next() % 64, rng.next() % 64, rng.next() % 64, rng.next() % 4, rng.next() % 64]); }
                Case::Exh(v) }
            2 => match shq.pop() { Some(s) => Case::Shape(s, rng.next() as u64), None => { let n = 4 + rng.below(9); let mut v = vec![0]; for _ in 1..n { let l: usize = *v.last().unwrap(); v.push(1 + rng.below(l + 1)); } Case::Shape(v, rng.next() as u64) } },
            _ => match bq.pop() { Some((v, r, b)) => Case::Builder(v, r, b), None => { let n = rng.below(16); Case::Builder((0..n).map(|_| if rng.below(5) < 3 { rng.below(3) as i64 } else { -1 - rng.below(4) as i64 }).collect(), rng.below(3) == 0, { let b = rng.next() % 10; if b < 8 { b } else { [126, 254, 255, 256, 257, 258, 300, 1030][rng.below(8)] } }) } },
        };
        evals += 1; by[s] += 1;
        if samples.len() < 3 && evals % 97 == 1 { samples.push(case.enc()); }
        match case.run(thorough, &mut sig) {
            Ok(()) => {}
            Err(f) => {
                // an edit that fails during a borrow: does it fail without the borrow as well?
                if prop == "C23" && f.props.last() == Some(&"C23+") { NOBORROW.store(1, Relaxed); let r = case.run(thorough, &mut sig); NOBORROW.store(0, Relaxed); if r.is_err() { other += 1; continue; } let mut f = f; f.props.push("C23"); found = Some((case, f)); break 'out; }
                if f.props.iter().any(|p| *p == prop) { found = Some((case, f)); break 'out; }
                other += 1;
                if others.len() < 3 { others.push(f.msg.clone()); }
                if other > 4000 { break; }
            }
        }
    }
    other += SOFT.load(Relaxed);
    { let s = SOFTMSG.lock().unwrap().clone(); if !s.is_empty() { others.push(s); } }
    let mut fail = None;
    if let Some((mut case, mut f)) = found {
        // shorten the history
        let t1 = Instant::now();
        if let Case::Hist(ops, fin) = &case {
            let (mut ops, fin) = (ops.clone(), *fin);
            let mut step = ops.len() / 2;
            while step > 0 {
                let mut i = 0;
                while i < ops.len() && t1.elapsed() < Duration::from_secs(15) {
                    let mut t = ops.clone(); t.drain(i..(i + step).min(ops.len()));
                    match Case::Hist(t.clone(), fin).run(thorough, &mut sig) { Err(g) if g.props.iter().any(|p| p.trim_end_matches('+') == prop) && { NOBORROW.store(1, Relaxed); let ok = !g.props.contains(&"C23+") || Case::Hist(t.clone(), fin).run(thorough, &mut sig).is_ok(); NOBORROW.store(0, Relaxed); ok } => { ops = t; f = g } _ => i += step }
                }
                step /= 2;
            }
            case = Case::Hist(ops, fin);
        }
        let _ = case.run(thorough, &mut sig);
        write_replay(&out, &prop, &case.enc(), &f);
        fail = Some(f.msg);
    }
    println!("{{\"evaluations\": {}, \"distinct\": {}, \"by_suite\": {{\"history\": {}, \"edit\": {}, \"shape\": {}, \"builder\": {}}}, \"samples\": [{}], \"other\": {}, \"others\": [{}], \"fail\": {}}}",
        evals, sig.len(), by[0], by[1], by[2], by[3], samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "), other, others.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "), fail.as_ref().map_or("null".into(), |m| js(m)));
    std::process::exit(if fail.is_some() { 1 } else { 0 });
}
