//! Read-only checks on a given tree: traversers, size hints, serialization, cloning, comparison.
use crate::chk;
use crate::soft;
use crate::model::*;
use crate::nl::NL;
use crate::ops::*;
use dendron::serial::{Event, TreeBuildError, TreeBuilder};
use dendron::traverse::*;
use dendron::*;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u32 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; (self.0 >> 16) as u32 }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { self.next() as usize % n } }
}

type Seq = Vec<(u8, usize, usize)>;
fn hint_ok(h: (usize, Option<usize>), rem: usize) -> bool { h.0 <= rem && h.1.map_or(true, |u| rem <= u) }

impl World {
    /// Checks a forward-only iterator against the expected items.
    fn seq<I: Iterator + Clone>(&self, p: &'static str, what: &str, it: I, want: &Seq, conv: impl Fn(&World, I::Item) -> R<(u8, usize, usize)>, peek: Option<&dyn Fn(&I) -> Option<I::Item>>) -> R {
        crate::keep(self.seq0(p, what, it, want, conv, peek))
    }
    fn seq0<I: Iterator + Clone>(&self, p: &'static str, what: &str, mut it: I, want: &Seq, conv: impl Fn(&World, I::Item) -> R<(u8, usize, usize)>, peek: Option<&dyn Fn(&I) -> Option<I::Item>>) -> R {
        for i in 0..want.len() + 1 {
            let h = self.call(&["C13"], "size_hint", || it.size_hint())?;
            soft!(self, ["C13"], hint_ok(h, want.len() - i), "{}: size_hint is {:?} with {} items left", what, h, want.len() - i);
            if let Some(pk) = peek {
                let v = self.call(&[p], "peek", || pk(&it))?;
                let v = match v { Some(v) => Some(conv(self, v)?), None => None };
                chk!(self, [p], v == want.get(i).copied(), "{}: peek before item {} is {:?} instead of {:?}", what, i, v, want.get(i));
            }
            if i % 3 == 1 { // an iterator and its clone are independent
                let mut c = it.clone();
                let v = self.call(&[p], "next on a clone", || c.next())?;
                let v = match v { Some(v) => Some(conv(self, v)?), None => None };
                chk!(self, [p], v == want.get(i).copied(), "{}: item {} of a cloned iterator is {:?} instead of {:?}", what, i, v, want.get(i));
            }
            let v = self.call(&[p], what, || it.next())?;
            let v = match v { Some(v) => Some(conv(self, v)?), None => None };
            if v != want.get(i).copied() { return Err(self.fail(&[p], format!("{}: item {} is {:?} instead of {:?}", what, i, v, want.get(i)))); }
        }
        for _ in 0..2 {
            let v = self.call(&[p], what, || it.next().is_none())?;
            chk!(self, [p], v, "{}: an item after the end", what);
            let h = it.size_hint();
            soft!(self, ["C13"], hint_ok(h, 0), "{}: size_hint is {:?} after the end", what, h);
        }
        Ok(())
    }
    /// Checks a double-ended iterator against every pattern in `pat` (bit set: from the back; 2 of 3 bits).
    fn dbl<I: DoubleEndedIterator + Clone>(&self, p: &'static str, what: &str, it0: &I, want: &Seq, pats: &[u64], conv: impl Fn(&World, I::Item) -> R<(u8, usize, usize)>,
        pk: impl Fn(&I) -> Option<I::Item>, pkb: impl Fn(&I) -> Option<I::Item>, close: Option<&dyn Fn(&mut I) -> Option<(u8, usize, usize)>>) -> R {
        crate::keep(self.dbl0(p, what, it0, want, pats, conv, pk, pkb, close))
    }
    fn dbl0<I: DoubleEndedIterator + Clone>(&self, p: &'static str, what: &str, it0: &I, want: &Seq, pats: &[u64], conv: impl Fn(&World, I::Item) -> R<(u8, usize, usize)>,
        pk: impl Fn(&I) -> Option<I::Item>, pkb: impl Fn(&I) -> Option<I::Item>, close: Option<&dyn Fn(&mut I) -> Option<(u8, usize, usize)>>) -> R {
        for &pat in pats {
            let mut it = it0.clone();
            let (mut f, mut b) = (0usize, want.len());
            let mut s = 0;
            loop {
                let h = self.call(&["C13"], "size_hint", || it.size_hint())?;
                soft!(self, ["C13"], hint_ok(h, b - f), "{}: size_hint is {:?} with {} items left (after {} from the front, {} from the back)", what, h, b - f, f, want.len() - b);
                if s % 2 == 0 {
                    let v = match self.call(&[p], "peek", || pk(&it))? { Some(v) => Some(conv(self, v)?), None => None };
                    chk!(self, [p], v == if f < b { Some(want[f]) } else { None }, "{}: peek is {:?}", what, v);
                    let v = match self.call(&[p], "peek_back", || pkb(&it))? { Some(v) => Some(conv(self, v)?), None => None };
                    chk!(self, [p], v == if f < b { Some(want[b - 1]) } else { None }, "{}: peek_back is {:?}", what, v);
                }
                if f == b { break; }
                let bit = (pat >> (s % 60)) & 1 == 1;
                if let (Some(cl), true) = (close, pat & (1 << 62) != 0 && s % 3 == 1) {
                    let v = self.call(&[p], "close_current", || cl(&mut it))?;
                    let mut d = 0i64; let mut w = None; // the first unmatched closing, or the end
                    while f < b { let e = want[f]; f += 1; if e.0 == 0 { d += 1 } else if d == 0 { w = Some(e); break } else { d -= 1 } }
                    chk!(self, [p], v == w, "{}: close_current is {:?} instead of {:?}", what, v, w);
                } else if bit {
                    let v = match self.call(&[p], "next_back", || it.next_back())? { Some(v) => Some(conv(self, v)?), None => None };
                    chk!(self, [p], v == Some(want[b - 1]), "{}: next_back after {} from the front, {} from the back is {:?} instead of {:?}", what, f, want.len() - b, v, want[b - 1]);
                    b -= 1;
                } else {
                    let v = match self.call(&[p], "next", || it.next())? { Some(v) => Some(conv(self, v)?), None => None };
                    chk!(self, [p], v == Some(want[f]), "{}: next after {} from the front, {} from the back is {:?} instead of {:?}", what, f, want.len() - b, v, want[f]);
                    f += 1;
                }
                s += 1;
            }
            for _ in 0..2 {
                let v = self.call(&[p], what, || it.next().is_none() && it.next_back().is_none())?;
                chk!(self, [p], v, "{}: an item after the end", what);
                let h = it.size_hint();
                soft!(self, ["C13"], hint_ok(h, 0), "{}: size_hint is {:?} after the end", what, h);
            }
        }
        Ok(())
    }

    /// All traversals from one handle.
    pub fn reads<N: NL>(&self, n: &N, x: usize) -> R {
        let m = &self.m;
        let nd = |w: &World, v: Node<D>| -> R<(u8, usize, usize)> { Ok((0, w.id(&v)?, 0)) };
        let de = |w: &World, v: DftEvent<Node<D>>| -> R<(u8, usize, usize)> { Ok(match v { DftEvent::Open(v) => (0, w.id(&v)?, 0), DftEvent::Close(v) => (1, w.id(&v)?, 0) }) };
        let list = |v: Vec<usize>| -> Seq { v.into_iter().map(|i| (0, i, 0)).collect() };
        let rev = |mut v: Vec<usize>| { v.reverse(); v };
        let sibs = m.sibs(x);
        let i = sibs.iter().position(|&s| s == x).unwrap();
        let k = N::K;
        let pks: &dyn Fn(&SiblingsTraverser<D>) -> Option<Node<D>> = &|t| t.peek().cloned();
        let pkr: &dyn Fn(&ReverseSiblingsTraverser<D>) -> Option<Node<D>> = &|t| t.peek().cloned();
        let pka: &dyn Fn(&AncestorsTraverser<D>) -> Option<Node<D>> = &|t| t.peek().cloned();
        let pkd: &dyn Fn(&DepthFirstTraverser<D>) -> Option<DftEvent<Node<D>>> = &|t| t.peek().cloned();
        let pkdr: &dyn Fn(&ReverseDepthFirstTraverser<D>) -> Option<DftEvent<Node<D>>> = &|t| t.peek().cloned();
        let ev = m.events(x, usize::MAX);
        let evs: Seq = ev.iter().map(|e| (!e.0 as u8, e.1, 0)).collect();
        let mut evr = evs.clone(); evr.reverse();
        self.seq("C09", &format!("{}::depth_first_traverse of n{}", k, x), n.depth_first_traverse(), &evs, de, Some(pkd))?;
        self.seq("C09", &format!("{}::depth_first_reverse_traverse of n{}", k, x), n.depth_first_reverse_traverse(), &evr, de, Some(pkdr))?;
        self.seq("C12", &format!("{}::children of n{}", k, x), n.children(), &list(m.n[x].ch.clone()), nd, Some(pks))?;
        self.seq("C12", &format!("{}::children_reverse of n{}", k, x), n.children_reverse(), &list(rev(m.n[x].ch.clone())), nd, Some(pkr))?;
        self.seq("C12", &format!("{}::ancestors of n{}", k, x), n.ancestors(), &list(m.anc(x)), nd, Some(pka))?;
        let mut ao = vec![x]; ao.extend(m.anc(x));
        self.seq("C12", &format!("{}::ancestors_or_self of n{}", k, x), n.ancestors_or_self(), &list(ao), nd, Some(pka))?;
        self.seq("C12", &format!("{}::siblings of n{}", k, x), n.siblings(), &list(sibs.clone()), nd, Some(pks))?;
        self.seq("C12", &format!("{}::siblings_reverse of n{}", k, x), n.siblings_reverse(), &list(rev(sibs.clone())), nd, Some(pkr))?;
        self.seq("C12", &format!("{}::preceding_siblings_or_self_reverse of n{}", k, x), n.preceding_siblings_or_self_reverse(), &list(rev(sibs[..=i].to_vec())), nd, Some(pkr))?;
        self.seq("C12", &format!("{}::preceding_siblings_reverse of n{}", k, x), n.preceding_siblings_reverse(), &list(rev(sibs[..i].to_vec())), nd, Some(pkr))?;
        self.seq("C12", &format!("{}::following_siblings_or_self of n{}", k, x), n.following_siblings_or_self(), &list(sibs[i..].to_vec()), nd, Some(pks))?;
        self.seq("C12", &format!("{}::following_siblings of n{}", k, x), n.following_siblings(), &list(sibs[i + 1..].to_vec()), nd, Some(pks))?;
        // close_current at every position
        for cut in 0..=evs.len() {
            let mut it = n.depth_first_traverse();
            for _ in 0..cut { it.next(); }
            let v = match self.call(&["C09"], "close_current", || it.close_current())? { Some(v) => Some(self.id(&v)?), None => None };
            let mut d = 0; let mut w = None; let mut at = cut;
            while at < evs.len() { let e = evs[at]; at += 1; if e.0 == 0 { d += 1 } else if d == 0 { w = Some(e.1); break } else { d -= 1 } }
            soft!(self, ["C09"], v == w, "DepthFirstTraverser::close_current after {} events from n{} is {:?} instead of {:?}", cut, x, v, w);
            let v = match it.next() { Some(e) => Some(de(self, e)?), None => None };
            soft!(self, ["C09"], v == evs.get(at).copied(), "the event after close_current is {:?} instead of {:?}", v, evs.get(at));
        }
        // start from any event inside the subtree
        for (j, e) in evs.iter().enumerate() {
            let en = find(&n.pl(), m, x, e.1);
            let first = if e.0 == 0 { DftEvent::Open(en) } else { DftEvent::Close(en) };
            self.seq("C09", &format!("DepthFirstTraverser::with_next_event from event {} of n{}", j, x), DepthFirstTraverser::with_next_event(n.pl(), Some(first.clone())), &evs[j..].to_vec(), de, Some(pkd))?;
            self.seq("C09", &format!("ReverseDepthFirstTraverser::with_next_event from event {} of n{}", j, x), ReverseDepthFirstTraverser::with_next_event(n.pl(), Some(first)), &evr[evs.len() - 1 - j..].to_vec(), de, Some(pkdr))?;
        }
        self.seq("C09", "an empty traverser", DepthFirstTraverser::<D>::with_start(None), &vec![], de, Some(pkd))?;
        self.seq("C09", "an empty traverser", ReverseDepthFirstTraverser::<D>::with_start(None), &vec![], de, Some(pkdr))?;
        self.seq("C09", "an empty traverser", DepthFirstTraverser::with_next_event(n.pl(), None), &vec![], de, Some(pkd))?;
        self.seq("C09", "an empty traverser", ReverseDepthFirstTraverser::with_next_event(n.pl(), None), &vec![], de, Some(pkdr))?;
        // the events themselves, over the whole tree
        let top = m.root(x);
        let all: Seq = m.events(top, usize::MAX).iter().map(|e| (!e.0 as u8, e.1, 0)).collect();
        let rootn = n.pl().root();
        for (j, e) in all.iter().enumerate() {
            let en = find(&rootn, m, top, e.1);
            let evn = if e.0 == 0 { DftEvent::Open(en) } else { DftEvent::Close(en) };
            let nx = match self.call(&["C09"], "DftEvent::next", || evn.next())? { Some(v) => Some(de(self, v)?), None => None };
            soft!(self, ["C09"], nx == all.get(j + 1).copied(), "DftEvent::next of {:?} is {:?} instead of {:?}", e, nx, all.get(j + 1));
            let pv = match self.call(&["C09"], "DftEvent::prev", || evn.prev())? { Some(v) => Some(de(self, v)?), None => None };
            soft!(self, ["C09"], pv == if j == 0 { None } else { Some(all[j - 1]) }, "DftEvent::prev of {:?} is {:?}", e, pv);
            let mut d = 0; let mut w = None; let mut at = j + 1;
            while at < all.len() { let e = all[at]; at += 1; if e.0 == 0 { d += 1 } else if d == 0 { w = Some(e.1); break } else { d -= 1 } }
            let v = match self.call(&["C09"], "DftEvent::close_current", || evn.close_current())? { Some(v) => Some(self.id(&v)?), None => None };
            soft!(self, ["C09"], v == w, "DftEvent::close_current of {:?} is {:?} instead of {:?}", e, v, w);
        }
        self.serial(n, x)
    }
    pub fn stable(&self, n: &FrozenNode<D>, x: usize, rng: &mut Rng, thorough: bool) -> R {
        let m = &self.m;
        let fe = |w: &World, v: DftEvent<FrozenNode<D>>| -> R<(u8, usize, usize)> { Ok(match v { DftEvent::Open(v) => (0, w.id(&v.plain())?, 0), DftEvent::Close(v) => (1, w.id(&v.plain())?, 0) }) };
        let se = |w: &World, v: DftEvent<(FrozenNode<D>, usize)>| -> R<(u8, usize, usize)> { Ok(match v { DftEvent::Open((v, d)) => (0, w.id(&v.plain())?, d), DftEvent::Close((v, d)) => (1, w.id(&v.plain())?, d) }) };
        let fn_ = |w: &World, v: FrozenNode<D>| -> R<(u8, usize, usize)> { Ok((0, w.id(&v.plain())?, 0)) };
        let bf = |w: &World, v: (FrozenNode<D>, usize)| -> R<(u8, usize, usize)> { Ok((0, w.id(&v.0.plain())?, v.1)) };
        let mut pats = vec![0, !0u64 >> 2, 0x5555555555555555, 0x3333333333333333, 1 << 62, 1 << 62 | 0x2AAAAAAAAAAAAAAA];
        for _ in 0..if thorough { 12 } else { 3 } { let r = ((rng.next() as u64) << 32 | rng.next() as u64) & !(1 << 63); pats.push(r); }
        let evs: Seq = m.events(x, usize::MAX).iter().map(|e| (!e.0 as u8, e.1, 0)).collect();
        self.dbl("C10", &format!("depth_first_traverse_stable of n{}", x), &n.depth_first_traverse_stable(), &evs, &pats, fe, |t| t.peek().cloned(), |t| t.peek_back().cloned(),
            Some(&|t: &mut StableDepthFirstTraverser<D>| t.close_current().map(|v| (1, self.id(&v.plain()).unwrap_or(usize::MAX), 0))))?;
        // a part of the traversal, between two events
        for _ in 0..4 {
            let (a, b) = { let a = rng.below(evs.len()); let b = rng.below(evs.len()); (a.min(b), a.max(b)) };
            let mk = |e: (u8, usize, usize)| { let f = ffind(n, m, x, e.1); if e.0 == 0 { DftEvent::Open(f) } else { DftEvent::Close(f) } };
            self.dbl("C10", &format!("StableDepthFirstTraverser from event {} to {} of n{}", a, b, x), &StableDepthFirstTraverser::with_first_last_event(mk(evs[a]), mk(evs[b])), &evs[a..=b].to_vec(), &pats[..5], fe, |t| t.peek().cloned(), |t| t.peek_back().cloned(),
                Some(&|t: &mut StableDepthFirstTraverser<D>| t.close_current().map(|v| (1, self.id(&v.plain()).unwrap_or(usize::MAX), 0))))?;
        }
        for md in [None, Some(0), Some(1), Some(2), Some(3), Some(usize::MAX), Some(usize::MAX - 1)] {
            let t = n.shallow_depth_first_traverse_stable(md);
            let evs: Seq = m.events(x, md.unwrap_or(usize::MAX)).iter().map(|e| (!e.0 as u8, e.1, e.2)).collect();
            soft!(self, ["C10"], t.max_depth() == md.unwrap_or(usize::MAX), "max_depth() is {}", t.max_depth());
            self.dbl("C10", &format!("shallow_depth_first_traverse_stable({:?}) of n{}", md, x), &t, &evs, &pats, se, |t| t.peek().cloned(), |t| t.peek_back().cloned(),
                Some(&|t: &mut StableShallowDepthFirstTraverser<D>| t.close_current().map(|v| (1, self.id(&v.0.plain()).unwrap_or(usize::MAX), v.1))))?;
        }
        let sibs = m.sibs(x);
        let i = sibs.iter().position(|&s| s == x).unwrap();
        let list = |v: &[usize]| -> Seq { v.iter().map(|&i| (0, i, 0)).collect() };
        for (w, t, l) in [("children_stable", n.children_stable(), list(&m.n[x].ch)), ("siblings_stable", n.siblings_stable(), list(&sibs)),
            ("preceding_siblings_or_self_stable", n.preceding_siblings_or_self_stable(), list(&sibs[..=i])), ("preceding_siblings_stable", n.preceding_siblings_stable(), list(&sibs[..i])),
            ("following_siblings_or_self_stable", n.following_siblings_or_self_stable(), list(&sibs[i..])), ("following_siblings_stable", n.following_siblings_stable(), list(&sibs[i + 1..]))] {
            self.dbl("C10", &format!("{} of n{}", w, x), &t, &l, &pats, fn_, |t| t.peek().cloned(), |t| t.peek_back().cloned(), None)?;
            let mut t2 = t.clone(); let mut got = vec![]; for _ in 0..=l.len() { match self.call(&["C12"], w, || t2.next())? { Some(v) => got.push(fn_(self, v)?), None => break } }
            soft!(self, ["C12"], got == l, "{} of n{} gives {:?} instead of {:?}", w, x, got, l);
        }
        soft!(self, ["C10"], StableDepthFirstTraverser::<D>::with_toplevel(None).next().is_none() && StableSiblingsTraverser::<D>::with_parent(None).next().is_none() && StableShallowDepthFirstTraverser::<D>::with_toplevel(None, None).next().is_none(), "an empty traverser gives an item");
        let height = m.events(x, usize::MAX).iter().map(|e| e.2).max().unwrap();
        for sd in (0..height + 3).chain([usize::MAX]) {
            let want: Seq = m.bfs(x, sd).into_iter().map(|(i, d)| (0, i, d)).collect();
            self.seq("C11", &format!("non_allocating_breadth_first_traverse_stable({}) of n{}", sd, x), n.non_allocating_breadth_first_traverse_stable(sd), &want, bf, None)?;
            self.seq("C11", &format!("allocating_breadth_first_traverse_stable({}) of n{}", sd, x), n.allocating_breadth_first_traverse_stable(sd), &want, bf, Some(&|t| t.peek()))?;
            let mut t = n.allocating_breadth_first_traverse_stable(sd);
            let mut got = vec![]; for j in 0..=want.len() { if j % 2 == 0 { t.shrink_to_fit(); let _ = t.capacity(); } else { t.shrink_to(1); } match t.next() { Some(v) => got.push(bf(self, v)?), None => break } }
            soft!(self, ["C11"], got == want, "allocating_breadth_first_traverse_stable with a shrunk buffer");
        }
        // a stable traverser keeps the hierarchy locked while it lives
        let tree = n.tree();
        let g0 = tree.grant_hierarchy_edit().is_ok();
        soft!(self, ["C14", "C10"], !g0, "the tree of a FrozenNode can be edited");
        Ok(())
    }
    /// Serialization, building, cloning.
    fn serial<N: NL>(&self, n: &N, x: usize) -> R {
        let m = &self.m;
        let mut evs: Vec<(u32, usize)> = vec![]; // (0, value) opens, (1, count) closes
        for e in m.events(x, usize::MAX) { if e.0 { evs.push((0, m.n[e.1].val as usize)) } else { match evs.last_mut() { Some(l) if l.0 == 1 => l.1 += 1, _ => evs.push((1, 1)) } } }
        let mut it = n.events();
        let mut got: Vec<(u32, usize)> = vec![];
        for i in 0..=evs.len() + 1 {
            let h = it.size_hint();
            if i <= evs.len() { soft!(self, ["C13"], hint_ok(h, evs.len() - i), "to_events of n{}: size_hint {:?} with {} left", x, h, evs.len() - i); }
            match self.call(&["C20"], "to_events", || it.next())? { Some(Ok(Event::Open(d))) => got.push((0, d.val as usize)), Some(Ok(Event::Close(c))) => got.push((1, c)), Some(Err(_)) => got.push((2, 0)), None => break }
        }
        // the closings may be grouped in any way
        let norm = |v: &[(u32, usize)]| -> Vec<(u32, usize)> { let mut o: Vec<(u32, usize)> = vec![]; for &e in v { match o.last_mut() { Some(l) if l.0 == 1 && e.0 == 1 => l.1 += e.1, _ => o.push(e) } } o };
        soft!(self, ["C20"], norm(&got) == evs, "to_events of n{} gives {:?} instead of {:?}", x, got, evs);
        let src = n.pl();
        let mk = || evs.iter().map(|&(k, v)| if k == 0 { Event::Open(D::new(v as u32)) } else { Event::Close(v) });
        let r1 = self.call(&["C20"], "collect", || mk().collect::<Result<Node<D>, TreeBuildError>>())?;
        let r2 = self.call(&["C20"], "collect", || mk().collect::<Result<HotNode<D>, TreeBuildError>>().map(|n| n.plain()))?;
        let r3 = self.call(&["C20"], "collect", || mk().collect::<Result<FrozenNode<D>, TreeBuildError>>().map(|n| n.plain()))?;
        let r4 = self.call(&["C20"], "collect", || mk().collect::<Result<Tree<D>, TreeBuildError>>().map(|n| n.root()))?;
        let r5 = self.call(&["C20"], "collect", || src.depth_first_traverse().collect::<Result<Node<D>, TreeBuildError>>())?;
        let r6 = self.call(&["C21"], "clone_subtree", || Ok::<_, TreeBuildError>(n.clone_p()))?;
        let r7 = self.call(&["C20"], "push_dft_events", || { let mut b = TreeBuilder::new(); b.push_dft_events(src.depth_first_traverse())?; b.finish() })?;
        let r8 = self.call(&["C20"], "push_event", || { let mut b = TreeBuilder::new(); for e in src.depth_first_traverse() { b.push_dft_event(e)?; } b.finish_opt().ok_or(TreeBuildError::RootNotOpened) })?;
        for (i, r) in [r1, r2, r3, r4, r5, r6, r7, r8].into_iter().enumerate() {
            let p = if i == 5 { "C21" } else { "C20" };
            match r {
                Ok(c) => {
                    soft!(self, [p], same_shape(&c, m, x), "rebuilding the tree of n{} (way {}) gives another tree", x, i + 1);
                    soft!(self, [p], c.is_root() && !c.ptr_eq(&src), "the rebuilt tree (way {}) is not a new tree", i + 1);
                    soft!(self, [p], c.tree().grant_hierarchy_edit().is_ok(), "the rebuilt tree (way {}) stays locked", i + 1);
                    soft!(self, [p], c.tree().prohibit_hierarchy_edit().is_ok(), "the rebuilt tree (way {}) stays locked", i + 1);
                    soft!(self, ["C22"], c.try_eq(&src).ok() == Some(true) && src.try_eq(&c).ok() == Some(true), "n{} is not equal to its copy (way {})", x, i + 1);
                    if i == 0 { // one difference anywhere makes them unequal
                        for (j, c2) in c.depth_first_traverse().filter_map(|e| e.into_open()).enumerate() {
                            let old = { let mut d = c2.borrow_data_mut(); let o = d.val; d.val = o + 7; o };
                            soft!(self, ["C22"], c.try_eq(&src).ok() == Some(false) && src.try_eq(&c).ok() == Some(false), "n{} is equal to a copy whose data number {} differs", x, j);
                            c2.borrow_data_mut().val = old;
                            { // comparison needs the data to be borrowable, when the comparison gets there
                                let _g = c2.borrow_data_mut();
                                soft!(self, ["C22"], c.try_eq(&src).is_err(), "try_eq succeeded although data number {} is mutably borrowed", j);
                            }
                            let h = c2.clone().bundle_new_hierarchy_edit_grant().map_err(|_| self.fail(&["C14"], "no grant for a new tree".into()))?;
                            let extra = h.create_as_last_child(D::new(0));
                            soft!(self, ["C22"], c.try_eq(&src).ok() == Some(false) && src.try_eq(&c).ok() == Some(false), "n{} is equal to a copy with one more child under node number {}", x, j);
                            extra.detach_subtree();
                        }
                        soft!(self, ["C22"], c.try_eq(&src).ok() == Some(true), "n{} is not equal to its copy", x);
                    }
                }
                Err(_) => return Err(self.fail(&[p], format!("rebuilding the tree of n{} (way {}) failed", x, i + 1))),
            }
        }
        Ok(())
    }
}
pub fn same_shape(c: &Node<D>, m: &Model, x: usize) -> bool {
    if c.try_borrow_data().map_or(true, |d| d.val != m.n[x].val) || c.num_children() != m.n[x].ch.len() { return false; }
    let mut k = c.first_child();
    for &y in &m.n[x].ch {
        match k { Some(n) => { if !same_shape(&n, m, y) { return false; } k = n.next_sibling(); } None => return false }
    }
    k.is_none()
}
/// Finds the handle of model node `y` below `n` (which is `x`).
pub fn find(n: &Node<D>, m: &Model, x: usize, y: usize) -> Node<D> {
    let mut path = vec![y];
    while *path.last().unwrap() != x { path.push(m.n[*path.last().unwrap()].par.unwrap()); }
    path.pop();
    let (mut c, mut at) = (n.clone(), x);
    while let Some(p) = path.pop() {
        let i = m.n[at].ch.iter().position(|&q| q == p).unwrap();
        let mut k = c.first_child().unwrap();
        for _ in 0..i { k = k.next_sibling().unwrap(); }
        c = k; at = p;
    }
    c
}
pub fn ffind(n: &FrozenNode<D>, m: &Model, x: usize, y: usize) -> FrozenNode<D> {
    find(&n.plain(), m, x, y).bundle_new_hierarchy_edit_prohibition().unwrap()
}
