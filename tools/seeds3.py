import sys; sys.path.insert(0,'/tmp/gen')
from seedlib import *
from seeds1 import PRE,E
B=[]
L='src/tree/lock.rs'; P='src/node/plain.rs'; H='src/node/hot.rs'; F='src/node/frozen.rs'; D='src/traverse/depth_first.rs'; S='src/serial.rs'; I='src/node/internal.rs'; M='src/node/membership.rs'; ED='src/node/edit.rs'; BF='src/traverse/breadth_first.rs'; SI='src/traverse/siblings.rs'
B.append(('shallow-back-passes-last-event','C10',[(D,'''    fn next_of_next_backward(&mut self) -> Option<DftEvent<(FrozenNode<T>, usize)>> {
        let (next, next_back) = self.next.as_ref()?;
        match (next, next_back) {
            (DftEvent::Open((next, depth)), DftEvent::Open((next_back, depth_back)))
            | (DftEvent::Close((next, depth)), DftEvent::Close((next_back, depth_back)))
                if FrozenNode::ptr_eq(next, next_back) =>''','''    fn next_of_next_backward(&mut self) -> Option<DftEvent<(FrozenNode<T>, usize)>> {
        let (next, next_back) = self.next.as_ref()?;
        match (next, next_back) {
            (DftEvent::Open((next, depth)), DftEvent::Open((next_back, depth_back)))
            | (DftEvent::Close((next, depth)), DftEvent::Close((next_back, depth_back)))
                // Events of a node at the maximum depth are not separated by others.
                if FrozenNode::ptr_eq(next, next_back)
                    && (*depth < self.max_depth() || matches!(next_back_of(&self.next), DftEvent::Open(_))) =>'''),
(D,'''impl<T> Iterator for StableShallowDepthFirstTraverser<T> {
''','''/// Returns the next backward event.
fn next_back_of<T>(pair: &Option<(DftEvent<T>, DftEvent<T>)>) -> &DftEvent<T> {
    match pair {
        Some((_, next_back)) => next_back,
        None => unreachable!("[consistency] there are events left"),
    }
}

impl<T> Iterator for StableShallowDepthFirstTraverser<T> {
''')],PRE+'''fn main() {
    let root = Node::new_tree("root");
    let grant = root.tree().grant_hierarchy_edit().unwrap();
    let a = root.create_as_last_child(&grant, "a");
    a.create_as_last_child(&grant, "a0");
    drop(grant);
    let frozen = root.bundle_new_hierarchy_edit_prohibition().unwrap();
    let mut it = frozen.shallow_depth_first_traverse_stable(Some(1));
    // Open root, Open a
    let mut n = 0;
    it.next().unwrap(); it.next().unwrap(); n += 2;
    // Close root, and Close a, the last one
    while it.next_back().is_some() { n += 1; assert!(n < 100); }
    assert_eq!(n, 4);
}
''','a depth-limited traversal whose ends meet at the closing of a node at the maximum depth, taken from the back','the events of that node are yielded twice'))
B.append(('detached-last-remembers-sibling','C01',[(ED,'''        // Update `node_to_unlink`.
        node_to_unlink.replace_parent(NodeCoreLinkWeak::default());
        let link_weak = node_to_unlink.downgrade();
        node_to_unlink.replace_prev_sibling_cyclic(link_weak);
        node_to_unlink.replace_next_sibling(None);
''','''        // Update `node_to_unlink`.
        node_to_unlink.replace_parent(NodeCoreLinkWeak::default());
        if node_to_unlink.replace_next_sibling(None).is_some() {
            let link_weak = node_to_unlink.downgrade();
            node_to_unlink.replace_prev_sibling_cyclic(link_weak);
        }
''')],PRE+'''fn main() {
    let root = HotNode::new_tree("root");
    let a = root.create_as_last_child("a");
    let b = root.create_as_last_child("b");
    b.detach_subtree();
    root.create_as_last_child("c");
    assert!(b.prev_sibling().is_none(), "a root has no siblings");
    assert!(!b.has_prev_sibling());
    assert!(a.next_sibling().unwrap().ptr_eq(&root.last_child().unwrap()));
}
''','detaching the last of several siblings, and then adding another child to its former parent','the detached root still refers to its former sibling as its previous one'))
B.append(('dft-events-after-root-ignored','C20',[(S,'''        for ev in events.map(TryInto::try_into) {
            match ev? {
                Event::Open(node) => self.open(node)?,
''','''        for ev in events.map(TryInto::try_into) {
            match ev? {
                // An open root means that the first node has been processed.
                Event::Open(_) if self.root.is_some() && self.current.is_none() => break,
                Event::Open(node) => self.open(node)?,
''')],PRE+'''use dendron::serial::{TreeBuilder, TreeBuildError};
use dendron::traverse::DftEvent;
fn main() {
    let root = Node::new_tree("root");
    let mut b = TreeBuilder::<&'static str>::new();
    b.push_dft_events(root.depth_first_traverse()).unwrap();
    let r = b.push_dft_events([DftEvent::Open(root.clone())]);
    assert!(matches!(r, Err(TreeBuildError::RootClosed)), "{:?}", r);
}
''','pushing traversal events that open a second root after the first was closed','the events are dropped silently instead of being refused'))
B.append(('transferred-lock-kept','C15',[(L,'''                other.acquire_grant().map_err(|_| ())?;
                let new_count = self.num_grants.get() - 1;
                self.num_grants.set(new_count);
            }
            Ordering::Equal => {}''','''                other.acquire_grant().map_err(|_| ())?;
                // The first grant of `other` takes the place of the one of `self`.
                if other.num_grants.get() == 1 {
                    let new_count = self.num_grants.get() - 1;
                    self.num_grants.set(new_count);
                }
            }
            Ordering::Equal => {}''')],PRE+'''fn main() {
    let src = HotNode::new_tree("src");
    let plain = src.plain();
    let dest = HotNode::new_tree("dest");
    let child = src.create_as_last_child("child");
    child.detach_insert_subtree(InsertAs::LastChildOf(&dest));
    drop(src);
    assert!(plain.tree().prohibit_hierarchy_edit().is_ok(), "no grants for the source tree are left");
}
''','moving a HotNode into another tree that has grants already','the source tree stays locked for ever'))
B.append(('wide-close-level','C20',[(S,'''            let parent_level = level - 1;
            for _ in 0..parent_level {''','''            let parent_level = level - 1;
            let parent_level = parent_level.min(usize::from(u8::MAX));
            for _ in 0..parent_level {''')],PRE+'''use dendron::serial::{Event, TreeBuilder};
fn main() {
    let mut b = TreeBuilder::new();
    for i in 0..301 { b.push_event(Event::Open(i)).unwrap(); }
    b.push_event(Event::Close(300)).unwrap();
    b.push_event(Event::Open(-1)).unwrap();
    let root = b.finish().unwrap();
    assert_eq!(root.num_children(), 2);
}
''','closing more than 256 nodes by one event','fewer nodes are closed than requested'))
B.append(('equal-counts-equal-trees','C22',[(I,'''        // NOTE: `Iterator::eq_by` is not yet stabilized (as of Rust 1.60).
        let mut self_iter''','''        // Leaves are compared without traversal.
        if !self.has_children() && !other.has_next_sibling() && other.num_children_cell().get() < 2 {
            return Ok(*self.try_borrow_data()? == *other.try_borrow_data()?
                && other.first_child_link().map_or(true, |child| child.has_children()));
        }

        // NOTE: `Iterator::eq_by` is not yet stabilized (as of Rust 1.60).
        let mut self_iter''')],PRE+'''fn main() {
    let leaf = Node::new_tree("root");
    let root = HotNode::new_tree("root");
    let a = root.create_as_last_child("a");
    assert!(leaf != root.plain());
    a.create_as_last_child("b");
    assert!(leaf != root.plain(), "a leaf and a chain of three nodes");
}
''','comparing a leaf with a tree that is a chain of at least three nodes','they are reported as equal'))
B.append(('move-to-other-tree-grant-unchecked','C16',[(P,'''        grant.panic_if_invalid_for_node(self);

        if self.belongs_to_same_tree(dest.anchor().plain_ref()) {
            // The source and the destination belong to the same tree.
''','''        if self.belongs_to_same_tree(dest.anchor().plain_ref()) {
            // The source and the destination belong to the same tree.
            grant.panic_if_invalid_for_node(self);
''')],PRE+'''fn main() {
    let root = Node::new_tree("root");
    let child = {
        let grant = root.tree().grant_hierarchy_edit().unwrap();
        root.create_as_last_child(&grant, "child")
    };
    let dest = HotNode::new_tree("dest");
    let grant = dest.tree().grant_hierarchy_edit().unwrap();
    let p = root.tree().prohibit_hierarchy_edit().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _ = child.try_detach_insert_subtree(&grant, InsertAs::LastChildOf(&dest));
    }));
    assert_eq!(root.num_children(), 1, "the prohibited tree was modified");
    drop(p);
}
''','moving a subtree into another tree with a grant for the destination only','a tree under a prohibition loses nodes'))
B.append(('shallow-size-hint-open-open','C13',[(D,'''                    // `Open` for `depth`, `Close` for `depth..=depth_back`, and `Open` for `depth_back`.
                    Ordering::Greater => depth - depth_back + 3,''','''                    // `Open` and `Close` for `depth..=depth_back`, and `Open` for `depth_back`.
                    Ordering::Greater => (depth - depth_back) * 2 + 2,''')],PRE+'''fn main() {
    let root = HotNode::new_tree("root");
    let a = root.create_as_last_child("a");
    let b = a.create_as_last_child("b");
    b.create_as_last_child("c");
    root.create_as_last_child("d");
    let root = root.plain();
    drop((a, b));
}
''','',''))
B.pop()
B.append(('bfs-deep-start-counts','C13',[(BF,'''            (len - 1, None)
        }''','''            // The nodes at the head of the queue are not the leaves, if the first level is already done.
            (len - usize::from(self.current_depth == 0 || len == 2), None)
        }''')],PRE+'''fn main() {
    let root = HotNode::new_tree("root");
    let a = root.create_as_last_child("a");
    root.create_as_last_child("b");
    drop(a);
    let plain = root.plain();
    drop(root);
    let f = plain.bundle_new_hierarchy_edit_prohibition().unwrap();
    let it = f.allocating_breadth_first_traverse_stable(1);
    let (lo, _) = it.size_hint();
    let n = it.count();
    assert!(lo <= n, "{} > {}", lo, n);
}
''','the size hint of an allocating breadth-first traversal with two or more queued nodes below the first level','the lower bound exceeds the number of items'))
B.append(('bfs-nonalloc-skips-empty-level','C11',[(BF,'''    fn next_in_current_depth''','''    fn next_in_current_depth''')],'','',''))
B.pop()
B.append(('frozen-following-siblings-of-inner','C08',[(F,'''    pub fn count_following_siblings(&self) -> usize {
        self.node_core().count_following_siblings()''','''    pub fn count_following_siblings(&self) -> usize {
        if self.has_prev_sibling() && self.has_next_sibling() {
            // The hierarchy cannot change, so use the cached number of children.
            return self
                .parent()
                .map_or(0, |parent| parent.num_children() - 2);
        }
        self.node_core().count_following_siblings()''')],PRE+'''fn main() {
    let root = HotNode::new_tree("root");
    for s in ["a", "b", "c", "d"] { root.create_as_last_child(s); }
    let plain = root.plain();
    drop(root);
    let f = plain.bundle_new_hierarchy_edit_prohibition().unwrap();
    let c = f.last_child().unwrap().prev_sibling().unwrap();
    assert_eq!(c.count_following_siblings(), 1);
}
''','counting the siblings after an inner one of four or more, through a FrozenNode','the number is too large'))
B.append(('moved-shared-node-leaks-old-tree','C17',[(M,'''            MembershipCore::Weak { tree_core } => *tree_core = Rc::downgrade(new_tree_core),
            MembershipCore::Strong {
                tree_core,
                lock_aggregator,
                ..
            } => {
                if lock_aggregator.has_lock() {
                    tree_core.transfer_single_lock_to(new_tree_core)?;
                }
                *tree_core = new_tree_core.clone();''','''            MembershipCore::Weak { tree_core } => *tree_core = Rc::downgrade(new_tree_core),
            MembershipCore::Strong {
                tree_core,
                tree_refcount,
                lock_aggregator,
            } => {
                let mut old = new_tree_core.clone();
                mem::swap(tree_core, &mut old);
                if lock_aggregator.has_lock() {
                    old.transfer_single_lock_to(new_tree_core)?;
                    if tree_refcount.get() > 1 {
                        // The lock tokens still refer to the old tree.
                        mem::forget(old);
                    }
                }''')],PRE+'''use std::rc::Rc;
fn main() {
    let data = Rc::new(());
    let root = HotNode::new_tree(data.clone());
    let child = root.create_as_last_child(data.clone());
    let again = child.clone();
    child.detach_subtree();
    drop((root, child, again));
    assert_eq!(Rc::strong_count(&data), 1, "all nodes are released");
}
''','detaching a node that is held by several handles, one of them a HotNode, and dropping all handles','the tree the node was in is never released'))
B.append(('prev-sibling-insert-before-itself-next','C04',[(ED,'''                match anchor.next_sibling_link() {
                    Some(next_sibling) => {
                        // siblings: anchor --> this --> next_sibling''','''                match anchor.next_sibling_link() {
                    Some(next_sibling) if !self.is_newly_created && next_sibling.is_last_sibling() => {
                        // siblings: next_sibling --> this
                        self.insert_as_last_child_of(&parent)
                    }
                    Some(next_sibling) => {
                        // siblings: anchor --> this --> next_sibling''')],PRE+'''fn main() {
    let root = HotNode::new_tree("root");
    let a = root.create_as_last_child("a");
    let b = root.create_as_last_child("b");
    let c = root.create_as_last_child("c");
    let d = a.create_as_last_child("d");
    d.detach_insert_subtree(InsertAs::NextSiblingOf(&b));
    assert!(b.next_sibling().unwrap().ptr_eq(&d), "d is moved next to b");
    assert!(d.next_sibling().unwrap().ptr_eq(&c));
}
''','moving a subtree to be the next sibling of the last but one sibling','it is moved behind the last sibling'))
only=sys.argv[1:]
fresh()
for b in B:
    if only and b[0] not in only: continue
    plant(*b)
