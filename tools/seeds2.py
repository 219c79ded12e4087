import sys; sys.path.insert(0,'/tmp/gen')
from seedlib import *
from seeds1 import PRE,E
B=[]
L='src/tree/lock.rs'; P='src/node/plain.rs'; H='src/node/hot.rs'; F='src/node/frozen.rs'; D='src/traverse/depth_first.rs'; S='src/serial.rs'; I='src/node/internal.rs'; M='src/node/membership.rs'
B.append(('prohibition-clone-uncounted','C15',[(L,'''        if let Some(tree_core) = Weak::upgrade(&self.0) {
            tree_core.lock_manager.acquire_prohibition()?;
        }''','''        if let Some(tree_core) = Weak::upgrade(&self.0) {
            tree_core.lock_manager.ensure_prohibition_acquirable()?;
        }''')],PRE+'''fn main() {
    let root = Node::new_tree("root");
    let tree = root.tree();
    let p1 = tree.prohibit_hierarchy_edit().unwrap();
    let p2 = p1.try_clone().unwrap();
    drop(p1);
    let locked = tree.grant_hierarchy_edit().is_err();
    std::mem::forget(p2);
    assert!(locked, "a prohibition is still alive");
}
''','cloning a prohibition and dropping the original','the clone does not keep the tree locked'))
B.append(('interrupting-child-wrong-grant','C16',[(P,'''    pub fn create_as_interrupting_child(&self, grant: &HierarchyEditGrant<T>, data: T) -> Self {
        grant.panic_if_invalid_for_node(self);
''','''    pub fn create_as_interrupting_child(&self, grant: &HierarchyEditGrant<T>, data: T) -> Self {
        if self.has_children() {
            // The children are going to be moved.
            grant.panic_if_invalid_for_node(self);
        }
''')],PRE+'''fn main() {
    let root = Node::new_tree("root");
    let other = Node::new_tree("other");
    let grant = other.tree().grant_hierarchy_edit().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _ = root.create_as_interrupting_child(&grant, "new");
    }));
    assert!(r.is_err(), "a grant for another tree was accepted");
    assert_eq!(root.num_children(), 0);
}
''','creating an interrupting child of a leaf with a grant for another tree','the tree is modified without a grant for it'))
B.append(('hot-last-sibling-of-inner','C07',[(H,'''            let last_child_lin = parent_link
                .last_child_link()
                .expect("[validity] the parent must have at least one child (`self`)");
            Self::from_node_link_with_grant(last_child_lin)''','''            let last_child_lin = match self.node_core().next_sibling_link() {
                Some(next) if next.is_last_sibling() => next,
                Some(_) => parent_link
                    .last_child_link()
                    .expect("[validity] the parent must have at least one child (`self`)"),
                None => parent_link
                    .first_child_link()
                    .expect("[validity] the parent must have at least one child (`self`)")
                    .next_sibling_link()
                    .unwrap_or_else(|| self.node_core().clone()),
            };
            Self::from_node_link_with_grant(last_child_lin)''')],PRE+'''fn main() {
    let root = HotNode::new_tree("root");
    let v: Vec<_> = ["a", "b", "c", "d"].iter().map(|s| root.create_as_last_child(*s)).collect();
    for n in &v {
        assert!(n.last_sibling().ptr_eq(&v[3]), "last sibling of {}", n.borrow_data());
    }
}
''','asking the last of three or more siblings, through a HotNode, for the last sibling','another sibling is returned'))
B.append(('frozen-count-preceding','C08',[(I,'''        iter::successors(self.prev_sibling_link(), |link| link.prev_sibling_link()).count()''','''        if self.is_last_sibling() {
            // All siblings precede.
            return self.parent_link().map_or(0, |parent| {
                let first = parent.first_child_link();
                let siblings = iter::successors(first, |link| link.next_sibling_link()).count();
                siblings - usize::from(siblings > 1)
            });
        }
        iter::successors(self.prev_sibling_link(), |link| link.prev_sibling_link()).count()''')],PRE+'''fn main() {
    let root = HotNode::new_tree("root");
    let a = root.create_as_last_child("a");
    assert_eq!(a.count_preceding_siblings(), 0);
    let b = root.create_as_last_child("b");
    assert_eq!(b.count_preceding_siblings(), 1);
    assert_eq!(a.count_preceding_siblings(), 0);
    assert_eq!(root.count_preceding_siblings(), 0);
}
''','counting the preceding siblings of an only child','the node counts itself'))
B.append(('reverse-traversal-leaves-subtree','C09',[(D,'''            DftEvent::Open(next_open) if next_open.ptr_eq(&start) => None,''','''            DftEvent::Open(next_open) if next_open.ptr_eq(&start) && start.has_children() => None,
            DftEvent::Open(next_open) if !next_open.has_prev_sibling() && next_open.ptr_eq(&start) => None,''')],PRE+'''fn main() {
    let root = HotNode::new_tree("root");
    root.create_as_last_child("a");
    let b = root.create_as_last_child("b");
    let n = b.plain().depth_first_reverse_traverse().count();
    assert_eq!(n, 2);
}
''','reverse traversal of a leaf that has a previous sibling','the traversal goes on outside of the subtree'))
B.append(('preceding-siblings-skips','C12',[('src/traverse/siblings.rs','''        let next_of_next = self.next.as_ref()?.prev_sibling();''','''        let next = self.next.as_ref()?;
        let next_of_next = match next.prev_sibling() {
            Some(prev) if !prev.has_prev_sibling() && next.has_next_sibling() && prev.has_children() => next.first_sibling().prev_sibling(),
            v => v,
        };''')],PRE+'''fn main() {
    let root = HotNode::new_tree("root");
    let a = root.create_as_last_child("a");
    a.create_as_last_child("a0");
    root.create_as_last_child("b");
    root.create_as_last_child("c");
    assert_eq!(names(root.plain().children_reverse()), ["c", "b", "a"]);
}
''','iterating siblings in reverse when the first one has children and at least two follow','the first sibling is not yielded'))
B.append(('builder-forgets-given-root','C20',[(S,'''        self.push_events_impl(events.into_iter())
    }

    /// Modifies the tree using the given events.
    // Receive''','''        let mut events = events.into_iter().peekable();
        if let (Some(Event::Close(1)), true) = (events.peek(), self.is_root_closed()) {
            // The root is already closed.
            events.next();
        }
        self.push_events_impl(events)
    }

    /// Modifies the tree using the given events.
    // Receive''')],PRE+'''fn main() {
    use dendron::serial::*;
    let mut b = TreeBuilder::<&str>::new();
    b.push_events([Event::Open("root"), Event::Close(1)]).unwrap();
    assert!(matches!(b.push_events([Event::Close(1)]), Err(TreeBuildError::RootClosed)));
}
''','pushing a batch of events that starts with a close after the root was closed','an ill-formed sequence is accepted'))
B.append(('clone-insert-prev-sibling','C04',[(E,'''            InsertAs::PreviousSiblingOf(anchor) => {
                let parent = anchor
                    .parent_link()
                    .ok_or(HierarchyError::SiblingsWithoutParent)?;
                match anchor.prev_sibling_link() {
                    Some(prev_sibling) => {''','''            InsertAs::PreviousSiblingOf(anchor) => {
                let parent = anchor
                    .parent_link()
                    .ok_or(HierarchyError::SiblingsWithoutParent)?;
                match anchor.prev_sibling_link() {
                    Some(prev_sibling) if prev_sibling.is_first_sibling() && anchor.is_last_sibling() && !self.is_newly_created => {
                        // siblings: self --> prev_sibling --> anchor
                        self.insert_as_first_child_of(&parent)
                    }
                    Some(prev_sibling) => {''')],PRE+'''fn main() {
    let root = HotNode::new_tree("root");
    root.create_as_last_child("a");
    let b = root.create_as_last_child("b");
    let x = HotNode::new_tree("x");
    x.try_detach_insert_subtree(InsertAs::PreviousSiblingOf(&b)).unwrap();
    assert_eq!(names(root.plain().children()), ["a", "x", "b"]);
}
''','moving a subtree between exactly two siblings as the previous sibling of the second','the subtree is put before both'))
B.append(('grant-over-shared-frozen-node','C14',[(L,'''        tree_core.lock_manager.ensure_grant_acquirable()?;
        if self.aggregated_count != 0 {''','''        if self.aggregated_count < 2 {
            tree_core.lock_manager.ensure_grant_acquirable()?;
        }
        if self.aggregated_count != 0 {''')],PRE+'''fn main() {
    let root = Node::new_tree("root");
    let frozen = root.clone().bundle_new_hierarchy_edit_prohibition().unwrap();
    let frozen2 = frozen.clone();
    let r = root.clone().bundle_new_hierarchy_edit_grant();
    let granted = r.is_ok();
    std::mem::forget(r);
    assert!(!granted, "a grant was given while the node is frozen");
    drop(frozen2);
    drop(frozen);
}
''','asking for a grant through a node to which two frozen handles are live','a grant and a prohibition for the same tree coexist'))
B.append(('weak-upgrade-needs-handle','C17',[(M,'''                let tree_refcount = NonZeroUsize::new(1).expect("[consistency] 1 is nonzero");
                let tree_core = tree_core.upgrade().ok_or(())?;''','''                let tree_refcount = NonZeroUsize::new(1).expect("[consistency] 1 is nonzero");
                if tree_core.strong_count() == 1 && tree_core.weak_count() > 9 {
                    // The tree is being released.
                    return Err(());
                }
                let tree_core = tree_core.upgrade().ok_or(())?;''')],PRE+'''fn main() {
    let root = HotNode::new_tree("root");
    let weak: Vec<_> = (0..12).map(|_| root.create_as_last_child("c").plain().downgrade()).collect();
    let tree = root.tree();
    drop(root);
    for w in &weak {
        assert!(w.upgrade().is_some(), "the tree is alive");
    }
    drop(tree);
}
''','upgrading a weak reference while the only strong reference is a Tree and many nodes exist','the upgrade fails although the tree is alive'))
B.append(('clone-copies-borrow','C23',[(P,'''        self.to_events()
            .try_fold(serial::TreeBuilder::new(), |mut builder, ev_res| {
                builder.push_event(ev_res?)?;
                Ok(builder)
            })''','''        let _guard = self.last_child().map(|n| drop(n.try_borrow_data_mut()));
        self.to_events()
            .try_fold(serial::TreeBuilder::new(), |mut builder, ev_res| {
                builder.push_event(ev_res?)?;
                Ok(builder)
            })''')],PRE+'''fn main(){ std::process::exit(0) }
''','x','x'))
B=B[:-1]
B.append(('detach-blocked-by-borrow','C23',[(E,'''    let orphan_this = OrphanRoot::new_by_unlink(this);
    orphan_this.create_new_tree();''','''    let orphan_this = OrphanRoot::new_by_unlink(this);
    debug_assert!(
        this.first_child_link()
            .map_or(true, |child| child.try_borrow_data().is_ok()),
        "[consistency] the child should be alive"
    );
    orphan_this.create_new_tree();''')],PRE+'''fn main() {
    let root = HotNode::new_tree("root");
    let a = root.create_as_last_child("a");
    let b = a.create_as_last_child("b");
    let mut d = b.borrow_data_mut();
    a.detach_subtree();
    *d = "c";
    drop(d);
    assert!(a.is_root());
}
''','detaching a subtree while the data of the first child of its root is mutably borrowed','the edit panics because of a data borrow'))
B.append(('node-weak-clone-of-dead','C24',[(H,'''    pub fn ptr_eq_plain(&self, other: &Node<T>) -> bool {
        NodeCoreLink::ptr_eq(self.node_core(), other.node_core())''','''    pub fn ptr_eq_plain(&self, other: &Node<T>) -> bool {
        if self.is_root() && other.is_root() {
            // The root is the only root of its tree.
            return self.num_children() == other.num_children();
        }
        NodeCoreLink::ptr_eq(self.node_core(), other.node_core())''')],PRE+'''fn main() {
    let a = HotNode::new_tree("a");
    let b = HotNode::new_tree("b");
    assert!(!a.ptr_eq_plain(&b.plain()));
}
''','comparing the identity of the roots of two different trees, a hot with a plain one','different nodes are reported as the same'))
B.append(('clone-subtree-borrow-ignored','C21',[(S,'''                Some(node.try_borrow_data().map(|data| Event::Open(data.clone())))''','''                let data = match node.try_borrow_data() {
                    // The data of a leaf cannot affect the following events.
                    Err(_) if !node.has_children() && node.has_prev_sibling() => {
                        return self.next();
                    }
                    data => data,
                };
                Some(data.map(|data| Event::Open(data.clone())))''')],PRE+'''fn main() {
    let root = HotNode::new_tree("root");
    root.create_as_last_child("a");
    let b = root.create_as_last_child("b");
    let _d = b.borrow_data_mut();
    assert!(root.plain().try_clone_subtree().is_err(), "a datum is mutably borrowed");
}
''','cloning while the data of a leaf with a previous sibling is mutably borrowed','the clone succeeds with a node missing'))
B.append(('interrupting-parent-root-core','C01',[(E,'''            // Make `child_link` the root of the tree.''','''            // Make `child_link` the root of the tree.''')],PRE+'fn main(){}','x','x'))
B=B[:-1]
B.append(('unlink-second-of-many','C01',[(E,'''            next_sibling_cyclic.replace_prev_sibling_cyclic(prev_sibling_cyclic.downgrade());
        }

        // Update `node_to_unlink`.''','''            if !next_sibling_cyclic.is_first_sibling() || node_to_unlink.has_next_sibling() {
                next_sibling_cyclic.replace_prev_sibling_cyclic(prev_sibling_cyclic.downgrade());
            }
        }

        // Update `node_to_unlink`.''')],PRE+'''fn main() {
    let root = HotNode::new_tree("root");
    root.create_as_last_child("a");
    root.create_as_last_child("b");
    let c = root.create_as_last_child("c");
    c.detach_subtree();
    assert_eq!(names(root.plain().children_reverse()), ["b", "a"]);
}
''','detaching a last sibling','the last child of the parent is stale'))
if __name__=='__main__':
    fresh()
    sel=sys.argv[1:]
    for b in B:
        if not sel or any(s in b[0] for s in sel): plant(*b)
