import sys; sys.path.insert(0,'/tmp/gen')
from seedlib import *
E='src/node/edit.rs'
PRE='''use dendron::*;
#[allow(dead_code)]
fn names(it: impl Iterator<Item = Node<&'static str>>) -> Vec<&'static str> {
    it.map(|n| *n.borrow_data()).collect()
}
'''
B=[]
B.append(('replace-last-keeps-old-last','C05',[(E,'''                    // `last_child` is the new last sibling.
                    first_sibling_link.replace_prev_sibling_cyclic(last_child_link.downgrade());''',
'''                    // `last_child` is the new last sibling.
                    if first_sibling_link.ptr_eq(&prev_sibling_link) {
                        first_sibling_link
                            .replace_prev_sibling_cyclic(last_child_link.downgrade());
                    }''')],
PRE+'''fn main() {
    let root = HotNode::new_tree("root");
    let _a = root.create_as_last_child("a");
    let _b = root.create_as_last_child("b");
    let c = root.create_as_last_child("c");
    let _x = c.create_as_last_child("x");
    let y = c.create_as_last_child("y");
    c.replace_with_children();
    assert!(root.last_child().expect("has children").ptr_eq(&y));
    assert_eq!(names(root.plain().children()), ["a", "b", "x", "y"]);
}
''','replacing a last sibling that has children and at least two preceding siblings','the last child of the parent keeps being the replaced node'))
B.append(('replace-root-error-unlinks-child','C06',[(E,'''        // Get the only child.
        let child_link = match''','''        // Disconnect the child from `this`.
        if let Some(child_link) = &first_child_link {
            child_link.replace_parent(NodeCoreLinkWeak::default());
        }

        // Get the only child.
        let child_link = match'''),(E,'''        // Disconnect the child from `this`.
        child_link.replace_parent(NodeCoreLinkWeak::default());

        // Make''','''        // Make''')],
PRE+'''fn main() {
    let root = HotNode::new_tree("root");
    let a = root.create_as_last_child("a");
    let _b = root.create_as_last_child("b");
    assert!(matches!(root.try_replace_with_children(), Err(HierarchyError::SiblingsWithoutParent)));
    let p = a.plain().parent();
    assert!(p.map_or(false, |p| p.ptr_eq(&root.plain())));
}
''','replacing a root that has several children: the refused edit','the refused edit disconnects the first child from its parent'))
B.append(('membership-of-unreferenced-nodes','C19',[('src/node/membership.rs','''MembershipCore::Weak { tree_core } => *tree_core = Rc::downgrade(new_tree_core),''',
'''MembershipCore::Weak { tree_core } => {
                // The tree is going to be released if no strong references remain.
                if Weak::strong_count(tree_core) <= Rc::strong_count(new_tree_core) {
                    *tree_core = Rc::downgrade(new_tree_core);
                }
            }''')],
PRE+'''fn main() {
    let root = HotNode::new_tree("root");
    let a = root.create_as_last_child("a");
    let b = root.create_as_last_child("b");
    b.create_as_last_child("b0");
    let other: Vec<_> = (0..6).map(|_| root.create_as_last_child("c").plain()).collect();
    b.detach_subtree();
    let b0 = b.plain().first_child().unwrap();
    assert!(b0.belongs_to_same_tree(&b.plain()));
    assert!(!b0.belongs_to_same_tree(&a.plain()));
    assert!(b0.root().ptr_eq(&b.plain()));
    drop(other);
}
''','detaching a subtree with a node no handle refers to, out of a tree with many live handles','an unreferenced node of the moved subtree keeps reporting the old tree'))
B.append(('tree-drop-recursion-on-wide-inner','C18',[('src/tree.rs','''            if let Some(parent_link) = close_link.parent_link() {''','''            let parent_link = close_link
                .parent_link()
                .filter(|parent| close_link.is_last_sibling() || parent.is_last_sibling());
            if let Some(parent_link) = parent_link {''')],
PRE+'''fn main() {
    let t = std::thread::Builder::new().stack_size(1 << 20).spawn(|| {
        let root = HotNode::new_tree(0usize);
        let n = root.create_as_last_child(1);
        root.create_as_last_child(2);
        for i in 1..50_000usize {
            n.create_as_last_child(i);
        }
        drop(n);
        drop(root);
    }).unwrap();
    t.join().unwrap();
}
''','releasing a tree with very many children of a node that itself has a following sibling','the nodes are freed by recursive drops, which overflow the stack'))
B.append(('frozen-drop-releases-others','C15',[('src/tree/lock.rs','''            Ordering::Equal => panic!("[consistency] lock count should be nonzero"),
            Ordering::Less => {
                // Prohibitions are active.
                let new_count = self.num_grants.get() + 1;''','''            Ordering::Equal => panic!("[consistency] lock count should be nonzero"),
            Ordering::Less => {
                // Prohibitions are active.
                let new_count = self.num_grants.get() / 2;''')],
PRE+'''fn main() {
    let root = HotNode::new_tree("root");
    let tree = root.tree();
    drop(root);
    let p1 = tree.prohibit_hierarchy_edit().unwrap();
    let p2 = tree.prohibit_hierarchy_edit().unwrap();
    let f = tree.root().bundle_new_hierarchy_edit_prohibition().unwrap();
    drop(f);
    drop(p1);
    assert!(tree.grant_hierarchy_edit().is_err(), "a prohibition is alive");
    drop(p2);
    assert!(tree.grant_hierarchy_edit().is_ok(), "no prohibition is alive");
}
''','dropping a frozen node while two or more other prohibitions are live','the tree is no longer locked while a prohibition is still alive'))
B.append(('shallow-size-hint-close-open','C13',[('src/traverse/depth_first.rs','''                    // `Close` for `depth`, and `Open` for `depth..=depth_back`.
                    Ordering::Less => depth_back - depth + 2,''','''                    // `Close` for `depth`, and `Open` for `depth..=depth_back`.
                    Ordering::Less => depth_back - depth + 3,''')],
PRE+'''fn main() {
    let root = Node::new_tree("root").bundle_new_hierarchy_edit_grant().unwrap();
    root.create_as_last_child("a");
    let b = root.create_as_last_child("b");
    b.create_as_last_child("c");
    let f = root.plain();
    drop(b); drop(root);
    let f = f.bundle_new_hierarchy_edit_prohibition().unwrap();
    let mut it = f.shallow_depth_first_traverse_stable(None);
    it.next(); it.next();
    it.next_back(); it.next_back(); it.next_back();
    // Remaining: Close(a), Open(b), Open(c)
    let (lo, _) = it.size_hint();
    let n = it.count();
    assert!(lo <= n, "lower bound {} but {} items", lo, n);
}
''','a shallow traversal consumed from both ends until a close event faces a deeper open event','the lower bound of size_hint exceeds the number of remaining items'))
B.append(('stable-siblings-back-passes-front','C10',[('src/traverse/siblings.rs','''        if !FrozenNode::ptr_eq(&next, &next_back) {
            self.next = next_back
                .prev_sibling()''','''        if !FrozenNode::ptr_eq(&next, &next_back) || next_back.has_next_sibling() {
            self.next = next_back
                .prev_sibling()''')],
PRE+'''fn main() {
    let root = HotNode::new_tree("root");
    root.create_as_last_child("a");
    root.create_as_last_child("b");
    root.create_as_last_child("c");
    let p = root.plain();
    drop(root);
    let f = p.bundle_new_hierarchy_edit_prohibition().unwrap();
    let mut it = f.children_stable();
    let mut got = vec![];
    got.push(*it.next().unwrap().borrow_data());
    got.push(*it.next_back().unwrap().borrow_data());
    got.push(*it.next_back().unwrap().borrow_data());
    assert_eq!(got, ["a", "c", "b"]);
    assert!(it.next_back().is_none());
    assert!(it.next().is_none());
}
''','consuming the children from both ends, the last one from the back','items are yielded again after both ends have met'))
B.append(('interrupting-child-of-leaf','C03',[(E,'''        // `this` has now only the new node as a child.
        this.num_children_cell().set(1);''','''        // `this` has now only the new node as a child.
        if this.has_children() {
            this.num_children_cell().set(1);
        }''')],
PRE+'''fn main() {
    let root = HotNode::new_tree("root");
    let a = root.create_as_interrupting_child("a");
    assert_eq!(root.num_children(), 1);
    assert!(root.has_children());
    assert!(root.first_child().unwrap().ptr_eq(&a));
}
''','creating an interrupting child of a leaf','the child count of the node stays zero'))
B.append(('insert-between-cyclic','C02',[(E,'''        self.link.replace_prev_sibling_cyclic(prev_sibling_weak);

        // Update the number of children.
        parent.num_children_add(1);
    }''','''        if !prev_sibling.is_first_sibling() || next_sibling.is_last_sibling() {
            self.link.replace_prev_sibling_cyclic(prev_sibling_weak);
        }

        // Update the number of children.
        parent.num_children_add(1);
    }''')],
PRE+'''fn main() {
    let root = HotNode::new_tree("root");
    let a = root.create_as_last_child("a");
    root.create_as_last_child("b");
    root.create_as_last_child("c");
    let n = a.create_as_next_sibling("n");
    assert!(n.prev_sibling().expect("a is before n").ptr_eq(&a));
    assert_eq!(names(root.plain().children_reverse()), ["c", "b", "n", "a"]);
}
''','creating a sibling right after the first of three or more siblings','the new node does not know its previous sibling'))
B.append(('eq-looks-around','C22',[('src/node/internal.rs','''                    (DftEvent::Open(l), DftEvent::Open(r)) => {
                        if *l''','''                    (DftEvent::Open(l), DftEvent::Open(r)) => {
                        let inner = |n: bool, m: bool| !n && !m;
                        if inner(l.is_first_sibling(), l.is_last_sibling())
                            != inner(r.is_first_sibling(), r.is_last_sibling())
                        {
                            // The numbers of the children differ.
                            return Ok(false);
                        }
                        if *l''')],
PRE+'''fn main() {
    let root = HotNode::new_tree("root");
    let a = root.create_as_last_child("x");
    a.create_as_last_child("y");
    let b = root.create_as_last_child("x");
    b.create_as_last_child("y");
    root.create_as_last_child("z");
    assert!(a == b);
    assert!(b.plain() == a.plain().clone_subtree());
    assert!(a.plain() == b.plain().clone_subtree());
}
''','comparing a subtree that stands between siblings with one that does not','subtrees of the same shape and data compare different because of what stands around them'))
B.append(('bfs-peek-depth','C11',[('src/traverse/breadth_first.rs','''                QueuedEvent::Node(next) => Some((next, self.current_depth + 1)),''','''                QueuedEvent::Node(next) => Some((next, self.current_depth)),''')],
PRE+'''fn main() {
    let root = HotNode::new_tree("root");
    root.create_as_last_child("a");
    let p = root.plain();
    drop(root);
    let f = p.bundle_new_hierarchy_edit_prohibition().unwrap();
    let mut it = traverse_bfs(&f);
    loop {
        let peeked = it.peek().map(|(n, d)| (*n.borrow_data(), d));
        let next = it.next().map(|(n, d)| (*n.borrow_data(), d));
        assert_eq!(peeked, next);
        if next.is_none() { break; }
    }
}
fn traverse_bfs(f: &FrozenNode<&'static str>) -> dendron::traverse::AllocatingBreadthFirstTraverser<&'static str> {
    f.allocating_breadth_first_traverse_stable(0)
}
''','peeking a breadth-first traversal at the end of a level','peek reports the depth of the finished level'))
if __name__=='__main__':
    fresh()
    sel=sys.argv[1:]
    for b in B:
        if not sel or any(s in b[0] for s in sel): plant(*b)
