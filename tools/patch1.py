s=open('/tmp/gen/seeds1.py').read()
s=s.replace("f.shallow_depth_first_traverse(","f.shallow_depth_first_traverse_stable(").replace("f.allocating_breadth_first_traverse(0)","f.allocating_breadth_first_traverse_stable(0)")
# C18
a=s.index("B.append(('tree-drop-recursion"); b=s.index("B.append(('transfer-takes")
s=s[:a]+r"""B.append(('tree-drop-recursion-on-stairs','C18',[('src/tree.rs','''            if let Some(parent_link) = close_link.parent_link() {''','''            if let (Some(parent_link), true) = (
                close_link.parent_link(),
                close_link.is_last_sibling() || !close_link.has_children(),
            ) {''')],
PRE+'''fn main() {
    // Every node of the chain has a following sibling.
    let t = std::thread::Builder::new().stack_size(1 << 20).spawn(|| {
        let root = HotNode::new_tree(0usize);
        let mut n = root.clone();
        for i in 1..50_000usize {
            let next = n.create_as_last_child(i);
            n.create_as_last_child(i);
            n = next;
        }
        drop(n);
        drop(root);
    }).unwrap();
    t.join().unwrap();
}
''','releasing a deep tree in which the nodes of the long chain have following siblings','the nodes are freed by recursive drops, which overflow the stack'))
"""+s[b:]
a=s.index("B.append(('transfer-takes"); b=s.index("B.append(('shallow-size")
s=s[:a]+r"""B.append(('grant-clone-of-moved-hot','C15',[('src/tree/lock.rs','''            Ordering::Greater => {
                // Grants are active.
                let new_count = self.num_grants.get() - 1;
                self.num_grants.set(new_count);
            }
            Ordering::Equal => panic!''','''            Ordering::Greater => {
                // Grants are active.
                let new_count = self.num_grants.get() & !1;
                self.num_grants.set(new_count);
            }
            Ordering::Equal => panic!''')],
PRE+'''fn main() {
    let root = HotNode::new_tree("root");
    let tree = root.tree();
    let a = root.create_as_last_child("a");
    assert!(tree.prohibit_hierarchy_edit().is_err());
    drop(a);
    drop(root);
    assert!(tree.prohibit_hierarchy_edit().is_ok(), "no grant is alive");
}
''','dropping hot nodes while an even number of grants is live on the tree','the tree stays locked although no handle or token locks it'))
"""+s[b:]
a=s.index("B.append(('eq-ignores"); b=s.index("B.append(('bfs-peek")
s=s[:a]+r"""B.append(('eq-looks-around','C22',[('src/node/internal.rs','''                    (DftEvent::Open(l), DftEvent::Open(r)) => {
                        if *l''','''                    (DftEvent::Open(l), DftEvent::Open(r)) => {
                        if l.is_last_sibling() != r.is_last_sibling() {
                            // The numbers of the children differ.
                            return Ok(false);
                        }
                        if *l''')],
PRE+'''fn main() {
    let root = HotNode::new_tree("root");
    let a = root.create_as_last_child("x");
    a.create_as_last_child("y");
    let b = root.create_as_last_child("x");
    b.create_as_last_child("y");
    assert!(a == b);
    assert!(b.plain() == a.plain().clone_subtree());
    assert!(a.plain() == b.plain().clone_subtree());
}
''','comparing a subtree that has a following sibling with one that has none','subtrees of the same shape and data compare different because of what stands around them'))
"""+s[b:]
open('/tmp/gen/seeds1.py','w').write(s)
