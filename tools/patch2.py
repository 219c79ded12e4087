s=open('/tmp/gen/seeds1.py').read()
s=s.replace('''                        if l.is_last_sibling() != r.is_last_sibling() {
                            // The numbers of the children differ.''','''                        let inner = |n: bool, m: bool| !n && !m;
                        if inner(l.is_first_sibling(), l.is_last_sibling())
                            != inner(r.is_first_sibling(), r.is_last_sibling())
                        {
                            // The numbers of the children differ.''')
s=s.replace('''    let b = root.create_as_last_child("x");
    b.create_as_last_child("y");
    assert!(a == b);''','''    let b = root.create_as_last_child("x");
    b.create_as_last_child("y");
    root.create_as_last_child("z");
    assert!(a == b);''').replace("comparing a subtree that has a following sibling with one that has none","comparing a subtree that stands between siblings with one that does not")
s=s.replace('''            Ordering::Greater => {
                // Grants are active.
                let new_count = self.num_grants.get() - 1;
                self.num_grants.set(new_count);
            }
            Ordering::Equal => panic!\'\'\',\'\'\'            Ordering::Greater => {
                // Grants are active.
                let new_count = self.num_grants.get() & !1;
                self.num_grants.set(new_count);
            }
            Ordering::Equal => panic!''','''            Ordering::Equal => panic!("[consistency] lock count should be nonzero"),
            Ordering::Less => {
                // Prohibitions are active.
                let new_count = self.num_grants.get() + 1;\'\'\',\'\'\'            Ordering::Equal => panic!("[consistency] lock count should be nonzero"),
            Ordering::Less => {
                // Prohibitions are active.
                let new_count = self.num_grants.get() / 2;''')
s=s.replace('''    let a = root.create_as_last_child("a");
    assert!(tree.prohibit_hierarchy_edit().is_err());
    drop(a);
    drop(root);
    assert!(tree.prohibit_hierarchy_edit().is_ok(), "no grant is alive");''','''    drop(root);
    let p1 = tree.prohibit_hierarchy_edit().unwrap();
    let p2 = tree.prohibit_hierarchy_edit().unwrap();
    let f = tree.root().bundle_new_hierarchy_edit_prohibition().unwrap();
    drop(f);
    drop(p1);
    assert!(tree.grant_hierarchy_edit().is_err(), "a prohibition is alive");
    drop(p2);
    assert!(tree.grant_hierarchy_edit().is_ok(), "no prohibition is alive");''').replace('grant-clone-of-moved-hot','frozen-drop-releases-others')
s=s.replace("'dropping hot nodes while an even number of grants is live on the tree','the tree stays locked although no handle or token locks it'","'dropping a frozen node while two or more other prohibitions are live','the tree is no longer locked while a prohibition is still alive'")
s=s.replace('''            if let (Some(parent_link), true) = (
                close_link.parent_link(),
                close_link.is_last_sibling() || !close_link.has_children(),
            ) {''','''            let parent_link = close_link
                .parent_link()
                .filter(|parent| close_link.is_last_sibling() || parent.is_last_sibling());
            if let Some(parent_link) = parent_link {''')
a=s.index("fn main() {\n    // Every node of the chain"); b=s.index("''','releasing a deep tree in which")
s=s[:a]+'''fn main() {
    let t = std::thread::Builder::new().stack_size(1 << 20).spawn(|| {
        let root = HotNode::new_tree(0usize);
        let n = root.create_as_last_child(1);
        root.create_as_last_child(2);
        for i in 1..50_000usize {
            n.create_as_last_child(i);
        }
        drop(n);
        drop(root);
    }).unwrap();
    t.join().unwrap();
}
'''+s[b:]
s=s.replace("releasing a deep tree in which the nodes of the long chain have following siblings","releasing a tree with very many children of a node that itself has a following sibling").replace('drop-recursion-on-stairs','drop-recursion-on-wide-inner')
open('/tmp/gen/seeds1.py','w').write(s)
