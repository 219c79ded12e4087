//! One view of the three node handle types, so that every accessor is exercised on each of them.
use crate::model::D;
use dendron::{FrozenNode, HotNode, InsertAs, Node, Tree, HierarchyError};
use dendron::traverse::*;
use std::cell::{BorrowError, BorrowMutError, Ref, RefMut};

macro_rules! nl {
    ($( $name:ident : $ret:ty ),* $(,)?) => {
        pub trait NL: Sized + Clone {
            const K: &'static str;
            fn pl(&self) -> Node<D>;
            $( fn $name(&self) -> $ret; )*
            fn belongs_to(&self, t: &Tree<D>) -> bool;
            fn same_tree(&self, o: &Self) -> bool;
            fn same(&self, o: &Self) -> bool;
            fn rd(&self) -> Result<Ref<'_, D>, BorrowError>;
            fn wr(&self) -> Result<RefMut<'_, D>, BorrowMutError>;
            fn rd_p(&self) -> Ref<'_, D>;
            fn wr_p(&self) -> RefMut<'_, D>;
            fn clone_try(&self) -> Result<Node<D>, BorrowError>;
            fn clone_p(&self) -> Node<D>;
            fn clone_ins(&self, dest: InsertAs<&HotNode<D>>) -> Result<HotNode<D>, HierarchyError>;
            fn events(&self) -> dendron::serial::TreeSerializeIter<D>;
        }
        nl!(@imp Node, "Node", |s| s.clone(), $( $name : $ret ),*);
        nl!(@imp HotNode, "HotNode", |s| s.plain(), $( $name : $ret ),*);
        nl!(@imp FrozenNode, "FrozenNode", |s| s.plain(), $( $name : $ret ),*);
    };
    (@imp $ty:ident, $k:expr, |$s:ident| $pl:expr, $( $name:ident : $ret:ty ),*) => {
        impl NL for $ty<D> {
            const K: &'static str = $k;
            fn pl(&self) -> Node<D> { let $s = self; $pl }
            $( fn $name(&self) -> $ret { <$ty<D>>::$name(self) } )*
            fn belongs_to(&self, t: &Tree<D>) -> bool { <$ty<D>>::belongs_to(self, t) }
            fn same_tree(&self, o: &Self) -> bool { self.belongs_to_same_tree(o) }
            fn same(&self, o: &Self) -> bool { self.ptr_eq(o) }
            fn rd(&self) -> Result<Ref<'_, D>, BorrowError> { self.try_borrow_data() }
            fn wr(&self) -> Result<RefMut<'_, D>, BorrowMutError> { self.try_borrow_data_mut() }
            fn rd_p(&self) -> Ref<'_, D> { self.borrow_data() }
            fn wr_p(&self) -> RefMut<'_, D> { self.borrow_data_mut() }
            fn clone_try(&self) -> Result<Node<D>, BorrowError> { self.try_clone_subtree() }
            fn clone_p(&self) -> Node<D> { self.clone_subtree() }
            fn clone_ins(&self, dest: InsertAs<&HotNode<D>>) -> Result<HotNode<D>, HierarchyError> { self.try_clone_insert_subtree(dest) }
            fn events(&self) -> dendron::serial::TreeSerializeIter<D> { self.to_events() }
        }
    };
}
nl! {
    tree: Tree<D>, is_root: bool, root: Self,
    parent: Option<Self>, prev_sibling: Option<Self>, next_sibling: Option<Self>,
    first_sibling: Self, last_sibling: Self, first_last_sibling: (Self, Self),
    first_child: Option<Self>, last_child: Option<Self>, first_last_child: Option<(Self, Self)>,
    has_prev_sibling: bool, has_next_sibling: bool, has_children: bool,
    num_children: usize, has_one_child: bool, has_multiple_children: bool,
    count_children: usize, count_preceding_siblings: usize, count_following_siblings: usize, count_ancestors: usize,
    depth_first_traverse: DepthFirstTraverser<D>, depth_first_reverse_traverse: ReverseDepthFirstTraverser<D>,
    children: SiblingsTraverser<D>, children_reverse: ReverseSiblingsTraverser<D>,
    ancestors: AncestorsTraverser<D>, ancestors_or_self: AncestorsTraverser<D>,
    siblings: SiblingsTraverser<D>, siblings_reverse: ReverseSiblingsTraverser<D>,
    preceding_siblings_or_self_reverse: ReverseSiblingsTraverser<D>, preceding_siblings_reverse: ReverseSiblingsTraverser<D>,
    following_siblings_or_self: SiblingsTraverser<D>, following_siblings: SiblingsTraverser<D>,
}
