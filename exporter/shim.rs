// Instantiation shim: the element type `T` of every dendron item is replaced by
// `Opaque`, whose trait methods the verifier treats as uninterpreted.
extern crate dendron;
use dendron::serial::Event;
use dendron::traverse::DftEvent;
use dendron::Node;

pub struct Opaque(pub u64);
impl Clone for Opaque {
    fn clone(&self) -> Self {
        loop {}
    }
}
impl PartialEq for Opaque {
    fn eq(&self, _: &Self) -> bool {
        loop {}
    }
}
impl Eq for Opaque {}
impl core::fmt::Debug for Opaque {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        loop {}
    }
}
impl Drop for Opaque {
    fn drop(&mut self) {
        loop {}
    }
}

pub struct EvIter(pub u64);
impl Iterator for EvIter {
    type Item = Event<Opaque>;
    fn next(&mut self) -> Option<Self::Item> {
        loop {}
    }
}
pub struct DftIter(pub u64);
impl Iterator for DftIter {
    type Item = DftEvent<Node<Opaque>>;
    fn next(&mut self) -> Option<Self::Item> {
        loop {}
    }
}
fn opaque_fn(_: Opaque) -> Opaque {
    loop {}
}
pub fn map_insert_as(v: dendron::InsertAs<Opaque>) -> dendron::InsertAs<Opaque> {
    v.map(opaque_fn)
}
pub fn map_dft_event(v: DftEvent<Opaque>) -> DftEvent<Opaque> {
    v.map(opaque_fn)
}
pub fn map_event(v: Event<Opaque>) -> Event<Opaque> {
    v.map(opaque_fn)
}
pub fn drop_node(v: Node<Opaque>) {
    drop(v)
}
pub fn drop_hot(v: dendron::HotNode<Opaque>) {
    drop(v)
}
pub fn drop_frozen(v: dendron::FrozenNode<Opaque>) {
    drop(v)
}
pub fn drop_tree(v: dendron::Tree<Opaque>) {
    drop(v)
}
pub fn drop_grant(v: dendron::tree::HierarchyEditGrant<Opaque>) {
    drop(v)
}
pub fn drop_prohibition(v: dendron::tree::HierarchyEditProhibition<Opaque>) {
    drop(v)
}
