//! A tree without scripted hooks, whose nodes are given back to the allocator at the end.

use node_tree::prelude::*;
use node_tree::trees::tree_simple::TreeSimple;

pub struct Lab(pub Box<TreeSimple>);

impl Lab {
    pub fn new<I: Instanceable>(scene: I) -> Lab { Lab(TreeSimple::new(scene, LoggerVerbosity::OnlyPanics)) }
    pub fn with<I: Instanceable>(scene: I, v: LoggerVerbosity) -> Lab { Lab(TreeSimple::new(scene, v)) }

    pub fn ptr(&mut self) -> *mut dyn NodeTree { self.0.as_dyn_raw_mut() }
    pub fn tree(&mut self) -> &'static mut dyn NodeTree { unsafe { &mut *self.ptr() } }
    pub fn alive(&mut self) -> bool { self.0.get_node(0).is_some() }

    /// All ids in the tree, in tree order.
    pub fn pre_order(&mut self) -> Vec<RID> { if self.alive() { pre_order(self.tree(), 0) } else { Vec::new() } }

    pub fn node(&mut self, r: RID) -> &'static mut dyn Node { self.tree().get_node_mut(r).expect("node") }

    /// The node at that position in tree order.
    pub fn at(&mut self, i: usize) -> &'static mut dyn Node { let r: RID = self.pre_order()[i]; self.node(r) }
}

pub fn pre_order(tree: &dyn NodeTree, top: RID) -> Vec<RID> {
    let mut out:   Vec<RID> = Vec::new();
    let mut stack: Vec<RID> = vec![top];
    while let Some(r) = stack.pop() {
        let Some(n) = tree.get_node(r) else { continue };
        out.push(r);
        stack.extend(n.children().iter().map(|c| c.rid()).collect::<Vec<_>>().into_iter().rev());
    }
    out
}

impl Drop for Lab {
    fn drop(&mut self) {
        if std::thread::panicking() { return; }
        for r in self.pre_order() { drop(unsafe { self.0.unregister_node(r) }); }
    }
}
