//! Common navigation interface of the three node handle types.

use crate::payload::P;
use dendron::traverse;
use dendron::{FrozenNode, HotNode, Node};

pub trait Nav: Sized {
    const KIND: &'static str;
    fn pl(&self) -> Node<P>;
    fn parent_(&self) -> Option<Node<P>>;
    fn prev_sibling_(&self) -> Option<Node<P>>;
    fn next_sibling_(&self) -> Option<Node<P>>;
    fn first_sibling_(&self) -> Node<P>;
    fn last_sibling_(&self) -> Node<P>;
    fn first_last_sibling_(&self) -> (Node<P>, Node<P>);
    fn first_child_(&self) -> Option<Node<P>>;
    fn last_child_(&self) -> Option<Node<P>>;
    fn first_last_child_(&self) -> Option<(Node<P>, Node<P>)>;
    fn has_prev_sibling_(&self) -> bool;
    fn has_next_sibling_(&self) -> bool;
    fn num_children_(&self) -> usize;
    fn has_children_(&self) -> bool;
    fn has_one_child_(&self) -> bool;
    fn has_multiple_children_(&self) -> bool;
    fn count_children_(&self) -> usize;
    fn count_preceding_(&self) -> usize;
    fn count_following_(&self) -> usize;
    fn count_ancestors_(&self) -> usize;
    fn is_root_(&self) -> bool;
    fn root_(&self) -> Node<P>;

    fn dft_(&self) -> traverse::DepthFirstTraverser<P>;
    fn rdft_(&self) -> traverse::ReverseDepthFirstTraverser<P>;
    fn t_children(&self) -> traverse::SiblingsTraverser<P>;
    fn t_children_rev(&self) -> traverse::ReverseSiblingsTraverser<P>;
    fn t_ancestors(&self) -> traverse::AncestorsTraverser<P>;
    fn t_ancestors_or_self(&self) -> traverse::AncestorsTraverser<P>;
    fn t_siblings(&self) -> traverse::SiblingsTraverser<P>;
    fn t_siblings_rev(&self) -> traverse::ReverseSiblingsTraverser<P>;
    fn t_prec_self_rev(&self) -> traverse::ReverseSiblingsTraverser<P>;
    fn t_prec_rev(&self) -> traverse::ReverseSiblingsTraverser<P>;
    fn t_foll_self(&self) -> traverse::SiblingsTraverser<P>;
    fn t_foll(&self) -> traverse::SiblingsTraverser<P>;
    fn events_(&self) -> dendron::serial::TreeSerializeIter<P>;
}

macro_rules! impl_nav {
    ($ty:ident, $kind:expr, |$n:ident| $pl:expr) => {
        impl Nav for $ty<P> {
            const KIND: &'static str = $kind;
            fn pl(&self) -> Node<P> {
                let $n = self;
                $pl
            }
            fn parent_(&self) -> Option<Node<P>> {
                self.parent().map(|n| n.pl())
            }
            fn prev_sibling_(&self) -> Option<Node<P>> {
                self.prev_sibling().map(|n| n.pl())
            }
            fn next_sibling_(&self) -> Option<Node<P>> {
                self.next_sibling().map(|n| n.pl())
            }
            fn first_sibling_(&self) -> Node<P> {
                self.first_sibling().pl()
            }
            fn last_sibling_(&self) -> Node<P> {
                self.last_sibling().pl()
            }
            fn first_last_sibling_(&self) -> (Node<P>, Node<P>) {
                let (a, b) = self.first_last_sibling();
                (a.pl(), b.pl())
            }
            fn first_child_(&self) -> Option<Node<P>> {
                self.first_child().map(|n| n.pl())
            }
            fn last_child_(&self) -> Option<Node<P>> {
                self.last_child().map(|n| n.pl())
            }
            fn first_last_child_(&self) -> Option<(Node<P>, Node<P>)> {
                self.first_last_child().map(|(a, b)| (a.pl(), b.pl()))
            }
            fn has_prev_sibling_(&self) -> bool {
                self.has_prev_sibling()
            }
            fn has_next_sibling_(&self) -> bool {
                self.has_next_sibling()
            }
            fn num_children_(&self) -> usize {
                self.num_children()
            }
            fn has_children_(&self) -> bool {
                self.has_children()
            }
            fn has_one_child_(&self) -> bool {
                self.has_one_child()
            }
            fn has_multiple_children_(&self) -> bool {
                self.has_multiple_children()
            }
            fn count_children_(&self) -> usize {
                self.count_children()
            }
            fn count_preceding_(&self) -> usize {
                self.count_preceding_siblings()
            }
            fn count_following_(&self) -> usize {
                self.count_following_siblings()
            }
            fn count_ancestors_(&self) -> usize {
                self.count_ancestors()
            }
            fn is_root_(&self) -> bool {
                self.is_root()
            }
            fn root_(&self) -> Node<P> {
                self.root().pl()
            }
            fn dft_(&self) -> traverse::DepthFirstTraverser<P> {
                self.depth_first_traverse()
            }
            fn rdft_(&self) -> traverse::ReverseDepthFirstTraverser<P> {
                self.depth_first_reverse_traverse()
            }
            fn t_children(&self) -> traverse::SiblingsTraverser<P> {
                self.children()
            }
            fn t_children_rev(&self) -> traverse::ReverseSiblingsTraverser<P> {
                self.children_reverse()
            }
            fn t_ancestors(&self) -> traverse::AncestorsTraverser<P> {
                self.ancestors()
            }
            fn t_ancestors_or_self(&self) -> traverse::AncestorsTraverser<P> {
                self.ancestors_or_self()
            }
            fn t_siblings(&self) -> traverse::SiblingsTraverser<P> {
                self.siblings()
            }
            fn t_siblings_rev(&self) -> traverse::ReverseSiblingsTraverser<P> {
                self.siblings_reverse()
            }
            fn t_prec_self_rev(&self) -> traverse::ReverseSiblingsTraverser<P> {
                self.preceding_siblings_or_self_reverse()
            }
            fn t_prec_rev(&self) -> traverse::ReverseSiblingsTraverser<P> {
                self.preceding_siblings_reverse()
            }
            fn t_foll_self(&self) -> traverse::SiblingsTraverser<P> {
                self.following_siblings_or_self()
            }
            fn t_foll(&self) -> traverse::SiblingsTraverser<P> {
                self.following_siblings()
            }
            fn events_(&self) -> dendron::serial::TreeSerializeIter<P> {
                self.to_events()
            }
        }
    };
}

impl_nav!(Node, "Node", |n| n.clone());
impl_nav!(HotNode, "HotNode", |n| n.plain());
impl_nav!(FrozenNode, "FrozenNode", |n| n.plain());
