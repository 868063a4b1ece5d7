PROPERTY='C23'
NEEDS='a node that is mentioned as dependent before it is added itself'
BREAKS='Adding a node to the sort forgets the dependencies already declared for it.'
EDITS=[('keyhive_core/src/util/topsort.rs','''    pub fn add_node(&mut self, node: T) {
        self.deps.entry(node.clone()).or_default();
        self.rdeps.entry(node).or_default();
''','''    pub fn add_node(&mut self, node: T) {
        self.deps.insert(node.clone(), HashSet::new());
        self.rdeps.entry(node).or_default();
''')]
DEMO='''
use keyhive_core::util::topsort::Topsort;
fn main() {
    let mut t = Topsort::<u32>::new();
    t.add_dependency(2, 1);
    t.add_node(1);
    t.add_node(2);
    assert_eq!(t.pop_frontier(), vec![2]);
    assert_eq!(t.pop_frontier(), vec![1]);
}
'''
