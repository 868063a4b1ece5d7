PROPERTY='C14'
NEEDS='a document with a member who may only relay, asked about in the bulk query'
BREAKS='The query for all agents leaves the group key operations out for those who may only relay a document, while the query for one agent returns them.'
EDITS=[('keyhive_core/src/keyhive.rs','''            for agent_id in transitive.keys() {
                index.entry(*agent_id).or_default().insert(source_id);
            }

            ops.insert(source_id, doc_ops);
        }

        AllCgkaOps { ops, index }
''','''            for (agent_id, (_agent, access)) in transitive.iter() {
                if access.is_reader() {
                    index.entry(*agent_id).or_default().insert(source_id);
                }
            }

            ops.insert(source_id, doc_ops);
        }

        AllCgkaOps { ops, index }
''')]
DEMO='''
use keyhive_crypto::digest::Digest;
fn main() {
    let mut w = World::new(5, 3);
    w.introduce_all();
    let ids: Vec<Identifier> = (0..3).map(|i| w.nodes[i].ident()).collect();
    let d = w.new_doc(0, &[]).unwrap();
    w.add(0, d.into(), ids[1], Access::Relay).unwrap();
    w.add(0, d.into(), ids[2], Access::Edit).unwrap();
    let all = block_on(w.nodes[0].kh.cgka_ops_for_all_agents());
    for i in 1..3 {
        let agent = w.agent(0, ids[i]).unwrap();
        let one: BTreeSet<_> = block_on(w.nodes[0].kh.cgka_ops_reachable_by_agent(&agent)).iter().map(|o| Digest::hash(o.as_ref())).collect();
        let mut bulk = BTreeSet::new();
        for s in all.index.get(&ids[i]).into_iter().flatten() {
            bulk.extend(all.ops[s].iter().map(|o| Digest::hash(o.as_ref())));
        }
        assert!(!one.is_empty());
        assert_eq!(one, bulk, "the two queries differ for P{i}");
    }
}
'''
