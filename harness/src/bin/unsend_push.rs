include!("../unsend.inc");
fn push(g: &mut Graph<f32>, n: Counter) {
    let h = g.push(n); g.connect2(knaster_graph::handle::HandleTrait::node_id(&h), 0, 0, NodeOrGraph::Graph).unwrap(); g.edit(|_| {});
}
