include!("../unsend.inc");
fn push(g: &mut Graph<f32>, n: Counter) {
    g.edit(|g| { g.push_with_done_action(n, knaster_core::Done::FreeSelf).out([0]).to_graph_out(); });
}
