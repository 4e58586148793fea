include!("../unsend.inc");
fn push(g: &mut Graph<f32>, n: Counter) {
    g.edit(|g| { g.push(n.ar_params()).out([0]).to_graph_out(); });
}
