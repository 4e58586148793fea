include!("../unsend.inc");
fn push(g: &mut Graph<f32>, n: Counter) {
    g.edit(|g| { g.push(n).out([0]).to_graph_out(); });
}
