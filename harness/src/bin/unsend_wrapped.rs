include!("../unsend.inc");
fn push(g: &mut Graph<f32>, n: Counter) {
    g.edit(|g| { g.push(n.wr_mul(0.5).smooth_params().precise_timing::<4>()).out([0]).to_graph_out(); });
}
